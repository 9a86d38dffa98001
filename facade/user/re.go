// Code generated by vfcheck -gen. DO NOT EDIT.

package user

import real "os/user"

type Group = real.Group
var Lookup = real.Lookup
var LookupGroup = real.LookupGroup
var LookupGroupId = real.LookupGroupId
var LookupId = real.LookupId
type UnknownGroupError = real.UnknownGroupError
type UnknownGroupIdError = real.UnknownGroupIdError
type UnknownUserError = real.UnknownUserError
type UnknownUserIdError = real.UnknownUserIdError
type User = real.User
