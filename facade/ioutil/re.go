// Code generated by vfcheck -gen. DO NOT EDIT.

package ioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
