// Code generated by vfcheck -gen. DO NOT EDIT.

package ini

import real "gopkg.in/ini.v1"

var AllCapsUnderscore = real.AllCapsUnderscore
var DEFAULT_SECTION = real.DEFAULT_SECTION
type DebugFunc = real.DebugFunc
var DefaultFormatLeft = real.DefaultFormatLeft
var DefaultFormatRight = real.DefaultFormatRight
var DefaultHeader = real.DefaultHeader
var DefaultSection = real.DefaultSection
var Empty = real.Empty
type ErrDelimiterNotFound = real.ErrDelimiterNotFound
type ErrEmptyKeyName = real.ErrEmptyKeyName
type File = real.File
var InsensitiveLoad = real.InsensitiveLoad
var IsErrDelimiterNotFound = real.IsErrDelimiterNotFound
var IsErrEmptyKeyName = real.IsErrEmptyKeyName
type Key = real.Key
var LineBreak = real.LineBreak
type LoadOptions = real.LoadOptions
var LooseLoad = real.LooseLoad
var MapTo = real.MapTo
var MapToWithMapper = real.MapToWithMapper
type NameMapper = real.NameMapper
type Parser = real.Parser
var PrettyEqual = real.PrettyEqual
var PrettyFormat = real.PrettyFormat
var PrettySection = real.PrettySection
var ReflectFrom = real.ReflectFrom
var ReflectFromWithMapper = real.ReflectFromWithMapper
type Section = real.Section
var ShadowLoad = real.ShadowLoad
var SnackCase = real.SnackCase
var StrictMapTo = real.StrictMapTo
var StrictMapToWithMapper = real.StrictMapToWithMapper
type StructReflector = real.StructReflector
var TitleUnderscore = real.TitleUnderscore
type ValueMapper = real.ValueMapper
