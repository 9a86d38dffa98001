// Code generated by vfcheck -gen. DO NOT EDIT.

package flag

import real "flag"

var BoolFunc = real.BoolFunc
const ContinueOnError = real.ContinueOnError
var ErrHelp = real.ErrHelp
type ErrorHandling = real.ErrorHandling
const ExitOnError = real.ExitOnError
type Flag = real.Flag
type FlagSet = real.FlagSet
var Float64 = real.Float64
var Float64Var = real.Float64Var
var Func = real.Func
type Getter = real.Getter
var Int64 = real.Int64
var Int64Var = real.Int64Var
var NewFlagSet = real.NewFlagSet
const PanicOnError = real.PanicOnError
var TextVar = real.TextVar
var Uint = real.Uint
var UintVar = real.UintVar
var UnquoteUsage = real.UnquoteUsage
type Value = real.Value
var Visit = real.Visit
var VisitAll = real.VisitAll
