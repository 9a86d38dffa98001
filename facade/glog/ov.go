package glog

import "github.com/mozilla/crlite/go/zzvf/env"

type Level int32
type Verbose bool

// VFFatal counts fatal messages.
var VFFatal int

func V(level Level) Verbose { return false }

func (v Verbose) Info(args ...any)                 {}
func (v Verbose) Infoln(args ...any)               {}
func (v Verbose) Infof(format string, args ...any) {}

func Info(args ...any)                    {}
func Infoln(args ...any)                  {}
func Infof(format string, args ...any)    {}
func InfoDepth(d int, args ...any)        {}
func Warning(args ...any)                 {}
func Warningln(args ...any)               {}
func Warningf(format string, args ...any) {}
func Error(args ...any)                   {}
func Errorln(args ...any)                 {}
func Errorf(format string, args ...any)   {}
func Fatal(args ...any)                   { fatal() }
func Fatalln(args ...any)                 { fatal() }
func Fatalf(format string, args ...any)   { fatal() }
func Exit(args ...any)                    { fatal() }
func Exitf(format string, args ...any)    { fatal() }
func Flush()                              {}

func fatal() {
	VFFatal++
	env.ExitCode = 255
	env.Exit()
}
