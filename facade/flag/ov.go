package flag

import (
	real "flag"
	"io"
	"time"
)

// The program's own flags, apart from those of a test binary.
var CommandLine = fresh()

// VFArgs are the arguments of the program.
var VFArgs []string

var Usage = func() {}

func fresh() *real.FlagSet {
	f := real.NewFlagSet("x", real.ContinueOnError)
	f.SetOutput(io.Discard)
	return f
}

func Parse()       { CommandLine.Parse(VFArgs) }
func Parsed() bool { return CommandLine.Parsed() }
func Args() []string {
	return CommandLine.Args()
}
func Arg(i int) string              { return CommandLine.Arg(i) }
func NArg() int                     { return CommandLine.NArg() }
func NFlag() int                    { return CommandLine.NFlag() }
func PrintDefaults()                {}
func Set(name, value string) error  { return CommandLine.Set(name, value) }
func Lookup(name string) *real.Flag { return CommandLine.Lookup(name) }
func Var(v real.Value, name, usage string) {
	CommandLine.Var(v, name, usage)
}
func Bool(name string, value bool, usage string) *bool { return CommandLine.Bool(name, value, usage) }
func BoolVar(p *bool, name string, value bool, usage string) {
	CommandLine.BoolVar(p, name, value, usage)
}
func Int(name string, value int, usage string) *int { return CommandLine.Int(name, value, usage) }
func IntVar(p *int, name string, value int, usage string) {
	CommandLine.IntVar(p, name, value, usage)
}
func Uint64(name string, value uint64, usage string) *uint64 {
	return CommandLine.Uint64(name, value, usage)
}
func Uint64Var(p *uint64, name string, value uint64, usage string) {
	CommandLine.Uint64Var(p, name, value, usage)
}
func String(name string, value string, usage string) *string {
	return CommandLine.String(name, value, usage)
}
func StringVar(p *string, name string, value string, usage string) {
	CommandLine.StringVar(p, name, value, usage)
}
func Duration(name string, value time.Duration, usage string) *time.Duration {
	return CommandLine.Duration(name, value, usage)
}
func DurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	CommandLine.DurationVar(p, name, value, usage)
}

// VFReset forgets the flags, as for another run of a program that defines them as it starts.
func VFReset() { CommandLine = fresh() }
