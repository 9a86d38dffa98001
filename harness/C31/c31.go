//vf:pkg config
//vf:note confInt, confUint64, confBool, confString on symbolic texts (up to three bytes from the environment, two from the file; three and three thorough), and Init with the real flag and ini libraries over modelled files, environment and home directory: every option, each combination of a value that parses, one that does not, and none, per source, with symbolic digits; any two options set together; the command line's configuration file and batch size. Outside: the ini syntax beyond key = value lines, and numbers written with a base prefix or leading zeros in the file.
package config

import (
	"flag"
	"os"
	"os/user"

	"gopkg.in/ini.v1"

	vf "github.com/mozilla/crlite/go/zzvf/vf"
)

var _ = user.Current

// vfDec reads a decimal number: sign allowed if signed.
func vfDec(s string, signed bool) (uint64, bool) {
	neg := false
	if signed && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if s == "" {
		return 0, false
	}
	v := uint64(0)
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vf.And(ok, s[i] >= '0', s[i] <= '9')
		v = v*10 + uint64(s[i]-'0')
	}
	if neg {
		v = -v
	}
	return v, ok
}

const vfKey = "someKey"

// vfSources sets the option in the environment and the file, each with some text or not at all.
func vfSources(envMax, fileMax int) (env string, inEnv bool, file string, inFile bool, sec *ini.Section) {
	if n := vf.Choose("env length", envMax+2); n <= envMax {
		env, inEnv = vf.Str("env", n), true
		for i := 0; i < n; i++ {
			vf.Assume(env[i] != 0)
		}
		os.Setenv(vfKey, env)
	}
	f := ini.Empty()
	switch n := vf.Choose("file length", fileMax+3); {
	case n <= fileMax:
		file, inFile = vf.Str("file", n), true
		for i := 0; i < n; i++ {
			c := file[i]
			vf.Assume(vf.Or(vf.And(c >= '0', c <= '9'), vf.And(c >= 'a', c <= 'z'), vf.And(c >= 'A', c <= 'Z'), c == '-', c == '.'))
		}
		if n > 1 {
			vf.Assume(file[0] != '0')
			vf.Assume(vf.Or(file[0] != '-', file[1] != '0'))
		}
		if _, err := f.Section("").NewKey(vfKey, file); err != nil {
			panic(err)
		}
	case n == fileMax+2:
		return env, inEnv, "", false, nil // no file at all
	}
	if _, err := f.Section("").NewKey("otherKey", "77"); err != nil {
		panic(err)
	}
	return env, inEnv, file, inFile, f.Section("")
}

func VF_C31_int() {
	e, inE, f, inF, sec := vfSources(vf.Bound("environment text", 3, 4), vf.Bound("file text", 2, 3))
	p, other := vf.Int("before"), 5
	confInt(&p, sec, vfKey, 12345)
	ev, eok := vfDec(e, true)
	fv, fok := vfDec(f, true)
	want := uint64(12345)
	if inF && fok {
		want = fv
	}
	if inE && eok {
		want = ev
	}
	vf.Assert(uint64(p) == want, "the environment's number, else the file's, else the default")
	confInt(&other, sec, "unsetKey", 9)
	vf.Assert(other == 9, "another option keeps its default")
}

func VF_C31_uint() {
	e, inE, f, inF, sec := vfSources(vf.Bound("environment text", 3, 4), vf.Bound("file text", 2, 3))
	p, other := vf.U64("before"), uint64(5)
	confUint64(&p, sec, vfKey, 12345)
	ev, eok := vfDec(e, false)
	fv, fok := vfDec(f, false)
	want := uint64(12345)
	if inF && fok {
		want = fv
	}
	if inE && eok {
		want = ev
	}
	vf.Assert(p == want, "the environment's number, else the file's, else the default")
	confUint64(&other, sec, "otherKey", 9)
	vf.Assert(other == 9 || sec != nil && other == 77, "another option has its own value")
}

func VF_C31_string() {
	e, inE, f, inF, sec := vfSources(2, 2)
	p := "before"
	confString(&p, sec, vfKey, "def")
	want := "def"
	if inF && len(f) > 0 {
		want = f
	}
	if inE {
		want = e
	}
	vf.Assert(p == want, "the environment's text, else the file's, else the default")
}

var vfTrue = []string{"1", "t", "T", "true", "TRUE", "True"}
var vfFalse = []string{"0", "f", "F", "false", "FALSE", "False"}

func vfIn(s string, l []string) bool {
	r := false
	for _, x := range l {
		r = vf.Or(r, s == x)
	}
	return r
}

func VF_C31_bool() {
	e, inE, f, inF, sec := vfSources(vf.Bound("environment text", 4, 5), vf.Bound("file text", 1, 1))
	p, def := vf.Bool("before"), vf.Bool("default")
	confBool(&p, sec, vfKey, def)
	got := p
	if inE && vfIn(e, vfTrue) {
		vf.Assert(got, "a true value in the environment")
	} else if inE && vfIn(e, vfFalse) {
		vf.Assert(!got, "a false value in the environment")
	} else if inF && vfIn(f, append([]string{"y"}, vfTrue...)) {
		vf.Assert(got, "a true value in the file")
	} else if inF && vfIn(f, append([]string{"n"}, vfFalse...)) {
		vf.Assert(!got, "a false value in the file")
	} else {
		vf.Assert(got == def, "the default")
	}
}

// A configuration with every option, to compare field by field.
type vfOption struct {
	key  string
	kind byte // u, i, b, s
	def  string
	get  func(c *CTConfig) any
}

var vfOptions = []vfOption{
	{"batchSize", 'u', "4096", func(c *CTConfig) any { return *c.BatchSize }},
	{"remoteSettingsURL", 's', "", func(c *CTConfig) any { return *c.RemoteSettingsURL }},
	{"ctLogMetadata", 's', "", func(c *CTConfig) any { return *c.CTLogMetadata }},
	{"numThreads", 'i', "1", func(c *CTConfig) any { return *c.NumThreads }},
	{"logExpiredEntries", 'b', "false", func(c *CTConfig) any { return *c.LogExpiredEntries }},
	{"runForever", 'b', "false", func(c *CTConfig) any { return *c.RunForever }},
	{"pollingDelay", 'u', "600", func(c *CTConfig) any { return *c.PollingDelay }},
	{"remoteSettingsUpdateInterval", 'u', "3600", func(c *CTConfig) any { return *c.RemoteSettingsUpdateInterval }},
	{"savePeriod", 's', "15m", func(c *CTConfig) any { return *c.SavePeriod }},
	{"certPath", 's', "", func(c *CTConfig) any { return *c.CertPath }},
	{"googleProjectId", 's', "", func(c *CTConfig) any { return *c.GoogleProjectId }},
	{"redisHost", 's', "", func(c *CTConfig) any { return *c.RedisHost }},
	{"redisTimeout", 's', "5s", func(c *CTConfig) any { return *c.RedisTimeout }},
	{"statsRefreshPeriod", 's', "10m", func(c *CTConfig) any { return *c.StatsRefreshPeriod }},
	{"statsdHost", 's', "", func(c *CTConfig) any { return *c.StatsDHost }},
	{"statsdPort", 'i', "8125", func(c *CTConfig) any { return *c.StatsDPort }},
	{"healthAddr", 's', ":8080", func(c *CTConfig) any { return *c.HealthAddr }},
}

func (o *vfOption) is(c *CTConfig, text string) bool {
	switch v := o.get(c).(type) {
	case uint64:
		w, _ := vfDec(text, false)
		return v == w
	case int:
		w, _ := vfDec(text, true)
		return uint64(v) == w
	case bool:
		return v == (text == "true")
	case string:
		return v == text
	}
	return false
}

// vfText is a text for the option: 0 none, 1 one that does not parse, 2 one that does (with a symbolic digit).
func (o *vfOption) text(src string, kind int) (string, bool) {
	d := vf.Str(src, 1)
	vf.Assume(vf.And(d[0] >= '1', d[0] <= '9'))
	switch {
	case kind == 0:
		return "", false
	case o.kind == 's':
		return "text" + d, true
	case kind == 1:
		return d + "x", false
	case o.kind == 'b':
		if vf.Choose(src+" bool", 2) == 0 {
			return "false", true
		}
		return "true", true
	}
	return d + "3", true
}

func VF_C31_init() {
	want := make([]string, len(vfOptions))
	for i, o := range vfOptions {
		want[i] = o.def
	}
	file := "# settings\n\n"
	n := vf.Bound("options set together", 2, 2)
	a := vf.Choose("option", len(vfOptions))
	at := []int{a}
	if n == 2 {
		if b := vf.Choose("second option", vf.Bound("second options", 6, len(vfOptions))); b != a {
			at = append(at, b)
		}
	}
	where := vf.Choose("file", 4) // none, default path, named, named but missing
	for k, i := range at {
		o := &vfOptions[i]
		fk := vf.Choose("in the file", 3)
		if k == 1 {
			fk = 2
		}
		t, ok := o.text("f", fk)
		if fk > 0 {
			file += o.key + " = " + t + "\n"
			if ok && (where == 1 || where == 2) {
				want[i] = t
			}
		}
		ek := 0
		if k == 0 {
			ek = vf.Choose("in the environment", 3)
		}
		t, ok = o.text("e", ek)
		if ek > 0 {
			os.Setenv(o.key, t)
			if ok {
				want[i] = t
			}
		}
	}
	user.VFHome = "/home/u"
	os.VFMkdir("/home/u")
	os.VFMkdir("/etc")
	flag.VFArgs = nil
	switch where {
	case 1:
		os.VFWrite("/home/u/.ct-fetch.ini", []byte(file))
	case 2:
		os.VFWrite("/home/u/.ct-fetch.ini", []byte("batchSize = 99\nhealthAddr = nowhere\n"))
		os.VFWrite("/etc/c.ini", []byte(file))
		flag.VFArgs = []string{"-config", "/etc/c.ini"}
	case 3:
		flag.VFArgs = []string{"-config", "/etc/missing.ini"}
	}
	if vf.Choose("batchSize flag", 2) == 1 {
		d := vf.Str("flag", 1)
		vf.Assume(vf.And(d[0] >= '0', d[0] <= '9'))
		flag.VFArgs = append(flag.VFArgs, "-batchSize", d)
		if d != "0" {
			want[0] = d
		}
	}
	c := NewCTConfig()
	c.Init()
	for i, o := range vfOptions {
		vf.Assert(o.is(c, want[i]), "each option has the value of its highest-ranking valid source")
	}
}
