package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program and everything shared between machines.
type Engine struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	fns          sync.Map // *ssa.Function -> *fnInfo
	globals      sync.Map // *ssa.Global -> *globalInfo
	gmu          sync.Mutex
	nglobals     int
	built        sync.Map
	bmu          sync.Mutex
	rtErrType    types.Type
	skipInit     map[string]bool
	debug        bool
	races        bool // look for data races
	raceFns      sync.Map
	maxDecisions int
	hashPrefix   int // no two messages have digests with the same first hashPrefix bytes
	tier         string
	implCache    sync.Map
	identCache   sync.Map
	methCache    sync.Map
	methMu       sync.Mutex
	loaded       *packages.Package
}

const facadeRoot = "github.com/mozilla/crlite/go/zzvf"
const vfPath = facadeRoot + "/vf"

func sha256sum(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOROOT", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOMODCACHE", "GOCACHE", "PATH", "GOWORK", "HOME", "GOSUMDB", "CGO_ENABLED":
			continue
		}
		env = append(env, kv)
	}
	gocache := os.Getenv("GOCACHE")
	if gocache == "" {
		gocache = "/root/.cache/go-build"
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=readonly", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+gocache, "CGO_ENABLED=0",
		"PATH="+goRoot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
}

const goRoot = "/opt/veriftools/go1.24.13"
const buildTags = "math_big_pure_go,purego"

func LoadEngine(dir string, overlay map[string][]byte, patterns ...string) (*Engine, error) {
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-tags", buildTags},
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 15 {
			errs = errs[:15]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, maxDecisions: 4000, skipInit: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	for _, s := range []string{"runtime", "internal/cpu", "os/signal", "golang.org/x/sys/cpu", "internal/godebug", "crypto/internal/fips140/check", "crypto/internal/fips140deps/godebug", "crypto/internal/sysrand", "internal/poll", "net", "syscall"} {
		e.skipInit[s] = true
	}
	delete(e.skipInit, "syscall")
	delete(e.skipInit, "net")
	vf := e.pkgs[vfPath]
	if vf == nil {
		return nil, fmt.Errorf("vf package not loaded")
	}
	e.rtErrType = vf.Type("RuntimeError").Type()
	return e, nil
}

func (e *Engine) ensureInit(m *Machine, p *ssa.Package) {
	if !m.inited[p] {
		m.initPackage(p)
	}
}

func (e *Engine) NewMachine(solver *Solver) *Machine {
	return &Machine{e: e, solver: solver, inited: map[*ssa.Package]bool{}, maxSteps: 30_000_000, covered: map[*fnInfo]bool{}, nameCtr: map[string]int{}, side: map[*Value]any{}}
}

func (e *Engine) findFunc(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	e.buildPkg(p)
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"function not found: " + pkg + "." + name})
	}
	return f
}

func (e *Engine) rtFunc(name string) *ssa.Function {
	p := e.pkgs[vfPath]
	e.buildPkg(p)
	f := p.Func(name)
	if f == nil {
		panic("run-time function " + name + " missing in vf")
	}
	return f
}

type methKey struct {
	t types.Type
	m *types.Func
}

// method finds the implementation of an interface method for a dynamic type.
func (e *Engine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth}
	if v, ok := e.methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if p := e.prog.Package(n.Obj().Pkg()); p != nil {
			e.buildPkg(p)
		}
	}
	fn := e.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %s", meth.Name(), t)})
	}
	e.methCache.Store(k, fn)
	return fn
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			e.methMu.Lock()
			defer e.methMu.Unlock()
			return e.prog.MethodValue(s)
		}
	}
	return nil
}

type typePair struct{ a, b types.Type }

func (e *Engine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := typePair{a, b}
	if v, ok := e.identCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Identical(a, b)
	e.identCache.Store(k, r)
	return r
}

func (e *Engine) implements(t, iface types.Type) bool {
	k := typePair{t, iface}
	if v, ok := e.implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	e.implCache.Store(k, r)
	return r
}

// namedType finds a package-level type.
func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported{"type not found: " + pkg + "." + name})
	}
	return o.Type()
}

// compileReal compiles the body of a function that normally has an intrinsic.
func (e *Engine) compileReal(x any) *fnInfo {
	fn := x.(*ssa.Function)
	type key struct{ f *ssa.Function }
	if v, ok := e.fns.Load(key{fn}); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn}
	e.compileBody(fi)
	v, _ := e.fns.LoadOrStore(key{fn}, fi)
	return v.(*fnInfo)
}
