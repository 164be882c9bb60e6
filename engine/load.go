package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	infos     map[*ssa.Function]*FnInfo
	encoded   map[string]bool
	consts    map[*ssa.Const]Value
	base      []*Obj
	solver    *Solver
	t0        time.Time
	polls     int
	stopped   bool
	conc      *Model
	cfg       Config
	noRace    bool
	exploring bool
	stale     bool // slices are extended beyond their length
	absTime   bool // some integer depends on absolute time

	eagerLimit ObjID
	curKey     string
	stepKey    string
	thr        map[string]int
	raceSeen   map[string]bool
	types      map[types.Type]int
	typeKeys   map[string]int
	md5Seen    map[string]hashRec

	globals    map[*ssa.Global]ObjID
	initPkgs   map[string]bool
	models     map[string]*ssa.Function
	redir      map[*ssa.Function]*ssa.Function
	curInitPkg *ssa.Package
	building   bool // running package initialisers: globals are created on demand

	rtErrT, strT types.Type

	// results
	instrs, asserts, assertTriv   int
	steps, states, merges, pruned int
	paths, truncated, maxLevel    int
	unsupN                        int
	asserted                      map[string]int
	reached                       map[string]int
	inputs                        map[*Term]Input
	notes                         map[string]int
	findings                      []*found
	samples                       []*pathSample
	concFindings                  []Finding
	concErr                       string
}

func (e *Engine) note(m string)         { e.notes[m]++ }
func (e *Engine) note2(m string)        { e.notes[m]++ }
func (e *Engine) assertSeen(msg string) { e.asserted[msg]++ }

func (e *Engine) typeID(t types.Type) int {
	if i, ok := e.types[t]; ok {
		return i
	}
	k := types.TypeString(t, nil)
	i, ok := e.typeKeys[k]
	if !ok {
		i = len(e.typeKeys)
		e.typeKeys[k] = i
	}
	e.types[t] = i
	return i
}

// Packages whose initialisers are executed symbolically (their globals have real values).
var initStd = []string{"errors", "io", "bytes", "strings", "internal/oserror", "io/fs", "path", "path/filepath", "internal/filepathlite", "encoding/hex", "encoding/binary", "crypto/aes", "crypto/cipher", "compress/gzip", "unicode/utf8", "internal/poll", "math", "sync", "sync/atomic", "context", "github.com/go-errors/errors"}

func isOurs(path string) bool {
	return strings.HasPrefix(path, "github.com/axgrid/axutils") || strings.HasPrefix(path, "vpharness/")
}

func Load(dir, pkg string) (*Engine, *ssa.Package, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0"),
		BuildFlags: []string{"-tags=vpsym"}}
	ps, err := packages.Load(cfg, pkg)
	if err != nil {
		return nil, nil, err
	}
	if packages.PrintErrors(ps) > 0 {
		return nil, nil, fmt.Errorf("packages contain errors")
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, infos: map[*ssa.Function]*FnInfo{}, consts: map[*ssa.Const]Value{},
		thr: map[string]int{}, raceSeen: map[string]bool{}, types: map[types.Type]int{}, typeKeys: map[string]int{}, md5Seen: map[string]hashRec{},
		globals: map[*ssa.Global]ObjID{}, initPkgs: map[string]bool{}, models: map[string]*ssa.Function{}, redir: map[*ssa.Function]*ssa.Function{},
		asserted: map[string]int{}, reached: map[string]int{}, inputs: map[*Term]Input{}, notes: map[string]int{}, encoded: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if isOurs(p.Pkg.Path()) && p.Pkg.Path() != "vpharness/vp" {
			e.initPkgs[p.Pkg.Path()] = true
		}
	}
	for _, s := range initStd {
		e.initPkgs[s] = true
	}
	// models: functions of vpharness/model with a //vp:model directive
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath != "vpharness/model" {
			return
		}
		sp := e.pkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//vp:model "); ok {
						for _, nm := range strings.Fields(n) {
							e.models[nm] = sp.Func(fd.Name.Name)
						}
					}
				}
			}
		}
	})
	if os.Getenv("GOSMT_V") != "" {
		fmt.Fprintf(os.Stderr, "loaded %d packages in %v\n", len(prog.AllPackages()), time.Since(t0).Round(time.Millisecond))
	}
	e.base = []*Obj{{kind: OCell}}
	m := e.pkgs["vpharness/model"]
	if m == nil {
		return nil, nil, fmt.Errorf("vpharness/model is not imported")
	}
	e.rtErrT = m.Type("RuntimeError").Type()
	e.strT = types.Typ[types.String]
	return e, spkgs[0], nil
}

func (e *Engine) typeByName(n string) types.Type {
	i := strings.LastIndex(n, ".")
	return e.pkgs[n[:i]].Type(n[i+1:]).Type()
}

// globalObj: the base object holding a package-level variable.
func (e *Engine) globalObj(g *ssa.Global) ObjID {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := deref(g.Type())
	o := &Obj{kind: OCell, typ: t, label: g.String()}
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if path == "os" && strings.HasPrefix(g.Name(), "Err") { // the same values as in io/fs
		if f, ok := e.pkgs["io/fs"].Members[g.Name()].(*ssa.Global); ok {
			return e.globalObj(f)
		}
	}
	if !e.initPkgs[path] && !strings.HasPrefix(path, "github.com/rs/zerolog") && g.Name() != "init$guard" && g.String() != "crypto/rand.Reader" {
		panic(unsup("global variable %s of a package whose initialiser is not executed", g))
	}
	z := e.zero(t)
	if a, ok := z.(ArrayV); ok {
		o.arr = a.E
		if o.arr == nil {
			o.arr = []Value{}
		}
	} else {
		o.val = z
	}
	if !e.building {
		panic(unsup("global variable %s first used during exploration", g))
	}
	e.base = append(e.base, o)
	id := ObjID(len(e.base) - 1)
	e.globals[g] = id
	return id
}

func (e *Engine) redirect(name string, fn *ssa.Function) *ssa.Function {
	if len(e.models) == 0 {
		return nil
	}
	if r, ok := e.redir[fn]; ok {
		return r
	}
	var r *ssa.Function
	if m, ok := e.models[name]; ok {
		r = m
	}
	e.redir[fn] = r
	return r
}

var deniedPrefixes = []string{"runtime", "reflect", "syscall", "internal/runtime", "internal/reflectlite", "internal/poll", "internal/syscall", "internal/cpu", "internal/godebug", "os", "net", "crypto", "encoding/gob", "compress", "time", "math/rand", "internal/sync", "testing", "log", "hash", "unique", "weak", "fmt", "encoding/json", "strconv"}

var allowed = map[string]bool{"crypto/md5.New": false}

func (e *Engine) denied(fn *ssa.Function) bool {
	if fn.Pkg == nil && fn.Origin() == nil {
		if o := fn.Object(); o == nil || o.Pkg() == nil {
			return false
		}
	}
	path := fnPkg(fn)
	if isOurs(path) || strings.HasPrefix(path, "github.com/rs/zerolog") {
		return false
	}
	if fn.Name() == "init" {
		return false
	}
	for _, p := range deniedPrefixes {
		if path == p || strings.HasPrefix(path, p+"/") {
			return !allowedFn(fn)
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return ""
}

// allowedFn: functions of otherwise denied packages that are plain Go and may be executed from source.
func allowedFn(fn *ssa.Function) bool {
	n := fnName(fn)
	for _, p := range []string{"(os.FileMode)", "(net.Error)", "(*net.AddrError)", "(*os.PathError)", "(time.Duration)", "(time.Month)", "net.IPv4", "(*reflect.ValueError)",
		"(time.Time)", "(crypto/aes.KeySizeError)", "(*fmt.wrapError)", "(*fmt.wrapErrors)"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// initState runs the package initialisers and returns the state at the start of fn.
func (e *Engine) initState(fn *ssa.Function) (s *State, err error) {
	e.building = true
	s = &State{e: e, epoch: newEpoch(), now: BVc(64, 0), pcset: map[int]bool{}, model: NewModel()}
	save := e.encoded
	e.encoded = nil
	nr := e.noRace
	e.noRace = true
	// every global of the packages we initialise, and every one mentioned anywhere reachable, gets an object now
	var paths []string
	for p := range e.initPkgs {
		if e.pkgs[p] != nil {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		var gs []*ssa.Global
		e.pkgs[p].Build()
		for _, m := range e.pkgs[p].Members {
			if g, ok := m.(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
		for _, g := range gs {
			func() {
				defer func() { recover() }()
				e.globalObj(g)
			}()
		}
	}
	for p, sp := range e.pkgs {
		if strings.HasPrefix(p, "github.com/rs/zerolog") {
			for _, m := range sp.Members {
				if g, ok := m.(*ssa.Global); ok {
					func() {
						defer func() { recover() }()
						e.globalObj(g)
					}()
				}
			}
		}
	}
	if p := e.pkgs["crypto/rand"]; p != nil {
		e.globalObj(p.Members["Reader"].(*ssa.Global))
	}
	e.building = false
	// order: dependencies first
	done := map[string]bool{}
	var visit func(p *types.Package) error
	visit = func(p *types.Package) error {
		if done[p.Path()] {
			return nil
		}
		done[p.Path()] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if err := visit(i); err != nil {
				return err
			}
		}
		if !e.initPkgs[p.Path()] {
			return nil
		}
		if err := e.runInit(s, e.pkgs[p.Path()]); err != nil {
			// variables that were not reached have no known value
			for g, id := range e.globals {
				if g.Pkg != nil && g.Pkg.Pkg == p && s.over[id] == nil {
					delete(e.globals, g)
				}
			}
			e.note("initialiser of " + p.Path() + " executed partially: " + err.Error())
		}
		return nil
	}
	if err := visit(fn.Pkg.Pkg); err != nil {
		return nil, err
	}
	// freeze
	all := append([]*Obj(nil), e.base...)
	for id, o := range s.over {
		all[id] = o
	}
	all = append(all, s.objs...)
	e.base = all
	e.encoded = save
	e.noRace = nr
	e.infos = map[*ssa.Function]*FnInfo{}
	n := &State{e: e, epoch: newEpoch(), now: BVc(64, 0), pcset: map[int]bool{}, model: NewModel()}
	t := &Thread{epoch: n.epoch, key: "0", status: TStart}
	n.threads = []*Thread{t}
	x := &X{e: e, s: n, t: t}
	x.pushCall(fn, nil, nil, nil)
	return n, nil
}

func (e *Engine) runInit(s *State, p *ssa.Package) (err error) {
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	t := &Thread{epoch: s.epoch, key: "0", status: TReady}
	s.threads = []*Thread{t}
	x := &X{e: e, s: s, t: t}
	x.pushCall(fn, nil, nil, nil)
	s.ninstr = 0
	sv := e.cfg.MaxInstr
	e.cfg.MaxInstr = 3000000
	defer func() {
		e.cfg.MaxInstr = sv
		s.threads = nil
		s.dead = false
		s.mainDone = false
		if r := recover(); r != nil {
			switch p := r.(type) {
			case unsupErr:
				err = fmt.Errorf("%s", p.msg)
			case forkSig, infeasible:
				err = fmt.Errorf("nondeterministic initialiser")
			default:
				panic(r)
			}
		}
	}()
	e.curInitPkg = p
	nf := len(e.findings)
	for {
		e.run(s, "0")
		if s.mainDone || s.dead {
			break
		}
		// visible operations of an initialiser happen at once
		if s.granted == "0" {
			return fmt.Errorf("blocked")
		}
		s.granted = "0"
	}
	if len(e.findings) > nf {
		return fmt.Errorf("%s", e.findings[nf].Msg)
	}
	return nil
}
