package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// X executes instructions of one thread of one state.
type X struct {
	e *Engine
	s *State
	t *Thread
	f *Frame
}

type status int

const (
	stCont status = iota
	stPark        // at a visible operation, or done
)

// ---- registers

func (x *X) get(v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.e.constVal(c)
	case *ssa.Global:
		return Ptr{Obj: x.e.globalObj(c)}
	case *ssa.Function:
		return FuncV{&Closure{Fn: c}}
	case *ssa.Builtin:
		panic(unsup("builtin value %s", c.Name()))
	}
	r, ok := x.f.info.reg[v]
	if !ok {
		panic(unsup("unknown ssa value %v", v))
	}
	val := x.f.regs[r]
	if val == nil {
		panic(fmt.Sprintf("internal: register %s unset in %v at %v", v.Name(), x.f.info.fn, x.f.block.Instrs[x.f.idx]))
	}
	return val
}
func (x *X) set(v ssa.Value, val Value) {
	x.f.regs[x.f.info.reg[v]] = val
}
func (x *X) term(v ssa.Value) *Term {
	t, ok := x.get(v).(*Term)
	if !ok {
		panic(unsup("scalar expected, got %T for %v", x.get(v), v))
	}
	return t
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if v, ok := e.consts[c]; ok {
		return v
	}
	v := e.constVal1(c)
	e.consts[c] = v
	return v
}
func (e *Engine) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsup("constant of type %v", c.Type()))
	}
	info := b.Info()
	switch {
	case info&types.IsBoolean != 0:
		return BoolC(constant.BoolVal(c.Value))
	case info&types.IsString != 0:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return StrV{S: string(rune(i))}
		}
		return StrV{S: constant.StringVal(c.Value)}
	case info&types.IsInteger != 0:
		w, _ := intInfo(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return BVc(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return BVc(w, u)
	case info&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return FC(floatW(b), f)
	}
	panic(unsup("constant %v", c))
}

// ---- solver-backed decisions

func (e *Engine) slice(pc []*Term, extra *Term) []*Term {
	want := map[*Term]bool{}
	for _, v := range extra.Vars() {
		want[v] = true
	}
	used := make([]bool, len(pc))
	out := []*Term{extra}
	for ch := true; ch; {
		ch = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars() {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, v := range c.Vars() {
					want[v] = true
				}
			}
		}
	}
	return out
}

// sat decides pc && extra.
func (e *Engine) sat(s *State, extra *Term) (Result, *Model) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	if s.model.True(extra) {
		return Sat, s.model
	}
	r, m := e.solver.Check(e.slice(s.pc, extra))
	if r != Sat {
		return r, nil
	}
	nm := s.model.With(m)
	return Sat, nm
}

func (x *X) decide(c *Term) bool {
	if x.t != nil && x.t.eager && !c.IsConst() {
		panic(eagerAbort{})
	}
	return x.e.decide(x.s, c)
}

func (e *Engine) decide(s *State, c *Term) bool {
	if c.IsConst() {
		return c.IsTrue()
	}
	if e.conc != nil {
		return e.conc.True(c)
	}
	if s.pcset[c.id] {
		return true
	}
	n := Not(c)
	if s.pcset[n.id] {
		return false
	}
	mv := s.model.True(c)
	other := n
	if !mv {
		other = c
	}
	r, m := e.solver.Check(e.slice(s.pc, other))
	switch r {
	case Unsat:
		if mv {
			s.pcset[c.id] = true
		} else {
			s.pcset[n.id] = true
		}
		return mv
	case Unknown:
		e.note("solver answered unknown on a branch; that branch was not explored")
		if mv {
			s.addPC(c)
		} else {
			s.addPC(n)
		}
		return mv
	}
	panic(forkSig{cond: c, mv: mv, m: s.model.With(m)})
}

// concretize picks (by forking) the concrete value of t, at most limit different ones.
func (x *X) concretize(t *Term, what string) uint64 {
	if t.IsConst() {
		return t.val
	}
	if x.e.conc != nil {
		return x.e.conc.Eval(t)
	}
	for i := 0; ; i++ {
		if i > 300 {
			panic(unsup("too many values for %s", what))
		}
		v := x.s.model.Eval(t)
		if i > 0 {
			// values already excluded by the path condition are not the model's
		}
		if x.decide(Eq(t, Const(t.sort, v))) {
			return v
		}
	}
}

func (x *X) panicGo(desc string, val Value) { panic(goPanic{val: val, desc: desc}) }
func (x *X) rtErr(msg string) {
	panic(goPanic{desc: "runtime error: " + msg, val: IfaceV{T: x.e.rtErrT, V: StrV{S: "runtime error: " + msg}}})
}

// ---- memory with footprints

func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	return b[:len(a)] == a
}

func conflict(a, b byte) bool {
	w := func(c byte) bool { return c == 'W' || c == 'A' }
	at := func(c byte) bool { return c == 'a' || c == 'A' }
	if at(a) && at(b) {
		return false
	}
	return w(a) || w(b)
}

// orderedAfter: thread key c was spawned (transitively) by p at or after p's spawn count n.
func orderedAfter(p string, n int, c string) bool {
	if len(c) <= len(p)+1 || c[:len(p)] != p || c[len(p)] != '.' {
		return false
	}
	k := 0
	for i := len(p) + 1; i < len(c) && c[i] != '.'; i++ {
		k = k*10 + int(c[i]-'0')
	}
	return k >= n
}

// access records a memory access. Races are found in three places: here, against accesses of
// goroutines that ran their first segment early or of a parent after it spawned the (so far unsynchronised)
// current goroutine; within one step (intraStep); and between steps enabled in the same state (stepRace).
func (x *X) access(obj ObjID, path string, kind byte) {
	t := x.t
	if t == nil || t.ghost > 0 || x.e.noRace {
		return
	}
	if t.eager && (kind == 'W' || kind == 'A') && obj < x.e.eagerLimit {
		panic(eagerAbort{})
	}
	if len(x.s.threads) <= 1 {
		return
	}
	for _, o := range x.s.threads {
		if o.key == t.key {
			continue
		}
		for _, fp := range o.fp {
			if fp.Obj == obj && conflict(fp.Kind, kind) && overlap(fp.Path, path) {
				if orderedAfter(o.key, fp.Spawn, t.key) {
					continue
				}
				if !o.eagerRan && !fp.Tail && !(t.virgin && orderedAfter(o.key, 0, t.key)) {
					continue
				}
				x.e.reportRace(x.s, obj, fp.Kind, fp.Pos, kind, x.curPos())
				x.s.dead = true
				panic(infeasible{})
			}
		}
	}
	pos := ""
	fp := FP{Obj: obj, Path: path, Kind: kind, Spawn: t.spawned, Pos: pos, Tail: t.tail}
	n := len(x.s.rels)
	for i := len(x.s.log) - 1; i >= 0 && i > len(x.s.log)-16; i-- {
		l := &x.s.log[i]
		if l.thr == t.key && l.rel == n && l.fp.Obj == obj && l.fp.Path == path && l.fp.Kind == kind && l.fp.Spawn == t.spawned {
			return
		}
	}
	fp.Pos = x.curPos()
	x.s.log = append(x.s.log, LogEnt{t.key, n, fp})
	if t.eager || t.spawnedNow || t.tail {
		t.fp = append(t.fp, fp)
	}
}

type eagerAbort struct{}

// LogEnt: an access within the current step; rel = number of releases made before it.
type LogEnt struct {
	thr string
	rel int
	fp  FP
}

// Rel: an inline release (unlock, wg.Done) within the current step; kind 'w' or 'r' (read unlock).
type Rel struct {
	thr  string
	obj  ObjID
	path string
	kind byte
}

// Acq: what the operation that started the step acquires.
type Acq struct {
	obj  ObjID
	path string
	kind byte // 'w' everything, 'r' only write releases
}

func (e *Engine) reportRace(s *State, obj ObjID, k1 byte, p1 string, k2 byte, p2 string) {
	if os.Getenv("GOSMT_RACE") != "" {
		fmt.Fprintf(os.Stderr, "race obj %d of %d+%d\n%s", obj, len(e.base), len(s.objs), debug.Stack())
		for _, t := range s.threads {
			fmt.Fprintln(os.Stderr, t.key, t.status, t.eagerRan, t.virgin, t.spawnedNow, t.tail, t.fp)
		}
	}
	if p1 > p2 {
		p1, p2, k1, k2 = p2, p1, k2, k1
	}
	e.report(s, Finding{Kind: "race", Msg: fmt.Sprintf("data race on %s: %s at %s and %s at %s", s.describe(obj), kindName(k1), p1, kindName(k2), p2), Key: "race " + p1 + " / " + p2})
}

// covered: access l is ordered before an operation acquiring acq that runs after the step.
func covered(l LogEnt, rels []Rel, acq Acq) bool {
	for i := l.rel; i < len(rels); i++ {
		r := rels[i]
		if r.thr == l.thr && r.obj == acq.obj && r.path == acq.path && (r.kind == 'w' || acq.kind == 'w') {
			return true
		}
	}
	return false
}

// holds: access l happens while its step holds the lock q that the other step acquires.
func holds(l LogEnt, rels []Rel, own []Acq, q Acq) bool {
	for _, o := range own {
		if o.obj != q.obj || o.path != q.path || o.kind != 'w' && q.kind != 'w' {
			continue
		}
		for i := 0; i < l.rel && i < len(rels); i++ {
			if r := rels[i]; r.thr == l.thr && r.obj == o.obj && r.path == o.path {
				return false
			}
		}
		return true
	}
	return false
}

// intraStep looks for conflicting accesses of different goroutines within one step.
func (e *Engine) intraStep(s *State) bool {
	for i, a := range s.log {
		for _, b := range s.log[:i] {
			if a.thr != b.thr && a.fp.Obj == b.fp.Obj && conflict(a.fp.Kind, b.fp.Kind) && overlap(a.fp.Path, b.fp.Path) &&
				!orderedAfter(b.thr, b.fp.Spawn, a.thr) && !orderedAfter(a.thr, a.fp.Spawn, b.thr) {
				e.reportRace(s, a.fp.Obj, a.fp.Kind, a.fp.Pos, b.fp.Kind, b.fp.Pos)
				return true
			}
		}
	}
	return false
}

func kindName(k byte) string {
	switch k {
	case 'R':
		return "read"
	case 'W':
		return "write"
	case 'a':
		return "atomic load"
	}
	return "atomic write"
}
func (s *State) describe(id ObjID) string {
	o := s.obj(id)
	if o.label != "" {
		return o.label
	}
	if o.typ != nil {
		return o.typ.String()
	}
	return fmt.Sprintf("object %d", id)
}

func (x *X) curPos() string {
	// position of the current instruction; fall back to callers inside the repository
	for i := len(x.t.frames) - 1; i >= 0; i-- {
		f := x.t.frames[i]
		if f.idx < len(f.block.Instrs) {
			if p := f.block.Instrs[f.idx].Pos(); p.IsValid() {
				return x.e.pos(p)
			}
		}
		if p := f.info.fn.Pos(); p.IsValid() {
			return x.e.pos(p)
		}
	}
	return "?"
}

func (x *X) load(p Ptr) Value {
	if p.Obj == 0 {
		x.rtErr("invalid memory address or nil pointer dereference")
	}
	x.access(p.Obj, p.Path, 'R')
	return x.s.load(p)
}
func (x *X) store(p Ptr, v Value) {
	if p.Obj == 0 {
		x.rtErr("invalid memory address or nil pointer dereference")
	}
	x.access(p.Obj, p.Path, 'W')
	x.s.store(p, v)
}

// sync marks the start of a visible operation of the current thread.
func (x *X) sync() {
	x.t.fp = nil
	x.t.virgin = false
	x.t.spawnedNow = false
	x.t.eagerRan = false
	x.t.tail = false
}

// release marks an inline release operation (unlock, wg.Done).
func (x *X) release(p Ptr, kind byte) {
	if x.t.ghost > 0 {
		return
	}
	if x.t.eager {
		panic(eagerAbort{})
	}
	x.s.rels = append(x.s.rels, Rel{x.t.key, p.Obj, p.Path, kind})
	x.releasing()
}

// releasing: what the thread did before is now ordered before whatever acquires this release.
func (x *X) releasing() {
	if x.t.ghost > 0 {
		return
	}
	if x.t.spawnedNow {
		for i := range x.t.fp {
			x.t.fp[i].Tail = false
		}
	} else {
		x.t.fp = nil
	}
	x.t.tail = true
}
func (x *X) acquire(p Ptr, kind byte) {
	if x.t.ghost == 0 {
		x.s.acq = append(x.s.acq, Acq{p.Obj, p.Path, kind})
	}
}

func (x *X) elems(sl SliceV) []Value {
	if sl.Len == 0 {
		return nil
	}
	for i := 0; i < sl.Len; i++ {
		x.access(sl.Arr.Obj, sl.Arr.Path+pathElem(sl.Off+i), 'R')
	}
	return x.rawElems(sl)
}
func (x *X) rawElems(sl SliceV) []Value {
	if sl.Len == 0 {
		return nil
	}
	o := x.s.obj(sl.Arr.Obj)
	if len(sl.Arr.Path) == 0 && o.arr != nil {
		return o.arr[sl.Off : sl.Off+sl.Len]
	}
	a := x.s.load(sl.Arr).(ArrayV)
	return a.E[sl.Off : sl.Off+sl.Len]
}
func (x *X) newSlice(et types.Type, v []Value) SliceV {
	if v == nil {
		v = []Value{}
	}
	p := x.s.newCell(types.NewArray(et, int64(len(v))), ArrayV{v}, "")
	return SliceV{Arr: p, Len: len(v), Cap: len(v)}
}

// bytesOf returns the byte terms of a []byte.
func (x *X) bytesOf(v Value) []*Term {
	es := x.elems(v.(SliceV))
	r := make([]*Term, len(es))
	for i, e := range es {
		r[i] = e.(*Term)
	}
	return r
}
func (x *X) mkBytes(b []*Term) SliceV {
	v := make([]Value, len(b))
	for i, t := range b {
		v[i] = t
	}
	return x.newSlice(types.Typ[types.Uint8], v)
}

// ---- equality

func (x *X) eq(a, b Value) *Term {
	switch u := a.(type) {
	case *Term:
		return Eq(u, b.(*Term))
	case StrV:
		v := b.(StrV)
		if u.Len() != v.Len() {
			return False
		}
		if u.Sym == nil && v.Sym == nil {
			return BoolC(u.S == v.S)
		}
		var cs []*Term
		for i := 0; i < u.Len(); i++ {
			c := Eq(u.Byte(i), v.Byte(i))
			if c.IsFalse() {
				return False
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case Ptr:
		return BoolC(u == b.(Ptr))
	case TimeV:
		return Eq(u.T, b.(TimeV).T)
	case StructV:
		var cs []*Term
		for i, f := range u.F {
			c := x.eq(f, b.(StructV).F[i])
			if c.IsFalse() {
				return False
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case ArrayV:
		var cs []*Term
		for i, f := range u.E {
			c := x.eq(f, b.(ArrayV).E[i])
			if c.IsFalse() {
				return False
			}
			cs = append(cs, c)
		}
		return And(cs...)
	case IfaceV:
		v, ok := b.(IfaceV)
		if !ok {
			panic(unsup("iface compared with %T", b))
		}
		if u.T == nil || v.T == nil {
			return BoolC(u.T == nil && v.T == nil)
		}
		if !types.Identical(u.T, v.T) {
			return False
		}
		if !types.Comparable(u.T) {
			x.rtErr("comparing uncomparable type " + u.T.String())
		}
		return x.eq(u.V, v.V)
	case ChanV:
		return BoolC(u == b.(ChanV))
	case MapV:
		return BoolC(u == b.(MapV))
	case FuncV:
		v := b.(FuncV)
		if u.C == nil || v.C == nil {
			return BoolC(u.C == nil && v.C == nil)
		}
		panic(unsup("function comparison"))
	case SliceV:
		v := b.(SliceV)
		if u.Arr.Obj == 0 || v.Arr.Obj == 0 {
			return BoolC(u.Arr.Obj == 0 && v.Arr.Obj == 0)
		}
		panic(unsup("slice comparison"))
	case UnsafeV:
		v := b.(UnsafeV)
		if u.V == nil || v.V == nil {
			return BoolC((u.V == nil || u.V == Value(Ptr{})) && (v.V == nil || v.V == Value(Ptr{})))
		}
		return x.eq(u.V, v.V)
	}
	panic(unsup("comparison of %T", a))
}

// ---- maps

func (x *X) mapFind(o *Obj, k Value) int {
	for i, e := range o.ents {
		if x.decide(x.eq(k, e.K)) {
			return i
		}
	}
	return -1
}
func (x *X) checkHashable(k Value) {
	if i, ok := k.(IfaceV); ok && i.T != nil && !types.Comparable(i.T) {
		x.rtErr("hash of unhashable type " + i.T.String())
	}
}
func (x *X) mapGet(m MapV, k Value) (Value, bool) {
	x.checkHashable(k)
	if m.Obj == 0 {
		return nil, false
	}
	i := x.mapFind(x.s.obj(m.Obj), k)
	x.access(m.Obj, "", 'R')
	if i < 0 {
		return nil, false
	}
	return x.s.obj(m.Obj).ents[i].V, true
}
func (x *X) mapSet(m MapV, k, v Value) {
	x.checkHashable(k)
	if m.Obj == 0 {
		panic(goPanic{desc: "assignment to entry in nil map", val: IfaceV{T: x.e.rtErrT, V: StrV{S: "assignment to entry in nil map"}}})
	}
	i := x.mapFind(x.s.obj(m.Obj), k)
	x.access(m.Obj, "", 'W')
	o := x.s.mut(m.Obj)
	if i >= 0 {
		o.ents[i].V = v
		return
	}
	o.ents = append(o.ents, MapEnt{o.nextID, k, v})
	o.nextID++
}
func (x *X) mapDelete(m MapV, k Value) {
	x.checkHashable(k)
	if m.Obj == 0 {
		return
	}
	i := x.mapFind(x.s.obj(m.Obj), k)
	x.access(m.Obj, "", 'W')
	if i < 0 {
		return
	}
	o := x.s.mut(m.Obj)
	o.ents = append(append([]MapEnt(nil), o.ents[:i]...), o.ents[i+1:]...)
}

// ---- calls

func (x *X) pushCall(fn *ssa.Function, bind, args []Value, ret ssa.Value) *Frame {
	if len(x.t.frames) > 200 {
		panic(unsup("call stack deeper than 200 frames (unbounded recursion?)"))
	}
	info := x.e.info(fn)
	if len(fn.Blocks) == 0 {
		panic(unsup("no body for %s", fn))
	}
	f := &Frame{info: info, block: fn.Blocks[0], regs: make([]Value, info.nreg), ret: -1}
	if ret != nil {
		f.ret = x.f.info.reg[ret]
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("internal: %s called with %d args, wants %d", fn, len(args), len(fn.Params)))
	}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], bind)
	x.t.frames = append(x.t.frames, f)
	return f
}

// call starts calling fv. kind: 'c' a call instruction (advances the caller), 'd' a deferred call, 'g' the body of a new goroutine.
func (x *X) call(fv FuncV, args []Value, ret ssa.Value, kind byte, pos token.Pos) {
	if fv.C == nil {
		x.rtErr("invalid memory address or nil pointer dereference")
	}
	c := fv.C
	if c.Fn == nil {
		x.callIntr(c.Nat, x.e.intrinsic(c.Nat), append(append([]Value(nil), c.NatA...), args...), ret, kind, pos, nil)
		return
	}
	fn := c.Fn
	if fn.Synthetic == "package initializer" {
		// initialisers are run one by one, dependencies first
		if ret != nil {
			x.set(ret, TupleV{})
		}
		x.f.idx++
		return
	}
	name := fnName(fn)
	if strings.HasPrefix(fnPkg(fn), "github.com/rs/zerolog") {
		// logging has no effect
		x.callIntr(name, stubIntr, args, ret, kind, pos, fn.Signature)
		return
	}
	if in := x.e.intrinsic(name); in != nil {
		if len(c.Bind) > 0 {
			panic(unsup("intrinsic %s with bindings", name))
		}
		x.callIntr(name, in, args, ret, kind, pos, fn.Signature)
		return
	}
	if rd := x.e.redirect(name, fn); rd != nil {
		fn = rd
		name = fnName(fn)
	} else if x.e.denied(fn) {
		panic(unsup("call of %s", name))
	}
	f := x.pushCall(fn, c.Bind, args, ret)
	if kind == 'c' {
		// the caller stays at its call instruction until the callee returns
	}
	if kind == 'd' {
		f.isDefer = true
	}
}

func (x *X) callIntr(name string, in *Intrinsic, args []Value, ret ssa.Value, kind byte, pos token.Pos, sig *types.Signature) {
	if in == nil {
		panic(unsup("intrinsic %s missing", name))
	}
	p := &Pend{name: name, in: in, args: args, ret: ret, adv: kind == 'c', pos: pos, sig: sig}
	if in.visible && x.t.ghost == 0 {
		x.t.pend = p
		return
	}
	x.finishIntr(p)
}

// stubIntr: a function without effect, returning zero values.
var stubIntr = &Intrinsic{fn: func(c *Call) Value {
	r := c.p.sig.Results()
	switch r.Len() {
	case 0:
		return TupleV{}
	case 1:
		return c.e.zero(r.At(0).Type())
	}
	return c.e.zero(r)
}}

// finishIntr performs an intrinsic operation and stores its result.
func (x *X) finishIntr(p *Pend) {
	c := &Call{X: x, p: p, args: p.args}
	v := p.in.fn(c)
	if c.again {
		x.t.pend = p
		return
	}
	x.t.pend = nil
	if c.pushFn != nil {
		n := len(x.t.frames)
		x.call(*c.pushFn, c.pushArgs, p.ret, 'c', p.pos)
		if len(x.t.frames) == n {
			panic(unsup("callback of %s is an intrinsic", p.name))
		}
		fr := x.t.frames[n]
		fr.isDefer = !p.adv && n > 0
		if c.pushGhost {
			fr.ghost = true
			x.t.ghost++
		}
		return
	}
	if p.ret != nil {
		if v == nil {
			v = TupleV{}
		}
		x.set(p.ret, v)
	}
	if p.adv {
		x.f.idx++
	}
}

func fnName(fn *ssa.Function) string {
	if n, ok := fnNames[fn]; ok {
		return n
	}
	n := ""
	if o := fn.Origin(); o != nil {
		n = o.String()
	} else {
		n = fn.String()
	}
	fnNames[fn] = n
	return n
}

var fnNames = map[*ssa.Function]string{}

// resolve evaluates the callee and arguments of a call.
func (x *X) resolve(cc *ssa.CallCommon) (FuncV, []Value) {
	var args []Value
	if cc.IsInvoke() {
		iv := x.get(cc.Value).(IfaceV)
		if iv.T == nil {
			x.rtErr("invalid memory address or nil pointer dereference")
		}
		fn := x.e.lookupMethod(iv.T, cc.Method)
		args = append(args, iv.V)
		for _, a := range cc.Args {
			args = append(args, x.get(a))
		}
		return FuncV{&Closure{Fn: fn}}, args
	}
	for _, a := range cc.Args {
		args = append(args, x.get(a))
	}
	return x.get(cc.Value).(FuncV), args
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsup("no method %s on %v", m.Name(), t))
	}
	fn := e.prog.MethodValue(sel)
	if fn == nil {
		panic(unsup("abstract method %s on %v", m.Name(), t))
	}
	return fn
}

// ---- running

// visibleInstr reports whether the instruction is a scheduling point.
func visibleInstr(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.Send, *ssa.Select:
		return true
	case *ssa.UnOp:
		return i.Op == token.ARROW
	}
	return false
}

// run executes thread key until it parks. It may panic with forkSig (state unchanged since the last completed instruction).
func (e *Engine) run(s *State, key string) {
	for {
		x := &X{e: e, s: s, t: s.mutThread(key)}
		if x.t == nil || x.t.status == TDone || x.t.status == TSleeping || s.dead {
			return
		}
		if x.t.status == TResume || x.t.status == TStart {
			if s.granted != key {
				return
			}
			s.granted = ""
			if x.t.status == TResume {
				x.sync()
			}
			x.t.status = TReady
		}
		if s.ninstr++; s.ninstr > e.cfg.MaxInstr {
			panic(unsup("more than %d instructions in one step (unbounded loop?)", e.cfg.MaxInstr))
		}
		e.instrs++
		if n := len(x.t.frames); n > 0 {
			x.f = x.t.frames[n-1]
		}
		if x.t.pend != nil {
			if s.granted != key && x.t.ghost == 0 {
				return
			}
			x.guard(func() {
				p := x.t.pend
				x.sync()
				x.finishIntr(p)
				s.granted = ""
			})
			continue
		}
		if x.f == nil {
			if x.t.eager {
				panic(eagerAbort{})
			}
			x.t.status = TDone
			if key == "0" {
				s.mainDone = true
			}
			return
		}
		if x.f.panicking {
			x.guard(x.unwind)
			continue
		}
		in := x.f.block.Instrs[x.f.idx]
		if visibleInstr(in) {
			if s.granted != key && x.t.ghost == 0 {
				return
			}
			if x.t.ghost > 0 && s.granted != key {
				x.guard(func() { x.ghostChan(in) })
				continue
			}
			x.guard(func() {
				x.chanOp(in)
				s.granted = ""
			})
			continue
		}
		x.guard(func() { x.instr(in) })
	}
}

// guard runs f, turning Go panics of the program under analysis into unwinding.
func (x *X) guard(f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(goPanic)
		if !ok {
			panic(r)
		}
		x.s.granted = ""
		x.t.pend = nil
		if len(x.t.frames) == 0 {
			x.crash(gp)
			return
		}
		fr := x.t.frames[len(x.t.frames)-1]
		fr.panicking = true
		fr.panicVal = gp.val
		fr.panicDesc = gp.desc + " at " + x.curPos()
		fr.recovered = false
	}()
	f()
}

func (x *X) crash(gp goPanic) {
	if x.t.eager {
		panic(eagerAbort{})
	}
	x.e.report(x.s, Finding{Kind: "panic", Msg: "panic: " + gp.desc, Key: "panic " + gp.desc})
	x.s.dead = true
}

func (x *X) popFrame() {
	fr := x.t.frames[len(x.t.frames)-1]
	if fr.ghost {
		x.t.ghost--
	}
	x.t.frames = x.t.frames[:len(x.t.frames)-1]
}

func (x *X) unwind() {
	f := x.f
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		x.runDefer(d, true)
		return
	}
	x.popFrame()
	if len(x.t.frames) == 0 {
		x.crash(goPanic{f.panicVal, f.panicDesc})
		return
	}
	c := x.t.frames[len(x.t.frames)-1]
	c.panicking = true
	c.recovered = false
	c.unrec = false
	c.panicVal = f.panicVal
	c.panicDesc = f.panicDesc
}

func (x *X) runDefer(d DeferRec, unwinding bool) {
	if d.bi != "" {
		if d.bi == "close" {
			x.callIntr("builtin.close", x.e.intrinsic("builtin.close"), d.args, nil, 'd', d.pos, nil)
			return
		}
		x.builtin(d.bi, d.args, d.st, nil)
		return
	}
	n := len(x.t.frames)
	x.call(d.fn.(FuncV), d.args, nil, 'd', d.pos)
	if len(x.t.frames) > n {
		x.t.frames[len(x.t.frames)-1].unwinding = unwinding
	}
}

// recovered: the frame whose panic was recovered returns normally to its caller.
func (x *X) finishRecovered(f *Frame) {
	if f.info.fn.Recover != nil {
		f.prev = f.block
		f.block = f.info.fn.Recover
		f.idx = 0
		return
	}
	res := f.info.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
		v = TupleV{}
	case 1:
		v = x.e.zero(res.At(0).Type())
	default:
		v = x.e.zero(res)
	}
	x.retFrame(f, v)
}

func (x *X) retFrame(f *Frame, v Value) {
	x.popFrame()
	if len(x.t.frames) == 0 {
		x.f = nil
		return
	}
	c := x.t.frames[len(x.t.frames)-1]
	x.f = c
	if f.isDefer {
		if c.panicking && c.recovered {
			// after recover the remaining deferred calls still run, then the function returns
			c.panicking = false
			c.recovered = false
			c.unrec = true
		}
		if c.unrec {
			if len(c.defers) > 0 {
				d := c.defers[len(c.defers)-1]
				c.defers = c.defers[:len(c.defers)-1]
				x.runDefer(d, false)
				return
			}
			c.unrec = false
			x.finishRecovered(c)
		}
		return
	}
	if f.ret >= 0 {
		c.regs[f.ret] = v
	}
	c.idx++
}

func (x *X) jump(to *ssa.BasicBlock) {
	f := x.f
	f.prev = f.block
	f.block = to
	f.idx = 0
	// evaluate phis in parallel
	var vals []Value
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(ph.Edges[pi]))
	}
	for i, ph := range phis {
		x.set(ph, vals[i])
	}
	f.idx = len(phis)
}

func (x *X) instr(in ssa.Instruction) {
	f := x.f
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := x.s.newCell(deref(i.Type()), x.e.zero(deref(i.Type())), i.Comment)
		x.set(i, p)
	case *ssa.UnOp:
		x.set(i, x.unop(i))
	case *ssa.BinOp:
		x.set(i, x.binop(i.Op, x.get(i.X), x.get(i.Y), i.X.Type(), i.Y.Type()))
	case *ssa.Store:
		x.store(x.get(i.Addr).(Ptr), x.get(i.Val))
	case *ssa.Jump:
		x.jump(f.block.Succs[0])
		return
	case *ssa.If:
		if x.decide(x.term(i.Cond)) {
			x.jump(f.block.Succs[0])
		} else {
			x.jump(f.block.Succs[1])
		}
		return
	case *ssa.Phi:
		// entry via Recover block
		panic(unsup("phi reached directly"))
	case *ssa.Return:
		var v Value
		switch len(i.Results) {
		case 0:
			v = TupleV{}
		case 1:
			v = x.get(i.Results[0])
		default:
			t := TupleV{}
			for _, r := range i.Results {
				t.E = append(t.E, x.get(r))
			}
			v = t
		}
		x.retFrame(f, v)
		return
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.runDefer(d, false)
			return
		}
	case *ssa.Panic:
		v := x.get(i.X).(IfaceV)
		panic(goPanic{val: v, desc: x.e.showPanic(v)})
	case *ssa.Defer:
		d := DeferRec{pos: i.Pos()}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			d.bi = b.Name()
			for _, a := range i.Call.Args {
				d.args = append(d.args, x.get(a))
			}
			if len(i.Call.Args) > 0 {
				d.st = i.Call.Args[0].Type()
			}
		} else {
			d.fn, d.args = x.resolve(&i.Call)
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		if _, ok := i.Call.Value.(*ssa.Builtin); ok {
			panic(unsup("go builtin"))
		}
		fv, args := x.resolve(&i.Call)
		x.spawn(fv, args, i.Pos())
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "close" {
				x.callIntr("builtin.close", x.e.intrinsic("builtin.close"), []Value{x.get(i.Call.Args[0])}, i, 'c', i.Pos(), nil)
				return
			}
			if b.Name() == "recover" {
				x.set(i, x.doRecover())
				break
			}
			var args []Value
			for _, a := range i.Call.Args {
				args = append(args, x.get(a))
			}
			var st types.Type
			if len(i.Call.Args) > 0 {
				st = i.Call.Args[0].Type()
			}
			v := x.builtin(b.Name(), args, st, i)
			if v == nil {
				v = TupleV{}
			}
			x.set(i, v)
			break
		}
		fv, args := x.resolve(&i.Call)
		x.call(fv, args, i, 'c', i.Pos())
		return
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Bind = append(c.Bind, x.get(b))
		}
		x.set(i, FuncV{c})
	case *ssa.MakeInterface:
		x.set(i, IfaceV{T: i.X.Type(), V: x.get(i.X)})
	case *ssa.ChangeInterface:
		x.set(i, x.get(i.X))
	case *ssa.ChangeType:
		x.set(i, x.get(i.X))
	case *ssa.Convert:
		x.set(i, x.convert(x.get(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		x.set(i, x.convert(x.get(i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer:
		sl := x.get(i.X).(SliceV)
		n := int(deref(i.Type()).Underlying().(*types.Array).Len())
		if sl.Len < n {
			x.rtErr("cannot convert slice to array pointer: length too small")
		}
		if sl.Arr.Obj == 0 {
			x.set(i, Ptr{})
		} else if sl.Off == 0 {
			x.set(i, sl.Arr)
		} else {
			panic(unsup("array pointer into the middle of a slice"))
		}
	case *ssa.TypeAssert:
		x.typeAssert(i)
	case *ssa.Extract:
		x.set(i, x.get(i.Tuple).(TupleV).E[i.Index])
	case *ssa.Field:
		x.set(i, x.get(i.X).(StructV).F[i.Field])
	case *ssa.FieldAddr:
		p := x.get(i.X).(Ptr)
		if p.Obj == 0 {
			x.rtErr("invalid memory address or nil pointer dereference")
		}
		x.set(i, p.Elem(i.Field))
	case *ssa.IndexAddr:
		x.indexAddr(i)
	case *ssa.Index:
		idx := x.idx64(i.Index)
		switch a := x.get(i.X).(type) {
		case ArrayV:
			x.boundsT(idx, len(a.E))
			x.set(i, x.pick(a.E, idx))
		case StrV:
			x.set(i, x.strIndex(a, idx))
		default:
			panic(unsup("index of %T", a))
		}
	case *ssa.Lookup:
		if s, ok := x.get(i.X).(StrV); ok {
			x.set(i, x.strIndex(s, x.idx64(i.Index)))
			break
		}
		m := x.get(i.X).(MapV)
		v, ok := x.mapGet(m, x.get(i.Index))
		if v == nil {
			v = x.e.zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			x.set(i, TupleV{[]Value{v, BoolC(ok)}})
		} else {
			x.set(i, v)
		}
	case *ssa.MapUpdate:
		x.mapSet(x.get(i.Map).(MapV), x.get(i.Key), x.get(i.Value))
	case *ssa.MakeMap:
		o := &Obj{kind: OMap, typ: i.Type(), label: "map " + i.Type().String()}
		x.set(i, MapV{x.s.newObj(o)})
	case *ssa.MakeChan:
		n := x.concretize(x.to64(x.term(i.Size), i.Size.Type()), "channel size")
		if int64(n) < 0 {
			x.rtErr("makechan: size out of range")
		}
		x.set(i, ChanV{x.s.newObj(&Obj{kind: OChan, typ: i.Type(), cap: int(n)})})
	case *ssa.MakeSlice:
		n := x.makeLen(i.Len)
		c := x.makeLen(i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		if n < 0 || c < n {
			x.rtErr("makeslice: len out of range")
		}
		rc := c
		if c > 2048 { // large capacities are only a hint
			rc = n
			x.e.note2("capacity of a make() above 2048 represented by its length")
		}
		z := x.e.zero(et)
		vs := make([]Value, rc)
		for k := range vs {
			vs[k] = z
		}
		sl := x.newSlice(et, vs)
		sl.Len = n
		x.set(i, sl)
	case *ssa.Slice:
		x.set(i, x.sliceOp(i))
	case *ssa.Range:
		x.rangeStart(i)
	case *ssa.Next:
		x.next(i)
	default:
		panic(unsup("instruction %T", in))
	}
	x.f.idx++
}

func (x *X) makeLen(v ssa.Value) int {
	n := int64(x.concretize(x.to64(x.term(v), v.Type()), "make size"))
	if n > 100000 {
		panic(unsup("make of %d elements", n))
	}
	return int(n)
}

func (x *X) doRecover() Value {
	n := len(x.t.frames)
	f := x.f
	if n >= 2 && f.isDefer && f.unwinding {
		c := x.t.frames[n-2]
		if c.panicking && !c.recovered {
			c.recovered = true
			return c.panicVal
		}
	}
	return IfaceV{}
}

func (x *X) spawn(fv FuncV, args []Value, pos token.Pos) *Thread {
	if fv.C == nil {
		x.rtErr("go of nil func value")
	}
	if len(x.s.threads) > x.e.cfg.MaxThreads {
		panic(unsup("more than %d goroutines", x.e.cfg.MaxThreads))
	}
	key := fmt.Sprintf("%s.%d", x.t.key, x.t.spawned)
	x.t.spawned++
	if x.t.eager {
		panic(eagerAbort{})
	}
	x.t.spawnedNow = true
	nt := &Thread{epoch: x.s.epoch, key: key, status: TStart, virgin: true}
	x.s.threads = append(x.s.threads, nt)
	y := &X{e: x.e, s: x.s, t: nt}
	y.call(fv, args, nil, 'g', pos)
	if len(nt.frames) > 0 {
		nt.frames[0].isDefer = false
	}
	x.s.runq = append(x.s.runq, key)
	return nt
}

// ---- operators

func (x *X) idx64(v ssa.Value) *Term { return x.to64(x.term(v), v.Type()) }

func (x *X) to64(t *Term, typ types.Type) *Term {
	if t.sort.W == 64 {
		return t
	}
	_, signed := intInfo(typ.Underlying().(*types.Basic))
	if signed {
		return SExt(64, t)
	}
	return ZExt(64, t)
}

func (x *X) boundsT(idx *Term, n int) {
	if !x.decide(Cmp(OUlt, idx, BVc(64, uint64(n)))) {
		v := "?"
		if idx.IsConst() {
			v = fmt.Sprint(idx.Int())
		}
		_ = v
		x.rtErr("index out of range")
	}
}
func (x *X) pick(es []Value, idx *Term) Value {
	if idx.IsConst() {
		return es[idx.val]
	}
	// scalar: if-then-else chain
	if _, ok := es[0].(*Term); ok && len(es) <= 256 {
		r := es[len(es)-1].(*Term)
		for k := len(es) - 2; k >= 0; k-- {
			r = Ite(Eq(idx, BVc(64, uint64(k))), es[k].(*Term), r)
		}
		return r
	}
	return es[x.concretize(idx, "index")]
}
func (x *X) strIndex(s StrV, idx *Term) Value {
	x.boundsT(idx, s.Len())
	if idx.IsConst() {
		return s.Byte(int(idx.val))
	}
	es := make([]Value, s.Len())
	for i := range es {
		es[i] = s.Byte(i)
	}
	return x.pick(es, idx)
}

func (x *X) indexAddr(i *ssa.IndexAddr) {
	idx := x.idx64(i.Index)
	switch a := x.get(i.X).(type) {
	case SliceV:
		x.boundsT(idx, a.Len)
		k := int(x.concretize(idx, "index"))
		x.set(i, a.Arr.Elem(a.Off+k))
	case Ptr:
		n := int(deref(i.X.Type()).Underlying().(*types.Array).Len())
		if a.Obj == 0 {
			x.rtErr("invalid memory address or nil pointer dereference")
		}
		x.boundsT(idx, n)
		x.set(i, a.Elem(int(x.concretize(idx, "index"))))
	default:
		panic(unsup("indexaddr of %T", a))
	}
}

func (x *X) optInt(v ssa.Value, def int) int {
	if v == nil {
		return def
	}
	return int(int64(x.concretize(x.idx64(v), "slice bound")))
}

// restartSig: the exploration starts again with a finer notion of state.
type restartSig struct{}

func (e *Engine) needStale() {
	if !e.stale && e.exploring && e.conc == nil {
		forceStale = true
		panic(restartSig{})
	}
}
func (e *Engine) needAbs() {
	if !e.absTime && e.exploring && e.conc == nil {
		forceAbs = true
		panic(restartSig{})
	}
}

var forceStale, forceAbs bool

func (x *X) sliceOp(i *ssa.Slice) Value {
	// bounds are decided first, concretised afterwards
	chk := func(v ssa.Value, max int) {
		if v != nil {
			if !x.decide(Cmp(OUle, x.idx64(v), BVc(64, uint64(max)))) {
				x.rtErr("slice bounds out of range")
			}
		}
	}
	switch a := x.get(i.X).(type) {
	case StrV:
		n := a.Len()
		chk(i.High, n)
		hi := x.optInt(i.High, n)
		chk(i.Low, hi)
		lo := x.optInt(i.Low, 0)
		if a.Sym != nil {
			return mkStr(a.Sym[lo:hi])
		}
		return StrV{S: a.S[lo:hi]}
	case SliceV:
		chk(i.Max, a.Cap)
		mx := x.optInt(i.Max, a.Cap)
		chk(i.High, mx)
		hi := x.optInt(i.High, a.Len)
		if i.High == nil && hi > mx {
			x.rtErr("slice bounds out of range")
		}
		chk(i.Low, hi)
		lo := x.optInt(i.Low, 0)
		if a.Arr.Obj == 0 {
			return SliceV{}
		}
		if hi > a.Len && !x.e.stale {
			x.e.needStale()
		}
		return SliceV{Arr: a.Arr, Off: a.Off + lo, Len: hi - lo, Cap: mx - lo}
	case Ptr:
		if a.Obj == 0 {
			x.rtErr("invalid memory address or nil pointer dereference")
		}
		n := int(deref(i.X.Type()).Underlying().(*types.Array).Len())
		chk(i.Max, n)
		mx := x.optInt(i.Max, n)
		chk(i.High, mx)
		hi := x.optInt(i.High, n)
		chk(i.Low, hi)
		lo := x.optInt(i.Low, 0)
		return SliceV{Arr: a, Off: lo, Len: hi - lo, Cap: mx - lo}
	}
	panic(unsup("slice of %T", x.get(i.X)))
}

func (x *X) unop(i *ssa.UnOp) Value {
	switch i.Op {
	case token.MUL:
		v := x.get(i.X)
		p, ok := v.(Ptr)
		if !ok {
			panic(unsup("load through %T", v))
		}
		return x.load(p)
	case token.NOT:
		return Not(x.term(i.X))
	case token.SUB:
		t := x.term(i.X)
		if t.sort.K == KFP {
			return FNeg(t)
		}
		return Neg(t)
	case token.XOR:
		return BNot(x.term(i.X))
	}
	panic(unsup("unary %v", i.Op))
}

func (x *X) binop(op token.Token, av, bv Value, at, bt types.Type) Value {
	switch op {
	case token.EQL:
		return x.eqMixed(av, bv)
	case token.NEQ:
		return Not(x.eqMixed(av, bv))
	}
	if s, ok := av.(StrV); ok {
		return x.strOp(op, s, bv.(StrV))
	}
	a, ok := av.(*Term)
	if !ok {
		panic(unsup("binary %v on %T", op, av))
	}
	b := bv.(*Term)
	if a.sort.K == KFP {
		switch op {
		case token.ADD:
			return fbin(OFAdd, a.sort, a, b)
		case token.SUB:
			return fbin(OFSub, a.sort, a, b)
		case token.MUL:
			return fbin(OFMul, a.sort, a, b)
		case token.QUO:
			return fbin(OFDiv, a.sort, a, b)
		case token.LSS:
			return fbin(OFLt, BoolS, a, b)
		case token.LEQ:
			return fbin(OFLe, BoolS, a, b)
		case token.GTR:
			return fbin(OFLt, BoolS, b, a)
		case token.GEQ:
			return fbin(OFLe, BoolS, b, a)
		}
		panic(unsup("float op %v", op))
	}
	if a.sort.K == KBool {
		switch op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
		panic(unsup("bool op %v", op))
	}
	w, signed := intInfo(at.Underlying().(*types.Basic))
	switch op {
	case token.ADD:
		return Bin(OAdd, a, b)
	case token.SUB:
		return Bin(OSub, a, b)
	case token.MUL:
		return Bin(OMul, a, b)
	case token.AND:
		return Bin(OBAnd, a, b)
	case token.OR:
		return Bin(OBOr, a, b)
	case token.XOR:
		return Bin(OBXor, a, b)
	case token.AND_NOT:
		return Bin(OBAnd, a, BNot(b))
	case token.QUO, token.REM:
		if x.decide(Eq(b, Const(b.sort, 0))) {
			panic(goPanic{desc: "runtime error: integer divide by zero", val: IfaceV{T: x.e.rtErrT, V: StrV{S: "runtime error: integer divide by zero"}}})
		}
		o := map[bool]Op{true: OSDiv, false: OUDiv}[signed]
		if op == token.REM {
			o = map[bool]Op{true: OSRem, false: OURem}[signed]
		}
		return Bin(o, a, b)
	case token.SHL, token.SHR:
		bw, bs := intInfo(bt.Underlying().(*types.Basic))
		if bs && x.decide(Cmp(OSlt, b, BVc(bw, 0))) {
			x.rtErr("negative shift amount")
		}
		o := OShl
		if op == token.SHR {
			o = OLShr
			if signed {
				o = OAShr
			}
		}
		if bw == w {
			return Bin(o, a, b)
		}
		if bw < w {
			return Bin(o, a, ZExt(w, b))
		}
		big := Not(Cmp(OUlt, b, BVc(bw, uint64(w))))
		over := BVc(w, 0)
		if o == OAShr {
			over = Bin(OAShr, a, BVc(w, uint64(w-1)))
		}
		return Ite(big, over, Bin(o, a, Extract(w-1, 0, b)))
	case token.LSS:
		return Cmp(map[bool]Op{true: OSlt, false: OUlt}[signed], a, b)
	case token.LEQ:
		return Cmp(map[bool]Op{true: OSle, false: OUle}[signed], a, b)
	case token.GTR:
		return Cmp(map[bool]Op{true: OSlt, false: OUlt}[signed], b, a)
	case token.GEQ:
		return Cmp(map[bool]Op{true: OSle, false: OUle}[signed], b, a)
	}
	panic(unsup("binary %v", op))
}

func (x *X) eqMixed(a, b Value) *Term {
	return x.eq(a, b)
}

func (x *X) strOp(op token.Token, a, b StrV) Value {
	if op == token.ADD {
		if a.Sym == nil && b.Sym == nil {
			return StrV{S: a.S + b.S}
		}
		var r []*Term
		for i := 0; i < a.Len(); i++ {
			r = append(r, a.Byte(i))
		}
		for i := 0; i < b.Len(); i++ {
			r = append(r, b.Byte(i))
		}
		return mkStr(r)
	}
	lt := func(a, b StrV) *Term {
		// lexicographic less-than
		n := min(a.Len(), b.Len())
		r := BoolC(a.Len() < b.Len())
		for i := n - 1; i >= 0; i-- {
			r = Or(Cmp(OUlt, a.Byte(i), b.Byte(i)), And(Eq(a.Byte(i), b.Byte(i)), r))
		}
		return r
	}
	switch op {
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return Not(lt(b, a))
	case token.GEQ:
		return Not(lt(a, b))
	}
	panic(unsup("string op %v", op))
}

func (x *X) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case StrV:
				return s
			case SliceV:
				if et := fu.(*types.Slice).Elem().Underlying().(*types.Basic); et.Kind() == types.Byte {
					return mkStr(x.bytesOf(s))
				}
				var rs []rune
				for _, e := range x.elems(s) {
					t := e.(*Term)
					if !t.IsConst() {
						panic(unsup("symbolic rune slice to string"))
					}
					rs = append(rs, rune(t.Int()))
				}
				return StrV{S: string(rs)}
			case *Term:
				if s.IsConst() {
					return StrV{S: string(rune(s.Int()))}
				}
				if x.decide(And(Cmp(OSle, Const(s.sort, 0), s), Cmp(OSlt, s, Const(s.sort, 128)))) {
					return mkStr([]*Term{Extract(7, 0, s)})
				}
				panic(unsup("symbolic rune to string"))
			}
		}
		if tb.Kind() == types.UnsafePointer {
			if u, ok := v.(UnsafeV); ok {
				return u
			}
			return UnsafeV{v}
		}
		fb, ok := fu.(*types.Basic)
		if !ok {
			panic(unsup("convert %v to %v", from, to))
		}
		t := v.(*Term)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			w, _ := intInfo(tb)
			_, s := intInfo(fb)
			if s {
				return SExt(w, t)
			}
			return ZExt(w, t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			_, s := intInfo(fb)
			return FFromInt(t, s, floatW(tb))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return FToF(t, floatW(tb))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			w, s := intInfo(tb)
			return FToInt(t, w, s)
		}
		panic(unsup("convert %v to %v", from, to))
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(StrV); ok {
			if ts.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
				b := make([]*Term, s.Len())
				for i := range b {
					b[i] = s.Byte(i)
				}
				return x.mkBytes(b)
			}
			if s.Sym != nil {
				panic(unsup("symbolic string to runes"))
			}
			var vs []Value
			for _, r := range s.S {
				vs = append(vs, BVc(32, uint64(r)))
			}
			return x.newSlice(ts.Elem(), vs)
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		if u, ok := v.(UnsafeV); ok {
			if u.V == nil {
				return Ptr{}
			}
			if p, ok := u.V.(Ptr); ok {
				return p
			}
			panic(unsup("unsafe pointer conversion"))
		}
		return v
	}
	return v
}

func (x *X) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (x *X) typeAssert(i *ssa.TypeAssert) {
	iv := x.get(i.X).(IfaceV)
	ok := false
	var v Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if iv.T != nil && x.implements(iv.T, it) {
			ok = true
			v = iv
		} else {
			v = IfaceV{}
		}
	} else {
		if iv.T != nil && types.Identical(iv.T, i.AssertedType) {
			ok = true
			v = iv.V
		} else {
			v = x.e.zero(i.AssertedType)
		}
	}
	if i.CommaOk {
		x.set(i, TupleV{[]Value{v, BoolC(ok)}})
		return
	}
	if !ok {
		x.rtErr(fmt.Sprintf("interface conversion: not %v", i.AssertedType))
	}
	x.set(i, v)
}

func (x *X) rangeStart(i *ssa.Range) {
	switch m := x.get(i.X).(type) {
	case MapV:
		o := &Obj{kind: OIter, mapo: m.Obj}
		if m.Obj != 0 {
			ents := x.s.obj(m.Obj).ents
			if len(ents) >= 2 && x.e.cfg.MapOrder && x.t.ghost == 0 {
				k := x.choose(mapOrders(len(ents)))
				o.keys = permuted(ents, k)
			} else {
				o.keys = append([]MapEnt(nil), ents...)
			}
			x.access(m.Obj, "", 'R')
		}
		x.set(i, IterV{x.s.newObj(o)})
	case StrV:
		x.set(i, IterV{x.s.newObj(&Obj{kind: OIter, str: m})})
	default:
		panic(unsup("range over %T", m))
	}
}

// mapOrders: orders explored for iterating a map with n entries (all of them up to 3, else rotations and reversals).
func mapOrders(n int) int {
	switch {
	case n < 2:
		return 1
	case n == 2:
		return 2
	case n == 3:
		return 6
	}
	return 2 * n
}
func permuted(e []MapEnt, k int) []MapEnt {
	n := len(e)
	out := make([]MapEnt, 0, n)
	if n <= 3 {
		rest := append([]MapEnt(nil), e...)
		for len(rest) > 0 {
			j := k % len(rest)
			k /= len(rest)
			out = append(out, rest[j])
			rest = append(append([]MapEnt(nil), rest[:j]...), rest[j+1:]...)
		}
		return out
	}
	rot, rev := k/2, k%2 == 1
	for j := 0; j < n; j++ {
		out = append(out, e[(j+rot)%n])
	}
	if rev {
		for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
			out[a], out[b] = out[b], out[a]
		}
	}
	return out
}

func (x *X) next(i *ssa.Next) {
	it := x.get(i.Iter).(IterV)
	o := x.s.mut(it.Obj)
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		s := o.str
		if o.pos >= s.Len() {
			x.set(i, TupleV{[]Value{False, BVc(64, 0), BVc(32, 0)}})
			return
		}
		if s.Sym != nil {
			b := s.Byte(o.pos)
			if !x.decide(Cmp(OUlt, b, BVc(8, 128))) {
				panic(unsup("range over non-ASCII symbolic string"))
			}
			x.set(i, TupleV{[]Value{True, BVc(64, uint64(o.pos)), ZExt(32, b)}})
			o.pos++
			return
		}
		p := o.pos
		for k, r := range s.S[p:] {
			if k > 0 {
				o.pos = p + k
				return
			}
			x.set(i, TupleV{[]Value{True, BVc(64, uint64(p)), BVc(32, uint64(r))}})
			o.pos = s.Len()
		}
		return
	}
	for o.pos < len(o.keys) {
		k := o.keys[o.pos]
		o.pos++
		// skip entries deleted meanwhile; use the current value
		m := x.s.obj(o.mapo)
		for _, e := range m.ents {
			if e.ID == k.ID {
				x.access(o.mapo, "", 'R')
				x.set(i, TupleV{[]Value{True, e.K, e.V}})
				return
			}
		}
	}
	var kz, vz Value = TupleV{}, TupleV{}
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		kz = x.e.zero(tt.At(1).Type())
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		vz = x.e.zero(tt.At(2).Type())
	}
	x.set(i, TupleV{[]Value{False, kz, vz}})
}

// choose introduces a nondeterministic choice in [0,n).
func (x *X) choose(n int) int {
	if n <= 1 {
		return 0
	}
	v := Var(fmt.Sprintf("c_%d_%d", x.s.level, x.s.nchoice), BV(8))
	if x.e.conc != nil {
		k := int(x.e.conc.Eval(v))
		x.s.nchoice++
		return k % n
	}
	for k := 0; k < n-1; k++ {
		if x.decide(Eq(v, BVc(8, uint64(k)))) {
			x.s.nchoice++
			return k
		}
	}
	x.s.addPC(Eq(v, BVc(8, uint64(n-1))))
	if !x.s.model.True(Eq(v, BVc(8, uint64(n-1)))) {
		x.s.model = x.s.model.With(map[*Term]uint64{v: uint64(n - 1)})
	}
	x.s.nchoice++
	return n - 1
}

func (x *X) builtin(name string, args []Value, st types.Type, site ssa.Value) Value {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case StrV:
			return BVc(64, uint64(a.Len()))
		case SliceV:
			return BVc(64, uint64(a.Len))
		case ArrayV:
			return BVc(64, uint64(len(a.E)))
		case MapV:
			if a.Obj == 0 {
				return BVc(64, 0)
			}
			x.access(a.Obj, "", 'R')
			return BVc(64, uint64(len(x.s.obj(a.Obj).ents)))
		case ChanV:
			if a.Obj == 0 {
				return BVc(64, 0)
			}
			o := x.s.obj(a.Obj)
			if o.timer != 0 {
				return BVc(64, 0)
			}
			return BVc(64, uint64(len(o.buf)))
		case Ptr:
			return BVc(64, uint64(deref(st).Underlying().(*types.Array).Len()))
		}
	case "cap":
		switch a := args[0].(type) {
		case SliceV:
			return BVc(64, uint64(a.Cap))
		case ArrayV:
			return BVc(64, uint64(len(a.E)))
		case ChanV:
			if a.Obj == 0 {
				return BVc(64, 0)
			}
			return BVc(64, uint64(x.s.obj(a.Obj).cap))
		}
	case "append":
		return x.appendOp(args[0].(SliceV), args[1], st)
	case "copy":
		dst := args[0].(SliceV)
		var src []Value
		switch s := args[1].(type) {
		case SliceV:
			n := min(dst.Len, s.Len)
			s.Len = n
			src = append([]Value(nil), x.elems(s)...)
		case StrV:
			for i := 0; i < min(s.Len(), dst.Len); i++ {
				src = append(src, s.Byte(i))
			}
		}
		for i, v := range src {
			x.store(dst.Arr.Elem(dst.Off+i), v)
		}
		return BVc(64, uint64(len(src)))
	case "delete":
		x.mapDelete(args[0].(MapV), args[1])
		return TupleV{}
	case "clear":
		switch a := args[0].(type) {
		case MapV:
			if a.Obj != 0 {
				x.access(a.Obj, "", 'W')
				x.s.mut(a.Obj).ents = nil
			}
		case SliceV:
			z := x.e.zero(st.Underlying().(*types.Slice).Elem())
			for i := 0; i < a.Len; i++ {
				x.store(a.Arr.Elem(a.Off+i), z)
			}
		}
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			c := x.binop(token.LSS, b, r, st, st).(*Term)
			if name == "max" {
				c = x.binop(token.LSS, r, b, st, st).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				if rt.sort.K == KFP {
					bt := b.(*Term)
					r = Ite(FIsNaN(rt), rt, Ite(FIsNaN(bt), bt, Ite(c, bt, rt)))
				} else {
					r = Ite(c, b.(*Term), rt)
				}
			} else if x.decide(c) {
				r = b
			}
		}
		return r
	case "print", "println":
		return TupleV{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.Obj == 0 {
			x.rtErr("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return UnsafeV{}
	case "Data", "StringData", "SliceData", "String", "Slice", "Add":
		panic(unsup("unsafe.%s", name))
	}
	panic(unsup("builtin %s of %T", name, args[0]))
}

func (x *X) appendOp(a SliceV, bv Value, st types.Type) Value {
	et := st.Underlying().(*types.Slice).Elem()
	var add []Value
	switch b := bv.(type) {
	case SliceV:
		if b.Len == 0 {
			return a
		}
		add = append([]Value(nil), x.elems(b)...)
	case StrV:
		for i := 0; i < b.Len(); i++ {
			add = append(add, b.Byte(i))
		}
		if len(add) == 0 {
			return a
		}
	}
	n := a.Len + len(add)
	if n <= a.Cap {
		for i, v := range add {
			x.store(a.Arr.Elem(a.Off+a.Len+i), v)
		}
		a.Len = n
		return a
	}
	if n > 100000 {
		panic(unsup("slice of %d elements", n))
	}
	old := x.elems(a)
	nc := growCap(a.Cap, n)
	vs := make([]Value, nc)
	copy(vs, old)
	copy(vs[len(old):], add)
	z := x.e.zero(et)
	for i := n; i < nc; i++ {
		vs[i] = z
	}
	r := x.newSlice(et, vs)
	r.Len = n
	return r
}

// growCap follows the runtime's doubling (without size-class rounding); the real capacity may be larger.
func growCap(old, need int) int {
	nc := old * 2
	if nc < need {
		nc = need
	}
	return nc
}
