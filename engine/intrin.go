package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic operations: functions whose behaviour is built into the engine.

type Intrinsic struct {
	visible bool // a scheduling point
	enabled func(c *Call) bool
	fn      func(c *Call) Value
	noEager bool
}

type Call struct {
	*X
	p         *Pend
	args      []Value
	again     bool
	pushFn    *FuncV
	pushArgs  []Value
	pushGhost bool
}

var intrinsics = map[string]*Intrinsic{}

func reg(name string, fn func(c *Call) Value) { intrinsics[name] = &Intrinsic{fn: fn} }
func regV(name string, en func(c *Call) bool, fn func(c *Call) Value) {
	intrinsics[name] = &Intrinsic{visible: true, enabled: en, fn: fn}
}

func (e *Engine) intrinsic(name string) *Intrinsic { return intrinsics[name] }

func (c *Call) ptr(i int) Ptr {
	p := c.args[i].(Ptr)
	if p.Obj == 0 {
		c.rtErr("invalid memory address or nil pointer dereference")
	}
	return p
}
func (c *Call) tm(i int) *Term { return c.args[i].(*Term) }
func (c *Call) str(i int) string {
	s := c.args[i].(StrV)
	if s.Sym != nil {
		panic(unsup("constant string expected"))
	}
	return s.S
}
func (c *Call) fatal(msg string) {
	c.e.report(c.s, Finding{Kind: "fatal", Msg: "fatal error: " + msg + " at " + c.curPos(), Key: "fatal " + msg})
	c.s.dead = true
	panic(infeasible{})
}
func tuple(v ...Value) Value { return TupleV{v} }

// lastField: pointer to the value field of a sync/atomic type.
func (c *Call) lastField(p Ptr) Ptr {
	v := c.s.load(p)
	if st, ok := v.(StructV); ok {
		return p.Elem(len(st.F) - 1)
	}
	return p
}

func isZeroTerm(t *Term) bool { return t.IsConst() && t.val == 0 }

func init() {
	// ---- sync
	regV("(*sync.Mutex).Lock", func(c *Call) bool { p, ok := c.args[0].(Ptr); return !ok || p.Obj == 0 || !c.s.load(p).(MutexV).Locked }, func(c *Call) Value {
		p := c.ptr(0)
		if c.s.load(p).(MutexV).Locked {
			panic(unsup("lock of a held mutex in ghost or atomic code"))
		}
		c.s.store(p, MutexV{true})
		c.acquire(p, 'w')
		return nil
	})
	regV("(*sync.Mutex).TryLock", nil, func(c *Call) Value {
		p := c.ptr(0)
		if c.s.load(p).(MutexV).Locked {
			return False
		}
		c.s.store(p, MutexV{true})
		c.acquire(p, 'w')
		return True
	})
	reg("(*sync.Mutex).Unlock", func(c *Call) Value {
		p := c.ptr(0)
		if !c.s.load(p).(MutexV).Locked {
			c.fatal("sync: unlock of unlocked mutex")
		}
		c.s.store(p, MutexV{false})
		c.release(p, 'w')
		return nil
	})
	rw := func(c *Call) (Ptr, RWMutexV) {
		p := c.ptr(0)
		return p, c.s.load(p).(RWMutexV)
	}
	regV("(*sync.RWMutex).Lock", func(c *Call) bool {
		p, _ := c.args[0].(Ptr)
		if p.Obj == 0 {
			return true
		}
		m := c.s.load(p).(RWMutexV)
		if c.t.announced {
			return m.R == 0 && !m.W
		}
		return !m.W && !m.Pending
	}, func(c *Call) Value {
		p, m := rw(c)
		if m.R == 0 && !m.W {
			m.W = true
			if c.t.announced {
				m.Pending = false
				c.t.announced = false
			}
			c.s.store(p, m)
			c.acquire(p, 'w')
			return nil
		}
		if c.t.ghost > 0 {
			panic(unsup("lock of a held mutex in ghost or atomic code"))
		}
		m.Pending = true
		c.t.announced = true
		c.s.store(p, m)
		c.again = true
		return nil
	})
	regV("(*sync.RWMutex).TryLock", nil, func(c *Call) Value {
		p, m := rw(c)
		if m.W || m.R > 0 || m.Pending {
			return False
		}
		m.W = true
		c.s.store(p, m)
		c.acquire(p, 'w')
		return True
	})
	reg("(*sync.RWMutex).Unlock", func(c *Call) Value {
		p, m := rw(c)
		if !m.W {
			c.fatal("sync: Unlock of unlocked RWMutex")
		}
		m.W = false
		c.s.store(p, m)
		c.release(p, 'w')
		return nil
	})
	regV("(*sync.RWMutex).RLock", func(c *Call) bool {
		p, _ := c.args[0].(Ptr)
		if p.Obj == 0 {
			return true
		}
		m := c.s.load(p).(RWMutexV)
		return !m.W && !m.Pending
	}, func(c *Call) Value {
		p, m := rw(c)
		if m.W || m.Pending {
			panic(unsup("rlock of a held mutex in ghost or atomic code"))
		}
		m.R++
		c.s.store(p, m)
		c.acquire(p, 'r')
		return nil
	})
	regV("(*sync.RWMutex).TryRLock", nil, func(c *Call) Value {
		p, m := rw(c)
		if m.W || m.Pending {
			return False
		}
		m.R++
		c.s.store(p, m)
		c.acquire(p, 'r')
		return True
	})
	reg("(*sync.RWMutex).RUnlock", func(c *Call) Value {
		p, m := rw(c)
		if m.R == 0 {
			c.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.R--
		c.s.store(p, m)
		c.release(p, 'r')
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(c *Call) Value {
		p := c.ptr(0)
		d := c.concretize(c.tm(1), "WaitGroup delta")
		w := c.s.load(p).(WaitGroupV)
		w.N += int(int64(d))
		if w.N < 0 {
			panic(goPanic{desc: "sync: negative WaitGroup counter", val: IfaceV{T: c.e.strT, V: StrV{S: "sync: negative WaitGroup counter"}}})
		}
		c.s.store(p, w)
		c.release(p, 'w')
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(c *Call) Value {
		p := c.ptr(0)
		w := c.s.load(p).(WaitGroupV)
		w.N--
		if w.N < 0 {
			panic(goPanic{desc: "sync: negative WaitGroup counter", val: IfaceV{T: c.e.strT, V: StrV{S: "sync: negative WaitGroup counter"}}})
		}
		c.s.store(p, w)
		c.release(p, 'w')
		return nil
	})
	regV("(*sync.WaitGroup).Wait", func(c *Call) bool {
		p, _ := c.args[0].(Ptr)
		return p.Obj == 0 || c.s.load(p).(WaitGroupV).N == 0
	}, func(c *Call) Value {
		p := c.ptr(0)
		if c.s.load(p).(WaitGroupV).N != 0 {
			panic(unsup("wait in ghost or atomic code"))
		}
		c.acquire(p, 'g')
		return nil
	})
	// ---- atomics
	type afn = func(c *Call, old Value, args []Value) (nv, ret Value)
	atom := func(names []string, write bool, f afn) {
		for _, n := range names {
			regV(n, nil, func(c *Call) Value {
				p := c.lastField(c.ptr(0))
				k := byte('a')
				if write {
					k = 'A'
				}
				old := c.s.load(p)
				nv, ret := f(c, old, c.args[1:])
				c.access(p.Obj, p.Path, k)
				if write && nv != nil {
					c.s.store(p, nv)
				}
				return ret
			})
		}
	}
	ints := []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"}
	var loads, stores, adds, swaps, cas []string
	for _, n := range ints {
		loads = append(loads, "(*sync/atomic."+n+").Load", "sync/atomic.Load"+n)
		stores = append(stores, "(*sync/atomic."+n+").Store", "sync/atomic.Store"+n)
		adds = append(adds, "(*sync/atomic."+n+").Add", "sync/atomic.Add"+n)
		swaps = append(swaps, "(*sync/atomic."+n+").Swap", "sync/atomic.Swap"+n)
		cas = append(cas, "(*sync/atomic."+n+").CompareAndSwap", "sync/atomic.CompareAndSwap"+n)
	}
	atom(append(loads, "(*sync/atomic.Value).Load"), false, func(c *Call, o Value, a []Value) (Value, Value) { return nil, o })
	atom(append(stores, "(*sync/atomic.Value).Store"), true, func(c *Call, o Value, a []Value) (Value, Value) { return a[0], nil })
	atom(append(swaps, "(*sync/atomic.Value).Swap"), true, func(c *Call, o Value, a []Value) (Value, Value) { return a[0], o })
	atom(adds, true, func(c *Call, o Value, a []Value) (Value, Value) {
		n := Bin(OAdd, o.(*Term), a[0].(*Term))
		return n, n
	})
	atom(append(cas, "(*sync/atomic.Value).CompareAndSwap"), true, func(c *Call, o Value, a []Value) (Value, Value) {
		if c.decide(c.eq(o, a[0])) {
			return a[1], True
		}
		return nil, False
	})
	b2i := func(v Value) *Term { return Ite(v.(*Term), BVc(32, 1), BVc(32, 0)) }
	atom([]string{"(*sync/atomic.Bool).Load"}, false, func(c *Call, o Value, a []Value) (Value, Value) { return nil, Not(Eq(BVc(32, 0), o.(*Term))) })
	atom([]string{"(*sync/atomic.Bool).Store"}, true, func(c *Call, o Value, a []Value) (Value, Value) { return b2i(a[0]), nil })
	atom([]string{"(*sync/atomic.Bool).Swap"}, true, func(c *Call, o Value, a []Value) (Value, Value) {
		return b2i(a[0]), Not(Eq(BVc(32, 0), o.(*Term)))
	})
	atom([]string{"(*sync/atomic.Bool).CompareAndSwap"}, true, func(c *Call, o Value, a []Value) (Value, Value) {
		if c.decide(Eq(o.(*Term), b2i(a[0]))) {
			return b2i(a[1]), True
		}
		return nil, False
	})
	unp := func(v Value) Value {
		if u, ok := v.(UnsafeV); ok {
			if u.V == nil {
				return Ptr{}
			}
			return u.V
		}
		return v
	}
	atom([]string{"(*sync/atomic.Pointer).Load"}, false, func(c *Call, o Value, a []Value) (Value, Value) { return nil, unp(o) })
	atom([]string{"(*sync/atomic.Pointer).Store"}, true, func(c *Call, o Value, a []Value) (Value, Value) { return UnsafeV{a[0]}, nil })
	atom([]string{"(*sync/atomic.Pointer).Swap"}, true, func(c *Call, o Value, a []Value) (Value, Value) { return UnsafeV{a[0]}, unp(o) })
	atom([]string{"(*sync/atomic.Pointer).CompareAndSwap"}, true, func(c *Call, o Value, a []Value) (Value, Value) {
		if unp(o) == unp(a[0]) {
			return UnsafeV{a[1]}, True
		}
		return nil, False
	})
	for _, b := range []string{"And", "Or"} {
		op := map[string]Op{"And": OBAnd, "Or": OBOr}[b]
		var ns []string
		for _, n := range ints {
			ns = append(ns, "(*sync/atomic."+n+")."+b, "sync/atomic."+b+n)
		}
		atom(ns, true, func(c *Call, o Value, a []Value) (Value, Value) { return Bin(op, o.(*Term), a[0].(*Term)), o })
	}
	// ---- state of modelled sync types, kept in a field the model does not use otherwise
	slot := func(name, tn string, path ...string) {
		reg("vpharness/model."+name, func(c *Call) Value {
			p := c.ptr(0)
			t := c.e.typeByName(tn)
			for _, f := range path {
				st := t.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						p, t = p.Elem(i), st.Field(i).Type()
						break
					}
				}
			}
			if q, ok := c.s.load(p).(Ptr); ok {
				return q
			}
			mt := c.e.typeByName("vpharness/model." + strings.TrimSuffix(name, "Of"))
			q := c.s.newCell(mt, c.e.zero(mt), tn)
			c.s.store(p, q)
			return q
		})
	}
	slot("smapOf", "sync.Map", "m", "seed")
	slot("scondOf", "sync.Cond", "checker")
	slot("spoolOf", "sync.Pool", "victimSize")
	reg("maps.clone", func(c *Call) Value {
		i := c.args[0].(IfaceV)
		m := i.V.(MapV)
		if m.Obj == 0 {
			return i
		}
		c.access(m.Obj, "", 'R')
		o := c.s.obj(m.Obj)
		return IfaceV{T: i.T, V: MapV{c.s.newObj(&Obj{kind: OMap, typ: o.typ, label: o.label, nextID: o.nextID, ents: append(o.ents[:0:0], o.ents...)})}}
	})
	// ---- channels
	regV("builtin.close", nil, func(c *Call) Value {
		ch := c.args[0].(ChanV)
		if ch.Obj == 0 {
			panic(goPanic{desc: "close of nil channel", val: IfaceV{T: c.e.rtErrT, V: StrV{S: "close of nil channel"}}})
		}
		o := c.s.mut(ch.Obj)
		if o.closed {
			panic(goPanic{desc: "close of closed channel", val: IfaceV{T: c.e.rtErrT, V: StrV{S: "close of closed channel"}}})
		}
		o.closed = true
		c.releasing()
		// blocked senders panic when they run (a send on a closed channel is enabled)
		return nil
	})
	// ---- time
	reg("time.Now", func(c *Call) Value { return TimeV{c.s.now} })
	reg("time.Since", func(c *Call) Value { return Bin(OSub, c.s.now, c.args[0].(TimeV).T) })
	reg("time.Until", func(c *Call) Value { return Bin(OSub, c.args[0].(TimeV).T, c.s.now) })
	T := func(c *Call, i int) *Term { return c.args[i].(TimeV).T }
	reg("(time.Time).Add", func(c *Call) Value { return TimeV{Bin(OAdd, T(c, 0), c.tm(1))} })
	reg("(time.Time).Sub", func(c *Call) Value { return Bin(OSub, T(c, 0), T(c, 1)) })
	reg("(time.Time).After", func(c *Call) Value { return Cmp(OSlt, T(c, 1), T(c, 0)) })
	reg("(time.Time).Before", func(c *Call) Value { return Cmp(OSlt, T(c, 0), T(c, 1)) })
	reg("(time.Time).Equal", func(c *Call) Value { return Eq(T(c, 0), T(c, 1)) })
	reg("(time.Time).IsZero", func(c *Call) Value { return Eq(T(c, 0), zeroTimeT()) })
	reg("(time.Time).Compare", func(c *Call) Value {
		return Ite(Cmp(OSlt, T(c, 0), T(c, 1)), BVc(64, ^uint64(0)), Ite(Eq(T(c, 0), T(c, 1)), BVc(64, 0), BVc(64, 1)))
	})
	const epoch = int64(946684800)
	unix := func(div int64) func(c *Call) Value {
		return func(c *Call) Value {
			t := T(c, 0)
			c.e.needAbs()
			if t == zeroTimeT() {
				return BVc(64, uint64(-62135596800*(1000000000/div)))
			}
			e := epoch * (1000000000 / div)
			return Bin(OAdd, BVc(64, uint64(e)), Bin(OSDiv, t, BVc(64, uint64(div))))
		}
	}
	reg("(time.Time).Unix", unix(1000000000))
	reg("(time.Time).UnixNano", unix(1))
	reg("(time.Time).UnixMilli", unix(1000000))
	reg("(time.Time).UnixMicro", unix(1000))
	ident := func(c *Call) Value { return c.args[0] }
	reg("(time.Time).UTC", ident)
	reg("(time.Time).Local", ident)
	reg("(time.Time).Round", ident)
	reg("(time.Time).Truncate", ident)
	reg("(time.Time).String", func(c *Call) Value { return StrV{S: "<time>"} })
	reg("(time.Time).Format", func(c *Call) Value { return StrV{S: "<time>"} })
	reg("(time.Duration).String", func(c *Call) Value { return StrV{S: "<duration>"} })
	reg("time.Sleep", func(c *Call) Value {
		d := c.tm(0)
		if c.t.ghost > 0 {
			panic(unsup("sleep in ghost or atomic code"))
		}
		if c.decide(Cmp(OSle, d, BVc(64, 0))) {
			return nil
		}
		if c.t.eager {
			panic(eagerAbort{})
		}
		id := c.newTimer(&Obj{kind: OTimer, deadline: Bin(OAdd, c.s.now, d), thread: c.t.key})
		c.t.status = TSleeping
		c.t.sleep = id
		return nil
	})
	reg("time.NewTimer", func(c *Call) Value {
		fire := c.decide(Cmp(OSle, c.tm(0), BVc(64, 0)))
		ptr, _ := c.mkTimer(c.tm(0), nil, "time.Timer", fire)
		return ptr
	})
	reg("time.After", func(c *Call) Value {
		fire := c.decide(Cmp(OSle, c.tm(0), BVc(64, 0)))
		_, ch := c.mkTimer(c.tm(0), nil, "time.Timer", fire)
		return ch
	})
	mkTicker := func(c *Call) (Value, Value) {
		if c.decide(Cmp(OSle, c.tm(0), BVc(64, 0))) {
			panic(goPanic{desc: "non-positive interval for NewTicker", val: IfaceV{T: c.e.strT, V: StrV{S: "non-positive interval for NewTicker"}}})
		}
		return c.mkTimer(c.tm(0), c.tm(0), "time.Ticker", false)
	}
	reg("time.NewTicker", func(c *Call) Value { p, _ := mkTicker(c); return p })
	reg("time.Tick", func(c *Call) Value { _, ch := mkTicker(c); return ch })
	reg("time.AfterFunc", func(c *Call) Value {
		if c.t.eager {
			panic(eagerAbort{})
		}
		fire := c.decide(Cmp(OSle, c.tm(0), BVc(64, 0)))
		o := &Obj{kind: OTimer, deadline: Bin(OAdd, c.s.now, c.tm(0)), fn: c.args[1].(FuncV), creator: c.t.key, seq: c.t.spawned}
		c.t.spawned++
		id := c.newTimer(o)
		p := c.s.newCell(c.e.typeByName("time.Timer"), StructV{[]Value{ChanV{}, Ptr{Obj: id}}}, "time.Timer")
		if fire {
			c.e.fireTimer(c.s, id)
		}
		return p
	})
	tobj := func(c *Call) ObjID {
		p := c.ptr(0)
		st := c.s.load(p).(StructV)
		tp, ok := st.F[1].(Ptr)
		if !ok {
			panic(goPanic{desc: "time: Stop/Reset called on uninitialized Timer", val: IfaceV{T: c.e.strT, V: StrV{S: "time: uninitialized Timer"}}})
		}
		return tp.Obj
	}
	stop := func(c *Call) Value {
		id := tobj(c)
		was := c.s.timerActive(id)
		o := c.s.obj(id)
		if was {
			c.s.dropTimer(id)
		}
		if o.ch != 0 && len(c.s.obj(o.ch).buf) > 0 {
			c.s.mut(o.ch).buf = nil
			was = true
		}
		return BoolC(was)
	}
	regV("(*time.Timer).Stop", nil, stop)
	regV("(*time.Ticker).Stop", nil, func(c *Call) Value { stop(c); return nil })
	reset := func(c *Call, period bool) Value {
		d := c.tm(1)
		fire := c.decide(Cmp(OSle, d, BVc(64, 0)))
		if fire && period {
			panic(goPanic{desc: "non-positive interval for Ticker.Reset", val: IfaceV{T: c.e.strT, V: StrV{S: "non-positive interval for Ticker.Reset"}}})
		}
		was := stop(c)
		id := tobj(c)
		o := c.s.mut(id)
		o.deadline = Bin(OAdd, c.s.now, d)
		if period {
			o.period = d
		}
		if o.creator != "" { // the next goroutine it starts belongs to whoever set it
			o.creator, o.seq = c.t.key, c.t.spawned
			c.t.spawned++
		}
		c.s.timers = append(c.s.timers, id)
		if fire {
			c.e.fireTimer(c.s, id)
		}
		return was
	}
	regV("(*time.Timer).Reset", nil, func(c *Call) Value { return reset(c, false) })
	regV("(*time.Ticker).Reset", nil, func(c *Call) Value { reset(c, true); return nil })
	// ---- runtime and friends
	regV("runtime.Gosched", nil, func(c *Call) Value { return nil })
	reg("runtime.Callers", func(c *Call) Value { return BVc(64, 0) })
	reg("runtime.KeepAlive", func(c *Call) Value { return nil })
	reg("runtime.SetFinalizer", func(c *Call) Value { return nil })
	reg("runtime.NumCPU", func(c *Call) Value { return BVc(64, 8) })
	reg("runtime.GOMAXPROCS", func(c *Call) Value { return BVc(64, 8) })
	reg("runtime.GC", func(c *Call) Value { return nil })
	reg("(*github.com/go-errors/errors.Error).Stack", func(c *Call) Value { return SliceV{} })
	// ---- math
	reg("math.Float64bits", func(c *Call) Value { return c.floatBits(c.tm(0)) })
	reg("math.Float32bits", func(c *Call) Value { return c.floatBits(c.tm(0)) })
	reg("math.Float64frombits", func(c *Call) Value { return FFromBits(c.tm(0)) })
	reg("math.Float32frombits", func(c *Call) Value { return FFromBits(c.tm(0)) })
	reg("math.IsNaN", func(c *Call) Value { return FIsNaN(c.tm(0)) })
	reg("math.Min", func(c *Call) Value { return c.fminmax(true) })
	reg("math.Max", func(c *Call) Value { return c.fminmax(false) })
	reg("math.archMin", func(c *Call) Value { return c.fminmax(true) })
	reg("math.archMax", func(c *Call) Value { return c.fminmax(false) })
	for n, op := range map[string]Op{"math.Floor": OFFloor, "math.Ceil": OFCeil, "math.Trunc": OFTrunc, "math.Round": OFRound, "math.RoundToEven": OFRoundEven, "math.Sqrt": OFSqrt, "math.sqrt": OFSqrt, "math.Abs": OFAbs} {
		reg(n, func(c *Call) Value { return fun(op, c.tm(0)) })
	}
	for n, f := range map[string]func(float64) float64{"math.Log10": math.Log10, "math.Log": math.Log, "math.Log2": math.Log2, "math.Exp": math.Exp} {
		reg(n, func(c *Call) Value {
			t := c.tm(0)
			if !t.IsConst() {
				panic(unsup("%s of a symbolic value", n))
			}
			return FC(64, f(t.Float()))
		})
	}
	reg("math.Signbit", func(c *Call) Value {
		t := c.tm(0)
		if t.IsConst() {
			return BoolC(math.Signbit(t.Float()))
		}
		if t.op == OFFromBits {
			return Eq(Extract(63, 63, t.args[0]), BVc(1, 1))
		}
		return mk(OFIsNeg, BoolS, 0, "", t)
	})
	reg("math.Pow", func(c *Call) Value {
		if !c.tm(0).IsConst() {
			panic(unsup("math.Pow symbolic"))
		}
		k := BVc(64, c.concretizeF(c.tm(1)))
		return FC(64, math.Pow(c.tm(0).Float(), math.Float64frombits(k.val)))
	})
	reg("math.Pow10", func(c *Call) Value {
		return FC(64, math.Pow10(int(int64(c.concretize(c.tm(0), "exponent")))))
	})
	// ---- bytes and strings primitives
	bs := func(v Value, c *Call) []*Term {
		switch u := v.(type) {
		case StrV:
			r := make([]*Term, u.Len())
			for i := range r {
				r[i] = u.Byte(i)
			}
			return r
		case SliceV:
			return c.bytesOf(u)
		}
		panic(unsup("bytes of %T", v))
	}
	eqB := func(c *Call) Value {
		a, b := bs(c.args[0], c), bs(c.args[1], c)
		return bytesEq(a, b)
	}
	for _, n := range []string{"bytes.Equal", "internal/bytealg.Equal"} {
		reg(n, eqB)
	}
	idxByte := func(c *Call) Value {
		for i, t := range bs(c.args[0], c) {
			if c.decide(Eq(t, c.tm(1))) {
				return BVc(64, uint64(i))
			}
		}
		return BVc(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		reg(n, idxByte)
	}
	lastIdxByte := func(c *Call) Value {
		b := bs(c.args[0], c)
		for i := len(b) - 1; i >= 0; i-- {
			if c.decide(Eq(b[i], c.tm(1))) {
				return BVc(64, uint64(i))
			}
		}
		return BVc(64, ^uint64(0))
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte"} {
		reg(n, lastIdxByte)
	}
	index := func(c *Call) Value {
		a, b := bs(c.args[0], c), bs(c.args[1], c)
		for i := 0; i+len(b) <= len(a); i++ {
			if c.decide(bytesEq(a[i:i+len(b)], b)) {
				return BVc(64, uint64(i))
			}
		}
		return BVc(64, ^uint64(0))
	}
	for _, n := range []string{"bytes.Index", "strings.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, index)
	}
	count := func(c *Call) Value {
		r := BVc(64, 0)
		for _, t := range bs(c.args[0], c) {
			r = Bin(OAdd, r, Ite(Eq(t, c.tm(1)), BVc(64, 1), BVc(64, 0)))
		}
		return r
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	cmp := func(c *Call) Value {
		a, b := bs(c.args[0], c), bs(c.args[1], c)
		n := min(len(a), len(b))
		r := BVc(64, 0)
		if len(a) < len(b) {
			r = BVc(64, ^uint64(0))
		} else if len(a) > len(b) {
			r = BVc(64, 1)
		}
		for i := n - 1; i >= 0; i-- {
			r = Ite(Cmp(OUlt, a[i], b[i]), BVc(64, ^uint64(0)), Ite(Eq(a[i], b[i]), r, BVc(64, 1)))
		}
		return r
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(c *Call) Value {
		n := int(int64(c.concretize(c.tm(0), "make size")))
		v := make([]*Term, n)
		for i := range v {
			v[i] = BVc(8, 0)
		}
		return c.mkBytes(v)
	})
	reg("internal/abi.NoEscape", ident)
	reg("internal/stringslite.Index", index)
	reg("internal/stringslite.IndexByte", idxByte)
	reg("internal/stringslite.Clone", ident)
	reg("strings.Clone", ident)
	reg("bytes.growSlice", func(c *Call) Value {
		b := c.args[0].(SliceV)
		n := int(int64(c.concretize(c.tm(1), "grow size")))
		nc := b.Len + n
		if nc < 2*b.Cap {
			nc = 2 * b.Cap
		}
		vs := make([]Value, nc)
		copy(vs, c.elems(b))
		for i := b.Len; i < nc; i++ {
			vs[i] = BVc(8, 0)
		}
		r := c.newSlice(types.Typ[types.Uint8], vs)
		r.Len = b.Len
		return r
	})
	reg("(*strings.Builder).String", func(c *Call) Value {
		p := c.ptr(0)
		st := c.load(p).(StructV)
		return mkStr(c.bytesOf(st.F[len(st.F)-1]))
	})
	reg("(*strings.Builder).copyCheck", func(c *Call) Value { return nil })
	reg("(*strings.Builder).grow", func(c *Call) Value { return nil })
	reg("unicode/utf8.ValidString", func(c *Call) Value {
		s := c.args[0].(StrV)
		if s.Sym != nil {
			panic(unsup("utf8 of a symbolic string"))
		}
		return BoolC(utf8.ValidString(s.S))
	})
	// ---- formatting (concrete arguments only; symbolic parts become "?")
	sprintf := func(c *Call) Value { return c.format(c.str(0), c.rawElems(c.args[1].(SliceV))) }
	reg("fmt.Sprintf", sprintf)
	sprint := func(ln bool) func(c *Call) Value {
		return func(c *Call) Value {
			var out []*Term
			isStr := func(v Value) bool {
				i, ok := v.(IfaceV)
				if !ok || i.T == nil {
					return false
				}
				b, ok := i.T.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsString != 0
			}
			vs := c.rawElems(c.args[0].(SliceV))
			for i, v := range vs {
				if i > 0 && (ln || !isStr(v) && !isStr(vs[i-1])) {
					out = append(out, BVc(8, ' '))
				}
				out = append(out, c.fmtOne('v', "", v)...)
			}
			if ln {
				out = append(out, BVc(8, '\n'))
			}
			return mkStr(out)
		}
	}
	reg("fmt.Sprint", sprint(false))
	reg("fmt.Sprintln", sprint(true))
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(c *Call) Value { return tuple(BVc(64, 0), IfaceV{}) })
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		reg(n, func(c *Call) Value { return nil })
	}
	reg("strconv.Itoa", func(c *Call) Value {
		return StrV{S: strconv.FormatInt(int64(c.concretize(c.tm(0), "Itoa argument")), 10)}
	})
	for _, sg := range []bool{true, false} {
		num := func(c *Call, base int) string {
			v := c.concretize(c.tm(0), "number to format")
			if sg {
				return strconv.FormatInt(int64(v), base)
			}
			return strconv.FormatUint(v, base)
		}
		reg(map[bool]string{true: "strconv.FormatInt", false: "strconv.FormatUint"}[sg], func(c *Call) Value {
			return StrV{S: num(c, int(c.concretize(c.tm(1), "number base")))}
		})
	}
	reg("strconv.FormatBool", func(c *Call) Value {
		if c.decide(c.tm(0)) {
			return StrV{S: "true"}
		}
		return StrV{S: "false"}
	})
	reg("strconv.Quote", func(c *Call) Value { return StrV{S: strconv.Quote(c.str(0))} })
	reg("vpharness/vp.sprintf", sprintf)
	// ---- models that look into an interface value
	reg("vpharness/model.anyLen", func(c *Call) Value {
		s, ok := c.args[0].(IfaceV).V.(SliceV)
		if !ok {
			panic(unsup("sort of a non-slice"))
		}
		return BVc(64, uint64(s.Len))
	})
	reg("vpharness/model.anySwap", func(c *Call) Value {
		s := c.args[0].(IfaceV).V.(SliceV)
		p := s.Arr.Elem(s.Off + int(c.concretize(c.tm(1), "index")))
		q := s.Arr.Elem(s.Off + int(c.concretize(c.tm(2), "index")))
		a, b := c.load(p), c.load(q)
		c.store(p, b)
		c.store(q, a)
		return nil
	})
	reg("vpharness/model.asTarget", func(c *Call) Value {
		err, tg := c.args[0].(IfaceV), c.args[1].(IfaceV)
		pt, ok := tg.T.(*types.Pointer)
		p, ok2 := tg.V.(Ptr)
		if !ok || !ok2 || p.Obj == 0 {
			panic(unsup("target of errors.As"))
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if !types.Implements(err.T, it) {
				return False
			}
			c.store(p, err)
			return True
		}
		if !types.Identical(err.T, pt.Elem()) {
			return False
		}
		c.store(p, err.V)
		return True
	})
	// ---- md5, idealised as an injective function unless the input is concrete
	reg("crypto/md5.Sum", func(c *Call) Value {
		in := c.bytesOf(c.args[0])
		conc := true
		for _, t := range in {
			if !t.IsConst() {
				conc = false
			}
		}
		var out []*Term
		if conc {
			b := make([]byte, len(in))
			for i, t := range in {
				b[i] = byte(t.val)
			}
			for _, v := range md5.Sum(b) {
				out = append(out, BVc(8, uint64(v)))
			}
			c.e.md5Seen[string(b)] = hashRec{"md5", in, out}
		} else {
			for i := 0; i < 16; i++ {
				out = append(out, Var(fmt.Sprintf("md5_%d_%d", len(c.s.hashTab), i), BV(8)))
			}
		}
		var cs []*Term
		for _, h := range c.s.hashTab {
			if h.fn != "md5" {
				continue
			}
			cs = append(cs, Eq(bytesEq(in, h.in), bytesEq(out, h.out)))
		}
		if !conc {
			var ks []string
			for k := range c.e.md5Seen {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				h := c.e.md5Seen[k]
				cs = append(cs, Eq(bytesEq(in, h.in), bytesEq(out, h.out)))
			}
		}
		if len(cs) > 0 {
			c.assumeSat(And(cs...))
		}
		if !conc {
			c.s.hashTab = append(c.s.hashTab, hashRec{"md5", in, out})
		}
		r := make([]Value, 16)
		for i := range r {
			r[i] = out[i]
		}
		return ArrayV{r}
	})
	// ---- verification API
	const V = "vpharness/vp."
	inputs := map[string]struct {
		k types.BasicKind
		w int
	}{"Int": {types.Int, 64}, "Int64": {types.Int64, 64}, "Int32": {types.Int32, 32}, "Int16": {types.Int16, 16}, "Int8": {types.Int8, 8},
		"Uint": {types.Uint, 64}, "Uint64": {types.Uint64, 64}, "Uint32": {types.Uint32, 32}, "Uint16": {types.Uint16, 16}, "Byte": {types.Uint8, 8}}
	for n, k := range inputs {
		k := k
		reg(V+n, func(c *Call) Value { return c.input(c.str(0), BV(k.w)) })
	}
	reg(V+"Bool", func(c *Call) Value { return c.input(c.str(0), BoolS) })
	reg(V+"Float64", func(c *Call) Value { return c.input(c.str(0), FPS(64)) })
	reg(V+"Float32", func(c *Call) Value { return c.input(c.str(0), FPS(32)) })
	reg(V+"IntRange", func(c *Call) Value {
		var t *Term
		if lo, hi := c.tm(1), c.tm(2); lo.IsConst() && hi.IsConst() && int64(lo.val) >= 0 && int64(hi.val) >= int64(lo.val) && hi.val > 0 {
			t = ZExt(64, c.input(c.str(0), BV(bits.Len64(hi.val))))
		} else {
			t = c.input(c.str(0), BV(64))
		}
		c.assumeSat(And(Cmp(OSle, c.tm(1), t), Cmp(OSle, t, c.tm(2))))
		return t
	})
	reg(V+"Bytes", func(c *Call) Value {
		n := int(int64(c.concretize(c.tm(1), "Bytes length")))
		b := make([]*Term, n)
		for i := range b {
			b[i] = c.input(c.str(0), BV(8))
		}
		return c.mkBytes(b)
	})
	reg(V+"Fresh", func(c *Call) Value { // model bytes: unconstrained, not an input of the replay
		n := int(int64(c.concretize(c.tm(1), "Fresh length")))
		b := make([]*Term, n)
		for i := range b {
			b[i] = c.input("~"+c.str(0), BV(8))
		}
		return c.mkBytes(b)
	})
	field := func(c *Call) (Ptr, int) {
		a := c.args[0].(IfaceV)
		st := deref(a.T).Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == c.str(1) {
				return a.V.(Ptr), i
			}
		}
		panic(unsup("no field %s in %v", c.str(1), a.T))
	}
	reg(V+"SetField", func(c *Call) Value {
		p, i := field(c)
		st := deref(c.args[0].(IfaceV).T).Underlying().(*types.Struct)
		v := c.args[2].(IfaceV)
		if types.IsInterface(st.Field(i).Type()) {
			c.store(p.Elem(i), v)
		} else {
			c.store(p.Elem(i), v.V)
		}
		return nil
	})
	reg(V+"GetField", func(c *Call) Value {
		p, i := field(c)
		st := deref(c.args[0].(IfaceV).T).Underlying().(*types.Struct)
		v := c.load(p.Elem(i))
		if iv, ok := v.(IfaceV); ok {
			return iv
		}
		return IfaceV{st.Field(i).Type(), v}
	})
	reg(V+"Serialize", func(c *Call) Value {
		a := c.args[0].(IfaceV)
		if a.T == nil {
			panic(unsup("serialising nil"))
		}
		return c.mkBytes(c.serialize(nil, a.T, a.V))
	})
	reg(V+"Deserialize", func(c *Call) (res Value) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(shortInput); !is {
					panic(r)
				}
				res = False
			}
		}()
		var in []*Term
		for _, v := range c.elems(c.args[0].(SliceV)) {
			in = append(in, v.(*Term))
		}
		a := c.args[1].(IfaceV)
		_, f := c.deserialize(in, deref(a.T))
		c.store(a.V.(Ptr), f())
		return True
	})
	reg(V+"Choose", func(c *Call) Value {
		n := c.tm(1)
		if !n.IsConst() {
			panic(unsup("Choose with symbolic bound"))
		}
		name := c.str(0)
		i := c.s.occOf(name)
		v := Var(fmt.Sprintf("in_%s_%d", name, i), BV(64))
		k := int(n.val)
		if c.e.conc != nil {
			c.bumpOcc(name, v, "choice")
			return BVc(64, c.e.conc.Eval(v)%uint64(k))
		}
		for j := 0; j < k-1; j++ {
			// v is fresh: both sides are satisfiable and no query is needed
			eq := Eq(v, BVc(64, uint64(j)))
			if c.s.pcset[eq.id] {
				c.bumpOcc(name, v, "choice")
				return BVc(64, uint64(j))
			}
			if c.s.pcset[Not(eq).id] {
				continue
			}
			if c.t.eager {
				panic(eagerAbort{})
			}
			panic(forkSig{cond: eq, mv: false, m: c.s.model.With(map[*Term]uint64{v: uint64(j)}), mine: c.s.model.With(map[*Term]uint64{v: uint64(k - 1)})})
		}
		if k > 1 {
			c.s.model = c.s.model.With(map[*Term]uint64{v: uint64(k - 1)})
		}
		c.s.addPC(Eq(v, BVc(64, uint64(k-1))))
		c.bumpOcc(name, v, "choice")
		return BVc(64, uint64(k-1))
	})
	reg(V+"Assume", func(c *Call) Value {
		if c.e.conc != nil {
			if !c.e.conc.True(c.tm(0)) {
				c.s.dead = true
				panic(infeasible{})
			}
			return nil
		}
		r, m := c.e.sat(c.s, c.tm(0))
		if r != Sat {
			if r == Unknown {
				c.e.note("solver answered unknown on an assumption")
			}
			c.s.dead = true
			panic(infeasible{})
		}
		c.s.model = m
		c.s.addPC(c.tm(0))
		return nil
	})
	reg(V+"Assert", func(c *Call) Value {
		cond, msg := c.tm(0), c.str(1)
		c.e.asserts++
		if cond.IsTrue() {
			c.e.assertTriv++
			c.e.assertSeen(msg)
			return nil
		}
		c.e.assertSeen(msg)
		if c.e.conc != nil {
			if !c.e.conc.True(cond) {
				c.e.report(c.s, Finding{Kind: "assert", Msg: msg, Key: "assert " + msg})
				c.s.dead = true
				panic(infeasible{})
			}
			return nil
		}
		n := Not(cond)
		if c.s.pcset[cond.id] {
			return nil
		}
		r, m := c.e.sat(c.s, n)
		switch r {
		case Sat:
			sv := c.s.model
			c.s.model = m
			pc, set := c.s.pc, c.s.pcset
			c.s.pc = append(c.s.pc[:len(c.s.pc):len(c.s.pc)], n)
			c.e.report(c.s, Finding{Kind: "assert", Msg: msg, Key: "assert " + msg})
			c.s.pc, c.s.pcset = pc, set
			c.s.model = sv
			// continue on the side where the assertion holds
			r2, m2 := c.e.sat(c.s, cond)
			if r2 != Sat {
				c.s.dead = true
				panic(infeasible{})
			}
			c.s.model = m2
			c.s.addPC(cond)
		case Unknown:
			c.e.note("solver answered unknown on assertion: " + msg)
			c.s.addPC(cond)
		default:
			c.s.pcset[cond.id] = true
		}
		return nil
	})
	reg(V+"And", func(c *Call) Value { return And(c.bools(0)...) })
	reg(V+"Or", func(c *Call) Value { return Or(c.bools(0)...) })
	reg(V+"Implies", func(c *Call) Value { return Or(Not(c.tm(0)), c.tm(1)) })
	reg(V+"Ite", func(c *Call) Value { return Ite(c.tm(0), c.tm(1), c.tm(2)) })
	reg(V+"IteBool", func(c *Call) Value { return Ite(c.tm(0), c.tm(1), c.tm(2)) })
	reg(V+"EqBytes", func(c *Call) Value { return bytesEq(c.rawBytes(c.args[0]), c.rawBytes(c.args[1])) })
	reg(V+"Eq", func(c *Call) Value { return c.eq(c.args[0].(IfaceV).V, c.args[1].(IfaceV).V) })
	reg(V+"Concrete", func(c *Call) Value {
		return Const(c.tm(0).sort, c.concretize(c.tm(0), "Concrete"))
	})
	reg(V+"Reach", func(c *Call) Value { c.e.reached[c.str(0)]++; return nil })
	reg(V+"Symbolic", func(c *Call) Value { return True })
	reg(V+"ObserveInt", func(c *Call) Value { c.observe(c.str(0), c.args[1]); return nil })
	reg(V+"ObserveBool", func(c *Call) Value { c.observe(c.str(0), c.args[1]); return nil })
	reg(V+"Now", func(c *Call) Value { c.e.needAbs(); return c.s.now })
	reg(V+"Goroutines", func(c *Call) Value {
		n := 0
		for _, t := range c.s.threads {
			if t.key != c.t.key && t.key != "0" && t.status != TDone {
				n++
			}
		}
		return BVc(64, uint64(n))
	})
	gh := func(c *Call) Value {
		if c.t.eager {
			panic(eagerAbort{})
		}
		f := c.args[0].(FuncV)
		c.pushFn = &f
		c.pushGhost = true
		return nil
	}
	reg(V+"Ghost", gh)
	regV(V+"Atomic", nil, func(c *Call) Value { c.releasing(); return gh(c) })
	regV(V+"Yield", nil, func(c *Call) Value { return nil })
	regV(V+"Settle", func(c *Call) bool { return false }, func(c *Call) Value {
		for i, t := range c.s.threads {
			if t.key != c.t.key {
				t = c.s.mutThread(t.key)
				t.fp = nil
				t.virgin = false
				t.firm = true
				c.s.threads[i] = t
			}
		}
		return nil
	})
}

func (c *Call) observe(name string, v Value) {
	if c.t.eager {
		panic(eagerAbort{})
	}
	c.s.obsN = append(c.s.obsN, name)
	c.s.obs = append(c.s.obs, v)
}
func (c *Call) bools(i int) []*Term {
	var r []*Term
	for _, v := range c.rawElems(c.args[i].(SliceV)) {
		r = append(r, v.(*Term))
	}
	return r
}
func (c *Call) rawBytes(v Value) []*Term {
	var r []*Term
	for _, e := range c.rawElems(v.(SliceV)) {
		r = append(r, e.(*Term))
	}
	return r
}

func bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return False
	}
	cs := make([]*Term, len(a))
	for i := range a {
		cs[i] = Eq(a[i], b[i])
		if cs[i].IsFalse() {
			return False
		}
	}
	return And(cs...)
}

// assumeSat adds a constraint known to be satisfiable in the current state.
func (x *X) assumeSat(t *Term) {
	if x.e.conc != nil || t.IsTrue() {
		return
	}
	r, m := x.e.sat(x.s, t)
	if r != Sat {
		if r == Unknown {
			x.e.note("solver answered unknown on an input constraint")
		}
		x.s.dead = true
		panic(infeasible{})
	}
	x.s.model = m
	x.s.addPC(t)
}

func (s *State) occOf(name string) int {
	for _, o := range s.occ {
		if o.name == name {
			return o.n
		}
	}
	return 0
}
func (x *X) bumpOcc(name string, v *Term, kind string) {
	i := x.s.occOf(name)
	found := false
	for j := range x.s.occ {
		if x.s.occ[j].name == name {
			occ := append([]occCount(nil), x.s.occ...)
			occ[j].n++
			x.s.occ = occ
			found = true
		}
	}
	if !found {
		x.s.occ = append(x.s.occ[:len(x.s.occ):len(x.s.occ)], occCount{name, 1})
	}
	x.e.inputs[v] = Input{Name: name, Occ: i, Kind: kind, T: v}
}

func (x *X) input(name string, so Sort) *Term {
	i := x.s.occOf(name)
	v := Var(fmt.Sprintf("in_%s_%d_%d%d", name, i, so.K, so.W), so)
	base := v
	if so.K == KFP {
		base = v.args[0]
	}
	x.bumpOcc(name, base, so.SMT())
	return v
}

func (c *Call) floatBits(t *Term) Value {
	if t.IsConst() {
		return BVc(int(t.sort.W), t.val)
	}
	if t.op == OFFromBits {
		return t.args[0]
	}
	panic(unsup("bits of a computed float"))
}
func (c *Call) concretizeF(t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	if t.op == OFFromS {
		k := c.concretize(t.args[0], "float exponent")
		return math.Float64bits(float64(sext(k, t.args[0].sort.W)))
	}
	panic(unsup("symbolic float argument"))
}
func (c *Call) fminmax(isMin bool) Value {
	a, b := c.tm(0), c.tm(1)
	lt := fbin(OFLt, BoolS, a, b)
	if !isMin {
		lt = fbin(OFLt, BoolS, b, a)
	}
	return Ite(FIsNaN(a), a, Ite(FIsNaN(b), b, Ite(lt, a, b)))
}

// ---- timers

func (x *X) newTimer(o *Obj) ObjID {
	id := x.s.newObj(o)
	x.s.timers = append(x.s.timers, id)
	return id
}
func (x *X) mkTimer(d, period *Term, tn string, fire bool) (Ptr, ChanV) {
	tt := x.e.typeByName(tn)
	ct := tt.Underlying().(*types.Struct).Field(0).Type()
	o := &Obj{kind: OTimer, deadline: Bin(OAdd, x.s.now, d), period: period}
	id := x.newTimer(o)
	cid := x.s.newObj(&Obj{kind: OChan, typ: ct, cap: 1, timer: id})
	o.ch = cid
	p := x.s.newCell(tt, StructV{[]Value{ChanV{cid}, Ptr{Obj: id}}}, tn)
	if fire {
		x.e.fireTimer(x.s, id)
	}
	return p, ChanV{cid}
}
func (s *State) timerActive(id ObjID) bool {
	for _, t := range s.timers {
		if t == id {
			return true
		}
	}
	return false
}
func (s *State) dropTimer(id ObjID) {
	var n []ObjID
	for _, t := range s.timers {
		if t != id {
			n = append(n, t)
		}
	}
	s.timers = n
}

// fireTimer delivers a timer that is due.
func (e *Engine) fireTimer(s *State, id ObjID) {
	o := s.mut(id)
	if o.period != nil {
		o.deadline = Bin(OAdd, o.deadline, o.period)
	} else {
		s.dropTimer(id)
	}
	switch {
	case o.ch != 0:
		c := s.mut(o.ch)
		if len(c.buf) == 0 {
			c.buf = []Value{TimeV{s.now}}
		}
	case o.thread != "":
		t := s.mutThread(o.thread)
		t.status = TResume
		t.sleep = 0
	case o.fn.C != nil:
		key := fmt.Sprintf("%s.%d", o.creator, o.seq)
		// a reset AfterFunc may run several times
		for s.thread(key) != nil {
			key += "r"
		}
		nt := &Thread{epoch: s.epoch, key: key, status: TStart, virgin: true}
		s.threads = append(s.threads, nt)
		y := &X{e: e, s: s, t: nt}
		y.call(o.fn, nil, nil, 'g', 0)
	}
}

func (e *Engine) show(s *State, v Value) string {
	switch u := v.(type) {
	case *Term:
		if u.IsConst() {
			if u.sort.K == KBool {
				return strconv.FormatBool(u.val == 1)
			}
			if u.sort.K == KFP {
				return fmt.Sprint(u.Float())
			}
			return strconv.FormatInt(u.Int(), 10)
		}
		return "?"
	case StrV:
		if u.Sym == nil {
			return u.S
		}
		return "?"
	case IfaceV:
		if u.T == nil {
			return "<nil>"
		}
		return e.show(s, u.V)
	case Ptr:
		if u.Obj == 0 {
			return "<nil>"
		}
		// errors.errorString and similar
		defer func() { recover() }()
		if st, ok := s.load(u).(StructV); ok && len(st.F) > 0 {
			return e.show(s, st.F[0])
		}
		return "ptr"
	case StructV:
		var p []string
		for _, f := range u.F {
			p = append(p, e.show(s, f))
		}
		return "{" + strings.Join(p, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}
func (e *Engine) showPanic(v Value) string {
	iv := v.(IfaceV)
	if iv.T == nil {
		return "nil"
	}
	switch u := iv.V.(type) {
	case StrV:
		if u.Sym == nil {
			return u.S
		}
	case *Term:
		if u.IsConst() {
			return e.show(nil, u)
		}
	}
	return iv.T.String()
}

// format: fmt.Sprintf, exact for concrete arguments and for the bytes of strings and byte slices under %s, %v and
// %x; other symbolic arguments (they occur in messages) show as "?".
func (c *Call) format(f string, args []Value) StrV {
	var out []*Term
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, BVc(8, uint64(s[i])))
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		st := i + 1
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if k < len(args) {
			out = append(out, c.fmtOne(f[i], f[st:i], args[k])...)
		}
		k++
	}
	return mkStr(out)
}

func (c *Call) fmtOne(verb byte, flags string, v Value) (out []*Term) {
	lit := func(s string) []*Term {
		var r []*Term
		for i := 0; i < len(s); i++ {
			r = append(r, BVc(8, uint64(s[i])))
		}
		return r
	}
	hexd := func(n *Term) *Term { // n: 8 bits, below 16
		a := uint64('a')
		if verb == 'X' {
			a = 'A'
		}
		return Ite(Cmp(OUlt, n, BVc(8, 10)), Bin(OAdd, n, BVc(8, '0')), Bin(OAdd, n, BVc(8, a-10)))
	}
	hex := func(b *Term) []*Term {
		return []*Term{hexd(Bin(OLShr, b, BVc(8, 4))), hexd(Bin(OBAnd, b, BVc(8, 15)))}
	}
	iv, ok := v.(IfaceV)
	if !ok || iv.T == nil {
		return lit(c.e.show(c.s, v))
	}
	byteElem := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	var bs []*Term
	isBytes := false
	switch u := iv.T.Underlying().(type) {
	case *types.Slice:
		if sl, ok := iv.V.(SliceV); ok && byteElem(u.Elem()) {
			bs, isBytes = c.bytesOf(sl), true
		}
	case *types.Array:
		if a, ok := iv.V.(ArrayV); ok && byteElem(u.Elem()) {
			for _, e := range a.E {
				bs = append(bs, e.(*Term))
			}
			isBytes = true
		}
	case *types.Basic:
		if s, ok := iv.V.(StrV); ok {
			switch {
			case verb == 'x' || verb == 'X':
				for i := 0; i < s.Len(); i++ {
					bs = append(bs, s.Byte(i))
				}
				isBytes = true
			case s.Sym == nil:
				return lit(fmt.Sprintf("%"+flags+string(verb), s.S))
			case (verb == 's' || verb == 'v') && flags == "":
				return s.Sym
			}
			break
		}
		if t, ok := iv.V.(*Term); ok {
			if t.sort.K == KBV && t.sort.W == 8 && (verb == 'x' || verb == 'X') && flags == "02" {
				return hex(t)
			}
			if !t.IsConst() {
				return lit("?")
			}
			switch {
			case t.sort.K == KBool:
				return lit(fmt.Sprintf("%"+flags+string(verb), t.val == 1))
			case t.sort.K == KFP:
				return lit(fmt.Sprintf("%"+flags+string(verb), t.Float()))
			case u.Info()&types.IsUnsigned != 0:
				return lit(fmt.Sprintf("%"+flags+string(verb), t.val))
			default:
				return lit(fmt.Sprintf("%"+flags+string(verb), t.Int()))
			}
		}
	}
	if isBytes && (verb == 'x' || verb == 'X') && flags == "" {
		for _, b := range bs {
			out = append(out, hex(b)...)
		}
		return out
	}
	if sl, ok := iv.V.(SliceV); ok && isBytes && verb == 's' && flags == "" {
		return c.bytesOf(sl)
	}
	return lit(c.e.show(c.s, v))
}

var _ = ssa.BinOp{}

// serialize: an injective encoding of the exported content of a value (types as encoding/gob sees them).
func (c *Call) serialize(out []*Term, t types.Type, v Value) []*Term {
	word := func(x *Term) {
		for i := 0; i < int(x.sort.W); i += 8 {
			out = append(out, Extract(i+7, i, x))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			switch x.sort.K {
			case KBool:
				word(Ite(x, BVc(8, 1), BVc(8, 0)))
			case KBV:
				word(x)
			default:
				panic(unsup("serialising a float"))
			}
		case StrV:
			word(BVc(32, uint64(x.Len())))
			for i := 0; i < x.Len(); i++ {
				out = append(out, x.Byte(i))
			}
		default:
			panic(unsup("serialising %v", t))
		}
	case *types.Pointer:
		p := v.(Ptr)
		if p.Obj == 0 {
			out = append(out, BVc(8, 0))
			return out
		}
		out = append(out, BVc(8, 1))
		out = c.serialize(out, u.Elem(), c.load(p))
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				out = c.serialize(out, u.Field(i).Type(), v.(StructV).F[i])
			}
		}
	case *types.Array:
		for _, x := range v.(ArrayV).E {
			out = c.serialize(out, u.Elem(), x)
		}
	case *types.Slice:
		sl := v.(SliceV)
		word(BVc(32, uint64(sl.Len)))
		if sl.Len > 0 {
			for _, x := range c.elems(sl) {
				out = c.serialize(out, u.Elem(), x)
			}
		}
	case *types.Map:
		m := v.(MapV)
		if m.Obj == 0 {
			word(BVc(32, 0))
			break
		}
		x := c.s.obj(m.Obj)
		c.access(m.Obj, "", 'R')
		word(BVc(32, uint64(len(x.ents))))
		es := append([]MapEnt(nil), x.ents...)
		sort.SliceStable(es, func(i, j int) bool {
			a, ok1 := es[i].K.(StrV)
			b, ok2 := es[j].K.(StrV)
			return ok1 && ok2 && a.Sym == nil && b.Sym == nil && a.S < b.S
		})
		for _, en := range es {
			out = c.serialize(out, u.Key(), en.K)
			out = c.serialize(out, u.Elem(), en.V)
		}
	default:
		panic(unsup("serialising %v", t))
	}
	return out
}

type shortInput struct{}

// deserialize is the inverse of serialize. It only reads (and may fork); the returned function builds the value.
func (c *Call) deserialize(in []*Term, t types.Type) ([]*Term, func() Value) {
	take := func(n int) []*Term {
		if len(in) < n {
			panic(shortInput{})
		}
		r := in[:n]
		in = in[n:]
		return r
	}
	word := func(w int) *Term {
		b := take(w / 8)
		r := b[0]
		for _, x := range b[1:] {
			r = Concat(x, r)
		}
		return r
	}
	count := func() int {
		n := c.concretize(word(32), "length in an encoding")
		if n > uint64(len(in)) {
			panic(shortInput{})
		}
		return int(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			v := Not(Eq(word(8), BVc(8, 0)))
			return in, func() Value { return v }
		case u.Info()&types.IsInteger != 0:
			w, _ := intInfo(u)
			v := word(w)
			return in, func() Value { return v }
		case u.Info()&types.IsString != 0:
			v := mkStr(take(count()))
			return in, func() Value { return v }
		}
	case *types.Struct:
		fs := make([]func() Value, u.NumFields())
		for i := range fs {
			if u.Field(i).Exported() {
				in, fs[i] = c.deserialize(in, u.Field(i).Type())
			}
		}
		return in, func() Value {
			z := c.e.zero(t).(StructV)
			for i, f := range fs {
				if f != nil {
					z.F[i] = f()
				}
			}
			return z
		}
	case *types.Slice:
		fs := make([]func() Value, count())
		for i := range fs {
			in, fs[i] = c.deserialize(in, u.Elem())
		}
		return in, func() Value {
			if len(fs) == 0 {
				return SliceV{}
			}
			vs := make([]Value, len(fs))
			for i, f := range fs {
				vs[i] = f()
			}
			return c.newSlice(u.Elem(), vs)
		}
	case *types.Map:
		fs := make([]func() Value, 2*count())
		for i := range fs {
			k := u.Key()
			if i%2 == 1 {
				k = u.Elem()
			}
			in, fs[i] = c.deserialize(in, k)
		}
		ks := make([]Value, 0, len(fs)/2)
		keep := make([]bool, len(fs)/2)
		for i := range keep {
			if _, ok := u.Key().Underlying().(*types.Basic); !ok {
				panic(unsup("deserialising a map with keys of type %v", u.Key()))
			}
			k := fs[2*i]() // a basic value: nothing is allocated
			keep[i] = true
			for j := range ks {
				if keep[j] && c.decide(c.eq(k, ks[j])) {
					keep[j] = false
				}
			}
			ks = append(ks, k)
		}
		return in, func() Value {
			o := &Obj{kind: OMap, typ: t, label: "map " + t.String()}
			m := MapV{c.s.newObj(o)}
			for i, k := range ks {
				if v := fs[2*i+1](); keep[i] {
					o := c.s.mut(m.Obj)
					o.ents = append(o.ents, MapEnt{o.nextID, k, v})
					o.nextID++
				}
			}
			return m
		}
	}
	panic(unsup("deserialising %v", t))
}
