package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channel operations.

type selCase struct {
	ch   ChanV
	send bool
	val  Value
}

// curOp describes the channel operation thread t is parked at (ok=false if none).
func (e *Engine) curOp(s *State, t *Thread) (cases []selCase, blocking, isSel bool, in ssa.Instruction) {
	if t.status != TReady || t.pend != nil || len(t.frames) == 0 {
		return
	}
	f := t.frames[len(t.frames)-1]
	if f.panicking {
		return
	}
	i := f.block.Instrs[f.idx]
	if !visibleInstr(i) {
		return
	}
	x := &X{e: e, s: s, t: t, f: f}
	switch i := i.(type) {
	case *ssa.Send:
		return []selCase{{x.get(i.Chan).(ChanV), true, x.get(i.X)}}, true, false, i
	case *ssa.UnOp:
		return []selCase{{x.get(i.X).(ChanV), false, nil}}, true, false, i
	case *ssa.Select:
		for _, st := range i.States {
			c := selCase{ch: x.get(st.Chan).(ChanV), send: st.Dir == types.SendOnly}
			if c.send {
				c.val = x.get(st.Send)
			}
			cases = append(cases, c)
		}
		return cases, i.Blocking, true, i
	}
	return
}

type partner struct {
	key   string
	case_ int
	firm  bool
}

// partners: goroutines blocked in the opposite operation on an unbuffered channel.
func (e *Engine) partners(s *State, self string, ch ChanV, wantSend bool) []partner {
	var out []partner
	for _, t := range s.threads {
		if t.key == self {
			continue
		}
		cs, blocking, _, in := e.curOp(s, t)
		if in == nil || !blocking {
			continue
		}
		for k, c := range cs {
			if c.ch == ch && c.send == wantSend {
				out = append(out, partner{t.key, k, t.firm})
			}
		}
	}
	return out
}

// option: one way in which a channel operation can proceed.
type option struct {
	case_   int // -1: default
	partner *partner
	det     bool // ready whatever the others do
}

func (e *Engine) options(s *State, t *Thread) []option {
	cs, blocking, isSel, in := e.curOp(s, t)
	if in == nil {
		return nil
	}
	var out []option
	mustNotDefault := false
	for k, c := range cs {
		if c.ch.Obj == 0 {
			continue
		}
		o := s.obj(c.ch.Obj)
		if c.send {
			if o.closed || len(o.buf) < o.cap {
				out = append(out, option{case_: k, det: true})
				mustNotDefault = true
			} else if o.cap == 0 && !blocking {
				for _, p := range e.partners(s, t.key, c.ch, false) {
					p := p
					out = append(out, option{case_: k, partner: &p})
					if p.firm {
						mustNotDefault = true
					}
				}
			}
		} else {
			if o.closed || len(o.buf) > 0 {
				out = append(out, option{case_: k, det: true})
				mustNotDefault = true
			} else if o.cap == 0 {
				for _, p := range e.partners(s, t.key, c.ch, true) {
					p := p
					out = append(out, option{case_: k, partner: &p})
					if p.firm {
						mustNotDefault = true
					}
				}
			}
		}
	}
	if isSel && !blocking && !mustNotDefault {
		out = append(out, option{case_: -1})
	}
	return out
}

// chanOp performs the channel operation of the granted thread.
func (x *X) chanOp(in ssa.Instruction) {
	opts := x.e.options(x.s, x.t)
	if len(opts) == 0 {
		panic("internal: channel operation not enabled")
	}
	if in, ok := in.(*ssa.Select); ok && in.Blocking && x.e.cfg.SelectFirst {
		opts = opts[:1]
	}
	o := opts[x.choose(len(opts))]
	x.sync()
	cs, _, isSel, _ := x.e.curOp(x.s, x.t)
	x.t.firm = false
	if o.case_ < 0 {
		x.finishSelect(x.t, in.(*ssa.Select), -1, nil, false)
		x.record("select default")
		return
	}
	c := cs[o.case_]
	var val Value
	okv := true
	if o.partner != nil {
		pt := x.s.mutThread(o.partner.key)
		pcs, _, pSel, pin := x.e.curOp(x.s, pt)
		pt.fp = nil
		pt.virgin = false
		pt.spawnedNow = false
		pt.eagerRan = false
		pt.tail = false
		pt.firm = false
		pc := pcs[o.partner.case_]
		if c.send {
			val = c.val
			x.completeRecv(pt, pin, pSel, o.partner.case_, val, true)
		} else {
			val = pc.val
			if pSel {
				x.finishSelect(pt, pin.(*ssa.Select), o.partner.case_, nil, false)
			} else {
				pt.top().idx++
			}
		}
		x.s.runq = append(x.s.runq, pt.key)
	} else {
		ch := x.s.mut(c.ch.Obj)
		x.releasing()
		if c.send {
			if ch.closed {
				x.t.top() // the panic is raised at this instruction
				panic(goPanic{desc: "send on closed channel", val: IfaceV{T: x.e.rtErrT, V: StrV{S: "send on closed channel"}}})
			}
			ch.buf = append(ch.buf, c.val)
		} else if len(ch.buf) > 0 {
			val = ch.buf[0]
			ch.buf = append([]Value(nil), ch.buf[1:]...)
		} else {
			val = x.e.zero(ch.typ.Underlying().(*types.Chan).Elem())
			okv = false
		}
	}
	x.record("chan")
	if c.send {
		if isSel {
			x.finishSelect(x.t, in.(*ssa.Select), o.case_, nil, false)
		} else {
			x.t.top().idx++
		}
		return
	}
	x.completeRecv(x.t, in, isSel, o.case_, val, okv)
}

func (x *X) completeRecv(t *Thread, in ssa.Instruction, isSel bool, k int, val Value, ok bool) {
	if isSel {
		x.finishSelect(t, in.(*ssa.Select), k, val, ok)
		return
	}
	u := in.(*ssa.UnOp)
	f := t.top()
	var r Value = val
	if u.CommaOk {
		r = TupleV{[]Value{val, BoolC(ok)}}
	}
	f.regs[f.info.reg[u]] = r
	f.idx++
}

func (x *X) finishSelect(t *Thread, in *ssa.Select, k int, val Value, ok bool) {
	tup := TupleV{[]Value{BVc(64, uint64(k)), BoolC(ok)}}
	for j, st := range in.States {
		if st.Dir == types.RecvOnly {
			if j == k {
				tup.E = append(tup.E, val)
			} else {
				tup.E = append(tup.E, x.e.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	f := t.top()
	f.regs[f.info.reg[in]] = tup
	f.idx++
}

// ghostChan: channel operations inside ghost code must be able to proceed at once.
func (x *X) ghostChan(in ssa.Instruction) {
	opts := x.e.options(x.s, x.t)
	if len(opts) == 0 {
		panic(unsup("blocking channel operation in ghost or atomic code"))
	}
	for _, o := range opts {
		if o.partner != nil {
			panic(unsup("rendezvous in ghost or atomic code"))
		}
	}
	saved := *x.t
	x.chanOp(in)
	x.t.fp, x.t.virgin, x.t.spawnedNow, x.t.eagerRan, x.t.tail = saved.fp, saved.virgin, saved.spawnedNow, saved.eagerRan, saved.tail
}

// enabled reports whether thread t can take a step now (Settle excluded).
func (e *Engine) enabled(s *State, t *Thread) bool {
	switch t.status {
	case TDone, TSleeping:
		return false
	case TStart, TResume:
		return true
	}
	if t.pend != nil {
		if t.pend.in.enabled == nil {
			return true
		}
		var f *Frame
		if len(t.frames) > 0 {
			f = t.top()
		}
		return t.pend.in.enabled(&Call{X: &X{e: e, s: s, t: t, f: f}, p: t.pend, args: t.pend.args})
	}
	return len(e.options(s, t)) > 0
}

func (x *X) record(kind string) {
	if x.e.conc != nil && x.t.ghost == 0 {
		x.s.opKind = kind
	}
}

var _ = token.ARROW
