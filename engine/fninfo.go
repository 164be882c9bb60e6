package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FnInfo: register numbering and liveness for one SSA function.
type FnInfo struct {
	fn    *ssa.Function
	id    int
	reg   map[ssa.Value]int
	nreg  int
	liveI map[*ssa.BasicBlock]bitset // live-in per block (phis' results excluded)
	cache map[[2]int]bitset
}

type bitset []uint64

func newBits(n int) bitset { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool {
	return b[i>>6]&(1<<uint(i&63)) != 0
}
func (b bitset) set(i int)   { b[i>>6] |= 1 << uint(i&63) }
func (b bitset) clear(i int) { b[i>>6] &^= 1 << uint(i&63) }
func (b bitset) copy() bitset {
	return append(bitset(nil), b...)
}
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			ch = true
			b[i] = n
		}
	}
	return ch
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	if fn.Blocks == nil && fn.Package() != nil {
		fn.Package().Build()
	}
	fi := &FnInfo{fn: fn, id: len(e.infos), reg: map[ssa.Value]int{}, cache: map[[2]int]bitset{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.infos[fn] = fi
	fi.liveness()
	if e.encoded != nil && len(fn.Blocks) > 0 {
		e.encoded[fn.String()] = true
	}
	return fi
}

func (fi *FnInfo) uses(in ssa.Instruction, f func(int)) {
	var ops [12]*ssa.Value
	for _, p := range in.Operands(ops[:0]) {
		if *p != nil {
			if r, ok := fi.reg[*p]; ok {
				f(r)
			}
		}
	}
}

func (fi *FnInfo) liveness() {
	fi.liveI = map[*ssa.BasicBlock]bitset{}
	for _, b := range fi.fn.Blocks {
		fi.liveI[b] = newBits(fi.nreg)
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.fn.Blocks) - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			l := fi.liveOut(b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					l.clear(fi.reg[v])
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				fi.uses(in, func(r int) { l.set(r) })
			}
			if fi.liveI[b].or(l) {
				ch = true
			}
		}
	}
}
func (fi *FnInfo) liveOut(b *ssa.BasicBlock) bitset {
	l := newBits(fi.nreg)
	for _, s := range b.Succs {
		l.or(fi.liveI[s])
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if r, ok := fi.reg[ph.Edges[pi]]; ok {
					l.set(r)
				}
			}
		}
	}
	if fi.fn.Recover != nil && b != fi.fn.Recover {
		if ri, ok := fi.liveI[fi.fn.Recover]; ok {
			l.or(ri)
		}
	}
	return l
}

// liveAt: registers live just before instruction idx of block b. If after
// is set, those live after it minus its own result (caller frames).
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, idx int, after bool) bitset {
	k := [2]int{b.Index, idx * 2}
	if after {
		k[1]++
	}
	if l, ok := fi.cache[k]; ok {
		return l
	}
	l := fi.liveOut(b)
	stop := idx
	if after {
		stop = idx + 1
	}
	for j := len(b.Instrs) - 1; j >= stop; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			l.clear(fi.reg[v])
		}
		if _, ok := in.(*ssa.Phi); !ok {
			fi.uses(in, func(r int) { l.set(r) })
		}
	}
	if after {
		if v, ok := b.Instrs[idx].(ssa.Value); ok {
			l.clear(fi.reg[v])
		}
		// deferred calls and panics may still use operands of this call: operands
		// of RunDefers are not registers, so nothing else is needed.
	}
	fi.cache[k] = l
	return l
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := e.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/harness/"); i >= 0 {
		f = "harness/" + f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
