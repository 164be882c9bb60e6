// Package lin: recorded histories of concurrent operations and the linearizability check over them.
package lin

import (
	"sync"

	"vpharness/vp"
)

// Op is one recorded operation. Kind and K are concrete per path; V, R may be symbolic.
type Op struct {
	Kind, K, V int
	R          int
	Ok         bool
	E          int // further result
	prev       []bool
	done       bool
}

// Hist is a history of operations.
type Hist struct{ Ops []*Op }

// New registers an operation before the program starts (so that its place in Ops does not depend on the schedule).
func (h *Hist) New(kind, k, v int) *Op {
	o := &Op{Kind: kind, K: k, V: v}
	h.Ops = append(h.Ops, o)
	return o
}

// Begin marks the invocation: everything that has returned by now precedes it.
func (h *Hist) Begin(o *Op) {
	if !vp.Symbolic() {
		vp.Yield() // in replays, the schedule controller decides when an operation begins
	}
	vp.Ghost(func() {
		o.prev = make([]bool, len(h.Ops))
		for i, p := range h.Ops {
			o.prev[i] = p.done
		}
	})
}

// End marks the response.
func (h *Hist) End(o *Op) { vp.Ghost(func() { o.done = true }) }

// Linearizable: some order of the operations that respects real time explains all results. step gives, for a
// state and an operation, the next state and the condition under which the result is right.
func Linearizable[S any](h *Hist, init S, step func(S, *Op) (S, bool)) bool {
	n := len(h.Ops)
	used := make([]bool, n)
	var any []bool
	var rec func(s S, left int, ok bool)
	rec = func(s S, left int, ok bool) {
		if left == 0 {
			any = append(any, ok)
			return
		}
		for i, o := range h.Ops {
			if used[i] {
				continue
			}
			// o may come next only if everything that returned before it began is already placed
			free := true
			for j := range h.Ops {
				if !used[j] && j != i && j < len(o.prev) && o.prev[j] {
					free = false
				}
			}
			if !free {
				continue
			}
			used[i] = true
			s2, c := step(s, o)
			rec(s2, left-1, vp.And(ok, c))
			used[i] = false
		}
	}
	rec(init, n, true)
	return vp.Or(any...)
}

// Sub is Linearizable for the operations of the part p of h only; p.Ops is a subsequence of h.Ops.
func Sub[S any](h, p *Hist, init S, step func(S, *Op) (S, bool)) bool {
	q := &Hist{}
	for _, o := range p.Ops {
		c := *o
		c.prev = nil
		for _, x := range p.Ops {
			for j, y := range h.Ops {
				if x == y {
					c.prev = append(c.prev, j < len(o.prev) && o.prev[j])
				}
			}
		}
		q.Ops = append(q.Ops, &c)
	}
	return Linearizable(q, init, step)
}

// Par runs the functions concurrently and waits for all of them.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}
