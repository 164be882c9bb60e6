package pure

import (
	"errors"

	"github.com/axgrid/axutils/flow"
	"vpharness/vp"
)

type step struct {
	id     int
	do     bool  // Do step (otherwise a condition)
	pass   bool  // condition holds
	err    error // result of a Do step
	onlyEv bool
	silent bool // not traced
}

type call struct {
	id, ev, st int
}

var stepErrs = []error{nil, errors.New("first"), errors.New("second")}

type procCase struct {
	trace   []call
	want    []step
	n       int
	event   int
	running bool
}

func (p *procCase) next(do, onlyEv bool) *step {
	s := step{id: p.n, do: do, onlyEv: onlyEv}
	p.n++
	p.want = append(p.want, s)
	return &p.want[len(p.want)-1]
}

// outcome decides what a step does; the same on every call of the processor for a condition drawn once per run.
func (p *procCase) outcomes() {
	for i := range p.want {
		if p.want[i].do {
			p.want[i].err = stepErrs[vp.Choose("err", 3)]
		} else {
			p.want[i].pass = vp.Bool("pass")
		}
	}
}
func (p *procCase) cond(id int) func(int, int) bool {
	return func(e, s int) bool {
		p.trace = append(p.trace, call{id, e, s})
		return p.want[id].pass
	}
}
func (p *procCase) condE(id int) func(int) bool {
	return func(e int) bool {
		p.trace = append(p.trace, call{id, e, -1})
		return p.want[id].pass
	}
}
func (p *procCase) act(id int) func(int, int) error {
	return func(e, s int) error {
		p.trace = append(p.trace, call{id, e, s})
		return p.want[id].err
	}
}

// run calls the processor once and compares with the reference.
func (p *procCase) run(f func(int, int) error) {
	p.trace = nil
	p.outcomes()
	ev, st := vp.Int("event"), vp.IntRange("state", 0, 1000)
	p.event = ev
	err := f(ev, st)
	k := 0
	for _, s := range p.want {
		if s.silent {
			if !s.pass {
				vp.Assert(err != nil, "a false condition gives an error")
				vp.Assert(k == len(p.trace), "nothing runs after the first failure")
				return
			}
			continue
		}
		vp.Assert(k < len(p.trace), "every step up to the first failure runs")
		c := p.trace[k]
		k++
		vp.Assert(c.id == s.id, "steps run in the order they were declared")
		vp.Assert(c.ev == ev && (s.onlyEv || c.st == st), "each step gets the given event and state")
		if s.do && s.err != nil {
			vp.Assert(err == s.err, "the error of the failing step is returned")
			vp.Assert(k == len(p.trace), "nothing runs after the first failure")
			return
		}
		if !s.do && !s.pass {
			vp.Assert(err != nil, "a false condition gives an error")
			vp.Assert(k == len(p.trace), "nothing runs after the first failure")
			return
		}
	}
	vp.Assert(err == nil, "if every step passes the result is nil")
	vp.Assert(k == len(p.trace), "no step runs twice")
}

// 0..2 routes with 0..2 steps each (On, OnEvent, Do), every outcome of every step, two calls of the processor.
//
//vp:check P01
func Routes() {
	p := &procCase{}
	b := flow.NewProcessor[int, int]()
	for range vp.Choose("routes", 3) {
		steps := vp.Choose("steps", 3)
		b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
			for range steps {
				switch vp.Choose("kind", 3) {
				case 0:
					r.On(p.cond(p.next(false, false).id))
				case 1:
					r.OnEvent(p.condE(p.next(false, true).id))
				default:
					r.Do(p.act(p.next(true, false).id))
				}
			}
		})
	}
	f := b.Build()
	p.run(f)
	p.run(f)
}

// Two RouteOn routes with 0..2 actions, mixed with one plain route before, between or after; every outcome. How
// often a RouteOn condition is evaluated is left open; its result is a function of the event.
//
//vp:check P01
func RoutesOn() {
	p := &procCase{}
	b := flow.NewProcessor[int, int]()
	plain := vp.Choose("plain", 3)
	for i := range 3 {
		if i == plain {
			b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
				r.On(p.cond(p.next(false, false).id)).Do(p.act(p.next(true, false).id))
			})
			continue
		}
		n := vp.Choose("actions", 3)
		var do []func(int, int) error
		gate := -1
		if n > 0 {
			gate = p.next(false, true).id
			p.want[gate].silent = true
		}
		for range n {
			do = append(do, p.act(p.next(true, false).id))
		}
		b.RouteOn(func(e int) bool {
			vp.Assert(e == p.event, "the condition gets the given event")
			return gate < 0 || p.want[gate].pass
		}, do...)
	}
	f := b.Build()
	p.run(f)
}

// A three-step chain on pointers, four calls in a row: a failing call leaves nothing behind for the next one.
//
//vp:check P01
func Afresh() {
	p := &procCase{}
	b := flow.NewProcessor[int, int]()
	b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
		r.On(p.cond(p.next(false, false).id)).Do(p.act(p.next(true, false).id)).OnEvent(p.condE(p.next(false, true).id))
	})
	b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) { r.Do(p.act(p.next(true, false).id)) })
	f := b.Build()
	g := b.Build()
	p.run(f)
	p.run(g)
	p.run(f)
}

// A processor is built, a route is added to the builder, and another processor is built: the first still runs its own
// routes only.
//
//vp:check B01
func ProcessorBuilder() {
	b := flow.NewProcessor[int, int]()
	p, q := &procCase{}, &procCase{}
	pre := vp.Choose("pre", 4)
	for i := range pre {
		b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) {
			x, y := p.act(p.next(true, false).id), q.act(q.next(true, false).id)
			_ = i
			r.Do(func(e, s int) error {
				if p.running {
					return x(e, s)
				}
				return y(e, s)
			})
		})
	}
	f := b.Build()
	b.Route(func(r *flow.ProcessorRouterBuilder[int, int]) { r.On(q.cond(q.next(false, false).id)) })
	g := b.Build()
	p.running = true
	p.run(f)
	p.running = false
	q.run(g)
	p.running = true
	p.run(f)
}
