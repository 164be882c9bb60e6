package req

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	_ "vpharness/model"
	"vpharness/vp"
)

const long = 1000000000000

// dur is an arbitrary duration between 1 and 1e6 nanoseconds.
func dur(name string) int { return vp.IntRange(name, 1, 1000000) }

func sleep(d int) { time.Sleep(time.Duration(d)) }

// distinct: the instants are pairwise different.
func distinct(t ...int) {
	for i := range t {
		for j := 0; j < i; j++ {
			vp.Assume(t[i] != t[j])
		}
	}
}

// clock measures time since its creation.
func clock() func() int {
	t0 := time.Now()
	return func() int { return int(time.Since(t0)) }
}

// ended: after a long time no goroutine of the code under test is left.
func ended() {
	sleep(long)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left behind")
}

const (
	wWait = iota
	wSet
)

type held struct {
	has bool
	val int
}

func waitStep(s held, o *lin.Op) (held, bool) {
	if o.Kind == wSet {
		if !s.has {
			s = held{true, o.V}
		}
		return s, true
	}
	return s, vp.And(s.has, o.R == s.val)
}

// Two waiters and two setters of one key with arbitrary values, all concurrent, and a wait after all of them.
//
//vp:check R04,T01
func WaitFirstValue() {
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).Build()
	h := &lin.Hist{}
	wait := func(o *lin.Op) func() {
		return func() {
			h.Begin(o)
			o.R = m.Wait(0)
			h.End(o)
		}
	}
	set := func(o *lin.Op) func() {
		return func() {
			h.Begin(o)
			m.Set(0, o.V)
			h.End(o)
		}
	}
	a, b := h.New(wWait, 0, 0), h.New(wWait, 0, 0)
	c, d := h.New(wSet, 0, vp.Int("v")), h.New(wSet, 0, vp.Int("w"))
	now := clock()
	lin.Par(wait(a), wait(b), set(c), set(d))
	wait(h.New(wWait, 0, 0))()
	vp.Assert(now() == 0, "nobody waits longer than for the value")
	vp.Assert(lin.Linearizable(h, held{}, waitStep), "every wait returns the first value set")
}

// Three waiters of one key and one setter, all concurrent.
//
//vp:check R04
func WaitMany() {
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).Build()
	v := vp.Int("v")
	now := clock()
	w := func() {
		vp.Assert(m.Wait(7) == v, "every wait returns the value")
	}
	lin.Par(w, w, w, func() { m.Set(7, v) })
	vp.Assert(now() == 0, "nobody waits longer than for the value")
}

// Two different keys (arbitrary ints): a waiter and a setter of each, all concurrent.
//
//vp:check R04
func WaitTwoKeys() {
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).Build()
	k, l, v, w := vp.Int("k"), vp.Int("l"), vp.Int("v"), vp.Int("w")
	vp.Assume(k != l)
	lin.Par(func() { vp.Assert(m.Wait(k) == v, "the key's own value") }, func() { vp.Assert(m.Wait(l) == w, "the key's own value") },
		func() { m.Set(k, v) }, func() { m.Set(l, w) })
}

// Two waits and one set of one key at arbitrary different instants, arbitrary request timeout and time-to-live.
//
//vp:check R04,R05,R06
func WaitTimes() {
	T, ttl := dur("timeout"), dur("ttl")
	b, s := dur("b"), dur("s")
	distinct(0, b, s, T, s+ttl, T+ttl)
	v := vp.Int("v")
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(time.Duration(T)).WithResponseTtl(time.Duration(ttl)).Build()
	now := clock()
	lin.Par(func() {
		r := m.Wait(0)
		vp.Assert(vp.Implies(s < T, vp.And(r == v, now() == s)), "a wait returns the value as soon as it is set")
		vp.Assert(vp.Implies(s > T, vp.And(r == 0, now() == T)), "an unanswered wait returns zero when the request timeout has passed")
	}, func() {
		sleep(b)
		r := m.Wait(0)
		t := now()
		vp.Assert(vp.Implies(vp.And(s < T, b < s), vp.And(r == v, t == s)), "a wait returns the value as soon as it is set")
		vp.Assert(vp.Implies(vp.And(s < T, s < b, b < s+ttl), vp.And(r == v, t == b)), "a held value is returned at once")
		vp.Assert(vp.Implies(vp.And(s < T, s+ttl < b), vp.And(r == 0, t == b+T)), "after the time-to-live a wait waits for a new set")
		vp.Assert(vp.Implies(vp.And(T < s, b < T), vp.And(r == 0, t == T)), "waits time out with the first wait of their group")
		vp.Assert(vp.And(t >= b, t <= b+T), "no wait takes longer than the request timeout")
	}, func() {
		sleep(s)
		m.Set(0, v)
		vp.Assert(now() == s, "set does not block")
	})
	sleep(long)
	vp.Assert(m.Count() == 0, "nothing is kept")
	ended()
}

// A wait answered before its timeout, the value forgotten before that timeout, and a second wait and set of the
// same key around the first wait's timeout, at arbitrary instants.
//
//vp:check R06
func WaitStaleTimeout() {
	T, ttl := dur("timeout"), dur("ttl")
	s, b, s2, c := dur("s"), dur("b"), dur("s2"), dur("c")
	vp.Assume(s+ttl < b)
	vp.Assume(s < T)
	vp.Assume(b < s2)
	vp.Assume(s2 < b+T)
	vp.Assume(s2 < c)
	vp.Assume(c < s2+ttl)
	distinct(T, b, s2, c)
	v, w := vp.Int("v"), vp.Int("w")
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(time.Duration(T)).WithResponseTtl(time.Duration(ttl)).Build()
	now := clock()
	lin.Par(func() {
		vp.Assert(m.Wait(0) == v, "first wait")
		sleep(b - s)
		r := m.Wait(0)
		vp.Assert(r == w && now() == s2, "a later wait gets the later value, whatever was armed before")
		sleep(c - s2)
		vp.Assert(m.Wait(0) == w && now() == c, "the value is held for its time-to-live")
	}, func() {
		sleep(s)
		m.Set(0, v)
		sleep(s2 - s)
		m.Set(0, w)
	})
}

// Two waiters of one key and one of another, cancellation at an arbitrary instant before or after a set; later
// waits return at once.
//
//vp:check R05
func WaitCancel() {
	c, s := dur("cancel"), dur("s")
	distinct(c, s)
	v := vp.Int("v")
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).WithContext(ctx).Build()
	now := clock()
	w := func() {
		r := m.Wait(0)
		vp.Assert(vp.Implies(s < c, vp.And(r == v, now() == s)), "a wait returns the value as soon as it is set")
		vp.Assert(vp.Implies(c < s, vp.And(r == 0, now() == c)), "cancellation releases a waiter with zero")
	}
	lin.Par(w, w, func() {
		vp.Assert(m.Wait(1) == 0 && now() == c, "cancellation releases every waiter")
	}, func() {
		sleep(s)
		m.Set(0, v)
	}, func() {
		sleep(c)
		cancel()
	})
	sleep(1)
	t := now()
	vp.Assert(m.Wait(2) == 0 && now() == t, "after cancellation a wait returns at once")
	vp.Settle()
	vp.Assert(m.Count() == 0, "nothing is kept")
	sleep(long)
	ended()
}

// Cancellation racing with a wait and a set.
//
//vp:check R05,T01
func WaitCancelRace() {
	v := vp.Int("v")
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(long).WithResponseTtl(long).WithContext(ctx).Build()
	now := clock()
	lin.Par(func() {
		r := m.Wait(0)
		vp.Assert(r == 0 || r == v, "a wait returns the value or zero")
	}, func() { m.Set(0, v) }, cancel)
	vp.Assert(now() == 0, "nobody waits longer")
	vp.Settle()
	vp.Assert(m.Count() == 0, "nothing is kept")
}
