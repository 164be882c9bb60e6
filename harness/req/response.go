package req

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

func newResponse(T, clear int) (*collections.ResponseMap[int, int], func()) {
	ctx, cancel := context.WithCancel(context.Background())
	return collections.NewResponseMap[int, int](ctx).WithResponseTimeout(time.Duration(T)).WithClearTimeout(time.Duration(clear)).Build(), cancel
}

// Two waiters and two setters of one key with arbitrary values, all concurrent, and a wait after all of them.
//
//vp:check R07,T01
func ResponseFirstValue() {
	m, cancel := newResponse(long, long)
	h := &lin.Hist{}
	wait := func(o *lin.Op) func() {
		return func() {
			h.Begin(o)
			o.R = m.Wait(0)
			h.End(o)
		}
	}
	set := func(o *lin.Op) func() {
		return func() {
			h.Begin(o)
			m.Set(0, o.V)
			h.End(o)
		}
	}
	a, b := h.New(wWait, 0, 0), h.New(wWait, 0, 0)
	c, d := h.New(wSet, 0, vp.Int("v")), h.New(wSet, 0, vp.Int("w"))
	now := clock()
	lin.Par(wait(a), wait(b), set(c), set(d))
	wait(h.New(wWait, 0, 0))()
	vp.Assert(now() == 0, "nobody waits longer than for the value")
	vp.Assert(lin.Linearizable(h, held{}, waitStep), "every wait returns the first value set")
	cancel()
}

// Three waiters of one key and one setter, all concurrent.
//
//vp:check R07
func ResponseMany() {
	m, cancel := newResponse(long, long)
	v := vp.Int("v")
	now := clock()
	w := func() {
		vp.Assert(m.Wait(7) == v, "every wait returns the value")
	}
	lin.Par(w, w, w, func() { m.Set(7, v) })
	vp.Assert(now() == 0, "nobody waits longer than for the value")
	cancel()
}

// Two different keys (arbitrary ints): a waiter and a setter of each, all concurrent.
//
//vp:check R07
func ResponseTwoKeys() {
	m, cancel := newResponse(long, long)
	k, l, v, w := vp.Int("k"), vp.Int("l"), vp.Int("v"), vp.Int("w")
	vp.Assume(k != l)
	lin.Par(func() { vp.Assert(m.Wait(k) == v, "the key's own value") }, func() { vp.Assert(m.Wait(l) == w, "the key's own value") },
		func() { m.Set(k, v) }, func() { m.Set(l, w) })
	cancel()
}

// Any number of sets in sequence: none blocks and the first one counts.
//
//vp:check R07
func ResponseRepeat() {
	m, cancel := newResponse(long, long)
	v := vp.Int("v")
	now := clock()
	m.Set(0, v)
	for vp.More() {
		m.Set(0, vp.Int("w"))
		vp.Assert(now() == 0, "set does not block")
		if vp.Choose("settle", 2) == 1 {
			vp.Settle()
		}
		if vp.Choose("wait", 2) == 1 {
			vp.Assert(m.Wait(0) == v, "the first value counts")
		}
	}
	vp.Assert(m.Wait(0) == v, "the first value counts")
	cancel()
}

// Two waits and one set at arbitrary different instants before the first cleaning, arbitrary response timeout.
//
//vp:check R07,R08
func ResponseTimes() {
	T := dur("timeout")
	b, s := dur("b"), dur("s")
	distinct(0, b, s, T)
	v := vp.Int("v")
	m, cancel := newResponse(T, long)
	now := clock()
	lin.Par(func() {
		r := m.Wait(0)
		vp.Assert(vp.Implies(s < T, vp.And(r == v, now() == s)), "a wait returns the value as soon as it is set")
		vp.Assert(vp.Implies(s > T, vp.And(r == 0, now() == T)), "an unanswered wait returns zero when the response timeout has passed")
	}, func() {
		sleep(b)
		r := m.Wait(0)
		t := now()
		vp.Assert(vp.Implies(s < b, vp.And(r == v, t == b)), "a value that was set is returned at once")
		vp.Assert(vp.Implies(vp.And(s < T, b < s), vp.And(r == v, t == s)), "a wait returns the value as soon as it is set")
		vp.Assert(vp.Implies(vp.And(T < s, b < T), vp.And(r == 0, t == T)), "waits time out with the key")
		vp.Assert(vp.Implies(vp.And(T < s, T < b, b < s), vp.And(r == 0, t == b)), "after the timeout a wait returns zero at once")
	}, func() {
		sleep(s)
		m.Set(0, v)
		vp.Assert(now() == s, "set does not block")
	})
	cancel()
}

// A key answered or not, before it is cleared; after the clear timeout plus one cleaning the key starts afresh.
// Arbitrary instants and timeouts.
//
//vp:check R08
func ResponseClear() {
	T, C := dur("timeout"), dur("clear")
	a := dur("a")
	vp.Assume(a < C)
	vp.Assume(T+a != 2*C)
	m, cancel := newResponse(T, C)
	v, w := vp.Int("v"), vp.Int("w")
	now := clock()
	sleep(a)
	// the key is created at a, the cleaning at C is too early, the one at 2C drops it
	set := vp.Choose("set", 2) == 1
	if set {
		m.Set(0, v)
		vp.Assert(m.Wait(0) == v && now() == a, "the value is returned at once")
	} else {
		vp.Assert(m.Wait(0) == 0, "an unanswered wait returns zero")
		vp.Assert(now() == vp.Ite(T+a < 2*C, T+a, 2*C), "at the response timeout or when the key is cleared")
	}
	if now() < 2*C {
		x := vp.IntRange("x", 0, 2000000)
		vp.Assume(now()+x < 2*C)
		sleep(x)
		t := now()
		r := m.Wait(0)
		if set {
			vp.Assert(r == v && now() == t, "the value is kept for the clear timeout")
		} else {
			vp.Assert(r == 0 && now() == t, "after the timeout a wait returns zero at once")
		}
		sleep(2*C - now())
	}
	sleep(1)
	t := now()
	f := vp.Choose("fresh", 2)
	if f == 1 {
		m.Set(0, w)
		vp.Assert(m.Wait(0) == w && now() == t, "a cleared key starts afresh")
	} else {
		vp.Assume(T < C-1)
		vp.Assert(m.Wait(0) == 0 && now() == t+T, "a cleared key starts afresh")
	}
	cancel()
	sleep(long)
	ended()
}

// A wait and a set of a key created earlier, each at an arbitrary instant around its timeout and its clearing,
// including the very same instants: nothing crashes, hangs or returns something nobody set.
//
//vp:check R08,T01
func ResponseRaces() {
	T, C := dur("timeout"), dur("clear")
	s, b := dur("s"), dur("b")
	vp.Assume(s <= 2*C)
	vp.Assume(b <= 2*C)
	v := vp.Int("v")
	m, cancel := newResponse(T, C)
	lin.Par(func() {
		sleep(b)
		r := m.Wait(0)
		vp.Assert(r == 0 || r == v, "a wait returns the value or zero")
	}, func() {
		sleep(s)
		t := time.Now()
		m.Set(0, v)
		vp.Assert(time.Since(t) == 0, "set does not block")
	})
	cancel()
}

// Two waiters and a setter at the very instant the key is cleared for the first time.
//
//vp:check R08,T01
func ResponseClearRace() {
	m, cancel := newResponse(long, 10)
	v := vp.Int("v")
	go m.Wait(0)
	sleep(1)
	go m.Wait(1)
	sleep(18 + vp.Choose("late", 2))
	w := func() {
		r := m.Wait(1)
		vp.Assert(r == 0 || r == v, "a wait returns the value or zero")
	}
	sleep(1)
	lin.Par(w, w, func() {
		m.Set(1, v)
		cancel()
	})
}
