package req

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

func newRequest(ttl int, init ...*collections.RequestMapInitializer[int, int]) (*collections.RequestMap[int, int], func()) {
	ctx, cancel := context.WithCancel(context.Background())
	return collections.NewRequestMap[int, int](ctx, time.Duration(ttl), init...), cancel
}

// call asks for a key through one of the two variants.
func call(m *collections.RequestMap[int, int], withErr bool, k int, f func(int) (int, error)) (int, error) {
	if withErr {
		return m.GetOrCreateWithErr(k, f)
	}
	return m.GetOrCreate(k, func(k int) int {
		v, _ := f(k)
		return v
	}), nil
}

var errLoad = errors.New("load failed")

// Three concurrent calls for one key (arbitrary int) in either variant, every result and error; then a call for
// the cached result.
//
//vp:check R01,T01
func RequestShare() {
	m, cancel := newRequest(long)
	k, v := vp.Int("k"), vp.Int("v")
	withErr := vp.Choose("variant", 2) == 1
	var e error
	if withErr && vp.Choose("fail", 2) == 1 {
		e = errLoad
	}
	runs := 0
	f := func(x int) (int, error) {
		vp.Ghost(func() { runs++ })
		vp.Assert(x == k, "the function gets the key")
		return v, e
	}
	w := func() {
		r, err := call(m, withErr, k, f)
		vp.Assert(r == v && err == e, "every call returns the function's result")
	}
	lin.Par(w, w, w)
	vp.Assert(runs == 1, "the function runs once")
	r, err := call(m, withErr, k, func(int) (int, error) {
		vp.Assert(false, "the function does not run while the result is cached")
		return 0, nil
	})
	vp.Assert(r == v && err == e, "the cached result is returned")
	cancel()
}

// Two calls in different variants, arbitrary keys (equal or different).
//
//vp:check R01,T01
func RequestMixed() {
	m, cancel := newRequest(long)
	k, l := vp.Int("k"), vp.Int("l")
	v, w := vp.Int("v"), vp.Int("w")
	runs := 0
	lin.Par(func() {
		r := m.GetOrCreate(k, func(int) int {
			vp.Ghost(func() { runs++ })
			return v
		})
		vp.Assert(vp.Or(r == v, vp.And(k == l, r == w)), "the result is that of a load of this key")
	}, func() {
		r, err := m.GetOrCreateWithErr(l, func(int) (int, error) {
			vp.Ghost(func() { runs++ })
			return w, nil
		})
		vp.Assert(err == nil && vp.Or(r == w, vp.And(k == l, r == v)), "the result is that of a load of this key")
	})
	vp.Assert(runs == vp.Ite(k == l, 1, 2), "one load per key")
	cancel()
}

// A load that waits for the load of another key (two different arbitrary keys).
//
//vp:check R01
func RequestIndependent() {
	m, cancel := newRequest(long)
	k, l := vp.Int("k"), vp.Int("l")
	vp.Assume(k != l)
	c := make(chan int)
	v := vp.Int("v")
	lin.Par(func() {
		vp.Assert(m.GetOrCreate(k, func(int) int { return <-c }) == v, "the waiting load's result")
	}, func() {
		vp.Assert(m.GetOrCreate(l, func(int) int { c <- v; return 7 }) == 7, "the other load's result")
	})
	cancel()
}

// Initial entries with arbitrary keys and results.
//
//vp:check R01
func RequestInitial() {
	k, l, v, w := vp.Int("k"), vp.Int("l"), vp.Int("v"), vp.Int("w")
	vp.Assume(k != l)
	var e error
	if vp.Choose("error", 2) == 1 {
		e = errLoad
	}
	m, cancel := newRequest(1000000000, &collections.RequestMapInitializer[int, int]{Key: k, Result: v},
		&collections.RequestMapInitializer[int, int]{Key: l, Result: w, Err: e})
	no := func(int) (int, error) {
		vp.Assert(false, "initial entries are served without running the function")
		return 0, nil
	}
	sleep(vp.IntRange("t", 1, 999999999))
	for _, withErr := range []bool{false, true} {
		r, _ := call(m, withErr, k, no)
		vp.Assert(r == v, "an initial entry's result")
		r, err := call(m, withErr, l, no)
		vp.Assert(r == w && (!withErr || err == e), "an initial entry's result and error")
	}
	vp.Assert(m.Count() == 2, "only the initial entries")
	cancel()
}

const ms = 1000000

// Two calls for one key, the second at an arbitrary instant, loads of arbitrary duration, time-to-live up to a
// quarter of a second: the second call is served from the cache for the full time-to-live and loads again once a
// cleaning period after it has passed.
//
//vp:check R02
func RequestTtl() {
	ttl := vp.IntRange("ttl", 1, 250*ms)
	d := vp.IntRange("load", 1, 60*ms)
	t := vp.IntRange("t", 1, 400*ms)
	vp.Assume(t != d+ttl)
	m, cancel := newRequest(ttl)
	now := clock()
	v := m.GetOrCreate(0, func(int) int { sleep(d); return 1 })
	vp.Assert(v == 1 && now() == d, "first load")
	sleep(t)
	at := now()
	v = m.GetOrCreate(0, func(int) int { return 2 })
	vp.Assert(now() == at, "answered at once")
	vp.Assert(vp.Implies(at < d+ttl, v == 1), "a cached result stays available for the full time-to-live")
	vp.Assert(vp.Implies(at > d+ttl+100*ms, v == 2), "an expired result is dropped within the cleaning period")
	cancel()
}

// Three loads of one key: after the first has expired, the second result lives for its full time-to-live. The
// time-to-live is arbitrary up to 150 ms, the second and third call come at arbitrary instants.
//
//vp:check R02
func RequestReload() {
	ttl := vp.IntRange("ttl", 1, 150*ms)
	a := vp.IntRange("a", 1, 400*ms)
	b := vp.IntRange("b", 1, 200*ms)
	m, cancel := newRequest(ttl)
	vp.Assume(a > ttl+100*ms)
	vp.Assert(m.GetOrCreate(0, func(int) int { return 1 }) == 1, "first load")
	sleep(a)
	vp.Assert(m.GetOrCreate(0, func(int) int { return 2 }) == 2, "an expired result is loaded again")
	sleep(b)
	v := m.GetOrCreate(0, func(int) int { return 3 })
	vp.Assert(vp.Implies(b < ttl, v == 2), "each load starts a new full lifetime")
	vp.Assert(vp.Implies(b > ttl+100*ms, v == 3), "an expired result is dropped within the cleaning period")
	cancel()
}

// Two keys loaded at arbitrary instants expire independently and nothing is kept.
//
//vp:check R02
func RequestTwoKeys() {
	ttl := vp.IntRange("ttl", 1, 150*ms)
	a := vp.IntRange("a", 1, 150*ms)
	q := vp.IntRange("q", 1, 250*ms)
	vp.Assume(q != ttl)
	vp.Assume(a+q != ttl)
	m, cancel := newRequest(ttl)
	m.GetOrCreate(0, func(int) int { return 1 })
	sleep(a)
	m.GetOrCreate(1, func(int) int { return 1 })
	sleep(q)
	one, two := 0, 0
	m.GetOrCreate(0, func(int) int { one++; return 2 })
	m.GetOrCreate(1, func(int) int { two++; return 2 })
	vp.Assert(vp.Implies(a+q < ttl, one == 0), "the first key's full time-to-live")
	vp.Assert(vp.Implies(a+q > ttl+100*ms, one == 1), "the first key is dropped")
	vp.Assert(vp.Implies(q < ttl, two == 0), "the second key's full time-to-live")
	vp.Assert(vp.Implies(q > ttl+100*ms, two == 1), "the second key is dropped")
	sleep(ttl + 100*ms + 1)
	vp.Assert(m.Count() == 0, "nothing is kept for expired keys")
	cancel()
	ended()
}

// A wrapped function of arbitrary duration, result and error, arbitrary timeout and key.
//
//vp:check R03
func RequestTimeout() {
	m, cancel := newRequest(long)
	T, d := dur("timeout"), vp.IntRange("d", 0, 1000000)
	vp.Assume(T != d)
	k, v := vp.Int("k"), vp.Int("v")
	var e error
	if vp.Choose("fail", 2) == 1 {
		e = errLoad
	}
	runs := 0
	f := m.Timeout(time.Duration(T), func(x int) (int, error) {
		vp.Ghost(func() { runs++ })
		vp.Assert(x == k, "the wrapped function gets the key")
		sleep(d)
		return v, e
	})
	now := clock()
	r, err := f(k)
	vp.Assert(vp.Implies(d < T, vp.And(r == v, err == e, now() == d)), "in time: the function's result")
	vp.Assert(vp.Implies(d > T, vp.And(r == 0, now() == T)), "late: zero at the timeout")
	vp.Assert(vp.Implies(d > T, err == error(collections.ErrTimeout)), "late: the timeout error")
	cancel()
	ended()
	vp.Assert(runs == 1, "the function runs exactly once")
}

// Two concurrent calls of one wrapped function with different durations do not disturb each other.
//
//vp:check R03
func RequestTimeoutTwice() {
	m, cancel := newRequest(long)
	T, d0, d1 := dur("timeout"), dur("d0"), dur("d1")
	distinct(T, d0, d1)
	f := m.Timeout(time.Duration(T), func(k int) (int, error) {
		if k == 0 {
			sleep(d0)
		} else {
			sleep(d1)
		}
		return k + 10, nil
	})
	now := clock()
	c := func(k, d int) func() {
		return func() {
			r, err := f(k)
			vp.Assert(vp.Implies(d < T, vp.And(r == k+10, err == nil, now() == d)), "in time: the function's result")
			vp.Assert(vp.Implies(d > T, vp.And(r == 0, err == error(collections.ErrTimeout), now() == T)), "late: the timeout error")
		}
	}
	lin.Par(c(0, d0), c(1, d1))
	cancel()
	ended()
}
