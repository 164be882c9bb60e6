package req

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

var errFail = errors.New("failed")

type holder = collections.HolderMap[int, int]

func newHolder(T, ttl int) *holder {
	return collections.NewHolderMap[int, int]().WithTimeout(time.Duration(T)).WithTTL(time.Duration(ttl)).Build()
}

// started runs the first wait of transaction 0 and returns when it is waiting.
func started(m *holder, v int) (result func() error) {
	done := make(chan error, 1)
	go func() { done <- m.Wait(0, v) }()
	vp.Settle()
	return func() error { return <-done }
}

// One transaction with a first wait; a second wait, a release and a failure or second release, all concurrent;
// then a wait on the settled element.
//
//vp:check R09,T01
func HolderOutcome() {
	m := newHolder(long, long)
	now := clock()
	first := started(m, 1)
	two := vp.Choose("second release", 2) == 1
	var r, a, b error
	lin.Par(func() { r = m.Wait(0, 2) }, func() { a = m.Release(0) }, func() {
		if two {
			b = m.Release(0)
		} else {
			b = m.Error(0, errFail)
		}
	})
	f := first()
	vp.Assert(now() == 0, "nobody waits longer than for the outcome")
	vp.Assert(a == nil && b == nil, "the transaction is known")
	vp.Assert(f == r, "all waits return the same outcome")
	vp.Assert(f == nil || f == errFail && !two, "the outcome is one of those given")
	vp.Assert(m.Wait(0, 3) == f && now() == 0, "a wait on a settled transaction returns its outcome")
	o, err := m.Get(0)
	vp.Assert(o == 1 && err == f, "get returns the object and the outcome")
}

// A first wait and two further waits concurrent with the release of the transaction; the release is repeated
// until the transaction is known.
//
//vp:check R09,T01
func HolderRelease() {
	m := newHolder(long, long)
	now := clock()
	fail := vp.Choose("fail", 2) == 1
	settle := func() error {
		if fail {
			return m.Error(0, errFail)
		}
		return m.Release(0)
	}
	w := func() {
		err := m.Wait(0, 5)
		vp.Assert((err == errFail) == fail && (err == nil) == !fail, "every wait returns the outcome")
	}
	lin.Par(w, w, func() {
		if settle() != nil {
			sleep(1)
			vp.Assert(settle() == nil, "the transaction is known while somebody waits")
		}
	})
	vp.Assert(now() <= 1, "nobody waits longer than for the outcome")
}

// Any number of releases and failures in sequence after the first wait: none blocks and the first one counts.
//
//vp:check R09
func HolderRepeat() {
	m := newHolder(long, long)
	first := started(m, 1)
	now := clock()
	n := 0
	var want error
	for n == 0 || vp.More() {
		if vp.Choose("fail", 2) == 1 {
			vp.Assert(m.Error(0, errFail) == nil, "the transaction is known")
			if n == 0 {
				want = errFail
			}
		} else {
			vp.Assert(m.Release(0) == nil, "the transaction is known")
		}
		n = 1
		if vp.Choose("settle", 2) == 1 {
			vp.Settle()
		}
		vp.Assert(now() == 0, "settling does not block")
	}
	vp.Assert(first() == want, "the first outcome counts")
	vp.Assert(m.Wait(0, 2) == want, "the first outcome counts")
}

// Operations on a transaction nobody knows (arbitrary key), beside a known one.
//
//vp:check R09
func HolderUnknown() {
	m := newHolder(long, long)
	first := started(m, 1)
	k := vp.Int("k")
	vp.Assume(k != 0)
	vp.Assert(m.Release(k) != nil, "releasing an unknown transaction is an error")
	vp.Assert(m.Error(k, errFail) != nil, "failing an unknown transaction is an error")
	vp.Assert(m.Update(k, 3) != nil, "updating an unknown transaction is an error")
	_, err := m.Get(k)
	vp.Assert(err != nil, "an unknown transaction is not found")
	o, err := m.Get(0)
	vp.Assert(o == 1 && err == nil && m.Count() == 1, "nothing changed")
	vp.Assert(m.Release(0) == nil && first() == nil, "the known one can be released")
}

// A get and an update concurrent with each other and with the release; arbitrary objects.
//
//vp:check R09,T01
func HolderObject() {
	m := newHolder(long, long)
	v, w := vp.Int("v"), vp.Int("w")
	first := started(m, v)
	o, err := m.Get(0)
	vp.Assert(o == v && err == nil, "get returns the object of the first wait")
	fail := vp.Choose("fail", 2) == 1
	lin.Par(func() {
		o, err := m.Get(0)
		vp.Assert(o == v || o == w, "get returns an object that was given")
		vp.Assert(err == nil || fail && err == errFail, "get returns no error but the outcome's")
	}, func() {
		vp.Assert(m.Update(0, w) == nil, "the transaction is known")
	}, func() {
		if fail {
			m.Error(0, errFail)
		} else {
			m.Release(0)
		}
	})
	err = first()
	o, e := m.Get(0)
	vp.Assert(o == w && e == err, "get returns the updated object and the outcome")
}

// Two waits and one release or failure at arbitrary different instants, arbitrary timeout and time-to-live;
// afterwards the element disappears and the transaction can be used afresh.
//
//vp:check R09,R10
func HolderTimes() {
	T, ttl := dur("timeout"), dur("ttl")
	b, s := dur("b"), dur("s")
	vp.Assume(b < T)
	distinct(0, b, s, T)
	end := vp.Ite(s < T, s, T)
	vp.Assume(b != end+ttl)
	m := newHolder(T, ttl)
	fail := vp.Choose("fail", 2) == 1
	now := clock()
	check := func(err error) {
		vp.Assert(vp.Implies(s < T, (err == errFail) == fail && (err == nil) == !fail), "a wait returns the outcome given in time")
		vp.Assert(vp.Implies(T < s, err != nil && err != errFail), "without an outcome a wait returns a timeout error")
	}
	lin.Par(func() {
		check(m.Wait(0, 1))
		vp.Assert(now() == end, "a wait ends with the outcome or the timeout")
		if vp.Choose("late get", 2) == 1 {
			g := vp.IntRange("g", 1, 2000000)
			vp.Assume(g != ttl)
			sleep(g)
			o, err := m.Get(0)
			vp.Assert(vp.Implies(vp.And(g < ttl, b < end+ttl), o == 1), "a settled element stays readable")
			if g < ttl && b < end+ttl {
				check(err)
			}
			if b < end {
				vp.Assert(vp.Implies(g > ttl, err != nil && o == 0 && m.Count() == 0), "a settled element is removed after its time-to-live")
			}
		}
	}, func() {
		sleep(b)
		if b < end+ttl {
			check(m.Wait(0, 2))
			vp.Assert(now() == vp.Ite(b < end, end, b), "a wait ends with the outcome or the timeout")
		}
	}, func() {
		sleep(s)
		var err error
		if fail {
			err = m.Error(0, errFail)
		} else {
			err = m.Release(0)
		}
		vp.Assert(vp.Implies(s < T, err == nil), "the transaction is known")
		vp.Assert(now() == s, "settling does not block")
	})
	sleep(long)
	vp.Settle()
	vp.Assert(m.Count() == 0, "settled elements are removed")
	t := now()
	err := m.Wait(0, 3)
	vp.Assert(err != nil && err != errFail && now() == t+T, "the transaction can be used afresh")
	o, _ := m.Get(0)
	vp.Assert(o == 3, "a fresh transaction holds its own object")
	sleep(long)
	vp.Settle()
	vp.Assert(m.Count() == 0, "settled elements are removed")
	ended()
}

// Two waits on one transaction and one on another, cancellation at an arbitrary instant; one transaction may be
// released before or after.
//
//vp:check R10
func HolderCancel() {
	c, s := dur("cancel"), dur("s")
	distinct(c, s)
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewHolderMap[int, int]().WithTimeout(long).WithTTL(long).WithContext(ctx).Build()
	now := clock()
	w := func() {
		err := m.Wait(0, 1)
		vp.Assert(vp.Implies(s < c, err == nil && now() == s), "a wait returns the outcome given in time")
		vp.Assert(vp.Implies(c < s, err != nil && now() == c), "cancellation ends a wait with an error")
	}
	lin.Par(w, w, func() {
		vp.Assert(m.Wait(1, 1) != nil && now() == c, "cancellation ends every wait with an error")
	}, func() {
		sleep(s)
		m.Release(0)
		vp.Assert(now() == s, "settling does not block")
	}, func() {
		sleep(c)
		cancel()
	})
	t := now()
	vp.Assert(m.Wait(2, 1) != nil && now() == t, "after cancellation a wait does not block")
	sleep(long)
	ended()
}

// Cancellation racing with two waits and a release.
//
//vp:check R10,T01
func HolderCancelRace() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewHolderMap[int, int]().WithTimeout(long).WithTTL(long).WithContext(ctx).Build()
	now := clock()
	lin.Par(func() { m.Wait(0, 1) }, func() { m.Wait(0, 2) }, func() { m.Release(0) }, cancel)
	vp.Assert(now() == 0, "nobody waits longer")
}
