package req

import (
	"context"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// Any two public operations at the same time, on one key in any of its states, also at the very instant at which a
// timeout passes or the background cleaning runs: no data race, no crash, nobody is blocked for ever.

func pair(n int, op func(int)) {
	a, b := vp.Choose("first", n), vp.Choose("second", n)
	if a > b {
		return // the same pair
	}
	lin.Par(func() { op(a) }, func() { op(b) })
}

// Operations: wait, get, count, update, release, error; transaction unknown, waited for or settled; at the timeout, at
// the removal, or neither.
//
//vp:check T01
func HolderPairs() {
	m := newHolder(100, 100)
	if vp.Choose("known", 2) == 1 {
		go m.Wait(0, 1)
		vp.Settle()
		if vp.Choose("settled", 2) == 1 {
			m.Release(0)
		}
		sleep(100 * vp.Choose("due", 2))
	}
	pair(6, func(op int) {
		switch op {
		case 0:
			m.Wait(0, 2)
		case 1:
			m.Get(0)
		case 2:
			n := m.Count()
			vp.Assert(n == 0 || n == 1, "the count is that of some instant")
		case 3:
			m.Update(0, 3)
		case 4:
			m.Release(0)
		case 5:
			m.Error(0, errFail)
		}
	})
}

// Operations: get-or-create in both variants, count, a call with a timeout; the key absent, cached or due to be dropped.
//
//vp:check T01
func RequestPairs() {
	m, cancel := newRequest(100 * ms)
	if vp.Choose("known", 2) == 1 {
		m.GetOrCreate(0, func(int) int { return 1 })
		vp.Settle()
		sleep(100 * ms * vp.Choose("due", 2))
	}
	pair(4, func(op int) {
		switch op {
		case 0:
			m.GetOrCreate(0, func(int) int { return 2 })
		case 1:
			m.GetOrCreateWithErr(0, func(int) (int, error) { return 3, errLoad })
		case 2:
			n := m.Count()
			vp.Assert(n == 0 || n == 1, "the count is that of some instant")
		case 3:
			m.Timeout(time.Millisecond, func(int) (int, error) { vp.Yield(); return 4, nil })(0)
		}
	})
	cancel()
}

// Operations: wait, set, count; the key absent, waited for or held; at the timeout or the end of the time-to-live, or
// neither.
//
//vp:check T01
func WaitPairs() {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(100).WithResponseTtl(100).WithContext(ctx).Build()
	switch vp.Choose("state", 3) {
	case 1:
		m.Set(0, 1)
	case 2:
		go m.Wait(0)
	}
	vp.Settle()
	sleep(100 * vp.Choose("due", 2))
	pair(3, func(op int) {
		switch op {
		case 0:
			m.Wait(0)
		case 1:
			m.Set(0, 2)
		case 2:
			m.Count()
		}
	})
	cancel()
}

// Operations: wait, set; the key absent, waited for or set; at the timeout, at a cleaning, or neither.
//
//vp:check T01
func ResponsePairs() {
	T, C := 100, 1000
	if vp.Choose("clear", 2) == 1 {
		T, C = 1000, 50
	}
	m, cancel := newResponse(T, C)
	switch vp.Choose("state", 3) {
	case 1:
		m.Set(0, 1)
	case 2:
		go m.Wait(0)
	}
	vp.Settle()
	sleep(100 * vp.Choose("due", 2))
	pair(2, func(op int) {
		switch op {
		case 0:
			m.Wait(0)
		case 1:
			m.Set(0, 2)
		}
	})
	sleep(2000)
	cancel()
}
