package req

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/vp"
)

// Histories of any length. Operations take place at the multiples of a period of 4 units; timeouts and times-to-live
// are chosen so that nothing ends at those instants, so that the reference needs no case for coincidences (they are
// covered elsewhere). The reference counts units down; at each of them everything due happens.

const period = 4

// slot is an outstanding call: what it returned, when, and what the reference says.
type slot struct {
	used, done, released bool
	noErr                bool // a call without an error result
	got, want            int
	err, wantErr         error
	took, age            int // how long it took, and its age (when released)
}

type slots [2]slot

func (s *slots) free(max int) int {
	for i := range max {
		if !s[i].used {
			return i
		}
	}
	return -1
}

// call starts f in slot i.
func (s *slots) call(i int, f func() (int, error)) {
	s[i] = slot{used: true}
	t := time.Now()
	go func() {
		v, err := f()
		s[i].got, s[i].err, s[i].took, s[i].done = v, err, int(time.Since(t)), true
	}()
}

// tick: a unit passes.
func (s *slots) tick() {
	for i := range s {
		if s[i].used && !s[i].released {
			s[i].age++
		}
	}
}

// release: the reference ends every outstanding call.
func (s *slots) release(v int, err error) {
	for i := range s {
		if s[i].used && !s[i].released {
			s[i].released, s[i].want, s[i].wantErr = true, v, err
			if s[i].noErr {
				s[i].wantErr = nil
			}
		}
	}
}

// compare at rest.
func (s *slots) compare(sameErr func(a, b error) bool) { s.compareScaled(1, sameErr) }

func (s *slots) compareScaled(unit int, sameErr func(a, b error) bool) {
	vp.Settle()
	for i := range s {
		if !s[i].used {
			continue
		}
		vp.Assert(s[i].done == s[i].released, "a wait returns when it has to, and no earlier")
		if s[i].done {
			vp.Assert(s[i].took == s[i].age*unit, "a wait returns at the instant it has to")
			vp.Assert(s[i].got == s[i].want, "a wait returns the value it has to")
			vp.Assert(sameErr(s[i].err, s[i].wantErr), "a wait returns the outcome it has to")
			s[i] = slot{}
		}
	}
}

func sameError(a, b error) bool { return a == b }

// pick chooses one of n keys.
func pick(n int) int {
	if n == 1 {
		return 0
	}
	return vp.Choose("key", n)
}

// Any number of waits (at most two outstanding), sets and periods on one key of a wait map, arbitrary values,
// request timeout 5 or 9 units, time-to-live 5 or 9; then the context may be cancelled.
//
//vp:check R04,R05,R06 adv=9000 level=4000
func WaitLife() { waitLife(5+4*vp.Choose("timeout", 2), 5+4*vp.Choose("ttl", 2), 1) }

// The same for two keys with one outstanding call each.
//
//vp:check R04,R05,R06 adv=9000 level=4000 t.level=100000
func WaitLifeTwoKeys() { waitLife(5, 9, 2) }

//vp:check R04,R05,R06 adv=9000 level=4000 t.level=100000
func WaitLifeTwoKeysLong() { waitLife(9, 5, 2) }

func waitLife(T, ttl, keys int) {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewWaitMap[int, int]().WithRequestTimeout(time.Duration(T)).WithResponseTtl(time.Duration(ttl)).WithContext(ctx).Build()
	var e [2]struct {
		held      bool
		val, h, d int // held for h more units; waiters wait for d more units
		calls     slots
	}
	for vp.More() {
		switch op := vp.Choose("op", 4); op {
		case 0:
			k := pick(keys)
			x := &e[k]
			i := x.calls.free(3 - keys)
			if i < 0 {
				continue
			}
			x.calls.call(i, func() (int, error) { return m.Wait(k), nil })
			if x.held {
				x.calls.release(x.val, nil)
			} else if x.d == 0 {
				x.d = T
			}
		case 1:
			k := pick(keys)
			x := &e[k]
			v := vp.Int("v")
			m.Set(k, v)
			if !x.held {
				x.held, x.val, x.h, x.d = true, v, ttl, 0
				x.calls.release(v, nil)
			}
		case 2:
			for range period {
				for k := range keys {
					x := &e[k]
					x.calls.tick()
					if x.h > 0 {
						if x.h--; x.h == 0 {
							x.held, x.val = false, 0
						}
					}
					if x.d > 0 {
						if x.d--; x.d == 0 {
							x.held, x.val, x.h = true, 0, ttl
							x.calls.release(0, nil)
						}
					}
				}
			}
			sleep(period)
		case 3:
			cancel()
			for k := range keys {
				e[k].calls.release(0, nil)
				e[k].calls.compare(sameError)
			}
			sleep(T + ttl)
			vp.Settle()
			vp.Assert(m.Count() == 0, "nothing is kept after a cancellation")
			ended()
			return
		}
		idle := true
		for k := range keys {
			x := &e[k]
			x.calls.compare(sameError)
			idle = idle && !x.held && x.d == 0
		}
		vp.Assert((m.Count() == 0) == idle, "nothing is kept when nothing is held or waited for")
	}
	cancel()
}

// Any number of waits (at most two outstanding), sets and periods on one key of a response map, arbitrary values. The
// map cleans every 8 units; the response timeout is 2, 6 or 18 units (the key is cleared before that).
//
//vp:check R07,R08 adv=9000 level=4000
func ResponseLife() { responseLife([]int{2, 6, 18}[vp.Choose("timeout", 3)], 1) }

// The same for two keys with one outstanding call each.
//
//vp:check R07,R08 adv=9000 level=4000 t.level=100000
func ResponseLifeTwoKeys() { responseLife(6, 2) }

//vp:check R07,R08 adv=9000 level=4000 t.level=100000
func ResponseLifeTwoKeysLong() { responseLife(18, 2) }

func responseLife(T, keys int) {
	const clear = 8
	m, cancel := newResponse(T, clear)
	sleep(1) // cleanings are at the multiples of 8
	next := clear - 1
	type entry struct {
		known, set bool
		val, age   int
		calls      slots
	}
	var e [2]entry
	for vp.More() {
		switch op := vp.Choose("op", 4); op {
		case 0:
			k := pick(keys)
			x := &e[k]
			i := x.calls.free(3 - keys)
			if i < 0 {
				continue
			}
			x.known = true
			x.calls.call(i, func() (int, error) { return m.Wait(k), nil })
			if x.set || x.age >= T {
				x.calls.release(x.val, nil)
			}
		case 1:
			k := pick(keys)
			x := &e[k]
			x.known = true
			v := vp.Int("v")
			m.Set(k, v)
			if !x.set {
				x.set, x.val = true, v
				x.calls.release(v, nil)
			}
		case 2:
			for range period {
				next--
				for k := range keys {
					x := &e[k]
					x.calls.tick()
					if x.known {
						if x.age++; x.age == T && !x.set {
							x.calls.release(0, nil)
						}
						if next == 0 && x.age > clear {
							x.calls.release(0, nil)
							*x = entry{calls: x.calls}
						}
					}
				}
				if next == 0 {
					next = clear
				}
			}
			sleep(period)
		case 3: // the cleaning stops, nothing else
			cancel()
			for k := range keys {
				e[k].calls.compare(sameError)
			}
			sleep(T)
			for k := range keys {
				x := &e[k]
				vp.Assert(m.Wait(k) == x.val, "the value set stays")
			}
			ended()
			return
		}
		for k := range keys {
			e[k].calls.compare(sameError)
		}
	}
	cancel()
}

// Any number of waits (at most two outstanding), releases, failures, updates, gets and periods on one transaction of
// a holder map, timeout 5 or 9 units, time-to-live 5 or 9, arbitrary objects; then the context may be cancelled.
//
//vp:check R09,R10 adv=9000 level=4000
func HolderLife() { holderLife(5+4*vp.Choose("timeout", 2), 5+4*vp.Choose("ttl", 2), 1) }

// The same for two transactions with one outstanding wait each, without failures and cancellation.
//
//vp:check R09,R10 adv=9000 level=4000 t.level=100000
func HolderLifeTwo() { holderLife(5, 5, 2) }

//vp:check R09,R10 thorough adv=9000 level=100000
func HolderLifeTwoLong() { holderLife(9, 5, 2) }

func holderLife(T, ttl, keys int) {
	ctx, cancel := context.WithCancel(context.Background())
	m := collections.NewHolderMap[int, int]().WithTimeout(time.Duration(T)).WithTTL(time.Duration(ttl)).WithContext(ctx).Build()
	timeout := errors.New("any")
	same := func(got, want error) bool {
		if want == timeout {
			return got != nil && got != errFail
		}
		return got == want
	}
	type entry struct {
		known, settled bool
		object, left   int // left: units to the timeout or to the removal
		outcome        error
		calls          slots
	}
	var e [2]entry
	settle := func(x *entry, err error) {
		if x.known && !x.settled {
			x.settled, x.outcome, x.left = true, err, ttl
			x.calls.release(0, err)
		}
	}
	pass := func(n int) {
		for range n {
			for k := range keys {
				x := &e[k]
				x.calls.tick()
				if !x.known {
					continue
				}
				if x.left--; x.left == 0 {
					if x.settled {
						*x = entry{calls: x.calls}
					} else {
						settle(x, timeout)
					}
				}
			}
		}
		sleep(n)
	}
	check := func() {
		n := 0
		for k := range keys {
			x := &e[k]
			x.calls.compare(same)
			o, err := m.Get(k)
			if x.known {
				n++
				vp.Assert(o == x.object && same(err, x.outcome), "get returns the object given last with the outcome")
			} else {
				vp.Assert(err != nil, "nothing is held")
			}
		}
		vp.Assert(m.Count() == n, "the count is the number of transactions held")
	}
	for vp.More() {
		op := vp.Choose("op", 6)
		if keys > 1 && (op == 2 || op == 5) {
			continue
		}
		k := 0
		if op < 4 {
			k = pick(keys)
		}
		x := &e[k]
		switch op {
		case 0:
			i := x.calls.free(3 - keys)
			if i < 0 {
				continue
			}
			v := vp.Int("v")
			x.calls.call(i, func() (int, error) { return 0, m.Wait(k, v) })
			if !x.known {
				x.known, x.object, x.left = true, v, T
			} else if x.settled {
				x.calls.release(0, x.outcome)
			}
		case 1:
			vp.Assert((m.Release(k) == nil) == x.known, "an unknown transaction is an error")
			settle(x, nil)
		case 2:
			vp.Assert((m.Error(k, errFail) == nil) == x.known, "an unknown transaction is an error")
			settle(x, errFail)
		case 3:
			v := vp.Int("v")
			vp.Assert((m.Update(k, v) == nil) == x.known, "an unknown transaction is an error")
			if x.known {
				x.object = v
			}
		case 4:
			pass(period)
		case 5:
			cancel()
			for k := range keys {
				settle(&e[k], ctx.Err())
			}
			check()
			pass(ttl)
			check()
			vp.Assert(m.Count() == 0, "settled transactions are removed after a cancellation")
			ended()
			return
		}
		check()
	}
	cancel()
}

// Any number of calls (at most two outstanding) for a key of a request map, in either variant, with loads that take
// no time or 35 ms and give arbitrary values, and periods of 30 ms; time-to-live 40 or 130 ms.
//
//vp:check R01,R02 adv=9000 level=4000
func RequestLife() { requestLife([]int{8, 26}[vp.Choose("ttl", 2)], 1, true) }

// The same for two keys with one outstanding call each; time-to-live 10 ms; variants and slow loads only in the
// thorough tier.
//
//vp:check R01,R02 adv=9000 level=4000
func RequestLifeTwoKeys() { requestLife(2, 2, false) }

//vp:check R01,R02 thorough adv=9000 level=100000
func RequestLifeTwoKeysFull() { requestLife(2, 2, true) }

func requestLife(ttl, keys int, full bool) {
	const unit = 5 * ms
	m, cancel := newRequest(ttl * unit)
	type entry struct {
		loading, cached bool
		left, age, val  int // units until the load has finished, since it finished
		err             error
		calls           slots
	}
	var e [2]entry
	loads := 0
	for vp.More() {
		switch op := vp.Choose("op", 2); op {
		case 0:
			k := pick(keys)
			x := &e[k]
			i := x.calls.free(3 - keys)
			if i < 0 {
				continue
			}
			withErr, d, v := true, 0, vp.Int("v")
			if full {
				withErr, d = vp.Choose("variant", 2) == 1, 7*vp.Choose("slow", 2)
			}
			var fail error
			if withErr && vp.Choose("fails", 2) == 1 {
				fail = errLoad
			}
			loads = 0
			x.calls.call(i, func() (int, error) {
				return call(m, withErr, k, func(key int) (int, error) {
					loads++
					vp.Assert(key == k, "the function is called with the key")
					if d > 0 {
						sleep(d * unit)
					}
					return v, fail
				})
			})
			x.calls[i].noErr = !withErr
			vp.Settle()
			ran := loads
			switch {
			case x.loading:
				vp.Assert(ran == 0, "calls share a load that is running")
			case x.cached && x.age < ttl:
				vp.Assert(ran == 0, "a cached result stays available for the full time-to-live")
			case !x.cached:
				vp.Assert(ran == 1, "without a cached result the function runs")
			default: // expired, may not be dropped yet
				vp.Assert(ran <= 1, "the function runs once")
			}
			if ran == 1 {
				x.loading, x.cached, x.left, x.val, x.err = true, false, d, v, fail
			}
			if x.loading && x.left == 0 {
				x.loading, x.cached, x.age = false, true, 0
			}
			if x.cached {
				x.calls.release(x.val, x.err)
			}
		case 1:
			for range 6 {
				for k := range keys {
					x := &e[k]
					x.calls.tick()
					switch {
					case x.loading:
						if x.left--; x.left == 0 {
							x.loading, x.cached, x.age = false, true, 0
							x.calls.release(x.val, x.err)
						}
					case x.cached:
						if x.age++; x.age > ttl+20 {
							x.cached, x.age, x.val, x.err = false, 0, 0, nil
						}
					}
				}
			}
			sleep(6 * unit)
		}
		gone := true
		for k := range keys {
			x := &e[k]
			x.calls.compareScaled(unit, sameError)
			gone = gone && !x.loading && !x.cached
		}
		vp.Assert(!gone || m.Count() == 0, "nothing is kept for expired keys")
	}
	cancel()
}
