package coll

import (
	"context"
	"time"

	"vpharness/lin"
	"vpharness/vp"
)

// Histories of any length with the clock: operations take place at the multiples of a period of 4 units, timeouts are
// 5 or 9 units, so that nothing ends at an instant at which something is done.

// Any number of operations (get with a loader, set, has, has-or-create, delete, update, clear) and periods on one key
// with a write or a read timeout.
//
//vp:check G04,G03,G01 adv=9000 level=4000
func GuavaLife() {
	guavaLife(5+4*vp.Choose("ttl", 2), vp.Choose("read", 2) == 1, 0, 1, gGet, gSet, gHas, gHasOrCreate, gDelete, gUpdate, gClear)
}

// Get, set, update, delete and periods on two keys with maximum count 1.
//
//vp:check G04,G03,G02 adv=9000 level=4000
func GuavaLifeEvict() {
	guavaLife(5+4*vp.Choose("ttl", 2), vp.Choose("read", 2) == 1, 1, 2, gGet, gSet, gUpdate, gDelete)
}

// Get, set, clear and periods on two keys without a limit.
//
//vp:check G04,G03,G01 adv=9000 level=4000
func GuavaLifeTwoKeys() {
	guavaLife(9, vp.Choose("read", 2) == 1, 0, 2, gGet, gSet, gHas, gDelete, gClear)
}

// Set, get, has-or-create, delete and periods on three keys with maximum count 2.
//
//vp:check G04,G03,G02 adv=9000 level=4000
func GuavaLifeEvict3() {
	guavaLife(5+4*vp.Choose("ttl", 2), vp.Choose("read", 2) == 1, 2, 3, gGet, gSet, gHasOrCreate, gDelete)
}

// Four keys and maximum count 3.
//
//vp:check G04,G03,G02 thorough adv=9000 level=100000
func GuavaLifeEvict4() {
	guavaLife(5, vp.Choose("read", 2) == 1, 3, 4, gGet, gSet, gDelete)
}

func guavaLife(ttl int, read bool, max, nkeys int, kinds ...int) {
	g := gConf{max: max, loader: goodLoader, write: time.Duration(ttl)}
	if read {
		g.write, g.read = 0, g.write
	}
	v := 0
	g.load = func(int) (int, error) { return v, nil }
	c := newCache(g)
	s := gState{max: max}
	var left [4]int
	for vp.More() {
		if vp.Choose("pass", 2) == 1 {
			for range 4 {
				for k := range nkeys {
					if left[k] > 0 {
						if left[k]--; left[k] == 0 {
							s = s.remove(s.find(k))
						}
					}
				}
			}
			time.Sleep(4)
		} else {
			h := &lin.Hist{}
			o := gOp(h, nkeys, g.loader, kinds...)
			v = o.V
			c.do(h, o)
			k, was := o.K, s.find(o.K) >= 0
			var ok bool
			s, ok = gStep(s, o)
			vp.Assert(ok, "an entry is there until its timeout passes and gone afterwards")
			switch o.Kind {
			case gSet, gUpdate:
				left[k] = ttl
			case gHasOrCreate, gGet:
				if !was || read {
					left[k] = ttl
				}
			case gHas:
				if was && read {
					left[k] = ttl
				}
			}
		}
		for k := range nkeys {
			if s.find(k) < 0 {
				left[k] = 0
			}
		}
		vp.Settle()
		vp.Assert(c.m.Size() == s.n, "the size is that of the reference cache")
		for k := range nkeys {
			vp.Assert(vp.And(c.unl[k] == s.unl[k], c.unlV[k] == s.unlV[k]), "unload is called once for each entry that left, with its value")
		}
		c.unl, s.unl = [4]int{}, [4]int{}
		c.unlV, s.unlV = [4]int{}, [4]int{}
		v = 0
	}
	w := c.m.GetStored()
	for k := range nkeys {
		i := s.find(k)
		x, ok := w[k]
		vp.Assert(ok == (i >= 0), "the entries are those of the reference cache")
		if i >= 0 {
			vp.Assert(x == s.v[i], "the values are those of the reference cache")
		}
	}
}

// Any number of adds, removes, lookups and counts of two values, one each period of 4 units, or a period without any;
// time-to-live 5 or 9, check interval 3 or 10; equality by content or by an identity function.
//
//vp:check S05,S04 adv=9000 level=4000
func UniqLife() {
	uniqLife(5+4*vp.Choose("ttl", 2), 3+7*vp.Choose("interval", 2), 2, vp.Choose("by function", 2) == 1)
}

// The same for three values.
//
//vp:check S05,S04 adv=9000 level=4000
func UniqLife3() { uniqLife(5, 3, 3, true) }

// A long time-to-live.
//
//vp:check S05,S04 thorough adv=9000 level=100000
func UniqLifeLong() { uniqLife(17, 10, 2, true) }

func uniqLife(ttl, interval, nk int, byFunc bool) {
	ctx, cancel := context.WithCancel(context.Background())
	s := newWho(ctx, byFunc, ttl, interval)
	var has [3]bool
	var age [3]int
	look := func(k int, got bool) {
		if !has[k] {
			vp.Assert(!got, "a value that is not there is not found")
			return
		}
		vp.Assert(got || age[k] >= ttl, "a value is present for its full time-to-live")
		vp.Assert(!got || age[k] <= ttl+interval, "a value is gone one check interval after its time-to-live")
		has[k] = got
	}
	for vp.More() {
		k, op := 0, vp.Choose("op", 5)
		if op < 3 {
			k = vp.Choose("key", nk)
		}
		v := who{A: k}
		if byFunc {
			v.B = vp.Choose("other", 2)
		}
		switch op {
		case 0:
			ok, err := s.Add(v)
			vp.Assert(err == nil, "no error")
			look(k, !ok)
			if ok {
				has[k], age[k] = true, 0
			}
		case 1:
			ok, err := s.Remove(v)
			vp.Assert(err == nil, "no error")
			look(k, ok)
			has[k] = false
		case 2:
			ok, err := s.Has(v)
			vp.Assert(err == nil, "no error")
			look(k, ok)
		case 3:
			n, lo, hi := s.Count(), 0, 0
			for k := range nk {
				if has[k] {
					hi++
					if age[k] < ttl {
						lo++
					}
				}
			}
			vp.Assert(lo <= n && n <= hi, "count is the number of values present")
		}
		time.Sleep(4)
		for k := range nk {
			if has[k] {
				age[k] += 4
			}
			if !has[k] || age[k] > ttl+interval {
				age[k] = ttl + interval + 1 // gone; looked for below
			}
		}
		vp.Settle()
		for k := range nk {
			if has[k] && age[k] > ttl+interval {
				ok, _ := s.Has(who{A: k})
				look(k, ok)
			}
			if !has[k] {
				age[k] = 0
			}
		}
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the background goroutine ends with the context")
}
