package coll

import (
	"sync"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

// Collections of many elements: the operations run in sequence on fixed keys; the values and the key that is looked
// at in the end are arbitrary.

const lots = 150

// probe is an arbitrary key, and the index of the fixed key 0..n-1 it equals (or -1).
func probe(n int) (k, i int) {
	k = vp.Int("probe")
	for i := range n {
		if k == i {
			return k, i
		}
	}
	return k, -1
}

// values are n arbitrary values.
func values(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = vp.Int("v")
	}
	return v
}

// 150 keys in a cache without limit or with a limit of 20 or 100, a third of them deleted, then any key is looked up;
// then everything is cleared.
//
//vp:check G01,G02,G03 instr=20000000 level=40000 delay=0 t.delay=1 threads=400
func GuavaMany() {
	limit := []int{0, 20, 100}[vp.Choose("limit", 3)]
	unl := make([]int, lots)
	v := values(lots)
	good := true
	b := collections.NewGuavaMap[int, int]().WithUnloadFunc(func(k, x int) {
		vp.Ghost(func() {
			unl[k]++
			good = vp.And(good, x == v[k])
		})
	})
	if limit > 0 {
		b.WithMaxCount(limit)
	}
	m := b.Build()
	in := make([]bool, lots)
	var order []int
	for i := range lots {
		m.Set(i, v[i])
		in[i] = true
		order = append(order, i)
		if limit > 0 && len(order) > limit {
			in[order[0]] = false
			order = order[1:]
		}
		if i%3 == 2 {
			k := order[len(order)/2]
			m.Delete(k)
			in[k] = false
			order = append(order[:len(order)/2:len(order)/2], order[len(order)/2+1:]...)
		}
		vp.Settle()
	}
	vp.Assert(m.Size() == len(order), "the size is the number of entries")
	for i := range lots {
		vp.Assert(unl[i] == vp.Ite(in[i], 0, 1), "every removed entry is unloaded once")
	}
	st := m.GetStored()
	vp.Assert(len(st) == len(order), "the snapshot has every entry")
	k, i := probe(lots)
	has := i >= 0 && in[i]
	vp.Assert(m.Has(k) == has, "the cache holds exactly the newest entries")
	x, ok := st[k]
	vp.Assert(ok == has, "the snapshot has every entry")
	y, err := m.Get(k)
	vp.Assert(err == nil, "no error")
	if has {
		vp.Assert(x == v[i] && y == v[i], "the value is the one stored")
	}
	m.Clear()
	vp.Settle()
	vp.Assert(m.Size() == 0, "clear empties the cache")
	for i := range lots {
		vp.Assert(unl[i] == 1, "every removed entry is unloaded once")
	}
	vp.Assert(good, "the unload function gets the stored value")
}

// 32 keys with a write timeout, stored at two instants; half of the first are deleted or stored again in between.
//
//vp:check G04,G03 instr=20000000 adv=400 level=4000 delay=1 threads=400
func GuavaManyTimes() {
	const n = 32
	ctx, cancel := vpContext()
	unl := make([]int, n)
	m := collections.NewGuavaMap[int, int]().WithContext(ctx).WithWriteTimeout(1000).WithUnloadFunc(func(k, x int) {
		vp.Ghost(func() { unl[k]++ })
	}).Build()
	for i := range n / 2 {
		m.Set(i, i)
	}
	vp.Settle()
	time.Sleep(300)
	for i := n / 2; i < n; i++ {
		m.Set(i, i)
	}
	for i := range 10 {
		m.Delete(i)
	}
	vp.Settle()
	time.Sleep(699)
	vp.Assert(m.Size() == n-10, "an entry stays until its timeout")
	time.Sleep(2)
	vp.Settle()
	vp.Assert(m.Size() == n/2, "an entry leaves at its timeout")
	k, i := probe(n)
	vp.Assert(m.Has(k) == (i >= n/2), "an entry leaves at its timeout")
	time.Sleep(300)
	vp.Settle()
	vp.Assert(m.Size() == 0, "an entry leaves at its timeout")
	for i := range n {
		vp.Assert(unl[i] == 1, "every removed entry is unloaded once")
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// 150 keys in an unbounded set or one with a limit of 20 or 100, a third of them deleted, then any key is looked up.
//
//vp:check S02,S03 instr=20000000 level=40000
func HashSetMany() {
	limit := []int{0, 20, 100}[vp.Choose("limit", 3)]
	b := collections.NewHashSet[int]()
	if limit > 0 {
		b.WithMaxCount(limit)
	}
	s := b.Build()
	in := make([]bool, lots)
	var order []int
	for i := range lots {
		if i%2 == 0 {
			s.Add(i)
		} else {
			vp.Assert(!s.HasOrCreate(i), "a new key is created")
		}
		vp.Assert(s.HasOrCreate(i), "the key is there")
		in[i] = true
		order = append(order, i)
		if limit > 0 && len(order) > limit {
			in[order[0]] = false
			order = order[1:]
		}
		if i%3 == 2 {
			k := order[len(order)/2]
			s.Delete(k)
			in[k] = false
			order = append(order[:len(order)/2:len(order)/2], order[len(order)/2+1:]...)
		}
	}
	vp.Assert(s.Count() == len(order), "the count is the number of keys")
	keys := s.Keys()
	vp.Assert(len(keys) == len(order), "every key is listed")
	seen := make([]bool, lots)
	for _, k := range keys {
		vp.Assert(k >= 0 && k < lots && in[k] && !seen[k], "every key is listed once")
		seen[k] = true
	}
	k, i := probe(lots)
	vp.Assert(s.Has(k) == (i >= 0 && in[i]), "the set holds exactly the newest keys")
	s.Clear()
	vp.Assert(s.Count() == 0 && !s.Has(k), "clear empties the set")
}

// A set of 150 values, half of them removed, then any value is looked up.
//
//vp:check S01 instr=20000000
func SetMany() {
	s := collections.NewSet[int]()
	var all, even []int
	for i := range lots {
		all = append(all, i)
		if i%2 == 0 {
			even = append(even, i)
		}
	}
	s.AddAll(all...)
	full := s.Clone()
	vp.Assert(full.Equals(s) && s.Size() == lots && full.HasAll(all...), "every value is there")
	for i := range lots {
		if i%2 == 1 {
			s.Remove(i)
		}
	}
	vp.Assert(!full.Equals(s) && !s.Equals(full), "sets of different values differ")
	vp.Assert(s.Size() == len(even) && full.Size() == lots, "a clone is independent")
	vp.Assert(s.Equals(collections.NewSet(even...)), "sets of the same values are equal")
	vp.Assert(s.HasAll(even...) && !s.HasAll(all...) && s.HasAny(all...), "has-all and has-any")
	seen := make([]bool, lots)
	for _, k := range s.Values() {
		vp.Assert(k >= 0 && k < lots && k%2 == 0 && !seen[k], "every value is listed once")
		seen[k] = true
	}
	vp.Assert(len(s.Values()) == len(even) && len(s.All()) == len(even), "every value is listed")
	k, i := probe(lots)
	vp.Assert(s.Has(k) == (i >= 0 && i%2 == 0) && full.Has(k) == (i >= 0), "the set holds exactly the values added and not removed")
	// two sets of the same size that differ in one value
	o := collections.NewSet(even...)
	o.Remove(even[len(even)/3])
	o.Add(-1)
	vp.Assert(!s.Equals(o) && !o.Equals(s), "sets of different values differ")
	vp.Assert(!s.HasAny(1, 3, 5, 7) && !o.HasAll(even...), "has-all and has-any")
}

// A simple map, or a sharded map of 6 (the default), 1, 32 or 100 shards, with 150 keys of arbitrary value, a third of
// them deleted, then any key is looked up.
//
//vp:check M01,M02 instr=20000000 level=40000
func MapMany() {
	var m collections.Map[int, int]
	shards := []int{0, 6, 1, 32, 100}[vp.Choose("shards", 5)]
	switch shards {
	case 0:
		m = collections.NewSimpleMap[int, int]()
	case 6:
		m = collections.NewShardMap[int, int]().WithShardsFunc(func(k int) int { return k % 6 }).Build()
	default:
		m = collections.NewShardMap[int, int]().WithShardsCount(shards).WithShardsFunc(func(k int) int { return (k*7 + 3) % shards }).Build()
	}
	v := values(lots)
	n := 0
	for i := range lots {
		switch i % 4 {
		case 0:
			vp.Assert(m.SetIfNotExists(i, v[i]), "the key is new")
		case 1:
			x, ok := m.SetIfNotExistsWithFunc(i, func() int { return v[i] })
			vp.Assert(ok && x == v[i], "the key is new")
		default:
			m.Set(i, v[i])
		}
		n++
		if i%3 == 2 {
			m.Delete(i - 1)
			n--
		}
	}
	vp.Assert(m.Size() == n, "the size is the number of keys")
	k := vp.Int("probe")
	vp.Assume(k >= 0 && k < 1<<40)
	i := -1
	for j := range lots {
		if k == j {
			i = j
			break
		}
	}
	has := i >= 0 && i%3 != 1
	if i < 0 {
		k = lots + 7
	} else {
		k = i
	}
	x, ok := m.Get(k)
	vp.Assert(ok == has && m.Has(k) == has, "the map holds exactly the keys set and not deleted")
	if has {
		vp.Assert(x == v[i], "the value is the one set")
	}
	vp.Assert(m.SetIfNotExists(k, 5) == !has, "set-if-absent")
	if c, ok := m.(*collections.ShardMap[int, int]); ok {
		c.Clear()
		vp.Assert(c.Size() == 0 && !c.Has(k), "clear empties the map")
	}
}

// A two-key map of 150 entries, some removed by either key, some given another secondary key.
//
//vp:check M03 instr=20000000 level=40000
func TwoKeyMany() {
	m := collections.NewTwoKeyMap[int, int, int]()
	v := values(lots)
	k2 := make([]int, lots)
	in := make([]bool, lots)
	n := 0
	for i := range lots {
		m.Put(i, 1000+i, v[i])
		k2[i], in[i] = 1000+i, true
		n++
		switch i % 7 {
		case 3:
			m.Remove(i - 1)
			in[i-1] = false
			n--
		case 5:
			m.RemoveByK2(1000 + i - 1)
			in[i-1] = false
			n--
		case 6:
			m.Put(i, 3000+i, v[i])
			k2[i] = 3000 + i
		}
	}
	vp.Assert(m.Len() == n && len(m.Keys()) == n && len(m.KeysK2()) == n, "the size is the number of entries")
	seen := make([]bool, lots)
	for _, k := range m.Keys() {
		vp.Assert(k >= 0 && k < lots && in[k] && !seen[k], "every key is listed once")
		seen[k] = true
	}
	for _, k := range m.KeysK2() {
		i := k % 1000
		vp.Assert(i < lots && in[i] && k2[i] == k && seen[i], "every secondary key is listed once")
		seen[i] = false
	}
	k, i := probe(lots)
	x, ok := m.Get(k)
	vp.Assert(ok == (i >= 0 && in[i]), "the map holds exactly the entries put and not removed")
	if ok {
		y, ok2 := m.GetByK2(k2[i])
		vp.Assert(ok2 && x == v[i] && y == v[i], "both keys give the value")
		m.RemoveByK2(k2[i])
		vp.Assert(m.Len() == n-1, "one entry is removed")
		_, ok = m.Get(k)
		vp.Assert(!ok, "the entry is removed")
	}
	_, ok = m.GetByK2(k + 1000)
	vp.Assert(vp.Implies(k < 0 || k >= lots, !ok || k >= 2000), "an unknown secondary key")
}

// 60 values in a unique-struct set, added at two instants, some removed.
//
//vp:check S04,S05 instr=60000000 adv=400 level=4000
func UniqMany() {
	const n = 60
	ctx, cancel := vpContext()
	s := collections.NewStructUniqSet[who]().WithContext(ctx).WithElementTtl(1000).WithCheckInterval(50).Build()
	is := func(f func(who) (bool, error), i int, want bool) {
		ok, err := f(who{A: i, B: 2 * i})
		vp.Assert(err == nil && ok == want, "a value is there from its add until it is removed or expires")
	}
	for i := range n / 2 {
		is(s.Add, i, true)
	}
	time.Sleep(325)
	for i := n / 2; i < n; i++ {
		is(s.Add, i, true)
		is(s.Add, i, false)
	}
	for i := range 10 {
		is(s.Remove, 3*i, true)
	}
	vp.Assert(s.Count() == n-10, "count is the number of values")
	time.Sleep(650)
	vp.Assert(s.Count() == n-10, "a value stays for its time-to-live")
	time.Sleep(100)
	vp.Settle()
	vp.Assert(s.Count() == n/2, "an expired value is gone")
	for i := range n {
		is(s.Has, i, i >= n/2)
	}
	time.Sleep(325)
	vp.Settle()
	vp.Assert(s.Count() == 0, "an expired value is gone")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left")
}

// 100 keys of a per-key lock are locked at the same time; one of them (any) is then waited for.
//
//vp:check L01,L02 instr=20000000 level=40000
func LockMany() {
	const n = 100
	var lock, unlock func(int)
	switch vp.Choose("kind", 2) {
	case 0:
		m := collections.NewMapMutex[int]()
		lock, unlock = m.Lock, m.Unlock
	case 1:
		m := collections.NewMapRWMutex[int]()
		lock, unlock = m.Lock, m.Unlock
	}
	for i := range n {
		lock(i)
	}
	for i := range n {
		if i%4 == 3 {
			unlock(i)
		}
	}
	k, i := probe(n)
	held := i >= 0 && i%4 != 3
	got := false
	go func() {
		lock(k)
		vp.Ghost(func() { got = true })
		unlock(k)
	}()
	vp.Settle()
	vp.Assert(got == !held, "a held key is waited for, any other is not")
	for i := range n {
		if i%4 != 3 {
			unlock(i)
		}
	}
	vp.Settle()
	vp.Assert(got, "a released key can be locked")
	for i := range n {
		lock(i)
	}
}

const crowdN = 8

// crowd: n goroutines start together.
func crowd(f func(i int)) {
	fs := make([]func(), crowdN)
	for i := range fs {
		fs[i] = func() { f(i) }
	}
	lin.Par(fs...)
}

// Eight goroutines take one key of a per-key lock (readers and writers for the second kind); then again.
//
//vp:check L01,L02 delay=3 t.delay=5
func LockCrowd() {
	readers, writers := 0, 0
	enter := func(w bool) {
		vp.Ghost(func() {
			vp.Assert(writers == 0 && (!w || readers == 0), "exclusion")
			if w {
				writers++
			} else {
				readers++
			}
		})
		vp.Yield()
		vp.Ghost(func() {
			if w {
				writers--
			} else {
				readers--
			}
		})
	}
	if vp.Choose("kind", 2) == 0 {
		m := collections.NewMapMutex[int]()
		crowd(func(i int) {
			m.Lock(0)
			enter(true)
			m.Unlock(0)
		})
		m.Lock(0)
	} else {
		m := collections.NewMapRWMutex[int]()
		crowd(func(i int) {
			if i%3 == 2 {
				m.Lock(0)
				enter(true)
				m.Unlock(0)
			} else {
				m.RLock(0)
				enter(false)
				m.RUnlock(0)
			}
		})
		m.Lock(0)
	}
}

// Eight goroutines ask has-or-create for one key, or for three keys with a limit of two.
//
//vp:check S02,S03 delay=3 t.delay=5
func HashSetCrowd() {
	b := collections.NewHashSet[int]()
	limit := vp.Choose("limit", 2) == 1
	if limit {
		b.WithMaxCount(2)
	}
	s := b.Build()
	created := 0
	crowd(func(i int) {
		k := 0
		if limit {
			k = i % 3
		}
		if !s.HasOrCreate(k) {
			vp.Ghost(func() { created++ })
		}
		vp.Assert(!limit || s.Count() <= 2, "never more keys than the limit")
	})
	if limit {
		vp.Assert(s.Count() == 2 && created >= 3 && len(s.Keys()) == 2, "the limit is reached")
	} else {
		vp.Assert(s.Count() == 1 && created == 1, "one of the callers creates the key")
	}
}

// Eight gets of one key with load locking, or eight updates of one key, at the same time.
//
//vp:check G05,G06 delay=3 t.delay=5
func GuavaCrowd() {
	v := vp.Int("v")
	loads, in := 0, 0
	m := collections.NewGuavaMap[int, int]().WithLockLoad(true).WithLoadFunc(func(int) (int, error) {
		vp.Ghost(func() { loads++ })
		vp.Yield()
		return v, nil
	}).Build()
	if vp.Choose("op", 2) == 0 {
		crowd(func(int) {
			x, err := m.Get(1)
			vp.Assert(err == nil && x == v, "every get returns the loaded value")
		})
		vp.Assert(loads == 1, "the key is loaded once")
	} else {
		last := 0
		crowd(func(i int) {
			x := m.LockForUpdate(1, func() int {
				vp.Ghost(func() {
					vp.Assert(in == 0, "update functions of a key do not overlap")
					in++
				})
				vp.Yield()
				vp.Ghost(func() {
					in--
					last = i + 10
				})
				return i + 10
			})
			vp.Assert(x == i+10, "the result is the function's")
		})
		x, err := m.Get(1)
		vp.Assert(err == nil && x == last, "the last update is stored")
	}
}

// Eight set-if-absent calls of one key of a simple or a sharded map.
//
//vp:check M01,M02 delay=3 t.delay=5
func MapCrowd() {
	var m collections.Map[int, int]
	if vp.Choose("kind", 2) == 0 {
		m = collections.NewSimpleMap[int, int]()
	} else {
		m = collections.NewShardMap[int, int]().WithShardsCount(2).WithShardsFunc(func(k int) int { return k % 2 }).Build()
	}
	var mu sync.Mutex
	won, val, calls := 0, 0, 0
	crowd(func(i int) {
		var ok bool
		if i%2 == 0 {
			ok = m.SetIfNotExists(1, i)
		} else {
			_, ok = m.SetIfNotExistsWithFunc(1, func() int {
				vp.Ghost(func() { calls++ })
				return i
			})
		}
		if ok {
			mu.Lock()
			won, val = won+1, i
			mu.Unlock()
		}
	})
	x, ok := m.Get(1)
	vp.Assert(won == 1 && ok && x == val && m.Size() == 1 && calls <= 1, "exactly one of the calls sets the key")
}
