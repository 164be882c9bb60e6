package coll

import (
	"context"
	"errors"
	"time"

	"github.com/axgrid/axutils/collections"
	"vpharness/lin"
	"vpharness/vp"
)

const (
	gGet = iota
	gSet
	gHas
	gHasOrCreate
	gDelete
	gUpdate
	gClear
	gSize
	gStored
	gUnloads // pseudo operation: what the unload function was called with
	nG       = gUnloads
)

var errLoad = errors.New("load failed")

// gState is the reference cache: the entries in insertion order.
type gState struct {
	max  int
	n    int
	k    [4]int
	v    [4]int
	unl  [4]int // number of unload calls per key
	unlV [4]int // sum of the unloaded values per key
}

func (s gState) find(k int) int {
	for i := 0; i < s.n; i++ {
		if s.k[i] == k {
			return i
		}
	}
	return -1
}

func (s gState) remove(i int) gState {
	s.unl[s.k[i]]++
	s.unlV[s.k[i]] += s.v[i]
	for ; i+1 < s.n; i++ {
		s.k[i], s.v[i] = s.k[i+1], s.v[i+1]
	}
	s.n--
	s.k[s.n], s.v[s.n] = 0, 0
	return s
}

func (s gState) insert(k, v int) gState {
	if i := s.find(k); i >= 0 {
		s.v[i] = v
		return s
	}
	if s.max > 0 && s.n >= s.max {
		s = s.remove(0)
	}
	s.k[s.n], s.v[s.n] = k, v
	s.n++
	return s
}

// Loader modes.
const (
	noLoader = iota
	goodLoader
	badLoader
)

// gStep specifies every operation. V is the value an operation stores, E the loader's mode, R and Ok the result.
func gStep(s gState, o *lin.Op) (gState, bool) {
	i := s.find(o.K)
	switch o.Kind {
	case gGet:
		switch {
		case i >= 0:
			return s, vp.And(o.Ok, o.R == s.v[i])
		case o.E == noLoader:
			return s, vp.And(o.Ok, o.R == 0)
		case o.E == badLoader:
			return s, vp.And(!o.Ok, o.R == 0)
		}
		return s.insert(o.K, o.V), vp.And(o.Ok, o.R == o.V)
	case gSet:
		return s.insert(o.K, o.V), true
	case gHas:
		return s, o.Ok == (i >= 0)
	case gHasOrCreate:
		if i < 0 {
			s = s.insert(o.K, o.V)
		}
		return s, o.Ok == (i >= 0)
	case gDelete:
		if i >= 0 {
			s = s.remove(i)
		}
		return s, true
	case gUpdate:
		return s.insert(o.K, o.V), o.R == o.V
	case gClear:
		for s.n > 0 {
			s = s.remove(0)
		}
		return s, true
	case gSize:
		return s, o.R == s.n
	case gStored:
		ok := o.E == s.n
		for j := 0; j < s.n; j++ {
			if s.k[j] == o.K {
				ok = vp.And(ok, o.Ok, o.R == s.v[j])
			}
		}
		return s, vp.And(ok, o.Ok == (i >= 0))
	default:
		return s, vp.And(o.E == s.unl[o.K], o.R == s.unlV[o.K])
	}
}

type cache struct {
	m    *collections.GuavaMap[int, int]
	cur  *lin.Op
	unl  [4]int
	unlV [4]int
}

func (c *cache) unload(k, v int) {
	vp.Ghost(func() {
		c.unl[k]++
		c.unlV[k] += v
	})
}

type gConf struct {
	max         int
	loader      int
	lockLoad    bool
	read, write time.Duration
	ctx         context.Context
	load        func(int) (int, error)
}

func newCache(g gConf) *cache {
	c := &cache{}
	b := collections.NewGuavaMap[int, int]().WithMaxCount(g.max).WithLockLoad(g.lockLoad).
		WithReadTimeout(g.read).WithWriteTimeout(g.write).WithUnloadFunc(c.unload)
	if g.load != nil {
		b = b.WithLoadFunc(g.load)
	}
	if g.ctx != nil {
		b = b.WithContext(g.ctx)
	}
	c.m = b.Build()
	return c
}

func (c *cache) do(h *lin.Hist, o *lin.Op) {
	h.Begin(o)
	switch o.Kind {
	case gGet:
		r, err := c.m.Get(o.K)
		o.R, o.Ok = r, err == nil
		if err != nil {
			vp.Assert(err == errLoad, "the error is the loader's")
		}
	case gSet:
		c.m.Set(o.K, o.V)
	case gHas:
		o.Ok = c.m.Has(o.K)
	case gHasOrCreate:
		o.Ok = c.m.HasOrCreate(o.K, o.V)
	case gDelete:
		c.m.Delete(o.K)
	case gUpdate:
		o.R = c.m.LockForUpdate(o.K, func() int { return o.V })
	case gClear:
		c.m.Clear()
	case gSize:
		o.R = c.m.Size()
	case gStored:
		w := c.m.GetStored()
		o.E = len(w)
		o.R, o.Ok = w[o.K]
	default:
		o.E, o.R = c.unl[o.K], c.unlV[o.K]
	}
	h.End(o)
}

func gOp(h *lin.Hist, nkeys, loader int, kinds ...int) *lin.Op {
	kind := 0
	if kinds != nil {
		kind = kinds[vp.Choose("op", len(kinds))]
	} else {
		kind = vp.Choose("op", nG)
	}
	k := 0
	if kind != gSize && kind != gClear {
		k = vp.Choose("key", nkeys)
	}
	o := h.New(kind, k, vp.Int("v"))
	if kind == gGet {
		o.E = loader
	}
	return o
}

// Any number of arbitrary operations in sequence (get, set, has, has-or-create, delete, update, clear, size,
// snapshot) on two keys with arbitrary values, without limit: no loader, one that succeeds with an arbitrary value,
// one that fails; with and without load locking. The unload calls are compared after each operation.
//
//vp:check G01,G03
func GuavaSeq() {
	g := gConf{loader: vp.Choose("loader", 3)}
	g.lockLoad = g.loader != noLoader && vp.Choose("locked", 2) == 1
	guavaSeq(g, 2)
}

// The same with maximum count 1 (two keys) and 2 (three keys) and a loader that succeeds.
//
//vp:check G02,G03
func GuavaSeqMax() {
	g := gConf{loader: goodLoader, max: 1 + vp.Choose("max", 2)}
	guavaSeq(g, g.max+1, gGet, gSet, gHasOrCreate, gDelete, gUpdate, gClear)
}

// Maximum count 3, four keys.
//
//vp:check G02,G03
func GuavaSeqMax3() {
	guavaSeq(gConf{loader: goodLoader, max: 3}, 4, gGet, gSet, gHasOrCreate, gDelete, gUpdate, gClear)
}

func guavaSeq(g gConf, nkeys int, kinds ...int) {
	var loaded *lin.Op
	if g.loader != noLoader {
		g.load = func(k int) (int, error) {
			vp.Assert(loaded != nil && k == loaded.K, "the loader is called for the absent key that is asked for")
			if g.loader == badLoader {
				return 5, errLoad
			}
			return loaded.V, nil
		}
	}
	c := newCache(g)
	s := gState{max: g.max}
	for vp.More() {
		h := &lin.Hist{}
		o := gOp(h, nkeys, g.loader, kinds...)
		loaded = nil
		if o.Kind == gGet && s.find(o.K) < 0 {
			loaded = o
		}
		c.do(h, o)
		loaded = nil
		var ok bool
		s, ok = gStep(s, o)
		vp.Assert(ok, "each operation returns what the reference cache returns")
		vp.Settle()
		vp.Assert(c.m.Size() == s.n, "the size is that of the reference cache")
		vp.Assert(g.max == 0 || c.m.Size() <= g.max, "the maximum count is not exceeded")
		for k := range nkeys {
			vp.Assert(vp.And(c.unl[k] == s.unl[k], c.unlV[k] == s.unlV[k]), "unload is called once for each entry that left, with its value")
		}
		c.unl, s.unl = [4]int{}, [4]int{}
		c.unlV, s.unlV = [4]int{}, [4]int{}
	}
	w := c.m.GetStored()
	for k := range nkeys {
		i := s.find(k)
		v, ok := w[k]
		vp.Assert(ok == (i >= 0) && c.m.Has(k) == ok, "the entries are those of the reference cache")
		if i >= 0 {
			vp.Assert(v == s.v[i], "the values are those of the reference cache")
		}
	}
}

// Arbitrary int keys and values: set, a loading get, delete, then a query of any key.
//
//vp:check G01
func GuavaAnyKey() {
	a, b, d, q := vp.Int("a"), vp.Int("b"), vp.Int("d"), vp.Int("q")
	v, w := vp.Int("v"), vp.Int("w")
	m := collections.NewGuavaMap[int, int]().WithLoadFunc(func(k int) (int, error) {
		vp.Assert(k == b, "the loader gets the key")
		return w, nil
	}).Build()
	m.Set(a, v)
	r, err := m.Get(b)
	vp.Assert(err == nil && r == vp.Ite(a == b, v, w), "get")
	m.Delete(d)
	has := q != d && (q == a || q == b)
	vp.Assert(m.Has(q) == has, "has")
	x, ok := m.GetStored()[q]
	vp.Assert(ok == has, "snapshot")
	if has {
		vp.Assert(x == vp.Ite(q == a, v, w), "snapshot value")
	}
}

func concCache(g gConf, nkeys int, threads ...int) {
	h := &lin.Hist{}
	s := gState{max: g.max}
	var c *cache
	cur := map[int]int{} // the value the loader gives per key
	if g.loader != noLoader {
		for k := range nkeys {
			cur[k] = vp.Int("load")
		}
		g.load = func(k int) (int, error) {
			if g.loader == badLoader {
				return 5, errLoad
			}
			return cur[k], nil
		}
	}
	c = newCache(g)
	if vp.Choose("pre", 2) == 1 {
		v := vp.Int("pre")
		c.m.Set(0, v)
		s = s.insert(0, v)
	}
	var fs []func()
	for _, n := range threads {
		var ops []*lin.Op
		for range n {
			o := gOp(h, nkeys, g.loader)
			if o.Kind == gGet && g.loader == goodLoader {
				o.V = cur[o.K]
			}
			ops = append(ops, o)
		}
		fs = append(fs, func() {
			for _, o := range ops {
				c.do(h, o)
			}
		})
	}
	lin.Par(fs...)
	vp.Settle()
	for k := range nkeys {
		c.do(h, h.New(gStored, k, 0))
		c.do(h, h.New(gUnloads, k, 0))
	}
	vp.Assert(lin.Linearizable(h, s, gStep), "results, contents and unload calls are those of some sequential order of the operations")
}

// Two goroutines with one arbitrary operation each on two keys, key 0 present or not, no limit or maximum count 1,
// a loader that succeeds.
//
//vp:check G01,G02,G03,T01
func GuavaPar2() { concCache(gConf{max: vp.Choose("max", 2), loader: goodLoader}, 2, 1, 1) }

// Two goroutines with one arbitrary operation each on one key with load locking and a read timeout that does not
// pass (timers are renewed concurrently).
//
//vp:check G01,T01
func GuavaPar2Timers() {
	ctx, cancel := context.WithCancel(context.Background())
	concCache(gConf{loader: goodLoader, lockLoad: true, read: 1000, ctx: ctx}, 1, 1, 1)
	cancel()
}

// Two goroutines, one arbitrary operation each, no loader or one that fails.
//
//vp:check G01
func GuavaPar2Fail() {
	concCache(gConf{loader: vp.Choose("loader", 2) * badLoader, lockLoad: vp.Choose("locked", 2) == 1}, 1, 1, 1)
}

// Three goroutines with one arbitrary operation each on one key.
//
//vp:check G01,G03,T01 thorough
func GuavaPar3() { concCache(gConf{loader: goodLoader}, 1, 1, 1, 1) }

// Two goroutines with two arbitrary operations and one on two keys, maximum count 1.
//
//vp:check G01,G02,G03 thorough
func GuavaPar21() { concCache(gConf{max: 1, loader: goodLoader}, 2, 2, 1) }

type timed struct {
	gState
	dl   [4]int // deadlines per key
	read bool
	ttl  int
}

// expire removes what is due before t; nothing is due exactly at t.
func (s *timed) expire(t int) {
	for k := range 3 {
		if i := s.find(k); i >= 0 {
			vp.Assume(s.dl[k] != t)
			if s.dl[k] < t {
				s.gState = s.remove(i)
			}
		}
	}
}

func guavaTimes(n, nkeys int, max int, settle bool, kinds ...int) {
	s := timed{ttl: vp.IntRange("ttl", 1, 1000000), read: vp.Choose("read", 2) == 1}
	s.max = max
	g := gConf{max: max, write: time.Duration(s.ttl)}
	if s.read {
		g.write, g.read = 0, g.write
	}
	c := newCache(g)
	t0 := time.Now()
	step := func(kind, k int) {
		time.Sleep(time.Duration(vp.IntRange("gap", 0, 1000000)))
		t := int(time.Since(t0))
		s.expire(t)
		h := &lin.Hist{}
		o := h.New(kind, k, vp.Int("v"))
		c.do(h, o)
		was := s.find(k) >= 0
		var ok bool
		s.gState, ok = gStep(s.gState, o)
		vp.Assert(ok, "an entry is there until its timeout passes and gone afterwards")
		switch kind {
		case gSet, gUpdate:
			s.dl[k] = t + s.ttl
		case gHasOrCreate:
			if !was || s.read {
				s.dl[k] = t + s.ttl
			}
		case gGet, gHas:
			if was && s.read {
				s.dl[k] = t + s.ttl
			}
		}
	}
	step([]int{gSet, gHasOrCreate, gUpdate}[vp.Choose("first", 3)], 0)
	for i := 1; i < n; i++ {
		if settle {
			vp.Settle()
		}
		step(kinds[vp.Choose("op", len(kinds))], vp.Choose("key", nkeys))
	}
	step(gStored, 0)
	vp.Settle()
	for k := range nkeys {
		vp.Assert(vp.And(c.unl[k] == s.unl[k], c.unlV[k] == s.unlV[k]), "unload is called once for each entry that left, with its value")
	}
	time.Sleep(1000000000)
	vp.Assert(c.m.Size() == 0, "every entry is gone when its timeout has passed")
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "no goroutine is left behind")
}

// A write of one key and two arbitrary operations on it at arbitrary instants (timeout and gaps up to 1e6 ns, no
// operation exactly at a deadline); write timeout or read timeout.
//
//vp:check G04,G03
func GuavaTimes() {
	guavaTimes(3, 1, 0, false, gGet, gSet, gHas, gHasOrCreate, gDelete, gUpdate, gClear)
}

// The same with two keys and maximum count 1 (eviction).
//
//vp:check G04,G03
func GuavaTimesEvict() { guavaTimes(3, 2, 1, false, gGet, gSet, gDelete, gUpdate) }

// Four operations, each after the previous one's goroutines have come to rest.
//
//vp:check G04,G03
func GuavaTimes4() {
	guavaTimes(4, 1, 0, true, gGet, gSet, gHas, gHasOrCreate, gDelete, gUpdate, gClear)
}

// A timeout that fires at the very instant at which another goroutine works on the key: delete and set again,
// set, clear and set, update. An entry stored at that instant by a fresh insertion survives; every entry that left
// was unloaded once.
//
//vp:check G04,G03,T01
func GuavaExpireRace() {
	c := newCache(gConf{write: 1000})
	v, w := vp.Int("v"), vp.Int("w")
	c.m.Set(0, v)
	time.Sleep(1000)
	kind := vp.Choose("op", 4)
	switch kind {
	case 0:
		c.m.Delete(0)
		c.m.Set(0, w)
	case 1:
		c.m.Clear()
		c.m.HasOrCreate(0, w)
	case 2:
		c.m.Clear()
		c.m.LockForUpdate(0, func() int { return w })
	case 3:
		c.m.Delete(0)
	}
	vp.Settle()
	if kind != 3 {
		x, ok := c.m.GetStored()[0]
		vp.Assert(ok && x == w, "a timeout armed for an earlier entry does not remove a later one")
	}
	vp.Assert(c.unl[0] == 1 && c.unlV[0] == v, "the first entry was unloaded once")
	time.Sleep(2000)
	vp.Settle()
	vp.Assert(c.m.Size() == 0, "nothing is left")
	vp.Assert(c.unl[0] == vp.Ite(kind == 3, 1, 2), "every entry was unloaded once")
}

// Three concurrent gets of one absent key (arbitrary int) with load locking.
//
//vp:check G05,T01
func GuavaLoadOnce() {
	k, v := vp.Int("k"), vp.Int("v")
	loads := 0
	c := newCache(gConf{lockLoad: true, load: func(x int) (int, error) {
		vp.Assert(x == k, "the loader gets the key")
		vp.Ghost(func() { loads++ })
		return v, nil
	}})
	get := func() {
		r, err := c.m.Get(k)
		vp.Assert(r == v && err == nil, "every get returns the loaded value")
	}
	lin.Par(get, get, get)
	vp.Assert(loads == 1, "the loader runs once")
	get()
	vp.Assert(loads == 1, "the loaded value is stored")
}

// Two concurrent gets of one key with load locking and a third operation on it (set, delete, clear, update,
// has-or-create), a loader that succeeds each time with a different value or fails.
//
//vp:check G05,T01
func GuavaLoadMixed() {
	active, loads := 0, 0
	var val [3]int
	for i := range val {
		val[i] = vp.Int("load")
		vp.Assume(val[i] != 0)
	}
	fail := vp.Choose("fail", 2) == 1
	c := newCache(gConf{lockLoad: true, load: func(x int) (r int, err error) {
		vp.Ghost(func() {
			vp.Assert(active == 0, "one load of a key at a time")
			active++
		})
		vp.Yield()
		vp.Ghost(func() {
			active--
			r = val[loads]
			loads++
		})
		if fail {
			return 0, errLoad
		}
		return r, nil
	}})
	w := vp.Int("w")
	vp.Assume(w != 0)
	kind := vp.Choose("op", 5)
	get := func() {
		r, err := c.m.Get(0)
		if err != nil {
			vp.Assert(fail && r == 0 && err == errLoad, "a failed load gives the loader's error")
			return
		}
		vp.Assert(vp.Or(!fail && r == val[0], !fail && r == val[1], kind != 1 && kind != 2 && r == w), "get returns a value that was loaded or stored")
	}
	lin.Par(get, get, func() {
		switch kind {
		case 0:
			c.m.Set(0, w)
		case 1:
			c.m.Delete(0)
		case 2:
			c.m.Clear()
		case 3:
			c.m.LockForUpdate(0, func() int { return w })
		case 4:
			c.m.HasOrCreate(0, w)
		}
	})
	for _, x := range c.m.GetStored() {
		vp.Assert(x != 0, "a value nobody stored is never stored")
	}
	if kind != 1 && kind != 2 && !fail {
		vp.Assert(loads <= 1, "the loader runs at most once if the entry is kept")
	}
}

// The load of one key waits for the load of another (two different arbitrary keys).
//
//vp:check G05
func GuavaLoadIndependent() {
	k, l := vp.Int("k"), vp.Int("l")
	vp.Assume(k != l)
	ch := make(chan int)
	m := collections.NewGuavaMap[int, int]().WithLockLoad(true).WithLoadFunc(func(x int) (int, error) {
		if x == k {
			return <-ch, nil
		}
		ch <- 3
		return 4, nil
	}).Build()
	lin.Par(func() {
		r, err := m.Get(k)
		vp.Assert(r == 3 && err == nil, "the waiting load")
	}, func() {
		r, err := m.Get(l)
		vp.Assert(r == 4 && err == nil, "the other load")
	})
}

// Two concurrent updates of one key and a third operation on it (delete, clear, set, update, has-or-create, get):
// the update functions never overlap.
//
//vp:check G06,T01
func GuavaUpdateExclusive() {
	c := newCache(gConf{})
	active := 0
	upd := func(v int) func() {
		return func() {
			r := c.m.LockForUpdate(0, func() int {
				vp.Ghost(func() {
					active++
					vp.Assert(active == 1, "update functions for one key do not overlap")
				})
				vp.Yield()
				vp.Ghost(func() { active-- })
				return v
			})
			vp.Assert(r == v, "the result of the update function is returned")
		}
	}
	kind := vp.Choose("op", 6)
	pre := vp.Choose("pre", 2) == 1
	if pre {
		c.m.LockForUpdate(0, func() int { return 9 })
	}
	lin.Par(upd(1), upd(2), func() {
		switch kind {
		case 0:
			c.m.Delete(0)
		case 1:
			c.m.Clear()
		case 2:
			c.m.Set(0, 3)
		case 3:
			upd(3)()
		case 4:
			c.m.HasOrCreate(0, 3)
		case 5:
			c.m.Get(0)
		}
	})
	x, ok := c.m.GetStored()[0]
	vp.Assert(ok || kind < 2, "the result of an update is stored")
	vp.Assert(!ok || x == 1 || x == 2 || x == 3 && (kind == 2 || kind == 3), "the stored value is the result of the last update")
}

// Two updates that take arbitrary time, started at arbitrary instants, while the key's entry times out and is
// deleted at an arbitrary instant: no overlap, each returns its function's result.
//
//vp:check G06
func GuavaUpdateExpire() {
	c := newCache(gConf{write: 1000})
	c.m.LockForUpdate(0, func() int { return 1 })
	active := 0
	upd := func(v, d int) {
		r := c.m.LockForUpdate(0, func() int {
			vp.Ghost(func() {
				active++
				vp.Assert(active == 1, "update functions for one key do not overlap")
			})
			time.Sleep(time.Duration(d))
			vp.Ghost(func() { active-- })
			return v
		})
		vp.Assert(r == v, "the result of the update function is returned")
	}
	a, b, d := vp.IntRange("a", 1, 5000), vp.IntRange("b", 1, 400), vp.IntRange("d", 1, 5000)
	e := vp.IntRange("e", 1, 5000)
	lin.Par(func() { upd(2, a) }, func() {
		time.Sleep(time.Duration(d))
		upd(3, b)
	}, func() {
		time.Sleep(time.Duration(e))
		c.m.Delete(0)
	})
}

// While an update function runs, every read and an update of another key complete (two different arbitrary keys).
//
//vp:check G06
func GuavaUpdateIndependent() {
	k, l := vp.Int("k"), vp.Int("l")
	vp.Assume(k != l)
	m := collections.NewGuavaMap[int, int]().Build()
	m.Set(k, 5)
	in, out := make(chan bool), make(chan bool)
	op := vp.Choose("op", 7)
	lin.Par(func() {
		m.LockForUpdate(k, func() int {
			in <- true
			<-out
			return 1
		})
	}, func() {
		<-in
		switch op {
		case 0:
			v, err := m.Get(k)
			vp.Assert(v == 5 && err == nil, "the old value is read while the update runs")
		case 1:
			vp.Assert(m.Has(k), "has")
		case 2:
			vp.Assert(m.Size() == 1, "size")
		case 3:
			vp.Assert(len(m.GetStored()) == 1, "snapshot")
		case 4:
			vp.Assert(m.LockForUpdate(l, func() int { return 2 }) == 2, "update of another key")
		case 5:
			m.Delete(k)
		case 6:
			m.Set(l, 3)
		}
		out <- true
	})
	v, _ := m.Get(k)
	vp.Assert(v == 1, "the update's result is stored")
}
