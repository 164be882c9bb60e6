package chans

import (
	"context"
	"time"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"
	"vpharness/lin"
	"vpharness/vp"
)

// The objects as their builders make them when nothing but what is needed is set.

// A chunking channel of the default chunk size (100), timeout (50 ms) and buffers: 1..2 items from each of two
// producers, one of which starts at an arbitrary time of up to two chunk timeouts; the channel or the chunk function.
//
//vp:check C01,C02 adv=40
func ChunkDefault() {
	const timeout = int(50 * time.Millisecond)
	ctx, cancel := context.WithCancel(context.Background())
	r := &rec{}
	b := chans.NewChunkChan[int]().WithContext(ctx)
	var c *chans.ChunkChan[int]
	if vp.Choose("func", 2) == 1 {
		c = b.WithChunkFunc(r.add).Build()
	} else {
		c = b.Build()
		go consume(ctx, c.C(), r.add)
	}
	n := 1 + vp.Choose("n", 2)
	gap := vp.IntRange("gap", 0, 2*timeout)
	var at [4]int
	lin.Par(func() {
		for i := range n {
			at[i] = vp.Now()
			c.Add(i)
		}
	}, func() {
		sleep(gap)
		for i := range n {
			at[2+i] = vp.Now()
			c.Add(2 + i)
		}
	})
	sleep(timeout)
	vp.Settle()
	got := r.check(100)
	vp.Assert(len(got) == 2*n, "every item is delivered exactly once")
	next := [2]int{}
	i := 0
	for k, b := range r.got {
		for _, v := range b {
			vp.Assert(v%2 == next[v/2] && next[v/2] < n, "the items of a producer are delivered once and in order")
			next[v/2]++
			vp.Assert(r.at[k] <= at[v]+timeout, "no item waits longer than the chunk timeout")
			i++
		}
	}
	cancel()
}

// The same channel with 98..201 items of arbitrary value, all at once: chunks of 100 leave at once, the rest after
// the timeout.
//
//vp:check C01,C02 instr=8000000 level=40000
func ChunkDefaultFull() {
	ctx, cancel := context.WithCancel(context.Background())
	r := &rec{}
	b := chans.NewChunkChan[int]().WithContext(ctx)
	c := b.Build()
	n := []int{98, 99, 100, 101, 199, 200, 201}[vp.Choose("n", 7)]
	var items []int
	for range n {
		items = append(items, vp.Int("item"))
		c.Add(items[len(items)-1])
		vp.Settle()
	}
	_, out := c.Sizes()
	vp.Assert(out == n/100, "a full chunk leaves at once")
	for range out {
		r.add(<-c.C())
	}
	go consume(ctx, c.C(), r.add)
	vp.Settle()
	vp.Assert(len(r.got) == n/100, "the rest waits for the timeout")
	time.Sleep(50 * time.Millisecond)
	vp.Settle()
	same(r.check(100), items, n)
	vp.Assert(len(r.got) == (n+99)/100, "chunks are full where they can be")
	cancel()
}

// A sharding channel of the default shard count (4) and buffers: two producers of 1..2 items of arbitrary key, read
// from the channels of the shards or by the worker function.
//
//vp:check C03
func ShardDefault() {
	ctx, cancel := context.WithCancel(context.Background())
	var got [4][]msg
	get := func(i int, m msg) { vp.Ghost(func() { got[i] = append(got[i], m) }) }
	b := chans.NewShardChan[msg]().WithContext(ctx).WithShardFunc(byKey)
	worker := vp.Choose("worker", 2) == 1
	if worker {
		b = b.WithWorkerFunc(get)
	}
	s, err := b.Build()
	vp.Assert(err == nil && s.ShardCount() == 4, "there are four shards")
	n := 1 + vp.Choose("n", 2)
	k := vp.Int("key")
	l := vp.Int("key")
	vp.Assume(k != 1<<63-1 && l != 1<<63-1)
	lin.Par(func() {
		vp.Assert(s.Add(msg{k, 0}) == nil, "no error")
		if n > 1 {
			vp.Assert(s.Add(msg{k, 1}) == nil, "no error")
		}
	}, func() {
		vp.Assert(s.Add(msg{l, 2}) == nil, "no error")
	})
	vp.Settle()
	if !worker {
		for i := range 4 {
			for range len(s.C(i)) {
				get(i, <-s.C(i))
			}
		}
	}
	total := 0
	for i := range got {
		last := -1
		for _, m := range got[i] {
			vp.Assert(shardOf(m.key, 4) == i, "the item is on the shard its key selects")
			vp.Assert(m.id < 2 && m.key == k || m.id == 2 && m.key == l, "the item is unchanged")
			if m.id < 2 {
				vp.Assert(m.id > last, "the items of a producer keep their order on a shard")
				last = m.id
			}
			total++
		}
	}
	vp.Assert(total == n+1, "every item comes out exactly once")
	cancel()
}

// A shard-and-chunk channel with its default chunk size (500), timeout (50 ms) and buffers and one shard: three items
// arrive in order, whatever the order its goroutines run in.
//
//vp:check C04 adv=60
func ShardChunkDefaultOne() { shardChunkDefault(1, 3) }

// The same with the default four shards, of which two are used; at most four (thorough: six) scheduling decisions differ from running
// the oldest goroutine first.
//
//vp:check C04 adv=60 delay=4 t.delay=6
func ShardChunkDefault() { shardChunkDefault(4, 3) }

func shardChunkDefault(shards, n int) {
	ctx, cancel := context.WithCancel(context.Background())
	in := make(chan msg, 1000)
	var got []batch
	b := chans.NewShardChunk[msg]().WithContext(ctx).WithShardFunc(byKey).WithIncomingChan(in)
	b.WithShardWorker(func(i int, ms []msg) { vp.Ghost(func() { got = append(got, batch{i, ms}) }) })
	if shards != 4 {
		b.WithShardCount(shards)
	}
	s, err := b.Build()
	vp.Assert(err == nil && s.ShardCount() == shards, "built as configured")
	k := make([]int, n)
	if shards > 1 {
		k[n-1] = vp.Choose("key", 2)
	}
	for i, x := range k {
		in <- msg{x, i}
	}
	time.Sleep(100 * time.Millisecond)
	vp.Settle()
	checkBatches(got, shards, 500, n, k)
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything ends with the context")
}

// A runner with the default worker count (5) and buffers: 5 functions that block run at once, a sixth and a seventh
// wait for one of them to end.
//
//vp:check W01,W02
func RunnerDefault() {
	ctx, cancel := context.WithCancel(context.Background())
	r := workers.NewRunner().WithContext(ctx).Build()
	gate := make(chan int)
	var runs [7]int
	now, most := 0, 0
	body := func(i int) {
		vp.Ghost(func() {
			runs[i]++
			now++
			most = max(most, now)
		})
		<-gate
		vp.Ghost(func() { now-- })
	}
	n := 4 + vp.Choose("n", 4)
	for i := range n {
		if i%2 == 0 {
			r.Run(func() { body(i) })
		} else {
			r.RunWithContext(func(c context.Context) {
				vp.Assert(c == ctx, "the function gets the context of the runner")
				body(i)
			})
		}
		if i < 5 {
			vp.Settle()
		}
	}
	vp.Settle()
	vp.Assert(now == min(n, 5), "five functions run at once")
	for range n {
		gate <- 0
	}
	vp.Settle()
	vp.Assert(most == min(n, 5) && now == 0, "not more than five functions run at once")
	for i := range n {
		vp.Assert(runs[i] == 1, "every function runs exactly once")
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything ends with the context")
}

// crowd: n goroutines start together.
func crowd(n int, f func(i int)) {
	fs := make([]func(), n)
	for i := range fs {
		fs[i] = func() { f(i) }
	}
	lin.Par(fs...)
}

// Eight producers of one item each, chunk size 3, buffers of 10, a consumer or the chunk function.
//
//vp:check C01,C02 delay=2 t.delay=3 adv=60
func ChunkCrowd() {
	const n = 8
	ctx, cancel := context.WithCancel(context.Background())
	r := &rec{}
	buf := 10
	b := newChunk(ctx, 3, 100, buf, buf)
	var c *chans.ChunkChan[int]
	if vp.Choose("func", 2) == 1 {
		c = b.WithChunkFunc(r.add).Build()
	} else {
		c = b.Build()
		go consume(ctx, c.C(), r.add)
	}
	start := vp.Now()
	crowd(n, func(i int) { c.Add(i) })
	vp.Settle()
	vp.Assert(len(r.got) == n/3 && vp.Now() == start, "a full chunk leaves at once")
	sleep(100)
	vp.Settle()
	got := r.check(3)
	vp.Assert(len(got) == n, "every item is delivered exactly once")
	var seen [n]bool
	for _, v := range got {
		vp.Assert(v >= 0 && v < n && !seen[v], "every item is delivered exactly once")
		seen[v] = true
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything ends with the context")
}

// Eight submitters of one function each, three workers.
//
//vp:check W01,W02 delay=2 t.delay=3
func RunnerCrowd() {
	const n = 8
	ctx, cancel := context.WithCancel(context.Background())
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(3).Build()
	var runs [n]int
	now := 0
	crowd(n, func(i int) {
		f := func() {
			vp.Ghost(func() {
				runs[i]++
				now++
				vp.Assert(now <= 3, "never more functions than workers")
			})
			vp.Yield()
			vp.Ghost(func() { now-- })
		}
		if i%3 == 0 {
			r.RunWithContext(func(context.Context) { f() })
		} else {
			r.Run(f)
		}
	})
	vp.Settle()
	for i := range runs {
		vp.Assert(runs[i] == 1, "every function runs exactly once")
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything ends with the context")
}

// Six producers of two items each for three shards, read by the worker function, buffers 0 or 10.
//
//vp:check C03 delay=2 t.delay=3
func ShardCrowd() {
	const n = 6
	ctx, cancel := context.WithCancel(context.Background())
	buf := 10 * vp.Choose("buf", 2)
	var got [3][]msg
	s, err := newShard(ctx, 3, buf, buf).WithWorkerFunc(func(i int, m msg) {
		vp.Ghost(func() { got[i] = append(got[i], m) })
	}).Build()
	vp.Assert(err == nil, "no error")
	crowd(n, func(i int) {
		vp.Assert(s.Add(msg{i - 2, 2 * i}) == nil, "no error")
		vp.Assert(s.Add(msg{i - 2, 2*i + 1}) == nil, "no error")
	})
	vp.Settle()
	var next [n]int
	for i := range got {
		for _, m := range got[i] {
			p := m.id / 2
			vp.Assert(m.key == p-2 && shardOf(m.key, 3) == i, "the item is on the shard its key selects")
			vp.Assert(m.id%2 == next[p], "the items of a producer come once and in order")
			next[p]++
		}
	}
	for p := range next {
		vp.Assert(next[p] == 2, "every item comes out exactly once")
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "everything ends with the context")
}
