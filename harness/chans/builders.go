package chans

import (
	"context"

	"github.com/axgrid/axutils/chans"
	"github.com/axgrid/axutils/workers"
	"vpharness/lin"
	"vpharness/vp"
)

// Two objects from one builder, which is changed in between and afterwards.

// Two chunking channels from one builder; the second has its own context, chunk size, timeout and chunk function (or the
// same). Each delivers its own items as configured when it was built, and its context ends it alone.
//
//vp:check B01
func ChunkBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	var r1, r2 rec
	b := newChunk(ctx1, 2, 100, 2, 2).WithChunkFunc(r1.add)
	c1 := b.Build()
	change := func() { b.WithContext(ctx2).WithChunkSize(1).WithChunkTimeout(1000).WithChunkFunc(r2.add) }
	var c2 *chans.ChunkChan[int]
	x, y, z := vp.Int("x"), vp.Int("y"), vp.Int("z")
	concurrent := vp.Choose("concurrent", 2) == 1
	if concurrent {
		lin.Par(func() { c1.Add(x) }, func() {
			change()
			c2 = b.Build()
			c2.Add(z)
		})
	} else {
		change()
		c2 = b.Build()
		c2.Add(z)
		c1.Add(x)
	}
	vp.Settle()
	vp.Assert(len(r1.got) == 0, "the first keeps its chunk size")
	same(r2.check(1), []int{z}, 1)
	c1.Add(y)
	vp.Settle()
	same(r1.check(2), []int{x, y}, 2)
	vp.Assert(len(r1.got) == 1, "the first keeps its chunk size")
	c1.Add(z)
	sleep(100)
	vp.Settle()
	same(r1.check(2), []int{x, y, z}, 3)
	cancel2()
	vp.Settle()
	c1.Add(x)
	c1.Add(y)
	vp.Settle()
	same(r1.check(2), []int{x, y, z, x, y}, 5)
	vp.Assert(len(r2.got) == 1, "each has its own items")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "each ends with its context")
}

// Two sharding channels from one builder, the second with another context, shard count, shard function and worker.
//
//vp:check B01
func ShardBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	var got1, got2 []int
	var on1, on2 []int
	b := newShard(ctx1, 2, 2, 2).WithWorkerFunc(func(i int, m msg) {
		vp.Ghost(func() { got1, on1 = append(got1, m.id), append(on1, i) })
	})
	s1, err := b.Build()
	vp.Assert(err == nil, "no error")
	var s2 *chans.ShardChan[msg]
	second := func() {
		s2, err = b.WithContext(ctx2).WithShardCount(3).WithShardFunc(func(m msg) int { return m.key + 1 }).WithWorkerFunc(func(i int, m msg) {
			vp.Ghost(func() { got2, on2 = append(got2, m.id), append(on2, i) })
		}).Build()
		vp.Assert(err == nil, "no error")
	}
	k, x, y := vp.Int("k"), vp.Int("x"), vp.Int("y")
	vp.Assume(k < 1<<62)
	if vp.Choose("concurrent", 2) == 1 {
		lin.Par(func() { vp.Assert(s1.Add(msg{k, x}) == nil, "no error") }, func() {
			second()
			vp.Assert(s2.Add(msg{k, y}) == nil, "no error")
		})
	} else {
		second()
		vp.Assert(s1.Add(msg{k, x}) == nil && s2.Add(msg{k, y}) == nil, "no error")
	}
	vp.Settle()
	vp.Assert(len(got1) == 1 && got1[0] == x && on1[0] == shardOf(k, 2), "the first gets its item on its shard")
	vp.Assert(len(got2) == 1 && got2[0] == y && on2[0] == shardOf(k+1, 3), "the second gets its item on its shard")
	vp.Assert(s1.ShardCount() == 2 && s2.ShardCount() == 3, "the shard counts")
	cancel2()
	vp.Settle()
	vp.Assert(s1.Add(msg{k, y}) == nil, "no error")
	vp.Settle()
	vp.Assert(len(got1) == 2 && got1[1] == y, "the first goes on")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "each ends with its context")
}

// Two shard-and-chunk channels from one builder and one explicit incoming channel for each, the second with another
// context, chunk size and worker.
//
//vp:check B01
func ShardChunkBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	in1, in2 := make(chan msg, 2), make(chan msg, 2)
	var got1, got2 []batch
	b := newShardChunk(ctx1, 2, 2, 100, 2, 1).WithIncomingChan(in1).WithShardWorker(func(i int, ms []msg) {
		vp.Ghost(func() { got1 = append(got1, batch{i, ms}) })
	})
	_, err := b.Build()
	vp.Assert(err == nil, "no error")
	second := func() {
		_, err := b.WithContext(ctx2).WithIncomingChan(in2).WithChunkSize(1).WithShardCount(1).WithShardWorker(func(i int, ms []msg) {
			vp.Ghost(func() { got2 = append(got2, batch{i, ms}) })
		}).Build()
		vp.Assert(err == nil, "no error")
	}
	x, y := vp.Int("x"), vp.Int("y")
	if vp.Choose("concurrent", 2) == 1 {
		lin.Par(func() { in1 <- msg{1, x} }, second)
	} else {
		second()
		in1 <- msg{1, x}
	}
	in2 <- msg{1, y}
	vp.Settle()
	vp.Assert(len(got1) == 0, "the first keeps its chunk size")
	vp.Assert(len(got2) == 1 && got2[0].shard == 0 && len(got2[0].items) == 1 && got2[0].items[0].id == y, "the second gets its item")
	cancel2()
	vp.Settle()
	in1 <- msg{3, y}
	vp.Settle()
	vp.Assert(len(got1) == 1 && got1[0].shard == 1 && len(got1[0].items) == 2, "the first gets its items")
	vp.Assert(got1[0].items[0].id == x && got1[0].items[1].id == y, "the first gets its items")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "each ends with its context")
}

// Two runners from one builder, the second with another context and worker count.
//
//vp:check B01
func RunnerBuilder() {
	ctx1, cancel1 := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithCancel(context.Background())
	b := workers.NewRunner().WithContext(ctx1).WithWorkerCount(2)
	r1 := b.Build()
	var r2 *workers.Runner
	var now, most [2]int
	gate := make(chan int)
	f := func(i int, want context.Context) func(context.Context) {
		return func(c context.Context) {
			vp.Assert(c == want, "the function gets the context of its runner")
			vp.Ghost(func() {
				now[i]++
				most[i] = max(most[i], now[i])
			})
			<-gate
			vp.Ghost(func() { now[i]-- })
		}
	}
	second := func() {
		r2 = b.WithContext(ctx2).WithWorkerCount(1).Build()
		r2.RunWithContext(f(1, ctx2))
		r2.RunWithContext(f(1, ctx2))
	}
	first := func() {
		r1.RunWithContext(f(0, ctx1))
		r1.RunWithContext(f(0, ctx1))
	}
	if vp.Choose("concurrent", 2) == 1 {
		lin.Par(first, second)
	} else {
		second()
		first()
	}
	vp.Settle()
	vp.Assert(now[0] == 2 && now[1] == 1, "each runner has its workers")
	for range 4 {
		gate <- 0
	}
	vp.Settle()
	vp.Assert(most[0] == 2 && most[1] == 1 && now == [2]int{}, "each runner has its workers")
	cancel2()
	vp.Settle()
	ran := false
	r1.Run(func() { vp.Ghost(func() { ran = true }) })
	vp.Settle()
	vp.Assert(ran, "the first goes on")
	cancel1()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "each ends with its context")
}

// Two chunking channels, sharding channels or runners from one builder that is not changed in between: nothing is shared
// that the caller did not give.
//
//vp:check B01
func SameBuilder() {
	ctx, cancel := context.WithCancel(context.Background())
	x, y := vp.Int("x"), vp.Int("y")
	switch vp.Choose("what", 3) {
	case 0:
		b := newChunk(ctx, 1, 100, 2, 2)
		c1, c2 := b.Build(), b.Build()
		lin.Par(func() { c1.Add(x) }, func() { c2.Add(y) })
		vp.Settle()
		i, o := c1.Sizes()
		vp.Assert(i == 0 && o == 1, "each has its own item")
		a, b2 := <-c1.C(), <-c2.C()
		vp.Assert(len(a) == 1 && a[0] == x && len(b2) == 1 && b2[0] == y, "each has its own item")
	case 1:
		b := newShard(ctx, 1, 2, 2)
		s1, err1 := b.Build()
		s2, err2 := b.Build()
		vp.Assert(err1 == nil && err2 == nil, "no error")
		lin.Par(func() { s1.Add(msg{0, x}) }, func() { s2.Add(msg{0, y}) })
		vp.Settle()
		vp.Assert(s1.Sizes()[0] == 1 && s2.Sizes()[0] == 1, "each has its own item")
		a, b2 := <-s1.C(0), <-s2.C(0)
		vp.Assert(a.id == x && b2.id == y, "each has its own item")
	case 2:
		b := workers.NewRunner().WithContext(ctx).WithWorkerCount(1)
		r1, r2 := b.Build(), b.Build()
		gate := make(chan int)
		var ran [3]int
		f := func(i int) func() { return func() { vp.Ghost(func() { ran[i]++ }); <-gate } }
		g := func(i int) func(context.Context) { return func(context.Context) { f(i)() } }
		withCtx := vp.Choose("ctx", 2) == 1
		lin.Par(func() {
			if withCtx {
				r1.RunWithContext(g(0))
				r1.RunWithContext(g(1))
			} else {
				r1.Run(f(0))
				r1.Run(f(1))
			}
		}, func() {
			if withCtx {
				r2.RunWithContext(g(2))
			} else {
				r2.Run(f(2))
			}
		})
		vp.Settle()
		vp.Assert(ran == [3]int{1, 0, 1}, "each has its own functions and workers")
		for range 3 {
			gate <- 0
		}
		vp.Settle()
		vp.Assert(ran == [3]int{1, 1, 1}, "each runs its functions")
	}
	cancel()
}
