package chans

import (
	"context"

	"github.com/axgrid/axutils/workers"
	"vpharness/lin"
	"vpharness/vp"
)

// count of the executions of each function, and of those running.
type tally struct {
	runs         [6]int
	now, highest int
}

func (t *tally) begin(i int) {
	vp.Ghost(func() {
		t.runs[i]++
		t.now++
		t.highest = max(t.highest, t.now)
	})
}
func (t *tally) end() { vp.Ghost(func() { t.now-- }) }

// submit hands function i to the runner in one of the two ways.
func submit(r *workers.Runner, t *tally, ctx context.Context, i int, withCtx bool, body func()) {
	f := func() {
		t.begin(i)
		body()
		t.end()
	}
	if withCtx {
		r.RunWithContext(func(c context.Context) {
			vp.Assert(c == ctx, "the context variant receives the runner's context")
			f()
		})
	} else {
		r.Run(f)
	}
}

// One to three workers, two submitters with two and one functions of either variant that yield while running: each
// runs exactly once, never more of them at a time than workers.
//
//vp:check W01,W02,T01
func RunnerPar() { runnerPar(2, 1, 3) }

// Three and two functions.
//
//vp:check W01,W02
func RunnerPar32() { runnerPar(3, 2, 2) }

func runnerPar(n1, n2, workersMax int) {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("workers", workersMax)
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	t := &tally{}
	c1, c2 := vp.Choose("ctx", 2) == 1, vp.Choose("ctx", 2) == 1
	lin.Par(func() {
		for i := range n1 {
			submit(r, t, ctx, i, c1 != (i > 0), vp.Yield)
		}
	}, func() {
		for i := range n2 {
			submit(r, t, ctx, n1+i, c2, vp.Yield)
		}
	})
	vp.Settle()
	for i := range n1 + n2 {
		vp.Assert(t.runs[i] == 1, "every function is executed exactly once")
	}
	vp.Assert(t.highest <= n, "never more functions at the same time than workers")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}

// One to three workers and up to five functions that block until they are released one by one: as many run at the
// same time as there are workers, the others later; then the context ends.
//
//vp:check W01,W02
func RunnerBusy() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("workers", 3)
	k := 1 + vp.Choose("functions", 5)
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	t := &tally{}
	gate := make(chan int)
	for i := range k {
		submit(r, t, ctx, i, vp.Choose("ctx", 2) == 1, func() { <-gate })
	}
	vp.Settle()
	done := 0
	for {
		vp.Assert(t.now == min(n, k-done), "as many functions run at the same time as there are workers")
		if done == k {
			break
		}
		gate <- 0
		done++
		vp.Settle()
	}
	for i := range k {
		vp.Assert(t.runs[i] == 1, "every function is executed exactly once")
	}
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}

// Functions of arbitrary durations: three of them on one or two workers; everything is done when the sum of the
// durations has passed.
//
//vp:check W01,W02 adv=40
func RunnerTimes() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("workers", 2)
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	t := &tally{}
	sum := 0
	for i := range 3 {
		d := vp.IntRange("d", 0, 1000)
		sum += d
		submit(r, t, ctx, i, i == 1, func() { sleep(d) })
	}
	sleep(sum)
	vp.Settle()
	for i := range 3 {
		vp.Assert(t.runs[i] == 1, "every function is executed exactly once")
	}
	vp.Assert(t.now == 0 && t.highest <= n, "no more functions at the same time than workers")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}

// One or two workers, up to three functions submitted, one or two of which block until released; the context is
// cancelled at an arbitrary point and the functions released then: nothing is left running, nothing runs twice.
//
//vp:check W02,T01
func RunnerCancel() {
	ctx, cancel := context.WithCancel(context.Background())
	n := 1 + vp.Choose("workers", 2)
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(n).Build()
	t := &tally{}
	gate := make(chan int)
	k := vp.Choose("functions", 4)
	c := vp.Choose("ctx", 2) == 1
	go func() {
		for i := range k {
			submit(r, t, ctx, i, c, func() { <-gate })
		}
	}()
	vp.Yield()
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == t.now, "only workers that run a function are left")
	close(gate)
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
	for i := range k {
		vp.Assert(t.runs[i] <= 1, "no function is executed twice")
	}
}

// One worker that is busy while 110 functions of one variant are submitted, more than fit into the queue: all of them
// run once it is free.
//
//vp:check W01 instr=4000000 level=8000
func RunnerFull() {
	ctx, cancel := context.WithCancel(context.Background())
	r := workers.NewRunner().WithContext(ctx).WithWorkerCount(1).Build()
	gate := make(chan int)
	n, c := 0, vp.Choose("ctx", 2) == 1
	go func() {
		for i := range 110 {
			f := func() {
				if i == 0 {
					<-gate
				}
				n++
			}
			if c {
				r.RunWithContext(func(context.Context) { f() })
			} else {
				r.Run(f)
			}
		}
	}()
	vp.Settle()
	close(gate)
	vp.Settle()
	vp.Assert(n == 110, "every function is executed exactly once, also when the queue was full")
	cancel()
	vp.Settle()
	vp.Assert(vp.Goroutines() == 0, "the workers end with the context")
}
