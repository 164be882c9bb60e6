package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Config of one exploration.
type Config struct {
	MaxInstr    int
	MapOrder    bool
	SelectFirst bool
	MergeDiff   int
	MaxStates   int
	MaxAdv      int
	Delay       int // at most so many deviations from the default schedule (-1: any)
	MaxLevel    int
	MaxThreads  int
	Budget      time.Duration
	Race        bool
}

// Hist: how a state was reached.
type Hist struct {
	a, b  *Hist // b != nil: join of two histories, a when g holds
	g     *Term
	kind  byte // 's' step of thread, 'a' time advance, 'q' settle
	key   string
	eager []string
}

type Finding struct {
	Kind, Msg, Key string
	model          *Model
	hist           *Hist
	key            string // thread running
	entry          string
	pos            string
	racePos        [2]string
}

func (h *Hist) path(m *Model) []*Hist {
	var out []*Hist
	for h != nil {
		if h.b != nil {
			if m.True(h.g) {
				h = h.a
			} else {
				h = h.b
			}
			continue
		}
		out = append(out, h)
		h = h.a
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) report(s *State, f Finding) {
	if e.conc != nil {
		e.concFindings = append(e.concFindings, f)
		return
	}
	f.model = s.model
	f.hist = s.hist
	f.key = e.stepKey
	for _, o := range e.findings {
		if o.Key == f.Key {
			o.n++
			if o.n > 4 {
				return
			}
			o.alt = append(o.alt, f)
			return
		}
	}
	e.findings = append(e.findings, &found{Finding: f, n: 1})
}

type found struct {
	Finding
	n   int
	alt []Finding
}

type stepRec struct {
	key string
	ext []*Term
	log []LogEnt
	rel []Rel
	acq []Acq
}

// drain runs the queued threads of a step. It returns a fork request, if any.
func (e *Engine) drain(s *State) (sig *forkSig) {
	defer func() {
		r := recover()
		switch p := r.(type) {
		case nil:
		case forkSig:
			sig = &p
		case infeasible:
			s.dead = true
		case unsupErr:
			e.unsupported(s, p.msg)
			s.dead = true
		case goPanic:
			e.report(s, Finding{Kind: "panic", Msg: "panic: " + p.desc, Key: "panic " + p.desc})
			s.dead = true
		default:
			panic(r)
		}
	}()
	for len(s.runq) > 0 && !s.dead && !s.mainDone {
		key := s.runq[0]
		e.curKey = key
		e.run(s, key)
		s.runq = s.runq[1:]
	}
	return nil
}

func (e *Engine) unsupported(s *State, msg string) {
	if e.conc != nil {
		e.concErr = msg
		return
	}
	where := ""
	if t := s.thread(e.curKey); t != nil && len(t.frames) > 0 {
		where = " in " + t.top().info.fn.String()
		func() {
			defer func() { recover() }()
			x := &X{e: e, s: s, t: t, f: t.top()}
			where += " at " + x.curPos()
		}()
	}
	e.unsupN++
	e.note("not encodable: " + msg + where)
}

// split applies a fork request: s continues on the side of its model, the returned state on the other.
func split(s *State, sig *forkSig) *State {
	o := s.clone()
	yes, no := sig.cond, Not(sig.cond)
	if !sig.mv {
		yes, no = no, yes
	}
	s.addPC(yes)
	o.addPC(no)
	o.model = sig.m
	if sig.mine != nil {
		s.model = sig.mine
	}
	return o
}

// over: the budget of time or memory is used up.
func (e *Engine) over() bool {
	if e.conc != nil || !e.exploring {
		return false
	}
	if e.stopped {
		return e.stopped
	}
	if e.polls++; e.polls%64 != 0 {
		return false
	}
	if time.Since(e.t0) > e.cfg.Budget {
		e.stopped = true
	} else if e.polls%4096 == 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		e.stopped = m.HeapAlloc > 6<<30
	}
	return e.stopped
}

// runAll executes a prepared step with all its forks.
func (e *Engine) runAll(s *State) []*State {
	work := []*State{s}
	var out []*State
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if e.over() {
			e.note("exploration stopped within a scheduling step: out of time or memory")
			e.truncated += len(work) + 1
			break
		}
		if sig := e.drain(st); sig != nil {
			o := split(st, sig)
			work = append(work, o, st)
			continue
		}
		out = append(out, st)
	}
	return out
}

// eagerRuns tries to run the first segment of new goroutines right away.
func (e *Engine) eagerRuns(s *State, only []string) *State {
	if e.conc != nil && only == nil {
		return s
	}
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.status != TStart {
			continue
		}
		if e.conc != nil {
			ok := false
			for _, k := range only {
				ok = ok || k == t.key
			}
			if !ok {
				continue
			}
		}
		c := s.clone()
		if e.tryEager(c, t.key) {
			s = c
			s.eagerOK = append(s.eagerOK[:len(s.eagerOK):len(s.eagerOK)], t.key)
		}
	}
	return s
}

func (e *Engine) tryEager(c *State, key string) (ok bool) {
	save := e.eagerLimit
	e.eagerLimit = ObjID(len(e.base) + len(c.objs))
	sp := e.concFindings
	defer func() {
		e.eagerLimit = save
		if r := recover(); r != nil {
			switch r.(type) {
			case eagerAbort, forkSig, unsupErr, infeasible, goPanic:
				ok = false
				e.concFindings = sp
			default:
				panic(r)
			}
		}
	}()
	t := c.mutThread(key)
	t.eager = true
	c.granted = key
	c.runq = nil
	e.run(c, key)
	if c.dead {
		return false
	}
	t = c.mutThread(key)
	if t == nil || t.status != TReady || len(c.runq) > 0 {
		return false
	}
	t.eager = false
	t.eagerRan = true
	return true
}

// finishStep ends a step: done threads are dropped.
func (e *Engine) finishStep(s *State) {
	var ts []*Thread
	for _, t := range s.threads {
		if t.status == TDone && len(t.fp) == 0 {
			continue
		}
		ts = append(ts, t)
	}
	s.threads = ts
	s.log, s.rels, s.acq, s.runq, s.granted, s.ninstr = nil, nil, nil, nil, "", 0
}

func (e *Engine) enabledThreads(s *State) (en []string, settle []string) {
	for _, t := range s.threads {
		if t.status == TReady && t.pend != nil && t.pend.name == "vpharness/vp.Settle" {
			settle = append(settle, t.key)
			continue
		}
		if e.enabled(s, t) {
			en = append(en, t.key)
		}
	}
	sort.Strings(en)
	return
}

// expand performs every possible step of s.
func (e *Engine) expand(s *State, emit func(*State)) {
	e.curKey, e.stepKey = "0", ""
	s.nchoice = 0
	s.eagerOK = nil
	en, settle := e.enabledThreads(s)
	if len(en) == 0 && len(settle) > 0 {
		en = settle[:1]
	}
	if len(en) == 0 {
		if len(s.timers) == 0 {
			e.deadlock(s)
			return
		}
		if s.advs >= e.cfg.MaxAdv {
			e.note(fmt.Sprintf("paths with more than %d time steps were cut", e.cfg.MaxAdv))
			e.truncated++
			return
		}
		work := []*State{s.clone()}
		for len(work) > 0 {
			st := work[len(work)-1]
			work = work[:len(work)-1]
			if sig := e.advance(st); sig != nil {
				o := split(st, sig)
				work = append(work, o, st)
				continue
			}
			if st.dead {
				continue
			}
			st = e.eagerRuns(st, nil)
			st.hist = &Hist{a: s.hist, kind: 'a', eager: st.eagerOK}
			e.finishStep(st)
			emit(st)
		}
		return
	}
	nb := ObjID(len(e.base) + len(s.objs))
	var recs []stepRec
	npc := len(s.pc)
	first := en
	if e.cfg.Delay >= 0 && s.delays >= e.cfg.Delay {
		first = en[:1]
	}
	for i, key := range first {
		e.stepKey = key
		st := s.clone()
		if i > 0 && e.cfg.Delay >= 0 {
			st.delays++
		}
		if len(en) > 1 {
			v := Var(fmt.Sprintf("s_%d", s.level), BV(16))
			id := e.thrID(key)
			st.addPC(Eq(v, BVc(16, uint64(id))))
			st.model = st.model.With(map[*Term]uint64{v: uint64(id)})
		}
		st.granted = key
		st.runq = []string{key}
		for _, o := range e.runAll(st) {
			e.steps++
			if o.dead {
				continue
			}
			if !e.noRace {
				if e.intraStep(o) {
					continue
				}
				recs = append(recs, stepRec{key, o.pc[npc:], o.log, o.rels, o.acq})
			}
			o = e.eagerRuns(o, nil)
			o.hist = &Hist{a: s.hist, kind: 's', key: key, eager: o.eagerOK}
			e.finishStep(o)
			emit(o)
		}
	}
	e.stepKey = ""
	if len(en) > 1 && !e.noRace {
		e.stepRaces(s, nb, recs)
	}
}

func (e *Engine) deadlock(s *State) {
	var w []string
	for _, t := range s.threads {
		if t.status == TReady && t.pend == nil && len(t.frames) == 0 {
			continue
		}
		if t.status == TDone {
			continue
		}
		x := &X{e: e, s: s, t: t}
		if len(t.frames) > 0 {
			x.f = t.top()
		}
		w = append(w, t.key+" at "+x.curPos())
	}
	mainPos := "?"
	if t := s.thread("0"); t != nil {
		x := &X{e: e, s: s, t: t}
		mainPos = x.userPos()
	}
	e.report(s, Finding{Kind: "deadlock", Msg: "every goroutine is blocked: " + strings.Join(w, "; "), Key: "deadlock " + mainPos})
}

// userPos: the innermost position inside the repository, else the innermost one.
func (x *X) userPos() string {
	for i := len(x.t.frames) - 1; i >= 0; i-- {
		f := x.t.frames[i]
		if f.idx < len(f.block.Instrs) {
			if p := f.block.Instrs[f.idx].Pos(); p.IsValid() {
				ps := x.e.pos(p)
				if !strings.Contains(ps, "/go/") && !strings.HasPrefix(ps, "/") {
					return ps
				}
			}
		}
	}
	return x.curPos()
}

// advance moves time to the next deadline and fires what is due.
func (e *Engine) advance(s *State) (sig *forkSig) {
	defer func() {
		r := recover()
		switch p := r.(type) {
		case nil:
		case forkSig:
			sig = &p
		case infeasible:
			s.dead = true
		case unsupErr:
			e.unsupported(s, p.msg)
			s.dead = true
		default:
			panic(r)
		}
	}()
	min := s.obj(s.timers[0]).deadline
	for _, id := range s.timers[1:] {
		d := s.obj(id).deadline
		if d != min && e.decide(s, Cmp(OSlt, d, min)) {
			min = d
		}
	}
	var due []ObjID
	for _, id := range s.timers {
		d := s.obj(id).deadline
		if d == min || e.decide(s, Cmp(OSle, d, min)) {
			due = append(due, id)
		}
	}
	s.now = min
	s.advs++
	s.quiesce("")
	for _, id := range due {
		e.fireTimer(s, id)
	}
	return nil
}

func (s *State) quiesce(except string) {
	for _, t := range s.threads {
		if t.key == except {
			continue
		}
		t = s.mutThread(t.key)
		t.fp = nil
		t.virgin = false
		t.spawnedNow = false
		t.eagerRan = false
		t.tail = false
		t.firm = true
	}
}

func (e *Engine) thrID(key string) int {
	if i, ok := e.thr[key]; ok {
		return i
	}
	i := len(e.thr)
	e.thr[key] = i
	if i > 65535 {
		panic("internal: too many goroutine identities")
	}
	return i
}

// stepRaces compares the accesses of steps that are enabled in the same state.
func (e *Engine) stepRaces(s *State, nb ObjID, recs []stepRec) {
	for i := range recs {
		for j := 0; j < i; j++ {
			a, b := &recs[i], &recs[j]
			if a.key == b.key {
				continue
			}
			for _, la := range a.log {
				if la.fp.Obj >= nb {
					continue
				}
				for _, lb := range b.log {
					if la.fp.Obj != lb.fp.Obj || la.thr == lb.thr || !conflict(la.fp.Kind, lb.fp.Kind) || !overlap(la.fp.Path, lb.fp.Path) {
						continue
					}
					if orderedAfter(lb.thr, lb.fp.Spawn, la.thr) || orderedAfter(la.thr, la.fp.Spawn, lb.thr) {
						continue
					}
					cov := func(l LogEnt, r []Rel, own, acq []Acq) bool {
						for _, q := range acq {
							if covered(l, r, q) || holds(l, r, own, q) {
								return true
							}
						}
						return false
					}
					if cov(la, a.rel, a.acq, b.acq) && cov(lb, b.rel, b.acq, a.acq) {
						continue
					}
					k := raceKey(la.fp.Pos, lb.fp.Pos)
					if e.raceSeen[k] {
						continue
					}
					pre1, pre2 := fmt.Sprintf("s_%d", s.level), fmt.Sprintf("c_%d_", s.level)
					var ext []*Term
					for _, t := range append(append([]*Term(nil), a.ext...), b.ext...) {
						keep := true
						for _, v := range t.Vars() {
							if v.name == pre1 || strings.HasPrefix(v.name, pre2) {
								keep = false
							}
						}
						if keep {
							ext = append(ext, t)
						}
					}
					r, m := e.sat(s, And(ext...))
					if r != Sat {
						continue
					}
					e.raceSeen[k] = true
					sv := s.model
					s.model = m
					e.curKey = la.thr
					e.reportRace(s, la.fp.Obj, la.fp.Kind, la.fp.Pos, lb.fp.Kind, lb.fp.Pos)
					s.model = sv
				}
			}
		}
	}
}

func raceKey(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + " / " + b
}

func hashStr(s string) string {
	h := sha256.Sum256([]byte(s))
	return string(h[:20])
}

type seenState struct {
	advs   int
	delays int
	cons   []string
}

type bucket struct {
	s *State
	t []*Term
}

// explore performs the breadth-first symbolic exploration of all schedules.
func (e *Engine) explore(init *State) {
	t0 := time.Now()
	e.t0 = t0
	init.level = 0
	frontier := []*State{init}
	visited := map[string][]seenState{}
	verbose := os.Getenv("GOSMT_V") != ""
	for level := 0; len(frontier) > 0; level++ {
		if level > e.cfg.MaxLevel {
			e.note(fmt.Sprintf("executions longer than %d scheduling steps were cut", e.cfg.MaxLevel))
			e.truncated += len(frontier)
			return
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "level %d: %d states, %d steps, %d merges, %d queries, %v\n", level, len(frontier), e.steps, e.merges, e.solver.Queries, time.Since(t0).Round(time.Millisecond))
		}
		next := map[string][]bucket{}
		var order []string
		n := 0
		emit := func(s *State) {
			if s.mainDone {
				e.pathDone(s)
				return
			}
			s.level = level + 1
			s.eagerOK = nil
			key, cons := e.alpha(s)
			for _, v := range visited[key] {
				if v.advs <= s.advs && v.delays <= s.delays && subset(v.cons, cons) {
					e.pruned++
					return
				}
			}
			visited[key] = append(visited[key], seenState{s.advs, s.delays, cons})
			var sh string
			var ts []*Term
			if e.cfg.MergeDiff > 0 {
				sh, ts = e.canonical(s)
				sh = hashStr(sh)
			}
			bs := next[sh]
			for i := range bs {
				if e.cfg.MergeDiff == 0 {
					break
				}
				if m, mt := e.tryMerge(bs[i].s, s, bs[i].t, ts); m != nil {
					m.level = level + 1
					m.hist = &Hist{a: bs[i].s.hist, b: s.hist, g: e.mergeGuard(bs[i].s, s)}
					bs[i] = bucket{m, mt}
					return
				}
			}
			if len(bs) == 0 {
				order = append(order, sh)
			}
			next[sh] = append(bs, bucket{s, ts})
			n++
		}
		for i, s := range frontier {
			if e.states >= e.cfg.MaxStates || e.over() {
				e.note(fmt.Sprintf("exploration stopped after %d states (%d scheduling steps deep)", e.states, level))
				e.truncated += len(frontier) - i
				return
			}
			e.states++
			e.expand(s, emit)
			frontier[i] = nil
		}
		frontier = frontier[:0:0]
		for _, sh := range order {
			for _, b := range next[sh] {
				frontier = append(frontier, b.s)
			}
		}
		if level > e.maxLevel {
			e.maxLevel = level
		}
	}
}

// mergeGuard: the condition distinguishing a from b.
func (e *Engine) mergeGuard(a, b *State) *Term {
	inB := map[int]bool{}
	for _, t := range b.pc {
		inB[t.id] = true
	}
	var ra []*Term
	for _, t := range a.pc {
		if !inB[t.id] {
			ra = append(ra, t)
		}
	}
	return And(ra...)
}

func (e *Engine) pathDone(s *State) {
	e.paths++
	if e.paths <= 4 || (e.paths%97 == 0 && len(e.samples) < 8) {
		e.samples = append(e.samples, &pathSample{model: s.model, hist: s.hist, obs: s.obs, obsN: s.obsN})
	}
}

type pathSample struct {
	model *Model
	hist  *Hist
	obs   []Value
	obsN  []string
}

// concrete re-executes one path under a model and a history. It returns the final state.
func (e *Engine) concrete(init *State, m *Model, h *Hist, extra string) *State {
	e.conc = m
	e.concFindings = nil
	e.concErr = ""
	defer func() { e.conc = nil }()
	s := init.clone()
	s.model = m
	s.steps = nil
	steps := h.path(m)
	if extra != "" {
		steps = append(steps, &Hist{kind: 's', key: extra})
	}
	for i, st := range steps {
		s.level = i
		s.nchoice = 0
		s.eagerOK = nil
		s.opKind = ""
		if st.kind == 'a' {
			if len(s.timers) == 0 {
				e.concErr = "no timer to fire"
				return s
			}
			e.advance(s)
			s.steps = append(s.steps, Step{Kind: "advance", Adv: s.now})
		} else {
			pos := ""
			if t := s.thread(st.key); t != nil {
				pos = (&X{e: e, s: s, t: t}).curPos()
			} else {
				e.concErr = "thread " + st.key + " does not exist"
				return s
			}
			s.granted = st.key
			s.runq = []string{st.key}
			if sig := e.drain(s); sig != nil {
				e.concErr = "fork in concrete mode"
				return s
			}
			s.steps = append(s.steps, Step{Thread: st.key, Kind: s.opKind, Pos: pos})
		}
		if s.dead || s.mainDone || e.concErr != "" || len(e.concFindings) > 0 {
			return s
		}
		s = e.eagerRuns(s, st.eager)
		e.finishStep(s)
	}
	return s
}
