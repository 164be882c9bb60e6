package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	worker := flag.String("worker", "", "explore one harness function pkg.Func and print a JSON result")
	opts := flag.String("opts", "", "options of the harness function")
	dir := flag.String("harness", "/verif/harness", "harness module")
	flag.Parse()
	if *worker != "" {
		runWorker(*dir, *worker, *opts)
		return
	}
	os.Exit(runCheck(*dir, flag.Args()))
}

// WResult is what a worker reports.
type WResult struct {
	Entry        string
	Err          string
	Paths        int
	States       int
	Steps        int
	Merges       int
	Pruned       int
	Truncated    int
	Unsup        int
	Instrs       int
	Asserts      int
	MaxLevel     int
	Asserted     map[string]int
	Reached      map[string]int
	Notes        map[string]int
	Encoded      []string
	Queries      int
	CacheHits    int
	CoreHits     int
	ModelHits    int
	SatN         int
	UnsatN       int
	UnknownN     int
	SolverSec    float64
	MaxQuerySec  float64
	SolverErrors []string
	LoadSec      float64
	ExploreSec   float64
	Findings     []WFinding
	Samples      []WTrace
}

type WInput struct {
	Name string
	Occ  int
	Kind string
	Val  uint64
}
type WStep struct {
	Thread string
	Kind   string
	Pos    string
	Adv    int64
}
type WObs struct {
	Name string
	Val  string
}
type WTrace struct {
	Inputs []WInput
	Steps  []WStep
	Obs    []WObs
	Now    int64
}
type WFinding struct {
	Kind, Msg, Key string
	Confirmed      string // result of the concrete re-execution inside the engine
	Trace          WTrace
	Alt            []WTrace
}

type Opts struct {
	m map[string]string
}

func parseOpts(s string) Opts {
	o := Opts{map[string]string{}}
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		o.m[k] = v
	}
	return o
}
func (o Opts) has(k string) bool { _, ok := o.m[k]; return ok }
func (o Opts) int(k string, d int) int {
	if _, ok := o.m["thorough-tier"]; ok { // t.x=N is the value of x in the thorough tier
		if v, ok := o.m["t."+k]; ok {
			var n int
			fmt.Sscan(v, &n)
			return n
		}
	}
	if v, ok := o.m[k]; ok {
		var n int
		fmt.Sscan(v, &n)
		return n
	}
	return d
}

func runWorker(dir, entry, opts string) {
	res := &WResult{Entry: entry}
	defer func() {
		b, _ := json.Marshal(res)
		os.Stdout.Write(b)
		os.Stdout.Write([]byte("\n"))
	}()
	i := strings.LastIndex(entry, ".")
	pkg, fname := entry[:i], entry[i+1:]
again:
	t0 := time.Now()
	e, sp, err := Load(dir, pkg)
	if err != nil {
		res.Err = err.Error()
		return
	}
	res.LoadSec = time.Since(t0).Seconds()
	fn := sp.Func(fname)
	if fn == nil {
		res.Err = "no function " + entry
		return
	}
	o := parseOpts(opts)
	e.cfg = Config{MaxInstr: o.int("instr", 400000), MapOrder: o.has("maporder"), SelectFirst: o.has("selectfirst"), MergeDiff: o.int("merge", 0),
		MaxStates: o.int("states", 2000000), MaxAdv: o.int("adv", 40), Delay: o.int("delay", -1), MaxLevel: o.int("level", 400), MaxThreads: o.int("threads", 40), Budget: time.Duration(o.int("budget", 60)) * time.Second}
	e.noRace = o.has("norace")
	e.solver = NewSolver(o.int("qtimeout", 20000))
	defer e.solver.Close()
	init, err := e.initState(fn)
	if err != nil {
		res.Err = err.Error()
		return
	}
	t1 := time.Now()
	e.absTime, e.stale, e.exploring = forceAbs, forceStale, true
	if !e.tryExplore(init) {
		e.solver.Close()
		goto again
	}
	res.ExploreSec = time.Since(t1).Seconds()
	e.fill(res)
	for _, f := range e.findings {
		res.Findings = append(res.Findings, e.traceFinding(init, f))
	}
	for _, s := range e.samples {
		st := e.concrete(init, s.model, s.hist, "")
		if e.concErr != "" || len(e.concFindings) > 0 {
			e.note("sample path could not be re-executed: " + e.concErr)
			continue
		}
		tr := e.trace(st, s.model)
		res.Samples = append(res.Samples, tr)
	}
	res.Notes = e.notes
}

func (e *Engine) tryExplore(init *State) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(restartSig); !is {
				panic(r)
			}
		}
	}()
	e.explore(init)
	return true
}

func (e *Engine) fill(res *WResult) {
	res.Paths, res.States, res.Steps, res.Merges, res.Pruned, res.Truncated = e.paths, e.states, e.steps, e.merges, e.pruned, e.truncated
	res.Unsup, res.Instrs, res.Asserts, res.MaxLevel = e.unsupN, e.instrs, e.asserts, e.maxLevel
	res.Asserted, res.Reached = e.asserted, e.reached
	for f := range e.encoded {
		res.Encoded = append(res.Encoded, f)
	}
	sort.Strings(res.Encoded)
	s := e.solver
	res.Queries, res.CacheHits, res.SatN, res.UnsatN, res.UnknownN = s.Queries, s.CacheHits, s.SatN, s.UnsatN, s.UnknownN
	res.CoreHits, res.ModelHits = s.CoreHits, s.ModelHits
	res.SolverSec, res.MaxQuerySec = s.Time.Seconds(), s.MaxTime.Seconds()
	res.SolverErrors = s.Errors
}

func (e *Engine) traceFinding(init *State, f *found) WFinding {
	st := e.concrete(init, f.model, f.hist, f.key)
	w := WFinding{Kind: f.Kind, Msg: f.Msg, Key: f.Key}
	switch {
	case f.Kind == "deadlock" || f.Kind == "race":
		w.Confirmed = "path re-executed"
		if e.concErr != "" {
			w.Confirmed = "no: " + e.concErr
		}
		if f.Kind == "deadlock" {
			// the last state must be stuck
			if en, se := e.enabledThreads(st); len(en)+len(se) > 0 || len(st.timers) > 0 {
				w.Confirmed = "no: not stuck"
			}
		}
	case e.concErr != "":
		w.Confirmed = "no: " + e.concErr
	default:
		w.Confirmed = "no"
		for _, c := range e.concFindings {
			if c.Key == f.Key {
				w.Confirmed = "yes"
			}
		}
	}
	w.Trace = e.trace(st, f.model)
	for _, a := range f.alt {
		s2 := e.concrete(init, a.model, a.hist, a.key)
		w.Alt = append(w.Alt, e.trace(s2, a.model))
	}
	return w
}

func (e *Engine) trace(s *State, m *Model) WTrace {
	var t WTrace
	for v, in := range e.inputs {
		if strings.HasPrefix(in.Name, "~") {
			continue
		}
		t.Inputs = append(t.Inputs, WInput{in.Name, in.Occ, in.Kind, m.Eval(v)})
	}
	sort.Slice(t.Inputs, func(i, j int) bool {
		a, b := t.Inputs[i], t.Inputs[j]
		if a.Name != b.Name {
			return a.Name < b.Name
		}
		return a.Occ < b.Occ
	})
	for _, st := range s.steps {
		w := WStep{Thread: st.Thread, Kind: st.Kind, Pos: st.Pos}
		if st.Adv != nil {
			w.Adv = int64(m.Eval(st.Adv))
		}
		t.Steps = append(t.Steps, w)
	}
	for i, o := range s.obs {
		val := "?"
		if x, ok := o.(*Term); ok {
			val = fmt.Sprint(sext(m.Eval(x), x.sort.W))
			if x.sort.K == KBool {
				val = fmt.Sprint(m.Eval(x) == 1)
			}
		}
		t.Obs = append(t.Obs, WObs{s.obsN[i], val})
	}
	t.Now = int64(m.Eval(s.now))
	return t
}
