package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Entry: one harness function attached to a property.
type Entry struct {
	Prop, Pkg, Fn, Opts, Doc string
}

func (n Entry) name() string { return n.Pkg + "." + n.Fn }

func findEntries(dir, prop, tier string) ([]Entry, error) {
	var out []Entry
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		src, err := os.ReadFile(p)
		if err != nil || !bytes.Contains(src, []byte("//vp:check")) {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				r, ok := strings.CutPrefix(c.Text+" ", "//vp:check ")
				if !ok {
					continue
				}
				ids, opts, _ := strings.Cut(strings.TrimSpace(r), " ")
				o := parseOpts(opts)
				if o.has("thorough") && tier != "thorough" || o.has("quick") && tier != "quick" {
					continue
				}
				for _, id := range strings.Split(ids, ",") {
					if id == prop || prop == "" {
						out = append(out, Entry{id, "vpharness/" + filepath.ToSlash(rel), fd.Name.Name, opts, strings.Join(strings.Fields(fd.Doc.Text()), " ")})
					}
				}
			}
		}
		return nil
	})
	return out, err
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Entry    string `json:"entry"`
	Kind     string `json:"kind"`
	Match    string `json:"match"` // substring of the finding's key
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(file string) ([]Known, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var k []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var x Known
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			return nil, err
		}
		k = append(k, x)
	}
	return k, nil
}

func runCheck(dir string, args []string) int {
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosmt PROPERTY quick|thorough")
		return 2
	}
	prop, tier := args[0], args[1]
	only := ""
	if len(args) > 2 {
		only = args[2]
	}
	t0 := time.Now()
	verif := filepath.Dir(dir)
	entries, err := findEntries(dir, prop, tier)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if only != "" {
		var n []Entry
		for _, x := range entries {
			if x.Fn == only {
				n = append(n, x)
			}
		}
		entries = n
	}
	if len(entries) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	known, err := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	total := 300 * time.Second
	if tier == "thorough" {
		total = 780 * time.Second
	}
	confirmLimit := 30 * time.Second
	nat := newNative(dir)
	defer nat.close()
	results := make([]*WResult, len(entries))
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, en := range entries {
		wg.Add(1)
		go func(i int, en Entry) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			o := parseOpts(en.Opts)
			opts := en.Opts
			if !o.has("budget") {
				b := 150
				if tier == "thorough" {
					b = 600
				}
				opts += fmt.Sprintf(" budget=%d", b)
			}
			if tier == "thorough" {
				opts += " thorough-tier"
			}
			ctx, cancel := context.WithTimeout(context.Background(), total)
			defer cancel()
			results[i] = spawnWorker(ctx, dir, en, opts)
		}(i, en)
	}
	wg.Wait()
	exit := 0
	violations := 0
	validated, notValidated := 0, 0
	type rep struct {
		en Entry
		f  WFinding
		nr NativeResult
	}
	var notes []string
	var lines []string
	nrep := 0
	seen := map[string]bool{}
	usable := 0
	for i, r := range results {
		en := entries[i]
		if r.Err != "" {
			notes = append(notes, en.Fn+": not analysed: "+r.Err)
			continue
		}
		if r.Paths > 0 || len(r.Findings) > 0 {
			usable++
		}
		for n, c := range r.Notes {
			if strings.HasPrefix(n, "initialiser of ") {
				continue
			}
			notes = append(notes, fmt.Sprintf("%s: %s (%d)", en.Fn, n, c))
		}
		for _, f := range r.Findings {
			id := en.Fn + " " + f.Key
			if seen[id] {
				continue
			}
			seen[id] = true
			if k := matchKnown(known, prop, en, f); k != nil {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k.What))
				continue
			}
			if violations >= 6 || violations > 0 && time.Since(t0) > total/2 || violations > 0 && f.Kind == "race" && strings.Count(f.Key, "harness/") >= 2 {
				notes = append(notes, fmt.Sprintf("%s: further solver counterexample, not replayed: %s: %s", en.Fn, f.Kind, f.Msg))
				continue
			}
			nr := nat.confirm(en, f, confirmLimit)
			nrep++
			path := filepath.Join(verif, "evidence", "replays", fmt.Sprintf("%s-%d.json", prop, nrep))
			os.MkdirAll(filepath.Dir(path), 0o755)
			b, _ := json.MarshalIndent(map[string]any{"property": prop, "entry": en.name(), "finding": f, "native": nr}, "", " ")
			os.WriteFile(path, b, 0o644)
			if nr.Confirmed {
				violations++
				exit = 1
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
				lines = append(lines, fmt.Sprintf("  %s: %s: %s", en.Fn, f.Kind, f.Msg), "  replayed against the compiled code: "+oneLine(nr.Detail))
			} else {
				notes = append(notes, fmt.Sprintf("%s: solver counterexample not confirmed by the compiled code and therefore not reported (%s: %s; %s; engine: %s)", en.Fn, f.Kind, f.Msg, nr.Detail, f.Confirmed))
			}
		}
	}
	// a few satisfiable complete paths, compared with the compiled code
	if violations == 0 {
		for i, r := range results {
			if r.Err != "" {
				continue
			}
			for k, tr := range r.Samples {
				if k >= 2 || time.Since(t0) > total/2 {
					break
				}
				ok, detail := nat.validate(entries[i], tr)
				if ok {
					validated++
				} else {
					notValidated++
					notes = append(notes, fmt.Sprintf("%s: sample path differs from the compiled code: %s", entries[i].Fn, detail))
				}
			}
		}
	}
	sort.Strings(lines)
	lines = dedupe(lines, violations > 0)
	for _, l := range lines {
		fmt.Println(l)
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	writeEvidence(verif, prop, tier, entries, results, notes, validated, notValidated, violations, time.Since(t0))
	tp, ts := 0, 0
	for _, r := range results {
		tp += r.Paths
		ts += r.States
	}
	fmt.Printf("%s %s: %d harnesses, %d states, %d complete paths, %d sample paths agree with the compiled code, %d violations, %.1fs\n", prop, tier, len(entries), ts, tp, validated, violations, time.Since(t0).Seconds())
	if exit == 0 && usable == 0 && len(lines) == 0 {
		fmt.Println("nothing could be analysed")
		return 2
	}
	return exit
}

func dedupe(l []string, keepOrder bool) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func matchKnown(ks []Known, prop string, en Entry, f WFinding) *Known {
	for i := range ks {
		k := &ks[i]
		if k.Status == "known" && k.Property == prop && (k.Entry == "" || k.Entry == en.Fn) && (k.Kind == "" || k.Kind == f.Kind) && strings.Contains(f.Key, k.Match) {
			return k
		}
	}
	return nil
}

func spawnWorker(ctx context.Context, dir string, en Entry, opts string) *WResult {
	self, err := os.Executable()
	if err != nil {
		return &WResult{Entry: en.name(), Err: err.Error()}
	}
	cmd := exec.CommandContext(ctx, self, "-harness", dir, "-worker", en.name(), "-opts", opts)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	r := &WResult{}
	if e := json.Unmarshal(out.Bytes(), r); e != nil {
		tail := errb.String()
		if len(tail) > 1500 {
			tail = tail[:1500]
		}
		if ctx.Err() != nil {
			tail = "time limit"
		}
		return &WResult{Entry: en.name(), Err: fmt.Sprintf("worker failed: %v %s", err, tail)}
	}
	if os.Getenv("GOSMT_V") != "" {
		os.Stderr.Write(errb.Bytes())
	}
	return r
}

func writeEvidence(verif, prop, tier string, entries []Entry, rs []*WResult, notes []string, validated, notValidated, violations int, wall time.Duration) {
	enc := map[string]bool{}
	asserted := map[string]int{}
	var st, tr, paths, queries, satn, unsatn, unk, hits, coreHits, modelHits, asserts, merges, trunc, unsup int
	var solver, maxq float64
	var samples []any
	var ents []any
	for i, r := range rs {
		for _, f := range r.Encoded {
			enc[f] = true
		}
		for a, n := range r.Asserted {
			asserted[a] += n
		}
		st += r.States
		tr += r.Steps
		paths += r.Paths
		queries += r.Queries
		hits += r.CacheHits
		coreHits += r.CoreHits
		modelHits += r.ModelHits
		satn += r.SatN
		unsatn += r.UnsatN
		unk += r.UnknownN
		asserts += r.Asserts
		merges += r.Merges
		trunc += r.Truncated
		unsup += r.Unsup
		solver += r.SolverSec
		maxq = max(maxq, r.MaxQuerySec)
		for k, s := range r.Samples {
			if k < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": entries[i].Fn, "inputs": s.Inputs, "steps": s.Steps, "observed": s.Obs})
			}
		}
		ents = append(ents, map[string]any{"harness": entries[i].name(), "bounds": entries[i].Doc, "options": entries[i].Opts, "states": r.States, "transitions": r.Steps, "complete_paths": r.Paths, "deepest_level": r.MaxLevel, "truncated": r.Truncated, "not_encodable": r.Unsup, "error": r.Err, "explore_s": r.ExploreSec, "solver_s": r.SolverSec, "queries": r.Queries})
	}
	var repoFns, otherFns []string
	for f := range enc {
		switch {
		case strings.Contains(f, "github.com/axgrid/axutils"):
			repoFns = append(repoFns, f)
		case strings.Contains(f, "vpharness/"):
		default:
			otherFns = append(otherFns, f)
		}
	}
	sort.Strings(repoFns)
	sort.Strings(otherFns)
	if samples == nil {
		samples = []any{"no complete path"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]any{
			"states": st, "transitions": tr, "traces_validated_against_impl": validated, "samples": samples,
			"sample_paths_not_matching": notValidated,
			"explanation":               "Symbolic execution of the SSA form of the real source (regenerated from /repo in this run); inputs, durations, nondeterministic choices and the schedule are symbolic; states with equal shape are merged; every branch and assertion is decided by the SMT solver (z3).",
			"complete_paths":            paths, "states_merged": merges, "assertions_checked": asserts, "assertion_messages": asserted,
			"functions_encoded_repo": repoFns, "functions_encoded_std": otherFns,
			"solver_queries": queries, "solver_cache_hits": hits, "solver_decided_by_earlier_core": coreHits, "solver_decided_by_earlier_model": modelHits, "solver_sat": satn, "solver_unsat": unsatn, "solver_unknown": unk, "solver_s": solver, "solver_max_query_s": maxq,
			"truncated_paths": trunc, "paths_not_encodable": unsup, "harnesses": ents, "notes": notes,
			"exhaustive": trunc == 0 && unsup == 0 && unk == 0,
		},
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

var assumptions = []string{
	"Go semantics as implemented by the engine's interpretation of golang.org/x/tools/go/ssa; sequentially consistent memory, with data races reported separately",
	"time advances only when no goroutine can run (testing/synctest semantics), so code takes no time",
	"standard-library functions listed in harness/model are replaced by models (context, sync.Map, cond, gob, gzip, AES-GCM, file system, randomness); logging has no effect",
	"bounds (numbers of operations, goroutines, elements) are those stated per harness",
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}
