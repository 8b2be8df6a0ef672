package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Run is one harness of a check with its bounds.
type Run struct {
	H      string         // dir.Func below /verif/harness
	P      map[string]int // bounds (quick; also the base of thorough)
	T      map[string]int // overrides in the thorough tier
	Steps  int64          // interpreter step bound per path (unwinding bound)
	TSteps int64
	Q      int      // quick time budget, seconds
	TT     int      // thorough time budget, seconds
	Reach  []string // vacuity witnesses: labels some path must reach
	Only   string   // "" | "quick" | "thorough"
	Bound  string   // what the bounds mean
}

type Check struct {
	ID      string
	Runs    []Run
	Assume  []string // modelling assumptions
	Outside string   // what lies outside the bounds
}

func (c *Check) cli() bool { return strings.HasPrefix(c.Runs[0].H, "c_") }

type outcome struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []Obs    `json:"obs"`
	Reach  []string `json:"reach"`
	Alloc  uint64   `json:"alloc"`
}

type job struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []Input        `json:"inputs"`
}

// native is the same harness code compiled with the real toolchain.
type native struct {
	bin     string
	scratch string
	ready   chan struct{}
	err     error
	n       int
	mu      sync.Mutex
	race    *native // the same with the race detector
	raceMk  func() *native
	env     []string
}

func harnessDirs(c *Check) []string {
	m := map[string]bool{}
	for _, r := range c.Runs {
		m[r.H[:strings.LastIndex(r.H, ".")]] = true
	}
	return sortedKeys(m)
}

func buildNative(c *Check, scratch string, flags ...string) *native {
	n := &native{scratch: scratch, ready: make(chan struct{}), bin: filepath.Join(scratch, "runner")}
	n.raceMk = func() *native {
		dir := filepath.Join(scratch, "race")
		os.MkdirAll(dir, 0o755)
		r := buildNative(c, dir, "-race")
		r.env = []string{"GORACE=halt_on_error=1 exitcode=66"}
		return r
	}
	go func() {
		defer close(n.ready)
		var b bytes.Buffer
		fmt.Fprintf(&b, "package main\n\nimport (\n\tverif %q\n", modPath+"/internal/zzverif/verif")
		for _, d := range harnessDirs(c) {
			fmt.Fprintf(&b, "\t%s %q\n", d, pkgOf(d))
		}
		b.WriteString(")\n\nfunc main() {\n")
		if c.cli() {
			fmt.Fprintf(&b, "\tverif.ToolMain(%s.Tools)\n", harnessDirs(c)[0])
		}
		b.WriteString("\tverif.NativeMain(map[string]func(){\n")
		seen := map[string]bool{}
		for _, r := range c.Runs {
			if !seen[r.H] {
				seen[r.H] = true
				fmt.Fprintf(&b, "\t\t%q: %s,\n", r.H, r.H)
			}
		}
		b.WriteString("\t})\n}\n")
		src := filepath.Join(scratch, "runner_main.go")
		if n.err = os.WriteFile(src, b.Bytes(), 0o644); n.err != nil {
			return
		}
		dst := filepath.Join(repoDir, "internal", "zzverif", "runner", "main.go")
		pkg := modPath + "/internal/zzverif/runner"
		if c.cli() {
			dst = filepath.Join(repoDir, "cli", "internal", "zzverif", "runner", "main.go")
			pkg = modPath + "/cli/internal/zzverif/runner"
		}
		ov := filepath.Join(scratch, "overlay.json")
		if n.err = writeOverlayFile(ov, map[string]string{dst: src}); n.err != nil {
			return
		}
		sub := filepath.Join(scratch, "nat")
		os.MkdirAll(sub, 0o755)
		mf, err := modFlag(c.cli(), sub)
		if err != nil {
			n.err = err
			return
		}
		args := append([]string{"build", "-overlay", ov, mf, "-o", n.bin}, flags...)
		cmd := exec.Command("go", append(args, pkg)...)
		cmd.Dir = moduleDir(c.cli())
		cmd.Env = goEnv()
		if len(flags) > 0 {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return n
}

// run executes jobs in one process; a missing outcome means the process died
// or timed out at that job.
func (n *native) run(jobs []job, timeout time.Duration) (outs []outcome, timedOut bool, tail string, err error) {
	<-n.ready
	if n.err != nil {
		return nil, false, "", n.err
	}
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	in := filepath.Join(n.scratch, fmt.Sprintf("jobs%d.json", id))
	outf := filepath.Join(n.scratch, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(jobs)
	if err := os.WriteFile(in, b, 0o644); err != nil {
		return nil, false, "", err
	}
	tmp := filepath.Join(n.scratch, fmt.Sprintf("tmp%d", id))
	os.MkdirAll(tmp, 0o755)
	defer os.RemoveAll(tmp)
	cmd := exec.Command("bash", "-c", `ulimit -v 8000000; exec "$0" "$@"`, n.bin, in, outf)
	if n.env != nil { // the race detector needs a large address space
		cmd = exec.Command(n.bin, in, outf)
	}
	// the environment the model has: nothing that says what the terminal can do
	env := []string{"TMPDIR=" + tmp, "GOTRACEBACK=none"}
	for _, kv := range os.Environ() {
		switch k, _, _ := strings.Cut(kv, "="); k {
		case "TERM", "COLORTERM", "FORCE_COLOR", "NO_COLOR", "TERM_PROGRAM", "TERM_PROGRAM_VERSION", "TMPDIR", "GOTRACEBACK":
		default:
			env = append(env, kv)
		}
	}
	cmd.Env = append(env, n.env...)
	var se bytes.Buffer
	cmd.Stderr = &se
	cmd.Dir = tmp
	if err := cmd.Start(); err != nil {
		return nil, false, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(timeout):
		timedOut = true
		cmd.Process.Kill()
		<-done
	}
	data, _ := os.ReadFile(outf)
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var o outcome
		if json.Unmarshal(l, &o) == nil {
			outs = append(outs, o)
		}
	}
	return outs, timedOut, trimTo(se.String(), 600), nil
}

// confirm replays a candidate counterexample on the real code.
func (n *native) confirm(c *Cex) (bool, string, error) {
	tmo := 15 * time.Second
	if c.Kind == "race" {
		n.mu.Lock()
		if n.race == nil {
			n.race = n.raceMk()
		}
		n.mu.Unlock()
		var jobs []job
		for len(jobs) < 30 {
			jobs = append(jobs, job{c.Harness, c.Params, c.Inputs})
		}
		outs, _, tail, err := n.race.run(jobs, 60*time.Second)
		if err != nil {
			return false, "", err
		}
		if strings.Contains(tail, "DATA RACE") || strings.Contains(tail, "concurrent map") {
			return true, "the race detector reports: " + tail, nil
		}
		for _, o := range outs {
			if o.Status == "assert" || o.Status == "panic" {
				return true, o.Status + " when it runs concurrently: " + o.Msg, nil
			}
		}
		return false, "the race detector finds no race", nil
	}
	jobs := []job{{c.Harness, c.Params, c.Inputs}}
	for _, in := range c.Inputs {
		if strings.HasPrefix(in.Name, "maporder") { // which the real code chooses at random
			for len(jobs) < 100 {
				jobs = append(jobs, jobs[0])
			}
			break
		}
	}
	outs, to, tail, err := n.run(jobs, tmo)
	if err != nil {
		return false, "", err
	}
	if len(outs) == 0 {
		if to {
			return true, "real code did not terminate within 15 s", nil
		}
		return true, "real process died: " + tail, nil
	}
	o := outs[0]
	for _, p := range outs {
		if p.Status == "assert" || p.Status == "panic" {
			o = p
			break
		}
	}
	switch o.Status {
	case "assert":
		return true, "assertion failed: " + o.Msg, nil
	case "panic":
		return true, "panic: " + o.Msg, nil
	}
	if c.Kind == "alloc" && o.Alloc > 48<<20 {
		return true, fmt.Sprintf("real code allocated %d bytes", o.Alloc), nil
	}
	return false, o.Status, nil
}

type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // finding | fixed
	Harness  string `json:"harness,omitempty"`
	Msg      string `json:"msg,omitempty"`
	// values the counterexample's inputs must have (input name -> value)
	Inputs map[string]uint64 `json:"inputs,omitempty"`
	What   string            `json:"what"`
}

func loadKnown() []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &ks); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		}
	}
	return ks
}

func (k *known) matches(id string, c *Cex) bool {
	if k.Kind != "finding" || k.Property != id || k.Harness != c.Harness || !strings.HasPrefix(c.Msg, k.Msg) {
		return false
	}
	for name, v := range k.Inputs {
		ok := false
		for _, in := range c.Inputs {
			if in.Name == name && in.Val == v {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type runReport struct {
	Harness   string         `json:"harness"`
	Bounds    map[string]int `json:"bounds"`
	BoundText string         `json:"bound_meaning,omitempty"`
	StepBound int64          `json:"step_bound_per_path"`
	Complete  bool           `json:"all_paths_within_bounds_explored"`
	Paths     int64          `json:"paths"`
	Pruned    int64          `json:"paths_outside_assumptions"`
	Decisions int64          `json:"symbolic_decisions"`
	Steps     int64          `json:"ssa_instructions"`
	Asserts   int64          `json:"assertion_checks"`
	Unsup     map[string]int `json:"unsupported_paths,omitempty"`
	Incompl   map[string]int `json:"reduced_bound,omitempty"`
	Reached   map[string]int `json:"vacuity_witnesses_reached"`
	Missing   []string       `json:"vacuity_witnesses_missing,omitempty"`
	Seconds   float64        `json:"seconds"`
}

func doCheck(id, tier string) int {
	var c *Check
	for i := range checks {
		if checks[i].ID == id {
			c = &checks[i]
		}
	}
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 3
	}
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(scratch)
	nat := buildNative(c, scratch)
	prog, err := loadProg(c.cli(), harnessDirs(c), scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	ws := make([]*W, nw)
	x0 := newExplorer()
	cross := 199
	if tier == "thorough" {
		cross = 41
	}
	x0.cross = cross
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func(i int) { defer wg.Done(); ws[i] = newW(i, prog, x0) }(i)
	}
	wg.Wait()
	defer func() {
		for _, w := range ws {
			w.solver.close()
		}
	}()
	loadS := time.Since(t0).Seconds()

	hard := t0.Add(840 * time.Second)
	if tier == "quick" {
		hard = t0.Add(600 * time.Second)
	}
	ks := loadKnown()
	knownHit := map[string]bool{}
	var (
		reports  []runReport
		viol     []*Cex
		violNote []string
		unconf   []string
		valid    int
		diverged []string
		traces   []*Trace
		init     = map[string]int{}
		samples  []any
	)
	type total struct{ paths, dec, asserts int64 }
	var tot total
	for _, r := range c.Runs {
		if r.Only != "" && r.Only != tier {
			continue
		}
		params := map[string]int{}
		for k, v := range r.P {
			params[k] = v
		}
		if tier == "thorough" {
			for k, v := range r.T {
				params[k] = v
			}
		}
		budget := r.Q
		if budget == 0 {
			budget = 45
		}
		steps := r.Steps
		if steps == 0 {
			steps = 3000000
		}
		if tier == "thorough" {
			budget = r.TT
			if budget == 0 {
				budget = 200
			}
			if r.TSteps != 0 {
				steps = r.TSteps
			}
		}
		x := newExplorer()
		x.harness = r.H
		x.params = params
		x.cross = cross
		x.maxSteps = steps
		x.maxTraces = 12
		ts := time.Now()
		x.deadline = ts.Add(time.Duration(budget) * time.Second)
		if x.deadline.After(hard) {
			x.deadline = hard
		}
		x.hardDeadline = x.deadline.Add(15 * time.Second)
		// confirm counterexamples while exploring
		var cmu sync.Mutex
		stopConfirm := make(chan struct{})
		confirmDone := make(chan struct{})
		next := 0
		perMsg := map[string]int{}
		drain := func() {
			for {
				x.mu.Lock()
				if next >= len(x.cex) {
					x.mu.Unlock()
					return
				}
				cx := x.cex[next]
				next++
				x.mu.Unlock()
				isKnown := false
				for i := range ks {
					if ks[i].matches(id, cx) {
						isKnown = true
						knownHit[ks[i].What] = true
					}
				}
				key := cx.Kind + "|" + cx.Msg
				if isKnown || perMsg[key] >= 6 {
					continue
				}
				perMsg[key]++
				ok, how, err := nat.confirm(cx)
				cmu.Lock()
				if err != nil {
					unconf = append(unconf, "could not replay: "+err.Error())
				} else if ok {
					viol = append(viol, cx)
					violNote = append(violNote, how)
					x.mu.Lock()
					x.stop = true
					x.cond.Broadcast()
					x.mu.Unlock()
				} else {
					unconf = append(unconf, fmt.Sprintf("%s: %s: %s (native: %s)", cx.Harness, cx.Kind, trimTo(cx.Msg, 200), how))
				}
				cmu.Unlock()
				if len(viol) > 0 {
					return
				}
			}
		}
		go func() {
			defer close(confirmDone)
			tk := time.NewTicker(200 * time.Millisecond)
			defer tk.Stop()
			for {
				select {
				case <-stopConfirm:
					drain()
					return
				case <-tk.C:
					drain()
					if len(viol) > 0 {
						return
					}
				}
			}
		}()
		explore(ws, x, pkgOf(r.H[:strings.LastIndex(r.H, ".")])+r.H[strings.LastIndex(r.H, "."):])
		close(stopConfirm)
		<-confirmDone
		rep := runReport{Harness: r.H, Bounds: params, BoundText: r.Bound, StepBound: steps, Paths: x.paths, Pruned: x.assumeEnd,
			Decisions: x.decisions, Steps: x.steps, Asserts: x.asserts, Unsup: x.unsup, Incompl: x.incomplete, Reached: x.reached,
			Seconds: time.Since(ts).Seconds()}
		rep.Complete = len(x.unsup) == 0 && len(x.incomplete) == 0 && len(viol) == 0
		for _, l := range append([]string{"end"}, r.Reach...) {
			if x.reached[l] == 0 {
				rep.Missing = append(rep.Missing, l)
			}
		}
		reports = append(reports, rep)
		traces = append(traces, x.traces...)
		for k, v := range x.initNotes {
			init[k] += v
		}
		tot.paths += x.paths
		tot.dec += x.decisions
		tot.asserts += x.asserts
		for i, t := range x.traces {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": t.Harness, "inputs": renderInputs(t.Inputs), "observed": t.Obs})
			}
		}
		fmt.Printf("[%s/%s] %s %v: paths=%d asserts=%d complete=%v %.1fs\n", id, tier, r.H, params, x.paths, x.asserts, rep.Complete, rep.Seconds)
		for k, v := range x.unsup {
			fmt.Printf("  unsupported x%d: %s\n", v, trimTo(k, 300))
		}
		for k, v := range x.incomplete {
			fmt.Printf("  reduced bound x%d: %s\n", v, trimTo(k, 300))
		}
		if len(rep.Missing) > 0 && len(viol) == 0 {
			fmt.Printf("  WARNING vacuity witnesses not reached: %v\n", rep.Missing)
		}
		if len(viol) > 0 {
			break
		}
	}

	// translation validation: replay solver models natively, compare observations
	if len(traces) > 0 && len(viol) == 0 {
		var jobs []job
		for _, t := range traces {
			jobs = append(jobs, job{t.Harness, t.Params, t.Inputs})
		}
		outs, to, tail, err := nat.run(jobs, 120*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
		for i, o := range outs {
			d := ""
			if o.Status != "ok" {
				d = "native status " + o.Status + " " + o.Msg
			} else if len(o.Obs) != len(traces[i].Obs) {
				d = fmt.Sprintf("%d observations, engine had %d", len(o.Obs), len(traces[i].Obs))
			} else {
				for j := range o.Obs {
					if o.Obs[j] != traces[i].Obs[j] {
						d = fmt.Sprintf("%s: native %s, engine %s", o.Obs[j].Label, trimTo(o.Obs[j].Val, 200), trimTo(traces[i].Obs[j].Val, 200))
						break
					}
				}
			}
			if d == "" {
				valid++
			} else {
				diverged = append(diverged, traces[i].Harness+": "+d)
				fmt.Printf("  WARNING model/implementation divergence: %s: %s\n    %v\n", traces[i].Harness, d, renderInputs(traces[i].Inputs))
				// A native failure on inputs the solver model satisfies is a real failure of the property.
				if o.Status == "assert" || o.Status == "panic" {
					cx := &Cex{Harness: traces[i].Harness, Kind: o.Status, Msg: o.Msg, Params: traces[i].Params, Inputs: traces[i].Inputs}
					kn := false
					for q := range ks {
						if ks[q].matches(id, cx) {
							kn = true
							knownHit[ks[q].What] = true
						}
					}
					if !kn {
						viol = append(viol, cx)
						violNote = append(violNote, o.Status+": "+o.Msg)
					}
				}
			}
		}
		if len(outs) < len(traces) {
			fmt.Printf("  WARNING native validation stopped after %d of %d traces (timeout=%v %s)\n", len(outs), len(traces), to, tail)
			if len(viol) == 0 {
				cx := &Cex{Harness: traces[len(outs)].Harness, Kind: "died", Params: traces[len(outs)].Params, Inputs: traces[len(outs)].Inputs}
				if ok, how, err := nat.confirm(cx); err == nil && ok {
					cx.Msg = how
					viol = append(viol, cx)
					violNote = append(violNote, how)
				}
			}
		}
	}
	for _, u := range unconf {
		fmt.Println("  NOTE unconfirmed (not reported):", u)
	}
	for k := range init {
		fmt.Println("  NOTE package initialiser not fully run:", trimTo(k, 200))
	}
	for _, k := range ks {
		if k.Kind == "finding" && k.Property == id && knownHit[k.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}

	// evidence
	fns := map[string]bool{}
	std := 0
	for _, w := range ws {
		for f := range w.touched {
			if strings.Contains(f, modPath) {
				if !strings.Contains(f, "zzverif") {
					fns[strings.ReplaceAll(f, modPath+"/", "")] = true
				}
			} else {
				std++
			}
		}
	}
	std /= len(ws)
	if len(samples) > 8 {
		samples = samples[:8]
	}
	exhaustive := len(reports) > 0
	for _, r := range reports {
		if !r.Complete {
			exhaustive = false
		}
	}
	cov := map[string]any{
		"states":                        tot.paths,
		"transitions":                   tot.dec,
		"traces_validated_against_impl": valid,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"explanation":                   "states = feasible symbolic paths (each covers every input satisfying its path condition); transitions = symbolic decisions taken along them; every assertion on every path is decided by an SMT query over all inputs of that path",
		"runs":                          reports,
		"functions_encoded":             sortedKeys(fns),
		"library_functions_encoded":     std,
		"assertion_queries":             stats.assertQ.Load(),
		"assertion_queries_unsat":       stats.assertUns.Load(),
		"smt_queries":                   stats.queries.Load(),
		"smt_queries_sent_to_solver":    stats.solved.Load(),
		"smt_sat":                       stats.sat.Load(),
		"smt_unsat":                     stats.unsat.Load(),
		"smt_unknown":                   stats.unknown.Load(),
		"solver_seconds":                float64(stats.nanos.Load()) / 1e9,
		"cross_checked_with_cvc5":       stats.cross.Load(),
		"solver_disagreements":          stats.disagree.Load(),
		"solver":                        "z3 4.8.12 (retry z3 5.3.2), cross-check cvc5 1.1.2",
		"load_seconds":                  loadS,
		"unconfirmed_counterexamples":   unconf,
		"validation_divergences":        diverged,
		"outside_bounds":                c.Outside,
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append(append([]string{}, commonAssume...), c.Assume...), "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("[%s/%s] paths=%d asserts=%d smt=%d (solved %d, %.1fs) validated=%d wall=%.1fs\n", id, tier, tot.paths, tot.asserts, stats.queries.Load(), stats.solved.Load(), float64(stats.nanos.Load())/1e9, valid, time.Since(t0).Seconds())
	if len(viol) > 0 {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, id+".json")
		v := map[string]any{"property": id, "counterexample": viol[0], "confirmed": violNote[0], "inputs": renderInputs(viol[0].Inputs)}
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Printf("  %s: %s\n  confirmed on the real code: %s\n  inputs: %v\n", viol[0].Harness, trimTo(viol[0].Msg, 400), trimTo(violNote[0], 600), renderInputs(viol[0].Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	return 0
}

// renderInputs groups consecutive byte inputs of one label into a string.
func renderInputs(in []Input) []string {
	var out []string
	var lab string
	var buf []byte
	flush := func() {
		if buf != nil {
			out = append(out, fmt.Sprintf("%s=%q", lab, buf))
			buf = nil
		}
	}
	for _, i := range in {
		j := strings.LastIndexByte(i.Name, '#')
		l := i.Name[:j]
		if i.W == 8 && !strings.HasSuffix(l, ".len") && !strings.HasSuffix(l, "?") {
			if l != lab || strings.HasSuffix(i.Name, "#0") {
				flush()
			}
			lab = l
			buf = append(buf, byte(i.Val))
			continue
		}
		flush()
		out = append(out, fmt.Sprintf("%s=%d", i.Name, int64(i.Val)))
	}
	flush()
	return out
}

// replay runs one recorded counterexample on the real code.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v struct {
		Property       string `json:"property"`
		Counterexample *Cex   `json:"counterexample"`
	}
	if err := json.Unmarshal(b, &v); err != nil || v.Counterexample == nil {
		fmt.Fprintln(os.Stderr, "bad replay file", err)
		return 3
	}
	scratch, err := os.MkdirTemp("", "symgo-")
	if err != nil {
		return 3
	}
	defer os.RemoveAll(scratch)
	nat := buildNative(&Check{Runs: []Run{{H: v.Counterexample.Harness}}}, scratch)
	ok, how, err := nat.confirm(v.Counterexample)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Println(renderInputs(v.Counterexample.Inputs))
	if ok {
		fmt.Println("reproduced:", how)
		return 1
	}
	fmt.Println("not reproduced:", how)
	return 0
}

var commonAssume = []string{
	"the Go compiler's behaviour is that of the SSA form built by golang.org/x/tools/go/ssa from the current sources (checked on sampled paths by native replay)",
	"byte-search primitives of internal/bytealg, sync, time and the operating system are modelled by the engine; all other library code is encoded from its source",
	"single-threaded execution (the code starts no goroutines)",
}

var _ = errors.New
var _ = sort.Strings
var _ types.Type
