package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// dev: symgo dev <dir>.<Harness> [key=val...] — one harness, verbose.
func dev(args []string) {
	name := args[0]
	i := strings.LastIndex(name, ".")
	dir := name[:i]
	params := map[string]int{}
	budget := 60
	nw := 8
	steps := int64(20000000)
	x := newExplorer()
	for _, a := range args[1:] {
		kv := strings.SplitN(a, "=", 2)
		v, _ := strconv.Atoi(kv[1])
		switch kv[0] {
		case "budget":
			budget = v
		case "workers":
			nw = v
		case "nomerge":
			x.noMerge = true
		case "cross":
			x.cross = v
		case "steps":
			steps = int64(v)
		case "paths":
			x.maxPaths = int64(v)
		default:
			params[kv[0]] = v
		}
	}
	scratch, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(scratch)
	t0 := time.Now()
	prog, err := loadProg(strings.HasPrefix(dir, "c_"), []string{dir}, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	t0 = time.Now()
	ws := make([]*W, nw)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func(i int) { defer wg.Done(); ws[i] = newW(i, prog, x) }(i)
	}
	wg.Wait()
	x.harness = name
	x.params = params
	x.profile = true
	x.maxSteps = steps
	x.maxTraces = 5
	x.deadline = time.Now().Add(time.Duration(budget) * time.Second)
	x.hardDeadline = x.deadline.Add(10 * time.Second)
	if pf := os.Getenv("SYMGO_CPU"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	explore(ws, x, pkgOf(dir)+name[i:])
	fmt.Printf("explore %.1fs\n", time.Since(t0).Seconds())
	report(x)
	forks := map[string]int{}
	calls := map[string]int64{}
	for _, w := range ws {
		for k, v := range w.forkAt {
			forks[k] += v
		}
		for _, f := range w.fns {
			calls[f.name] += f.steps
		}
		w.solver.close()
	}
	top(forks, "forks at")
	if os.Getenv("SYMGO_PROF") != "" {
		c := map[string]int{}
		for k, v := range calls {
			c[k] = int(v)
		}
		top(c, "steps in")
	}
}

func top(m map[string]int, title string) {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
	for i, e := range l {
		if i > 12 {
			break
		}
		fmt.Printf("  %s %d %s\n", title, e.v, e.k)
	}
}

func report(x *Explorer) {
	fmt.Printf("paths=%d pruned(assume)=%d decisions=%d steps=%d asserts=%d maxAlts=%d\n", x.paths, x.assumeEnd, x.decisions, x.steps, x.asserts, x.maxAlts)
	fmt.Printf("queries=%d solved=%d sat=%d unsat=%d unknown=%d solver=%.1fs assertQ=%d unsat=%d cross=%d dis=%d\n", stats.queries.Load(), stats.solved.Load(), stats.sat.Load(), stats.unsat.Load(), stats.unknown.Load(), float64(stats.nanos.Load())/1e9, stats.assertQ.Load(), stats.assertUns.Load(), stats.cross.Load(), stats.disagree.Load())
	for k, v := range x.unsup {
		fmt.Println("UNSUPPORTED", v, k)
	}
	for k, v := range x.initNotes {
		fmt.Println("INIT", v, k)
	}
	for k, v := range x.incomplete {
		fmt.Println("INCOMPLETE", v, k)
	}
	for k, v := range x.reached {
		fmt.Println("reached", k, v)
	}
	for n, c := range x.cex {
		fmt.Printf("CEX %s: %s at %s\n   ", c.Kind, c.Msg, c.Where)
		if len(x.cex) > 6 && n > 6 {
			continue
		}
		for _, in := range c.Inputs {
			fmt.Printf(" %s=%d", in.Name, in.Val)
		}
		fmt.Println()
	}
}
