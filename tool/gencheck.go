package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

func genCount(tier string) int {
	if tier == "thorough" {
		return 80
	}
	return 20
}

// genPrepare builds the generator and runs every request undisturbed.
func genPrepare(e *Env, p *plan, seed uint64, n int) (*genSim, *Violation, *genScenario, error) {
	g, err := e.newGenSim()
	if err != nil {
		return nil, nil, nil, err
	}
	g.list = g.drawConfigs(seed, n, p.id)
	var mu sync.Mutex
	var found *Violation
	var at *genScenario
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, c := range g.list {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			_, v, e2 := g.base(c)
			mu.Lock()
			defer mu.Unlock()
			if e2 != nil {
				err = e2
			}
			if v != nil && found == nil {
				found, at = v, &genScenario{Configs: []genConfig{c}, Invoke: []int{0}, Prior: "none", Rand: []uint64{1}}
			}
		}()
	}
	wg.Wait()
	return g, found, at, err
}

func genCheck(e *Env, p *plan, tier string, seed uint64, start time.Time) int {
	secs := p.quick
	if tier == "thorough" {
		secs = p.thorough
	}
	if s := os.Getenv("VERIF_SECONDS"); s != "" {
		secs, _ = strconv.ParseFloat(s, 64)
	}
	sum := &summary{counters: map[string]int64{}, distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	g, v, at, foundSeed, err := genSearch(e, p, tier, seed, secs, start, sum)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return g.finish(p, tier, sum, secs, start, v, at, foundSeed)
}

func genSearch(e *Env, p *plan, tier string, seed uint64, secs float64, start time.Time, sum *summary) (*genSim, *Violation, *genScenario, uint64, error) {
	g, v, at, err := genPrepare(e, p, seed, genCount(tier))
	if err != nil {
		return nil, nil, nil, 0, fmt.Errorf("build failed: %w", err)
	}
	logf("built the generator with simulated system calls; %d requests run undisturbed (%d child processes), %.1fs", len(g.list), g.real, time.Since(start).Seconds())
	var foundSeed uint64
	if v == nil {
		v, at, foundSeed, err = g.search(p, sum, seed, secs)
		if err != nil {
			return nil, nil, nil, 0, fmt.Errorf("search: %w", err)
		}
	}
	sum.procs += int(sum.counters["processes"])
	sum.counters["real child processes"] = g.real
	sum.counters["child processes answered from an identical earlier one"] = g.reused
	return g, v, at, foundSeed, nil
}

// finish reports what was found and writes the evidence.
func (g *genSim) finish(p *plan, tier string, sum *summary, secs float64, start time.Time, v *Violation, at *genScenario, foundSeed uint64) int {
	wall := time.Since(start).Seconds()
	logf("%d runs, %d distinct non-trivial, %d states, %d real child processes, search %.1fs", sum.runs, len(sum.distinct), len(sum.states), g.real, secs)
	code, viol := 0, 0
	if v != nil {
		code, viol = 1, 1
		path, err := g.report(p, v, at, foundSeed)
		if err != nil {
			fmt.Fprintln(os.Stderr, "a run failed but could not be reported:", err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	}
	printKnown(g.e, p.id)
	if err := writeEvidence(g.e, p, tier, sum, secs, wall, viol); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return code
}

func (g *genSim) search(p *plan, sum *summary, seed uint64, secs float64) (*Violation, *genScenario, uint64, error) {
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var mu sync.Mutex
	var next uint64
	var found *Violation
	var foundSc *genScenario
	var foundSeed uint64
	var firstErr error
	var wg sync.WaitGroup
	for k := 0; k < min(8, runtime.NumCPU()); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(deadline) {
				mu.Lock()
				s := seed<<32 + next
				next++
				stop := found != nil || firstErr != nil
				mu.Unlock()
				if stop {
					return
				}
				sc := g.scenario(p.id, newToolRand(s))
				v, w, err := g.runScenario(p.id, sc, fmt.Sprintf("k%d", k), nil)
				mu.Lock()
				if err != nil && firstErr == nil {
					firstErr = err
				}
				if err == nil {
					sum.runs++
					for c, n := range w.count {
						sum.counters[c] += n
					}
					sum.counters["kind."+p.id+" worlds"]++
					sum.counters["steps"] += w.steps
					sum.counters["processes"] += int64(len(sc.Configs) + sc.Crashes)
					if w.count["trivial"] == 0 {
						sum.distinct[w.hash] = struct{}{}
					}
					for h := range w.states {
						sum.states[h] = struct{}{}
					}
					if len(sum.samples) < 3 {
						b, _ := json.Marshal(map[string]any{"seed": s, "scenario": sc})
						sum.samples = append(sum.samples, b)
					}
					if v != nil && found == nil {
						found, foundSc, foundSeed = v, sc, s
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if found != nil {
		firstErr = nil
	}
	return found, foundSc, foundSeed, firstErr
}

func cloneSc(sc *genScenario) *genScenario {
	b, _ := json.Marshal(sc)
	c := &genScenario{}
	json.Unmarshal(b, c)
	return c
}

func (sc *genScenario) shrink() []*genScenario {
	var out []*genScenario
	add := func(f func(c *genScenario)) {
		c := cloneSc(sc)
		f(c)
		out = append(out, c)
	}
	for i := range sc.Faults {
		add(func(c *genScenario) { c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...) })
	}
	if sc.Crashes > 0 {
		add(func(c *genScenario) { c.Crashes-- })
	}
	if len(sc.Configs) > 1 {
		for i := range sc.Configs {
			if i > 0 {
				add(func(c *genScenario) { c.Configs = append(c.Configs[:i:i], c.Configs[i+1:]...) })
			}
		}
	}
	for i := range sc.Noise {
		add(func(c *genScenario) { c.Noise = append(c.Noise[:i:i], c.Noise[i+1:]...) })
	}
	if sc.Prior != "none" {
		add(func(c *genScenario) { c.Prior = "none" })
	}
	for i, v := range sc.Invoke {
		if v != 0 {
			add(func(c *genScenario) { c.Invoke[i] = 0 })
		}
	}
	if sc.Quant > 0 && len(sc.Configs) > 1 {
		add(func(c *genScenario) { c.Quant, c.Switch = -1, nil }) // replaced by the recorded switches
	}
	for size := len(sc.Switch); size >= 1; size /= 2 {
		for at := 0; at+size <= len(sc.Switch); at += size {
			add(func(c *genScenario) { c.Switch = append(c.Switch[:at:at], c.Switch[at+size:]...) })
		}
	}
	return out
}

// report minimises, replays twice and writes the replay file.
func (g *genSim) report(p *plan, v *Violation, sc *genScenario, seed uint64) (string, error) {
	logf("violation (%s): %s", v.Class, firstLines(v.Detail, 12))
	deadline := time.Now().Add(60 * time.Second)
	n := 0
	run := func(c *genScenario, tr *strings.Builder) (*Violation, uint64) {
		n++
		v, w, err := g.runScenario(p.id, c, fmt.Sprintf("r%d", n), tr)
		if err != nil {
			return nil, 0
		}
		return v, w.hash
	}
	steps := 0
	first, _ := run(sc, nil)
	if first == nil || first.Class != v.Class {
		rf := &replayFile{Property: p.id, Runner: "gen", Seed: seed, Violation: v, Minimised: "not minimised: did not reproduce"}
		b, _ := json.Marshal(sc)
		rf.Runs = []runRec{{Kind: p.id, Seed: seed, Scenario: b}}
		return writeReplay(g.e, rf)
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for _, c := range sc.shrink() {
			if time.Now().After(deadline) {
				break
			}
			if c.Quant == -1 {
				run(sc, nil)
				c.Quant, c.Switch = 0, lastGenSwitches
			}
			if got, _ := run(c, nil); got != nil && got.Class == v.Class {
				sc, changed = c, true
				steps++
				break
			}
		}
	}
	var tr strings.Builder
	a, ha := run(sc, &tr)
	b, hb := run(sc, nil)
	exact := a != nil && b != nil && ha == hb && a.Detail == b.Detail
	if a != nil {
		v = a
	}
	logf("minimised in %d steps, replay reproduces exactly: %v\n%s", steps, exact, firstLines(v.Detail, 30))
	js, err := json.Marshal(sc)
	if err != nil {
		return "", err
	}
	trace := tr.String()
	if len(trace) > 20000 {
		trace = trace[:20000]
	}
	return writeReplay(g.e, &replayFile{Property: p.id, Runner: "gen", Seed: seed, Violation: v, Runs: []runRec{{p.id, seed, js}}, Trace: trace,
		Minimised: fmt.Sprintf("%d shrinking steps; exact replay twice: %v", steps, exact)})
}

func genReplay(e *Env, p *plan, rf *replayFile, file string) int {
	g, err := e.newGenSim()
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	for i, r := range rf.Runs {
		sc := &genScenario{}
		if err := json.Unmarshal(r.Scenario, sc); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		v, _, err := g.runScenario(p.id, sc, fmt.Sprintf("r%d", i), nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if v != nil {
			fmt.Println(v.Class + ": " + v.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return 1
		}
	}
	fmt.Println("the replay does not violate the property on this tree")
	return 0
}

// genDeterminism executes the same seeds again and again with different parallelism.
func genDeterminism(e *Env, p *plan) int {
	seed := seedFromEnv()
	g, v, _, err := genPrepare(e, p, seed, 8)
	if err != nil || v != nil {
		fmt.Fprintln(os.Stderr, err, v)
		return 2
	}
	runs := 60
	if p.id == "C12" {
		runs = 12
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		runs, _ = strconv.Atoi(s)
	}
	bad, total := 0, 0
	var first []uint64
	traces := make([]string, runs)
	for pass, par := range []int{8, 1, 4, 16} {
		hs := make([]uint64, runs)
		var wg sync.WaitGroup
		sem := make(chan struct{}, par)
		for i := range hs {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				var tr strings.Builder
				_, w, err := g.runScenario(p.id, g.scenario(p.id, newToolRand(seed<<32+uint64(i))), fmt.Sprintf("d%d-%d", pass, i), &tr)
				if err == nil {
					hs[i] = w.hash
				}
				if pass == 0 {
					traces[i] = tr.String()
				} else if tr.String() != traces[i] {
					a, b := strings.Split(traces[i], "\n"), strings.Split(tr.String(), "\n")
					for k := range a {
						if k >= len(b) || a[k] != b[k] {
							fmt.Printf("seed %d, line %d:\n  %s\n  %s\n", i, k, a[k], b[min(k, len(b)-1)])
							break
						}
					}
				}
			}()
		}
		wg.Wait()
		total += runs
		if pass == 0 {
			first = hs
			continue
		}
		for i := range hs {
			if hs[i] != first[i] || hs[i] == 0 {
				bad++
				fmt.Println("seed", i, "diverges in pass", pass)
			}
		}
	}
	fmt.Printf("%s: %d seeds x 4 passes (%d executions), %d diverged\n", p.id, runs, total, bad)
	if bad > 0 {
		return 2
	}
	return 0
}
