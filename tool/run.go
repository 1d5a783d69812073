package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

type runRec struct {
	Kind     string          `json:"kind"`
	Seed     uint64          `json:"seed"`
	Scenario json.RawMessage `json:"scenario"`
}

type batchOut struct {
	Runs      int64             `json:"runs"`
	Counters  map[string]int64  `json:"counters"`
	Samples   []json.RawMessage `json:"samples"`
	Violation *Violation        `json:"violation,omitempty"`
	Prefix    []runRec          `json:"prefix,omitempty"`
	BatchHash string            `json:"batch_hash"`
	Wall      float64           `json:"wall"`
}

type execOut struct {
	Violation *Violation `json:"violation,omitempty"`
	At        int        `json:"at"`
	Hash      string     `json:"hash"`
	Trace     string     `json:"trace"`
}

// replayFile is what --replay consumes.
type replayFile struct {
	Property  string     `json:"property"`
	Runner    string     `json:"runner"` // sim or gen
	Seed      uint64     `json:"seed"`
	Violation *Violation `json:"violation"`
	Runs      []runRec   `json:"runs"`
	Trace     string     `json:"trace,omitempty"`
	Minimised string     `json:"minimised"`
	Catalog   int        `json:"catalog,omitempty"`
}

// plan says how a property is checked.
type plan struct {
	id       string
	runner   string // "sim": in-process simulator, "gen": generator processes on a simulated file system
	race     bool
	models   bool
	quick    float64 // seconds of search
	thorough float64
	workers  int
	level    string
	rule     string
	real     []string
	stub     []string
	assume   []string
	rerun    int64 // runs per process
	shim     bool  // the go command is replaced by a stand-in
	prepare  func(e *Env, sim string, seed uint64, n int) (string, error)
	catalog  [2]int // operations with baselines: quick, thorough
	measure  string
	alsoGen  bool // "sim", and generator processes as well
}

func seedFromEnv() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n & 0x7fffffff
	}
	var h uint64 = 14695981039346656037
	for _, c := range []byte(s) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h & 0x7fffffff
}

func seedInt() int64 {
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return n
	}
	return int64(seedFromEnv())
}

// simProc runs one simulator process.
func simProc(ctx context.Context, bin string, stdin []byte, args ...string) ([]byte, []byte, error) {
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = simEnviron()
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	return out.Bytes(), errb.Bytes(), err
}

var extraEnv []string

func simEnviron() []string {
	return append(goEnviron("GOMAXPROCS=20", "GOTRACEBACK=all",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 atexit_sleep_ms=0 log_path=stderr"), extraEnv...)
}

type summary struct {
	mu       sync.Mutex
	runs     int64
	counters map[string]int64
	samples  []json.RawMessage
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	found    *batchOut
	procs    int
	simTime  float64
}

func (s *summary) merge(b *batchOut, hashes string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs += b.Runs
	s.procs++
	s.simTime += b.Wall
	for k, v := range b.Counters {
		s.counters[k] += v
	}
	if len(s.samples) < 3 {
		s.samples = append(s.samples, b.Samples...)
	}
	readHashes(hashes, s.distinct)
	readHashes(hashes+".states", s.states)
	if b.Violation != nil && s.found == nil {
		s.found = b
	}
}

func readHashes(path string, set map[uint64]struct{}) {
	if data, err := os.ReadFile(path); err == nil {
		for i := 0; i+8 <= len(data); i += 8 {
			if len(set) < 4<<20 {
				set[binary.LittleEndian.Uint64(data[i:])] = struct{}{}
			}
		}
		os.Remove(path)
	}
}

func checkMain(e *Env, id, tier string) int {
	p := plans[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	if tier != "quick" && tier != "thorough" {
		fmt.Fprintln(os.Stderr, "unknown tier", tier)
		return 2
	}
	start := time.Now()
	seed := seedFromEnv()
	os.Remove(filepath.Join(e.verif, "evidence", "replays", id+".json"))
	logf("%s: seed %d, tier %s", id, seed, tier)
	if p.runner == "gen" {
		return genCheck(e, p, tier, seed, start)
	}
	bin, err := e.buildSim(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	logf("built the simulator from the working tree (%d files instrumented) in %.1fs", e.instrN, time.Since(start).Seconds())
	data := ""
	if p.prepare != nil {
		catalogSize = p.catalog[0]
		if tier == "thorough" {
			catalogSize = p.catalog[1]
		}
		if data, err = p.prepare(e, bin, seed, catalogSize); err != nil {
			fmt.Fprintln(os.Stderr, "preparing:", err)
			return 2
		}
		extraEnv = append(extraEnv, "VERIF_DATA="+data)
		logf("prepared baselines, %.1fs", time.Since(start).Seconds())
	}
	secs := p.quick
	if tier == "thorough" {
		secs = p.thorough
	}
	if v := os.Getenv("VERIF_SECONDS"); v != "" {
		secs, _ = strconv.ParseFloat(v, 64)
	}
	simSecs := secs
	if p.alsoGen {
		simSecs = secs / 3
	}
	sum, err := search(e, p, bin, data, seed, simSecs, tier == "thorough")
	if err != nil {
		fmt.Fprintln(os.Stderr, "search:", err)
		return 2
	}
	if p.alsoGen && sum.found == nil {
		logf("%d runs in the in-process simulator", sum.runs)
		g, v, at, foundSeed, err := genSearch(e, p, tier, seed, secs-simSecs, start, sum)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return g.finish(p, tier, sum, secs, start, v, at, foundSeed)
	}
	wall := time.Since(start).Seconds()
	logf("%d runs in %d processes, %d distinct non-trivial, %d states, search %.1fs", sum.runs, sum.procs, len(sum.distinct), len(sum.states), secs)
	code := 0
	viol := 0
	if sum.found != nil {
		viol = 1
		path, err := report(e, p, bin, data, sum.found)
		if err != nil {
			fmt.Fprintln(os.Stderr, "a run failed but could not be reported:", err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	}
	printKnown(e, id)
	if err := writeEvidence(e, p, tier, sum, secs, wall, viol); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return code
}

// search runs simulator processes over disjoint seed ranges until the time is
// used up or one of them finds a violation.
func search(e *Env, p *plan, bin, data string, seed uint64, secs float64, deep bool) (*summary, error) {
	sum := &summary{counters: map[string]int64{}, distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	workers := p.workers
	if workers == 0 {
		workers = min(8, runtime.NumCPU())
	}
	perProc := p.rerun
	if perProc == 0 {
		perProc = 20000
	}
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var next uint64
	var mu sync.Mutex
	var firstErr error
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				left := time.Until(deadline).Seconds()
				if left < 0.05 {
					return
				}
				mu.Lock()
				startSeed := next
				next += uint64(perProc)
				stop := firstErr != nil
				mu.Unlock()
				sum.mu.Lock()
				stop = stop || sum.found != nil
				sum.mu.Unlock()
				if stop {
					return
				}
				out := e.path(fmt.Sprintf("out-%d-%d", w, startSeed))
				req := map[string]any{"property": p.id, "seed": seed, "start": startSeed, "stride": 1,
					"max_runs": perProc, "seconds": left, "deep": deep, "out": out, "hashes": out + ".h", "data": data}
				js, _ := json.Marshal(req)
				cctx, ccancel := context.WithTimeout(ctx, time.Duration((left+120)*float64(time.Second)))
				_, stderr, err := simProc(cctx, bin, nil, "batch", string(js))
				timedOut := cctx.Err() == context.DeadlineExceeded
				ccancel()
				if err != nil {
					b, ok := crashed(bin, data, out, stderr, timedOut, p)
					mu.Lock()
					if !ok && firstErr == nil && ctx.Err() == nil {
						firstErr = fmt.Errorf("simulator process: %w\n%s", err, tail(stderr, 4000))
					}
					mu.Unlock()
					if ok {
						sum.merge(b, "")
						cancel()
					}
					return
				}
				raw, err := os.ReadFile(out)
				var b batchOut
				if err == nil {
					err = json.Unmarshal(raw, &b)
				}
				os.Remove(out)
				os.Remove(out + ".cur")
				if err != nil {
					mu.Lock()
					firstErr = err
					mu.Unlock()
					return
				}
				sum.merge(&b, out+".h")
			}
		}()
	}
	wg.Wait()
	if sum.found != nil {
		return sum, nil
	}
	return sum, firstErr
}

// crashed turns the death of a simulator process by a Go runtime failure of
// the code under test (fatal error, unrecovered panic in a goroutine it
// started), or a run that never ends, into a finding.
func crashed(bin, data, out string, stderr []byte, timedOut bool, p *plan) (*batchOut, bool) {
	raw, err := os.ReadFile(out + ".cur")
	if err != nil || len(raw) < 8 {
		return nil, false
	}
	js, _ := json.Marshal(map[string]any{"property": p.id, "seed": binary.LittleEndian.Uint64(raw), "deep": len(raw) > 8 && raw[8] == 1, "data": data})
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	o, _, err := simProc(ctx, bin, nil, "scenario", string(js))
	var rr runRec
	if err != nil || json.Unmarshal(o, &rr) != nil {
		return nil, false
	}
	v := crashViolation(stderr)
	if timedOut {
		eo, err := execRuns(bin, data, []runRec{rr})
		if err != nil || eo.Violation == nil || eo.Violation.Class != "stuck" {
			return nil, false
		}
		v = eo.Violation
	}
	if v == nil {
		return nil, false
	}
	return &batchOut{Runs: 1, Counters: map[string]int64{}, Violation: v, Prefix: []runRec{rr}}, true
}

func crashViolation(stderr []byte) *Violation {
	s := string(stderr)
	at := -1
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, m); i >= 0 && (at < 0 || i < at) {
			at = i
		}
	}
	if at < 0 || strings.Contains(s, "out of memory") {
		return nil
	}
	var keep []string
	for _, l := range strings.Split(s[at:], "\n") {
		if len(keep) == 0 || strings.HasPrefix(l, "github.com/KSpaceer/") {
			if i := strings.LastIndex(l, "("); i > 0 && len(keep) > 0 {
				l = l[:i]
			}
			keep = append(keep, l)
		}
		if len(keep) > 10 {
			break
		}
	}
	return &Violation{"crash", "the process died: " + strings.Join(keep, "\n")}
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func execRuns(bin, data string, runs []runRec) (*execOut, error) {
	js, _ := json.Marshal(map[string]any{"runs": runs, "data": data})
	ctx, cancel := context.WithTimeout(context.Background(), 45*time.Second)
	defer cancel()
	out, stderr, err := simProc(ctx, bin, js, "exec")
	if err != nil {
		if ctx.Err() == context.DeadlineExceeded {
			return &execOut{Violation: &Violation{"stuck", "the run did not end"}, At: len(runs) - 1}, nil
		}
		if v := crashViolation(stderr); v != nil {
			return &execOut{Violation: v, At: len(runs) - 1}, nil
		}
		return nil, fmt.Errorf("%w: %s", err, tail(stderr, 3000))
	}
	var eo execOut
	err = json.Unmarshal(out, &eo)
	if i := bytes.Index(stderr, []byte("WARNING: DATA RACE")); i >= 0 && eo.Violation != nil {
		eo.Trace += "first report of the race detector:\n" + firstLines(string(stderr[i:]), 60)
	}
	return &eo, err
}

// report minimises a finding, checks in fresh processes that the minimised
// runs reproduce it exactly, and writes the replay file.
func report(e *Env, p *plan, bin, data string, found *batchOut) (string, error) {
	runs := found.Prefix[len(found.Prefix)-1:]
	class := found.Violation.Class
	logf("violation (%s): %s", class, firstLines(found.Violation.Detail, 12))
	deadline := time.Now().Add(60 * time.Second)
	fails := func(rs []runRec) bool {
		eo, err := execRuns(bin, data, rs)
		return err == nil && eo.Violation != nil && eo.Violation.Class == class && eo.At == len(rs)-1
	}
	note := "scenario alone"
	if !fails(runs) {
		runs = found.Prefix
		note = "needs earlier runs of the same process"
		if !fails(runs) {
			// still a violation: report it with everything that is known about it
			rf := &replayFile{Property: p.id, Runner: p.runner, Seed: runs[len(runs)-1].Seed, Violation: found.Violation,
				Runs: runs, Minimised: "not minimised: did not reproduce in a fresh process"}
			return writeReplay(e, rf)
		}
		// remove earlier runs while it still fails
		for size := len(runs) / 2; size >= 1; size /= 2 {
			for at := 0; at+size < len(runs); {
				c := append(append([]runRec{}, runs[:at]...), runs[at+size:]...)
				if time.Now().Before(deadline) && fails(c) {
					runs = c
				} else {
					at += size
				}
			}
		}
	}
	// shrink the scenarios
	steps := 0
	seen := map[string]bool{}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for i := range runs {
			js, _ := json.Marshal(runs[i])
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			out, _, err := simProc(ctx, bin, js, "shrink")
			cancel()
			if err != nil {
				continue
			}
			var cands []json.RawMessage
			if json.Unmarshal(out, &cands) != nil {
				continue
			}
			fresh := cands[:0]
			for _, c := range cands {
				if k := fmt.Sprint(i, string(c)); !seen[k] {
					seen[k] = true
					fresh = append(fresh, c)
				}
			}
			cands = fresh
			for len(cands) > 0 && time.Now().Before(deadline) {
				// try several candidates at once, keep the first that still fails
				n := min(8, len(cands))
				okc := make([]bool, n)
				var wg sync.WaitGroup
				for c := 0; c < n; c++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						rs := append([]runRec{}, runs...)
						rs[i].Scenario = cands[c]
						okc[c] = fails(rs)
					}()
				}
				wg.Wait()
				hit := -1
				for c, ok := range okc {
					if ok {
						hit = c
						break
					}
				}
				if hit >= 0 {
					runs[i].Scenario = cands[hit]
					changed = true
					steps++
					break
				}
				cands = cands[n:]
			}
		}
	}
	a, err := execRuns(bin, data, runs)
	if err != nil {
		return "", err
	}
	b, err := execRuns(bin, data, runs)
	if err != nil {
		return "", err
	}
	exact := a.Violation != nil && b.Violation != nil && a.Hash == b.Hash && a.Violation.Detail == b.Violation.Detail
	v := found.Violation
	if a.Violation != nil {
		v = a.Violation
	}
	logf("minimised in %d steps, replay reproduces exactly: %v\n%s", steps, exact, firstLines(v.Detail, 30))
	rf := &replayFile{Property: p.id, Runner: p.runner, Seed: runs[len(runs)-1].Seed, Violation: v, Runs: runs, Trace: a.Trace,
		Minimised: fmt.Sprintf("%s; %d shrinking steps; exact replay in two fresh processes: %v", note, steps, exact)}
	return writeReplay(e, rf)
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return strings.Join(ls, "\n")
}

// catalogSize is how many operations have baselines.
var catalogSize int

func writeReplay(e *Env, rf *replayFile) (string, error) {
	rf.Catalog = catalogSize
	dir := filepath.Join(e.verif, "evidence", "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", err
	}
	path := filepath.Join(dir, rf.Property+".json")
	return path, os.WriteFile(path, b, 0o644)
}

func replayMain(e *Env, file string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(raw, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := plans[rf.Property]
	if p == nil {
		return 2
	}
	if rf.Runner == "gen" {
		return genReplay(e, p, &rf, file)
	}
	bin, err := e.buildSim(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "build failed:", err)
		return 2
	}
	data := ""
	if p.prepare != nil {
		if data, err = p.prepare(e, bin, rf.Seed>>32, rf.Catalog); err != nil {
			fmt.Fprintln(os.Stderr, "preparing:", err)
			return 2
		}
	}
	eo, err := execRuns(bin, data, rf.Runs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if eo.Violation == nil {
		fmt.Println("the replay does not violate the property on this tree")
		return 0
	}
	fmt.Println(eo.Violation.Class + ": " + eo.Violation.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

// determinismMain runs the same seeds in many processes and compares their event logs.
func determinismMain(e *Env, id string) int {
	p := plans[id]
	if p == nil {
		return 2
	}
	if p.runner == "gen" {
		return genDeterminism(e, p)
	}
	if p.alsoGen {
		if c := genDeterminism(e, p); c != 0 {
			return c
		}
	}
	bin, err := e.buildSim(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	data := ""
	if p.prepare != nil {
		if data, err = p.prepare(e, bin, seedFromEnv(), min(200, p.catalog[0])); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	runs := int64(300)
	if p.rerun != 0 && p.rerun < runs {
		runs = p.rerun
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		runs, _ = strconv.ParseInt(v, 10, 64)
	}
	bad := 0
	total := 0
	for s := uint64(0); s < 6; s++ {
		hashes := map[string]int{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, []int{1, 8, 4, 2, 8, 3}[s])
		for c := 0; c < 8; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				out := e.path(fmt.Sprintf("det-%d-%d", s, c))
				req := map[string]any{"property": p.id, "seed": seedFromEnv() + s, "start": 0, "stride": 1,
					"max_runs": runs, "seconds": 0, "out": out, "hashes": "", "data": data, "trace": true}
				js, _ := json.Marshal(req)
				_, stderr, err := simProc(context.Background(), bin, nil, "batch", string(js))
				mu.Lock()
				defer mu.Unlock()
				total++
				if err != nil {
					hashes["error "+tail(stderr, 300)]++
					return
				}
				raw, _ := os.ReadFile(out)
				var b batchOut
				json.Unmarshal(raw, &b)
				v := ""
				if b.Violation != nil {
					v = " violation " + b.Violation.Class + " " + b.Violation.Detail
				}
				hashes[b.BatchHash+v]++
			}()
		}
		wg.Wait()
		if len(hashes) != 1 {
			bad++
			fmt.Println("seed", s, "diverges:", hashes)
		}
	}
	fmt.Printf("%s: %d processes x %d runs, 6 seeds, %d seeds diverged\n", id, total, runs, bad)
	if bad > 0 {
		return 2
	}
	return 0
}

func printKnown(e *Env, id string) {
	raw, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(raw), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			fmt.Println("KNOWN-FINDING: " + strings.TrimPrefix(l, "known: "))
		}
	}
}

func writeEvidence(e *Env, p *plan, tier string, sum *summary, secs, wall float64, viol int) error {
	faults := map[string]int64{}
	probes := map[string]int64{}
	other := map[string]int64{}
	kindsRun := map[string]int64{}
	for k, v := range sum.counters {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "probe."):
			probes[k[6:]] = v
		case strings.HasPrefix(k, "kind."):
			kindsRun[k[5:]] = v
		default:
			other[k] = v
		}
	}
	samples := make([]any, 0, len(sum.samples))
	for _, s := range sum.samples {
		samples = append(samples, s)
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(sum.runs) / wall * 3600
	}
	steps := other["steps"]
	cov := map[string]any{
		"evaluations":                sum.runs,
		"distinct_nontrivial":        len(sum.distinct),
		"rule":                       p.rule,
		"distinct_states":            len(sum.states),
		"distinct_states_measure":    p.measure,
		"samples":                    samples,
		"simulated_runs":             sum.runs,
		"seeds":                      sum.runs,
		"runs_per_hour":              int64(perHour),
		"simulated_time":             fmt.Sprintf("%d scheduler steps (yield points) executed; the code under test reads no clock, so simulated time is counted in steps", steps),
		"fault_kinds_injected":       faults,
		"probes_hit":                 probes,
		"run_kinds":                  kindsRun,
		"other_counts":               other,
		"processes":                  sum.procs,
		"components_real":            p.real,
		"components_stub":            p.stub,
		"search_seconds":             secs,
		"instrumented_files":         e.instrN,
		"deciding_technique":         "deterministic simulation with seeded fault and schedule search",
		"violation_replay_semantics": "a violation is minimised and re-executed in two fresh processes before it is reported",
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seedInt(), "level": p.level,
		"coverage": cov, "assumptions": p.assume, "wall_s": wall, "violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(e.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, p.id+".json"), b, 0o644)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var errNotYet = errors.New("not implemented")
