// Command sim is the in-process simulator. It is built by the check driver
// from an instrumented copy of the tree under test.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// Rand is the only source of choices of a run.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) P(percent int) bool { return r.N(100) < percent }

func pick[T any](r *Rand, xs []T) T { return xs[r.N(len(xs))] }

// Violation is what a run found.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

func vio(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

// Stats are counted over a batch.
type Stats struct {
	C        map[string]int64
	runHash  uint64
	states   map[uint64]struct{}
	runsSeen map[uint64]struct{}
	trivial  bool
	Samples  []json.RawMessage
	trace    *strings.Builder
}

func newStats() *Stats {
	return &Stats{C: map[string]int64{}, states: map[uint64]struct{}{}, runsSeen: map[uint64]struct{}{}}
}

// Inc counts a fired fault, probe or operation kind.
func (s *Stats) Inc(name string) { s.C[name]++ }

func (s *Stats) Add(name string, n int64) { s.C[name] += n }

// Log adds an observation to the run's event log.
func (s *Stats) Log(format string, a ...any) {
	line := fmt.Sprintf(format, a...)
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], s.runHash)
	h.Write(b[:])
	h.Write([]byte(line))
	s.runHash = h.Sum64()
	if s.trace != nil {
		s.trace.WriteString(line + "\n")
	}
}

// State counts a distinct state or interleaving reached.
func (s *Stats) State(h uint64) {
	if len(s.states) < 1<<20 {
		s.states[h] = struct{}{}
	}
}

// Trivial marks the run as not counting as a non-trivial case.
func (s *Stats) Trivial() { s.trivial = true }

// Kind is one family of simulated runs.
type Kind struct {
	Name   string
	Gen    func(r *Rand, deep bool) any
	New    func() any
	Run    func(sc any, st *Stats) *Violation
	Shrink func(sc any) []any
}

var kinds = map[string]*Kind{}

// weights of kinds per property
var properties = map[string][]string{}

func register(props []string, k *Kind) {
	kinds[k.Name] = k
	for _, p := range props {
		properties[p] = append(properties[p], k.Name)
	}
}

type runRec struct {
	Kind     string          `json:"kind"`
	Seed     uint64          `json:"seed"`
	Scenario json.RawMessage `json:"scenario"`
}

type batchOut struct {
	Runs      int64             `json:"runs"`
	Counters  map[string]int64  `json:"counters"`
	Samples   []json.RawMessage `json:"samples"`
	Violation *Violation        `json:"violation,omitempty"`
	Prefix    []runRec          `json:"prefix,omitempty"`
	BatchHash string            `json:"batch_hash"`
	Wall      float64           `json:"wall"`
}

// runOne executes one scenario under the recovery and step accounting common to all kinds.
func runOne(k *Kind, sc any, st *Stats) (v *Violation) {
	defer func() {
		if p := recover(); p != nil {
			zzv.EndCount()
			if h, ok := p.(zzv.Hang); ok {
				v = vio("hang", "%s", h.Error())
				return
			}
			v = vio("panic", "%v\n%s", p, shortStack())
		}
	}()
	runtime.SimRandMode, runtime.SimRand = 1, 0
	v = k.Run(sc, st)
	zzv.EndCount()
	return v
}

// shortStack keeps the functions of the code under test on the stack of a recovered panic.
func shortStack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "github.com/KSpaceer/") || strings.HasPrefix(l, "simh/models") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// scoped runs f with a step budget and reports a panic as an error value.
func scoped(limit int64, f func()) (steps int64, panicked any) {
	zzv.BeginCount(limit)
	defer func() {
		steps = zzv.EndCount()
		panicked = recover()
	}()
	f()
	return
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "batch":
		batchMain(os.Args[2:])
	case "exec":
		execMain()
	case "shrink":
		shrinkMain()
	case "scenario":
		scenarioMain(os.Args[2:])
	default:
		if f := extraModes[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

var extraModes = map[string]func([]string){}

type batchReq struct {
	Property string  `json:"property"`
	Seed     uint64  `json:"seed"`
	Start    uint64  `json:"start"`
	Stride   uint64  `json:"stride"`
	MaxRuns  int64   `json:"max_runs"`
	Seconds  float64 `json:"seconds"`
	Deep     bool    `json:"deep"`
	Out      string  `json:"out"`
	Hashes   string  `json:"hashes"`
	Data     string  `json:"data"`
	Trace    bool    `json:"trace"`
	KeepAll  bool    `json:"keep_all"`
	OnlyKind string  `json:"only_kind"`
}

// dataFile holds baselines and other inputs computed by the driver.
var dataFile = os.Getenv("VERIF_DATA")

func batchMain(args []string) {
	var req batchReq
	if err := json.Unmarshal([]byte(args[0]), &req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if req.Data != "" {
		dataFile = req.Data
	}
	st := newStats()
	start := time.Now()
	out := batchOut{}
	names := properties[req.Property]
	if req.OnlyKind != "" {
		names = []string{req.OnlyKind}
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no runs for property", req.Property)
		os.Exit(2)
	}
	var prefix []runRec
	var batchHash uint64
	var cur [9]byte
	if req.Deep {
		cur[8] = 1
	}
	curFile, _ := os.Create(req.Out + ".cur")
	if req.Trace {
		st.trace = &strings.Builder{}
	}
	for i := int64(0); i < req.MaxRuns; i++ {
		if req.Seconds > 0 && i%8 == 0 && time.Since(start).Seconds() > req.Seconds {
			break
		}
		// the clock decides only how many runs there are, never what a run does
		seed := req.Seed<<32 + req.Start + uint64(i)*req.Stride
		binary.LittleEndian.PutUint64(cur[:], seed)
		if curFile != nil {
			curFile.WriteAt(cur[:], 0)
		}
		r := NewRand(seed)
		k := kinds[names[r.N(len(names))]]
		sc := k.Gen(r, req.Deep)
		js, err := json.Marshal(sc)
		if err != nil {
			panic(err)
		}
		st.runHash, st.trivial = 1, false
		setPoolsFor(seed)
		if st.trace != nil {
			fmt.Fprintf(st.trace, "== seed %d kind %s\n", seed, k.Name)
		}
		st.Inc("kind." + k.Name)
		v := runOne(k, sc, st)
		out.Runs++
		st.Log("end %v", v != nil)
		if !st.trivial {
			st.runsSeen[st.runHash] = struct{}{}
		}
		batchHash = batchHash*1099511628211 ^ st.runHash
		if len(st.Samples) < 2 && i%17 == 0 && len(js) < 4000 {
			b, _ := json.Marshal(map[string]any{"seed": seed, "kind": k.Name, "scenario": json.RawMessage(js)})
			st.Samples = append(st.Samples, b)
		}
		prefix = append(prefix, runRec{k.Name, seed, js})
		if len(prefix) > 400 {
			prefix = prefix[1:]
		}
		if v != nil {
			out.Violation = v
			out.Prefix = prefix
			break
		}
	}
	out.Counters = st.C
	out.Samples = st.Samples
	out.BatchHash = fmt.Sprintf("%016x", batchHash)
	out.Wall = time.Since(start).Seconds()
	if req.Hashes != "" {
		writeHashes(req.Hashes, st.runsSeen)
		writeHashes(req.Hashes+".states", st.states)
	}
	if st.trace != nil {
		os.WriteFile(req.Out+".trace", []byte(st.trace.String()), 0o644)
	}
	b, _ := json.Marshal(out)
	if err := os.WriteFile(req.Out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func writeHashes(path string, set map[uint64]struct{}) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()
	for h := range set {
		binary.Write(w, binary.LittleEndian, h)
	}
}

// execReq executes explicit scenarios: the replay of a finding.
type execReq struct {
	Runs []runRec `json:"runs"`
	Data string   `json:"data"`
}

type execOut struct {
	Violation *Violation `json:"violation,omitempty"`
	At        int        `json:"at"`
	Hash      string     `json:"hash"`
	Trace     string     `json:"trace"`
}

func decodeScenario(rr runRec) (*Kind, any, error) {
	k := kinds[rr.Kind]
	if k == nil {
		return nil, nil, fmt.Errorf("unknown kind %q", rr.Kind)
	}
	sc := k.New()
	return k, sc, json.Unmarshal(rr.Scenario, sc)
}

func execMain() {
	var req execReq
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if req.Data != "" {
		dataFile = req.Data
	}
	st := newStats()
	st.trace = &strings.Builder{}
	var out execOut
	for i, rr := range req.Runs {
		k, sc, err := decodeScenario(rr)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		setPoolsFor(rr.Seed)
		if v := runOne(k, sc, st); v != nil {
			out.Violation, out.At = v, i
			break
		}
	}
	out.Hash = fmt.Sprintf("%016x", st.runHash)
	out.Trace = st.trace.String()
	if len(out.Trace) > 20000 {
		out.Trace = "...\n" + out.Trace[len(out.Trace)-20000:]
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

func shrinkMain() {
	var rr runRec
	if err := json.NewDecoder(os.Stdin).Decode(&rr); err != nil {
		os.Exit(2)
	}
	k, sc, err := decodeScenario(rr)
	if err != nil {
		os.Exit(2)
	}
	var out []json.RawMessage
	if k.Shrink != nil {
		for _, c := range k.Shrink(sc) {
			b, _ := json.Marshal(c)
			out = append(out, b)
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

// Pools' behaviour of a run is a function of its seed alone.
func setPoolsFor(seed uint64) {
	r := NewRand(seed ^ 0x5bd1e995)
	zzv.SetPools([]int{100, 100, 60, 0}[r.N(4)], r.P(50), r.U64(), true)
}

// scenarioMain prints the scenario of a seed without executing it.
func scenarioMain(args []string) {
	var req batchReq
	if err := json.Unmarshal([]byte(args[0]), &req); err != nil {
		os.Exit(2)
	}
	if req.Data != "" {
		dataFile = req.Data
	}
	r := NewRand(req.Seed)
	names := properties[req.Property]
	k := kinds[names[r.N(len(names))]]
	js, _ := json.Marshal(k.Gen(r, req.Deep))
	b, _ := json.Marshal(runRec{k.Name, req.Seed, js})
	os.Stdout.Write(b)
}

// shrinkSlice proposes shorter versions of a list, larger cuts first.
func shrinkSlice[T any](xs []T) [][]T {
	var out [][]T
	n := len(xs)
	for size := n; size >= 1; size /= 2 {
		for at := 0; at < n; at += size {
			end := min(at+size, n)
			c := append(append([]T{}, xs[:at]...), xs[end:]...)
			if len(c) < n {
				out = append(out, c)
			}
		}
		if size == 1 {
			break
		}
	}
	return out
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}
