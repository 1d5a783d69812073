package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"hash/fnv"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// This file runs real yamlygen processes on a simulated environment: each
// file-system call and process start of theirs is reported to the simulator,
// which decides the order, what fails and where a process dies.

type genConfig struct {
	Pkg    string   `json:"pkg"`
	Type   string   `json:"type"`
	Engine string   `json:"engine"`
	Flags  []string `json:"flags,omitempty"`
	Output string   `json:"output,omitempty"`
	Tags   string   `json:"tags,omitempty"`
}

func (c genConfig) key() string { b, _ := json.Marshal(c); return string(b) }

func (c genConfig) outName() string {
	if c.Output != "" {
		return c.Output
	}
	return strings.ToLower(c.Type) + "_yamly.go"
}

func (c genConfig) args() []string {
	a := []string{"-type", c.Type, "-engine", c.Engine}
	a = append(a, c.Flags...)
	if c.Output != "" {
		a = append(a, "-output", c.Output)
	}
	if c.Tags != "" {
		a = append(a, "-build-tags", c.Tags)
	}
	return a
}

// valid says whether the generator is able to generate code for the request.
func (c genConfig) valid() bool {
	t, ok := genPackages[c.Pkg]
	return ok && t.types[c.Type] && !strings.Contains(c.Output, "/") && c.Engine != "none"
}

type genPackage struct {
	files map[string]string
	types map[string]bool // usable types
	lack  []string        // types that cannot be generated
}

const genTypes = `

import "time"

type Alpha struct {
	Name  string
	Count int ` + "`yaml:\"count,omitempty\"`" + `
	Tags  []string
	Inner AlphaInner
	Ptr   *AlphaInner
	When  time.Time
	M     map[string]int
}

type AlphaInner struct {
	A bool
	B [2]float64
	L []map[string]AlphaLeaf
}

type AlphaLeaf struct{ X any }

type Beta struct {
	BetaBase
	Values map[string][]int64
	Next   *Beta
}

type BetaBase struct {
	ID   uint8
	Text string ` + "`yaml:\"text\"`" + `
}

type Gamma []struct {
	K string
	V *uint32
}

type Delta map[string]Epsilon

type Epsilon struct{ Kind string }
`

var genGood = map[string]bool{"Alpha": true, "Beta": true, "Gamma": true, "Delta": true}

var genPackages = map[string]genPackage{
	"plain": {files: map[string]string{"types.go": "package plain" + genTypes}, types: genGood, lack: []string{"Missing", "alpha"}},
	// the directory has more files than the package
	"crowded": {files: map[string]string{
		"types.go":         "package crowd" + genTypes,
		"a_test.go":        "package crowd_test\n",
		"b_test.go":        "package crowd\n\nfunc (Alpha) helper() {}\n",
		"gen.go":           "//go:build ignore\n\npackage main\n\nfunc main() {}\n",
		"other_windows.go": "package crowd\n\nfunc undefinedElsewhere() { x }\n",
		"notes.txt":        "Alpha Beta",
		"sub/sub.go":       "package sub\n",
		"_skipped.go":      "package skipped\n",
	}, types: genGood, lack: []string{"Missing"}},
	// a type that cannot be generated code for, the others can
	"chans": {files: map[string]string{"types.go": "package chans" + genTypes, "bad.go": "package chans\n\ntype Bad struct{ C chan int }\n\ntype Fn struct{ F func() }\n"},
		types: genGood, lack: []string{"Bad", "Fn"}},
	"syntax": {files: map[string]string{"types.go": "package syntax" + genTypes, "torn.go": "package syntax\n\nfunc torn() {\n"}, lack: []string{"Alpha"}},
	"undef":  {files: map[string]string{"types.go": "package undef" + genTypes, "undef.go": "package undef\n\nvar x = undefined\n"}, lack: []string{"Beta"}},
}

// genFault happens at the At-th call, at the At-th call of the class Op, or
// (Op "after") at the At-th call after that at which the fault listed before it was due.
type genFault struct {
	Run   int    `json:"run"`
	Op    string `json:"op,omitempty"`
	At    int    `json:"at"`
	Kind  string `json:"kind"`
	Errno int    `json:"errno,omitempty"`
	N     int    `json:"n,omitempty"`
}

type genSwitch struct {
	Step int `json:"step"`
	To   int `json:"to"`
}

type genScenario struct {
	Configs []genConfig `json:"configs"`
	Invoke  []int       `json:"invoke"` // how the directory is named, per process
	Prior   string      `json:"prior"`
	Noise   []string    `json:"noise,omitempty"`
	Faults  []genFault  `json:"faults,omitempty"`
	Crashes int         `json:"crashes,omitempty"` // runs before the undisturbed one
	Rand    []uint64    `json:"rand"`
	Sched   uint64      `json:"sched,omitempty"`
	Quant   int         `json:"quant,omitempty"`
	Switch  []genSwitch `json:"switch,omitempty"`
}

// toolRand is the simulator's generator of choices (as in the harness).
type toolRand struct{ s uint64 }

func newToolRand(seed uint64) *toolRand { return &toolRand{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *toolRand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *toolRand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *toolRand) P(pc int) bool { return r.N(100) < pc }
func tpick[T any](r *toolRand, xs []T) T {
	return xs[r.N(len(xs))]
}

// genBase is what an undisturbed run of a request does.
type genBase struct {
	cfg    genConfig
	output string
	ops    []string
	code   int
}

// genSim is the state of a check.
type genSim struct {
	e      *Env
	bin    string
	play   string
	files  map[string]string // go.mod, go.sum
	mu     sync.Mutex
	memo   map[string]*genChild
	bases  map[string]*genBase
	plays  int
	real   int64
	reused int64
	list   []genConfig
	runNo  int
}

// genChild is the recorded outcome of a child process.
type genChild struct {
	once     sync.Once
	out, err []byte
	code     int
	impure   bool // changes files: never reused
	failure  error
}

func (e *Env) newGenSim() (*genSim, error) {
	ov := map[string]string{}
	save := e.overlay
	e.overlay = ov
	if err := e.stdRandOverlay(); err != nil {
		return nil, err
	}
	if err := e.sysOverlay(); err != nil {
		return nil, err
	}
	e.overlay = save
	ovf, err := e.writeOverlay("genoverlay.json", ov)
	if err != nil {
		return nil, err
	}
	g := &genSim{e: e, bin: e.path("bin", "yamlygen-sim"), play: e.path("bin", "play"), memo: map[string]*genChild{}, bases: map[string]*genBase{}, files: map[string]string{}}
	if err := os.MkdirAll(e.path("bin"), 0o755); err != nil {
		return nil, err
	}
	if err := e.goCmd(repo, "build", "-overlay", ovf, "-o", g.bin, "./cmd/yamlygen"); err != nil {
		return nil, err
	}
	src, _ := embedded.ReadFile("shim/play.c")
	p, err := e.write("shim/play.c", string(src))
	if err != nil {
		return nil, err
	}
	if msg, err := exec.Command("gcc", "-O1", "-static", "-o", g.play, p).CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the stand-in for child processes: %w\n%s", err, msg)
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.verif, "harness", f))
		if err != nil {
			return nil, err
		}
		g.files[f] = strings.Replace(string(b), "module simh", "module example.com/target", 1)
		g.files[f] = strings.ReplaceAll(g.files[f], "=> /repo", "=> "+repo)
	}
	for _, d := range []string{"play", "gotmp"} {
		if err := os.MkdirAll(e.path(d), 0o755); err != nil {
			return nil, err
		}
	}
	return g, nil
}

// genWorld is the simulated machine of one run.
type genWorld struct {
	together bool // processes run at the same time and so have different numbers
	g        *genSim
	root     string
	pkg      string // directory name of the package
	hash     uint64
	trace    *strings.Builder
	count    map[string]int64
	steps    int64
	states   map[uint64]struct{}
}

func (w *genWorld) log(format string, a ...any) {
	line := w.norm(fmt.Sprintf(format, a...))
	h := fnv.New64a()
	fmt.Fprintf(h, "%x", w.hash)
	h.Write([]byte(line))
	w.hash = h.Sum64()
	if w.trace != nil {
		w.trace.WriteString(line + "\n")
	}
}

var digits = regexp.MustCompile(`[0-9]{4,}`)

func (w *genWorld) norm(s string) string {
	return digits.ReplaceAllString(strings.ReplaceAll(s, w.root, "ROOT"), "#")
}

func (g *genSim) newWorld(name, pkg string) (*genWorld, error) {
	w := &genWorld{g: g, root: g.e.path("w", (name + "________________")[:16]), pkg: pkg, count: map[string]int64{}, hash: 1}
	if err := os.RemoveAll(w.root); err != nil {
		return nil, err
	}
	for f, text := range g.files {
		if err := w.put("mod/"+f, text); err != nil {
			return nil, err
		}
	}
	for f, text := range genPackages[pkg].files {
		if err := w.put("mod/"+pkg+"/"+f, text); err != nil {
			return nil, err
		}
	}
	return w, os.MkdirAll(w.root+"/tmp", 0o755)
}

func (w *genWorld) put(rel, text string) error {
	p := filepath.Join(w.root, rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return err
	}
	return os.WriteFile(p, []byte(text), 0o644)
}

func (w *genWorld) close() { os.RemoveAll(w.root) }

// snapshot returns all files of the module and the temporary directory.
func (w *genWorld) snapshot() map[string]string {
	out := map[string]string{}
	filepath.WalkDir(w.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(w.root, p)
		if d.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		out[rel] = string(b)
		return nil
	})
	return out
}

// process is one simulated generator process.
type process struct {
	w      *genWorld
	no     int
	cfg    genConfig
	cmd    *exec.Cmd
	in     *os.File
	rd     *bufio.Reader
	out    *os.File
	req    []string // the call it waits for a decision about
	calls  int
	ops    []string
	faults []genFault
	due    []int // per fault: the call it is due at, -1: not known yet
	seen   map[string]int
	fired  []string // operation and fault
	done   bool
	code   int // 1000+signal when killed
	died   bool
	stderr bytes.Buffer
	stdout bytes.Buffer
	stuck  bool
	// between an attempt to remove something and the next call that is not part of a removal
	removing, removalFault bool
}

func (w *genWorld) start(no int, cfg genConfig, invoke int, rnd uint64, faults []genFault) (*process, error) {
	p := &process{w: w, no: no, cfg: cfg, faults: faults, seen: map[string]int{}}
	for range faults {
		p.due = append(p.due, -1)
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	ar, aw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	args := cfg.args()
	dir := w.root + "/mod/" + w.pkg
	// the same random numbers, the same process number: both are met again after a restart
	// (above any real process's number, so that nothing else can be meant by it)
	pid := 1_000_000_000 + rnd%9000*8
	if w.together {
		pid += uint64(no % 8)
	}
	env := goEnviron("TMPDIR="+w.root+"/tmp", "YAMLYSIM_AREA="+w.root, "YAMLYSIM_RAND="+fmt.Sprint(rnd), "YAMLYSIM_PID="+fmt.Sprint(pid))
	switch invoke {
	case 1:
		args = append(args, dir)
		dir = w.root
	case 2:
		args = append(args, w.pkg)
		dir = w.root + "/mod"
	case 3:
		env = append(env, "GOFILE=types.go")
	case 4:
		args = append(args, "./"+w.pkg+"/../"+w.pkg+"/")
		dir = w.root + "/mod"
	case 5:
		args = append(args, w.root+"/mod//"+w.pkg+"/.")
		dir = w.root + "/tmp"
	}
	p.cmd = exec.Command(w.g.bin, args...)
	p.cmd.Dir = dir
	p.cmd.Env = append(env, "PWD="+dir)
	p.cmd.ExtraFiles = []*os.File{rw, ar}
	p.cmd.Stdout, p.cmd.Stderr = &p.stdout, &p.stderr
	p.cmd.WaitDelay = 5 * time.Second
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	rw.Close()
	ar.Close()
	p.in, p.out = rr, aw
	p.rd = bufio.NewReader(rr)
	p.advance()
	return p, nil
}

// advance waits until the process makes its next call or has ended.
func (p *process) advance() {
	p.in.SetReadDeadline(time.Now().Add(90 * time.Second))
	line, err := p.rd.ReadString('\n')
	if err == nil {
		p.req = strings.Split(strings.TrimSuffix(line, "\n"), "\x00")
		return
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		p.stuck = true
		p.cmd.Process.Kill()
	}
	p.req = nil
	p.in.Close()
	p.out.Close()
	p.cmd.Wait()
	p.done = true
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		p.code = 1000 + int(ws.Signal())
	} else {
		p.code = p.cmd.ProcessState.ExitCode()
	}
	p.w.log("process %d ends with %d", p.no, p.code)
}

const (
	eIO, eACCES, eNOSPC, eROFS, eMFILE, eAGAIN, eNOENT, eNOMEM = 5, 13, 28, 30, 24, 11, 2, 12
)

func mutating(req []string) bool {
	switch req[0] {
	case "write", "mkdir", "rename", "unlink", "chmod", "fchmod", "truncate", "ftruncate", "link", "symlink":
		return true
	case "open":
		f, _ := strconv.Atoi(req[3])
		return f&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) != 0
	}
	return false
}

func growing(req []string) bool {
	switch req[0] {
	case "write", "mkdir", "link", "symlink":
		return true
	case "open":
		f, _ := strconv.Atoi(req[3])
		return f&os.O_CREATE != 0
	}
	return false
}

// opName is the class of a call, as counted and targeted by faults.
func opName(req []string) string {
	switch req[0] {
	case "open":
		f, _ := strconv.Atoi(req[3])
		switch {
		case f&syscall.O_DIRECTORY != 0:
			return "opendir"
		case f&os.O_CREATE != 0:
			return "create"
		}
		return "open"
	case "close":
		return "close_" + req[3]
	case "exec":
		if len(req) > 5 && (req[5] == "env" || req[5] == "run") {
			return "exec_" + req[5]
		}
	}
	return req[0]
}

// step lets the process perform the call it waits for.
func (p *process) step() error {
	req := p.req
	at := p.calls
	p.calls++
	p.w.steps++
	op := opName(req)
	p.ops = append(p.ops, op)
	switch op {
	case "unlink":
		p.removing = true
	case "open", "opendir", "stat", "readdir", "close_r", "read":
	default:
		p.removing = false
	}
	fire := func(kind string) {
		if p.removing {
			p.removalFault = true
		}
		p.fired = append(p.fired, op+" "+kind)
		p.w.count["fault."+kind+"_"+op]++
	}
	reply := "o0"
	var ferr error
	isExec := req[0] == "exec"
	kind, cut := "", 0
	nth := p.seen[op]
	p.seen[op]++
	for i, f := range p.faults {
		switch {
		case p.due[i] >= 0:
		case f.Op == "" && f.At == at, f.Op == op && f.At == nth:
			p.due[i] = at
		case f.Op == "after" && i > 0 && p.due[i-1] >= 0:
			p.due[i] = p.due[i-1] + f.At
		}
	}
	for i, f := range p.faults {
		sticky := f.Kind == "full" || f.Kind == "ro" || f.Kind == "fds"
		if p.due[i] < 0 || at != p.due[i] && !(sticky && at > p.due[i]) {
			continue
		}
		errno := func(n int) {
			if isExec {
				n = []int{eAGAIN, eNOENT, eNOMEM}[f.Errno%3]
			}
			reply = "e" + strconv.Itoa(n)
			kind = f.Kind
			if f.Kind == "err" {
				kind = "err" + strconv.Itoa(n)
			}
		}
		switch f.Kind {
		case "err":
			errno(f.Errno)
		case "short":
			if op == "write" || op == "read" {
				reply, kind = "s"+strconv.Itoa(max(1, f.N)), f.Kind
			} else if isExec {
				kind, cut = "partial", f.N
				if f.Errno%2 == 0 {
					kind = "partkill"
				}
			}
		case "lost":
			if op == "close_w" {
				reply, kind = "l"+strconv.Itoa(eIO), f.Kind
			} else if isExec {
				kind = "outkill"
			}
		case "exit", "kill":
			if isExec {
				kind = f.Kind
			}
		case "full":
			if growing(req) {
				errno(eNOSPC)
			}
		case "ro":
			if mutating(req) {
				errno(eROFS)
			}
		case "fds":
			if req[0] == "open" {
				errno(eMFILE)
			}
		case "crash":
			reply, kind = "c0", f.Kind
		case "crashed":
			reply, kind = "d0", f.Kind
		case "torn":
			if op == "write" {
				reply, kind = "t"+strconv.Itoa(f.N), f.Kind
			} else {
				reply, kind = "d0", "crashed"
			}
		}
		if kind != "" {
			break
		}
	}
	if isExec && reply[0] != 'e' && reply[0] != 'c' {
		var c string
		c, ferr = p.child(req, kind, cut)
		if ferr != nil {
			return ferr
		}
		if reply[0] == 'd' {
			reply = "k0 " + c
		} else {
			reply = "r0 " + c
		}
	}
	if kind != "" {
		fire(kind)
		if strings.HasPrefix(kind, "crash") || kind == "torn" {
			p.died = true
		}
	}
	note := reply
	if isExec && (reply[0] == 'r' || reply[0] == 'k') {
		f := strings.Split(reply[3:], "\x00")
		b, _ := os.ReadFile(f[1])
		note = fmt.Sprintf("%s status %s output %x", reply[:2], f[3], fnvHash(p.w.norm(string(b))))
	}
	end := 4
	if isExec {
		n, _ := strconv.Atoi(req[3])
		end = 4 + n
	}
	p.w.log("process %d call %d: %s -> %s", p.no, at, strings.Join(req[:min(len(req), end)], " "), note)
	if _, err := p.out.WriteString(reply + "\n"); err != nil {
		return err
	}
	p.advance()
	return nil
}

func fnvHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// child decides what a child process does and returns the stand-in's command line.
func (p *process) child(req []string, kind string, n int) (string, error) {
	argc, _ := strconv.Atoi(req[3])
	argv, env := req[4:4+argc], req[4+argc:]
	dir := req[2]
	if dir == "" || !filepath.IsAbs(dir) {
		cwd, err := os.Readlink(fmt.Sprintf("/proc/%d/cwd", p.cmd.Process.Pid))
		if err != nil {
			return "", err
		}
		dir = filepath.Join(cwd, dir)
	}
	c := &genChild{}
	if filepath.Base(req[1]) == "go" && argc == 3 && argv[1] == "env" && argv[2] == "GOMOD" {
		found := "/dev/null"
		for d := filepath.Clean(dir); strings.HasPrefix(d, p.w.root); d = filepath.Dir(d) {
			if fi, err := os.Stat(d + "/go.mod"); err == nil && !fi.IsDir() {
				found = d + "/go.mod"
				break
			}
		}
		c.out = []byte(found + "\n")
	} else {
		var err error
		if c, err = p.w.realChild(req[1], argv, env, dir); err != nil {
			return "", err
		}
	}
	out, code := c.out, c.code
	switch kind {
	case "partial":
		out, code = cutOutput(out, n), 1
	case "partkill":
		out, code = cutOutput(out, n), 1009
	case "exit":
		out, code = nil, 1
	case "kill":
		out, code = nil, 1009
	case "outkill":
		code = 1009
	}
	p.w.g.mu.Lock()
	p.w.g.plays++
	no := p.w.g.plays
	p.w.g.mu.Unlock()
	base := p.w.root + ".play" + strconv.Itoa(no)
	errText := strings.ReplaceAll(string(c.err), "\x00ROOT\x00", p.w.root)
	if err := errors.Join(os.WriteFile(base+".out", out, 0o600), os.WriteFile(base+".err", []byte(errText), 0o600)); err != nil {
		return "", err
	}
	return strings.Join([]string{p.w.g.play, base + ".out", base + ".err", strconv.Itoa(code)}, "\x00"), nil
}

// cutOutput returns a beginning of a child's output: up to the end of a
// declaration, or anywhere.
func cutOutput(out []byte, n int) []byte {
	ends := []int{len(out) / 2}
	for i := range out {
		if bytes.HasPrefix(out[i:], []byte("\n}\n")) {
			ends = append(ends, i+3)
		}
	}
	if n%3 == 0 {
		return out[:n%(len(out)+1)]
	}
	return out[:ends[n%len(ends)]]
}

func sourceFile(name string) bool {
	switch filepath.Ext(name) {
	case ".go", ".mod", ".sum", ".s", ".h", ".c", ".work":
		return true
	}
	return false
}

// realChild runs the real child process, or takes the recorded outcome of an
// identical one: same arguments, same sources.
func (w *genWorld) realChild(argv0 string, argv, env []string, dir string) (*genChild, error) {
	replaced := map[string]bool{}
	var key strings.Builder
	key.WriteString(w.norm(strings.Join(append([]string{argv0, dir}, argv...), "\x00")))
	for _, v := range env {
		if !strings.HasPrefix(v, "PWD=") && !strings.HasPrefix(v, "TMPDIR=") {
			key.WriteString("\x00" + w.norm(v))
		}
	}
	for _, a := range argv[1:] {
		if i := strings.Index(a, "="); i >= 0 {
			a = a[i+1:]
		}
		if a == "" {
			continue
		}
		if !filepath.IsAbs(a) {
			a = filepath.Join(dir, a)
		}
		b, err := os.ReadFile(a)
		if err != nil {
			continue
		}
		var ov struct{ Replace map[string]string }
		if json.Unmarshal(b, &ov) == nil && ov.Replace != nil {
			for _, k := range sortedKeys(ov.Replace) {
				c, _ := os.ReadFile(ov.Replace[k])
				fmt.Fprintf(&key, "\x00%s=%s", w.norm(k), strings.ReplaceAll(string(c), w.root, "ROOT"))
				replaced[k] = true
			}
			continue
		}
		key.WriteString("\x00" + strings.ReplaceAll(string(b), w.root, "ROOT"))
	}
	filepath.WalkDir(w.root+"/mod", func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() && sourceFile(p) && !replaced[p] {
			b, _ := os.ReadFile(p)
			fmt.Fprintf(&key, "\x00%s=%s", strings.TrimPrefix(p, w.root), b)
		}
		return nil
	})
	k := key.String()
	g := w.g
	g.mu.Lock()
	c := g.memo[k]
	if c == nil {
		c = &genChild{}
		g.memo[k] = c
	} else {
		g.reused++
	}
	g.mu.Unlock()
	run := func(c *genChild) {
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
		defer cancel()
		if filepath.Base(argv0) == "go" {
			argv0 = goroot + "/bin/go"
		}
		cmd := exec.CommandContext(ctx, argv0, argv[1:]...)
		cmd.Dir = dir
		for _, v := range env {
			if !strings.HasPrefix(v, "TMPDIR=") {
				cmd.Env = append(cmd.Env, v)
			}
		}
		cmd.Env = append(cmd.Env, "TMPDIR="+g.e.path("gotmp"))
		before := w.snapshot()
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		err := cmd.Run()
		g.mu.Lock()
		g.real++
		g.mu.Unlock()
		if ctx.Err() != nil {
			c.failure = fmt.Errorf("child process took too long: %v", argv)
			return
		}
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			c.failure = err
			return
		}
		c.code = cmd.ProcessState.ExitCode()
		c.out = out.Bytes()
		c.err = bytes.ReplaceAll(errb.Bytes(), []byte(w.root), []byte("\x00ROOT\x00"))
		c.impure = len(diffSnap(before, w.snapshot())) > 0
	}
	first := false
	c.once.Do(func() { first = true; run(c) })
	if c.impure && !first {
		c = &genChild{}
		run(c)
	}
	return c, c.failure
}

// diffSnap lists the differences between two snapshots.
func diffSnap(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if w != v {
			out = append(out, "!"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	return out
}

const maxCalls = 4000

// runAlone runs one process to its end.
func (w *genWorld) runAlone(no int, cfg genConfig, invoke int, rnd uint64, faults []genFault) (*process, error) {
	p, err := w.start(no, cfg, invoke, rnd, faults)
	if err != nil {
		return nil, err
	}
	for !p.done {
		if p.calls > maxCalls {
			p.stuck = true
			p.kill()
			break
		}
		if err := p.step(); err != nil {
			p.kill()
			return nil, err
		}
	}
	w.dropPlays()
	return p, nil
}

func (p *process) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	p.out.Close()
	p.cmd.Wait()
	p.done = true
	p.code = 1009
}

func (w *genWorld) dropPlays() {
	m, _ := filepath.Glob(w.root + ".play*")
	for _, f := range m {
		os.Remove(f)
	}
}

func (p *process) describe() string {
	return fmt.Sprintf("yamlygen %s exited with %d, stderr: %s", strings.Join(p.cfg.args(), " "), p.code, firstLines(p.w.norm(p.stderr.String()), 6))
}

// base returns what an undisturbed run of the request does.
func (g *genSim) base(cfg genConfig) (*genBase, *Violation, error) {
	g.mu.Lock()
	b := g.bases[cfg.key()]
	g.mu.Unlock()
	if b != nil {
		return b, nil, nil
	}
	w, err := g.newWorld(fmt.Sprintf("b%015x", fnvHash(cfg.key())>>4), cfg.Pkg)
	if err != nil {
		return nil, nil, err
	}
	defer w.close()
	before := w.snapshot()
	p, err := w.runAlone(0, cfg, 0, 1, nil)
	if err != nil {
		return nil, nil, err
	}
	after := w.snapshot()
	outRel := "mod/" + cfg.Pkg + "/" + cfg.outName()
	b = &genBase{cfg: cfg, output: after[outRel], ops: p.ops, code: p.code}
	if p.stuck {
		return b, &Violation{"stuck", "an undisturbed run does not end: " + p.describe()}, nil
	}
	if cfg.valid() {
		if p.code != 0 {
			return b, &Violation{"undisturbed-run-fails", "undisturbed, " + p.describe()}, nil
		}
		if d := diffSnap(before, after); len(d) != 1 || d[0] != "+"+outRel {
			return b, &Violation{"undisturbed-run-leaves", fmt.Sprintf("undisturbed, yamlygen %v changes %v instead of only creating %s", cfg.args(), w.norm(fmt.Sprint(d)), outRel)}, nil
		}
		f, perr := parser.ParseFile(token.NewFileSet(), "", b.output, parser.AllErrors)
		if perr != nil || len(f.Decls) < 3 || !strings.Contains(b.output, "MarshalYAML") {
			return b, &Violation{"undisturbed-output", fmt.Sprintf("undisturbed, yamlygen %v exits with 0, but its output is not complete: %v", cfg.args(), perr)}, nil
		}
		cmd := exec.Command(goroot+"/bin/go", "build", "-o", os.DevNull, "-tags", cfg.Tags, "./"+cfg.Pkg)
		cmd.Dir = w.root + "/mod"
		cmd.Env = goEnviron("TMPDIR=" + g.e.path("gotmp"))
		if msg, err := cmd.CombinedOutput(); err != nil {
			return b, &Violation{"undisturbed-output", fmt.Sprintf("undisturbed, yamlygen %v exits with 0, but its output does not compile: %s", cfg.args(), firstLines(w.norm(string(msg)), 8))}, nil
		}
	} else {
		if p.code == 0 {
			return b, &Violation{"failure-reported-as-success", fmt.Sprintf("yamlygen %v in package %s cannot generate code, but exits with 0", cfg.args(), cfg.Pkg)}, nil
		}
		if d := diffSnap(before, after); len(d) > 0 {
			return b, &Violation{"failed-run-leaves", fmt.Sprintf("yamlygen %v in package %s fails (%d) and changes %v", cfg.args(), cfg.Pkg, p.code, w.norm(fmt.Sprint(d)))}, nil
		}
	}
	g.mu.Lock()
	g.bases[cfg.key()] = b
	g.mu.Unlock()
	return b, nil, nil
}

const stalePrior = "package %s\n\nfunc (v Alpha) Removed() int { return v.NoLongerThere }\n"

// prepare puts an earlier output and unrelated files in place.
func (w *genWorld) prepare(sc *genScenario, bases []*genBase) error {
	pkgName := ""
	for _, l := range strings.Split(genPackages[w.pkg].files["types.go"], "\n") {
		if strings.HasPrefix(l, "package ") {
			pkgName = strings.TrimPrefix(l, "package ")
		}
	}
	for i, c := range sc.Configs {
		rel := "mod/" + w.pkg + "/" + c.outName()
		if strings.Contains(c.Output, "/") {
			continue
		}
		text := ""
		if i > 0 && sc.Prior != "same" {
			break // what does not compile stands in the way of the others
		}
		switch sc.Prior {
		case "same":
			if bases[i] != nil {
				text = bases[i].output
			}
		case "stale":
			text = fmt.Sprintf(stalePrior, pkgName)
		case "edited": // same size
			if bases[i] != nil {
				text = strings.Replace(bases[i].output, "DO NOT EDIT", "DO NOT EDlT", 1)
			}
		case "longer":
			if bases[i] != nil {
				text = bases[i].output + "\n// " + strings.Repeat("more ", 50) + "\n"
			}
		case "garbage":
			text = "package " + pkgName + "\n\nnot Go at all {{{"
		case "cut":
			if bases[i] != nil {
				text = bases[i].output[:len(bases[i].output)/2]
			}
		}
		if text != "" {
			if err := w.put(rel, text); err != nil {
				return err
			}
		}
	}
	for i, n := range sc.Noise {
		rel, text := "", ""
		out := sc.Configs[0].outName()
		switch n {
		case "test":
			rel, text = fmt.Sprintf("zz%d_test.go", i), "package "+pkgName+"\n\nfunc (Alpha) testHelper() {}\n"
		case "xtest":
			rel, text = "aa_test.go", "package "+pkgName+"_test\n"
		case "ignored":
			rel, text = "0ignored.go", "//go:build ignore\n\npackage main\n\nfunc main() { undefined() }\n"
		case "ignored2":
			rel, text = "zignored.go", "//go:build neverset\n\npackage zother\n\ntype Alpha int\n"
		case "otheros":
			rel, text = "impl_plan9.go", "package "+pkgName+"\n\ntype Alpha string\n"
		case "tmp":
			rel, text = out+".1234567.tmp", "package broken {{{"
		case "tmpgo":
			rel, text = "_"+out, "broken {{{"
		case "dot":
			rel, text = "."+out, "broken {{{"
		case "bak":
			rel, text = out+"~", "broken {{{"
		case "dir":
			rel, text = "nested/nested.go", "package nested\n\ntype Alpha struct{ Other int }\n"
		case "cwdtmp":
			if err := w.put("tmp/yamly-bootstrap1/stub.go", "broken {{{"); err != nil {
				return err
			}
			if err := w.put("tmp/yamly-bootstrap1/output.go", "broken {{{"); err != nil {
				return err
			}
			continue
		}
		if err := w.put("mod/"+w.pkg+"/"+rel, text); err != nil {
			return err
		}
	}
	return nil
}

func (w *genWorld) runFaults(sc *genScenario, bases []*genBase) (*Violation, error) {
	cfg := sc.Configs[0]
	out := "mod/" + cfg.Pkg + "/" + cfg.outName()
	before := w.snapshot()
	p, err := w.runAlone(0, cfg, sc.Invoke[0], sc.Rand[0], sc.Faults)
	if err != nil {
		return nil, err
	}
	after := w.snapshot()
	w.log("fired %v", p.fired)
	if len(p.fired) == 0 {
		w.count["trivial"]++
	}
	w.state(fmt.Sprint(sc.Configs, p.fired, p.code, sc.Prior))
	if p.stuck {
		return &Violation{"stuck", "the process does not end: " + p.describe()}, nil
	}
	faults := fmt.Sprintf("faults (operation, fault): %v", p.fired)
	diff := diffSnap(before, after)
	if p.code == 0 {
		w.count["probe.succeeded_despite_fault"]++
		if !cfg.valid() {
			return &Violation{"failure-reported-as-success", fmt.Sprintf("%s; code cannot be generated, but the run exits with 0; %s", faults, p.describe())}, nil
		}
		if after[out] != bases[0].output {
			return &Violation{"incomplete-success", fmt.Sprintf("%s; the run exits with 0, but %s is not the complete output: %s", faults, cfg.outName(), textDiff(bases[0].output, after[out]))}, nil
		}
	} else {
		w.count["probe.failed_run"]++
		if len(p.fired) == 0 && cfg.valid() {
			return &Violation{"run-fails", "undisturbed by faults, " + p.describe()}, nil
		}
		if a, ok := after[out]; ok != has(before, out) || a != before[out] {
			what := "changed"
			if !ok {
				what = "removed"
			} else if !has(before, out) {
				what = "created"
			}
			return &Violation{"failed-run-changes-output", fmt.Sprintf("%s; the run fails (%d), but %s was %s: %s", faults, p.code, cfg.outName(), what, textDiff(before[out], a))}, nil
		}
	}
	for _, d := range diff {
		if d[1:] == out {
			continue
		}
		if d[0] == '+' {
			if p.removalFault {
				w.count["probe.leftover_because_removal_failed"]++
				continue
			}
			return &Violation{"leftover", fmt.Sprintf("%s; the run (exit %d) leaves %s behind; %s", faults, p.code, w.norm(d[1:]), p.describe())}, nil
		}
		return &Violation{"other-file-changed", fmt.Sprintf("%s; the run (exit %d) changed or removed %s", faults, p.code, w.norm(d[1:]))}, nil
	}
	return nil, nil
}

func has(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func textDiff(want, got string) string {
	if got == "" {
		return fmt.Sprintf("empty or missing instead of %d bytes", len(want))
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		return fmt.Sprintf("%q", s[min(i, len(s)):min(i+60, len(s))])
	}
	return fmt.Sprintf("%d bytes instead of %d, differing at %d: %s instead of %s", len(got), len(want), i, cut(got), cut(want))
}

func (w *genWorld) state(s string) {
	if w.states != nil {
		w.states[fnvHash(s)] = struct{}{}
	}
}

func (w *genWorld) runCrashes(sc *genScenario, bases []*genBase) (*Violation, error) {
	cfg := sc.Configs[0]
	out := "mod/" + cfg.Pkg + "/" + cfg.outName()
	start := w.snapshot()
	history := ""
	died := false
	checkOthers := func(after map[string]string, when string) *Violation {
		for _, d := range diffSnap(start, after) {
			if d[0] != '+' && d[1:] != out {
				return &Violation{"other-file-changed", fmt.Sprintf("%s: %s was changed or removed (%s)", when, w.norm(d[1:]), history)}
			}
		}
		return nil
	}
	for i := 0; i < sc.Crashes; i++ {
		var faults []genFault
		for _, f := range sc.Faults {
			if f.Run == i {
				faults = append(faults, f)
			}
		}
		before := w.snapshot()
		p, err := w.runAlone(i, cfg, sc.Invoke[0], sc.Rand[i%len(sc.Rand)], faults)
		if err != nil {
			return nil, err
		}
		died = died || p.died
		history += fmt.Sprintf("run %d: %v, ended with %d; ", i, p.fired, p.code)
		if p.stuck {
			return &Violation{"stuck", "the process does not end: " + p.describe() + " " + history}, nil
		}
		after := w.snapshot()
		a, ok := after[out]
		same := ok == has(before, out) && a == before[out]
		if !same && a != bases[0].output {
			return &Violation{"torn-output", fmt.Sprintf("after the process was killed %s is neither as before nor complete: %s (%s)", cfg.outName(), textDiff(bases[0].output, a), history)}, nil
		}
		if v := checkOthers(after, "after the process was killed"); v != nil {
			return v, nil
		}
		w.state(fmt.Sprint(cfg, p.fired, p.calls, sc.Prior, len(after)))
	}
	if !died {
		w.count["trivial"]++
	}
	w.log("history %s", history)
	// once it is left alone
	p, err := w.runAlone(sc.Crashes, cfg, sc.Invoke[0], sc.Rand[sc.Crashes%len(sc.Rand)], nil)
	if err != nil {
		return nil, err
	}
	if p.code != 0 || p.stuck {
		return &Violation{"rerun-fails", fmt.Sprintf("running the same command again fails (%s); %s", history, p.describe())}, nil
	}
	after := w.snapshot()
	if after[out] != bases[0].output {
		return &Violation{"rerun-differs", fmt.Sprintf("running the same command again produces another output: %s (%s)", textDiff(bases[0].output, after[out]), history)}, nil
	}
	if v := checkOthers(after, "after running the command again"); v != nil {
		return v, nil
	}
	if len(sc.Configs) > 1 {
		c2 := sc.Configs[1]
		p, err := w.runAlone(sc.Crashes+1, c2, sc.Invoke[0], sc.Rand[0], nil)
		if err != nil {
			return nil, err
		}
		if p.code != 0 || p.stuck {
			return &Violation{"rerun-fails", fmt.Sprintf("a later run for another type fails (%s); %s", history, p.describe())}, nil
		}
		if got := w.snapshot()["mod/"+c2.Pkg+"/"+c2.outName()]; got != bases[1].output {
			return &Violation{"rerun-differs", fmt.Sprintf("a later run for another type produces another output: %s (%s)", textDiff(bases[1].output, got), history)}, nil
		}
	}
	return nil, nil
}

var lastGenSwitches []genSwitch

func (w *genWorld) runConcurrent(sc *genScenario, bases []*genBase) (*Violation, []genSwitch, error) {
	before := w.snapshot()
	var ps []*process
	defer func() {
		for _, p := range ps {
			if !p.done {
				p.kill()
			}
		}
		w.dropPlays()
	}()
	w.together = true
	for i, c := range sc.Configs {
		var faults []genFault
		for _, f := range sc.Faults {
			if f.Run == i {
				faults = append(faults, f)
			}
		}
		p, err := w.start(i, c, sc.Invoke[i%len(sc.Invoke)], sc.Rand[i%len(sc.Rand)], faults)
		if err != nil {
			return nil, nil, err
		}
		ps = append(ps, p)
	}
	r := newToolRand(sc.Sched)
	cur := 0
	left := 0
	var taken []genSwitch
	listed := map[int]int{}
	for _, s := range sc.Switch {
		listed[s.Step] = s.To
	}
	draw := func() int {
		if sc.Quant <= 1 {
			return 1
		}
		return 1 + r.N(2*sc.Quant)
	}
	if sc.Quant > 0 {
		cur, left = r.N(len(ps)), draw()
		taken = append(taken, genSwitch{0, cur})
	}
	h := uint64(0)
	for step := 0; ; step++ {
		var alive []int
		for i, p := range ps {
			if !p.done {
				alive = append(alive, i)
			}
		}
		if len(alive) == 0 {
			break
		}
		if sc.Quant > 0 {
			if left <= 0 || ps[cur].done {
				cur, left = alive[r.N(len(alive))], draw()
				taken = append(taken, genSwitch{step, cur})
			}
			left--
		} else {
			if to, ok := listed[step]; ok && to >= 0 && to < len(ps) && !ps[to].done {
				cur = to
			}
			if ps[cur].done {
				cur = alive[0]
			}
		}
		h = (h ^ uint64(cur+1)) * 1099511628211
		p := ps[cur]
		if p.calls > maxCalls {
			return &Violation{"stuck", "a process does not end: " + p.describe()}, taken, nil
		}
		if err := p.step(); err != nil {
			return nil, nil, err
		}
		if p.stuck {
			return &Violation{"stuck", "a process does not end: " + p.describe()}, taken, nil
		}
	}
	w.count["probe.process_switches"] += int64(len(taken))
	w.state(fmt.Sprint(h))
	after := w.snapshot()
	outs := map[string]bool{}
	healthy := map[string]bool{}
	disturbed, unclean := "", false
	for i, p := range ps {
		if len(p.fired) > 0 {
			disturbed += fmt.Sprintf(" (process %d meanwhile: %v)", i, p.fired)
			unclean = unclean || p.died || p.removalFault
		} else {
			healthy["mod/"+w.pkg+"/"+p.cfg.outName()] = true
		}
	}
	for i, p := range ps {
		rel := "mod/" + w.pkg + "/" + p.cfg.outName()
		outs[rel] = true
		if len(p.fired) > 0 {
			w.count["probe.disturbed_process_among_others"]++
			if p.code != 0 && !healthy[rel] {
				if a, ok := after[rel]; a != bases[i].output && (ok != has(before, rel) || a != before[rel]) {
					return &Violation{"torn-output", fmt.Sprintf("process %d of %d%s leaves %s neither as before nor complete: %s", i, len(ps), disturbed, p.cfg.outName(), textDiff(bases[i].output, a))}, taken, nil
				}
				continue
			}
		} else if p.code != 0 {
			return &Violation{"run-fails", fmt.Sprintf("process %d of %d fails%s: %s", i, len(ps), disturbed, p.describe())}, taken, nil
		}
		if after[rel] != bases[i].output {
			return &Violation{"output-differs", fmt.Sprintf("the output of process %d of %d (%s) differs from that of a run on its own: %s", i, len(ps), p.cfg.outName(), textDiff(bases[i].output, after[rel]))}, taken, nil
		}
	}
	for _, d := range diffSnap(before, after) {
		if !outs[d[1:]] && !(unclean && d[0] == '+') {
			return &Violation{"other-file-changed", fmt.Sprintf("after concurrent runs: %s", w.norm(d))}, taken, nil
		}
	}
	return nil, taken, nil
}

func (w *genWorld) runNoise(sc *genScenario, bases []*genBase) (*Violation, error) {
	before := w.snapshot()
	for i, cfg := range sc.Configs {
		p, err := w.runAlone(i, cfg, sc.Invoke[i%len(sc.Invoke)], sc.Rand[i%len(sc.Rand)], nil)
		if err != nil {
			return nil, err
		}
		what := fmt.Sprintf("earlier output: %s, unrelated files: %v, directory given as: %d", sc.Prior, sc.Noise, sc.Invoke[i%len(sc.Invoke)])
		if p.code != 0 || p.stuck {
			return &Violation{"run-fails", fmt.Sprintf("%s: %s", what, p.describe())}, nil
		}
		after := w.snapshot()
		rel := "mod/" + w.pkg + "/" + cfg.outName()
		if after[rel] != bases[i].output {
			return &Violation{"output-differs", fmt.Sprintf("%s: yamlygen %v produces another output than in a directory without them: %s", what, cfg.args(), textDiff(bases[i].output, after[rel]))}, nil
		}
		before[rel] = after[rel]
		if d := diffSnap(before, after); len(d) > 0 {
			return &Violation{"other-file-changed", fmt.Sprintf("%s: %v", what, w.norm(fmt.Sprint(d)))}, nil
		}
		w.state(fmt.Sprint(cfg, sc.Prior, sc.Noise, sc.Invoke))
	}
	return nil, nil
}

// configs draws the requests used by a check.
func (g *genSim) drawConfigs(seed uint64, n int, property string) []genConfig {
	r := newToolRand(seed ^ 0xc0ff)
	var out []genConfig
	seen := map[string]bool{}
	for len(out) < n {
		c := genConfig{Pkg: tpick(r, []string{"plain", "plain", "crowded", "chans"}), Engine: tpick(r, []string{"goyaml", "yayamls"})}
		c.Type = tpick(r, []string{"Alpha", "Beta", "Gamma", "Delta"})
		for _, f := range []string{"-omitempty", "-disallow-unknown-fields", "-encode-pointer-receiver", "-inline-embedded"} {
			if r.P(20) {
				c.Flags = append(c.Flags, f)
			}
		}
		if r.P(20) {
			c.Output = tpick(r, []string{"zz.go", "a_gen.go"})
		}
		if r.P(15) {
			c.Tags = "special"
		}
		if property == "C10" && r.P(30) {
			c = genConfig{Pkg: tpick(r, []string{"plain", "chans", "syntax", "undef"}), Engine: tpick(r, []string{"goyaml", "yayamls", "none"})}
			c.Type = tpick(r, genPackages[c.Pkg].lack)
			if c.Pkg == "plain" && r.P(40) {
				c.Type, c.Output = "Alpha", "sub/x.go"
			}
		}
		if seen[c.key()] {
			continue
		}
		seen[c.key()] = true
		out = append(out, c)
	}
	return out
}

// companion returns a request for another type of the same package whose
// output does not collide with those of the given ones.
func (g *genSim) companion(r *toolRand, taken []genConfig) (genConfig, bool) {
	var cand []genConfig
next:
	for _, c := range g.list {
		if c.Pkg != taken[0].Pkg || c.Tags != taken[0].Tags || !c.valid() {
			continue
		}
		for _, t := range taken {
			if t.Type == c.Type || t.outName() == c.outName() {
				continue next
			}
		}
		cand = append(cand, c)
	}
	if len(cand) == 0 {
		return genConfig{}, false
	}
	return tpick(r, cand), true
}

var noiseKinds = []string{"test", "xtest", "ignored", "ignored2", "otheros", "tmp", "tmpgo", "dot", "bak", "dir", "cwdtmp"}

func (g *genSim) scenario(property string, r *toolRand) *genScenario {
	cfg := tpick(r, g.list)
	for !cfg.valid() && (property != "C10" || r.P(60)) {
		cfg = tpick(r, g.list)
	}
	sc := &genScenario{Configs: []genConfig{cfg}, Invoke: []int{r.N(6)}, Rand: []uint64{r.U64() >> 20},
		Prior: tpick(r, []string{"none", "same", "stale", "garbage", "cut", "edited", "longer"})}
	ops := []string{}
	if b := g.bases[cfg.key()]; b != nil {
		ops = b.ops
	}
	// a call: of a class of calls drawn first, so that rare calls get their share
	var classes []string
	times := map[string]int{}
	for _, o := range ops {
		if times[o] == 0 {
			classes = append(classes, o)
		}
		times[o]++
	}
	at := func(f genFault) genFault {
		if len(ops) == 0 || r.P(15) {
			f.At = r.N(len(ops) + 8)
			return f
		}
		f.Op = tpick(r, classes)
		f.At = r.N(times[f.Op] + 1)
		if times[f.Op] == 1 {
			f.At = 0
		}
		return f
	}
	soon := func(f genFault, n int) genFault {
		f.Op, f.At = "after", 1+r.N(n)
		return f
	}
	noise := func(n int) {
		for _, k := range noiseKinds {
			if r.N(len(noiseKinds)) < n {
				sc.Noise = append(sc.Noise, k)
			}
		}
	}
	switch property {
	case "C10":
		for n := []int{1, 1, 1, 2, 3}[r.N(5)]; n > 0; n-- {
			f := at(genFault{Errno: tpick(r, []int{eIO, eACCES, eNOSPC, eROFS, eMFILE, eNOMEM}), N: 1 + r.N(400)})
			if len(sc.Faults) > 0 && r.P(75) { // while the one before is being handled
				f = soon(f, 6)
			}
			kinds := []string{"err", "err", "err", "err", "err", "full", "ro", "fds"}
			switch {
			case strings.HasPrefix(f.Op, "exec"):
				kinds = []string{"err", "short", "short", "lost", "exit", "kill"}
			case f.Op == "close_w":
				kinds = []string{"err", "lost", "lost"}
			case f.Op == "write" || f.Op == "read":
				kinds = []string{"err", "err", "short", "full", "ro"}
			case f.Op == "after":
				kinds = append(kinds, "short", "lost")
			}
			f.Kind = tpick(r, kinds)
			sc.Faults = append(sc.Faults, f)
		}
		if r.P(25) {
			sc.Noise = append(sc.Noise, tpick(r, []string{"tmp", "cwdtmp", "tmpgo"}))
		}
	case "C11":
		sc.Crashes = []int{1, 1, 1, 2, 3}[r.N(5)]
		for i := 0; i < sc.Crashes; i++ {
			f := at(genFault{Run: i, Kind: tpick(r, []string{"crash", "crashed", "torn"}), N: r.N(3000)})
			if r.P(25) {
				sc.Faults = append(sc.Faults, at(genFault{Run: i, Kind: "err", Errno: eIO}))
				if r.P(60) { // killed while the error is being handled
					f = soon(f, 6)
				}
			}
			sc.Faults = append(sc.Faults, f)
		}
		if r.P(50) { // the same random names again
			for len(sc.Rand) < 4 {
				sc.Rand = append(sc.Rand, r.U64()>>20)
			}
		}
		if r.P(50) {
			if c, ok := g.companion(r, sc.Configs); ok {
				sc.Configs = append(sc.Configs, c)
			}
		}
	case "C16":
		for n := 1 + r.N(3); n > 0; n-- {
			if c, ok := g.companion(r, sc.Configs); ok && r.P(80) {
				sc.Configs = append(sc.Configs, c)
				sc.Invoke = append(sc.Invoke, r.N(6))
			} else {
				sc.Configs = append(sc.Configs, cfg)
				sc.Invoke = append(sc.Invoke, r.N(6))
			}
		}
		if r.P(60) {
			for range sc.Configs {
				sc.Rand = append(sc.Rand, r.U64()>>20)
			}
		}
		sc.Sched, sc.Quant = r.U64(), []int{1, 2, 5, 15}[r.N(4)]
		if sc.Prior != "same" {
			sc.Prior = "none" // would break the other types' runs as well
		}
		if r.P(30) { // one of them fails or is killed
			sc.Faults = append(sc.Faults, at(genFault{Run: r.N(len(sc.Configs)),
				Kind:  tpick(r, []string{"err", "full", "exit", "crash", "crashed", "torn"}),
				Errno: tpick(r, []int{eIO, eACCES, eNOSPC}), N: 1 + r.N(400)}))
		}
	case "C12":
		noise(1 + r.N(4))
		if r.P(30) {
			if c, ok := g.companion(r, sc.Configs); ok {
				sc.Configs = append(sc.Configs, c)
				if sc.Prior != "same" {
					sc.Prior = "none"
				}
			}
		}
	}
	return sc
}

// runScenario executes one scenario in a world of its own.
func (g *genSim) runScenario(property string, sc *genScenario, name string, trace *strings.Builder) (*Violation, *genWorld, error) {
	var bases []*genBase
	for _, c := range sc.Configs {
		b, v, err := g.base(c)
		if err != nil || v != nil {
			return v, &genWorld{g: g, count: map[string]int64{}}, err
		}
		bases = append(bases, b)
	}
	w, err := g.newWorld(name, sc.Configs[0].Pkg)
	if err != nil {
		return nil, nil, err
	}
	w.trace = trace
	w.states = map[uint64]struct{}{}
	defer w.close()
	defer w.dropPlays()
	if err := w.prepare(sc, bases); err != nil {
		return nil, w, err
	}
	var v *Violation
	switch property {
	case "C10":
		v, err = w.runFaults(sc, bases)
	case "C11":
		v, err = w.runCrashes(sc, bases)
	case "C16":
		var sw []genSwitch
		v, sw, err = w.runConcurrent(sc, bases)
		lastGenSwitches = sw
	case "C12":
		v, err = w.runNoise(sc, bases)
	}
	w.log("violation %v", v != nil)
	return v, w, err
}
