package main

import (
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

//go:embed zzv/*.txt sysov/*.txt shim/*.c
var embedded embed.FS

const goroot = "/opt/veriftools/go1.27.3"

// repo is the tree under test. VERIF_REPO names another one for experiments
// with changed copies; the registered checks do not set it.
var repo = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// Env is one check's scratch area and build environment.
type Env struct {
	dir      string
	verif    string
	overlay  map[string]string
	instrN   int
	buildLog strings.Builder
}

type buildError struct{ err error }

func (b buildError) Error() string { return b.err.Error() }

func newEnv(verif string) (*Env, error) {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	// always of the same length: sizes of files that name it do not vary
	dir := ""
	for i := 0; ; i++ {
		dir = filepath.Join(base, fmt.Sprintf("yamlyverif%07d%02d", os.Getpid(), i))
		err := os.Mkdir(dir, 0o755)
		if err == nil {
			break
		}
		if !os.IsExist(err) || i > 90 {
			return nil, err
		}
	}
	return &Env{dir: dir, verif: verif, overlay: map[string]string{}}, nil
}

func (e *Env) path(p ...string) string { return filepath.Join(append([]string{e.dir}, p...)...) }

func goEnviron(extra ...string) []string {
	env := []string{
		"HOME=" + home(),
		"PATH=" + goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=" + goroot, "GOTOOLCHAIN=local",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=" + gocache(),
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod",
		"GOTELEMETRY=off",
	}
	return append(env, extra...)
}

func home() string {
	if h := os.Getenv("HOME"); h != "" {
		return h
	}
	return "/root"
}

func gocache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func (e *Env) goCmd(dir string, args ...string) error {
	cmd := exec.Command(goroot+"/bin/go", args...)
	cmd.Dir = dir
	cmd.Env = goEnviron()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return buildError{fmt.Errorf("go %s: %w\n%s", strings.Join(args, " "), err, out)}
	}
	return nil
}

func (e *Env) write(rel string, data string) (string, error) {
	p := e.path(rel)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		return "", err
	}
	return p, os.WriteFile(p, []byte(data), 0o644)
}

func subst(src string, pairs ...string) (string, error) {
	for i := 0; i < len(pairs); i += 2 {
		if strings.Count(src, pairs[i]) != 1 {
			return "", fmt.Errorf("std overlay: %d occurrences of %q", strings.Count(src, pairs[i]), pairs[i])
		}
		src = strings.Replace(src, pairs[i], pairs[i+1], 1)
	}
	return src, nil
}

func readStd(p string) string {
	b, err := os.ReadFile(filepath.Join(goroot, "src", p))
	if err != nil {
		return ""
	}
	return string(b)
}

func (e *Env) putStd(p, content string) error {
	to, err := e.write("stdov/"+strings.ReplaceAll(p, "/", "__"), content)
	if err != nil {
		return err
	}
	e.overlay[filepath.Join(goroot, "src", p)] = to
	return nil
}

// stdOverlay puts the runtime's own randomness under the simulator's control.
func (e *Env) stdRandOverlay() error {
	read, put := readStd, e.putStd
	s, err := subst(read("runtime/rand.go"),
		"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(7*i + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n",
		"func rand() uint64 {\n", "func rand() uint64 {\n\tif SimRandMode == 1 {\n\t\treturn SimRand\n\t} else if SimRandMode == 2 {\n\t\tSimRand += 0x9e3779b97f4a7c15\n\t\tz := SimRand\n\t\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\t\treturn z ^ (z >> 31)\n\t}\n",
	)
	if err != nil {
		return err
	}
	s += `
// Added by the simulator's build overlay.

// SimRandMode 1 makes the runtime's random numbers (map iteration and select order) the constant
// SimRand; 2 makes them a sequence started by SimRand.
var (
	SimRandMode int
	SimRand     uint64
)

func SimGoid() uint64 { return getg().goid }

func simSelectRand(n uint32) uint32 {
	if SimRandMode == 1 {
		return uint32(SimRand>>7) % n
	}
	return cheaprandn(n)
}
`
	t, err := subst(read("time/time.go"),
		"\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n",
		"\tsec, nsec, mono := runtimeNow()\n\tif SimClock != 0 {\n\t\tsec, nsec = SimClock, 0\n\t}\n\tif mono == 0 {\n\t\treturn Time{uint64(nsec), sec + unixToInternal, Local}\n")
	if err != nil {
		return err
	}
	t += "\n// SimClock is the time in seconds of a simulated clock. Added by the simulator's build overlay.\nvar SimClock int64\n"
	return errors.Join(put("runtime/rand.go", s), put("time/time.go", t))
}

// stdOverlay puts the standard library's sources of nondeterminism under the simulator's control.
func (e *Env) stdOverlay() error {
	read, put := readStd, e.putStd
	if err := e.stdRandOverlay(); err != nil {
		return err
	}
	s, err := subst(read("runtime/select.go"), "cheaprandn(", "simSelectRand(")
	if err != nil {
		return err
	}
	if err := put("runtime/select.go", s); err != nil {
		return err
	}
	// object pools of the standard library never reuse, so that its own caching cannot
	// make one simulated run differ from another
	s, err = subst(read("sync/pool.go"),
		"func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif p.New != nil {\n\t\treturn p.New()\n\t}\n\tif p.noCopy == (noCopy{}) {\n\t\treturn nil\n\t}\n",
		"func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif p.noCopy == (noCopy{}) {\n\t\treturn\n\t}\n")
	if err != nil {
		return err
	}
	if err := put("sync/pool.go", s); err != nil {
		return err
	}
	return put("testing/synctest/zzsim.go", `package synctest

import isynctest "internal/synctest"

// SimRun runs f in a bubble. Added by the simulator's build overlay.
func SimRun(f func()) { isynctest.Run(f) }

// SimWait waits until every other goroutine of the bubble is blocked.
func SimWait() { isynctest.Wait() }
`)
}

// sysOverlay routes the file-system calls and process starts of a program through the simulator.
func (e *Env) sysOverlay() error {
	rename := func(file string, names ...string) error {
		s := readStd(file)
		for _, n := range names {
			var err error
			if s, err = subst(s, "\nfunc "+n+"(", "\nfunc sim_"+n+"("); err != nil {
				return err
			}
		}
		return e.putStd(file, s)
	}
	if err := errors.Join(
		rename("syscall/zsyscall_linux_amd64.go", "openat", "unlinkat", "fchmodat", "linkat", "symlinkat", "Chdir", "Mkdirat", "Renameat",
			"Truncate", "fstatat", "Fchmod", "Ftruncate", "Fsync", "read", "write", "pread", "pwrite", "Getdents", "Close", "Getpid"),
		rename("syscall/exec_unix.go", "forkExec"),
		rename("internal/syscall/unix/at.go", "Unlinkat", "Openat", "Mkdirat", "Renameat"),
		rename("internal/syscall/unix/at_fstatat.go", "Fstatat"),
	); err != nil {
		return err
	}
	t, err := subst(readStd("os/tempfile.go"), "uint64(uint32(runtime_rand()))", "uint64(uint32(simRandom()))")
	if err != nil {
		return err
	}
	t += "\n// Added by the simulator's build overlay: names of temporary files follow from the process's seed alone.\n" +
		"var simRandoms uint64\n\nfunc simRandom() uint64 {\n\tsimRandoms += 0x9e3779b97f4a7c15\n\tz := simRandoms + runtime.SimRand\n" +
		"\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\treturn z ^ (z >> 31)\n}\n"
	t = strings.Replace(t, "import (\n", "import (\n\t\"runtime\"\n", 1)
	if err := e.putStd("os/tempfile.go", t); err != nil {
		return err
	}
	a, _ := embedded.ReadFile("sysov/syscall_zzsim.go.txt")
	b, _ := embedded.ReadFile("sysov/unix_zzsim.go.txt")
	return errors.Join(e.putStd("syscall/zzsim_linux_amd64.go", string(a)), e.putStd("internal/syscall/unix/zzsim_linux.go", string(b)))
}

func instrumented(rel string) bool {
	for _, skip := range []string{"test/", "benchmark/", "zzverifsched/"} {
		if strings.HasPrefix(rel, skip) {
			return false
		}
	}
	return true
}

// repoOverlay instruments the code under test.
func (e *Env) repoOverlay() error {
	d := e.path("instr")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return err
	}
	n, err := instrumentTree(repo, d, instrumented, e.overlay)
	if err != nil {
		return buildError{err}
	}
	e.instrN = n
	z, _ := embedded.ReadFile("zzv/zzv.go.txt")
	p, err := e.write("instr/zzv.go", string(z))
	if err != nil {
		return err
	}
	e.overlay[filepath.Join(repo, "zzverifsched/zzv.go")] = p
	return nil
}

func (e *Env) writeOverlay(name string, m map[string]string) (string, error) {
	b, err := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	if err != nil {
		return "", err
	}
	return e.write(name, string(b))
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if info.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(dst, b, 0o644)
	})
}

// buildYamlygen builds the real generator command, without instrumentation.
func (e *Env) buildYamlygen() (string, error) {
	out := e.path("bin", "yamlygen")
	if err := os.MkdirAll(e.path("bin"), 0o755); err != nil {
		return "", err
	}
	return out, e.goCmd(repo, "build", "-o", out, "./cmd/yamlygen")
}

type modelSpec struct {
	Dir   string
	Type  string
	Flags []string
}

var models = []modelSpec{
	{"doc", "Doc", nil},
	{"strict", "Strict", []string{"-disallow-unknown-fields"}},
	{"opt", "Opt", []string{"-omitempty"}},
	{"emb", "Emb", []string{"-inline-embedded"}},
	{"ptr", "Ptr", []string{"-encode-pointer-receiver"}},
	{"seq", "Seq", nil},
	{"dict", "Dict", nil},
	{"kinds", "Kinds", nil},
}

// prepareHarness copies the harness module and generates its models with the
// real generator of the tree under test.
func (e *Env) prepareHarness(withModels bool) error {
	h := e.path("h")
	if err := copyTree(filepath.Join(e.verif, "harness"), h); err != nil {
		return err
	}
	if repo != "/repo" {
		m := filepath.Join(h, "go.mod")
		b, err := os.ReadFile(m)
		if err == nil {
			err = os.WriteFile(m, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo)), 0o644)
		}
		if err != nil {
			return err
		}
	}
	if !withModels {
		return nil
	}
	gen, err := e.buildYamlygen()
	if err != nil {
		return err
	}
	for _, m := range models {
		b, err := os.ReadFile(filepath.Join(h, "models", "src", m.Dir, m.Dir+".go"))
		if err != nil {
			return err
		}
		for _, short := range []string{"g", "y"} {
			src := strings.ReplaceAll(string(b), "cbg", "cb"+short)
			if _, err := e.write(filepath.Join("h", "models", short, m.Dir, m.Dir+".go"), src); err != nil {
				return err
			}
		}
	}
	type job struct {
		engine string
		m      modelSpec
	}
	var jobs []job
	for _, engine := range []string{"goyaml", "yayamls"} {
		for _, m := range models {
			jobs = append(jobs, job{engine, m})
		}
	}
	errs := make(chan error, len(jobs))
	sem := make(chan struct{}, 6)
	for _, j := range jobs {
		go func() {
			sem <- struct{}{}
			defer func() { <-sem }()
			short := map[string]string{"goyaml": "g", "yayamls": "y"}[j.engine]
			dir := filepath.Join(h, "models", short, j.m.Dir)
			args := append([]string{"-engine", j.engine, "-type", j.m.Type, "-output", "zz_gen.go"}, j.m.Flags...)
			cmd := exec.Command(gen, args...)
			cmd.Dir = dir
			cmd.Env = goEnviron("TMPDIR=" + e.dir)
			out, err := cmd.CombinedOutput()
			if err != nil {
				err = buildError{fmt.Errorf("generating %s/%s: %w\n%s", j.engine, j.m.Type, err, out)}
			}
			errs <- err
		}()
	}
	for range jobs {
		if e2 := <-errs; e2 != nil {
			err = e2
		}
	}
	return err
}

// buildShim builds the stand-in for the go command.
func (e *Env) buildShim() (string, error) {
	src, _ := embedded.ReadFile("shim/go.c")
	p, err := e.write("shim/go.c", string(src))
	if err != nil {
		return "", err
	}
	out := e.path("bin", "goshim")
	if err := os.MkdirAll(e.path("bin"), 0o755); err != nil {
		return "", err
	}
	if msg, err := exec.Command("gcc", "-O1", "-static", "-o", out, p).CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the stand-in for the go command: %w\n%s", err, msg)
	}
	return out, nil
}

// buildSim builds the in-process simulator.
func (e *Env) buildSim(p *plan) (string, error) {
	race, withModels := p.race, p.models
	extraEnv = append(extraEnv, "TMPDIR="+e.dir)
	if p.shim {
		shim, err := e.buildShim()
		if err != nil {
			return "", err
		}
		extraEnv = append(extraEnv, "SIMGO_BIN="+shim)
	}
	if err := e.prepareHarness(withModels); err != nil {
		return "", err
	}
	if err := e.stdOverlay(); err != nil {
		return "", err
	}
	if err := e.repoOverlay(); err != nil {
		return "", err
	}
	if withModels {
		d := e.path("instr-models")
		if err := os.MkdirAll(d, 0o755); err != nil {
			return "", err
		}
		if _, err := instrumentTree(e.path("h", "models"), d, func(rel string) bool {
			return strings.HasSuffix(rel, "zz_gen.go")
		}, e.overlay); err != nil {
			return "", buildError{err}
		}
	}
	ov, err := e.writeOverlay("overlay.json", e.overlay)
	if err != nil {
		return "", err
	}
	out := e.path("bin", "sim")
	args := []string{"build", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	if withModels {
		args = append(args, "-tags", "models")
	}
	args = append(args, "./sim")
	return out, e.goCmd(e.path("h"), args...)
}

func logf(format string, a ...any) {
	fmt.Printf("[%s] ", time.Now().Format("15:04:05"))
	fmt.Printf(format+"\n", a...)
}
