package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/KSpaceer/yamly/generator/parser"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C13: package lookups by several tasks while go.mod files, sources and the go
// command come and go.

// lookupDirs are the packages of the simulated file tree.
var lookupDirs = []struct {
	dir, mod, path, name string
}{
	{"m1", "m1", "example.com/m1", "rootpkg"},
	{"m1/a", "m1", "example.com/m1/a", "alpha"},
	{"m1/a/b", "m1", "example.com/m1/a/b", "beta"},
	{"m1/inner", "m1/inner", "example.com/inner/v2", "innerpkg"},
	{"m1/inner/a", "m1/inner", "example.com/inner/v2/a", "xa"},
	{"m1x/a", "m1x", "example.com/other", "ignored"},
	{"m2", "m2", "example.com/m2", "second"},
	{"m2/a", "m2", "example.com/m2/a", "third"},
	{"m2/m1/a", "m2", "example.com/m2/m1/a", "fourth"},
	{"gp/src/proj/a", "gp/src/proj", "example.com/proj/a", "projpkg"},
	{"gp/src/proj", "gp/src/proj", "example.com/proj", "projroot"},
	// no module: the path below GOPATH, or none at all
	{"gp/src/plain", "", "plain", "plainpkg"},
	{"gp/src/plain/..in", "", "plain/..in", "dotted"},
	{"gp2/src/far/a", "", "far/a", "farpkg"},
	{"gp/src", "", "", "srcpkg"},
	{"gp", "", "", "gppkg"},
	{"gpx/src/a", "", "", "lookalike"},
	{"nomod/a", "", "", "homeless"},
	{"gp/src2/a", "", "", "besidesrc"},
	{"gp/pkg/a", "", "", "pkgpkg"},
	{"gp2/srcx", "", "", "srcxpkg"},
	{"m3/a", "m3", "example.com/m3/a", "crlf"},
	{"m4", "m4", "example.com/m4", "tabs"},
}

var lookupMods = map[string]string{
	"m1":          "module example.com/m1\n\ngo 1.21\n",
	"m1/inner":    "// the inner module\n\nmodule example.com/inner/v2 // second version\n",
	"m1x":         "go 1.21\n\nmodule   \"example.com/other\"\n",
	"m2":          "module `example.com/m2`\n",
	"m3":          "// written on another system\r\n\r\nmodule example.com/m3\r\n\r\ngo 1.21\r\n",
	"m4":          "\tmodule\texample.com/m4\t// no newline at the end",
	"gp/src/proj": "module example.com/proj\nrequire example.com/m1 v1.0.0 // module example.com/wrong\n",
}

func init() {
	lookupDirs[5].path = "example.com/other/a"
	lookupDirs[5].name = "sibling"
}

// envStep is one action of the environment.
type envStep struct {
	What string `json:"w"` // go hide empty dirmod break heal
	Arg  string `json:"a,omitempty"`
}

type lookupCall struct {
	Dir      int  `json:"d"`
	Spelling int  `json:"s"`
	Reuse    bool `json:"r,omitempty"` // with the Parser of the task's previous call
	Cwd      int  `json:"c,omitempty"` // final calls: the working directory
}

type lookupScenario struct {
	Calls  [][]lookupCall `json:"calls"` // per task
	Env    []envStep      `json:"env"`
	Cwd    int            `json:"cwd"`
	Final  []lookupCall   `json:"final"`
	Sched  uint64         `json:"sched"`
	Quant  int            `json:"quant"`
	Switch []zzv.Switch   `json:"switch,omitempty"`
}

const spellings = 8

var lookupCwds = []string{"", "/m2/a", "/m1", "/m2", "/gp/src"}

func genLookup(r *Rand) lookupCall {
	return lookupCall{Dir: r.N(len(lookupDirs)), Spelling: r.N(spellings), Reuse: r.P(20), Cwd: r.N(len(lookupCwds))}
}

func init() {
	register([]string{"C13"}, &Kind{
		Name: "lookup",
		New:  func() any { return &lookupScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &lookupScenario{Sched: r.U64(), Quant: []int{1, 2, 4, 8, 25}[r.N(5)], Cwd: r.N(len(lookupCwds))}
			focus := r.N(len(lookupDirs)) // several tasks after the same directory
			one := func() lookupCall {
				c := genLookup(r)
				if r.P(50) {
					c.Dir = focus
				}
				if r.P(50) {
					c.Spelling = 0
				}
				return c
			}
			for t := 1 + r.N(3); t > 0; t-- {
				var calls []lookupCall
				for n := 1 + r.N(4); n > 0; n-- {
					calls = append(calls, one())
				}
				sc.Calls = append(sc.Calls, calls)
			}
			if r.P(80) {
				for n := 1 + r.N(6); n > 0; n-- {
					mod := pick(r, []string{"m1", "m1x", "m2", "m3", "m4", "gp/src/proj"})
					if r.P(50) {
						mod = lookupDirs[focus].mod
					}
					if mod == "" {
						mod = "m2"
					}
					if mod == "m1/inner" {
						mod = "m1" // without its own go.mod it would belong to the outer module
					}
					sc.Env = append(sc.Env, pick(r, []envStep{
						{"go", pick(r, []string{"exit", "kill", "empty", "partial", "missing"})},
						{"go", "ok"},
						{"hide", mod}, {"empty", mod}, {"dirmod", mod},
						{"break", lookupDirs[focus].dir},
						{"heal", ""},
					}))
				}
			}
			for n := 1 + r.N(3); n > 0; n-- {
				sc.Final = append(sc.Final, one())
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runLookup(sc.(*lookupScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*lookupScenario)
			var out []any
			if s.Quant != 0 {
				c := *s
				runLookup(s, newStats())
				c.Quant, c.Switch = 0, lastSwitches
				out = append(out, &c)
			}
			for t := range s.Calls {
				if len(s.Calls) > 1 && s.Quant != 0 {
					c := *s
					c.Calls = append(append([][]lookupCall{}, s.Calls[:t]...), s.Calls[t+1:]...)
					out = append(out, &c)
				}
				for _, o := range shrinkSlice(s.Calls[t]) {
					c := *s
					c.Calls = append([][]lookupCall{}, s.Calls...)
					c.Calls[t] = o
					out = append(out, &c)
				}
			}
			for _, o := range shrinkSlice(s.Env) {
				c := *s
				c.Env = o
				out = append(out, &c)
			}
			for _, o := range shrinkSlice(s.Final) {
				c := *s
				c.Final = o
				out = append(out, &c)
			}
			if s.Quant == 0 {
				for _, sw := range shrinkSlice(s.Switch) {
					c := *s
					c.Switch = sw
					out = append(out, &c)
				}
			}
			return out
		},
	})
}

// world is the simulated file tree and what is wrong with it at the moment.
type lookupWorld struct {
	root string
	// faults: per cause, the environment's step at which it was last in effect (start, end; end 0: still)
	now    int
	since  [64]int
	until  [64]int
	causes []string
}

// cause numbers are fixed before the tasks start, so that tasks only touch arrays.
//
//go:norace
func (w *lookupWorld) cause(name string) int {
	for i, c := range w.causes {
		if c == name {
			return i
		}
	}
	return -1
}

//go:norace
func (w *lookupWorld) set(i int, on bool) {
	w.now++
	if on {
		if w.since[i] == 0 || w.until[i] != 0 {
			w.since[i], w.until[i] = w.now, 0
		}
	} else if w.since[i] != 0 && w.until[i] == 0 {
		w.until[i] = w.now
	}
}

//go:norace
func (w *lookupWorld) clock() int { w.now++; return w.now }

// hit says whether the cause was in effect at some moment since start.
//
//go:norace
func (w *lookupWorld) hit(i, start int) bool {
	return w.since[i] != 0 && (w.until[i] == 0 || w.until[i] > start)
}

var lookupProc struct {
	dir string // of this process
	n   int
}

func lookupSetup() {
	if lookupProc.dir != "" {
		return
	}
	d := fmt.Sprintf("%s/lookup%d", os.TempDir(), os.Getpid())
	os.RemoveAll(d)
	must(os.MkdirAll(d, 0o755))
	if r, err := filepath.EvalSymlinks(d); err == nil {
		d = r
	}
	lookupProc.dir = d
	must(os.MkdirAll(d+"/bin", 0o755))
	b, err := os.ReadFile(os.Getenv("SIMGO_BIN"))
	must(err)
	must(os.WriteFile(d+"/bin/go", b, 0o755))
	os.Setenv("PATH", d+"/bin")
	os.Setenv("SIMGO", d)
	os.Setenv("SIMGO_REAL", runtime.GOROOT()+"/bin/go")
}

func must(err error) {
	if err != nil {
		panic("simulator: " + err.Error())
	}
}

func put(root, name, content string) {
	p := filepath.Join(root, name)
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	must(os.WriteFile(p, []byte(content), 0o644))
}

func spell(root, cwd, dir string, how int) string {
	abs := filepath.Join(root, dir)
	rel, err := filepath.Rel(cwd, abs)
	must(err)
	base := filepath.Base(abs)
	switch how {
	case 0:
		return abs
	case 1:
		return rel
	case 2:
		return "./" + rel + "/"
	case 3:
		return abs + "/"
	case 4:
		return filepath.Dir(abs) + "//" + base
	case 5:
		return filepath.Dir(abs) + "/./" + base + "/../" + base
	case 6:
		return rel + "/../" + base
	default:
		if rest, ok := strings.CutPrefix(dir, "m1/"); ok {
			return root + "/link/" + rest
		}
		return abs
	}
}

func runLookup(sc *lookupScenario, st *Stats) *Violation {
	lookupSetup()
	lookupProc.n++
	root := fmt.Sprintf("%s/r%d", lookupProc.dir, lookupProc.n)
	defer func() {
		os.Chdir("/")
		os.RemoveAll(root)
	}()
	for m, text := range lookupMods {
		put(root, m+"/go.mod", text)
	}
	for _, d := range lookupDirs {
		put(root, d.dir+"/code.go", "package "+d.name+"\n")
	}
	put(root, "m1/a/aaa_test.go", "package a_alpha_test\n")
	put(root, "m1/a/b/0.go", "//go:build ignore\n\npackage main\n")
	put(root, "m1/a/b/zz.go", "//go:build ignore\n\npackage zz\n")
	put(root, "m2/_draft.go", "not {{{")
	put(root, "m2/.backup.go", "package")
	put(root, "m2/a/a_windows.go", "package another\n")
	must(os.Symlink("m1", root+"/link"))
	cwd := root + lookupCwds[sc.Cwd%len(lookupCwds)]
	must(os.Chdir(cwd))
	os.Setenv("GOPATH", root+"/gp"+string(filepath.ListSeparator)+root+"/gp2")
	mode := func(m string) {
		bin := lookupProc.dir + "/bin/go"
		if m == "missing" {
			os.Rename(bin, bin+".away")
			m = "ok"
		} else {
			os.Rename(bin+".away", bin)
		}
		must(os.WriteFile(lookupProc.dir+"/mode", []byte(m), 0o644))
	}
	mode("ok")
	defer mode("ok")

	w := &lookupWorld{root: root, causes: []string{"go", "noanswer"}}
	for m := range lookupMods {
		w.causes = append(w.causes, "mod "+m, "nomod "+m)
	}
	for _, d := range lookupDirs {
		w.causes = append(w.causes, "src "+d.dir)
	}
	heal := func() {
		mode("ok")
		for m, text := range lookupMods {
			p := root + "/" + m + "/go.mod"
			if fi, err := os.Stat(p); err == nil && fi.IsDir() {
				must(os.Remove(p))
			}
			must(os.WriteFile(p+".new", []byte(text), 0o644))
			must(os.Rename(p+".new", p))
		}
		for _, d := range lookupDirs {
			os.Remove(root + "/" + d.dir + "/broken.go")
		}
		for i := range w.causes {
			w.set(i, false)
		}
	}
	injected := map[string]int{}
	env := func() {
		for _, s := range sc.Env {
			zzv.Y()
			p := root + "/" + s.Arg + "/go.mod"
			switch s.What {
			case "go":
				w.set(w.cause("go"), s.Arg != "ok")
				w.set(w.cause("noanswer"), s.Arg == "empty")
				mode(s.Arg)
				injected["go_"+s.Arg]++
			case "hide":
				w.set(w.cause("mod "+s.Arg), true)
				w.set(w.cause("nomod "+s.Arg), true)
				os.Remove(p)
				injected["gomod_missing"]++
			case "empty":
				w.set(w.cause("mod "+s.Arg), true)
				if fi, err := os.Stat(p); err == nil && fi.IsDir() {
					os.Remove(p)
				}
				os.WriteFile(p, nil, 0o644)
				injected["gomod_empty"]++
			case "dirmod":
				w.set(w.cause("mod "+s.Arg), true)
				w.set(w.cause("nomod "+s.Arg), true)
				os.Remove(p)
				os.Mkdir(p, 0o755)
				injected["gomod_unreadable"]++
			case "break":
				w.set(w.cause("src "+s.Arg), true)
				os.WriteFile(root+"/"+s.Arg+"/broken.go", []byte("pack"), 0o644)
				injected["source_torn"]++
			case "heal":
				heal()
				injected["healed"]++
			}
		}
	}
	type result struct {
		call       lookupCall
		err        error
		path, name string
		excused    bool
		nomod      bool // the go command may have said that there is no module
	}
	do := func(c lookupCall, prev *parser.Parser) (result, *parser.Parser) {
		d := lookupDirs[c.Dir%len(lookupDirs)]
		start := w.clock()
		p := &parser.Parser{}
		if c.Reuse && prev != nil {
			p = prev
		}
		err := p.Parse(spell(root, cwd, d.dir, c.Spelling))
		return result{c, err, p.PkgPath, p.PkgName,
			w.hit(w.cause("go"), start) || d.mod != "" && w.hit(w.cause("mod "+d.mod), start) || w.hit(w.cause("src "+d.dir), start),
			w.hit(w.cause("noanswer"), start) || d.mod != "" && w.hit(w.cause("nomod "+d.mod), start)}, p
	}
	results := make([][]result, len(sc.Calls))
	fails := make([]*Violation, len(sc.Calls))
	var tasks []func()
	for t, calls := range sc.Calls {
		tasks = append(tasks, func() {
			defer func() {
				if p := recover(); p != nil {
					if h, ok := p.(zzv.Hang); ok {
						fails[t] = vio("hang", "task %d: %s", t, h.Error())
						return
					}
					fails[t] = vio("panic", "%v\n%s", p, shortStack())
				}
			}()
			var prev *parser.Parser
			for _, c := range calls {
				zzv.Y()
				var res result
				res, prev = do(c, prev)
				results[t] = append(results[t], res)
			}
		})
	}
	tasks = append(tasks, env)
	races := raceErrors()
	res := zzv.Coop(tasks, sc.Sched, sc.Quant, sc.Switch, 1_000_000)
	lastSwitches = res.Switches
	st.Add("steps", res.Steps)
	st.Add("probe.preemptions", int64(len(res.Switches)))
	for k, n := range injected {
		st.Add("fault."+k, int64(n))
	}
	if res.External {
		st.Inc("probe.blocked_outside_simulator")
	}
	var h uint64
	for _, s := range res.Switches {
		h = (h ^ uint64(s.Task+2)<<40 ^ uint64(s.Step)<<8 ^ uint64(s.To)) * 1099511628211
	}
	st.State(h)
	if res.Hang != "" {
		return vio("hang", "%s", res.Hang)
	}
	check := func(r result, who string) *Violation {
		r.path = strings.ReplaceAll(r.path, root[1:], "ROOT")
		d := lookupDirs[r.call.Dir%len(lookupDirs)]
		msg := "ok"
		if r.err != nil {
			msg = strings.ReplaceAll(strings.ReplaceAll(r.err.Error(), root, "ROOT"), lookupProc.dir, "PROC")
		}
		st.Log("%s dir %s spelling %d: %q %q %s excused %v", who, d.dir, r.call.Spelling, r.path, r.name, msg, r.excused)
		if d.path == "" {
			if r.err == nil {
				return vio("wrong-package", "%s: lookup of %s (%s), which belongs to no module and is no package below GOPATH, returned path %q and name %q",
					who, d.dir, strings.ReplaceAll(spell(root, cwd, d.dir, r.call.Spelling), root, "ROOT"), r.path, r.name)
			}
			st.Inc("probe.homeless_lookup_refused")
			return nil
		}
		if r.err != nil {
			if r.excused {
				st.Inc("probe.lookup_failed_during_fault")
				return nil
			}
			return vio("lookup-failed", "%s: lookup of %s (%s), whose go.mod, sources and go command were available all the time, failed: %s",
				who, d.dir, strings.ReplaceAll(spell(root, cwd, d.dir, r.call.Spelling), root, "ROOT"), msg)
		}
		if r.excused {
			st.Inc("probe.lookup_succeeded_despite_fault")
			if rest, ok := strings.CutPrefix(d.dir, "gp/src/"); ok && r.nomod && r.path == rest && r.name == d.name {
				return nil // no module at that moment: the path below GOPATH
			}
		}
		if r.path != d.path || r.name != d.name {
			return vio("wrong-package", "%s: lookup of %s (%s) returned path %q and name %q, but it is %q and %q (something was unavailable meanwhile: %v)",
				who, d.dir, strings.ReplaceAll(spell(root, cwd, d.dir, r.call.Spelling), root, "ROOT"), r.path, r.name, d.path, d.name, r.excused)
		}
		return nil
	}
	excused := 0
	for t := range sc.Calls {
		if fails[t] != nil {
			return fails[t]
		}
		for k, r := range results[t] {
			if r.excused {
				excused++
			}
			if v := check(r, fmt.Sprintf("task %d call %d", t, k)); v != nil {
				return v
			}
		}
	}
	if n := raceErrors() - races; n > 0 {
		return vio("data-race", "%d data races reported by the race detector between concurrent lookups", n)
	}
	// the causes are gone: everything has to work again
	heal()
	final := append([]lookupCall{}, sc.Final...)
	for _, calls := range sc.Calls {
		final = append(final, calls...)
	}
	for k, c := range final {
		cwd = root + lookupCwds[c.Cwd%len(lookupCwds)]
		must(os.Chdir(cwd))
		r, _ := do(lookupCall{Dir: c.Dir, Spelling: c.Spelling}, nil)
		if v := check(r, fmt.Sprintf("final call %d", k)); v != nil {
			return v
		}
	}
	if len(final) < 2 {
		st.Trivial()
	}
	return nil
}
