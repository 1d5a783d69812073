package main

import (
	"encoding/json"
	"errors"
	"fmt"
	goscanner "go/scanner"
	"go/token"
	"image"
	"net/netip"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	textscanner "text/scanner"
	"time"

	"github.com/KSpaceer/yamly/engines/goyaml"
	"github.com/KSpaceer/yamly/engines/yayamls"
	"github.com/KSpaceer/yamly/generator"
	zzv "github.com/KSpaceer/yamly/zzverifsched"

	akind "simh/gt/a/kind"
	bkind "simh/gt/b/kind"
	ckind "simh/gt/c/kind"
	dkind "simh/gt/d/other-kind"
	ekind "simh/gt/e/vkind"
)

// C12: the generated code is a function of the types and options alone.

type GenA struct{ Up string }

type detCollide struct {
	A genA
	B GenA
	C struct {
		X int `yaml:"a"`
	}
	D struct {
		X int `yaml:"b"`
	}
	E []struct {
		X int `yaml:"c"`
	}
	F map[string]struct {
		X int `yaml:"d"`
	}
}

type detAliases struct {
	B bkind.Item
	C ckind.Item
	A akind.Item
	D *dkind.Item
	E []ekind.Item
	N ckind.Names
	L map[ekind.Level]bkind.Names
}

type detStd struct {
	P  textscanner.Position
	E  []goscanner.Error
	T  token.Position
	D  time.Duration
	W  *time.Time
	R  image.Rectangle
	IP netip.Addr
}

type detBase1 struct {
	ID   int
	Name string `yaml:"name"`
}
type detBase2 struct {
	detBase1
	ID    string
	Extra []byte
}
type DetBase3 struct {
	Deep map[string]*DetBase3
}
type detEmbed struct {
	detBase2
	*DetBase3
	Own  DetBase3 `yaml:",inline"`
	Name float32
}

type detWide struct {
	A1, A2, A3, A4 struct{ A int }
	B1, B2         struct{ B string }
	C1             [3][]map[string][2]*detWide2
	M1             map[int]map[uint8]string
	M2             map[bool]float64
	I              any
	Ch             []interface{}
}
type detWide2 struct {
	Next *detWide2
	Wide *detWide
	S    struct {
		T struct {
			U [1]struct{ V *bool }
		}
	}
}

type detMap map[string]detBase1
type detSlice []*detEmbed
type detBadChan struct {
	A genA
	C chan int
}
type detBadFunc struct{ F map[string]func() }

var detTypes = []any{genA{}, genB{}, genD{}, genC2{}, detCollide{}, detAliases{}, detStd{}, detEmbed{}, detWide{}, detMap{}, detSlice{}, detBadChan{}, detBadFunc{}}

const detFlags = 32

// detGen is one use of the generator.
type detGen struct {
	Type  int    `json:"type"`
	Eng   string `json:"eng"`
	Flags int    `json:"flags"`
	Mode  int    `json:"mode,omitempty"` // map iteration and hashing: 1 constant, 2 stream
	Rand  uint64 `json:"rand,omitempty"`
	Fault string `json:"fault,omitempty"` // destination: error, panic
	Dir   int    `json:"dir,omitempty"`   // working directory
	File  int    `json:"file,omitempty"`  // name of the output file
	Clock int64  `json:"clock,omitempty"` // seconds by which the clock is off
	Env   bool   `json:"env,omitempty"`   // another user, home, language and time zone
}

type detScenario struct {
	Gens []detGen `json:"gens"`
}

func (d detGen) key() string { return fmt.Sprintf("%d %s %d", d.Type, d.Eng, d.Flags) }

func (d detGen) start() *generator.Generator {
	g := generator.New([]string{"out.go", "dir/other_yamly.go", "/abs/z.go"}[d.File])
	g.SetPkgName("main")
	g.SetPkgPath("main")
	if d.Eng == "y" {
		g.SetEngineGenerator(yayamls.Generator)
	} else {
		g.SetEngineGenerator(goyaml.Generator)
	}
	g.SetOmitempty(d.Flags&1 != 0)
	g.SetDisallowUnknownFields(d.Flags&2 != 0)
	g.SetEncodePointerReceiver(d.Flags&4 != 0)
	g.SetInlineEmbedded(d.Flags&8 != 0)
	if d.Flags&16 != 0 {
		g.SetBuildTags("special")
	}
	g.AddType(detTypes[d.Type])
	return g
}

var detEnv = map[string]string{"USER": "sim", "HOME": "/nonexistent", "LANG": "tr_TR.UTF-8", "LC_ALL": "C", "HOSTNAME": "sim", "PWD": "/", "GOFILE": "x.go", "GOPACKAGE": "x", "GOLINE": "1"}

type detDst struct {
	strings.Builder
	fault string
}

var errDet = errors.New("destination is broken")

func (d *detDst) Write(p []byte) (int, error) {
	switch d.fault {
	case "error":
		return 0, errDet
	case "panic":
		panic(errDet)
	}
	return d.Builder.Write(p)
}

// run generates and describes the outcome.
func (d detGen) run() (out string) {
	dst := &detDst{fault: d.Fault}
	var err error
	_, p := scoped(3_000_000, func() {
		runtime.SimRandMode, runtime.SimRand = d.Mode, d.Rand
		defer func() { runtime.SimRandMode, runtime.SimRand = 1, 0 }()
		if d.Mode == 0 {
			runtime.SimRandMode = 1
		}
		time.SimClock = 1_700_000_000 + d.Clock
		defer func() { time.SimClock = 0 }()
		if d.Env {
			for k, v := range detEnv {
				if old, set := os.LookupEnv(k); set {
					defer os.Setenv(k, old)
				} else {
					defer os.Unsetenv(k)
				}
				os.Setenv(k, v)
			}
		}
		err = d.start().Generate(dst)
	})
	if p != nil {
		if h, ok := p.(zzv.Hang); ok {
			return "hang: " + h.Error()
		}
		return fmt.Sprintf("panic: %v", p)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	return dst.String()
}

var detWant struct {
	sync.Once
	m map[string]string
}

func detBaseline(key string) (string, bool) {
	detWant.Do(func() {
		raw, err := os.ReadFile(dataFile)
		if err == nil {
			err = json.Unmarshal(raw, &detWant.m)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "baselines:", err)
			os.Exit(2)
		}
	})
	s, ok := detWant.m[key]
	return s, ok
}

var detDirs struct {
	sync.Once
	list []string
}

func init() {
	extraModes["genbaselines"] = func(args []string) { fmt.Print(len(detTypes) * 2 * detFlags) }
	extraModes["genbaseline"] = func(args []string) {
		i, _ := strconv.Atoi(args[0])
		d := detGen{Type: i / 2 / detFlags, Eng: []string{"g", "y"}[i/detFlags%2], Flags: i % detFlags}
		b, _ := json.Marshal(map[string]string{"key": d.key(), "out": d.run()})
		os.Stdout.Write(b)
	}
	register([]string{"C12"}, &Kind{
		Name: "codegen",
		New:  func() any { return &detScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &detScenario{}
			n := 1 + r.N(5)
			for i := 0; i < n; i++ {
				d := detGen{Type: r.N(len(detTypes)), Eng: pick(r, []string{"g", "y"}), Flags: r.N(detFlags), Mode: 1 + r.N(2), Rand: r.U64(), File: r.N(3)}
				if d.Mode == 1 && r.P(60) {
					d.Rand = uint64(r.N(16))
				}
				if r.P(20) {
					d.Fault = pick(r, []string{"error", "panic"})
				}
				if r.P(20) {
					d.Dir = 1 + r.N(2)
				}
				if r.P(30) {
					d.Clock = []int64{1, 60, 86400, 40 * 86400, 400 * 86400, -1_000_000_000}[r.N(6)]
					d.Env = r.P(30)
				}
				if i > 0 && r.P(30) {
					d.Type, d.Eng, d.Flags = sc.Gens[i-1].Type, sc.Gens[i-1].Eng, sc.Gens[i-1].Flags
				}
				sc.Gens = append(sc.Gens, d)
			}
			return sc
		},
		Run: func(sc0 any, st *Stats) *Violation {
			sc := sc0.(*detScenario)
			detDirs.Do(func() {
				wd, _ := os.Getwd()
				detDirs.list = []string{wd, os.TempDir(), "/"}
			})
			prev := ""
			for i, d := range sc.Gens {
				if d.Dir > 0 {
					os.Chdir(detDirs.list[d.Dir])
				}
				got := d.run()
				if d.Dir > 0 {
					os.Chdir(detDirs.list[0])
				}
				st.Log("%s %d %d %s %x", d.key(), d.Mode, d.Rand, d.Fault, hashString(got))
				st.State(hashString(fmt.Sprint(d.key(), d.Fault, d.Mode == 1, d.Rand%8, prev)))
				if d.Fault != "" {
					prev = "fault"
					st.Inc("fault.destination " + d.Fault)
					if strings.HasPrefix(got, "hang") {
						return vio("hang", "generation %d: %s", i, got)
					}
					continue
				}
				st.Inc(fmt.Sprintf("fault.map order mode %d", d.Mode))
				if d.Clock != 0 {
					st.Inc("fault.clock jump")
				}
				if d.Env {
					st.Inc("fault.other environment")
				}
				want, ok := detBaseline(d.key())
				if !ok {
					return nil
				}
				if strings.HasPrefix(want, "error: ") {
					prev = "error"
					st.Inc("probe.types that cannot be generated")
				} else {
					prev = "ok"
				}
				if got != want {
					return vio("differs", "generation %d of the process (type %T, engine %s, options %d, map order %d/%d) differs from the one made alone:\n%s", i+1, detTypes[d.Type], d.Eng, d.Flags, d.Mode, d.Rand, firstDiff(want, got))
				}
			}
			return nil
		},
		Shrink: func(sc0 any) []any {
			sc := sc0.(*detScenario)
			var out []any
			for _, g := range shrinkSlice(sc.Gens) {
				if len(g) > 0 {
					out = append(out, &detScenario{g})
				}
			}
			for i, d := range sc.Gens {
				put := func(f func(*detGen)) {
					n := d
					f(&n)
					if n == d {
						return
					}
					c := append([]detGen{}, sc.Gens...)
					c[i] = n
					out = append(out, &detScenario{c})
				}
				put(func(d *detGen) { d.Fault = "" })
				put(func(d *detGen) { d.Dir, d.File = 0, 0 })
				put(func(d *detGen) { d.Clock, d.Env = 0, false })
				put(func(d *detGen) { d.Flags = 0 })
				put(func(d *detGen) { d.Mode, d.Rand = 1, 0 })
				put(func(d *detGen) { d.Mode, d.Rand = 1, d.Rand%8 })
				put(func(d *detGen) { d.Eng = "g" })
				put(func(d *detGen) { d.Type = 0 })
			}
			return out
		},
	})
}

func firstDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: expected %q\n  got %q", i+1, x, y)
		}
	}
	return "same"
}
