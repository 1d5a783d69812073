package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// C01 and C02: operations of a catalog, each of which was executed once in a process of its own.

type catalog struct {
	Seed uint64     `json:"seed"`
	Want []opRecord `json:"want"`
	ops  []*libOp
}

type opRecord struct {
	Log   []string `json:"log"`
	Steps int64    `json:"steps"`
	Bad   string   `json:"bad,omitempty"` // not usable: does not end by itself
}

func catalogOp(seed uint64, i int) *libOp {
	return genOp(NewRand(seed*1000003+uint64(i)*7919+17), i%10 == 9)
}

var theCatalog *catalog

func getCatalog() *catalog {
	if theCatalog != nil {
		return theCatalog
	}
	raw, err := os.ReadFile(dataFile)
	if err != nil {
		panic(err)
	}
	c := &catalog{}
	if err := json.Unmarshal(raw, c); err != nil {
		panic(err)
	}
	for i := range c.Want {
		c.ops = append(c.ops, catalogOp(c.Seed, i))
	}
	theCatalog = c
	return c
}

func init() {
	// baseline SEED INDEX: one operation in this process, which does nothing else
	extraModes["baseline"] = func(args []string) {
		seed, _ := strconv.ParseUint(args[0], 10, 64)
		i, _ := strconv.Atoi(args[1])
		op := catalogOp(seed, i)
		var rec opRecord
		runtime.SimRandMode, runtime.SimRand = 1, 0
		zzv.SetPools(0, false, 1, true)
		func() {
			defer func() {
				if p := recover(); p != nil {
					rec.Bad = fmt.Sprint(p)
				}
			}()
			zzv.BeginCount(op.limit(300000))
			x := &opCtx{}
			op.run(x)
			rec.Log = x.log
		}()
		rec.Steps = zzv.EndCount()
		b, _ := json.Marshal(rec)
		os.Stdout.Write(b)
	}
}

type histScenario struct {
	Ops []int `json:"ops"`
}

func pickOps(r *Rand, c *catalog, n int) []int {
	// a few operations repeated often, or many different ones
	var from []int
	for k := 2 + r.N(6); k > 0; k-- {
		from = append(from, r.N(len(c.ops)))
	}
	repeat := []int{0, 50, 90}[r.N(3)]
	var kind string
	if r.P(30) {
		kind = c.ops[r.N(len(c.ops))].K
	}
	var out []int
	for tries := 0; len(out) < n && tries < 50*n; tries++ {
		i := r.N(len(c.ops))
		if r.P(repeat) {
			i = pick(r, from)
		} else if kind != "" && c.ops[i].K != kind {
			continue
		}
		if c.Want[i].Steps > 400000 && !r.P(10) {
			continue
		}
		if c.Want[i].Bad == "" {
			out = append(out, i)
		}
	}
	return out
}

func init() {
	register([]string{"C02"}, &Kind{
		Name: "history",
		New:  func() any { return &histScenario{} },
		Gen: func(r *Rand, deep bool) any {
			n := 2 + r.N(14)
			if deep && r.P(20) {
				n += r.N(60)
			}
			return &histScenario{pickOps(r, getCatalog(), n)}
		},
		Run: func(sc any, st *Stats) *Violation { return runHistory(sc.(*histScenario), st) },
		Shrink: func(sc any) []any {
			var out []any
			for _, o := range shrinkSlice(sc.(*histScenario).Ops) {
				out = append(out, &histScenario{o})
			}
			return out
		},
	})
}

func runHistory(sc *histScenario, st *Stats) *Violation {
	c := getCatalog()
	objs := &opObjects{}
	cb.Note = nil
	var all []*opCtx
	limit := int64(0)
	for _, i := range sc.Ops {
		limit += 4*c.Want[i].Steps + 100000
	}
	zzv.BeginCount(limit)
	defer func() { st.Add("steps", zzv.EndCount()) }()
	disturbed := false
	prev := ""
	for at, i := range sc.Ops {
		op := c.ops[i]
		x := &opCtx{objs: objs}
		op.run(x)
		st.Inc("op." + opName(op))
		class := "ok"
		switch {
		case x.panicked:
			class = "panicked"
			// encoders which panicked while in use are not used again
			objs.enc = nil
		case op.At == 1 && (op.K == "encode" || op.K == "build"):
			class = "abandoned"
		default:
			for _, l := range x.log {
				if len(l) > 200 {
					l = l[:200]
				}
				if containsError(l) {
					class = "failed"
				}
			}
		}
		if class != "ok" {
			st.Inc("fault.earlier_operation_" + class)
			disturbed = true
		}
		st.Log("%d %s %v", i, class, x.log)
		st.State(hashString(prev + ">" + opName(op) + class))
		prev = opName(op) + class
		if d := compareLogs(x.log, c.Want[i].Log); d != "" {
			return vio("depends-on-history", "operation %d of the history (catalog %d, %s) differs from the same operation in a fresh process: %s\noperation: %s", at, i, opName(op), d, describeOp(op))
		}
		all = append(all, x)
	}
	for at, x := range all {
		if d := x.recheck(); d != "" {
			return vio("result-changed", "operation %d of the history (%s): %s", at, opName(c.ops[sc.Ops[at]]), d)
		}
	}
	if !disturbed {
		st.Trivial()
	}
	return nil
}

func containsError(l string) bool {
	for i := 0; i+8 <= len(l); i++ {
		if l[i:i+8] == ": error " {
			return true
		}
	}
	return false
}

func describeOp(op *libOp) string {
	b, _ := json.Marshal(op)
	if len(b) > 1500 {
		b = append(b[:1500], "..."...)
	}
	return string(b)
}
