package main

import (
	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// C01: independent operations interleaved statement by statement.

type concScenario struct {
	Tasks  [][]int      `json:"tasks"`
	Sched  uint64       `json:"sched"`
	Quant  int          `json:"quant"`
	Switch []zzv.Switch `json:"switch,omitempty"`
	Share  bool         `json:"share"` // tasks use the same read-only source buffers
}

func init() {
	register([]string{"C01"}, &Kind{
		Name: "concurrent",
		New:  func() any { return &concScenario{} },
		Gen: func(r *Rand, deep bool) any {
			c := getCatalog()
			sc := &concScenario{Sched: r.U64(), Quant: []int{2, 6, 30, 150, 1000}[r.N(5)], Share: r.P(50)}
			tasks := 2 + r.N(3)
			same := r.P(30)
			for t := 0; t < tasks; t++ {
				if same && t > 0 {
					sc.Tasks = append(sc.Tasks, sc.Tasks[0])
					continue
				}
				sc.Tasks = append(sc.Tasks, pickOps(r, c, 1+r.N(5)))
			}
			// at most about a thousand preemptions
			total := int64(0)
			for _, t := range sc.Tasks {
				for _, i := range t {
					total += c.Want[i].Steps
				}
			}
			sc.Quant = max(sc.Quant, int(total/int64(pick(r, []int{30, 200, 1000}))))
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runConcurrent(sc.(*concScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*concScenario)
			var out []any
			if s.Quant != 0 {
				c := *s
				runConcurrent(s, newStats())
				c.Quant, c.Switch = 0, lastSwitches
				out = append(out, &c)
			}
			for t := range s.Tasks {
				if len(s.Tasks) > 1 && s.Quant != 0 {
					c := *s
					c.Tasks = append(append([][]int{}, s.Tasks[:t]...), s.Tasks[t+1:]...)
					out = append(out, &c)
				}
				for _, o := range shrinkSlice(s.Tasks[t]) {
					c := *s
					c.Tasks = append([][]int{}, s.Tasks...)
					c.Tasks[t] = o
					out = append(out, &c)
				}
			}
			if s.Quant == 0 {
				for _, sw := range shrinkSlice(s.Switch) {
					c := *s
					c.Switch = sw
					out = append(out, &c)
				}
			}
			return out
		},
	})
}

func runConcurrent(sc *concScenario, st *Stats) *Violation {
	c := getCatalog()
	cb.Note, cb.Lend, cb.Given = nil, nil, nil
	shared := map[string][]byte{}
	limit := int64(200000)
	ops := 0
	for _, t := range sc.Tasks {
		for _, i := range t {
			limit += 8*c.Want[i].Steps + 50000
			ops++
			if sc.Share && c.ops[i].Src != "" {
				shared[c.ops[i].Src] = []byte(c.ops[i].Src)
			}
		}
	}
	races := raceErrors()
	xs := make([][]*opCtx, len(sc.Tasks))
	fails := make([]*Violation, len(sc.Tasks))
	tasks := make([]func(), len(sc.Tasks))
	for t, list := range sc.Tasks {
		tasks[t] = func() {
			defer func() {
				if p := recover(); p != nil {
					if h, ok := p.(zzv.Hang); ok {
						fails[t] = vio("hang", "task %d: %s", t, h.Error())
						return
					}
					panic(p)
				}
			}()
			objs := &opObjects{}
			for _, i := range list {
				x := &opCtx{objs: objs, shared: shared}
				xs[t] = append(xs[t], x)
				c.ops[i].run(x)
				if x.panicked {
					objs = &opObjects{}
				}
			}
		}
	}
	res := zzv.Coop(tasks, sc.Sched, sc.Quant, sc.Switch, limit)
	lastSwitches = res.Switches
	st.Add("steps", res.Steps)
	st.Add("probe.preemptions", int64(len(res.Switches)))
	if res.External {
		st.Inc("probe.blocked_outside_simulator")
	}
	var h uint64
	for _, s := range res.Switches {
		h = (h ^ uint64(s.Task+2)<<40 ^ uint64(s.Step)<<8 ^ uint64(s.To)) * 1099511628211
	}
	st.State(h)
	st.Log("schedule %x", h)
	if res.Hang != "" {
		return vio("hang", "%s", res.Hang)
	}
	for t, list := range sc.Tasks {
		if fails[t] != nil {
			return fails[t]
		}
		for k, i := range list {
			op := c.ops[i]
			st.Inc("op." + opName(op))
			x := xs[t][k]
			if x.panicked {
				st.Inc("fault.operation_panicked")
			}
			st.Log("%d %v", i, x.log)
			if d := compareLogs(x.log, c.Want[i].Log); d != "" {
				return vio("interference", "task %d, operation %d (catalog %d, %s) differs from the same operation alone: %s\noperation: %s", t, k, i, opName(op), d, describeOp(op))
			}
		}
	}
	for t, list := range sc.Tasks {
		for k := range list {
			if d := xs[t][k].recheck(); d != "" {
				return vio("result-changed", "task %d, operation %d (%s): %s", t, k, opName(c.ops[list[k]]), d)
			}
		}
	}
	for src, b := range shared {
		if src != string(b) {
			return vio("input-modified", "the source %q became %q", src, b)
		}
	}
	if n := raceErrors() - races; n > 0 {
		return vio("data-race", "%d data races reported by the race detector between independent operations", n)
	}
	if ops < 2 {
		st.Trivial()
	}
	return nil
}
