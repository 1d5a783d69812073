package main

import (
	"fmt"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// C08: the caller overwrites every buffer it owns as soon as it may.

type memScenario struct {
	Ops []*libOp `json:"ops"`
}

func init() {
	register([]string{"C08"}, &Kind{
		Name: "buffers",
		New:  func() any { return &memScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &memScenario{}
			for i := 1 + r.N(5); i > 0; i-- {
				sc.Ops = append(sc.Ops, genOp(r, deep))
			}
			if r.P(25) { // the same object all the time
				first := sc.Ops[0]
				for i := 1; i < len(sc.Ops); i++ {
					for tries := 0; tries < 40 && (sc.Ops[i].K != first.K || sc.Ops[i].Engine != first.Engine); tries++ {
						sc.Ops[i] = genOp(r, deep)
					}
					sc.Ops[i].Reuse = true
				}
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runBuffers(sc.(*memScenario), st) },
		Shrink: func(sc any) []any {
			return shrinkOps(sc.(*memScenario).Ops, func(o []*libOp) any { return &memScenario{o} })
		},
	})
}

// shrinkOps proposes fewer and smaller operations.
func shrinkOps(ops []*libOp, wrap func([]*libOp) any) []any {
	var out []any
	for _, o := range shrinkSlice(ops) {
		if len(o) > 0 {
			out = append(out, wrap(o))
		}
	}
	with := func(i int, o *libOp) {
		c := append([]*libOp{}, ops...)
		c[i] = o
		out = append(out, wrap(c))
	}
	for i, op := range ops {
		if op.Doc != nil && op.K != "read" && op.K != "compare" {
			for _, d := range shrinkDoc(op.Doc) {
				c := *op
				c.Doc = d
				with(i, &c)
			}
		}
		for _, calls := range shrinkSlice(op.Calls) {
			c := *op
			c.Calls = calls
			with(i, &c)
		}
		for _, ins := range shrinkSlice(op.Ins) {
			c := *op
			c.Ins = ins
			with(i, &c)
		}
		if op.Gen != nil && op.Gen.Encode {
			for _, d := range shrinkDoc(op.Gen.Doc) {
				c, g := *op, *op.Gen
				g.Doc = d
				c.Gen = &g
				with(i, &c)
			}
		}
		if op.Gen != nil && !op.Gen.Encode {
			for _, d := range shrinkDoc(op.Gen.Doc) {
				c, g := *op, *op.Gen
				g.Doc = d
				c.Gen = &g
				c.Src = d.text(g.Via == 2)
				with(i, &c)
			}
		}
	}
	return out
}

// slow operations are left out: how long parsing takes is no matter of this property
const opSteps = 2000000

func runBuffers(sc *memScenario, st *Stats) *Violation {
	plain, over := &opObjects{}, &opObjects{}
	var all []*opCtx
	defer func() { cb.Lend, cb.Given = nil, nil }()
	outputs := 0
	for i, op := range sc.Ops {
		a := &opCtx{objs: plain}
		steps, p := scoped(op.limit(opSteps), func() { op.run(a) })
		st.Add("steps", steps)
		if _, slow := p.(zzv.Hang); slow {
			st.Inc("skipped_slow_operation")
			st.Trivial()
			return nil
		} else if p != nil {
			panic(p)
		}
		b := &opCtx{objs: over, scribble: true}
		var lent [][]byte
		cb.Lend = func(buf []byte) {
			for _, l := range lent {
				scribble(l)
				st.Inc("fault.callback_buffer_overwritten")
			}
			lent = append(lent[:0], buf)
		}
		cb.Given = func(buf []byte) {
			st.Inc("fault.callback_argument_overwritten")
			scribble(buf)
		}
		steps, p = scoped(4*op.limit(opSteps), func() { op.run(b) })
		st.Add("steps", steps)
		if p != nil {
			panic(p)
		}
		cb.Lend, cb.Given = nil, nil
		for _, l := range lent {
			scribble(l)
		}
		st.Inc("op." + opName(op))
		st.Log("%d %s %d %v", i, opName(op), len(a.log), a.log)
		outputs += len(a.keep)
		st.Add("fault.input_overwritten", int64(len(a.inputs)))
		st.State(hashString(fmt.Sprint(op.K, op.Engine, op.Variant, len(a.inputs), len(a.keep), a.panicked)))
		for _, x := range []*opCtx{a, b} {
			if x.changed != "" {
				return vio("input-modified", "operation %d (%s): %s", i, opName(op), x.changed)
			}
		}
		if d := compareLogs(b.log, a.log); d != "" {
			return vio("shares-memory", "operation %d (%s) observes something else when the caller overwrites its buffers after each call: %s", i, opName(op), d)
		}
		all = append(all, a, b)
	}
	for i, x := range all {
		if d := x.recheck(); d != "" {
			return vio("result-changed", "operation %d (%s): %s", i/2, opName(sc.Ops[i/2]), d)
		}
		for _, in := range x.inputs {
			if string(in.b) != in.orig {
				return vio("input-modified", "operation %d (%s): input %q became %q", i/2, opName(sc.Ops[i/2]), in.orig, in.b)
			}
		}
	}
	if outputs == 0 {
		st.Trivial()
	}
	return nil
}
