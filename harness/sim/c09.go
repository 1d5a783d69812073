package main

import (
	"bytes"
	"fmt"
	"strings"

	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C09: one tree, many users.

type treeUse struct {
	What    string `json:"w"` // read write writeto print equal rawloop
	Choices []int  `json:"c,omitempty"`
}

type sharedScenario struct {
	Engine string       `json:"engine"`
	Doc    *MNode       `json:"doc"`
	Text   int          `json:"text"`
	Uses   [][]treeUse  `json:"uses"` // per task
	Sched  uint64       `json:"sched"`
	Quant  int          `json:"quant"` // 0: one task after the other, no interleaving
	Listed bool         `json:"listed,omitempty"`
	Switch []zzv.Switch `json:"switch,omitempty"`
}

func genUses(r *Rand, engine string, doc *MNode) []treeUse {
	var out []treeUse
	for i := 1 + r.N(3); i > 0; i-- {
		u := treeUse{What: pick(r, []string{"read", "read", "read", "write", "writeto", "print", "equal"})}
		if u.What == "read" {
			var mix []int
			for len(mix) == 0 {
				for m := 0; m < nModes; m++ {
					if r.P(45) {
						mix = append(mix, m)
					}
				}
			}
			for k := doc.size() * 2; k > 0; k-- {
				u.Choices = append(u.Choices, pick(r, mix))
			}
		}
		out = append(out, u)
	}
	return out
}

func init() {
	register([]string{"C09"}, &Kind{
		Name: "shared-tree",
		New:  func() any { return &sharedScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &sharedScenario{Engine: pick(r, []string{"g", "y"}), Doc: genDoc(r, deep), Text: []int{0, 1, 2}[r.N(3)], Sched: r.U64()}
			tasks := 2 + r.N(2)
			for i := 0; i < tasks; i++ {
				sc.Uses = append(sc.Uses, genUses(r, sc.Engine, sc.Doc))
			}
			if r.P(75) {
				sc.Quant = []int{2, 10, 60, 400}[r.N(4)]
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runShared(sc.(*sharedScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*sharedScenario)
			var out []any
			cp := func() *sharedScenario {
				c := *s
				c.Uses = nil
				for _, u := range s.Uses {
					c.Uses = append(c.Uses, append([]treeUse{}, u...))
				}
				return &c
			}
			if s.Quant != 0 {
				c := cp()
				c.Quant, c.Listed, c.Switch = 0, false, nil
				out = append(out, c)
				c = cp()
				runShared(s, newStats())
				c.Quant, c.Listed, c.Switch = 0, true, lastSwitches
				out = append(out, c)
			}
			if s.Listed {
				for _, sw := range shrinkSlice(s.Switch) {
					c := cp()
					c.Switch = sw
					out = append(out, c)
				}
			}
			for t := range s.Uses {
				if len(s.Uses) > 1 && !s.Listed {
					c := cp()
					c.Uses = append(c.Uses[:t:t], c.Uses[t+1:]...)
					out = append(out, c)
				}
				for _, u := range shrinkSlice(s.Uses[t]) {
					c := cp()
					c.Uses[t] = u
					out = append(out, c)
				}
				for i, u := range s.Uses[t] {
					for _, ch := range shrinkSlice(u.Choices) {
						c := cp()
						c.Uses[t][i].Choices = ch
						out = append(out, c)
					}
				}
			}
			for _, d := range shrinkDoc(s.Doc) {
				c := cp()
				c.Doc = d
				out = append(out, c)
			}
			return out
		},
	})
}

var lastSwitches []zzv.Switch

// makeTree builds or parses the document for an engine.
func makeTree(engine string, doc *MNode, text int) (ast.Node, *yaml.Node) {
	want := doc.expand(doc.resolve()).canon()
	if engine == "y" {
		tree := doc.yayamls()
		if text != 0 {
			if parsed, ok := tryParseYay(doc.text(text == 2)); ok && canonY(parsed, map[string]string{}) == want {
				tree = parsed
			}
		}
		return tree, nil
	}
	tree := doc.goyaml()
	if text != 0 {
		if parsed, err := parseGo(doc.text(text == 2)); err == nil && canonG(parsed) == want {
			tree = parsed
		}
	}
	return nil, tree
}

// dumpY is the complete visible state of a tree.
func dumpY(n ast.Node) string {
	var b strings.Builder
	astprint.NewPrinter().Print(n, &b)
	b.WriteString(dumpYNode(n))
	return b.String()
}

func dumpYNode(n ast.Node) string {
	if n == nil {
		return "<absent>"
	}
	s := n.Type().String()
	list := func(ns []ast.Node) string {
		var parts []string
		for _, k := range ns {
			parts = append(parts, dumpYNode(k))
		}
		return "(" + strings.Join(parts, ",") + ")"
	}
	switch n := n.(type) {
	case *ast.StreamNode:
		return s + list(n.Documents())
	case *ast.SequenceNode:
		return s + list(n.Entries())
	case *ast.MappingNode:
		return s + list(n.Entries())
	case *ast.MappingEntryNode:
		return s + list([]ast.Node{n.Key(), n.Value()})
	case *ast.ContentNode:
		return s + list([]ast.Node{n.Properties(), n.Content()})
	case *ast.PropertiesNode:
		return s + list([]ast.Node{n.Tag(), n.Anchor()})
	case *ast.TextNode:
		return fmt.Sprintf("%s%q/%d", s, n.Text(), n.QuotingType())
	case ast.Texter:
		return fmt.Sprintf("%s%q", s, n.Text())
	}
	return s
}

func dumpG(n *yaml.Node) string {
	if n == nil {
		return "<absent>"
	}
	ids := map[*yaml.Node]int{}
	var b strings.Builder
	var walk func(n *yaml.Node)
	walk = func(n *yaml.Node) {
		if n == nil {
			b.WriteString("nil")
			return
		}
		ids[n] = len(ids)
		fmt.Fprintf(&b, "{%d %d %d %q %q %q %q %q %q %d %d ", ids[n], n.Kind, n.Style, n.Tag, n.Value, n.Anchor, n.HeadComment, n.LineComment, n.FootComment, n.Line, n.Column)
		if n.Alias != nil {
			if id, ok := ids[n.Alias]; ok {
				fmt.Fprintf(&b, "->%d", id)
			} else {
				b.WriteString("->?")
			}
		}
		for _, k := range n.Content {
			walk(k)
		}
		b.WriteString("}")
	}
	walk(n)
	return b.String()
}

// use performs one use of a tree and returns what it observed.
func use(engine string, doc *MNode, yt ast.Node, gt *yaml.Node, u treeUse, st *Stats) (string, *Violation) {
	switch u.What {
	case "read":
		c := &cursor{sc: &readScenario{Engine: engine, Doc: doc, Choices: u.Choices}, st: st, res: doc.resolve(), env: map[string]string{}}
		if engine == "y" {
			c.yr = ydecode.NewASTReader(yt)
			c.r = c.yr
		} else {
			c.gr = gdecode.NewASTReader(gt)
			c.r = c.gr
		}
		v := c.walk(doc, false)
		return "", v
	case "write":
		var out []byte
		var err error
		if engine == "y" {
			out, err = yencode.NewASTWriter().WriteBytes(yt)
		} else {
			out, err = (&gencode.ASTWriter{}).WriteBytes(gt)
		}
		return fmt.Sprintf("%q %v", out, err), nil
	case "writeto":
		var buf bytes.Buffer
		var err error
		if engine == "y" {
			err = yencode.NewASTWriter().WriteTo(&buf, yt)
		} else {
			err = (&gencode.ASTWriter{}).WriteTo(&buf, gt)
		}
		return fmt.Sprintf("%q %v", buf.String(), err), nil
	case "print":
		if engine != "y" {
			return "", nil
		}
		var buf bytes.Buffer
		err := astprint.NewPrinter().Print(yt, &buf)
		return fmt.Sprintf("%q %v", buf.String(), err), nil
	case "equal":
		if engine != "y" {
			return "", nil
		}
		return fmt.Sprint(astcmp.NewComparator().Equal(yt, yt)), nil
	}
	return "", nil
}

func runShared(sc *sharedScenario, st *Stats) *Violation {
	if !sc.Doc.valid() {
		st.Trivial()
		return nil
	}
	// what each use observes on a tree of its own
	want := make([][]string, len(sc.Uses))
	for t, us := range sc.Uses {
		for _, u := range us {
			yt, gt := makeTree(sc.Engine, sc.Doc, sc.Text)
			s, v := use(sc.Engine, sc.Doc, yt, gt, u, newStats())
			if v != nil {
				// not about sharing: C06 decides it
				st.Inc("skipped_alone_fails")
				st.Trivial()
				return nil
			}
			want[t] = append(want[t], s)
			st.Inc("use." + u.What)
		}
	}
	yt, gt := makeTree(sc.Engine, sc.Doc, sc.Text)
	dump := func() string {
		if sc.Engine == "y" {
			return dumpY(yt)
		}
		return dumpG(gt)
	}
	before := dump()
	races := raceErrors()
	tasks := make([]func(), len(sc.Uses))
	fails := make([]*Violation, len(sc.Uses))
	stats := make([]*Stats, len(sc.Uses))
	for t, us := range sc.Uses {
		stats[t] = newStats()
		tasks[t] = func() {
			defer func() {
				if p := recover(); p != nil {
					if h, ok := p.(zzv.Hang); ok {
						fails[t] = vio("hang", "task %d: %s", t, h.Error())
						return
					}
					fails[t] = vio("panic", "task %d: %v\n%s", t, p, shortStack())
				}
			}()
			for i, u := range us {
				got, v := use(sc.Engine, sc.Doc, yt, gt, u, stats[t])
				if v != nil {
					fails[t] = vio("differs-when-shared", "task %d, use %d (%s): %s: %s", t, i, u.What, v.Class, v.Detail)
					return
				}
				if got != want[t][i] {
					fails[t] = vio("differs-when-shared", "task %d, use %d (%s): got %s, alone %s", t, i, u.What, got, want[t][i])
					return
				}
			}
		}
	}
	uses := 1
	for _, us := range sc.Uses {
		uses += len(us)
	}
	limit := sc.Doc.hangLimit(uses)
	if sc.Quant == 0 && !sc.Listed {
		zzv.BeginCount(limit)
		for _, f := range tasks {
			f()
		}
		st.Add("steps", zzv.EndCount())
		st.Inc("sequential_runs")
	} else {
		res := zzv.Coop(tasks, sc.Sched, sc.Quant, sc.Switch, limit)
		lastSwitches = res.Switches
		st.Add("steps", res.Steps)
		st.Add("probe.preemptions", int64(len(res.Switches)))
		var h uint64
		for _, s := range res.Switches {
			h = (h ^ uint64(s.Task+2)<<40 ^ uint64(s.Step)<<8 ^ uint64(s.To)) * 1099511628211
		}
		st.State(h)
		st.Log("schedule %x", h)
		if res.Hang != "" {
			return vio("hang", "%s", res.Hang)
		}
	}
	st.Log("%s", before)
	for t := range sc.Uses {
		if fails[t] != nil {
			return fails[t]
		}
	}
	if after := dump(); after != before {
		return vio("tree-changed", "before %s\nafter  %s", before, after)
	}
	if n := raceErrors() - races; n > 0 {
		return vio("data-race", "%d data races reported by the race detector while only readers and writers used the tree", n)
	}
	return nil
}
