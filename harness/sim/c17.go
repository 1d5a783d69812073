package main

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"

	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C17: tree comparison. The goroutines the comparator starts run inside a bubble and stop at
// every statement; the controller decides which of them goes on.

type CNode struct {
	K    string   `json:"k"` // stream content props tag anchor alias text seq map entry null
	V    string   `json:"v,omitempty"`
	Q    int      `json:"q,omitempty"`
	Kids []*CNode `json:"c,omitempty"`
}

func (n *CNode) build() ast.Node {
	if n == nil {
		return nil
	}
	kids := make([]ast.Node, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = k.build()
	}
	switch n.K {
	case "stream":
		return ast.NewStreamNode(kids)
	case "content":
		return ast.NewContentNode(kids[0], kids[1])
	case "props":
		var tag, anchor ast.Node
		for _, k := range kids {
			if k.Type() == ast.TagType {
				tag = k
			} else {
				anchor = k
			}
		}
		return ast.NewPropertiesNode(tag, anchor)
	case "tag":
		return ast.NewTagNode(n.V)
	case "anchor":
		return ast.NewAnchorNode(n.V)
	case "alias":
		return ast.NewAliasNode(n.V)
	case "text":
		return ast.NewTextNode(n.V, ast.WithQuotingType(ast.QuotingType(n.Q)))
	case "seq":
		return ast.NewSequenceNode(kids)
	case "map":
		return ast.NewMappingNode(kids)
	case "entry":
		return ast.NewMappingEntryNode(kids[0], kids[1])
	}
	return ast.NewNullNode()
}

func (n *CNode) canon(b *strings.Builder) {
	if n == nil {
		b.WriteString("<nil>")
		return
	}
	b.WriteString(n.K)
	switch n.K {
	case "tag", "anchor", "alias", "text":
		b.WriteString(strconv.Quote(n.V))
	case "null":
	default:
		b.WriteString("(")
		for _, k := range n.Kids {
			k.canon(b)
			b.WriteString(",")
		}
		b.WriteString(")")
	}
}

func (n *CNode) String() string {
	var b strings.Builder
	n.canon(&b)
	return b.String()
}

func (n *CNode) clone() *CNode {
	if n == nil {
		return nil
	}
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (n *CNode) all() []*CNode {
	if n == nil {
		return nil
	}
	out := []*CNode{n}
	for _, k := range n.Kids {
		out = append(out, k.all()...)
	}
	return out
}

func (n *CNode) size() int { return len(n.all()) }

// rightCollections are the collections which end where the node ends.
func (n *CNode) rightCollections() []*CNode {
	var out []*CNode
	for x := n; x != nil; {
		if x.K == "seq" || x.K == "map" {
			out = append(out, x)
		}
		if len(x.Kids) == 0 {
			break
		}
		x = x.Kids[len(x.Kids)-1]
	}
	return out
}

// dropLast makes the last value of the tree (an entry's value or a tagged content) absent.
func (n *CNode) dropLast(up int) bool {
	var spine []*CNode
	for x := n; x != nil; {
		if (x.K == "entry" || x.K == "content") && x.Kids[1] != nil {
			spine = append(spine, x)
		}
		if len(x.Kids) == 0 {
			break
		}
		x = x.Kids[len(x.Kids)-1]
	}
	if len(spine) == 0 {
		return false
	}
	spine[max(0, len(spine)-1-up)].Kids[1] = nil
	return true
}

// wellFormed: only the very last value in visiting order may be absent.
func (n *CNode) wellFormed(last bool) bool {
	if n == nil {
		return last
	}
	for i, k := range n.Kids {
		if k == nil && ((n.K != "entry" && n.K != "content") || i != 1) {
			return false
		}
		if !k.wellFormed(last && i == len(n.Kids)-1) {
			return false
		}
	}
	return true
}

// genC makes trees of the shapes the parser makes.
func genC(r *Rand, budget *int, depth int) *CNode {
	*budget--
	words := []string{"a", "b", "", "key", "null", "0", "a\nb"}
	if r.P(12) { // texts which agree for a while
		same := strings.Repeat("same ", []int{1, 3, 14, 60, 900}[r.N(5)])
		words = []string{same + "a", same + "b", same, "a" + same, "b" + same, same + "a" + same}
	}
	if *budget > 0 && depth < 6 && r.P(55) {
		n := &CNode{K: pick(r, []string{"seq", "map", "seq", "map", "content"})}
		switch n.K {
		case "seq":
			kids := r.N(5)
			if r.P(1) {
				kids = 60 + r.N(240)
			}
			for i := kids; i > 0; i-- {
				n.Kids = append(n.Kids, genC(r, budget, depth+1))
			}
		case "map":
			for i := r.N(4); i > 0; i-- {
				n.Kids = append(n.Kids, &CNode{K: "entry", Kids: []*CNode{genC(r, budget, depth+3), genC(r, budget, depth+1)}})
			}
		case "content":
			p := &CNode{K: "props"}
			if r.P(60) {
				p.Kids = append(p.Kids, &CNode{K: "tag", V: pick(r, words)})
			}
			if len(p.Kids) == 0 || r.P(50) {
				p.Kids = append(p.Kids, &CNode{K: "anchor", V: pick(r, words)})
			}
			n.Kids = []*CNode{p, genC(r, budget, depth+1)}
			if n.Kids[1].K == "content" {
				n.Kids[1] = &CNode{K: "null"}
			}
		}
		return n
	}
	switch r.N(6) {
	case 0:
		return &CNode{K: "null"}
	case 1:
		return &CNode{K: "alias", V: pick(r, words)}
	}
	return &CNode{K: "text", V: pick(r, words), Q: r.N(4)}
}

// mutateC changes one node of a copy: kind, text, quoting, or where a child hangs.
func mutateC(r *Rand, n *CNode) *CNode {
	c := n.clone()
	nodes := c.all()
	x := pick(r, nodes)
	switch r.N(12) {
	case 0:
		x.V += "'"
	case 11: // one byte of a text
		if i := len(x.V); i > 0 {
			i = r.N(i)
			x.V = x.V[:i] + "#" + x.V[i+1:]
		}
	case 1:
		x.Q = r.N(4)
	case 2:
		if x.K == "text" || x.K == "null" || x.K == "alias" {
			x.K = pick(r, []string{"text", "null", "alias"})
		}
	case 3:
		if x.K == "seq" || x.K == "map" || x.K == "stream" {
			if len(x.Kids) > 0 {
				x.Kids = x.Kids[:len(x.Kids)-1]
			}
		}
	case 4:
		if x.K == "seq" {
			x.Kids = append(x.Kids, &CNode{K: "text", V: "a"})
		}
	case 5, 9, 10: // hand the last child of a collection to the one around it, or the other way round
		for _, p := range nodes {
			if p.K != "seq" && p.K != "map" && p.K != "stream" {
				continue
			}
			for i := range p.Kids {
				for _, a := range p.Kids[i].rightCollections() {
					if (a.K == "map") != (p.K == "map") || r.P(40) {
						continue
					}
					if len(a.Kids) > 0 && r.P(50) {
						last := a.Kids[len(a.Kids)-1]
						a.Kids = a.Kids[:len(a.Kids)-1]
						rest := append([]*CNode{}, p.Kids[i+1:]...)
						p.Kids = append(append(p.Kids[:i+1:i+1], last), rest...)
						return c
					}
					if i+1 < len(p.Kids) {
						a.Kids = append(a.Kids, p.Kids[i+1])
						p.Kids = append(p.Kids[:i+1:i+1], p.Kids[i+2:]...)
						return c
					}
				}
			}
		}
	case 6:
		if len(x.Kids) > 1 && (x.K == "seq" || x.K == "map" || x.K == "entry") {
			i := r.N(len(x.Kids) - 1)
			x.Kids[i], x.Kids[i+1] = x.Kids[i+1], x.Kids[i]
		}
	case 7:
		if x.K == "seq" && len(x.Kids) == 0 {
			x.K = "map"
		} else if x.K == "map" && len(x.Kids) == 0 {
			x.K = "seq"
		}
	case 8: // the very last text
		for i := len(nodes) - 1; i >= 0; i-- {
			if nodes[i].K == "text" {
				nodes[i].V += "z"
				break
			}
		}
	}
	return c
}

type cmpScenario struct {
	A      *CNode `json:"a"`
	B      *CNode `json:"b"`
	Share  bool   `json:"share,omitempty"` // both sides are the same tree
	Calls  int    `json:"calls"`           // concurrent comparisons sharing the trees
	Sched  uint64 `json:"sched"`
	Bias   int    `json:"bias"`             // percent of steps that stay with the same goroutine
	Starve int    `json:"starve,omitempty"` // the goroutine which is only scheduled when nothing else can run
	Listed bool   `json:"listed,omitempty"` // the schedule is Picks, then always the first runnable goroutine
	Picks  []int  `json:"picks,omitempty"`
}

func init() {
	register([]string{"C17"}, &Kind{
		Name: "compare",
		New:  func() any { return &cmpScenario{} },
		Gen: func(r *Rand, deep bool) any {
			budget := 2 + r.N(12)
			if r.P(20) {
				budget += 30
			}
			if deep && r.P(10) {
				budget += 200
			}
			sc := &cmpScenario{Calls: 1, Sched: r.U64(), Bias: []int{0, 30, 80, 97}[r.N(4)]}
			sc.A = genC(r, &budget, 0)
			if r.P(25) {
				docs := []*CNode{sc.A}
				for i := r.N(3); i > 0; i-- {
					b := 5
					docs = append(docs, genC(r, &b, 1))
				}
				sc.A = &CNode{K: "stream", Kids: docs}
			}
			sc.B = sc.A.clone()
			if !r.P(25) {
				for i := 0; i < 6 && sc.A.String() == sc.B.String(); i++ {
					sc.B = mutateC(r, sc.B)
				}
			}
			if r.P(10) {
				b := 5
				sc.B = genC(r, &b, 0)
			}
			if r.P(12) {
				// the last value of one tree is absent: a strict prefix of the other in visiting order
				if !sc.B.dropLast(r.N(3)) {
					v := &CNode{K: "seq"}
					for i := 1 + r.N(12); i > 0; i-- {
						v.Kids = append(v.Kids, &CNode{K: "text", V: "y"})
					}
					e := &CNode{K: "map", Kids: []*CNode{{K: "entry", Kids: []*CNode{{K: "text", V: "x"}, v}}}}
					sc.A = &CNode{K: "seq", Kids: []*CNode{sc.A, e}}
					sc.B = sc.A.clone()
					sc.B.dropLast(0)
				}
			}
			if r.P(3) {
				sc.B = nil
			}
			if r.P(2) {
				sc.A = nil
			}
			if r.P(50) {
				sc.A, sc.B = sc.B, sc.A
			}
			if r.P(6) {
				sc.Share, sc.B = true, sc.A
			}
			if r.P(15) {
				sc.Calls = 2 + r.N(2)
			}
			if r.P(30) {
				sc.Starve = 1 + r.N(4)
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runCompare(sc.(*cmpScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*cmpScenario)
			var out []any
			add := func(f func(c *cmpScenario)) {
				c := *s
				c.A, c.B = s.A.clone(), s.B.clone()
				f(&c)
				out = append(out, &c)
			}
			if s.Calls > 1 {
				add(func(c *cmpScenario) { c.Calls-- })
			}
			if !s.Listed {
				// the schedule as an explicit list
				st := newStats()
				runCompare(s, st)
				add(func(c *cmpScenario) { c.Listed = true; c.Bias, c.Starve, c.Sched = 0, 0, 0 })
				add(func(c *cmpScenario) {
					c.Listed, c.Picks = true, append([]int{}, lastPicks...)
					c.Bias, c.Starve, c.Sched = 0, 0, 0
				})
			} else {
				for _, p := range shrinkSlice(s.Picks) {
					add(func(c *cmpScenario) { c.Picks = p })
				}
			}
			for i, n := range s.A.all() {
				for k := range n.Kids {
					if n.K != "seq" && n.K != "map" && n.K != "stream" {
						break
					}
					add(func(c *cmpScenario) {
						x := c.A.all()[i]
						x.Kids = append(x.Kids[:k:k], x.Kids[k+1:]...)
						if c.Share {
							c.B = c.A
							return
						}
						ys := c.B.all()
						if i < len(ys) && k < len(ys[i].Kids) && ys[i].K == x.K {
							ys[i].Kids = append(ys[i].Kids[:k:k], ys[i].Kids[k+1:]...)
						}
					})
					add(func(c *cmpScenario) {
						if c.Share {
							return
						}
						x := c.A.all()[i]
						x.Kids = append(x.Kids[:k:k], x.Kids[k+1:]...)
					})
				}
			}
			return out
		},
	})
}

var lastPicks []int

// bubbleSched decides which goroutine of a bubble runs next.
type bubbleSched struct {
	mu     sync.Mutex
	parked map[uint64]chan struct{}
	ids    map[uint64]int
	names  int
	ctl    uint64
}

func (b *bubbleSched) park() {
	g := runtime.SimGoid()
	if g == b.ctl {
		return
	}
	ch := make(chan struct{})
	b.mu.Lock()
	b.parked[g] = ch
	b.mu.Unlock()
	<-ch
}

func runCompare(sc *cmpScenario, st *Stats) (v *Violation) {
	if !sc.A.wellFormed(true) || !sc.B.wellFormed(true) {
		st.Trivial()
		return nil
	}
	a, b := sc.A.build(), sc.B.build()
	if sc.Share {
		b = a
	}
	want := sc.A.String() == sc.B.String()
	if !want && (strings.Contains(sc.A.String(), "<nil>") || strings.Contains(sc.B.String(), "<nil>")) {
		st.Inc("probe.absent_last_value")
	}
	total := sc.A.size() + sc.B.size()
	if total < 4 {
		st.Trivial()
	}
	limit := sc.Calls * (total*60 + 400)
	bs := &bubbleSched{parked: map[uint64]chan struct{}{}, ids: map[uint64]int{}}
	results := make([]bool, sc.Calls)
	done := 0
	steps := 0
	after := 0
	r := NewRand(sc.Sched)
	var picks []int
	var sig uint64 = 14695981039346656037
	defer func() {
		zzv.SetBubble(nil)
		lastPicks = picks
		st.Add("steps", int64(steps))
		st.State(sig)
		if p := recover(); p != nil {
			msg := fmt.Sprint(p)
			if strings.Contains(msg, "deadlock") {
				if done < sc.Calls {
					v = vio("deadlock", "comparing %s with %s: %d of %d calls returned, everything else is blocked", sc.A, sc.B, done, sc.Calls)
				} else {
					v = vio("goroutine-leak", "comparing %s with %s: after the comparison returned, goroutines it started stay blocked forever", sc.A, sc.B)
				}
				return
			}
			v = vio("panic", "%v\n%s", p, shortStack())
		}
	}()
	var bad *Violation
	synctest.SimRun(func() {
		bs.ctl = runtime.SimGoid()
		zzv.SetBubble(bs.park)
		for i := 0; i < sc.Calls; i++ {
			go func() {
				bs.park()
				res := astcmp.NewComparator().Equal(a, b)
				bs.mu.Lock()
				results[i] = res
				done++
				bs.mu.Unlock()
			}()
			synctest.SimWait()
		}
		last := -1
		at := 0
		for {
			synctest.SimWait()
			if len(bs.parked) == 0 {
				break
			}
			gs := make([]uint64, 0, len(bs.parked))
			for g := range bs.parked {
				gs = append(gs, g)
			}
			sort.Slice(gs, func(i, j int) bool { return gs[i] < gs[j] })
			for _, g := range gs {
				if _, ok := bs.ids[g]; !ok {
					bs.ids[g] = bs.names
					bs.names++
				}
			}
			sort.Slice(gs, func(i, j int) bool { return bs.ids[gs[i]] < bs.ids[gs[j]] })
			k := 0
			if sc.Listed {
				if at < len(sc.Picks) {
					for i, g := range gs {
						if bs.ids[g] == sc.Picks[at] {
							k = i
						}
					}
				}
				at++
			} else {
				cand := gs
				if sc.Starve > 0 && len(gs) > 1 {
					cand = nil
					for _, g := range gs {
						if bs.ids[g] != sc.Starve {
							cand = append(cand, g)
						}
					}
				}
				stay := -1
				for i, g := range cand {
					if bs.ids[g] == last {
						stay = i
					}
				}
				c := 0
				if stay >= 0 && r.P(sc.Bias) {
					c = stay
				} else {
					c = r.N(len(cand))
				}
				for i, g := range gs {
					if g == cand[c] {
						k = i
					}
				}
			}
			g := gs[k]
			last = bs.ids[g]
			picks = append(picks, last)
			sig = (sig ^ uint64(last+1)) * 1099511628211
			if len(gs) > 1 {
				st.Inc("probe.choice_between_goroutines")
			}
			ch := bs.parked[g]
			delete(bs.parked, g)
			steps++
			if done == sc.Calls {
				after++
			}
			if steps > limit {
				bad = vio("no-progress", "comparing %s with %s: not finished after %d steps", sc.A, sc.B, steps)
				// stop controlling so that everything can end
				zzv.SetBubble(nil)
				close(ch)
				for _, c := range bs.parked {
					close(c)
				}
				return
			}
			close(ch)
		}
	})
	if bad != nil {
		return bad
	}
	st.Log("%d steps %v %v %x %s %s", steps, results, done, sig, sc.A, sc.B)
	if after > 40 {
		return vio("outlives", "comparing %s with %s: goroutines started by the comparison made %d more steps after it had returned", sc.A, sc.B, after)
	}
	for i, res := range results {
		if res != want {
			return vio("wrong-answer", "comparing %s with %s: call %d returned %v", sc.A, sc.B, i, res)
		}
	}
	if want {
		st.Inc("probe.equal_trees")
	} else {
		st.Inc("probe.different_trees")
	}
	return nil
}
