package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yparser "github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// MNode is the executable model of a document: what a node is, independent of any engine.
type MNode struct {
	K      string   `json:"k"`           // i u f b t s: scalars; n null; q sequence; m mapping (key, value, ...); a alias
	V      string   `json:"v,omitempty"` // text of a scalar, anchor name of an alias
	Quoted bool     `json:"q,omitempty"`
	Anchor string   `json:"a,omitempty"`
	Tag    bool     `json:"t,omitempty"` // the node carries the tag of its own kind, which changes nothing
	Kids   []*MNode `json:"c,omitempty"`
}

func (n *MNode) nullText() string {
	if n.V != "" {
		return n.V
	}
	return "null"
}

// tag is the name of the node's kind in YAML's core schema.
func (n *MNode) tag() string {
	switch n.K {
	case "n":
		return "null"
	case "q":
		return "seq"
	case "m":
		return "map"
	case "f":
		return "float"
	case "b":
		return "bool"
	case "t":
		return "timestamp"
	case "s":
		return "str"
	}
	return "int"
}

// props is the source text of the tag and the anchor.
func (n *MNode) props() string {
	s := ""
	if n.Tag {
		s = "!!" + n.tag() + " "
	}
	if n.Anchor != "" {
		s += "&" + n.Anchor + " "
	}
	return s
}

func (n *MNode) scalar() bool { return strings.Contains("iufbts", n.K) }

// resolve maps every alias node to the node it refers to: the latest node with that anchor before it.
func (n *MNode) resolve() map[*MNode]*MNode {
	env := map[string]*MNode{}
	out := map[*MNode]*MNode{}
	var walk func(n *MNode)
	walk = func(n *MNode) {
		if n.K == "a" {
			if t := env[n.V]; t != nil {
				out[n] = t
			}
			return
		}
		if n.Anchor != "" {
			env[n.Anchor] = n
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	return out
}

// valid says whether every alias has a target that is complete before the alias.
func (n *MNode) valid() bool {
	res := n.resolve()
	ok := true
	var open []*MNode
	var walk func(n *MNode)
	walk = func(n *MNode) {
		if n.K == "a" {
			t := res[n]
			if t == nil {
				ok = false
				return
			}
			for _, o := range open {
				if o == t {
					ok = false
				}
			}
			return
		}
		open = append(open, n)
		if n.K == "m" && len(n.Kids)%2 != 0 {
			ok = false
		}
		for _, k := range n.Kids {
			walk(k)
		}
		open = open[:len(open)-1]
	}
	walk(n)
	return ok
}

func (n *MNode) clone() *MNode {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

// expand returns a copy without anchors and aliases.
func (n *MNode) expand(res map[*MNode]*MNode) *MNode {
	if n.K == "a" {
		if res[n] == nil {
			return n
		}
		return res[n].expand(res)
	}
	c := *n
	c.Anchor, c.Tag = "", false
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.expand(res))
	}
	return &c
}

func (n *MNode) size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.size()
	}
	return s
}

// hangLimit is the number of steps after which a run over the document counts as hanging. It is
// meant to be far above what any honest reader needs: a read at every node of a deep document that
// renders all that is below it, by a renderer which copies the text once per level.
func (n *MNode) hangLimit(uses int) int64 {
	res := n.resolve()
	var nodes, bytes, deepest int64
	var walk func(n *MNode, depth int64)
	walk = func(n *MNode, depth int64) {
		if depth > 1000 || nodes > 1000000 {
			return
		}
		if n.K == "a" && res[n] != nil {
			walk(res[n], depth)
			return
		}
		nodes++
		bytes += int64(len(n.V)) + 2*depth + 4
		if depth > deepest {
			deepest = depth
		}
		for _, k := range n.Kids {
			walk(k, depth+1)
		}
	}
	walk(n, 1)
	limit := 4000000 + 100000*nodes + 400*bytes
	return limit + 20*bytes*deepest*int64(uses)
}

// canon is the text of an expanded tree.
func (n *MNode) canon() string {
	var b strings.Builder
	n.canonTo(&b)
	return b.String()
}

func (n *MNode) canonTo(b *strings.Builder) {
	switch n.K {
	case "n":
		b.WriteString("null")
	case "q", "m":
		open, end := "[", "]"
		if n.K == "m" {
			open, end = "{", "}"
		}
		b.WriteString(open)
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteByte(',')
			}
			k.canonTo(b)
		}
		b.WriteString(end)
	case "a":
		b.WriteString("*" + n.V)
	default:
		b.WriteString(strconv.Quote(n.V))
	}
}

// anyValue is the Go value the any-decoding of an expanded tree yields.
func (n *MNode) anyValue() any {
	switch n.K {
	case "n":
		return nil
	case "q":
		s := make([]any, 0, len(n.Kids))
		for _, k := range n.Kids {
			s = append(s, k.anyValue())
		}
		return s
	case "m":
		m := map[string]any{}
		merged := map[string]any{}
		for i := 0; i+1 < len(n.Kids); i += 2 {
			k, v := n.Kids[i], n.Kids[i+1]
			if k.V == "<<" {
				for mk, mv := range v.anyValue().(map[string]any) {
					if _, ok := merged[mk]; !ok {
						merged[mk] = mv
					}
				}
				continue
			}
			key := k.V
			if k.K == "n" {
				key = "null"
			}
			m[key] = v.anyValue()
		}
		for k, v := range merged {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		return m
	case "i", "u":
		if n.V[0] == '-' {
			v, _ := strconv.ParseInt(n.V, 10, 64)
			return v
		}
		v, _ := strconv.ParseUint(n.V, 10, 64)
		return v
	case "f":
		v, _ := strconv.ParseFloat(n.V, 64)
		return v
	case "b":
		return n.V == "true"
	case "t":
		return parseTime(n.V)
	}
	return n.V
}

func parseTime(s string) time.Time {
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		t, _ = time.Parse(time.DateOnly, s)
	}
	return t
}

// showAny renders any-values comparably.
func showAny(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case []any:
		parts := make([]string, len(v))
		for i := range v {
			parts[i] = showAny(v[i])
		}
		return "[" + strings.Join(parts, ",") + "]"
	case map[string]any:
		parts := make([]string, 0, len(v))
		for _, k := range sortedKeys(v) {
			parts = append(parts, strconv.Quote(k)+":"+showAny(v[k]))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case time.Time:
		return "time " + v.UTC().Format(time.RFC3339Nano)
	case string:
		return strconv.Quote(v)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// ---------------------------------------------------------------- engines' trees

func (n *MNode) yayamls() ast.Node {
	var out ast.Node
	switch n.K {
	case "n":
		out = ast.NewNullNode()
		if n.V != "" {
			out = ast.NewTextNode(n.V)
		}
	case "q":
		var kids []ast.Node
		for _, k := range n.Kids {
			kids = append(kids, k.yayamls())
		}
		out = ast.NewSequenceNode(kids)
	case "m":
		var kids []ast.Node
		for i := 0; i+1 < len(n.Kids); i += 2 {
			kids = append(kids, ast.NewMappingEntryNode(n.Kids[i].yayamls(), n.Kids[i+1].yayamls()))
		}
		out = ast.NewMappingNode(kids)
	case "a":
		return ast.NewAliasNode(n.V)
	default:
		q := ast.AbsentQuotingType
		if n.Quoted {
			q = ast.DoubleQuotingType
		}
		out = ast.NewTextNode(n.V, ast.WithQuotingType(q))
	}
	if n.Anchor != "" || n.Tag {
		var tag, anchor ast.Node
		if n.Tag {
			tag = ast.NewTagNode(n.tag())
		}
		if n.Anchor != "" {
			anchor = ast.NewAnchorNode(n.Anchor)
		}
		out = ast.NewContentNode(ast.NewPropertiesNode(tag, anchor), out)
	}
	return out
}

func (n *MNode) goyaml() *yaml.Node {
	res := n.resolve()
	made := map[*MNode]*yaml.Node{}
	var walk func(n *MNode) *yaml.Node
	walk = func(n *MNode) *yaml.Node {
		y := &yaml.Node{Anchor: n.Anchor}
		made[n] = y
		switch n.K {
		case "n":
			y.Kind, y.Tag, y.Value = yaml.ScalarNode, "!!null", n.nullText()
		case "q", "m":
			y.Kind, y.Tag = yaml.SequenceNode, "!!seq"
			if n.K == "m" {
				y.Kind, y.Tag = yaml.MappingNode, "!!map"
			}
			for _, k := range n.Kids {
				y.Content = append(y.Content, walk(k))
			}
		case "a":
			y.Kind, y.Value, y.Alias = yaml.AliasNode, n.V, made[res[n]]
		default:
			y.Kind, y.Value = yaml.ScalarNode, n.V
			if n.Quoted {
				y.Style, y.Tag = yaml.DoubleQuotedStyle, "!!str"
			}
		}
		if n.Tag {
			y.Style, y.Tag = y.Style|yaml.TaggedStyle, "!!"+n.tag()
		}
		return y
	}
	return walk(n)
}

// canonY is the canonical text of a yayamls tree with aliases replaced; env carries anchors defined outside.
func canonY(n ast.Node, env map[string]string) string {
	if n == nil {
		return "<absent>"
	}
	switch n := n.(type) {
	case *ast.ContentNode:
		name := ""
		if p, ok := n.Properties().(*ast.PropertiesNode); ok {
			if a, ok := p.Anchor().(*ast.AnchorNode); ok {
				name = a.Text()
			}
		}
		s := canonY(n.Content(), env)
		if name != "" {
			env[name] = s
		}
		return s
	case *ast.StreamNode:
		s := "---"
		for _, d := range n.Documents() {
			s += canonY(d, env) + ";"
		}
		return s
	case *ast.SequenceNode:
		var parts []string
		for _, k := range n.Entries() {
			parts = append(parts, canonY(k, env))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case *ast.MappingNode:
		var parts []string
		for _, k := range n.Entries() {
			parts = append(parts, canonY(k, env))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case *ast.MappingEntryNode:
		k := canonY(n.Key(), env)
		return k + "," + canonY(n.Value(), env)
	case *ast.AliasNode:
		if s, ok := env[n.Text()]; ok {
			return s
		}
		return "*" + n.Text()
	case *ast.NullNode:
		return "null"
	case *ast.TextNode:
		if n.QuotingType() == ast.AbsentQuotingType || n.QuotingType() == ast.UnknownQuotingType {
			switch n.Text() {
			case "null", "Null", "NULL", "~", "":
				return "null"
			}
		}
		return strconv.Quote(n.Text())
	}
	if !ast.ValidNode(n) {
		return "<invalid>"
	}
	return "<" + n.Type().String() + ">"
}

func canonG(n *yaml.Node) string { return canonGN(n, 0) }

func canonGN(n *yaml.Node, depth int) string {
	if n == nil {
		return "<absent>"
	}
	if depth > 600 {
		return "<deep>"
	}
	switch n.Kind {
	case yaml.DocumentNode:
		if len(n.Content) != 1 {
			return "<document>"
		}
		return canonGN(n.Content[0], depth+1)
	case yaml.SequenceNode, yaml.MappingNode:
		var parts []string
		for _, k := range n.Content {
			parts = append(parts, canonGN(k, depth+1))
		}
		s := strings.Join(parts, ",")
		if n.Kind == yaml.MappingNode {
			return "{" + s + "}"
		}
		return "[" + s + "]"
	case yaml.AliasNode:
		return canonGN(n.Alias, depth+1)
	case yaml.ScalarNode:
		if n.ShortTag() == "!!null" {
			return "null"
		}
		return strconv.Quote(n.Value)
	}
	return fmt.Sprintf("<kind %d>", n.Kind)
}

// ---------------------------------------------------------------- text

// text renders the document as YAML source: block style with flow leaves.
func (n *MNode) text(flow bool) string {
	if flow || len(n.Kids) == 0 || n.props() != "" {
		return n.flow() + "\n"
	}
	var b strings.Builder
	n.block(&b, 0)
	return b.String()
}

func (n *MNode) flow() string {
	a := n.props()
	switch n.K {
	case "n":
		return a + n.nullText()
	case "a":
		return "*" + n.V
	case "q":
		var parts []string
		for _, k := range n.Kids {
			parts = append(parts, k.flow())
		}
		return a + "[" + strings.Join(parts, ", ") + "]"
	case "m":
		var parts []string
		for i := 0; i+1 < len(n.Kids); i += 2 {
			key := n.Kids[i].flow()
			if n.Kids[i].K == "a" {
				key += " "
			}
			parts = append(parts, key+": "+n.Kids[i+1].flow())
		}
		return a + "{" + strings.Join(parts, ", ") + "}"
	}
	if n.Quoted {
		return a + strconv.Quote(n.V)
	}
	return a + n.V
}

func (n *MNode) block(b *strings.Builder, indent int) {
	pad := strings.Repeat(" ", indent)
	item := func(k *MNode) {
		if len(k.Kids) == 0 {
			b.WriteString(" " + k.flow() + "\n")
			return
		}
		if p := k.props(); p != "" {
			b.WriteString(" " + p[:len(p)-1])
		}
		b.WriteString("\n")
		k.block(b, indent+2)
	}
	switch n.K {
	case "q":
		for _, k := range n.Kids {
			b.WriteString(pad + "-")
			item(k)
		}
	case "m":
		for i := 0; i+1 < len(n.Kids); i += 2 {
			key := n.Kids[i].flow()
			if n.Kids[i].K == "a" {
				key += " "
			}
			b.WriteString(pad + key + ":")
			item(n.Kids[i+1])
		}
	default:
		b.WriteString(n.flow() + "\n")
	}
}

// ---------------------------------------------------------------- generation

type docGen struct {
	r       *Rand
	budget  int
	anchors []*MNode // complete anchored nodes
	nAnchor int
	redef   bool
	merge   bool
	pool    []string
}

var plainStrings = []string{"alpha", "beta", "gamma delta", "x", "some-text", "key", "value", "zeta0", "a.b", "UPPER"}
var quotedStrings = []string{"alpha", "line\nbreak", "tab\tx", "quote\"d", "null", "", " lead", "trail ", "# no comment", "a: b", "[x", "*x", "&y", "ünï"}

func genDoc(r *Rand, deep bool) *MNode {
	g := &docGen{r: r, budget: 3 + r.N(14)}
	if r.P(20) {
		g.budget += 20
	}
	if deep && r.P(10) {
		g.budget += 80
	}
	g.redef = r.P(10)
	g.merge = r.P(15)
	var n *MNode
	for i := 0; i < 40; i++ {
		n = g.node(0, false)
		if len(n.Kids) > 0 || r.P(10) {
			break
		}
	}
	switch x := r.N(200); {
	case x < 5:
		n = g.chain(n, 12+r.N(40))
	case x < 7:
		n = g.chain(n, 60+r.N(90))
	case x < 11:
		g.widen(n)
	case x < 15:
		n = g.manyAnchors(n)
	}
	if r.P(15) {
		g.tags(n, 10+r.N(50))
	}
	return n
}

// tags gives nodes the tag they have anyway.
func (g *docGen) tags(n *MNode, p int) {
	n.Tag = n.K != "a" && n.V != "<<" && g.r.P(p)
	for _, k := range n.Kids {
		g.tags(k, p)
	}
}

// chain puts the document at the bottom of a deep nest of collections.
func (g *docGen) chain(n *MNode, levels int) *MNode {
	r := g.r
	keep := 2
	kind := r.N(3)
	for l := 0; l < levels; l++ {
		o := &MNode{K: "q"}
		if kind == 1 || kind == 2 && r.P(50) {
			o.K = "m"
		}
		pad := func(name string) {
			if !r.P(12) {
				return
			}
			if o.K == "m" {
				o.Kids = append(o.Kids, &MNode{K: "s", V: name})
			}
			o.Kids = append(o.Kids, g.scalar())
		}
		pad("p")
		if o.K == "m" {
			o.Kids = append(o.Kids, &MNode{K: "s", V: "n"})
		}
		o.Kids = append(o.Kids, n)
		if keep > 0 && n.Anchor != "" && r.P(30) && n.K != "a" {
			keep--
			if o.K == "m" {
				o.Kids = append(o.Kids, &MNode{K: "s", V: "again"})
			}
			o.Kids = append(o.Kids, &MNode{K: "a", V: n.Anchor})
		}
		pad("z")
		if r.P(6) {
			o.Anchor = fmt.Sprintf("W%d", l)
		}
		n = o
	}
	return n
}

// widen gives one collection very many children.
func (g *docGen) widen(n *MNode) {
	r := g.r
	var all []*MNode
	var walk func(n *MNode)
	walk = func(n *MNode) {
		if n.K == "q" || n.K == "m" && n.Anchor == "" {
			all = append(all, n)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	if len(all) == 0 {
		return
	}
	o := pick(r, all)
	count := 20 + r.N(60)
	if r.P(20) {
		count = 100 + r.N(250)
	}
	for i := 0; i < count; i++ {
		if o.K == "m" {
			o.Kids = append(o.Kids, &MNode{K: "s", V: fmt.Sprintf("w%d", i)})
		}
		switch {
		case r.P(5):
			o.Kids = append(o.Kids, &MNode{K: "n"})
		case r.P(8):
			o.Kids = append(o.Kids, &MNode{K: "q", Kids: []*MNode{g.scalar()}})
		default:
			o.Kids = append(o.Kids, g.scalar())
		}
	}
}

// manyAnchors puts a table of anchored scalars in front of the document and aliases behind it.
func (g *docGen) manyAnchors(n *MNode) *MNode {
	r := g.r
	o := &MNode{K: "q"}
	count := 8 + r.N(80)
	for i := 0; i < count; i++ {
		k := g.scalar()
		k.Anchor = fmt.Sprintf("T%d", i)
		if r.P(10) {
			k = &MNode{K: "m", Kids: []*MNode{{K: "s", V: "t"}, g.scalar()}, Anchor: k.Anchor}
		}
		o.Kids = append(o.Kids, k)
	}
	o.Kids = append(o.Kids, n)
	for i := 0; i < 4+r.N(20); i++ {
		o.Kids = append(o.Kids, &MNode{K: "a", V: fmt.Sprintf("T%d", r.N(count))})
	}
	return o
}

func (g *docGen) anchorFor(n *MNode) {
	coll := n.K == "q" || n.K == "m"
	p := 15
	if coll {
		p = 20
		if g.redef {
			p = 0
		}
	}
	if !g.r.P(p) || n.K == "a" {
		return
	}
	if g.redef && g.nAnchor > 0 && g.r.P(50) {
		n.Anchor = fmt.Sprintf("A%d", g.r.N(g.nAnchor))
		for i, o := range g.anchors {
			if o.Anchor == n.Anchor {
				g.anchors = append(g.anchors[:i], g.anchors[i+1:]...)
				break
			}
		}
	} else {
		n.Anchor = fmt.Sprintf("A%d", g.nAnchor)
		g.nAnchor++
	}
	g.anchors = append(g.anchors, n)
}

func (g *docGen) scalar() *MNode {
	r := g.r
	if r.P(2) {
		// lengths around those of buffers
		n := []int{63, 64, 65, 255, 257, 511, 513, 1023, 1025, 4095, 4097}[r.N(11)]
		if r.P(3) {
			n = []int{8193, 16385, 32769, 65537, 140001}[r.N(5)]
		}
		v := strings.Repeat("long text of words ", n/19+1)[:n-1] + "x"
		return &MNode{K: "s", V: v, Quoted: r.P(50)}
	}
	switch r.N(9) {
	case 0:
		return &MNode{K: "i", V: strconv.Itoa(r.N(200) - 100)}
	case 1:
		return &MNode{K: "i", V: []string{"0", "127", "-128", "255", "65535", "2147483647", "-9223372036854775808", "9223372036854775807"}[r.N(8)]}
	case 2:
		return &MNode{K: "f", V: []string{"1.5", "-0.25", "3.0", "1e3", "12.75", "1e-7", "0.1", "1.7976931348623157e308"}[r.N(8)]}
	case 3:
		if r.P(15) {
			return &MNode{K: "u", V: []string{"18446744073709551615", "9223372036854775808"}[r.N(2)]}
		}
		return &MNode{K: "b", V: []string{"true", "false"}[r.N(2)]}
	case 4:
		return &MNode{K: "t", V: []string{"2021-02-03T04:05:06Z", "1999-12-31T23:59:59Z", "2021-02-03", "2021-02-03T04:05:06.789Z", "2021-02-03T04:05:06+01:00"}[r.N(5)], Quoted: r.P(50)}
	case 5, 6:
		return &MNode{K: "s", V: pick(r, quotedStrings), Quoted: true}
	}
	return &MNode{K: "s", V: pick(r, plainStrings)}
}

func (g *docGen) node(depth int, noAlias bool) *MNode {
	r := g.r
	g.budget--
	if g.budget > 0 && depth < 7 && (depth == 0 || r.P(45)) {
		n := &MNode{K: "q"}
		if r.P(50) {
			n.K = "m"
		}
		kids := r.N(5)
		if r.P(1) && r.P(20) { // wide
			for i := 20 + r.N(300); i > 0; i-- {
				if n.K == "m" {
					n.Kids = append(n.Kids, &MNode{K: "s", V: fmt.Sprintf("w%d", i)})
				}
				n.Kids = append(n.Kids, g.scalar())
			}
			g.anchorFor(n)
			return n
		}
		if n.K == "q" {
			for i := 0; i < kids && g.budget > 0; i++ {
				n.Kids = append(n.Kids, g.node(depth+1, false))
			}
		} else {
			used := map[string]bool{}
			for i := 0; i < kids && g.budget > 0; i++ {
				if g.merge && r.P(25) && !used["<<"] {
					if t := g.flatMap(); t != nil {
						used["<<"] = true
						n.Kids = append(n.Kids, &MNode{K: "s", V: "<<"}, &MNode{K: "a", V: t.Anchor})
						continue
					}
				}
				var k *MNode
				if a := g.scalarAlias(); a != nil && r.P(10) && !used[a.V] {
					used[a.V] = true
					k = &MNode{K: "a", V: a.Anchor}
				} else {
					k = &MNode{K: "s", V: fmt.Sprintf("k%d", r.N(12)), Quoted: r.P(20)}
					if r.P(10) {
						k = &MNode{K: "i", V: strconv.Itoa(r.N(50))}
					}
					if used[k.V] {
						continue
					}
					used[k.V] = true
					g.anchorFor(k)
				}
				n.Kids = append(n.Kids, k, g.node(depth+1, false))
			}
		}
		g.anchorFor(n)
		return n
	}
	if !noAlias && len(g.anchors) > 0 && r.P(35) {
		return &MNode{K: "a", V: pick(r, g.anchors).Anchor}
	}
	var n *MNode
	if r.P(18) {
		n = &MNode{K: "n"}
		if r.P(20) {
			n.V = []string{"~", "Null", "NULL"}[r.N(3)]
		}
	} else {
		n = g.scalar()
	}
	g.anchorFor(n)
	return n
}

func (g *docGen) flatMap() *MNode {
	for _, a := range g.anchors {
		if a.K != "m" || len(a.Kids) == 0 {
			continue
		}
		ok := true
		for _, k := range a.Kids {
			if !k.scalar() || k.V == "<<" {
				ok = false
			}
		}
		if ok {
			return a
		}
	}
	return nil
}

func (g *docGen) scalarAlias() *MNode {
	for _, a := range g.anchors {
		if a.scalar() {
			return a
		}
	}
	return nil
}

// shrinkDoc proposes smaller valid documents.
func shrinkDoc(n *MNode) []*MNode {
	var out []*MNode
	add := func(c *MNode) {
		if c.valid() {
			out = append(out, c)
		}
	}
	total := n.size()
	for at := 0; at < total; at++ {
		for variant := 0; variant < 6; variant++ {
			c := n.clone()
			i := 0
			changed := false
			var walk func(n *MNode)
			walk = func(n *MNode) {
				if i == at {
					switch variant {
					case 0: // drop the children
						if len(n.Kids) > 0 {
							n.Kids, changed = nil, true
						}
					case 1:
						if n.Anchor != "" {
							n.Anchor, changed = "", true
						} else if n.Tag {
							n.Tag, changed = false, true
						}
					case 3: // put a child in its place
						for k, kid := range n.Kids {
							if len(kid.Kids) > 0 && (n.K == "q" || k%2 == 1) {
								*n, changed = *kid, true
								break
							}
						}
					case 5: // half of a long text
						if n.K == "s" && len(n.V) > 40 {
							n.V, changed = n.V[:len(n.V)/2], true
						}
					case 4: // drop half of the children
						if len(n.Kids) > 3 {
							n.Kids, changed = n.Kids[:len(n.Kids)/4*2], true
						}
					}
				}
				i++
				for k := 0; k < len(n.Kids); k++ {
					if i == at && variant == 2 {
						if n.K == "m" {
							if k%2 == 0 {
								n.Kids = append(append([]*MNode{}, n.Kids[:k]...), n.Kids[k+2:]...)
								changed = true
								i = total + 1
								return
							}
						} else {
							n.Kids = append(append([]*MNode{}, n.Kids[:k]...), n.Kids[k+1:]...)
							changed = true
							i = total + 1
							return
						}
					}
					walk(n.Kids[k])
				}
			}
			walk(c)
			if changed {
				add(c)
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- readers

type reader interface {
	yamly.Decoder
}

func parseYay(src string) (ast.Node, error) {
	return yparser.ParseBytes([]byte(src), yparser.WithOmitStream())
}

// tryParseYay parses outside a counted run; the parser's cost grows exponentially with the depth
// of flow collections (not a matter of these properties), so that it is given up after a while.
func tryParseYay(src string) (n ast.Node, ok bool) {
	defer func() {
		zzv.EndCount()
		if p := recover(); p != nil {
			if _, hang := p.(zzv.Hang); !hang {
				panic(p)
			}
			n, ok = nil, false
		}
	}()
	zzv.BeginCount(1000000)
	n, err := parseYay(src)
	return n, err == nil
}

func parseGo(src string) (*yaml.Node, error) {
	var n yaml.Node
	err := yaml.Unmarshal([]byte(src), &n)
	return &n, err
}
