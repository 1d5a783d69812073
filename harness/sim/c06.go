package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C06: the call history of a decoder refines a cursor over the document's nodes.

type readScenario struct {
	Engine  string `json:"engine"` // g or y
	Doc     *MNode `json:"doc"`
	Text    int    `json:"text"` // 0: tree built directly, 1: parsed from block text, 2: parsed from flow text
	Choices []int  `json:"choices"`
}

func init() {
	register([]string{"C06"}, &Kind{
		Name: "cursor",
		New:  func() any { return &readScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &readScenario{Engine: pick(r, []string{"g", "y"}), Doc: genDoc(r, deep), Text: []int{0, 0, 1, 2}[r.N(4)]}
			n := sc.Doc.size() * 3
			// swarm: a run prefers some ways of reading
			var mix []int
			for len(mix) == 0 {
				for m := 0; m < nModes; m++ {
					if r.P(45) {
						mix = append(mix, m)
					}
				}
			}
			for i := 0; i < n; i++ {
				if r.P(40) {
					sc.Choices = append(sc.Choices, modeTyped)
				} else {
					sc.Choices = append(sc.Choices, pick(r, mix))
				}
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runCursor(sc.(*readScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*readScenario)
			var out []any
			if s.Text != 0 {
				c := *s
				c.Text = 0
				out = append(out, &c)
			}
			for _, d := range shrinkDoc(s.Doc) {
				c := *s
				c.Doc = d
				out = append(out, &c)
			}
			for _, ch := range shrinkSlice(s.Choices) {
				c := *s
				c.Choices = ch
				out = append(out, &c)
			}
			for i, ch := range s.Choices {
				if ch != modeTyped {
					c := *s
					c.Choices = append([]int{}, s.Choices...)
					c.Choices[i] = modeTyped
					out = append(out, &c)
				}
			}
			return out
		},
	})
}

const (
	modeTyped = iota
	modeProbe // probe for null first, then typed
	modeSkip
	modeRaw
	modeAny
	modeNode
	modeString
	modeProbe2 // probe twice
	nModes
)

var modeNames = []string{"typed", "probe", "skip", "raw", "any", "node", "string", "probe2"}

type openState struct {
	n       *MNode
	state   yamly.CollectionState
	total   int
	started int
}

type cursor struct {
	sc   *readScenario
	st   *Stats
	r    yamly.Decoder
	yr   *ydecode.ASTReader
	gr   *gdecode.ASTReader
	res  map[*MNode]*MNode
	open []*openState
	pos  int
	env  map[string]string // canonical text of anchored nodes passed so far
	path string
	hook func(n, d *MNode, isKey bool) *Violation
}

func newReader(engine string, doc *MNode, text int, collect bool, st *Stats) (yamly.Decoder, *ydecode.ASTReader, *gdecode.ASTReader) {
	var yopts []ydecode.ReaderOption
	var gopts []gdecode.ReaderOption
	if collect {
		yopts = append(yopts, ydecode.WithMultipleDenyErrors())
		gopts = append(gopts, gdecode.WithMultipleDenyErrors())
	}
	want := doc.expand(doc.resolve()).canon()
	if engine == "y" {
		tree := doc.yayamls()
		if text != 0 {
			src := doc.text(text == 2)
			parsed, ok := tryParseYay(src)
			if ok && canonY(parsed, map[string]string{}) == want {
				st.Inc("probe.parsed_text")
				tree = parsed
			} else {
				st.Inc("probe.text_outside_parser_subset")
			}
		}
		r := ydecode.NewASTReader(tree, yopts...)
		return r, r, nil
	}
	tree := doc.goyaml()
	if text != 0 {
		src := doc.text(text == 2)
		parsed, err := parseGo(src)
		if err == nil && canonG(parsed) == want {
			st.Inc("probe.parsed_text")
			tree = parsed
		} else {
			st.Inc("probe.text_outside_parser_subset")
		}
	}
	r := gdecode.NewASTReader(tree, gopts...)
	return r, nil, r
}

func runCursor(sc *readScenario, st *Stats) *Violation {
	if !sc.Doc.valid() {
		st.Trivial()
		return nil
	}
	c := &cursor{sc: sc, st: st, res: sc.Doc.resolve(), env: map[string]string{}}
	c.r, c.yr, c.gr = newReader(sc.Engine, sc.Doc, sc.Text, false, st)
	zzv.BeginCount(sc.Doc.hangLimit(2))
	defer func() { st.Add("steps", zzv.EndCount()) }()
	if v := c.walk(sc.Doc, false); v != nil {
		return v
	}
	if err := c.r.Error(); err != nil {
		return vio("unexpected-error", "after reading everything: %v", err)
	}
	if v := c.states("at the end"); v != nil {
		return v
	}
	// the end of the stream
	which := 0
	if len(sc.Choices) > 0 {
		which = (sc.Choices[len(sc.Choices)-1] + len(sc.Choices)) % 8
	}
	callSome(c.r, which)
	if err := c.r.Error(); !errors.Is(err, yamly.ErrEndOfStream) {
		return vio("no-end-of-stream", "reading after the last node (%s): Error() = %v", readNames[which], err)
	}
	return nil
}

var readNames = []string{"TryNull", "Integer", "String", "Sequence", "Mapping", "Any", "Raw", "Skip"}

func callSome(r yamly.Decoder, which int) {
	switch which {
	case 0:
		r.TryNull()
	case 1:
		r.Integer(64)
	case 2:
		_ = r.String()
	case 3:
		r.Sequence()
	case 4:
		r.Mapping()
	case 5:
		r.Any()
	case 6:
		r.Raw()
	case 7:
		r.Skip()
	}
}

func (c *cursor) choice() int {
	if c.pos < len(c.sc.Choices) {
		c.pos++
		return c.sc.Choices[c.pos-1] % nModes
	}
	return modeTyped
}

// passAnchors records the anchors of a subtree that has been read.
func (c *cursor) passAnchors(n *MNode) {
	if n.K == "a" {
		return
	}
	for _, k := range n.Kids {
		c.passAnchors(k)
	}
	if n.Anchor != "" {
		c.env[n.Anchor] = n.expand(c.res).canon()
	}
}

func (c *cursor) states(where string) *Violation {
	for _, o := range c.open {
		if o.n.K == "m" && o.started%2 != 0 {
			continue
		}
		if got, want := o.state.HasUnprocessedItems(), o.started < o.total; got != want {
			return vio("collection-state", "%s %s: HasUnprocessedItems() = %v with %d of %d children read (%s)", where, c.path, got, o.started, o.total, o.n.canon())
		}
	}
	return nil
}

// zero: a read that failed returns a zero value.
func (c *cursor) zero(call string, zero bool) *Violation {
	if err := c.r.Error(); err != nil && !zero {
		return vio("non-zero", "%s at %s returned a value and failed with %v", call, c.path, err)
	}
	return nil
}

func (c *cursor) hasErr(call string, n *MNode) *Violation {
	if err := c.r.Error(); err != nil {
		return vio("unexpected-error", "%s at %s for node %s: %v", call, c.path, n.expand(c.res).canon(), err)
	}
	return nil
}

// rawable: the yayamls writer's output of the subtree is inside the subset both writer and parser agree on.
func (c *cursor) rawable(n *MNode, inSeq bool) bool {
	if n.K == "a" {
		return c.res[n] == nil || c.rawable(c.res[n], inSeq)
	}
	if n.scalar() && strings.ContainsAny(n.V, "\n\t\"\\ü") {
		return false // escapes: the yayamls parser keeps them as written
	}
	if (n.K == "q" || n.K == "m") && (len(n.Kids) == 0 || inSeq && n.props() != "") {
		return false
	}
	for i, k := range n.Kids {
		if n.K == "m" && i%2 == 0 {
			d := k
			if k.K == "a" {
				d = c.res[k]
			}
			if d == nil || !c.rawable(d, false) || !d.scalar() || k.K == "a" || k.props() != "" {
				return false
			}
			continue
		}
		if !c.rawable(k, n.K == "q") {
			return false
		}
	}
	return true
}

func (c *cursor) walk(n *MNode, isKey bool) *Violation {
	d := n
	if n.K == "a" {
		if d = c.res[n]; d == nil {
			d = n
		}
		c.st.Inc("probe.alias")
	}
	if c.hook != nil {
		if v := c.hook(n, d, isKey); v != nil {
			return v
		}
	}
	exp := d.expand(c.res)
	mode := c.choice()
	if isKey && mode != modeProbe && mode != modeProbe2 && mode != modeString {
		mode = modeTyped
	}
	if mode == modeRaw && c.sc.Engine == "y" && !c.rawable(n, false) {
		mode = modeSkip
	}
	if mode == modeString && !d.scalar() {
		mode = modeTyped
	}
	saved := c.path
	c.path += "/" + modeNames[mode]
	defer func() { c.path = saved }()
	c.st.State(hashString(c.sc.Engine + d.K + modeNames[mode] + c.context(n, isKey)))
	for _, o := range c.open[max(0, len(c.open)-1):] {
		o.started++
	}
	if mode == modeProbe || mode == modeProbe2 {
		for k := 0; k < 1+(mode-modeProbe)/(modeProbe2-modeProbe); k++ {
			got := c.r.TryNull()
			if v := c.zero("TryNull", !got); v != nil {
				return v
			}
			if v := c.hasErr("TryNull", n); v != nil {
				return v
			}
			if got != (d.K == "n") {
				return vio("wrong-null-probe", "TryNull() = %v at %s for node %s", got, c.path, exp.canon())
			}
			if got {
				c.st.Log("null")
				c.passAnchors(n)
				return c.states("after TryNull")
			}
			c.st.Inc("probe.null_probe_no")
		}
		mode = modeTyped
	}
	switch mode {
	case modeSkip:
		c.r.Skip()
		if v := c.hasErr("Skip", n); v != nil {
			return v
		}
		c.st.Log("skip %s", exp.canon())
	case modeAny:
		val := c.r.Any()
		if v := c.zero("Any", val == nil); v != nil {
			return v
		}
		got := showAny(val)
		if v := c.hasErr("Any", n); v != nil {
			return v
		}
		if want := showAny(exp.anyValue()); got != want {
			return vio("wrong-value", "Any() at %s = %s, want %s", c.path, got, want)
		}
		c.st.Log("any %s", got)
	case modeRaw:
		raw := c.r.Raw()
		if v := c.zero("Raw", raw == nil); v != nil {
			return v
		}
		if v := c.hasErr("Raw", n); v != nil {
			return v
		}
		var got string
		if c.sc.Engine == "y" {
			t, err := parseYay(string(raw))
			if err != nil {
				return vio("wrong-raw", "Raw() at %s = %q for node %s does not parse: %v", c.path, raw, exp.canon(), err)
			}
			got = canonY(t, map[string]string{})
		} else {
			t, err := parseGo(string(raw))
			if err != nil {
				return vio("wrong-raw", "Raw() at %s = %q for node %s does not parse: %v", c.path, raw, exp.canon(), err)
			}
			got = canonG(t)
		}
		if got != exp.canon() {
			return vio("wrong-raw", "Raw() at %s = %q which reads as %s, want %s", c.path, raw, got, exp.canon())
		}
		c.st.Log("raw %s", got)
	case modeNode:
		var got string
		if c.yr != nil {
			var node ast.Node = c.yr.Node()
			if v := c.zero("Node", node == nil); v != nil {
				return v
			}
			if v := c.hasErr("Node", n); v != nil {
				return v
			}
			env := map[string]string{}
			for k, v := range c.env {
				env[k] = v
			}
			got = canonY(node, env)
		} else {
			var node *yaml.Node = c.gr.Node()
			if v := c.zero("Node", node == nil); v != nil {
				return v
			}
			if v := c.hasErr("Node", n); v != nil {
				return v
			}
			got = canonG(node)
		}
		if got != exp.canon() {
			return vio("wrong-node", "Node() at %s = %s, want %s", c.path, got, exp.canon())
		}
		c.st.Log("node %s", got)
	case modeString:
		if got := c.r.String(); got != d.V || c.r.Error() != nil {
			return vio("wrong-value", "String() at %s = %q, want %q (error %v)", c.path, got, d.V, c.r.Error())
		}
		c.st.Log("string %q", d.V)
	default:
		return c.typed(n, d)
	}
	c.passAnchors(n)
	return c.states("after " + modeNames[mode])
}

func (c *cursor) context(n *MNode, isKey bool) string {
	s := ""
	for _, o := range c.open[max(0, len(c.open)-3):] {
		s += o.n.K
		if o.n.Anchor != "" {
			s += "&"
		}
		if o.started+1 >= o.total {
			s += "$"
		}
	}
	if n.K == "a" {
		s += "*"
	}
	if n.Anchor != "" {
		s += "&"
	}
	if isKey {
		s += "k"
	}
	return s
}

func (c *cursor) typed(n, d *MNode) *Violation {
	r := c.r
	alt := c.choice()
	switch d.K {
	case "n":
		got := r.TryNull()
		if v := c.hasErr("TryNull", n); v != nil {
			return v
		}
		if !got {
			return vio("wrong-null-probe", "TryNull() = false at %s for null", c.path)
		}
	case "q", "m":
		var s yamly.CollectionState
		size := len(d.Kids)
		if d.K == "q" {
			s = r.Sequence()
		} else {
			s = r.Mapping()
			size /= 2
		}
		if v := c.hasErr("entering", n); v != nil {
			return v
		}
		if got := s.Size(); got != size && !(d.K == "m" && got == 2*size) {
			return vio("wrong-size", "Size() = %d at %s, want %d", got, c.path, size)
		}
		o := &openState{n: d, state: s, total: len(d.Kids)}
		c.open = append(c.open, o)
		c.st.Log("enter %s %d", d.K, size)
		if v := c.states("after entering"); v != nil {
			return v
		}
		for i, k := range d.Kids {
			if v := c.walk(k, d.K == "m" && i%2 == 0); v != nil {
				return v
			}
		}
		if v := c.states("after the last child"); v != nil {
			return v
		}
		c.open = c.open[:len(c.open)-1]
		c.st.Log("leave")
		if n.Anchor != "" {
			c.env[n.Anchor] = n.expand(c.res).canon()
		}
		return nil
	case "i":
		want, _ := strconv.ParseInt(d.V, 10, 64)
		switch {
		case alt == modeSkip && want >= 0:
			bits := 64
			for bits > 8 && want>>(bits/2) == 0 && len(d.V)%2 == 0 {
				bits /= 2
			}
			if got := r.Unsigned(bits); got != uint64(want) {
				return vio("wrong-value", "Unsigned() at %s = %d, want %d (error %v)", c.path, got, want, r.Error())
			}
		case alt == modeRaw:
			if got := r.Float(64); got != float64(want) {
				return vio("wrong-value", "Float() at %s = %v, want %d (error %v)", c.path, got, want, r.Error())
			}
		default:
			bits := 64
			if alt == modeAny || alt == modeNode { // the narrowest type that holds it
				for bits > 8 && want>>(bits/2-1) == want>>63 {
					bits /= 2
				}
			}
			if got := r.Integer(bits); got != want {
				return vio("wrong-value", "Integer() at %s = %d, want %d (error %v)", c.path, got, want, r.Error())
			}
		}
	case "u":
		want, _ := strconv.ParseUint(d.V, 10, 64)
		if got := r.Unsigned(64); got != want {
			return vio("wrong-value", "Unsigned() at %s = %d, want %d (error %v)", c.path, got, want, r.Error())
		}
	case "f":
		want, _ := strconv.ParseFloat(d.V, 64)
		bits := 64
		if alt == modeAny && float64(float32(want)) == want {
			bits = 32
		}
		if got := r.Float(bits); got != want {
			return vio("wrong-value", "Float() at %s = %v, want %v (error %v)", c.path, got, want, r.Error())
		}
	case "b":
		if got := r.Boolean(); got != (d.V == "true") {
			return vio("wrong-value", "Boolean() at %s = %v, want %s (error %v)", c.path, got, d.V, r.Error())
		}
	case "t":
		if got := r.Timestamp(); !got.Equal(parseTime(d.V)) {
			return vio("wrong-value", "Timestamp() at %s = %v, want %s (error %v)", c.path, got, d.V, r.Error())
		}
	default:
		if got := r.String(); got != d.V {
			return vio("wrong-value", "String() at %s = %q, want %q (error %v)", c.path, got, d.V, r.Error())
		}
	}
	if v := c.hasErr("typed read", n); v != nil {
		return v
	}
	c.st.Log("typed %s %q", d.K, d.V)
	c.passAnchors(n)
	return c.states("after a typed read")
}
