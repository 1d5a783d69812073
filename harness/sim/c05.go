package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"
	"time"

	"github.com/KSpaceer/yamly"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C05: a builder's call history refines the construction of a tree.

type insOp struct {
	Op  string `json:"o"`
	V   string `json:"v,omitempty"`
	I   int64  `json:"i,omitempty"`
	Doc *MNode `json:"d,omitempty"`
}

type insScenario struct {
	Engine   string  `json:"engine"`
	Encoder  bool    `json:"encoder"` // through an Encoder instead of the builder
	Unquoted bool    `json:"unquoted"`
	Ops      []insOp `json:"ops"`
}

var insTimes = []string{"2021-02-03T04:05:06Z", "1970-01-01T00:00:00Z", "2038-01-19T03:14:07Z", "2021-02-03T04:05:06+02:00", "1999-12-31T23:59:59-07:30"}

func genScalarInsert(r *Rand) insOp {
	switch r.N(10) {
	case 0, 1:
		if r.P(5) {
			n := []int{63, 65, 257, 1025, 4097}[r.N(5)]
			if r.P(3) {
				n = []int{16385, 65537, 140001}[r.N(3)]
			}
			v := make([]byte, n)
			for i := range v {
				v[i] = "long words of text "[i%19]
			}
			v[n-1] = 'x'
			return insOp{Op: pick(r, []string{"string", "rawtext"}), V: string(v)}
		}
		return insOp{Op: "int", I: []int64{0, -1, 7, 42, math.MaxInt64, math.MinInt64, 1000000}[r.N(7)]}
	case 2:
		return insOp{Op: "uint", I: []int64{0, 1, 255, math.MaxInt64, -1}[r.N(5)]}
	case 3:
		return insOp{Op: "bool", I: int64(r.N(2))}
	case 4:
		return insOp{Op: "float", V: []string{"1.5", "-2.25", "0", "1e100", "0.1", "3.141592653589793", "-0.000123456789012345", "1.7976931348623157e308", "5e-324", "16777217", "123456789.125"}[r.N(11)]}
	case 5:
		return insOp{Op: "time", V: pick(r, insTimes)}
	case 6:
		return insOp{Op: "null"}
	case 7:
		return insOp{Op: "rawtext", V: pick(r, append([]string{"", "null", "12", "multi\nline"}, plainStrings...))}
	default:
		return insOp{Op: "string", V: pick(r, []string{"alpha", "beta", "multi\nline", "quo\"te", "k", "zz top", "x: y", "- z", "", "null", "true", "12", "it's", "tail\n", "ü \u263a"})}
	}
}

// genDocOps appends the calls describing one document; misuse percent of them wrong.
func genDocOps(r *Rand, out []insOp, misuse int, depth int, budget *int) []insOp {
	var node func(depth int, key bool)
	node = func(depth int, key bool) {
		*budget--
		if misuse > 0 && r.P(misuse) {
			switch r.N(7) {
			case 0:
				out = append(out, insOp{Op: "endseq"})
			case 1:
				out = append(out, insOp{Op: "endmap"})
			case 2:
				out = append(out, insOp{Op: "rawerr", I: int64(r.N(1000)), V: pick(r, []string{"", "", "k: v", "[1, 2", "word"})})
			case 3:
				out = append(out, insOp{Op: "texterr", I: int64(r.N(1000)), V: pick(r, []string{"", "partial"})})
			case 4:
				out = append(out, insOp{Op: "rawbad", V: pick(r, []string{"[1, 2", "{a: ", "\"open", "a: b: c: [", "]"})})
			case 5:
				out = append(out, insOp{Op: "rawstream", V: "--- a\n--- b\n"})
			case 6:
				out = append(out, insOp{Op: pick(r, []string{"result", "string_", "bytes"})})
			}
		}
		if !key && *budget > 0 && depth < 6 && r.P(50) {
			if r.P(20) {
				g := &docGen{r: r, budget: 6}
				d := g.node(0, false)
				if d.K != "a" {
					out = append(out, insOp{Op: "raw", Doc: d})
					return
				}
			}
			if r.P(50) {
				out = append(out, insOp{Op: "seq"})
				for i := r.N(4); i > 0; i-- {
					node(depth+1, false)
				}
				if !(misuse > 0 && r.P(4)) {
					out = append(out, insOp{Op: "endseq"})
				}
			} else {
				out = append(out, insOp{Op: "map"})
				for i := r.N(4); i > 0; i-- {
					node(depth+1, !r.P(5))
					if !(misuse > 0 && r.P(5)) {
						node(depth+1, false)
					}
				}
				if !(misuse > 0 && r.P(4)) {
					out = append(out, insOp{Op: "endmap"})
				}
			}
			return
		}
		out = append(out, genScalarInsert(r))
	}
	switch x := r.N(60); {
	case x < 2: // a deep nest
		levels := 10 + r.N(90)
		kinds := make([]bool, levels)
		mix := []int{0, 50, 100}[r.N(3)]
		for i := range kinds {
			kinds[i] = r.P(mix)
			if kinds[i] {
				out = append(out, insOp{Op: "map"})
				if r.P(98) || misuse == 0 {
					out = append(out, genKeyInsert(r))
				}
			} else {
				out = append(out, insOp{Op: "seq"})
				if r.P(10) {
					out = append(out, genScalarInsert(r))
				}
			}
		}
		node(depth+levels, false)
		for i := levels - 1; i >= 0; i-- {
			if r.P(10) {
				if kinds[i] {
					out = append(out, genKeyInsert(r))
				}
				out = append(out, genScalarInsert(r))
			}
			end := kinds[i]
			if misuse > 0 && r.P(1) {
				end = !end
			}
			out = append(out, insOp{Op: map[bool]string{true: "endmap", false: "endseq"}[end]})
		}
		return out
	case x < 3: // a wide collection
		m := r.P(50)
		out = append(out, insOp{Op: map[bool]string{true: "map", false: "seq"}[m]})
		for i := 20 + r.N(200); i > 0; i-- {
			if m {
				out = append(out, insOp{Op: "string", V: fmt.Sprintf("w%d", i)})
			}
			out = append(out, genScalarInsert(r))
		}
		return append(out, insOp{Op: map[bool]string{true: "endmap", false: "endseq"}[m]})
	}
	node(depth, false)
	return out
}

func genKeyInsert(r *Rand) insOp {
	return insOp{Op: "string", V: pick(r, []string{"k", "key", "other", "zz"})}
}

func init() {
	register([]string{"C05"}, &Kind{
		Name: "inserter",
		New:  func() any { return &insScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &insScenario{Engine: pick(r, []string{"g", "y"}), Encoder: r.P(50), Unquoted: r.P(30)}
			misuse := []int{0, 3, 10, 25}[r.N(4)]
			docs := 1 + r.N(4)
			for i := 0; i < docs; i++ {
				budget := 2 + r.N(15)
				if r.P(8) {
					// nothing or garbage inserted
					for k := r.N(3); k > 0; k-- {
						sc.Ops = append(sc.Ops, insOp{Op: pick(r, []string{"endseq", "endmap", "result"})})
					}
				} else {
					sc.Ops = genDocOps(r, sc.Ops, misuse, 0, &budget)
				}
				if misuse > 0 && r.P(10) {
					sc.Ops = append(sc.Ops, genScalarInsert(r)) // a second root
				}
				sc.Ops = append(sc.Ops, insOp{Op: pick(r, []string{"result", "string_", "bytes", "to", "tofail"})})
			}
			for i := range sc.Ops {
				if o := &sc.Ops[i]; sc.Unquoted && (o.V == "" || o.V == "null") && (o.Op == "string" || o.Op == "rawtext") {
					o.V = "e" // what these mean without quotes is another question
				}
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runInserter(sc.(*insScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*insScenario)
			var out []any
			for _, o := range shrinkSlice(s.Ops) {
				c := *s
				c.Ops = o
				out = append(out, &c)
			}
			return out
		},
	})
}

type treeBuilder interface{ yamly.Inserter }

// target hides the engine behind one document-at-a-time interface.
type target struct {
	engine  string
	ins     yamly.Inserter
	yb      *yencode.ASTBuilder
	gb      *gencode.ASTBuilder
	yw      *yencode.ASTWriter
	gw      *gencode.ASTWriter
	enc     yamly.Encoder
	failing bool
}

func newTarget(engine string, encoder, unquoted bool) *target {
	t := &target{engine: engine}
	if engine == "y" {
		var o []yencode.ASTBuilderOption
		if unquoted {
			o = append(o, yencode.WithUnquotedOneLineStrings())
		}
		t.yb, t.yw = yencode.NewASTBuilder(o...), yencode.NewASTWriter()
		t.ins = t.yb
		if encoder {
			t.enc = yamly.NewEncoder[ast.Node](t.yb, t.yw)
			t.ins = t.enc
		}
		return t
	}
	var o []gencode.ASTBuilderOption
	if unquoted {
		o = append(o, gencode.WithUnquotedOneLineStrings())
	}
	t.gb, t.gw = gencode.NewASTBuilder(o...), &gencode.ASTWriter{}
	t.ins = t.gb
	if encoder {
		t.enc = yamly.NewEncoder[*yaml.Node](t.gb, t.gw)
		t.ins = t.enc
	}
	return t
}

type failWriter struct {
	left int
	got  []byte
	err  error
}

func (w *failWriter) Write(p []byte) (int, error) {
	n := min(w.left, len(p))
	w.got = append(w.got, p[:n]...)
	w.left -= n
	if n < len(p) {
		return n, w.err
	}
	return n, nil
}

// finish ends the document: canonical tree (builders) or bytes (encoders), and the error.
func (t *target) finish(op string) (tree, doc string, hasTree bool, err error) {
	if t.enc != nil {
		switch op {
		case "bytes":
			var b []byte
			b, err = t.enc.EncodeToBytes()
			return "", string(b), b != nil, err
		case "to":
			var buf bytes.Buffer
			err = t.enc.EncodeTo(&buf)
			return "", buf.String(), buf.Len() > 0, err
		case "tofail":
			w := &failWriter{left: 0, err: errDisk}
			err = t.enc.EncodeTo(w)
			return "", string(w.got), len(w.got) > 0, err
		default:
			var s string
			s, err = t.enc.EncodeToString()
			return "", s, s != "", err
		}
	}
	if t.yb != nil {
		var n ast.Node
		n, err = t.yb.Result()
		if n == nil {
			return "", "", false, err
		}
		return canonY(n, map[string]string{}), "", true, err
	}
	var n *yaml.Node
	n, err = t.gb.Result()
	if n == nil {
		return "", "", false, err
	}
	return canonG(n), "", true, err
}

var errDisk = errors.New("simulated write error")

func (t *target) apply(op insOp, st *Stats) (applied bool) {
	switch op.Op {
	case "int":
		t.ins.InsertInteger(op.I)
	case "uint":
		t.ins.InsertUnsigned(uint64(op.I))
	case "bool":
		t.ins.InsertBoolean(op.I != 0)
	case "float":
		f, _ := strconv.ParseFloat(op.V, 64)
		t.ins.InsertFloat(f)
	case "string":
		t.ins.InsertString(op.V)
	case "time":
		t.ins.InsertTimestamp(parseTime(op.V))
	case "null":
		t.ins.InsertNull()
	case "rawtext":
		data := []byte(op.V)
		if op.V == "" && op.I == 0 {
			data = nil
		}
		t.ins.InsertRawText(data, nil)
	case "seq":
		t.ins.StartSequence()
	case "endseq":
		t.ins.EndSequence()
	case "map":
		t.ins.StartMapping()
	case "endmap":
		t.ins.EndMapping()
	case "raw":
		src := op.Doc.flow()
		if !t.parses(src, op.Doc.expand(op.Doc.resolve()).canon()) {
			return false
		}
		t.ins.InsertRaw([]byte(src), nil)
	case "rawerr":
		t.ins.InsertRaw([]byte(op.V), &userError{int(op.I)})
	case "texterr":
		t.ins.InsertRawText([]byte(op.V), &userError{int(op.I)})
	case "rawbad":
		if !t.rejects(op.V) {
			return false
		}
		t.ins.InsertRaw([]byte(op.V), nil)
	case "rawstream":
		if t.engine == "g" {
			return false
		}
		t.ins.InsertRaw([]byte(op.V), nil)
	}
	return true
}

func (t *target) parses(src, want string) bool {
	if t.engine == "y" {
		if len(src) > 500 {
			return false // the parser tries flow collections many times over
		}
		n, err := parseYay(src)
		return err == nil && canonY(n, map[string]string{}) == want
	}
	n, err := parseGo(src)
	return err == nil && canonG(n) == want
}

func (t *target) rejects(src string) bool {
	var err error
	if t.engine == "y" {
		_, err = parseYay(src)
	} else {
		_, err = parseGo(src)
	}
	return err != nil
}

// insModel is the executable reference.
type insModel struct {
	root  *MNode
	stack []*MNode
	err   bool
	user  int64 // id of the user error that came first, -1: none
	why   string
}

func (m *insModel) fail(why string) {
	if !m.err {
		m.err, m.why, m.user = true, why, -1
	}
}

func (m *insModel) insert(n *MNode, open bool) {
	if m.err {
		return
	}
	if len(m.stack) == 0 {
		if m.root != nil {
			m.fail("insert after the root was complete")
			return
		}
		m.root = n
	} else {
		top := m.stack[len(m.stack)-1]
		top.Kids = append(top.Kids, n)
	}
	if open {
		m.stack = append(m.stack, n)
	}
}

func (m *insModel) end(k string) {
	if m.err {
		return
	}
	if len(m.stack) == 0 || m.stack[len(m.stack)-1].K != k {
		m.fail("end of a collection that is not the innermost open one")
		return
	}
	top := m.stack[len(m.stack)-1]
	if k == "m" && len(top.Kids)%2 != 0 {
		m.fail("end of a mapping with a pending key")
		return
	}
	m.stack = m.stack[:len(m.stack)-1]
}

func (m *insModel) apply(op insOp) {
	switch op.Op {
	case "uint":
		m.insert(&MNode{K: "u", V: strconv.FormatUint(uint64(op.I), 10)}, false)
	case "int":
		m.insert(&MNode{K: "i", V: strconv.FormatInt(op.I, 10)}, false)
	case "bool":
		m.insert(&MNode{K: "b", V: strconv.FormatBool(op.I != 0)}, false)
	case "float":
		f, _ := strconv.ParseFloat(op.V, 64)
		m.insert(&MNode{K: "f", V: strconv.FormatFloat(f, 'e', -1, 64)}, false)
	case "string", "rawtext":
		m.insert(&MNode{K: "s", V: op.V}, false)
	case "time":
		m.insert(&MNode{K: "t", V: parseTime(op.V).Format(time.RFC3339)}, false)
	case "null":
		m.insert(&MNode{K: "n"}, false)
	case "seq":
		m.insert(&MNode{K: "q"}, true)
	case "map":
		m.insert(&MNode{K: "m"}, true)
	case "endseq":
		m.end("q")
	case "endmap":
		m.end("m")
	case "raw":
		m.insert(op.Doc.expand(op.Doc.resolve()), false)
	case "rawerr", "texterr":
		if !m.err {
			m.fail("error inserted")
			m.user = op.I
		}
	case "rawbad":
		m.fail("unparsable raw data")
	case "rawstream":
		m.fail("raw data with several documents")
	}
}

func (m *insModel) pendingKey() bool {
	for i, n := range m.stack {
		if n.K != "m" {
			continue
		}
		kids := len(n.Kids)
		if i+1 < len(m.stack) {
			kids-- // the value being built
			if kids%2 == 0 {
				// a complex key is being built: its mapping has a key without value
				return true
			}
			continue
		}
		if kids%2 != 0 {
			return true
		}
	}
	return false
}

func isFinish(op string) bool {
	switch op {
	case "result", "string_", "bytes", "to", "tofail":
		return true
	}
	return false
}

func runInserter(sc *insScenario, st *Stats) *Violation {
	limit := int64(4000000)
	for _, op := range sc.Ops {
		limit += 1000 * int64(len(op.V))
		if op.Doc != nil {
			limit += op.Doc.hangLimit(2)
		}
	}
	zzv.BeginCount(limit)
	defer func() { st.Add("steps", zzv.EndCount()) }()
	t := newTarget(sc.Engine, sc.Encoder, sc.Unquoted)
	m := &insModel{user: -1}
	var doc []insOp // calls of the current document
	finished := 0
	for i, op := range sc.Ops {
		where := fmt.Sprintf("call %d (%s)", i, op.Op)
		if !isFinish(op.Op) {
			if t.apply(op, st) {
				m.apply(op)
				doc = append(doc, op)
				st.Log("%s %v", op.Op, m.err)
				if m.err {
					st.Inc("fault.misuse_or_error")
				}
				depth := len(m.stack)
				top := ""
				if depth > 0 {
					top = fmt.Sprintf("%s%d", m.stack[depth-1].K, min(3, len(m.stack[depth-1].Kids)))
				}
				st.State(hashString(fmt.Sprintf("%s%v%s%d%s%v", sc.Engine, sc.Encoder, op.Op, depth, top, m.err)))
			}
			continue
		}
		finished++
		fop := op.Op
		if sc.Encoder && fop == "result" {
			fop = "string_"
		}
		tree, out, has, err := t.finish(fop)
		st.Log("finish %v %v %s %s", has, err != nil, tree, out)
		incomplete := m.root == nil || len(m.stack) > 0
		wantErr := m.err || m.root != nil && m.pendingKey()
		why := m.why
		if !m.err && wantErr {
			why = "result with a pending key"
		}
		if fop == "tofail" && sc.Encoder {
			st.Inc("fault.write_error")
			if !wantErr && !incomplete {
				f := newTarget(sc.Engine, true, sc.Unquoted)
				for _, o := range doc {
					f.apply(o, st)
				}
				_, whole, _, _ := f.finish("string_")
				wantErr = whole != "" // an empty document needs no write
			}
			if !m.err && wantErr {
				why = "the destination failed"
			}
		}
		if wantErr && err == nil {
			return vio("misuse-not-reported", "%s of document %d: %s was not reported (got %q %q)", where, finished, why, tree, out)
		}
		if wantErr && m.user >= 0 {
			var ue *userError
			if !errors.As(err, &ue) || int64(ue.id) != m.user {
				return vio("wrong-error", "%s of document %d: error %v, want user error %d", where, finished, err, m.user)
			}
		}
		if err != nil && has {
			return vio("document-with-error", "%s of document %d: returned %q %q together with error %v", where, finished, tree, out, err)
		}
		if !wantErr && !incomplete && err != nil {
			return vio("unexpected-error", "%s of document %d (%s): %v", where, finished, m.root.canon(), err)
		}
		if err == nil && m.root == nil && !sc.Encoder && has {
			return vio("not-empty", "%s of document %d: nothing was inserted, but the result is %s", where, finished, tree)
		}
		if err == nil && m.root != nil && !sc.Encoder {
			if tree != m.root.canon() {
				return vio("wrong-tree", "%s of document %d: tree %s, want %s", where, finished, tree, m.root.canon())
			}
		}
		if sc.Encoder && !wantErr {
			// the same calls on an encoder never used before
			f := newTarget(sc.Engine, true, sc.Unquoted)
			for _, o := range doc {
				f.apply(o, st)
			}
			_, out2, _, err2 := f.finish(fop)
			if out != out2 || (err == nil) != (err2 == nil) {
				return vio("not-independent", "%s of document %d: %q (%v), a new encoder gives %q (%v)", where, finished, out, err, out2, err2)
			}
			// and the tree behind it
			b := newTarget(sc.Engine, false, sc.Unquoted)
			for _, o := range doc {
				b.apply(o, st)
			}
			tree2, _, _, err3 := b.finish("result")
			if err3 == nil && m.root != nil && tree2 != m.root.canon() {
				return vio("wrong-tree", "%s of document %d: tree %s, want %s", where, finished, tree2, m.root.canon())
			}
		}
		m = &insModel{user: -1}
		doc = nil
		st.Inc("documents")
	}
	if finished == 0 {
		st.Trivial()
	}
	return nil
}
