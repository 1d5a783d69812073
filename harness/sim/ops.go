package main

import (
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astcmp"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	yparser "github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// Operations: self-contained uses of the library with everything they observe
// written down. C01, C02 and C08 run the same operations alone, one after
// another, interleaved, and with the caller's buffers overwritten.

type libOp struct {
	K       string       `json:"k"` // parse read build encode write print compare generate model
	Engine  string       `json:"e,omitempty"`
	Src     string       `json:"src,omitempty"`
	Doc     *MNode       `json:"doc,omitempty"`
	Doc2    *MNode       `json:"doc2,omitempty"`
	Calls   []string     `json:"calls,omitempty"`
	Ins     []insOp      `json:"ins,omitempty"`
	Gen     *genScenario `json:"gen,omitempty"`
	Fault   dstFault     `json:"fault"`
	Variant int          `json:"v,omitempty"`
	At      int          `json:"at,omitempty"` // element at which a token source panics; 0: never
	Reuse   bool         `json:"reuse,omitempty"`
}

// objects which a history may use for several operations
type opObjects struct {
	yw  *yencode.ASTWriter
	kw  *yencode.ASTWriter // with an anchors keeper
	kk  *keeper
	gw  *gencode.ASTWriter
	pr  *astprint.Printer
	cmp *astcmp.Comparator
	enc map[string]yamly.Encoder
}

type inBuf struct {
	b    []byte
	orig string
}

// opCtx records what an operation observes.
type opCtx struct {
	log      []string
	keep     []func() string
	kept     []string
	scribble bool // overwrite caller-owned buffers as soon as the caller may
	inputs   []inBuf
	shared   map[string][]byte
	objs     *opObjects
	changed  string // an input the library modified
	panicked bool
}

func (x *opCtx) logf(format string, a ...any) { x.log = append(x.log, fmt.Sprintf(format, a...)) }

// retain keeps a result to be looked at again later.
func (x *opCtx) retain(f func() string) {
	x.keep = append(x.keep, f)
	x.kept = append(x.kept, f())
}

// in makes a buffer of the caller's.
func (x *opCtx) in(s string) []byte {
	if b, ok := x.shared[s]; ok {
		return b
	}
	b := make([]byte, len(s), len(s)+3)
	copy(b, s)
	x.inputs = append(x.inputs, inBuf{b, s})
	return b
}

// lent is called when the call an input was handed to has returned.
func (x *opCtx) lent() {
	for _, i := range x.inputs {
		if string(i.b) != i.orig && x.changed == "" {
			x.changed = fmt.Sprintf("input %q became %q", i.orig, i.b)
		}
		if x.scribble {
			scribble(i.b)
		}
	}
	if x.scribble {
		x.inputs = nil
	}
}

// out takes a byte slice the library returned.
func (x *opCtx) out(b []byte) string {
	s := string(b)
	if b == nil {
		return s
	}
	if x.scribble {
		scribble(b)
	} else {
		x.retain(func() string { return string(b) })
	}
	return s
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '\x7f'
	}
}

func (x *opCtx) err(what string, err error) {
	if err == nil {
		return
	}
	x.logf("%s: error %q", what, err.Error())
	x.retain(err.Error)
}

func (x *opCtx) ytree(n ast.Node) {
	if n == nil {
		x.logf("no tree")
		return
	}
	x.logf("%s", dumpYNode(n))
	x.retain(func() string { return dumpYNode(n) })
}

func (x *opCtx) gtree(n *yaml.Node) {
	if n == nil {
		x.logf("no tree")
		return
	}
	x.logf("%s", dumpG(n))
	x.retain(func() string { return dumpG(n) })
}

func (x *opCtx) str(s string) string {
	if s != "" {
		x.retain(func() string { return s })
	}
	return strconv.Quote(s)
}

type tokPanic struct{}

// tokens wraps a token stream so that it panics at an element.
type tokens struct {
	yparser.ConfigurableTokenStream
	n, at int
}

func (t *tokens) Next() token.Token {
	t.n++
	if t.n == t.at {
		panic(tokPanic{})
	}
	return t.ConfigurableTokenStream.Next()
}

// run executes the operation; user-caused and other panics are part of what is observed.
func (op *libOp) run(x *opCtx) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(zzv.Hang); ok {
				panic(p)
			}
			x.panicked = true
			switch p := p.(type) {
			case tokPanic, writerPanic, cb.Panic:
				x.logf("panic %T", p)
			case error:
				x.logf("panic %s", p.Error())
			default:
				x.logf("panic %v", p)
			}
		}
		x.lent()
	}()
	switch op.K {
	case "parse":
		op.parse(x)
	case "read":
		op.read(x)
	case "build":
		op.build(x)
	case "encode":
		op.encode(x)
	case "write":
		op.write(x)
	case "print":
		p := astprint.NewPrinter()
		if op.Reuse && x.objs != nil {
			if x.objs.pr == nil {
				x.objs.pr = p
			}
			p = x.objs.pr
		}
		dst := &faultyDst{f: op.Fault}
		defer func() { x.logf("accepted %q", dst.got) }()
		x.err("print", p.Print(op.Doc.yayamls(), dst.as()))
	case "compare":
		c := astcmp.NewComparator()
		if op.Reuse && x.objs != nil {
			if x.objs.cmp == nil {
				x.objs.cmp = c
			}
			c = x.objs.cmp
		}
		x.logf("equal %v", c.Equal(op.Doc.yayamls(), op.Doc2.yayamls()))
	case "generate":
		dst := &faultyDst{f: op.Fault}
		defer func() { x.logf("accepted %q", dst.got) }()
		x.err("generate", newGen(op.Variant%len(genTypes), op.Engine, op.At == 1).Generate(dst.as()))
	case "model":
		op.model(x)
	}
}

func (op *libOp) parse(x *opCtx) {
	src := op.Src
	var tree ast.Node
	var err error
	if op.Engine == "g" {
		var n yaml.Node
		b := x.in(src)
		err = yaml.Unmarshal(b, &n)
		x.lent()
		x.err("parse", err)
		x.gtree(&n)
		return
	}
	wrap := func(s string, o ...lexer.TokenizerOption) yparser.ConfigurableTokenStream {
		return &tokens{ConfigurableTokenStream: lexer.NewTokenizer(s, o...), at: op.At}
	}
	switch op.Variant % 7 {
	case 0:
		tree, err = yparser.ParseString(src)
	case 1:
		b := x.in(src)
		tree, err = yparser.ParseBytes(b, yparser.WithOmitStream())
		x.lent()
	case 2:
		t := lexer.NewTokenizer(src)
		var toks []token.Token
		for i := 0; i < 10*len(src)+10; i++ {
			tok := t.Next()
			toks = append(toks, tok)
			if tok.Type == token.EOFType {
				break
			}
		}
		tree, err = yparser.ParseTokens(toks)
		for i := range toks {
			toks[i] = token.Token{Type: token.StringType, Origin: "overwritten"}
		}
	case 3:
		tree, err = yparser.Parse(wrap(src))
	case 4:
		tree, err = yparser.ParseTokenStream(wrap(src))
	case 5:
		b := x.in(src)
		tree, err = yparser.ParseBytes(b, yparser.WithTokenStreamConstructor(func(s string) yparser.ConfigurableTokenStream {
			return wrap(s, lexer.WithUnsafe())
		}))
		x.lent()
	case 6:
		b := x.in(src)
		tree, err = yparser.ParseBytes(b, yparser.WithTokenStreamConstructor(func(s string) yparser.ConfigurableTokenStream {
			return wrap(s)
		}), yparser.WithOmitStream())
		x.lent()
	}
	x.err("parse", err)
	x.ytree(tree)
}

var readCalls = []string{"int", "int8", "uint", "uint8", "float", "bool", "str", "str", "str", "time", "seq", "seq", "map", "map", "null",
	"skip", "raw", "any", "node", "has", "has", "size", "pop", "err", "add", "auto", "auto", "auto", "auto", "auto", "auto"}

func (op *libOp) read(x *opCtx) {
	var r yamly.Decoder
	var yr *ydecode.ASTReader
	var gr *gdecode.ASTReader
	var root string
	switch {
	case op.Engine == "y" && op.Src != "":
		b := x.in(op.Src)
		var err error
		yr, err = ydecode.NewASTReaderFromBytes(b)
		x.lent()
		x.err("reader", err)
		if err != nil {
			return
		}
		r = yr
	case op.Engine == "y":
		yr = ydecode.NewASTReader(op.Doc.yayamls())
		r = yr
	case op.Src != "":
		n, err := parseGo(op.Src)
		x.err("parse", err)
		if err != nil {
			return
		}
		gr = gdecode.NewASTReader(n)
		r = gr
	default:
		gr = gdecode.NewASTReader(op.Doc.goyaml())
		r = gr
	}
	_ = root
	var states []yamly.CollectionState
	for _, c := range op.Calls {
		switch c {
		case "int", "int8":
			x.logf("%s %d", c, r.Integer(map[string]int{"int": 64, "int8": 8}[c]))
		case "uint", "uint8":
			x.logf("%s %d", c, r.Unsigned(map[string]int{"uint": 64, "uint8": 8}[c]))
		case "float":
			x.logf("%s %v", c, r.Float(64))
		case "bool":
			x.logf("%s %v", c, r.Boolean())
		case "str":
			x.logf("%s %s", c, x.str(r.String()))
		case "time":
			x.logf("%s %s", c, r.Timestamp().UTC().Format(time.RFC3339Nano))
		case "seq", "map":
			var s yamly.CollectionState
			if c == "seq" {
				s = r.Sequence()
			} else {
				s = r.Mapping()
			}
			x.logf("%s %d %v", c, s.Size(), s.HasUnprocessedItems())
			states = append(states, s)
		case "null":
			x.logf("%s %v", c, r.TryNull())
		case "skip":
			r.Skip()
		case "raw":
			x.logf("%s %q", c, x.out(r.Raw()))
		case "any":
			v := r.Any()
			x.logf("%s %s", c, showAny(v))
			x.retain(func() string { return showAny(v) })
		case "node":
			if yr != nil {
				x.ytree(yr.Node())
			} else {
				x.gtree(gr.Node())
			}
		case "has", "size", "pop":
			if len(states) == 0 {
				continue
			}
			s := states[len(states)-1]
			if c == "pop" {
				states = states[:len(states)-1]
			}
			x.logf("%s %d %v", c, s.Size(), s.HasUnprocessedItems())
		case "add":
			r.AddError(&userError{1})
		case "err":
			x.err(c, r.Error())
		}
	}
	x.err("end", r.Error())
}

// insert applies inserter calls with buffers of the caller's.
func insertCalls(x *opCtx, ins yamly.Inserter, ops []insOp) {
	for _, o := range ops {
		switch o.Op {
		case "int":
			ins.InsertInteger(o.I)
		case "uint":
			ins.InsertUnsigned(uint64(o.I))
		case "bool":
			ins.InsertBoolean(o.I != 0)
		case "float":
			f, _ := strconv.ParseFloat(o.V, 64)
			ins.InsertFloat(f)
		case "string":
			ins.InsertString(o.V)
		case "time":
			ins.InsertTimestamp(parseTime(o.V))
		case "null":
			ins.InsertNull()
		case "rawtext":
			ins.InsertRawText(x.in(o.V), nil)
			x.lent()
		case "seq":
			ins.StartSequence()
		case "endseq":
			ins.EndSequence()
		case "map":
			ins.StartMapping()
		case "endmap":
			ins.EndMapping()
		case "raw":
			ins.InsertRaw(x.in(o.Doc.flow()), nil)
			x.lent()
		case "rawerr":
			ins.InsertRaw(nil, &userError{int(o.I)})
		case "texterr":
			ins.InsertRawText(x.in(o.V), &userError{int(o.I)})
			x.lent()
		case "rawbad", "rawstream":
			ins.InsertRaw(x.in(o.V), nil)
			x.lent()
		}
	}
}

func (op *libOp) build(x *opCtx) {
	if op.Engine == "y" {
		var o []yencode.ASTBuilderOption
		if op.Variant%2 == 1 {
			o = append(o, yencode.WithUnquotedOneLineStrings())
		}
		b := yencode.NewASTBuilder(o...)
		insertCalls(x, b, op.Ins)
		if op.At == 1 {
			return // abandoned
		}
		n, err := b.Result()
		x.err("result", err)
		x.ytree(n)
		return
	}
	var o []gencode.ASTBuilderOption
	if op.Variant%2 == 1 {
		o = append(o, gencode.WithUnquotedOneLineStrings())
	}
	b := gencode.NewASTBuilder(o...)
	insertCalls(x, b, op.Ins)
	if op.At == 1 {
		return
	}
	n, err := b.Result()
	x.err("result", err)
	x.gtree(n)
}

func (op *libOp) encode(x *opCtx) {
	var e yamly.Encoder
	if op.Reuse && x.objs != nil {
		e = x.objs.enc[op.Engine]
	}
	if e == nil {
		e = newTarget(op.Engine, true, false).enc
	}
	if x.objs != nil {
		// until this operation has ended the document, the object is not offered to others
		delete(x.objs.enc, op.Engine)
	}
	insertCalls(x, e, op.Ins)
	if op.At == 1 {
		return // abandoned
	}
	switch op.Variant % 3 {
	case 0:
		s, err := e.EncodeToString()
		x.err("encode", err)
		x.logf("%s", x.str(s))
	case 1:
		b, err := e.EncodeToBytes()
		x.err("encode", err)
		x.logf("%q", x.out(b))
	case 2:
		dst := &faultyDst{f: op.Fault}
		func() {
			defer func() { x.logf("accepted %q", dst.got) }()
			x.err("encode", e.EncodeTo(dst.as()))
		}()
		if dst.fired {
			return
		}
	}
	if op.Reuse && x.objs != nil {
		if x.objs.enc == nil {
			x.objs.enc = map[string]yamly.Encoder{}
		}
		x.objs.enc[op.Engine] = e
	}
}

type treeWriter[T any] interface {
	WriteTo(io.Writer, T) error
	WriteString(T) (string, error)
	WriteBytes(T) ([]byte, error)
}

// keeper is an anchors keeper of the caller's: it knows every alias, but may fail or panic.
type keeper struct {
	n, failAt, panicAt int
}

func (k *keeper) step() bool {
	k.n++
	if k.n == k.panicAt {
		panic(writerPanic{})
	}
	return k.n == k.failAt
}

func (k *keeper) StoreAnchor(string)          { k.step() }
func (k *keeper) BindToLatestAnchor(ast.Node) { k.step() }
func (k *keeper) DereferenceAlias(name string) (ast.Node, error) {
	if k.step() {
		return nil, &userError{k.n}
	}
	return ast.NewTextNode("node of " + name), nil
}

func (op *libOp) write(x *opCtx) {
	if op.Engine == "y" && op.Variant >= 14 {
		k := &keeper{}
		w := yencode.NewASTWriter(yencode.WithAnchorsKeeper(k))
		if op.Reuse && x.objs != nil {
			if x.objs.kw == nil {
				x.objs.kw, x.objs.kk = w, k
			}
			w, k = x.objs.kw, x.objs.kk
		}
		*k = keeper{}
		if op.Variant%4 == 1 {
			k.failAt = op.At
		} else {
			k.panicAt = op.At
		}
		// some of the anchors lie outside the tree
		doc, i := op.Doc.clone(), 0
		var strip func(n *MNode)
		strip = func(n *MNode) {
			if n.Anchor != "" {
				if i++; (i+op.Variant)%3 == 0 {
					n.Anchor = ""
				}
			}
			for _, c := range n.Kids {
				strip(c)
			}
		}
		strip(doc)
		writeTree[ast.Node](op, x, w, doc.yayamls())
		return
	}
	if op.Engine == "y" {
		w := yencode.NewASTWriter()
		if op.Reuse && x.objs != nil {
			if x.objs.yw == nil {
				x.objs.yw = w
			}
			w = x.objs.yw
		}
		writeTree[ast.Node](op, x, w, op.Doc.yayamls())
		return
	}
	w := &gencode.ASTWriter{}
	if op.Reuse && x.objs != nil {
		if x.objs.gw == nil {
			x.objs.gw = w
		}
		w = x.objs.gw
	}
	writeTree[*yaml.Node](op, x, w, op.Doc.goyaml())
}

func writeTree[T any](op *libOp, x *opCtx, w treeWriter[T], t T) {
	switch op.Variant % 3 {
	case 0:
		s, err := w.WriteString(t)
		x.err("write", err)
		x.logf("%s", x.str(s))
	case 1:
		b, err := w.WriteBytes(t)
		x.err("write", err)
		x.logf("%q", x.out(b))
	case 2:
		dst := &faultyDst{f: op.Fault}
		defer func() { x.logf("accepted %q", dst.got) }()
		x.err("write", w.WriteTo(dst.as(), t))
	}
}

// model decodes into or encodes from a model type with generated code.
func (op *libOp) model(x *opCtx) {
	if modelTypes == nil {
		return
	}
	sc := op.Gen
	t := modelTypes[sc.Model]
	if !sc.Encode {
		pv := reflect.New(t)
		preset(pv.Elem(), sc.Model[:1], sc.Preset)
		defer func() {
			x.logf("%s", dumpValue(pv.Elem()))
			x.retain(func() string { return dumpValue(pv.Elem()) })
		}()
		var err error
		if sc.Via == 0 {
			err = decodeInto(sc, pv.Interface(), newStats())
		} else {
			b := x.in(op.Src)
			if sc.Model[0] == 'g' {
				err = yaml.Unmarshal(b, pv.Interface())
			} else {
				err = pv.Interface().(interface{ UnmarshalYAML([]byte) error }).UnmarshalYAML(b)
			}
			x.lent()
		}
		x.err("decode", err)
		return
	}
	rf := newRef(sc.Model, sc.Doc, true)
	val := reflect.New(t).Elem()
	preset(val, sc.Model[:1], max(1, sc.Preset))
	if err, p := rf.decode(sc.Doc, val); err != nil || p != nil {
		x.logf("not encodable")
		return
	}
	p := val.Addr().Interface()
	switch {
	case sc.Via == 0:
		if sc.Model[0] == 'g' {
			b := gencode.NewASTBuilder()
			p.(yamly.MarshalerYamly).MarshalYamly(b)
			n, err := b.Result()
			x.err("encode", err)
			x.gtree(n)
			return
		}
		b := yencode.NewASTBuilder()
		p.(yamly.MarshalerYamly).MarshalYamly(b)
		n, err := b.Result()
		x.err("encode", err)
		x.ytree(n)
	case sc.Model[0] == 'g' && sc.Via == 1:
		n, err := p.(yaml.Marshaler).MarshalYAML()
		x.err("encode", err)
		if n, ok := n.(*yaml.Node); ok {
			x.gtree(n)
		}
	case sc.Model[0] == 'g':
		b, err := yaml.Marshal(p)
		x.err("encode", err)
		x.logf("%q", x.out(b))
	default:
		b, err := p.(interface{ MarshalYAML() ([]byte, error) }).MarshalYAML()
		x.err("encode", err)
		x.logf("%q", x.out(b))
	}
}

// ---------------------------------------------------------------- generation

var sources = []string{
	"a: |\n  line one\n  line two\n\n  line four\nb: >-\n  folded\n  text\n\n  more\n   indented\nc: plain\n  continued\n  here\n",
	"- \"double\n  quoted   \n\n  text\\n\"\n- 'single\n  quoted\n\n  ''x'' text'\n- plain multi\n  line scalar\n",
	"--- # comment\nx: 1\n...\n---\ny: 2\n--- |\n text\n",
	"%YAML 1.2\n---\na: !!str 1\nb: !local v\nc: &anc {k: v, l: [1, 2, {m: n}]}\nd: *anc\n",
	"{a: 1, b: [x, y, {c: d}], \"e f\": 'g', ? h : i, j}\n",
	"? complex key\n: complex value\n? [a, b]\n: - one\n  - two\n",
	"- - - deep\n    - er\n  - x\n- {}\n- []\n-\n- ~\n",
	"key: [a, b\n  , c]\nother: {x: y,\n  z: w}\n",
	"s: >+\n  keep\n\n\nt: |2-\n    two\n  zero\nu: end\n",
	"a: 'it''s'\nb: \"esc \\\" \\\\ \\t \\u0041\"\n# trailing comment\nc: x # comment\n",
	"- &a one\n- &b\n  k: *a\n- *b\n- {x: *a , y: &c [1]}\n",
	"[]\n", "{}\n", "plain\n", "\"quoted\"\n", "''\n", "- a\n- b\n", "a:\n  b:\n    c: d\n  e:\n  - f\n  - g\n",
	"[1, 2, 3", "{a: b", "a: b: c\n", "]\n", "\"unterminated\n", "- a\n b\n", "a: [}\n", "key: |\n bad\nindent\n  x", "*undefined\n",
	"a: \"x\n", "? ", "'q", "&a &b x\n", "- [a, {b: c]\n", "%BAD\n---\n", "{a, b: {c}, [d]: e}\n", "\tx: y\n", "a:\n\t- b\n",
	"[[[[a]]]]\n", "[a, [b, [c, [d]]]\n", "{a: {b: {c: {d: e}}}\n", ">\n folded\n text\n", "|\n literal\n  text\n", "--- a\n--- b\n",
}

// values of every style, to be put behind "key:" or "-" and before the end of the line
var snippets = []string{
	" plain", " plain words here", " 'single'", " \"double\"", " 'it''s'", " \"esc \\n \\\" x\"", " ~", "", " 12", " -7.5e3", " true", " 2021-02-03", " 2021-02-03T04:05:06Z",
	" |\n    literal\n    two\n", " |\n    literal\n\n    after blank\n\n", " |-\n    strip\n", " |+\n    keep\n\n\n", " |2\n     indented\n    less\n",
	" >\n    folded\n    on\n\n    para\n", " >-\n    folded\n      more\n    back\n", " >+\n    keep\n\n", " >1-\n    one\n",
	" plain\n    over\n    lines", " plain\n\n    with blank", " \"double\n    over\n\n    lines\"", " 'single\n    over\n    lines'", " \"fold \\\n    escaped\"",
	" [a, b, c]", " {a: b, c: d}", " [a, [b, {c: d}], e]", " {a: [1, 2], b: {c: 'd', e: \"f\"}}", " [a\n    , b,\n    c]", " {a: b,\n    c: d}", " [ {x: y}, z: w ]", " []", " {}",
	" &anc value", " &anc2 [1, 2]", " *anc", " !!str 5", " !!int \"5\"", " !local tagged", " !!seq [a]", " &anc3 !!map {k: v}", " # only a comment", " value # comment",
	"\n    - nested\n    - list", "\n    nested: map\n    other: |\n      lit\n", "\n    - - x\n      - y\n    - z: w\n      v: u", "\n    ? ck\n    : cv",
	" ]", " [a", " {a: b", " \"open", " 'open", " a: b", " @bad", " `bad", " %x", " - x", " *", " &", " !", " |9x\n    z", " > bad\n    z", "\t tab", " [a, b", " }",
}

func genComposite(r *Rand) string {
	var b strings.Builder
	bad := len(snippets) - 18
	if r.P(30) {
		bad = len(snippets)
	}
	if r.P(15) {
		b.WriteString(pick(r, []string{"---\n", "%YAML 1.2\n---\n", "# head\n", "--- # c\n", "\ufeff", "\n\n"}))
	}
	seq := r.P(35)
	for i := 1 + r.N(5); i > 0; i-- {
		s := snippets[r.N(bad)]
		switch {
		case seq:
			b.WriteString("-" + s)
		case r.P(10):
			b.WriteString(pick(r, []string{"\"quoted key\"", "'k'", "? k\n", "&ka key", "*anc "}) + ":" + s)
		default:
			b.WriteString(fmt.Sprintf("k%d:", i) + s)
		}
		if !strings.HasSuffix(s, "\n") {
			b.WriteString("\n")
		}
		if r.P(5) {
			b.WriteString(pick(r, []string{"...\n", "---\n", "# c\n", "\n"}))
		}
	}
	return b.String()
}

func genSource(r *Rand, deep bool) string {
	if r.P(40) {
		return genComposite(r)
	}
	switch r.N(10) {
	case 0, 1, 2:
		return genDoc(r, deep).text(false)
	case 3:
		return genDoc(r, deep).text(true)
	case 4, 5:
		s := pick(r, sources)
		// break it
		if len(s) > 1 {
			at := r.N(len(s))
			switch r.N(3) {
			case 0:
				s = s[:at]
			case 1:
				s = s[:at] + pick(r, []string{"[", "]", "{", "}", "\"", "'", ":", "- ", "\n", " ", "&x ", "*x", "#", ",", "|", ">", "!", "?"}) + s[at:]
			case 2:
				s = s[:at] + s[at+1:]
			}
		}
		return s
	}
	return pick(r, sources)
}

func genFault(r *Rand) dstFault {
	f := dstFault{Mode: pick(r, []string{"none", "none", "error", "short", "panic"}), Kind: []int{0, 0, 0, 1, 2, 3}[r.N(6)]}
	if f.Mode != "none" {
		f.Heal = r.P(40)
		if r.P(50) {
			f.Call = 1 + r.N(8)
			f.Limit = r.N(12)
		} else {
			f.Limit = []int{0, r.N(10), r.N(80), r.N(2000)}[r.N(4)]
		}
	}
	return f
}

// limit is the number of steps after which the operation counts as slow.
func (op *libOp) limit(base int64) int64 {
	n := len(op.Src)
	var walk func(n *MNode) int
	walk = func(n *MNode) int {
		s := len(n.V)
		for _, k := range n.Kids {
			s += walk(k)
		}
		return s
	}
	if op.Doc != nil {
		n += walk(op.Doc)
	}
	if op.Gen != nil && op.Gen.Doc != nil {
		n += walk(op.Gen.Doc)
	}
	for _, i := range op.Ins {
		n += len(i.V)
	}
	return base + 300*int64(n)
}

func genOp(r *Rand, deep bool) *libOp {
	op := &libOp{Engine: pick(r, []string{"g", "y"}), Variant: r.N(42), Reuse: r.P(60), Fault: dstFault{Mode: "none"}}
	op.K = pick(r, []string{"parse", "parse", "parse", "read", "read", "read", "build", "encode", "encode", "write", "write", "print", "compare", "generate", "model", "model", "model", "model"})
	switch op.K {
	case "parse":
		if r.P(85) {
			op.Engine = "y"
		}
		op.Src = genSource(r, deep)
		if r.P(45) {
			op.At = 1 + r.N(len(op.Src)*2/3+4)
		}
	case "read":
		if r.P(50) {
			op.Src = genSource(r, deep)
		} else {
			op.Doc = genDoc(r, deep)
		}
		op.Calls = genCalls(r, op)
	case "build", "encode":
		budget := 2 + r.N(15)
		op.Ins = genDocOps(r, nil, []int{0, 0, 5, 15}[r.N(4)], 0, &budget)
		if r.P(12) {
			op.At = 1
		}
		op.Fault = genFault(r)
	case "write":
		op.Doc = genDoc(r, deep)
		if r.P(4) {
			op.Doc = &MNode{K: "q", Kids: []*MNode{{K: "s", V: strings.Repeat("large text ", []int{800, 4000, 7000, 7000}[r.N(4)]) + "x", Quoted: r.P(50)}, op.Doc}}
		}
		op.Fault = genFault(r)
		if r.P(40) {
			op.At = 1 + r.N(5)
		}
	case "print":
		op.Doc = genDoc(r, deep)
		op.Fault = genFault(r)
	case "compare":
		op.Doc = genDoc(r, deep)
		op.Doc2 = op.Doc
		if r.P(60) {
			op.Doc2 = op.Doc.clone()
			mutateDoc(r, op.Doc2)
		}
	case "generate":
		if r.P(50) {
			op.At = 1
		}
		op.Fault = genFault(r)
	case "model":
		op.Gen = genGenerated(r, deep, pick(r, []string{"read", "read", "stop", "callbacks", "panic"}))
		op.Engine = op.Gen.Model[:1]
		if !op.Gen.Encode {
			op.Src = op.Gen.Doc.text(op.Gen.Via == 2)
			if op.Gen.Via != 0 && r.P(10) && len(op.Src) > 2 {
				op.Src = op.Src[:r.N(len(op.Src))]
			}
		}
	}
	return op
}

func mutateDoc(r *Rand, n *MNode) {
	var all []*MNode
	var walk func(n *MNode)
	walk = func(n *MNode) {
		all = append(all, n)
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	t := pick(r, all)
	switch {
	case t.K == "m":
		t.K = "q"
	case t.scalar():
		t.V += "x"
	default:
		t.K, t.V, t.Kids = "s", "other", nil
	}
}

// genCalls makes reader calls, most of them fitting a document of this kind.
func genCalls(r *Rand, op *libOp) []string {
	var out []string
	doc := op.Doc
	if doc == nil {
		for i := 4 + r.N(16); i > 0; i-- {
			c := pick(r, readCalls)
			if c == "auto" {
				c = pick(r, []string{"any", "node", "raw", "seq", "map", "str", "skip", "has"})
			}
			out = append(out, c)
		}
		return out
	}
	wrong := []int{0, 2, 6, 20}[r.N(4)]
	whole := []int{5, 25, 60}[r.N(3)]
	var walk func(n *MNode, key bool)
	walk = func(n *MNode, key bool) {
		if r.P(wrong) {
			out = append(out, pick(r, readCalls[:len(readCalls)-6]))
		}
		if r.P(10) {
			out = append(out, "null")
		}
		if !key && r.P(whole) {
			out = append(out, pick(r, []string{"skip", "raw", "any", "node", "raw"}))
			return
		}
		switch n.K {
		case "q", "m":
			if n.K == "q" {
				out = append(out, "seq")
			} else {
				out = append(out, "map")
			}
			for i, k := range n.Kids {
				if r.P(60) {
					out = append(out, "has")
				}
				walk(k, n.K == "m" && i%2 == 0)
			}
			out = append(out, "pop")
		case "i":
			out = append(out, pick(r, []string{"int", "str", "float"}))
		case "u":
			out = append(out, pick(r, []string{"uint", "str", "int"}))
		case "f":
			out = append(out, "float")
		case "b":
			out = append(out, pick(r, []string{"bool", "str"}))
		case "t":
			out = append(out, pick(r, []string{"time", "str"}))
		case "n":
			out = append(out, "null")
		default:
			out = append(out, "str")
		}
	}
	walk(doc, false)
	if r.P(20) && len(out) > 1 {
		out = out[:r.N(len(out))] // abandoned half way
	}
	return out
}

// ---------------------------------------------------------------- helpers for the kinds

func compareLogs(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("observation %d is missing, want %s", i, clip([]byte(want[i])))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("observation %d: got %s, want %s", i, around(got[i], want[i]), around(want[i], got[i]))
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("extra observation %s", clip([]byte(got[len(want)])))
	}
	return ""
}

// around shows where two long texts differ.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	s := a[from:min(len(a), i+120)]
	if from > 0 {
		s = "..." + s
	}
	return s
}

func (x *opCtx) recheck() string {
	for i, f := range x.keep {
		if s := f(); s != x.kept[i] {
			return fmt.Sprintf("a result became %s, was %s", around(s, x.kept[i]), around(x.kept[i], s))
		}
	}
	return ""
}

func opName(op *libOp) string {
	return strings.TrimSpace(op.K + " " + op.Engine)
}
