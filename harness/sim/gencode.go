package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
	"simh/models/cbg"
	"simh/models/cby"
)

// Generated (un)marshalers, driven through the code the generator under test
// produced for the model types, compared with an interpreter of the types.

var modelTypes map[string]reflect.Type // filled when the models are built in

func init() {
	cbg.Describe = func(n *yaml.Node) string {
		for n.Kind == yaml.AliasNode || n.Kind == yaml.DocumentNode {
			if n.Kind == yaml.AliasNode {
				n = n.Alias
			} else {
				n = n.Content[0]
			}
		}
		return unquoted(canonG(n))
	}
	cby.Describe = func(b []byte) string {
		t, err := parseYay(string(b))
		if err != nil {
			return "unparsable " + string(b)
		}
		return unquoted(canonY(t, map[string]string{}))
	}
}

func unquoted(canon string) string {
	if strings.HasPrefix(canon, `"`) {
		if s, err := strconv.Unquote(canon); err == nil {
			return s
		}
	}
	return canon
}

var (
	tCL   = reflect.TypeOf(cb.CL{})
	tMD   = reflect.TypeOf(cb.MD{})
	tCM   = reflect.TypeOf(cb.CM{})
	tTime = reflect.TypeOf(time.Time{})
	tIfc  = reflect.TypeOf((*cb.Ifc)(nil)).Elem()
	// leafType has the callback types of one node and the kind of their methods
	leafType = map[reflect.Type]string{
		tCM: "yamly", reflect.TypeOf(cb.ML{}): "yamly", reflect.TypeOf(cb.MP{}): "yamly",
		reflect.TypeOf(cb.CT{}): "text", reflect.TypeOf(cb.TP{}): "text", reflect.TypeOf(cb.TS("")): "text", reflect.TypeOf(cb.TA{}): "text",
		reflect.TypeOf(cbg.CY{}): "raw", reflect.TypeOf(cbg.CX{}): "raw", reflect.TypeOf(cbg.YM{}): "raw",
		reflect.TypeOf(cby.CY{}): "raw", reflect.TypeOf(cby.CX{}): "raw", reflect.TypeOf(cby.YM{}): "raw",
	}
)

// setPayload and getPayload access what a callback type holds.
func setPayload(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.Struct:
		v.Field(0).SetString(s)
	case reflect.String:
		v.SetString(s)
	case reflect.Array:
		v.Index(0).SetString(s)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 1, 1))
		v.Index(0).SetString(s)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("p"), reflect.ValueOf(s))
	}
}

func getPayload(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		return v.Field(0).String()
	case reflect.String:
		return v.String()
	case reflect.Array:
		return v.Index(0).String()
	case reflect.Slice:
		if v.Len() > 0 {
			return v.Index(0).String()
		}
	case reflect.Map:
		if x := v.MapIndex(reflect.ValueOf("p")); x.IsValid() {
			return x.String()
		}
	}
	return ""
}

type modelField struct {
	name  string
	index []int
	t     reflect.Type
	omit  bool
}

// modelFields lists the fields that take part, with the names they have in a document.
func modelFields(t reflect.Type, inline bool) []modelField {
	var out, embedded []modelField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := strings.Split(f.Tag.Get("yaml"), ",")[0]
		if tag == "-" || f.PkgPath != "" {
			continue
		}
		if f.Anonymous && inline {
			et := f.Type
			if et.Kind() == reflect.Pointer {
				et = et.Elem()
			}
			for _, ef := range modelFields(et, inline) {
				embedded = append(embedded, modelField{ef.name, append([]int{i}, ef.index...), ef.t, ef.omit})
			}
			continue
		}
		name := f.Name
		if tag != "" {
			name = tag
		}
		out = append(out, modelField{name, []int{i}, f.Type, strings.HasSuffix(f.Tag.Get("yaml"), ",omitempty")})
	}
	return append(out, embedded...)
}

// ---------------------------------------------------------------- documents for a type

type typedGen struct {
	docGen
	bad, fail, unknown, nulls, present, alias int // percentages
	depth                                     int
	anchored                                  map[reflect.Type][]*MNode
	fails                                     int
	inline                                    bool
	encode                                    bool
	preset                                    int
	panics                                    bool
}

var payloadWords = []string{"alpha", "beta", "gamma", "delta", "w1", "w2", "zeta"}

func (g *typedGen) payload() string {
	if g.r.P(g.fail) {
		g.fails++
		if g.panics && g.r.P(40) {
			return fmt.Sprintf("panic:p%d", g.fails)
		}
		return fmt.Sprintf("fail:e%d", g.fails)
	}
	return pick(g.r, payloadWords)
}

func (g *typedGen) wrong(t reflect.Type) *MNode {
	switch t.Kind() {
	case reflect.Float64, reflect.Bool:
		return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "q", Kids: []*MNode{{K: "i", V: "1"}}}, {K: "m"}, {K: "s", V: "a b c"}})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32:
		over := map[reflect.Kind]*MNode{reflect.Int8: {K: "i", V: "128"}, reflect.Int16: {K: "i", V: "-32769"}, reflect.Int32: {K: "i", V: "2147483648"},
			reflect.Uint8: {K: "i", V: "256"}, reflect.Uint16: {K: "i", V: "65536"}, reflect.Uint32: {K: "i", V: "4294967296"},
			reflect.Float32: {K: "f", V: "1e300"}}[t.Kind()]
		if over != nil && g.r.P(60) {
			return over
		}
		return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "q", Kids: []*MNode{{K: "i", V: "1"}}}, {K: "m"}, {K: "s", V: "a b c"}})
	}
	if t == tTime {
		return &MNode{K: "s", V: "word"}
	}
	if leafType[t] != "" {
		return pick(g.r, []*MNode{{K: "q", Kids: []*MNode{{K: "i", V: "1"}}}, {K: "m"}, {K: "n"}})
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "m", Kids: []*MNode{{K: "s", V: "k"}, {K: "i", V: "1"}}}})
	case reflect.Map:
		return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "q", Kids: []*MNode{{K: "i", V: "1"}}}})
	case reflect.Struct:
		if t == tCL {
			return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "q", Kids: []*MNode{{K: "i", V: "1"}, {K: "s", V: "x"}, {K: "i", V: "2"}}}})
		}
		return pick(g.r, []*MNode{{K: "s", V: "word"}, {K: "q", Kids: []*MNode{{K: "s", V: "a"}}}})
	}
	return &MNode{K: "q", Kids: []*MNode{{K: "i", V: "1"}, {K: "i", V: "2"}}}
}

func (g *typedGen) gen(t reflect.Type, field bool) *MNode {
	g.budget--
	if field && g.r.P(g.nulls) {
		return &MNode{K: "n"}
	}
	if g.r.P(g.bad) && t.Kind() != reflect.Interface && leafType[t] != "raw" && t.Kind() != reflect.Pointer {
		return g.wrong(t)
	}
	if as := g.anchored[t]; len(as) > 0 && g.r.P(g.alias) {
		return &MNode{K: "a", V: pick(g.r, as).Anchor}
	}
	n := g.make(t)
	if n.K != "a" && n.Anchor == "" && !g.encode && g.r.P(g.alias/2) {
		n.Anchor = fmt.Sprintf("A%d", g.nAnchor)
		g.nAnchor++
		if g.anchored == nil {
			g.anchored = map[reflect.Type][]*MNode{}
		}
		g.anchored[t] = append(g.anchored[t], n)
	}
	return n
}

func (g *typedGen) make(t reflect.Type) *MNode {
	r := g.r
	word := func() *MNode { return &MNode{K: "s", V: pick(r, payloadWords)} }
	switch {
	case leafType[t] != "" && leafType[t] != "raw":
		if !g.encode && r.P(12) {
			return pick(r, []*MNode{{K: "s", Quoted: true}, {K: "i", V: "12"}, {K: "b", V: "true"}, {K: "f", V: "1.5"}, {K: "s", V: "a b", Quoted: true}})
		}
		return &MNode{K: "s", V: g.payload()}
	case t == tMD:
		n := &MNode{K: "m"}
		for i, c := 0, r.N(4); i < c; i++ {
			n.Kids = append(n.Kids, &MNode{K: "s", V: fmt.Sprintf("e%d", i)}, g.gen(tCM, false))
		}
		return n
	case t == tCL:
		n := &MNode{K: "q"}
		for i := 1 + r.N(3); i > 0; i-- {
			n.Kids = append(n.Kids, &MNode{K: "i", V: strconv.Itoa(r.N(50))})
		}
		if r.P(g.fail) {
			n.Kids = append(n.Kids, &MNode{K: "i", V: "99"})
		}
		return n
	case leafType[t] == "raw":
		if !g.encode && r.P(25) {
			load := func() *MNode { return &MNode{K: "s", V: g.payload()} }
			switch r.N(4) {
			case 0:
				return &MNode{K: "q", Kids: []*MNode{load(), {K: "i", V: "7"}}}
			case 1:
				return &MNode{K: "q", Kids: []*MNode{word(), {K: "m", Kids: []*MNode{word(), load()}}}}
			case 2:
				return &MNode{K: "i", V: "31"}
			}
			return &MNode{K: "m", Kids: []*MNode{word(), load()}}
		}
		if !g.encode && r.P(6) {
			return &MNode{K: "n"}
		}
		return &MNode{K: "s", V: g.payload()}
	case t == tTime:
		return &MNode{K: "t", V: []string{"2021-02-03T04:05:06Z", "1999-12-31T23:59:59Z"}[r.N(2)]}
	case t == tIfc:
		return &MNode{K: "s", V: g.payload()}
	}
	g.depth++
	defer func() { g.depth-- }()
	count := func(most int) int {
		if g.budget <= 0 || g.depth > 7 {
			return 0
		}
		return r.N(most + 1)
	}
	switch t.Kind() {
	case reflect.String:
		if r.P(20) {
			return &MNode{K: "s", V: pick(r, quotedStrings), Quoted: true}
		}
		return word()
	case reflect.Bool:
		return &MNode{K: "b", V: []string{"true", "false"}[r.N(2)]}
	case reflect.Int, reflect.Int64:
		return &MNode{K: "i", V: strconv.Itoa(r.N(2000) - 1000)}
	case reflect.Int8:
		return &MNode{K: "i", V: strconv.Itoa(r.N(256) - 128)}
	case reflect.Int16, reflect.Int32:
		return &MNode{K: "i", V: strconv.Itoa(r.N(60000) - 30000)}
	case reflect.Uint8:
		return &MNode{K: "i", V: strconv.Itoa(r.N(256))}
	case reflect.Uint16, reflect.Uint32:
		return &MNode{K: "i", V: strconv.Itoa(r.N(65536))}
	case reflect.Uint64:
		return &MNode{K: "i", V: strconv.Itoa(r.N(100000))}
	case reflect.Float32, reflect.Float64:
		return &MNode{K: "f", V: []string{"1.5", "-0.25", "3.0", "12.75"}[r.N(4)]}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return word()
		}
		n := &MNode{K: "q"}
		for i := count(3); i > 0; i-- {
			n.Kids = append(n.Kids, g.gen(t.Elem(), t.Elem().Kind() == reflect.Pointer))
		}
		return n
	case reflect.Array:
		n := &MNode{K: "q"}
		k := count(4)
		if g.encode {
			k = t.Len()
		}
		for i := k; i > 0; i-- {
			n.Kids = append(n.Kids, g.gen(t.Elem(), false))
		}
		return n
	case reflect.Pointer:
		return g.gen(t.Elem(), true)
	case reflect.Map:
		n := &MNode{K: "m"}
		most := 3
		used := map[string]bool{}
		for i := count(most); i > 0; i-- {
			k := &MNode{K: "s", V: fmt.Sprintf("k%d", r.N(9))}
			switch t.Key().Kind() {
			case reflect.Int, reflect.Uint8:
				k = g.make(t.Key())
				if r.P(g.bad) {
					k = &MNode{K: "s", V: "word"}
				}
			default:
				if leafType[t.Key()] != "" && r.P(g.fail) {
					k.V = g.payload()
				}
			}
			if used[k.V] {
				continue
			}
			used[k.V] = true
			n.Kids = append(n.Kids, k, g.gen(t.Elem(), t.Elem().Kind() == reflect.Pointer))
		}
		return n
	case reflect.Struct:
		n := &MNode{K: "m"}
		fs := modelFields(t, g.inline)
		// any order
		for i := len(fs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			fs[i], fs[j] = fs[j], fs[i]
		}
		p := g.present
		if g.depth > 1 {
			p = 70
		}
		for i, f := range fs {
			if r.P(g.unknown) {
				n.Kids = append(n.Kids, &MNode{K: "s", V: fmt.Sprintf("unknown%d", i)}, g.unknownValue())
			}
			if !r.P(p) || g.budget <= 0 {
				continue
			}
			n.Kids = append(n.Kids, &MNode{K: "s", V: f.name}, g.gen(f.t, true))
		}
		return n
	case reflect.Interface:
		if g.encode || g.preset == 1 {
			return &MNode{K: "s", V: g.payload()}
		}
		if g.preset == 2 {
			return g.make(reflect.TypeOf(cbg.CY{}))
		}
		return g.anyNode()
	}
	panic("no document for " + t.String())
}

func (g *typedGen) anyNode() *MNode {
	g.docGen.anchors = nil
	saved := g.docGen.budget
	g.docGen.budget = 1 + g.r.N(6)
	n := g.docGen.node(3, true)
	g.docGen.budget = saved
	g.docGen.anchors = nil
	return n
}

func (g *typedGen) unknownValue() *MNode {
	if g.r.P(20) {
		return &MNode{K: "n"}
	}
	return g.anyNode()
}

// ---------------------------------------------------------------- interpreter

var errSome = errors.New("some error")

type refStop struct{ err error }

type cbCall struct{ Kind, Payload string }

type ref struct {
	model  string
	res    map[*MNode]*MNode
	calls  []cbCall
	plain  bool // only build the value
	all    bool // note all callbacks, as if none failed
	strict bool
	inline bool
	omit   bool
}

func newRef(model string, doc *MNode, plain bool) *ref {
	name := model[2:]
	return &ref{model: model, res: doc.resolve(), plain: plain, strict: name == "strict", inline: name == "emb", omit: name == "opt"}
}

func (r *ref) act(kind, payload string) {
	if r.plain {
		return
	}
	r.calls = append(r.calls, cbCall{kind, payload})
	if r.all {
		return
	}
	if id := cb.Token(payload, "fail:"); id != "" {
		panic(refStop{cb.Err{ID: id}})
	}
	if id := cb.Token(payload, "panic:"); id != "" {
		panic(cb.Panic{ID: id})
	}
}

func (r *ref) denied() { panic(refStop{yamly.ErrDenied}) }

// decode interprets the type over the document; err is nil, or what the first error must match.
func (r *ref) decode(doc *MNode, out reflect.Value) (err error, panicked any) {
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case refStop:
				err = p.err
			case cb.Panic:
				panicked = p
			default:
				panic(p)
			}
		}
	}()
	r.dec(out.Type(), doc, out)
	return nil, nil
}

func (r *ref) dec(t reflect.Type, n *MNode, out reflect.Value) {
	d := n
	if n.K == "a" {
		d = r.res[n]
	}
	switch {
	case leafType[t] == "raw":
		p := unquoted(d.expand(r.res).canon())
		setPayload(out, p)
		r.act("raw", p)
		return
	case leafType[t] != "":
		if !d.scalar() {
			r.denied()
		}
		setPayload(out, d.V)
		r.act(leafType[t], d.V)
		return
	case t == tMD:
		if d.K != "m" {
			r.denied()
		}
		var md cb.MD
		for i := 0; i+1 < len(d.Kids); i += 2 {
			if !d.Kids[i].scalar() {
				r.denied()
			}
			md.K = append(md.K, d.Kids[i].V)
			var v cb.CM
			r.dec(tCM, d.Kids[i+1], reflect.ValueOf(&v).Elem())
			md.V = append(md.V, v)
		}
		out.Set(reflect.ValueOf(md))
		return
	case t == tCL:
		if d.K != "q" {
			r.denied()
		}
		var l []int64
		for _, k := range d.Kids {
			if k.K != "i" {
				r.denied()
			}
			v, _ := strconv.ParseInt(k.V, 10, 64)
			l = append(l, v)
		}
		out.Field(0).Set(reflect.ValueOf(l))
		if len(l) > 0 && l[len(l)-1] == 99 {
			r.act("list", "fail:99")
		}
		return
	case t == tTime:
		if !d.scalar() {
			r.denied()
		}
		if d.K != "t" {
			panic(refStop{errSome})
		}
		out.Set(reflect.ValueOf(parseTime(d.V)))
		return
	}
	switch t.Kind() {
	case reflect.String:
		if !d.scalar() {
			r.denied()
		}
		out.SetString(d.V)
	case reflect.Bool:
		if d.K != "b" {
			r.denied()
		}
		out.SetBool(d.V == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if d.K != "i" {
			r.denied()
		}
		v, _ := strconv.ParseInt(d.V, 10, 64)
		if out.OverflowInt(v) {
			panic(refStop{errSome})
		}
		out.SetInt(v)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if d.K != "i" {
			r.denied()
		}
		v, _ := strconv.ParseUint(d.V, 10, 64)
		if out.OverflowUint(v) {
			panic(refStop{errSome})
		}
		out.SetUint(v)
	case reflect.Float32, reflect.Float64:
		if d.K != "f" && d.K != "i" {
			r.denied()
		}
		v, _ := strconv.ParseFloat(d.V, 64)
		if out.OverflowFloat(v) {
			panic(refStop{errSome})
		}
		out.SetFloat(v)
	case reflect.Slice:
		if d.K == "n" {
			out.SetZero()
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			if !d.scalar() {
				r.denied()
			}
			out.SetBytes([]byte(d.V))
			return
		}
		if d.K != "q" {
			r.denied()
		}
		s := reflect.MakeSlice(t, len(d.Kids), len(d.Kids))
		for i, k := range d.Kids {
			r.dec(t.Elem(), k, s.Index(i))
		}
		out.Set(s)
	case reflect.Array:
		if d.K == "n" {
			return
		}
		if d.K != "q" {
			r.denied()
		}
		for i, k := range d.Kids {
			if i < t.Len() {
				r.dec(t.Elem(), k, out.Index(i))
			}
		}
	case reflect.Pointer:
		if d.K == "n" {
			out.SetZero()
			return
		}
		if out.IsNil() {
			out.Set(reflect.New(t.Elem()))
		}
		r.dec(t.Elem(), n, out.Elem())
	case reflect.Map:
		if d.K == "n" {
			out.SetZero()
			return
		}
		if d.K != "m" {
			r.denied()
		}
		m := reflect.MakeMap(t)
		for i := 0; i+1 < len(d.Kids); i += 2 {
			k, v := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			r.dec(t.Key(), d.Kids[i], k)
			r.dec(t.Elem(), d.Kids[i+1], v)
			m.SetMapIndex(k, v)
		}
		out.Set(m)
	case reflect.Struct:
		if d.K == "n" {
			out.SetZero()
			return
		}
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.Anonymous && f.Type.Kind() == reflect.Pointer {
				out.Field(i).Set(reflect.New(f.Type.Elem()))
			}
		}
		if d.K != "m" {
			r.denied()
		}
		fs := map[string]modelField{}
		for _, f := range modelFields(t, r.inline) {
			fs[f.name] = f
		}
		for i := 0; i+1 < len(d.Kids); i += 2 {
			v := d.Kids[i+1]
			if v.K == "n" || v.K == "a" && r.res[v].K == "n" {
				continue
			}
			if !d.Kids[i].scalar() {
				r.denied()
			}
			f, ok := fs[d.Kids[i].V]
			if !ok {
				if r.strict {
					panic(refStop{&yamly.UnknownFieldError{}})
				}
				continue
			}
			r.dec(f.t, v, out.FieldByIndex(f.index))
		}
	case reflect.Interface:
		if !out.IsNil() {
			if e := out.Elem(); e.Kind() == reflect.Pointer {
				r.dec(e.Type().Elem(), n, e.Elem())
				return
			}
		}
		if a := d.expand(r.res).anyValue(); a != nil {
			out.Set(reflect.ValueOf(a))
		} else {
			out.SetZero()
		}
	}
}

// encode interprets the type over a value.
func (r *ref) encode(v reflect.Value) (n *MNode, err error, panicked any) {
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case refStop:
				err = p.err
			case cb.Panic:
				panicked = p
			default:
				panic(p)
			}
		}
	}()
	return r.enc(v), nil, nil
}

func (r *ref) enc(v reflect.Value) *MNode {
	t := v.Type()
	switch {
	case leafType[t] != "":
		s := getPayload(v)
		r.act(leafType[t], s)
		return &MNode{K: "s", V: s}
	case t == tMD:
		n := &MNode{K: "m"}
		md := v.Interface().(cb.MD)
		for i := range md.K {
			n.Kids = append(n.Kids, &MNode{K: "s", V: md.K[i]}, r.enc(reflect.ValueOf(md.V[i])))
		}
		return n
	case t == tCL:
		n := &MNode{K: "q"}
		for _, x := range v.Field(0).Interface().([]int64) {
			if x == 99 {
				r.act("list", "fail:99")
			}
			n.Kids = append(n.Kids, &MNode{K: "i", V: strconv.FormatInt(x, 10)})
		}
		return n
	case t == tTime:
		return &MNode{K: "t", V: v.Interface().(time.Time).Format(time.RFC3339)}
	}
	switch t.Kind() {
	case reflect.String:
		return &MNode{K: "s", V: v.String(), Quoted: true}
	case reflect.Bool:
		return &MNode{K: "b", V: strconv.FormatBool(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &MNode{K: "i", V: strconv.FormatInt(v.Int(), 10)}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &MNode{K: "i", V: strconv.FormatUint(v.Uint(), 10)}
	case reflect.Float32, reflect.Float64:
		return &MNode{K: "f", V: strconv.FormatFloat(v.Float(), 'e', -1, 64)}
	case reflect.Slice:
		if v.IsNil() {
			return &MNode{K: "n"}
		}
		if t.Elem().Kind() == reflect.Uint8 {
			return &MNode{K: "s", V: string(v.Bytes()), Quoted: true}
		}
		fallthrough
	case reflect.Array:
		n := &MNode{K: "q"}
		for i := 0; i < v.Len(); i++ {
			n.Kids = append(n.Kids, r.enc(v.Index(i)))
		}
		return n
	case reflect.Pointer:
		if v.IsNil() {
			return &MNode{K: "n"}
		}
		return r.enc(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return &MNode{K: "n"}
		}
		n := &MNode{K: "m"}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			n.Kids = append(n.Kids, r.enc(k), r.enc(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := &MNode{K: "m"}
		for _, f := range modelFields(t, r.inline) {
			fv := v.FieldByIndex(f.index)
			if (r.omit || f.omit) && emptyValue(fv) {
				continue
			}
			n.Kids = append(n.Kids, &MNode{K: "s", V: f.name}, r.enc(fv))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return &MNode{K: "n"}
		}
		return r.enc(v.Elem())
	}
	panic("cannot encode " + t.String())
}

func emptyValue(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct, reflect.Array:
		return false
	}
	return v.IsZero()
}

// ---------------------------------------------------------------- rendering

// dumpValue renders a model value; nil and empty collections are not told apart.
func dumpValue(v reflect.Value) string {
	t := v.Type()
	if t == tTime {
		return v.Interface().(time.Time).UTC().Format(time.RFC3339Nano)
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dumpValue(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		if e := v.Elem(); e.Kind() == reflect.Pointer {
			return "i" + dumpValue(e)
		}
		return showAny(v.Interface())
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		var parts []string
		for i := 0; i < v.Len(); i++ {
			parts = append(parts, dumpValue(v.Index(i)))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, dumpValue(k)+":"+dumpValue(v.MapIndex(k)))
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		var parts []string
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" && !t.Field(i).Anonymous {
				continue
			}
			parts = append(parts, t.Field(i).Name+":"+dumpValue(v.Field(i)))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.String:
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

// normal is the canonical text of a tree with mapping entries sorted and numbers and times normalised.
func (n *MNode) normal() string {
	switch n.K {
	case "q":
		var parts []string
		for _, k := range n.Kids {
			parts = append(parts, k.normal())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "m":
		var parts []string
		for i := 0; i+1 < len(n.Kids); i += 2 {
			parts = append(parts, n.Kids[i].normal()+":"+n.Kids[i+1].normal())
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	case "n":
		return "null"
	}
	if n.V != "" && strings.ContainsAny(n.V, ".eE") {
		if f, err := strconv.ParseFloat(n.V, 64); err == nil {
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
	}
	if t, err := time.Parse(time.RFC3339, n.V); err == nil {
		return t.UTC().Format(time.RFC3339Nano)
	}
	return strconv.Quote(n.V)
}

func fromG(n *yaml.Node) *MNode {
	if n == nil {
		return &MNode{K: "s", V: "<absent>"}
	}
	switch n.Kind {
	case yaml.DocumentNode:
		return fromG(n.Content[0])
	case yaml.AliasNode:
		return fromG(n.Alias)
	case yaml.SequenceNode, yaml.MappingNode:
		m := &MNode{K: "q"}
		if n.Kind == yaml.MappingNode {
			m.K = "m"
		}
		for _, k := range n.Content {
			m.Kids = append(m.Kids, fromG(k))
		}
		return m
	}
	if n.ShortTag() == "!!null" {
		return &MNode{K: "n"}
	}
	return &MNode{K: "s", V: n.Value}
}

func fromY(n ast.Node) *MNode {
	switch n := n.(type) {
	case nil:
		return &MNode{K: "s", V: "<absent>"}
	case *ast.ContentNode:
		return fromY(n.Content())
	case *ast.SequenceNode:
		m := &MNode{K: "q"}
		for _, k := range n.Entries() {
			m.Kids = append(m.Kids, fromY(k))
		}
		return m
	case *ast.MappingNode:
		m := &MNode{K: "m"}
		for _, k := range n.Entries() {
			e, ok := k.(*ast.MappingEntryNode)
			if !ok {
				return &MNode{K: "s", V: "<no entry>"}
			}
			m.Kids = append(m.Kids, fromY(e.Key()), fromY(e.Value()))
		}
		return m
	case *ast.TextNode:
		if canonY(n, nil) == "null" {
			return &MNode{K: "n"}
		}
		return &MNode{K: "s", V: n.Text()}
	case *ast.NullNode:
		return &MNode{K: "n"}
	}
	return &MNode{K: "s", V: "<" + n.Type().String() + ">"}
}

// ---------------------------------------------------------------- runs

type genScenario struct {
	Model  string `json:"model"`
	Doc    *MNode `json:"doc"`
	Via    int    `json:"via"`
	Preset int    `json:"preset"`
	Encode bool   `json:"encode,omitempty"`
}

var modelNames = []string{"doc", "doc", "doc", "kinds", "kinds", "kinds", "strict", "opt", "emb", "ptr", "seq", "dict"}

func genGenerated(r *Rand, deep bool, flavour string) *genScenario {
	sc := &genScenario{Model: pick(r, []string{"g/", "y/"}) + pick(r, modelNames), Via: r.N(3), Preset: r.N(3)}
	g := &typedGen{unknown: []int{0, 8, 20}[r.N(3)], nulls: []int{0, 10, 30}[r.N(3)], alias: []int{0, 15, 40}[r.N(3)],
		present: []int{15, 30, 60, 90}[r.N(4)]}
	g.r = r
	g.preset = sc.Preset
	g.budget = 10 + r.N(40)
	if deep {
		g.budget += r.N(150)
	}
	switch flavour {
	case "stop":
		g.bad = 2 + r.N(10)
		g.fail = r.N(3)
		if sc.Model[2:] == "strict" {
			g.unknown = 10
		}
	case "callbacks":
		g.fail = []int{3, 8, 20}[r.N(3)]
		sc.Encode = r.P(50)
		if sc.Model[2:] == "strict" {
			g.unknown = 0
		}
	case "read":
		sc.Encode = r.P(20)
		if sc.Model[2:] == "strict" {
			g.unknown = 0
		}
	case "panic":
		g.fail, g.panics = 10, true
		sc.Encode = r.P(50)
	}
	g.inline = sc.Model[2:] == "emb"
	g.encode = sc.Encode
	if sc.Encode {
		g.bad, g.unknown, g.alias = 0, 0, 0
	}
	sc.Doc = g.make(modelTypes[sc.Model])
	return sc
}

func shrinkGenerated(sc any) []any {
	s := sc.(*genScenario)
	var out []any
	if s.Via != 0 {
		c := *s
		c.Via = 0
		out = append(out, &c)
	}
	if s.Preset != 0 {
		c := *s
		c.Preset = 0
		out = append(out, &c)
	}
	for _, d := range shrinkDoc(s.Doc) {
		c := *s
		c.Doc = d
		out = append(out, &c)
	}
	return out
}

func init() {
	for _, f := range []struct{ prop, name, flavour string }{
		{"C06", "generated-read", "read"}, {"C03", "generated-stop", "stop"}, {"C04", "generated-callbacks", "callbacks"},
	} {
		register([]string{f.prop}, &Kind{
			Name: f.name,
			New:  func() any { return &genScenario{} },
			Gen: func(r *Rand, deep bool) any {
				return genGenerated(r, deep, f.flavour)
			},
			Run:    func(sc any, st *Stats) *Violation { return runGenerated(sc.(*genScenario), st) },
			Shrink: shrinkGenerated,
		})
	}
}

// preset puts callback holders into interface fields.
func preset(v reflect.Value, engine string, which int) {
	if v.Kind() != reflect.Struct {
		return
	}
	if f := v.FieldByName("Ifc"); f.IsValid() {
		f.Set(reflect.ValueOf(&cb.CM{}))
	}
	if f := v.FieldByName("Any"); f.IsValid() {
		switch which {
		case 1:
			f.Set(reflect.ValueOf(&cb.CM{}))
		case 2:
			if engine == "g" {
				f.Set(reflect.ValueOf(&cbg.CY{}))
			} else {
				f.Set(reflect.ValueOf(&cby.CY{}))
			}
		}
	}
}

// decodeGenerated decodes the document with the generated code.
func decodeGenerated(sc *genScenario, st *Stats) (reflect.Value, error) {
	t := modelTypes[sc.Model]
	pv := reflect.New(t)
	preset(pv.Elem(), sc.Model[:1], sc.Preset)
	err := decodeInto(sc, pv.Interface(), st)
	return pv.Elem(), err
}

func decodeInto(sc *genScenario, p any, st *Stats) error {
	want := sc.Doc.expand(sc.Doc.resolve()).canon()
	yamlyWay := func() error {
		var in yamly.Decoder
		if sc.Model[0] == 'g' {
			in = gdecode.NewASTReader(sc.Doc.goyaml())
		} else {
			in = ydecode.NewASTReader(sc.Doc.yayamls())
		}
		p.(yamly.UnmarshalerYamly).UnmarshalYamly(in)
		return in.Error()
	}
	if sc.Via == 0 {
		st.Inc("via.decoder")
		return yamlyWay()
	}
	if sc.Model[0] == 'g' {
		src := sc.Doc.text(sc.Via == 2)
		parsed, err := parseGo(src)
		if err != nil || canonG(parsed) != want {
			st.Inc("via.decoder")
			return yamlyWay()
		}
		if sc.Via == 2 {
			st.Inc("via.node")
			return p.(yaml.Unmarshaler).UnmarshalYAML(parsed.Content[0])
		}
		st.Inc("via.text")
		return yaml.Unmarshal([]byte(src), p)
	}
	src := sc.Doc.text(sc.Via == 2)
	if len(src) > 1500 {
		st.Inc("via.decoder") // the parser tries flow collections many times over
		return yamlyWay()
	}
	parsed, err := parseYay(src)
	if err != nil || canonY(parsed, map[string]string{}) != want {
		st.Inc("via.decoder")
		return yamlyWay()
	}
	st.Inc("via.text")
	return p.(interface{ UnmarshalYAML([]byte) error }).UnmarshalYAML([]byte(src))
}

// encodeGenerated encodes a value with the generated code; the tree is nil where only text is available.
func encodeGenerated(sc *genScenario, v reflect.Value, st *Stats) (tree *MNode, some bool, err error) {
	p := v.Addr().Interface()
	switch {
	case sc.Via == 0:
		st.Inc("via.inserter")
		if sc.Model[0] == 'g' {
			b := gencode.NewASTBuilder()
			p.(yamly.MarshalerYamly).MarshalYamly(b)
			n, err := b.Result()
			if n == nil {
				return nil, false, err
			}
			return fromG(n), true, err
		}
		b := yencode.NewASTBuilder()
		p.(yamly.MarshalerYamly).MarshalYamly(b)
		n, err := b.Result()
		if n == nil {
			return nil, false, err
		}
		return fromY(n), true, err
	case sc.Model[0] == 'g' && sc.Via == 1:
		st.Inc("via.marshal_method")
		x, err := p.(yaml.Marshaler).MarshalYAML()
		n, ok := x.(*yaml.Node)
		if !ok || n == nil {
			return nil, ok && n != nil, err
		}
		return fromG(n), true, err
	case sc.Model[0] == 'g':
		st.Inc("via.text")
		b, err := yaml.Marshal(p)
		if err != nil || len(b) == 0 {
			return nil, len(b) > 0, err
		}
		n, perr := parseGo(string(b))
		if perr != nil {
			return &MNode{K: "s", V: "unparsable " + string(b)}, true, nil
		}
		return fromG(n), true, nil
	}
	st.Inc("via.text")
	b, err := p.(interface{ MarshalYAML() ([]byte, error) }).MarshalYAML()
	return nil, len(b) > 0, err
}

func runGenerated(sc *genScenario, st *Stats) (v *Violation) {
	if modelTypes == nil || !sc.Doc.valid() {
		st.Trivial()
		return nil
	}
	t := modelTypes[sc.Model]
	var calls []cbCall
	cb.Note = func(kind, payload string) { calls = append(calls, cbCall{kind, payload}) }
	defer func() { cb.Note = nil }()
	rf := newRef(sc.Model, sc.Doc, sc.Encode)
	want := reflect.New(t).Elem()
	p := sc.Preset
	if sc.Encode && p == 0 {
		p = 1
	}
	preset(want, sc.Model[:1], p)
	wantErr, wantPanic := rf.decode(sc.Doc, want)
	if sc.Encode {
		if wantErr != nil || wantPanic != nil {
			st.Trivial()
			return nil
		}
		return runEncode(sc, want, &calls, st)
	}
	var got reflect.Value
	var err error
	limit := sc.Doc.hangLimit(2)
	zzv.BeginCount(limit)
	func() {
		defer func() { st.Add("steps", zzv.EndCount()) }()
		got, err = decodeGenerated(sc, st)
	}()
	st.State(hashString(fmt.Sprint(sc.Model, wantErr, len(rf.calls), want.Type(), len(dumpValue(want))/16)))
	st.Log("%s via %d: %v calls %v", sc.Model, sc.Via, err, calls)
	if v := compareCalls(sc, rf.calls, calls, wantErr); v != nil {
		return v
	}
	if wantErr != nil {
		st.Inc("fault." + errClass(wantErr))
		switch {
		case err == nil:
			return vio("error-lost", "decoding %s into %s: no error, want %v", sc.Doc.expand(rf.res).canon(), sc.Model, wantErr)
		case wantErr != errSome && !errors.Is(err, wantErr):
			return vio("wrong-error", "decoding %s into %s: error %v, want %v", sc.Doc.expand(rf.res).canon(), sc.Model, err, wantErr)
		}
		return nil
	}
	if len(sc.Doc.Kids) == 0 {
		st.Trivial()
	}
	if err != nil {
		return vio("unexpected-error", "decoding %s into %s: %v", sc.Doc.expand(rf.res).canon(), sc.Model, err)
	}
	if g, w := dumpValue(got), dumpValue(want); g != w {
		return vio("wrong-value", "decoding %s into %s:\ngot  %s\nwant %s", sc.Doc.expand(rf.res).canon(), sc.Model, g, w)
	}
	st.Log("%s", dumpValue(got))
	return nil
}

func errClass(err error) string {
	switch err.(type) {
	case cb.Err:
		return "callback_error"
	case *yamly.UnknownFieldError:
		return "unknown_field"
	}
	if err == errSome {
		return "overflow"
	}
	return "wrong_type"
}

func compareCalls(sc *genScenario, want, got []cbCall, wantErr error) *Violation {
	for i, w := range want {
		if i >= len(got) {
			return vio("callback-missed", "%s: callback %d (%s %q) was not called; calls: %v", sc.Model, i, w.Kind, w.Payload, got)
		}
		if got[i] != w {
			return vio("callback-wrong-node", "%s: callback %d was %s with %q, want %s with %q", sc.Model, i, got[i].Kind, got[i].Payload, w.Kind, w.Payload)
		}
	}
	for _, g := range got[len(want):] {
		if wantErr == nil || g.Payload != "" || g.Kind == "raw" {
			return vio("callback-extra", "%s: unexpected callback %s with %q (error so far: %v)", sc.Model, g.Kind, g.Payload, wantErr)
		}
	}
	return nil
}

func runEncode(sc *genScenario, val reflect.Value, calls *[]cbCall, st *Stats) *Violation {
	rf := newRef(sc.Model, sc.Doc, false)
	rf.all = true
	wantTree, _, _ := rf.encode(val)
	*calls = nil
	before := dumpValue(val)
	var tree *MNode
	var some bool
	var err error
	zzv.BeginCount(sc.Doc.hangLimit(2))
	func() {
		defer func() { st.Add("steps", zzv.EndCount()) }()
		tree, some, err = encodeGenerated(sc, val, st)
	}()
	// the order of fields and map entries is the code's choice, so the first failure is taken from the calls made
	var wantErr error
	left := map[cbCall]int{}
	fails := false
	for _, c := range rf.calls {
		left[c]++
		fails = fails || cb.Token(c.Payload, "fail:") != ""
	}
	for i, c := range *calls {
		if left[c]--; left[c] < 0 {
			return vio("callback-extra", "encoding %s of %s: callback %d (%s %q) is one too many; calls %v", before, sc.Model, i, c.Kind, c.Payload, *calls)
		}
		if id := cb.Token(c.Payload, "fail:"); wantErr == nil && id != "" {
			wantErr = cb.Err{ID: id}
		}
	}
	st.State(hashString(fmt.Sprint("enc", sc.Model, wantErr, len(rf.calls), len(before)/16)))
	st.Log("%s via %d: %v calls %v", sc.Model, sc.Via, err, *calls)
	if fails != (wantErr != nil) || !fails && len(*calls) != len(rf.calls) {
		return vio("callback-missed", "encoding %s of %s: callbacks %v, want %v", before, sc.Model, *calls, rf.calls)
	}
	if wantErr != nil {
		st.Inc("fault." + errClass(wantErr))
		if err == nil {
			return vio("error-lost", "encoding %s of %s: no error, want %v", before, sc.Model, wantErr)
		}
		if !errors.Is(err, wantErr) {
			return vio("wrong-error", "encoding %s of %s: error %v, want %v", before, sc.Model, err, wantErr)
		}
		if some {
			return vio("document-with-error", "encoding %s of %s: a document was returned together with error %v", before, sc.Model, err)
		}
		return nil
	}
	if err != nil {
		return vio("unexpected-error", "encoding %s of %s: %v", before, sc.Model, err)
	}
	if after := dumpValue(val); after != before {
		return vio("value-changed", "encoding changed the value from %s to %s", before, after)
	}
	if tree != nil {
		if g, w := tree.normal(), wantTree.normal(); g != w {
			return vio("wrong-tree", "encoding %s of %s:\ngot  %s\nwant %s", before, sc.Model, g, w)
		}
	} else if !some && len(wantTree.Kids) > 0 {
		return vio("no-document", "encoding %s of %s: nothing was produced", before, sc.Model)
	}
	return nil
}
