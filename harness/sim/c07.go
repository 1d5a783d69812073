package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/goyaml"
	gencode "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	"github.com/KSpaceer/yamly/engines/yayamls/ast/astprint"
	yencode "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/generator"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// C07: destinations which fail, accept less than they were given, or panic.

// dstFault is what a destination does. Call counts the Write calls from 1; 0 means the
// capacity Limit decides.
type dstFault struct {
	Call  int    `json:"call,omitempty"`
	Limit int    `json:"limit,omitempty"` // bytes accepted in total (Call 0), or of the failing call
	Mode  string `json:"mode"`            // error, short (no error), panic, none
	Heal  bool   `json:"heal,omitempty"`  // works again afterwards
	Err   int    `json:"err,omitempty"`   // which error
	Kind  int    `json:"kind,omitempty"`  // what it offers besides Write: 1 WriteString, 2 ReadFrom, 3 both and WriteByte
}

type dstScenario struct {
	What string     `json:"what"` // enc-g enc-y writer-g writer-y print generate
	Docs []*MNode   `json:"docs"`
	Flt  []dstFault `json:"faults"` // per document
	Type int        `json:"type,omitempty"`
	Bulk int        `json:"bulk,omitempty"`
	Opt  bool       `json:"opt,omitempty"`
}

type writerPanic struct{}

type faultyDst struct {
	f     dstFault
	calls int
	got   []byte
	fired bool
	dead  bool
}

func (w *faultyDst) Write(p []byte) (int, error) {
	w.calls++
	n := len(p)
	hit := false
	switch {
	case w.f.Mode == "none":
	case w.dead && !w.f.Heal:
		hit, n = true, 0
	case w.fired:
	case w.f.Call > 0:
		if w.calls == w.f.Call {
			hit, n = true, min(w.f.Limit, len(p))
		}
	case len(w.got)+len(p) > w.f.Limit:
		hit, n = true, max(0, w.f.Limit-len(w.got))
	}
	w.got = append(w.got, p[:n]...)
	if !hit {
		return n, nil
	}
	w.fired, w.dead = true, true
	switch w.f.Mode {
	case "short":
		if n == len(p) {
			w.fired, w.dead = false, false
		}
		return n, nil
	case "panic":
		panic(writerPanic{})
	}
	if err := cb.Special(w.f.Err); err != nil {
		return n, err
	}
	return n, errDisk
}

// as is the destination as the code under test sees it.
func (w *faultyDst) as() io.Writer {
	switch w.f.Kind {
	case 1:
		return stringDst{w}
	case 2:
		return fromDst{w}
	case 3:
		return fullDst{stringDst{w}, fromDst{w}}
	}
	return w
}

type stringDst struct{ *faultyDst }

func (d stringDst) WriteString(s string) (int, error) { return d.Write([]byte(s)) }

type fromDst struct{ *faultyDst }

func (d fromDst) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 700)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			w, werr := d.Write(buf[:k])
			n += int64(w)
			if werr == nil && w < k {
				werr = io.ErrShortWrite
			}
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

type fullDst struct {
	stringDst
	from fromDst
}

func (d fullDst) ReadFrom(r io.Reader) (int64, error) { return d.from.ReadFrom(r) }

func (d fullDst) WriteByte(c byte) error {
	n, err := d.Write([]byte{c})
	if n == 0 && err == nil {
		err = io.ErrShortWrite
	}
	return err
}

func init() {
	register([]string{"C07"}, &Kind{
		Name: "destination",
		New:  func() any { return &dstScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &dstScenario{What: pick(r, []string{"enc-g", "enc-y", "writer-g", "writer-y", "print", "print", "generate"}), Type: r.N(len(genTypes)), Opt: r.P(30)}
			n := 1 + r.N(3)
			if r.P(12) && sc.What != "generate" {
				sc.Bulk = 200 + r.N(900)
				if r.P(10) {
					sc.Bulk *= 4
				}
			}
			for i := 0; i < n; i++ {
				var d *MNode
				for d == nil || d.size() < 2 {
					d = genDoc(r, false)
					if strings.HasPrefix(sc.What, "enc") {
						d = d.expand(d.resolve())
					}
				}
				sc.Docs = append(sc.Docs, d)
				f := dstFault{Mode: pick(r, []string{"error", "error", "short", "panic", "none"})}
				if i == n-1 && n > 1 {
					f.Mode = "none"
				}
				if r.P(50) {
					f.Kind = 1 + r.N(3)
				}
				if f.Mode == "error" {
					f.Err = r.N(16)
				}
				if f.Mode != "none" {
					f.Heal = r.P(40)
					if r.P(50) {
						f.Call = 1 + r.N(12)
						if r.P(30) {
							f.Call = 1
						}
						f.Limit = []int{0, 1, r.N(8), r.N(64), 1 << 20}[r.N(5)]
					} else {
						f.Limit = []int{0, r.N(10), r.N(80), r.N(2000), r.N(40000), r.N(1 + 60*sc.Bulk)}[r.N(6)]
					}
				}
				sc.Flt = append(sc.Flt, f)
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runDestination(sc.(*dstScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*dstScenario)
			var out []any
			for i := range s.Docs {
				if len(s.Docs) > 1 {
					c := *s
					c.Docs = append(append([]*MNode{}, s.Docs[:i]...), s.Docs[i+1:]...)
					c.Flt = append(append([]dstFault{}, s.Flt[:i]...), s.Flt[i+1:]...)
					out = append(out, &c)
				}
				for _, d := range shrinkDoc(s.Docs[i]) {
					c := *s
					c.Docs = append([]*MNode{}, s.Docs...)
					c.Docs[i] = d
					out = append(out, &c)
				}
				if s.Flt[i].Mode != "none" {
					c := *s
					c.Flt = append([]dstFault{}, s.Flt...)
					c.Flt[i] = dstFault{Mode: "none"}
					out = append(out, &c)
				}
				if l := s.Flt[i].Limit; l > 0 {
					for _, nl := range []int{0, l / 2, l - 1} {
						c := *s
						c.Flt = append([]dstFault{}, s.Flt...)
						c.Flt[i].Limit = nl
						out = append(out, &c)
					}
				}
			}
			if s.Bulk > 0 {
				c := *s
				c.Bulk = s.Bulk / 2
				out = append(out, &c)
			}
			return out
		},
	})
}

// types given to the code generator
type genA struct {
	X int               `yaml:"x"`
	Y string            `yaml:"y,omitempty"`
	M map[string][]genB `yaml:"m"`
	T time.Time
}
type genB struct {
	P  *genC2
	F  float64
	An any
}
type genC2 struct {
	genEmb
	L [2]bool
	I interface {
		MarshalYamly(yamly.Inserter)
		UnmarshalYamly(yamly.Decoder)
	}
}
type genEmb struct{ Q uint8 }
type genD struct{ S []string }

var genTypes = []any{genA{}, genB{}, genD{}, genC2{}}

func newGen(typ int, engine string, opt bool) *generator.Generator {
	g := generator.New("out.go")
	g.SetPkgName("main")
	g.SetPkgPath("simh/sim")
	if engine == "y" {
		g.SetEngineGenerator(yayamls.Generator)
	} else {
		g.SetEngineGenerator(goyaml.Generator)
	}
	g.SetOmitempty(opt)
	g.AddType(genTypes[typ])
	return g
}

// insertTree makes the inserter calls describing a tree without aliases.
func insertTree(ins yamly.Inserter, n *MNode) {
	switch n.K {
	case "n":
		ins.InsertNull()
	case "q":
		ins.StartSequence()
		for _, k := range n.Kids {
			insertTree(ins, k)
		}
		ins.EndSequence()
	case "m":
		ins.StartMapping()
		for _, k := range n.Kids {
			insertTree(ins, k)
		}
		ins.EndMapping()
	case "i":
		v, _ := strconv.ParseInt(n.V, 10, 64)
		ins.InsertInteger(v)
	case "u":
		v, _ := strconv.ParseUint(n.V, 10, 64)
		ins.InsertUnsigned(v)
	case "f":
		v, _ := strconv.ParseFloat(n.V, 64)
		ins.InsertFloat(v)
	case "b":
		ins.InsertBoolean(n.V == "true")
	case "t":
		ins.InsertTimestamp(parseTime(n.V))
	default:
		ins.InsertString(n.V)
	}
}

// producer writes documents; one object is used for all documents of a run.
type producer struct {
	what string
	enc  yamly.Encoder
	yw   *yencode.ASTWriter
	gw   *gencode.ASTWriter
	pr   *astprint.Printer
	typ  int
	opt  bool
}

func newProducer(sc *dstScenario) *producer {
	p := &producer{what: sc.What, typ: sc.Type, opt: sc.Opt}
	switch sc.What {
	case "enc-g":
		p.enc = yamly.NewEncoder[*yaml.Node](gencode.NewASTBuilder(), &gencode.ASTWriter{})
	case "enc-y":
		p.enc = yamly.NewEncoder[ast.Node](yencode.NewASTBuilder(), yencode.NewASTWriter())
	case "writer-g":
		p.gw = &gencode.ASTWriter{}
	case "writer-y":
		p.yw = yencode.NewASTWriter()
	case "print":
		p.pr = astprint.NewPrinter()
	}
	return p
}

func (p *producer) write(dst io.Writer, doc *MNode) error {
	switch p.what {
	case "enc-g", "enc-y":
		insertTree(p.enc, doc)
		return p.enc.EncodeTo(dst)
	case "writer-g":
		return p.gw.WriteTo(dst, doc.goyaml())
	case "writer-y":
		return p.yw.WriteTo(dst, doc.yayamls())
	case "print":
		return p.pr.Print(doc.yayamls(), dst)
	}
	engine := "g"
	if p.typ%2 == 1 {
		engine = "y"
	}
	return newGen(p.typ, engine, p.opt).Generate(dst)
}

func runDestination(sc *dstScenario, st *Stats) *Violation {
	limit := int64(80000000)
	for _, d := range sc.Docs { // written twice, by the printer with a pass over the text per level
		limit += 2*d.hangLimit(20) + 20000*int64(sc.Bulk)
	}
	zzv.BeginCount(limit)
	defer func() { st.Add("steps", zzv.EndCount()) }()
	shared := newProducer(sc)
	anyFired := false
	for i, doc := range sc.Docs {
		if sc.Bulk > 0 {
			big := &MNode{K: "q", Kids: []*MNode{doc}}
			for k := 0; k < sc.Bulk; k++ {
				big.Kids = append(big.Kids, &MNode{K: "s", V: fmt.Sprintf("filler %d with some length to it", k), Quoted: true})
			}
			doc = big
		}
		var whole bytes.Buffer
		if err := newProducer(sc).write(&whole, doc); err != nil {
			st.Inc("skipped_unwritable " + sc.What + " " + strconv.Itoa(sc.Type) + " " + firstLine(err.Error()))
			return nil
		}
		dst := &faultyDst{f: sc.Flt[i]}
		st.Inc("probe.destination_kind_" + strconv.Itoa(dst.f.Kind))
		var err error
		panicked := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ours := p.(writerPanic); !ours {
						panic(p)
					}
					panicked = true
				}
			}()
			err = shared.write(dst.as(), doc)
		}()
		if dst.fired {
			anyFired = true
			st.Inc("fault.write_" + sc.Flt[i].Mode)
			if sc.Flt[i].Heal {
				st.Inc("fault.transient")
			}
		}
		if dst.calls > 1 {
			st.Inc("probe.several_write_calls")
		}
		st.Log("%s %d/%d calls %d fired %v err %v panic %v", sc.What, len(dst.got), whole.Len(), dst.calls, dst.fired, err != nil, panicked)
		st.State(hashString(fmt.Sprintf("%s %v %d %d %v", sc.What, sc.Flt[i].Mode, min(dst.calls, 20), len(dst.got)*16/(whole.Len()+1), err != nil)))
		where := fmt.Sprintf("%s, document %d (%d bytes), destination %+v after %d calls", sc.What, i+1, whole.Len(), sc.Flt[i], dst.calls)
		if !bytes.HasPrefix(whole.Bytes(), dst.got) {
			return vio("not-a-prefix", "%s: accepted %s, a healthy destination receives %s", where, clip(dst.got), clip(whole.Bytes()))
		}
		complete := len(dst.got) == whole.Len()
		if err == nil && !panicked && !complete {
			return vio("loss-unreported", "%s: only %d bytes were accepted and no error was returned", where, len(dst.got))
		}
		if err != nil && !dst.fired {
			return vio("unexpected-error", "%s: %v", where, err)
		}
	}
	if !anyFired {
		st.Trivial()
	}
	return nil
}

func clip(b []byte) string {
	if len(b) > 200 {
		return strconv.Quote(string(b[:200])) + "..."
	}
	return strconv.Quote(string(b))
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
