package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
	"simh/models/cb"
)

// C03: an error stops a decoder for good.

type stickyScenario struct {
	readScenario
	At    int   `json:"at"`    // node (in reading order) at which the error happens; past the last one: at the end of the stream
	Kind  int   `json:"kind"`  // how
	After []int `json:"after"` // calls made afterwards
	Nils  []int `json:"nils"`  // nodes before which AddError(nil) is called
	User  int   `json:"user,omitempty"`
}

const (
	errWrongType = iota
	errAdded
	errOverflow
	errAlias
	errSubtreeAlias
	errNumber
	nErrKinds
)

var errKindNames = []string{"wrong_type", "user_error", "overflow", "bad_alias", "bad_alias_in_subtree", "number_out_of_range"}

var errStop = &Violation{Class: "stop"}

type userError struct{ id int }

func (e *userError) Error() string { return fmt.Sprintf("user error %d", e.id) }

// Unwrap makes some of the user's errors wrap errors the library or its dependencies use themselves.
func (e *userError) Unwrap() error { return cb.Special(e.id) }

func init() {
	register([]string{"C03"}, &Kind{
		Name: "sticky",
		New:  func() any { return &stickyScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &stickyScenario{}
			sc.Engine = pick(r, []string{"g", "y"})
			sc.Doc = genDoc(r, deep)
			sc.Text = []int{0, 0, 1, 2}[r.N(4)]
			for i := 0; i < sc.Doc.size()*2; i++ {
				sc.Choices = append(sc.Choices, []int{modeTyped, modeTyped, modeTyped, modeProbe, modeSkip, modeAny, modeNode, modeString, modeRaw, modeAny}[r.N(10)])
			}
			sc.At = r.N(sc.Doc.size() + 2)
			sc.Kind = r.N(nErrKinds)
			sc.User = r.N(16)
			for i := 0; i < 3+r.N(10); i++ {
				sc.After = append(sc.After, r.N(nAfter))
			}
			for i := 0; i < r.N(3); i++ {
				sc.Nils = append(sc.Nils, r.N(sc.Doc.size()))
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runSticky(sc.(*stickyScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*stickyScenario)
			var out []any
			for _, d := range shrinkDoc(s.Doc) {
				for _, at := range []int{s.At, max(0, s.At-1), max(0, s.At-2)} {
					c := *s
					c.Doc, c.At = d, at
					out = append(out, &c)
				}
			}
			for _, a := range shrinkSlice(s.After) {
				c := *s
				c.After = a
				out = append(out, &c)
			}
			for _, a := range shrinkSlice(s.Nils) {
				c := *s
				c.Nils = a
				out = append(out, &c)
			}
			for _, ch := range shrinkSlice(s.Choices) {
				c := *s
				c.Choices = ch
				out = append(out, &c)
			}
			return out
		},
	})
}

const nAfter = 16

func runSticky(sc *stickyScenario, st *Stats) *Violation {
	if !sc.Doc.valid() {
		st.Trivial()
		return nil
	}
	doc := sc.Doc
	if (sc.Kind == errAlias || sc.Kind == errSubtreeAlias) && sc.Engine == "y" {
		// the node at position At becomes an alias of an anchor that does not exist
		doc = doc.clone()
	}
	c := &cursor{sc: &sc.readScenario, st: st, env: map[string]string{}}
	var broken yamly.Decoder
	if sc.Kind == errNumber {
		doc = doc.clone()
		if !breakLeaf(doc, sc.At, hugeNumbers[sc.User%len(hugeNumbers)]) {
			st.Trivial()
			return nil
		}
		c.r, c.yr, c.gr = newReader(sc.Engine, doc, sc.Text, false, st)
		broken = c.r
	} else if doc != sc.Doc {
		// applied below, when the position is known not to be a key or to carry an anchor in use
		if !breakLeaf(doc, sc.At, MNode{K: "a", V: "nowhere"}) {
			st.Trivial()
			return nil
		}
		r := newBroken(doc)
		broken = r
		c.r, c.yr = r, r
	} else {
		c.r, c.yr, c.gr = newReader(sc.Engine, doc, sc.Text, false, st)
	}
	zzv.BeginCount(doc.hangLimit(2))
	defer func() { st.Add("steps", zzv.EndCount()) }()
	c.res = doc.resolve()
	if len(sc.After) == 0 {
		sc.After = []int{0}
	}
	nils := map[int]bool{}
	for _, n := range sc.Nils {
		nils[n] = true
	}
	seen := 0
	var first error
	user := &userError{sc.User}
	what := ""
	c.hook = func(n, d *MNode, isKey bool) *Violation {
		if nils[seen] {
			c.r.AddError(nil)
			st.Inc("fault.nil_error")
			if err := c.r.Error(); err != nil {
				return vio("nil-error", "AddError(nil) made Error() = %v", err)
			}
		}
		if broken != nil {
			if huge(d) {
				call := hugeCalls[d.K][sc.After[0]%len(hugeCalls[d.K])]
				what = fmt.Sprintf("call %d on %s", call, d.V)
				if v := doAfter(c, call, user); v != nil {
					v.Detail = "the failing read: " + v.Detail
					return v
				}
				if c.r.Error() == nil {
					return vio("error-lost", "%s: Error() = nil", what)
				}
				st.Inc("fault.number_out_of_range")
				return errStop
			}
			if n.K == "a" && n.V == "nowhere" {
				what = fmt.Sprintf("call %d on an alias without anchor", sc.After[0]%13)
				if v := doAfter(c, sc.After[0]%13, user); v != nil {
					v.Detail = "the failing read: " + v.Detail
					return v
				}
				if c.r.Error() == nil {
					return vio("error-lost", "%s: Error() = nil", what)
				}
				st.Inc("fault.bad_alias")
				return errStop
			}
			seen++
			return nil
		}
		if seen != sc.At {
			seen++
			return nil
		}
		seen++
		switch sc.Kind {
		case errAdded:
			c.r.AddError(user)
			what = "AddError"
			st.Inc("fault.user_error")
			if err := c.r.Error(); !errors.Is(err, user) {
				return vio("error-lost", "AddError(e): Error() = %v", err)
			}
			return errStop
		case errOverflow:
			if (d.K == "i" || d.K == "u") && (len(d.V) > 4 || d.V[0] == '-') {
				what = overflow(c.r, d.V, sc.After[0])
				if i := strings.Index(what, " = "); i >= 0 {
					return vio("non-zero", "the failing read returned a value: %s", what)
				}
				if c.r.Error() == nil {
					return vio("error-lost", "%s: Error() = nil", what)
				}
				st.Inc("fault.overflow")
				return errStop
			}
		}
		call := misfit(d, sc.Kind, seen)
		what = fmt.Sprintf("call %d on %s", call, d.K)
		if v := doAfter(c, call, user); v != nil {
			v.Detail = "the failing read: " + v.Detail
			return v
		}
		if err := c.r.Error(); !errors.Is(err, yamly.ErrDenied) {
			return vio("error-lost", "%s: a call that does not fit the node (%s), Error() = %v", what, d.canon(), err)
		}
		st.Inc("fault.wrong_type")
		return errStop
	}
	v := c.walk(doc, false)
	if v != nil && v != errStop {
		if v.Class == "nil-error" || v.Class == "error-lost" || v.Class == "non-zero" {
			return v
		}
		if broken != nil && c.r.Error() != nil {
			// the missing anchor was met inside a subtree read in one call
			what = "subtree with an alias without anchor or a number out of range"
			st.Inc("fault." + errKindNames[sc.Kind] + "_read_as_a_whole")
			v = errStop
		} else {
			return v
		}
	}
	if v == nil {
		what = fmt.Sprintf("end of stream met by call %d", sc.After[0]%13)
		if v := doAfter(c, sc.After[0]%13, user); v != nil {
			v.Detail = "the read past the end: " + v.Detail
			return v
		}
		if err := c.r.Error(); !errors.Is(err, yamly.ErrEndOfStream) {
			return vio("error-lost", "reading past the end: Error() = %v", err)
		}
		st.Inc("fault.end_of_stream")
	}
	first = c.r.Error()
	st.Log("error %s after %d nodes: %v", what, seen, first)
	st.State(hashString(fmt.Sprintf("%s%s%d%v%s", sc.Engine, what, len(c.open), sc.After, c.context(doc, false))))
	text := first.Error()
	check := func(after string) *Violation {
		err := c.r.Error()
		if err == nil || err.Error() != text {
			return vio("first-error-replaced", "first error %q (%s), but after %s Error() = %v", text, what, after, err)
		}
		for i, o := range c.open {
			if o.state.HasUnprocessedItems() {
				return vio("not-exhausted", "after error %q (%s) and %s the open collection %d (%s) still has unprocessed items", text, what, after, i, o.n.canon())
			}
		}
		return nil
	}
	if v := check("nothing"); v != nil {
		return v
	}
	for _, a := range sc.After {
		name := fmt.Sprintf("call %d", a)
		if v := doAfter(c, a, user); v != nil {
			return v
		}
		if v := check(name); v != nil {
			return v
		}
	}
	if errors.Is(first, user) != errors.Is(c.r.Error(), user) {
		return vio("first-error-replaced", "identity of the first error changed")
	}
	return nil
}

// misfit is a call that does not fit the node.
func misfit(d *MNode, a, b int) int {
	switch d.K {
	case "q":
		return []int{1, 2, 4, 8, 9, 10}[a%6]
	case "m":
		return []int{1, 2, 3, 8, 9, 10}[a%6]
	case "n":
		return []int{1, 2, 3, 4, 8, 9, 10}[(a+b)%7]
	case "s":
		if d.V == "" {
			return 3
		}
		return []int{1, 3, 4, 8, 9, 10}[(a+b)%6]
	}
	return []int{3, 4}[a%2]
}

// onlyOthers is a decoder whose Error leaves denials out.
type onlyOthers struct{ yamly.Decoder }

func (o onlyOthers) Error() error {
	err := o.Decoder.Error()
	if m, ok := err.(interface{ Unwrap() []error }); ok {
		for _, e := range m.Unwrap() {
			if !errors.Is(e, yamly.ErrDenied) {
				return e
			}
		}
		return nil
	}
	if errors.Is(err, yamly.ErrDenied) {
		return nil
	}
	return err
}

// Readers asked to collect denials: a denied call reads nothing and answers with a zero value, however many there are,
// and any other error stops the reader for good.

type denialScenario struct {
	readScenario
	Deny  []int `json:"deny"`  // calls per node that do not fit it
	Stop  int   `json:"stop"`  // node before which an error is added; past the last one: at the end of the stream
	After []int `json:"after"` // calls made afterwards
}

func init() {
	register([]string{"C03"}, &Kind{
		Name: "denials",
		New:  func() any { return &denialScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &denialScenario{}
			sc.Engine = pick(r, []string{"g", "y"})
			sc.Doc = genDoc(r, deep)
			sc.Text = []int{0, 0, 1, 2}[r.N(4)]
			for i := 0; i < sc.Doc.size()*2; i++ {
				sc.Choices = append(sc.Choices, []int{modeTyped, modeTyped, modeTyped, modeProbe, modeSkip, modeAny, modeNode, modeString}[r.N(8)])
				sc.Deny = append(sc.Deny, max(0, r.N(5)-2))
			}
			sc.Stop = r.N(sc.Doc.size() + 4)
			for i := 0; i < 3+r.N(6); i++ {
				sc.After = append(sc.After, r.N(nAfter))
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runDenials(sc.(*denialScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*denialScenario)
			var out []any
			for _, d := range shrinkDoc(s.Doc) {
				c := *s
				c.Doc = d
				out = append(out, &c)
			}
			for i, n := range s.Deny {
				if n > 0 {
					c := *s
					c.Deny = append([]int(nil), s.Deny...)
					c.Deny[i] = n - 1
					out = append(out, &c)
				}
			}
			for _, x := range shrinkSlice(s.Deny) {
				c := *s
				c.Deny = x
				out = append(out, &c)
			}
			for _, a := range shrinkSlice(s.After) {
				c := *s
				c.After = a
				out = append(out, &c)
			}
			for _, ch := range shrinkSlice(s.Choices) {
				c := *s
				c.Choices = ch
				out = append(out, &c)
			}
			return out
		},
	})
}

func runDenials(sc *denialScenario, st *Stats) *Violation {
	if !sc.Doc.valid() || len(sc.Deny) == 0 {
		st.Trivial()
		return nil
	}
	c := &cursor{sc: &sc.readScenario, st: st, env: map[string]string{}}
	var inner yamly.Decoder
	inner, c.yr, c.gr = newReader(sc.Engine, sc.Doc, sc.Text, true, st)
	c.r = onlyOthers{inner}
	c.res = sc.Doc.resolve()
	zzv.BeginCount(sc.Doc.hangLimit(2))
	defer func() { st.Add("steps", zzv.EndCount()) }()
	seen, denied := 0, 0
	known := ""
	user := &userError{1}
	c.hook = func(n, d *MNode, isKey bool) *Violation {
		if seen == sc.Stop {
			c.r.AddError(user)
			st.Inc("fault.user_error")
			return errStop
		}
		for i := 0; i < sc.Deny[seen%len(sc.Deny)]; i++ {
			call := misfit(d, sc.Stop+i, seen)
			if v := doAfter(c, call, user); v != nil {
				v.Detail = "a denied read at " + c.path + ": " + v.Detail
				return v
			}
			denied++
			st.Inc("fault.wrong_type")
			err := inner.Error()
			if !errors.Is(err, yamly.ErrDenied) {
				return vio("error-lost", "call %d on %s: Error() = %v", call, d.canon(), err)
			}
			if text := err.Error(); len(text) <= len(known) || !strings.Contains(text, known) {
				return vio("error-lost", "call %d on %s: Error() = %q after %d denied calls, before the last one it was %q", call, d.canon(), text, denied, known)
			} else {
				known = text
			}
			if err := c.r.Error(); err != nil {
				return vio("first-error-replaced", "call %d on %s: Error() = %v besides the denial", call, d.canon(), err)
			}
		}
		seen++
		return nil
	}
	v := c.walk(sc.Doc, false)
	var want error = user
	if v != errStop {
		if v != nil {
			return v
		}
		if denied > 0 && !errors.Is(inner.Error(), yamly.ErrDenied) {
			return vio("error-lost", "%d denied calls, Error() = %v at the end", denied, inner.Error())
		}
		callSome(c.r, sc.Stop%8)
		want = yamly.ErrEndOfStream
		st.Inc("fault.end_of_stream")
	}
	st.State(hashString(fmt.Sprint(sc.Engine, denied, len(c.open), sc.After)))
	first := inner.Error()
	if !errors.Is(first, want) || denied > 0 && !errors.Is(first, yamly.ErrDenied) || !strings.Contains(first.Error(), known) {
		return vio("error-lost", "Error() = %v, want %v and %d denials", first, want, denied)
	}
	st.Log("%d denied calls, then %v", denied, first)
	for _, a := range append([]int{0}, sc.After...) {
		if v := doAfter(c, a, user); v != nil {
			return v
		}
		if err := inner.Error(); err == nil || err.Error() != first.Error() {
			return vio("first-error-replaced", "error %q, but after call %d Error() = %v", first, a, err)
		}
		for i, o := range c.open {
			if o.state.HasUnprocessedItems() {
				return vio("not-exhausted", "after error %q and call %d the open collection %d (%s) still has unprocessed items", first, a, i, o.n.canon())
			}
		}
	}
	return nil
}

// doAfter performs a read; with user set it also demands a zero result.
func doAfter(c *cursor, call int, user error) *Violation {
	r := c.r
	bad := func(name string, v any) *Violation {
		if user == nil {
			return nil
		}
		return vio("non-zero", "%s after an error = %v", name, v)
	}
	coll := func(name string, s yamly.CollectionState) *Violation {
		if user == nil {
			return nil
		}
		if s == nil {
			return vio("nil-state", "%s after an error returned nil", name)
		}
		if s.HasUnprocessedItems() || s.Size() != 0 {
			return vio("not-exhausted", "%s after an error reports size %d, unprocessed items %v", name, s.Size(), s.HasUnprocessedItems())
		}
		return nil
	}
	switch call {
	case 0:
		if r.TryNull() {
			return bad("TryNull", true)
		}
	case 1:
		if v := r.Integer(64); v != 0 {
			return bad("Integer", v)
		}
	case 2:
		if v := r.String(); v != "" {
			return bad("String", v)
		}
	case 3:
		return coll("Sequence", r.Sequence())
	case 4:
		return coll("Mapping", r.Mapping())
	case 5:
		if v := r.Any(); v != nil {
			return bad("Any", v)
		}
	case 6:
		if v := r.Raw(); v != nil {
			return bad("Raw", v)
		}
	case 7:
		r.Skip()
	case 8:
		if v := r.Boolean(); v {
			return bad("Boolean", v)
		}
	case 9:
		if v := r.Float(64); v != 0 {
			return bad("Float", v)
		}
	case 10:
		if v := r.Timestamp(); !v.IsZero() {
			return bad("Timestamp", v)
		}
	case 11:
		if v := r.Unsigned(64); v != 0 {
			return bad("Unsigned", v)
		}
	case 12:
		if c.yr != nil {
			if v := c.yr.Node(); v != nil {
				return bad("Node", v)
			}
		} else if v := c.gr.Node(); v != nil {
			return bad("Node", v)
		}
	case 13:
		r.AddError(nil)
	case 14:
		r.AddError(&userError{-2})
	case 15:
		r.AddError(yamly.ErrEndOfStream)
	}
	return nil
}

// overflow reads a number with a width it does not fit in; " = " in the answer: a value was returned.
func overflow(r yamly.Decoder, text string, how int) string {
	if text[0] == '-' {
		if how%2 == 0 || len(text) <= 4 {
			if v := r.Unsigned(64); v != 0 {
				return fmt.Sprintf("Unsigned(64) of %s = %d", text, v)
			}
			return "Unsigned(64) of " + text
		}
	} else if len(text) > 18 && how%3 == 0 {
		bits := 32
		if v := r.Unsigned(bits); v != 0 {
			return fmt.Sprintf("Unsigned(%d) of %s = %d", bits, text, v)
		}
		return fmt.Sprintf("Unsigned(%d) of %s", bits, text)
	} else if how%3 == 1 {
		if v := r.Unsigned(8); v != 0 {
			return fmt.Sprintf("Unsigned(8) of %s = %d", text, v)
		}
		return "Unsigned(8) of " + text
	}
	if v := r.Integer(8); v != 0 {
		return fmt.Sprintf("Integer(8) of %s = %d", text, v)
	}
	return "Integer(8) of " + text
}

// breakAlias turns the value node at a position into an alias of an unknown anchor.
// breakLeaf replaces a leaf.
func breakLeaf(doc *MNode, at int, by MNode) bool {
	i := 0
	done := false
	used := map[string]bool{}
	var aliases func(n *MNode)
	aliases = func(n *MNode) {
		if n.K == "a" {
			used[n.V] = true
		}
		for _, k := range n.Kids {
			aliases(k)
		}
	}
	aliases(doc)
	var walk func(n *MNode, key bool)
	walk = func(n *MNode, key bool) {
		if i >= at && !done && !key && len(n.Kids) == 0 && (n.Anchor == "" || !used[n.Anchor]) {
			*n = by
			done = true
		}
		i++
		for j, k := range n.Kids {
			walk(k, n.K == "m" && j%2 == 0)
		}
	}
	walk(doc, false)
	return done
}

// numbers no Go number can hold, and the calls that have to fail on them
var (
	hugeNumbers = []MNode{{K: "u", V: "99999999999999999999999"}, {K: "i", V: "-99999999999999999999999"}, {K: "f", V: "1e999"}, {K: "f", V: "-2.5e1000"}}
	hugeCalls   = map[string][]int{"u": {1, 5, 11}, "i": {1, 5, 11}, "f": {5, 9}}
)

func huge(n *MNode) bool {
	for _, h := range hugeNumbers {
		if n.K == h.K && n.V == h.V {
			return true
		}
	}
	return false
}

func newBroken(doc *MNode) *ydecode.ASTReader { return ydecode.NewASTReader(doc.yayamls()) }
