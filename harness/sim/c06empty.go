package main

import (
	"errors"

	"github.com/KSpaceer/yamly"
	gdecode "github.com/KSpaceer/yamly/engines/goyaml/decode"
	ydecode "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"

	zzv "github.com/KSpaceer/yamly/zzverifsched"
)

// C06: a source without any document has no node: whatever is called first reports the end of the stream.

type emptyScenario struct {
	Engine  string `json:"engine"` // g or y
	Text    string `json:"text"`
	Collect bool   `json:"collect,omitempty"`
	Calls   []int  `json:"calls"`
}

func init() {
	register([]string{"C06"}, &Kind{
		Name: "empty",
		New:  func() any { return &emptyScenario{} },
		Gen: func(r *Rand, deep bool) any {
			sc := &emptyScenario{Engine: pick(r, []string{"g", "y"}), Collect: r.P(30)}
			for i := 0; i < r.N(4); i++ {
				sc.Text += pick(r, []string{"\n", "# comment\n", "  # indented\n", "   \n"})
			}
			for i := 0; i < 1+r.N(6); i++ {
				sc.Calls = append(sc.Calls, r.N(nAfter))
			}
			return sc
		},
		Run: func(sc any, st *Stats) *Violation { return runEmpty(sc.(*emptyScenario), st) },
		Shrink: func(sc any) []any {
			s := sc.(*emptyScenario)
			var out []any
			if s.Text != "" {
				c := *s
				c.Text = ""
				out = append(out, &c)
			}
			if s.Collect {
				c := *s
				c.Collect = false
				out = append(out, &c)
			}
			for _, calls := range shrinkSlice(s.Calls) {
				c := *s
				c.Calls = calls
				out = append(out, &c)
			}
			return out
		},
	})
}

func runEmpty(sc *emptyScenario, st *Stats) (v *Violation) {
	c := &cursor{st: st}
	zzv.BeginCount(1000000)
	defer func() { st.Add("steps", zzv.EndCount()) }()
	if sc.Engine == "g" {
		var n yaml.Node
		if err := yaml.Unmarshal([]byte(sc.Text), &n); err != nil || n.Kind != 0 {
			st.Trivial()
			return nil
		}
		var opts []gdecode.ReaderOption
		if sc.Collect {
			opts = append(opts, gdecode.WithMultipleDenyErrors())
		}
		c.gr = gdecode.NewASTReader(&n, opts...)
		c.r = c.gr
	} else {
		var opts []ydecode.ReaderOption
		if sc.Collect {
			opts = append(opts, ydecode.WithMultipleDenyErrors())
		}
		yr, err := ydecode.NewASTReaderFromBytes([]byte(sc.Text), opts...)
		if err != nil {
			st.Trivial()
			return nil
		}
		c.yr, c.r = yr, yr
	}
	var first error
	for i, call := range sc.Calls {
		if first == nil {
			if call == 14 {
				return nil // nothing about the end of the stream
			}
			if sc.Engine == "y" && (call == 6 || call == 7 || call == 12) {
				continue // takes the whole (empty) stream
			}
		}
		if v := doAfter(c, call, errDisk); v != nil {
			return v
		}
		err := c.r.Error()
		if call == 13 && first == nil {
			if err != nil {
				return vio("unexpected-error", "AddError(nil) set %v", err)
			}
			continue
		}
		if first != nil && (err == nil || err.Error() != first.Error()) || first == nil && !errors.Is(err, yamly.ErrEndOfStream) {
			return vio("no-end", "call %d (%d) on a source without documents: Error() = %v", i+1, call, err)
		}
		first = err
	}
	st.Inc("probe.empty_source")
	st.State(hashString(sc.Engine + sc.Text + string(rune('a'+len(sc.Calls)))))
	st.Log("%s %q %v: %v", sc.Engine, sc.Text, sc.Calls, first)
	return nil
}
