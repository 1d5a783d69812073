package main

import (
	"fmt"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"
)

// C15: the checkpointing accessor refines a list with a cursor.

type cpScenario struct {
	// N next, S set checkpoint, R rollback, C commit, X next stream (SetStream),
	// Z reset and next stream, P next with the stream panicking if asked
	Ops string `json:"ops"`
}

type cpStream struct {
	base  int
	asked int
	fail  bool
}

type streamPanic struct{}

func (s *cpStream) Next() int {
	if s.fail {
		panic(streamPanic{})
	}
	s.asked++
	return s.base + s.asked
}

func init() {
	register([]string{"C15"}, &Kind{
		Name: "accessor",
		New:  func() any { return &cpScenario{} },
		Gen: func(r *Rand, deep bool) any {
			n := 3 + r.N(40)
			if r.P(15) {
				n = 60 + r.N(200)
			}
			// swarm: each run has its own mix
			w := map[byte]int{'N': 20 + r.N(60), 'S': 5 + r.N(30), 'R': 3 + r.N(25), 'C': 3 + r.N(25)}
			if r.P(40) {
				w['X'] = 1 + r.N(6)
			}
			if r.P(30) {
				w['Z'] = 1 + r.N(4)
			}
			if r.P(50) {
				w['P'] = 2 + r.N(20)
			}
			total := 0
			keys := []byte("NSRCXZP")
			for _, k := range keys {
				total += w[k]
			}
			b := make([]byte, n)
			for i := range b {
				x := r.N(total)
				for _, k := range keys {
					if x -= w[k]; x < 0 {
						b[i] = k
						break
					}
				}
			}
			return &cpScenario{string(b)}
		},
		Run: func(sc any, st *Stats) *Violation { return runAccessor(sc.(*cpScenario), st) },
		Shrink: func(sc any) []any {
			var out []any
			for _, b := range shrinkSlice([]byte(sc.(*cpScenario).Ops)) {
				out = append(out, &cpScenario{string(b)})
			}
			return out
		},
	})
}

func runAccessor(sc *cpScenario, st *Stats) *Violation {
	acc := cpaccessor.NewCheckpointingAccessor[int]()
	base := 0
	stream := &cpStream{base: base}
	acc.SetStream(stream)
	pos, fetched := 0, 0
	var stack []int
	hist := ""
	for i := 0; i < len(sc.Ops); i++ {
		op := sc.Ops[i]
		where := fmt.Sprintf("call %d (%c) of %q", i, op, sc.Ops)
		switch op {
		case 'N', 'P':
			stream.fail = op == 'P'
			needs := pos == fetched
			var got int
			var panicked any
			func() {
				defer func() { panicked = recover() }()
				got = acc.Next()
			}()
			stream.fail = false
			if panicked != nil {
				if _, ours := panicked.(streamPanic); !ours || !needs {
					if !ours {
						return vio("panic", "%s: %v", where, panicked)
					}
					return vio("extra-request", "%s: the stream was asked although the element had been read before", where)
				}
				st.Inc("fault.stream_panic")
				st.Log("%c!", op)
				hist += "!"
				continue
			}
			if op == 'P' && needs {
				return vio("no-request", "%s: the stream was not asked for a new element", where)
			}
			if needs {
				fetched++
			}
			pos++
			if want := base + pos; got != want {
				return vio("wrong-element", "%s: Next() = %d, want %d", where, got, want)
			}
			st.Log("N%d", got-base)
		case 'S':
			acc.SetCheckpoint()
			stack = append(stack, pos)
			st.Log("S")
		case 'R':
			got := acc.Rollback()
			if len(stack) > 0 {
				pos = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if pos > 0 && got != base+pos {
					return vio("wrong-rollback", "%s: Rollback() = %d, want %d", where, got, base+pos)
				}
				st.Inc("probe.rollback")
			}
			st.Log("R%d", pos)
		case 'C':
			acc.Commit()
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
				st.Inc("probe.commit")
			}
			st.Log("C")
		case 'X', 'Z':
			base += 1000000
			stream = &cpStream{base: base}
			if op == 'Z' {
				acc.Reset()
			}
			acc.SetStream(stream)
			pos, fetched, stack = 0, 0, nil
			st.Inc("probe.restream")
			st.Log("X")
		}
		if stream.asked != fetched {
			return vio("requests", "%s: stream was asked %d times, want %d", where, stream.asked, fetched)
		}
		if len(stack) >= 2 {
			st.Inc("probe.nested_checkpoint")
		}
		st.Inc("ops")
		// state: relative position to buffer end and checkpoints
		hist = fmt.Sprintf("%d/%d/%v", fetched-pos, len(stack), relative(stack, pos))
		st.State(hashString(fmt.Sprintf("%c%s", op, hist)))
	}
	if fetched == 0 {
		st.Trivial()
	}
	// drain: everything must still be delivered in order
	for k := 0; k < 3; k++ {
		if pos == fetched {
			fetched++
		}
		pos++
		if got := acc.Next(); got != base+pos {
			return vio("wrong-element", "draining after %q: Next() = %d, want %d", sc.Ops, got, base+pos)
		}
	}
	return nil
}

func relative(stack []int, pos int) []int {
	out := make([]int, 0, len(stack))
	for _, s := range stack {
		out = append(out, s-pos)
	}
	return out
}
