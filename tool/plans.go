package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"sync"
	"time"
)

var plans map[string]*plan

func init() { plans = planTable() }

func planTable() map[string]*plan {
	return map[string]*plan{
		"C15": {
			id: "C15", runner: "sim", quick: 45, thorough: 300, level: "exploration",
			rule:    "seeded call sequences (next, checkpoint, rollback, commit, new stream, stream panic) with a per-run mix; every call is compared with a list-and-cursor model",
			measure: "distinct (call, elements buffered ahead, checkpoint positions relative to the cursor) states",
			real:    []string{"engines/yayamls/pkg/cpaccessor"},
			stub:    []string{"the element stream (numbers its elements and counts requests; panics on demand)"},
			assume:  []string{"the value of a rollback without any checkpoint, or to before the first element, is unspecified and not compared"},
		},
		"C17": {
			id: "C17", runner: "sim", quick: 45, thorough: 600, level: "exploration",
			rule:    "seeded pairs of trees (equal, or differing in one text, kind, quoting style or in where a child hangs) and a seeded schedule of all goroutines the comparison starts (random, sticky, or starving one goroutine), one step per statement; non-trivial: at least four nodes; distinct by schedule and outcome",
			measure: "distinct goroutine schedules (sequence of chosen goroutines)",
			real:    []string{"engines/yayamls/ast/astcmp", "engines/yayamls/ast", "the Go channel and goroutine implementation"},
			stub:    []string{"the goroutine scheduler (every runnable goroutine waits for the controller before each statement)"},
			assume:  []string{"goroutines interact only at statement boundaries and channel operations", "trees have no absent children (as the parser and builder produce them), except possibly the very last value in visiting order"},
		},
		"C07": {
			id: "C07", runner: "sim", quick: 45, thorough: 600, level: "exploration",
			rule:    "seeded documents written one after another by the same encoder, tree writer, printer or code generator to a destination that errors, writes short silently or panics at a seeded call or byte, for good or once; non-trivial: a destination fault fired",
			measure: "distinct (component, fault kind, number of write calls, sixteenth of the document reached, outcome)",
			real:    []string{"encode.go", "engines/goyaml/encode", "engines/yayamls/encode", "engines/yayamls/ast/astprint", "generator", "gopkg.in/yaml.v3"},
			stub:    []string{"the destination io.Writer"},
			assume:  []string{"what happens when a failed EncodeTo is called again without inserting anything is unspecified"},
		},
		"C09": {
			id: "C09", runner: "sim", race: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "one seeded tree (built or parsed) used by two or three tasks, each reading it with a seeded mix of calls, writing, printing or comparing it; tasks run one after the other or interleaved at statement granularity by a seeded scheduler, with the race detector seeing no synchronisation between them",
			measure: "distinct interleavings (lists of preemptions)",
			real:    []string{"engines/goyaml/decode", "engines/goyaml/encode", "engines/yayamls/decode", "engines/yayamls/encode", "engines/yayamls/ast", "engines/yayamls/ast/astprint", "engines/yayamls/ast/astcmp", "engines/yayamls/parser", "gopkg.in/yaml.v3", "Go race detector"},
			stub:    []string{"the scheduler of the calling goroutines", "sync.Pool, sync.Mutex, sync.RWMutex and sync.Once of the code under test"},
			assume:  []string{"tasks are preempted between statements of the module under test, not inside gopkg.in/yaml.v3", "goroutines the comparator starts run under the Go scheduler (C17 controls them)"},
		},
		"C06": {
			id: "C06", runner: "sim", models: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded documents (built trees and parsed texts, block and flow, anchors and aliases) read by both engines' readers with a seeded mix of call modes per node (typed, probed, skipped, raw, any, node, partially read collections); every answer is compared with a cursor over the document model; non-trivial: at least three nodes read",
			measure: "distinct (engine, node kind, call mode, enclosing collections, previous call mode) contexts",
			real:    []string{"engines/goyaml/decode", "engines/yayamls/decode", "engines/yayamls/parser and lexer (parsed documents)", "gopkg.in/yaml.v3"},
			stub:    []string{"nothing; sync primitives and sync.Pool of the module are simulated"},
			assume:  []string{"skip, raw, any and node calls at the key position of a mapping, and streams of several documents, are outside the model"},
		},
		"C04": {
			id: "C04", runner: "sim", models: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded documents and values for seven model types per engine (structs, embedded structs, pointers, slices, arrays, maps, interfaces with user callbacks at every position), decoded and encoded through code generated by the generator under test, with callbacks failing at seeded nodes; compared with an interpreter of the types; non-trivial: the document has at least one node",
			measure: "distinct (model, first error, number of callbacks, value size class)",
			real:    []string{"generator (run for the models at build time)", "cmd/yamlygen", "generated code", "engines/goyaml", "engines/yayamls", "gopkg.in/yaml.v3"},
			stub:    []string{"the user's (un)marshaling methods"},
			assume:  []string{"after the first failing method others may still be called, with nothing to read"},
		},
		"C03": {
			id: "C03", runner: "sim", models: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded documents read until a seeded error (call that does not fit, overflow, error added by the user, dangling alias, end of stream), followed by seeded further calls; after each the first error, zero results and exhausted collection states are demanded under a step bound",
			measure: "distinct (engine, error cause, nesting, calls afterwards)",
			real:    []string{"engines/goyaml/decode", "engines/yayamls/decode", "engines/yayamls/parser", "gopkg.in/yaml.v3"},
			stub:    []string{"nothing; sync primitives and sync.Pool of the module are simulated"},
			assume:  []string{"decoding loops of readers that collect denials are outside the model (such a reader stays where it is)"},
		},
		"C01": {
			id: "C01", runner: "sim", race: true, models: true, quick: 45, thorough: 1200, level: "exploration", catalog: [2]int{2000, 8000}, prepare: baselines,
			rule:    "seeded pairs to quadruples of tasks, each a seeded list of catalog operations (parsing, reading, building, encoding, writing, printing, comparing, generating, generated code; some of them failing or panicking), interleaved at statement granularity by a seeded scheduler while a simulated pool hands out used objects as often as possible; every observation is compared with the one made by the operation alone in a process of its own; the race detector sees no synchronisation between the tasks; non-trivial: at least two operations",
			measure: "distinct interleavings (lists of preemptions)",
			real:    []string{"encode.go", "engines/goyaml", "engines/yayamls", "generator", "generated code", "gopkg.in/yaml.v3", "Go race detector"},
			stub:    []string{"the scheduler of the calling goroutines", "sync.Pool, sync.Mutex, sync.RWMutex and sync.Once of the code under test", "destinations, token sources and the user's (un)marshaling methods"},
			assume:  []string{"tasks are preempted between statements of the module under test and of the generated code, not inside gopkg.in/yaml.v3 or the standard library"},
		},
		"C02": {
			id: "C02", runner: "sim", models: true, quick: 45, thorough: 900, level: "exploration", catalog: [2]int{4000, 16000}, prepare: baselines,
			rule:    "seeded histories of catalog operations (successful, failing, aborted by a panic of a token source, destination or callback, or abandoned), with long-lived writers, printers, encoders and comparators reused where the caller may; every observation is compared with the one the operation makes as the only operation of a process of its own, and all retained results are looked at again at the end; non-trivial: at least one operation failed, panicked or was abandoned",
			measure: "distinct (operation and its outcome, operation and outcome before it)",
			real:    []string{"encode.go", "engines/goyaml", "engines/yayamls", "generator", "generated code", "gopkg.in/yaml.v3"},
			stub:    []string{"destinations, token sources and the user's (un)marshaling methods", "sync.Pool (hands out used objects as often as possible)"},
			assume:  []string{"an encoder, writer or printer that was in use when a user's panic went through it is not used again (C07 covers destinations that panic)"},
		},
		"C08": {
			id: "C08", runner: "sim", models: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded operations (parsing, reading, building, encoding, writing, generated code, printing, comparing, generating), each executed twice: undisturbed, and with every caller-owned buffer overwritten (including spare capacity) as soon as the call it was handed to or returned by has ended; observations must agree, inputs must stay unmodified, and all retained results are looked at again after the later operations; non-trivial: at least one result retained",
			measure: "distinct (operation, engine, variant, number of inputs and retained results, panicked)",
			real:    []string{"encode.go", "engines/goyaml", "engines/yayamls", "generated code", "generator", "gopkg.in/yaml.v3"},
			stub:    []string{"destinations, token sources and the user's (un)marshaling methods"},
			assume:  []string{"bytes handed to UnmarshalText are only valid during the call, as encoding.TextUnmarshaler says"},
		},
		"C13": {
			id: "C13", runner: "sim", race: true, shim: true, quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded lookups of twenty-three directories (seven modules - nested, quoted and commented module lines, below GOPATH -, packages without module in either of two GOPATH entries, and directories that have no package path; excluded, torn and test files; relative, unclean and symlinked spellings) by one to three tasks interleaved at statement granularity, while the environment removes, empties or replaces go.mod files, tears a source file, breaks the go command (exit status, killed, partial or no output, missing binary) and heals all that at seeded moments; lookups not overlapping a relevant fault must be right, others right or an error, and after healing everything must be right; non-trivial: at least two lookups",
			measure: "distinct interleavings (lists of preemptions)",
			real:    []string{"generator/parser", "os/exec, go/parser and go/build of the standard library", "a real file tree per run", "Go race detector"},
			stub:    []string{"the go command (a stand-in that answers \"go env GOMOD\" like the real one, or fails as told)", "the scheduler of the calling goroutines", "sync.RWMutex and sync.Mutex of the code under test"},
			assume:  []string{"a go.mod file keeps its content once a lookup succeeded", "a module's own go.mod is not missing while an outer module has one"},
		},
		"C10": {
			id: "C10", runner: "gen", quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded requests (packages that can and cannot be generated code for, all options, six ways to name the directory, seven kinds of earlier output) run by the real generator command, with one to three faults at seeded file-system calls and child processes: errno, short transfer, write lost at close, full disk, read-only file system, no file descriptors, failing, killed or half-done child; afterwards exit status and all files are compared with those before and with an undisturbed run; non-trivial: a fault fired",
			measure: "distinct (request, fired faults, exit status, earlier output)",
			real:    []string{"cmd/yamlygen", "generator/parser", "generator/bootstrap", "generator and engines inside the real bootstrap child (go run)", "the file system"},
			stub:    []string{"\"go env GOMOD\" (answered by the simulator)", "outcome of a child process identical to an earlier one (same arguments and sources) is played back"},
			assume:  []string{"a failing call has no effect, except close (the file is closed) and short transfers", "child processes write their standard output without faults of their own, or fail as a whole"},
		},
		"C11": {
			id: "C11", runner: "gen", quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded requests run by the real generator command and killed (SIGKILL) one to three times before, after or inside (torn write) a seeded file-system call or child start, with seven kinds of earlier output and the same or other random names for temporary files; after each death and after the undisturbed rerun (and a run for another type) all files are compared; non-trivial: the process died",
			measure: "distinct (request, point of death, earlier output, number of files left)",
			real:    []string{"cmd/yamlygen", "generator/parser", "generator/bootstrap", "generator and engines inside the real bootstrap child (go run)", "the file system"},
			stub:    []string{"\"go env GOMOD\" (answered by the simulator)", "outcome of a child process identical to an earlier one (same arguments and sources) is played back"},
			assume:  []string{"a killed process's completed file operations survive (process death, not power loss)"},
		},
		"C12": {
			id: "C12", runner: "sim", alsoGen: true, quick: 45, thorough: 900, level: "exploration", catalog: [2]int{1, 1}, prepare: genBaselines,
			rule:    "in-process: seeded sequences of generations for thirteen types (colliding function names and import aliases, embedded, anonymous, recursive and unsupported types) with both engines and all options, under seeded map iteration orders and hash seeds, after failing, panicking and earlier generations, in other working directories, compared with the code generated as the only act of a process of its own; processes: the real generator command in directories with seeded earlier outputs, leftovers, test and excluded files, named in six ways, under seeded map orders and temporary names",
			measure: "distinct (type, engine, options, map order class, fault, outcome before) in-process; distinct (request, earlier output, unrelated files, directory spelling) for processes",
			real:    []string{"generator", "engines/goyaml and engines/yayamls code generators", "cmd/yamlygen", "generator/parser", "generator/bootstrap", "the real bootstrap child (go run)"},
			stub:    []string{"the runtime's random numbers (map iteration start, hash seeds)", "the destination io.Writer", "\"go env GOMOD\" (answered by the simulator)", "outcome of a child process identical to an earlier one (same arguments and sources) is played back"},
			assume:  []string{"types of a package do not change between runs and do not get other methods from other outputs of the generator"},
		},
		"C16": {
			id: "C16", runner: "gen", quick: 45, thorough: 900, level: "exploration",
			rule:    "two to four real generator processes for independent types (sometimes the same one) of one package, sharing package and temporary directory and sometimes all random names, interleaved by a seeded scheduler at every file-system call and child start; sometimes one of them meets a fault or is killed; all others must succeed and all files must be as after runs on their own",
			measure: "distinct interleavings of the processes' calls",
			real:    []string{"cmd/yamlygen", "generator/parser", "generator/bootstrap", "generator and engines inside the real bootstrap child (go run)", "the file system"},
			stub:    []string{"the operating system's scheduler", "\"go env GOMOD\" (answered by the simulator)", "outcome of a child process identical to an earlier one (same arguments and sources) is played back"},
			assume:  []string{"a child process reads the package at the moment it is started", "types do not refer to each other (otherwise the code legitimately depends on which methods exist already)"},
		},
		"C05": {
			id: "C05", runner: "sim", quick: 45, thorough: 900, level: "exploration",
			rule:    "seeded histories of inserter calls over several documents on one builder or encoder, with misuse (wrong end, missing value, unparsable raw data, user errors, calls after the root) at seeded points; results are compared with an executable tree model",
			measure: "distinct (component, open collections, pending key, call) states",
			real:    []string{"encode.go", "engines/goyaml/encode", "engines/yayamls/encode", "engines/yayamls/parser", "gopkg.in/yaml.v3"},
			stub:    []string{"nothing; sync primitives and sync.Pool of the module are simulated"},
			assume:  []string{"the result while collections are still open may be an error or the tree so far", "raw insertion of empty input is unspecified"},
		},
	}
}

// baselines executes every operation of the catalog in a process of its own.
func baselines(e *Env, sim string, seed uint64, n int) (string, error) {
	recs := make([]json.RawMessage, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			out, stderr, err := simProc(ctx, sim, nil, "baseline", fmt.Sprint(seed), fmt.Sprint(i))
			if err != nil {
				errs[i] = fmt.Errorf("operation %d: %w\n%s", i, err, tail(stderr, 2000))
			}
			recs[i] = out
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return "", err
	}
	b, err := json.Marshal(map[string]any{"seed": seed, "want": recs})
	if err != nil {
		return "", err
	}
	return e.write("catalog.json", string(b))
}

// genBaselines generates the code of every type with every option in a process of its own.
func genBaselines(e *Env, sim string, _ uint64, _ int) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	raw, stderr, err := simProc(ctx, sim, nil, "genbaselines")
	if err != nil {
		return "", fmt.Errorf("%w\n%s", err, tail(stderr, 2000))
	}
	n, err := strconv.Atoi(string(raw))
	if err != nil {
		return "", err
	}
	want := map[string]string{}
	var mu sync.Mutex
	var errs []error
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			out, stderr, err := simProc(ctx, sim, nil, "genbaseline", strconv.Itoa(i))
			var rec struct{ Key, Out string }
			if err == nil {
				err = json.Unmarshal(out, &rec)
			}
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				errs = append(errs, fmt.Errorf("generation %d: %w\n%s", i, err, tail(stderr, 2000)))
			}
			want[rec.Key] = rec.Out
		}()
	}
	wg.Wait()
	if err := errors.Join(errs...); err != nil {
		return "", err
	}
	b, err := json.Marshal(want)
	if err != nil {
		return "", err
	}
	return e.write("generated.json", string(b))
}
