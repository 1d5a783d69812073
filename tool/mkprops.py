import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
Y="engines/yayamls/"; G="engines/goyaml/"
p("C01","Independent concurrent uses never affect each other",
 "When several goroutines each use their own readers, builders, encoders, writers, parsers, code generators and generated (un)marshalers (sharing only inputs nobody modifies), every call returns exactly what it returns when its goroutine runs alone. This holds under every interleaving and whatever internally pooled objects are handed out again, and no data race occurs.",
 ["schedules","histories"],"all interleavings (at statement granularity) of any number of goroutines performing any library operations, and every reuse/discard decision of internal object pools",
 "Existing tests run cases with t.Parallel on whatever interleaving the runtime happens to produce, never under a controlled schedule, and pooled objects are almost never reused across differing operations in one run.",
 [Y+"parser/parser.go",Y+"parser/token_source.go",Y+"lexer/tokenizer.go",Y+"decode/reader.go",Y+"encode/writer.go",Y+"encode/builder.go",G+"decode/reader.go",G+"encode/builder.go","generator/generator.go","encode.go"],
 [("sync.Pool of buffers/parsers/token accessors, reset on reuse",Y+"parser/parser.go, "+Y+"parser/token_source.go, "+Y+"lexer"),("no other package-level mutable state","all packages")],
 [("pools","objects handed from one operation to the next",Y+"parser"),])
p("C02","Failed, panicked or abandoned operations never affect later ones",
 "Every operation's result (value, error, produced bytes) depends only on its own inputs: it equals the result in a fresh process, no matter which operations - successful, failed with an error, aborted by a panic of a user-supplied callback, writer or token source, or abandoned half way - ran before it in the process. Results returned earlier also never change because of later operations.",
 ["histories","fault_sequences"],"all sequences of library operations in one process, with parse errors, destination errors, user-code errors and panics, and abandonment injected at any point",
 "Tests start each case from fresh objects and never continue after a failure or a recovered panic; state leaking through reused internals is invisible to them.",
 [Y+"parser/parser.go",Y+"parser/token_source.go",Y+"parser/internal/balancecheck/balancecheck.go",Y+"parser/internal/deadend/finder.go",Y+"pkg/cpaccessor/accessor.go",Y+"encode/writer.go",Y+"encode/builder.go",G+"encode/builder.go","encode.go",Y+"parser/flow.go",Y+"parser/block.go"],
 [("reset of parser/accessor/buffer before or after reuse",Y+"parser"),("Result() drains the builder even on error",Y+"encode/builder.go, "+G+"encode/builder.go")])
p("C03","After the first decoding error nothing more is read, and decoding stops",
 "Once a decoder has stored an error, Error() keeps reporting that first error, the read that failed and every further read return a zero value, and every collection state - already open or newly requested - reports no unprocessed items, so each decoding loop (handwritten or generated) terminates; custom unmarshalers are not handed an absent node. Adding a nil error changes nothing. (A reader created to collect several denials instead goes on after a denied read, which returns a zero value and consumes nothing, and Error() reports every denial; any other error stops it in the same way.)",
 ["histories","inputs","fault_sequences"],"all sequences of decoder calls with an error (type mismatch, overflow, unknown field, bad alias, error added by user code, end of stream) occurring at any call, both engines",
 "Tests check that one wrong call yields an error; what happens in the calls after it, at every position of nested collections, is not exercised, and non-termination cannot be observed by a passing test.",
 [Y+"decode/reader.go",G+"decode/reader.go","generator/decoder.go",Y+"engine.go",G+"engine.go"],
 [("fatal error field checked by every accessor; open iterators are exhausted",Y+"decode/reader.go, "+G+"decode/reader.go"),("generated loops poll HasUnprocessedItems","generator/decoder.go")])
p("C04","Errors of user (un)marshaling callbacks are never lost",
 "When any user-supplied (un)marshaling method taking part in an operation (yamly, engine-specific or text (un)marshaler, at any nesting: struct field, pointer, slice, array, map key or value, embedded struct) fails, the whole operation returns an error that matches the first such error by errors.Is, and marshaling returns no document. Methods that succeed are each called for exactly their own node and do not disturb the other fields.",
 ["fault_sequences","inputs"],"every subset and position of callbacks failing, for every supported callback kind and nesting, both engines, both directions",
 "Tests call succeeding custom methods at a few nestings; failing methods at each position are not enumerated.",
 ["generator/decoder.go","generator/encoder.go",G+"engine.go",Y+"engine.go",G+"encode/builder.go",Y+"encode/builder.go",G+"decode/reader.go",Y+"decode/reader.go"],
 [("AddError / InsertRaw(data, err) / InsertRawText(text, err) around each user method in generated code","generator/*.go, engines/*/engine.go")])
p("C05","Inserting follows a simple tree model and misuse is always reported",
 "For any sequence of inserter calls the produced tree is the one the calls describe; ending a collection that is not the innermost open one, ending a mapping (or asking for the result) with a key that has no value, inserting unparsable raw data or an error is reported by the next Result/Encode call, and calls after the first error have no effect. Result/Encode never panics, returns no document together with an error, and leaves the builder or encoder empty and ready for an independent next document.",
 ["histories"],"all finite sequences of inserter/encode calls on one builder or encoder, including misuse and repeated documents, both engines",
 "Tests run a few correct call sequences and one misuse on a fresh builder; the sequences are unbounded and errors matter only in the later calls.",
 [Y+"encode/builder.go",G+"encode/builder.go","encode.go",Y+"encode/writer.go",G+"encode/writer.go"],
 [("route stack of open nodes and sticky fatalError",Y+"encode/builder.go, "+G+"encode/builder.go")])
p("C06","Each decoder call consumes exactly its own node",
 "Reading visits the document's nodes in order: each successful call consumes exactly the current node (a scalar, or a whole subtree for skip/raw/any/node), entering a collection yields exactly its children, a null probe that answers no consumes nothing, and after the last node the end of stream is reported. An alias reads as the node it refers to and counts as one node, and the value obtained for a node never depends on which methods consumed the nodes before it.",
 ["histories","inputs"],"all documents with nested collections, nulls, anchors and aliases and all type-correct ways of consuming them call by call, both engines, handwritten and generated decoders",
 "Tests consume small documents in one canonical way; mixing skip/raw/any/node with typed reads, probes and aliases over all positions is not sampled.",
 [Y+"decode/reader.go",Y+"decode/iterator.go",Y+"decode/anchors.go",Y+"decode/any.go",Y+"decode/expected.go",G+"decode/reader.go",G+"decode/expected.go",G+"decode/any.go",G+"decode/raw.go","generator/decoder.go"],
 [("route stack with per-node iterators",Y+"decode/reader.go, "+G+"decode/reader.go"),("anchors kept while nodes are passed",Y+"decode/anchors.go")])
p("C07","A failing destination is reported and receives only a prefix",
 "Writing a document to an io.Writer that fails or writes short at any byte or call never reports success unless the complete document was accepted, and the bytes accepted are always a prefix of the document a healthy writer receives. This holds for encoders, tree writers, the syntax-tree printer and the code generator, and documents produced afterwards are unaffected.",
 ["fault_sequences"],"a write error, short write or panic at every write call and byte offset of every destination-taking operation",
 "Tests only write into in-memory buffers that cannot fail.",
 ["encode.go",Y+"encode/writer.go",G+"encode/writer.go",Y+"ast/astprint/printer.go","generator/generator.go"],
 [("error of the destination's Write is returned",Y+"encode/writer.go, "+Y+"ast/astprint/printer.go, generator/generator.go")])
p("C08","Library and caller never share mutable memory",
 "Decoded values, trees, raw bytes and errors do not change when the caller afterwards overwrites the source bytes or the bytes handed to the inserter or returned by a callback; caller-owned input bytes are never modified; and byte slices returned by the library stay intact during all later library calls and may be overwritten by the caller without affecting anything else.",
 ["histories"],"every operation taking or returning byte slices, followed by arbitrary overwriting by the caller and arbitrary later library calls",
 "Tests never modify a buffer after passing it or inspect a result after further calls.",
 [Y+"pkg/strslice/unsafe.go",Y+"lexer/tokenizer.go",Y+"parser/parser.go",Y+"parser/flow.go",Y+"parser/block.go",Y+"encode/writer.go",Y+"encode/builder.go",G+"encode/builder.go",G+"decode/raw.go"],
 [("unsafe byte/string conversion only over private copies or immutable uses",Y+"pkg/strslice/unsafe.go and its users"),("strings copied out of pooled buffers",Y+"parser")])
p("C09","Trees are read-only for readers and writers and may be shared",
 "Reading, comparing, printing or serializing a tree never changes it: any number of readers and writers used one after another or concurrently on the same tree each obtain the result they would obtain alone, without data races.",
 ["schedules","histories"],"all interleavings of any number of readers/writers over one shared tree and all sequential histories of them, both engines",
 "Tests use each tree once, from one goroutine.",
 [Y+"decode/reader.go",Y+"decode/any.go",Y+"encode/writer.go",G+"decode/reader.go",G+"decode/raw.go",G+"decode/any.go",Y+"ast/node.go",Y+"ast/astprint/printer.go"],
 [("visitors keep all state outside the tree; raw serialization works on a copy",G+"decode/raw.go, "+Y+"decode, "+Y+"encode")])
p("C10","A failed generator run changes nothing in the target package",
 "When a generator run fails for any reason (unusable package or type, failing toolchain, any failing or short file operation), it exits with a non-zero status, prior generated output and every other file of the package are byte for byte what they were before, and no temporary file is left behind unless removing it was itself what failed. When it exits with zero, the complete output is in place.",
 ["fault_sequences","configurations"],"every file-system call and child-process run of the generator failing (EIO, ENOSPC, EACCES, short write, killed child), over package states and options",
 "Tests run the generator only on healthy file systems with correct inputs.",
 ["generator/bootstrap/generator.go","cmd/yamlygen/main.go","generator/parser/parser.go","generator/parser/pkgpath.go"],
 [("temporary directory + overlay, output moved in place last","generator/bootstrap/generator.go")])
p("C11","A generator killed at any point leaves a usable package",
 "If the generator process is killed at any instant, the output file is either as it was before or complete, the other files of the package are untouched, and any leftovers do not prevent or alter later runs: simply running the same command again succeeds and produces the same output as an undisturbed run.",
 ["crash_points","fault_sequences"],"every point between (and inside torn) file-system calls of the generator, repeated crashes, with and without earlier output",
 "No test kills the generator.",
 ["generator/bootstrap/generator.go","cmd/yamlygen/main.go"],
 [("output replaced by rename as the last step","generator/bootstrap/generator.go")])
p("C12","Code generation is deterministic",
 "For the same types and options the generator always produces byte-identical code: independent of map iteration order, of how often it already ran, of the directory being named or current, and of other files of the directory that do not take part in the build (test files, excluded files, leftovers, earlier output).",
 ["schedules","histories","configurations"],"all map iteration orders, all earlier runs/outputs/leftovers and unrelated files, both engines, all options",
 "Tests generate once per type and only compile and run the result.",
 ["generator/generator.go","generator/encoder.go","generator/decoder.go","generator/parser/parser.go","generator/bootstrap/generator.go","cmd/yamlygen/main.go"],
 [("sorted imports, ordered pending types, deterministic names","generator/generator.go"),("deterministic package choice","generator/parser/parser.go")])
p("C13","Package lookup is correct under concurrency and transient failures",
 "Looking up the name and import path of a package directory either fails with an error or returns exactly the name of the package built from it and the path determined by the enclosing module (the place below GOPATH where there is none; a directory with neither is refused), however the directory is spelled and for any number of concurrent lookups of the same or different directories; a lookup that failed because the go command or go.mod was temporarily unavailable has no influence on later lookups, which succeed once the cause is gone.",
 ["schedules","fault_sequences"],"all interleavings of concurrent lookups with toolchain failures, unreadable go.mod and recoveries injected between any two steps",
 "Tests perform lookups once, sequentially and without failures.",
 ["generator/parser/pkgpath.go","generator/parser/modulepath.go","generator/parser/parser.go"],
 [("path cache behind a read/write lock, only successes stored","generator/parser/pkgpath.go")],
 [("cache","memoised directory -> go.mod -> module path","generator/parser/pkgpath.go")])
p("C15","The checkpointing accessor behaves like an indexed list",
 "For any sequence of next, set-checkpoint, rollback, commit and re-initialisation calls the elements returned are those of the underlying stream at the position a plain list model predicts, each stream element is requested exactly once and in order, and a rollback returns the element that was current when the checkpoint was set. A panic of the underlying stream does not lose or repeat elements.",
 ["histories","fault_sequences"],"all sequences of accessor calls with nested checkpoints, reuse for further streams, and stream panics at any call",
 "Tests run a handful of short scripted sequences.",
 [Y+"pkg/cpaccessor/accessor.go"],
 [("buffer + checkpoint stack",Y+"pkg/cpaccessor/accessor.go")],
 [("buf/saved/bufIndicator/checkpointsStack","replay buffer and positions",Y+"pkg/cpaccessor/accessor.go")])
p("C16","Concurrent generator runs in one package do not disturb each other",
 "Several generator processes running at the same time for (different types of) the same package all succeed and every output file is identical to the one a run on its own produces.",
 ["schedules"],"all interleavings of the file-system calls and child runs of two or more generator processes sharing a package directory and temporary directory",
 "Tests run generators one at a time in separate directories.",
 ["generator/bootstrap/generator.go","cmd/yamlygen/main.go","generator/parser/parser.go"],
 [("unique temporary names, atomic replacement","generator/bootstrap/generator.go")])
p("C17","Tree comparison answers the same under every schedule and leaks nothing",
 "Comparing two syntax trees returns true exactly when they have the same shape, node kinds and texts (quoting style aside) under every scheduling of the goroutines it starts; it always returns, and no goroutine it started outlives it.",
 ["schedules","inputs"],"all interleavings of the comparison's goroutines, for equal trees and trees differing at any single place, and concurrent comparisons",
 "Tests compare results on whatever schedule the runtime picks and cannot observe leaked or stuck goroutines.",
 [Y+"ast/astcmp/comparator.go"],
 [("two walkers feeding unbuffered channels, drained before return",Y+"ast/astcmp/comparator.go")])
p("C20","Values survive an encode/decode round trip",
 "Encoding a value and decoding the produced document with the same engine yields an equal value.",
 ["inputs"],"all values of all supported types","Input space is unbounded; tests use a few values.",
 [Y+"encode/writer.go",Y+"decode/reader.go","generator"],[("writer/reader pair",Y+"encode, "+Y+"decode")])
p("C21","Parsing follows the YAML specification",
 "Every well-formed YAML document is parsed into the tree the specification prescribes, and malformed documents are rejected.",
 ["inputs"],"all byte strings","Tests sample documents.",
 [Y+"parser/flow.go",Y+"parser/block.go",Y+"lexer/context.go"],[("recursive descent over tokens",Y+"parser")])
p("C22","Parsing any input terminates without panic in bounded time",
 "Parsing arbitrary bytes always returns a tree or an error, without panicking and in time bounded by a reasonable function of the input size.",
 ["inputs"],"all byte strings","Tests sample documents.",
 [Y+"parser/parser.go",Y+"parser/internal/deadend/finder.go"],[("dead-end detection",Y+"parser/internal/deadend/finder.go")])
p("C23","Scalar conversions follow the YAML core schema",
 "Each scalar text converts to exactly the null/boolean/integer/float/timestamp/string value the core schema defines, and formatted values convert back to themselves.",
 ["inputs"],"all scalar texts and values","Tests sample texts.",
 [Y+"schema/schema.go",G+"schema/schema.go","engines/pkg/schema/schema.go"],[("regular expressions and strconv","engines/pkg/schema/schema.go")])
p("C24","Generated code compiles for every supported type",
 "For every type composed of supported kinds and tags the generated file compiles.",
 ["programs"],"all Go types built from supported kinds, tags and options","Tests cover a list of types.",
 ["generator/decoder.go","generator/encoder.go","generator/generator.go"],[("code templates","generator")])
p("C25","Both engines agree",
 "For every document and type the two engines decode to equal values.",
 ["inputs"],"all documents and types","Tests run the engines on separate samples.",
 [Y+"decode/reader.go",G+"decode/reader.go"],[("shared decoder interface","decode.go")])
p("C26","Alias expansion is bounded",
 "Decoding a document with aliases uses resources bounded by a reasonable function of the document size, and self-referencing anchors are rejected.",
 ["inputs"],"all documents with anchors and aliases","Tests contain no nested or cyclic aliases.",
 [Y+"decode/any.go",G+"decode/any.go",Y+"decode/anchors.go"],[("none at present","engines/*/decode")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
