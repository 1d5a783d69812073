From f6216640b72a8b10b41ce78313fd116354c6ee7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:56:18 +0000
Subject: [PATCH 01/30] fix: keep the last element when a drained checkpoint
 buffer is dropped

Rolling back to a checkpoint set right after the replayed elements were
consumed returned the element preceding the buffer instead of the last
consumed one.
---
 engines/yayamls/pkg/cpaccessor/accessor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..8f41083 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -61,7 +61,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore.
+				// remember the last of them to be able to rollback to it.
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
-- 
2.43.0


From 90bf6009bc99504b7eb174f99bbdc7d2a4066d50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 02/30] fix: consume an alias together with the node it refers
 to

Readers of both engines left the alias on their route after its anchored
node had been read, so every following read returned that node again and
loops over the enclosing collection never ended.
---
 engines/goyaml/decode/reader.go  | 4 +++-
 engines/yayamls/decode/reader.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..3e4fa3a 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,9 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		// the anchored node takes the place of the alias, so that
+		// consuming it consumes the alias too
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..e003906 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,9 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		// the anchored node takes the place of the alias, so that
+		// consuming it consumes the alias too
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From 3ecdb5e9960710174951bdec0245c24d46dc4a4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:56:45 +0000
Subject: [PATCH 03/30] fix: ignore nil errors added to goyaml reader

Generated decoders pass the result of text unmarshallers to AddError even
if it is nil, which exhausted all collections being read and silently
dropped the rest of the document.
---
 engines/goyaml/decode/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 3e4fa3a..a910a01 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -547,7 +547,7 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
+	if err != nil && r.fatalError == nil {
 		r.setFatalError(err)
 	}
 }
-- 
2.43.0


From d66f13b1574db689651cd54869f6b22574d48f9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:57:55 +0000
Subject: [PATCH 04/30] fix: exhaust collections of yayamls reader after fatal
 error

---
 engines/yayamls/decode/reader.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index e003906..530117c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -626,7 +626,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -643,7 +643,20 @@ func (r *ASTReader) Error() error {
 }
 
 func (r *ASTReader) AddError(err error) {
-	if r.fatalError == nil {
-		r.fatalError = err
+	if err != nil && r.fatalError == nil {
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError stores the error and exhausts all collections being read,
+// because reading can't proceed after fatal error.
+func (r *ASTReader) setFatalError(err error) {
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From e71c807c5a399c68a9dee7f2d9e8571bc8ea2eee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:00 +0000
Subject: [PATCH 05/30] fix: do not read past a null node when decoding a
 struct

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From a32800993ca5076b3de49305b199c5ee9bcb435a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:08 +0000
Subject: [PATCH 06/30] fix: report a mapping key without value when ending
 goyaml mapping

---
 engines/goyaml/encode/builder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..3d1fc0a 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: got mapping key without value")
 	default:
 		b.popNode()
 	}
-- 
2.43.0


From 109a91ca1d3fc4717d5b02d280da18a303e1181a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:41 +0000
Subject: [PATCH 07/30] fix: report a mapping key without value in the result
 of builders

---
 engines/goyaml/encode/builder.go  | 13 +++++++++++++
 engines/yayamls/encode/builder.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 3d1fc0a..b0af992 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -174,12 +174,25 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && b.hasPendingKey() {
+		root, err = nil, fmt.Errorf("failed to build tree: got mapping key without value")
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
 	return root, err
 }
 
+// hasPendingKey shows if any of unfinished mappings has a key without value.
+func (b *ASTBuilder) hasPendingKey() bool {
+	for _, n := range b.route {
+		if n.Kind == yaml.MappingNode && len(n.Content)%2 != 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func insertNonNullValue[T any](b *ASTBuilder, val T, converter func(T) string, style yaml.Style) {
 	b.insertNode(
 		&yaml.Node{
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..27adba3 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -152,12 +152,25 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && b.hasPendingKey() {
+		root, err = nil, fmt.Errorf("failed to build tree: got mapping key without value")
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
 	return root, err
 }
 
+// hasPendingKey shows if any of unfinished mappings has a key without value.
+func (b *ASTBuilder) hasPendingKey() bool {
+	for _, n := range b.route {
+		if n.Type() == ast.MappingEntryType {
+			return true
+		}
+	}
+	return false
+}
+
 func insertNonNullValue[T any](t *ASTBuilder, val T, converter func(T) string, quotingType ast.QuotingType) {
 	t.insertNode(
 		ast.NewTextNode(
-- 
2.43.0


From b977f20c77040303f2712551bfe90bcd67224b16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 03:59:49 +0000
Subject: [PATCH 08/30] fix: return an error for absent tree from yayamls
 writer instead of panic

---
 engines/yayamls/encode/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..b4493e3 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -108,10 +108,13 @@ func (w *ASTWriter) WriteBytes(ast ast.Node) ([]byte, error) {
 	return data, nil
 }
 
-func (w *ASTWriter) write(ast ast.Node) error {
+func (w *ASTWriter) write(tree ast.Node) error {
 	w.reset()
 
-	ast.Accept(w)
+	if !ast.ValidNode(tree) {
+		return errors.New("failed to write tree: got invalid node")
+	}
+	tree.Accept(w)
 	if w.hasErrors() {
 		return w.error()
 	}
-- 
2.43.0


From 5dbe06f73237da14f660145195d7cdc74d377d60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:00:27 +0000
Subject: [PATCH 09/30] fix: do not modify the tree while serializing raw
 goyaml subtree

---
 engines/goyaml/decode/raw.go    | 58 ++++++++++++---------------------
 engines/goyaml/decode/reader.go |  4 +--
 2 files changed, 21 insertions(+), 41 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..9a00669 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -17,11 +17,10 @@ import "gopkg.in/yaml.v3"
 // transformer is used on "inner" element
 // transformer will replace *anchor with value, because there is no anchor "&anchor"
 // in "inner" element.
+//
+// Transformation result is a copy: the AST itself is left as is, because it may be shared.
 type rawTransformer struct {
-	topLevelAnchor string
-	metAnchors     map[string]struct{}
-
-	dereferencedAliases []dereferencedAliasInfo
+	metAnchors map[string]struct{}
 }
 
 func newRawTransformer() rawTransformer {
@@ -30,49 +29,32 @@ func newRawTransformer() rawTransformer {
 	}
 }
 
-type dereferencedAliasInfo struct {
-	parent *yaml.Node
-	alias  *yaml.Node
-	idx    int
-}
-
 func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
-	rt.topLevelAnchor = n.Anchor
-	n.Anchor = ""
-	rt.visitNode(n)
 	if n.Kind == yaml.AliasNode {
-		n = n.Alias
+		return rt.copyNode(n.Alias)
 	}
-	return n
+	top := *n
+	top.Anchor = ""
+	return rt.copyNode(&top)
 }
 
-func (rt *rawTransformer) visitNode(n *yaml.Node) {
+func (rt *rawTransformer) copyNode(n *yaml.Node) *yaml.Node {
 	if n.Anchor != "" {
 		rt.metAnchors[n.Anchor] = struct{}{}
 	}
-	switch n.Kind {
-	case yaml.AliasNode:
-		rt.visitNode(n.Alias)
-	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
-		for i, child := range n.Content {
-			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
-					n.Content[i] = child.Alias
-					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
-						parent: n,
-						alias:  child,
-						idx:    i,
-					})
-				}
+	result := *n
+	if n.Content != nil {
+		result.Content = make([]*yaml.Node, len(n.Content))
+	}
+	for i, child := range n.Content {
+		if child.Kind == yaml.AliasNode {
+			if _, metAnchor := rt.metAnchors[child.Value]; metAnchor {
+				result.Content[i] = child
+				continue
 			}
-			rt.visitNode(child)
+			child = child.Alias
 		}
+		result.Content[i] = rt.copyNode(child)
 	}
-}
-
-func (rt *rawTransformer) restore(n *yaml.Node) {
-	n.Anchor = rt.topLevelAnchor
-	for _, deref := range rt.dereferencedAliases {
-		deref.parent.Content[deref.idx] = deref.alias
-	}
+	return &result
 }
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index a910a01..5ca50fa 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -320,10 +320,8 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
-	transformer.restore(curNode)
+	v, err := yaml.Marshal(transformer.transform(r.currentNode()))
 	if err != nil {
 		r.appendError(err)
 		return nil
-- 
2.43.0


From 5e9453813fba625fa6060099bd39b9b129f00a6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:13:58 +0000
Subject: [PATCH 10/30] fix: keep anchors of skipped and raw subtrees in
 yayamls reader

---
 engines/yayamls/decode/anchors.go  | 30 ++++++++++++++++++++++++++++++
 engines/yayamls/decode/expected.go |  2 +-
 engines/yayamls/decode/reader.go   | 10 ++++++++--
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..d9f775e 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -36,6 +36,36 @@ func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
 	return anchored, nil
 }
 
+// storeSubtree stores all anchors contained in the subtree, so the aliases met
+// after it can be dereferenced even if the subtree itself was not visited.
+func (ak *anchorsKeeper) storeSubtree(n ast.Node) {
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		for _, doc := range n.Documents() {
+			ak.storeSubtree(doc)
+		}
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.storeSubtree(entry)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.storeSubtree(entry)
+		}
+	case *ast.MappingEntryNode:
+		ak.storeSubtree(n.Key())
+		ak.storeSubtree(n.Value())
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				ak.StoreAnchor(anchor.Text())
+				ak.BindToLatestAnchor(n.Content())
+			}
+		}
+		ak.storeSubtree(n.Content())
+	}
+}
+
 func (ak *anchorsKeeper) clear() {
 	clear(ak.anchors)
 	ak.metAnchor = false
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..199a9d9 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -304,7 +304,7 @@ func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 			}
 		default:
 			return visitingResult{
-				conclusion: visitingConclusionConsume,
+				conclusion: visitingConclusionMatch,
 			}
 		}
 	}
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 530117c..8ac9cc4 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -329,12 +329,14 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
-	w := encode.NewASTWriter()
-	v, err := w.WriteBytes(r.currentNode())
+	n := r.currentNode()
+	w := encode.NewASTWriter(encode.WithAnchorsKeeper(&r.anchors))
+	v, err := w.WriteBytes(n)
 	if err != nil {
 		r.appendError(err)
 		return nil
 	}
+	r.anchors.storeSubtree(n)
 	r.popRoutePoint()
 	return v
 }
@@ -351,6 +353,7 @@ func (r *ASTReader) Node() ast.Node {
 		return nil
 	}
 	n := r.currentNode()
+	r.anchors.storeSubtree(n)
 	r.popRoutePoint()
 	return n
 }
@@ -364,7 +367,10 @@ func (r *ASTReader) Skip() {
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
 		r.latestDenyError = nil
+		return
 	}
+	r.anchors.storeSubtree(r.currentNode())
+	r.popRoutePoint()
 }
 
 func (r *ASTReader) VisitStreamNode(n *ast.StreamNode) {
-- 
2.43.0


From eede90d6eda7d1f74d14ccfd1671347577d4f4b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:16:52 +0000
Subject: [PATCH 11/30] fix: keep target package intact until generation
 succeeds

---
 generator/bootstrap/generator.go | 92 ++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 53ebd6f..40f056e 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -3,6 +3,8 @@
 package bootstrap
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"go/format"
 	"os"
@@ -10,10 +12,17 @@ import (
 	"path/filepath"
 )
 
-const generatorPackage = "github.com/KSpaceer/yamly/generator"
+const (
+	generatorPackage = "github.com/KSpaceer/yamly/generator"
 
-// Generator is used to generate a temporary bootstrap file in target package
+	// mainName is a name of bootstrap main in target package as the go command sees it.
+	mainName = "yamly-bootstrap.go"
+)
+
+// Generator is used to generate a temporary bootstrap file for target package
 // with actual generator.Generator to generate the actual code.
+// Temporary files are placed into separate directory and shown to the go command as an overlay
+// of target package, so the package itself is not modified until the code is generated.
 type Generator struct {
 	PkgPath string
 	PkgName string
@@ -32,12 +41,8 @@ type Generator struct {
 	BuildTags  string
 }
 
-func (g *Generator) generateStub() error {
-	f, err := os.Create(g.OutputName)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
+func (g *Generator) generateStub(tmpDir string) (string, error) {
+	f := &bytes.Buffer{}
 
 	if g.BuildTags != "" {
 		// using old syntax because it supports comma-separated tags
@@ -60,14 +65,13 @@ func (g *Generator) generateStub() error {
 	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYAML([]byte) error { return nil }")
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "type Exporter_yamly_"+g.Type+" *"+g.Type)
-	return nil
+
+	path := filepath.Join(tmpDir, "stub.go")
+	return path, os.WriteFile(path, f.Bytes(), 0o600)
 }
 
-func (g *Generator) generateMain() (string, error) {
-	f, err := os.CreateTemp(filepath.Dir(g.OutputName), "yamly-bootstrap")
-	if err != nil {
-		return "", err
-	}
+func (g *Generator) generateMain(tmpDir string) (string, error) {
+	f := &bytes.Buffer{}
 
 	fmt.Fprintln(f, "//go:build yamly")
 	fmt.Fprintln(f)
@@ -108,25 +112,51 @@ func (g *Generator) generateMain() (string, error) {
 	fmt.Fprintln(f, "  }")
 	fmt.Fprintln(f, "}")
 
-	src := f.Name()
-	if err := f.Close(); err != nil {
-		return src, err
-	}
+	path := filepath.Join(tmpDir, "main.go")
+	return path, os.WriteFile(path, f.Bytes(), 0o600)
+}
 
-	dst := src + ".go"
-	return dst, os.Rename(src, dst)
+// generateOverlay creates a configuration for the go command replacing the output file with the stub
+// and adding bootstrap main to target package.
+func (g *Generator) generateOverlay(tmpDir, stub, main string) (string, error) {
+	output, err := filepath.Abs(g.OutputName)
+	if err != nil {
+		return "", err
+	}
+	data, err := json.Marshal(map[string]map[string]string{
+		"Replace": {
+			output: stub,
+			filepath.Join(filepath.Dir(output), mainName): main,
+		},
+	})
+	if err != nil {
+		return "", err
+	}
+	path := filepath.Join(tmpDir, "overlay.json")
+	return path, os.WriteFile(path, data, 0o600)
 }
 
 func (g *Generator) Generate() error {
-	if err := g.generateStub(); err != nil {
+	tmpDir, err := os.MkdirTemp("", "yamly-bootstrap")
+	if err != nil {
+		return fmt.Errorf("failed to create temporary directory: %w", err)
+	}
+	defer os.RemoveAll(tmpDir)
+
+	stub, err := g.generateStub(tmpDir)
+	if err != nil {
 		return fmt.Errorf("failed to generate stub: %w", err)
 	}
 
-	path, err := g.generateMain()
+	main, err := g.generateMain(tmpDir)
 	if err != nil {
 		return fmt.Errorf("failed to create main generator: %w", err)
 	}
-	defer os.Remove(path)
+
+	overlay, err := g.generateOverlay(tmpDir, stub, main)
+	if err != nil {
+		return fmt.Errorf("failed to create overlay: %w", err)
+	}
 
 	f, err := os.Create(g.OutputName + ".tmp")
 	if err != nil {
@@ -134,15 +164,18 @@ func (g *Generator) Generate() error {
 	}
 	defer os.Remove(f.Name()) // will remain after rename
 
-	cmd := exec.Command("go", "run", "-tags", g.BuildTags, filepath.Base(path)) // nolint: gosec
+	cmd := exec.Command("go", "run", "-overlay", overlay, "-tags", g.BuildTags, mainName) // nolint: gosec
 
 	cmd.Stdout = f
 	cmd.Stderr = os.Stderr
-	cmd.Dir = filepath.Dir(path)
-	if err = cmd.Run(); err != nil {
+	cmd.Dir = filepath.Dir(g.OutputName)
+	err = cmd.Run()
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to run main generator: %w", err)
 	}
-	f.Close()
 
 	data, err := os.ReadFile(f.Name())
 	if err != nil {
@@ -154,5 +187,8 @@ func (g *Generator) Generate() error {
 		fmt.Println(string(data))
 		return fmt.Errorf("failed to format: %w", err)
 	}
-	return os.WriteFile(g.OutputName, formatedData, 0o600)
+	if err = os.WriteFile(f.Name(), formatedData, 0o600); err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), g.OutputName)
 }
-- 
2.43.0


From 5f457be0e57296dcb91388aebe88276880e9faa3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:16:59 +0000
Subject: [PATCH 12/30] fix: do not remember failed package path lookups

---
 generator/parser/pkgpath.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 65e730c..34fb5d6 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -21,7 +21,10 @@ func findPkgPath(dirPath string) (string, error) {
 		dirPath = filepath.Join(currentDir, dirPath)
 	}
 
-	goModPath, _ := getGoModPath(dirPath)
+	goModPath, err := getGoModPath(dirPath)
+	if err != nil {
+		return "", err
+	}
 
 	if isGoModFile(goModPath) {
 		return pkgPathFromGoMod(dirPath, goModPath)
@@ -72,6 +75,9 @@ func getModulePath(goModPath string) string {
 	}
 
 	defer func() {
+		if modPath == "" { // failed to find out, may succeed next time
+			return
+		}
 		pkgPathFromGoModCache.Lock()
 		pkgPathFromGoModCache.paths[goModPath] = modPath
 		pkgPathFromGoModCache.Unlock()
@@ -97,6 +103,9 @@ func getGoModPath(dirPath string) (string, error) {
 	cmd.Dir = dirPath
 
 	defer func() {
+		if goModPath == "" { // failed to find out, may succeed next time
+			return
+		}
 		pkgPathFromGoModCache.Lock()
 		pkgPathFromGoModCache.paths[dirPath] = goModPath
 		pkgPathFromGoModCache.Unlock()
@@ -104,7 +113,7 @@ func getGoModPath(dirPath string) (string, error) {
 
 	stdout, err := cmd.Output()
 	if err != nil {
-		return "", err
+		return "", fmt.Errorf("cannot determine go.mod path for %s: %w", dirPath, err)
 	}
 
 	goModPath = strings.TrimSpace(string(stdout))
-- 
2.43.0


From ad116305ca68e86da4a14b239b7328dfb5d554ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:17:45 +0000
Subject: [PATCH 13/30] fix: choose package name deterministically when some
 files are excluded from build

---
 generator/parser/parser.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/generator/parser/parser.go b/generator/parser/parser.go
index 3901b7a..22b629f 100644
--- a/generator/parser/parser.go
+++ b/generator/parser/parser.go
@@ -3,9 +3,12 @@ package parser
 
 import (
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/fs"
+	"path/filepath"
+	"slices"
 	"strings"
 )
 
@@ -32,12 +35,33 @@ func (p *Parser) Parse(dirPath string) error {
 	if err != nil {
 		return err
 	}
-	for _, pkg := range packages {
+	if pkg := choosePackage(dirPath, packages); pkg != nil {
 		ast.Walk((*pkgNameVisitor)(&p.PkgName), pkg)
 	}
 	return nil
 }
 
+// choosePackage returns the package which is built from the directory. Other packages
+// may appear because of files excluded from the build (e.g. "//go:build ignore").
+func choosePackage(dirPath string, packages map[string]*ast.Package) *ast.Package {
+	names := make([]string, 0, len(packages))
+	for name := range packages {
+		names = append(names, name)
+	}
+	slices.Sort(names)
+	for _, name := range names {
+		for file := range packages[name].Files {
+			if ok, err := build.Default.MatchFile(dirPath, filepath.Base(file)); ok && err == nil {
+				return packages[name]
+			}
+		}
+	}
+	if len(names) == 0 {
+		return nil
+	}
+	return packages[names[0]]
+}
+
 type pkgNameVisitor string
 
 func (v *pkgNameVisitor) Visit(n ast.Node) (w ast.Visitor) {
-- 
2.43.0


From 9e9e4324c4e87d713d8602072ad44ef68de6423a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:18:48 +0000
Subject: [PATCH 14/30] fix: generate valid code for nested custom marshalers
 and empty interfaces

---
 engines/goyaml/engine.go  | 7 ++++---
 engines/yayamls/engine.go | 2 +-
 generator/decoder.go      | 5 +++--
 generator/encoder.go      | 9 +++++----
 4 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..88cd007 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,8 +64,8 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
-		fmt.Fprintln(dst, whitespace, "} else {")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
+		fmt.Fprintln(dst, whitespace+"} else {")
 		return generator.ImplementationResultConditional, nil
 	}
 	return generator.ImplementationResultFalse, nil
@@ -89,9 +89,10 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 7c0a700..47aaa05 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -79,7 +79,7 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw("+inArg+".MarshalYAML())")
+		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(("+inArg+").MarshalYAML())")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..54a699e 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -165,6 +165,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -308,7 +309,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+outArg+".UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -323,7 +324,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..8ecbab2 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -164,7 +164,7 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+			fmt.Fprintln(g.out, whitespace+"("+inArg+").MarshalYamly(out)")
 			return nil
 		}
 
@@ -183,7 +183,8 @@ func (g *Generator) generateEncoderBody(
 
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
-			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, whitespace+"out.InsertRawText(("+inArg+").MarshalText())")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -315,7 +316,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +330,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 4cf4e37d12b89f9c971b4425fffe90f0512b0f0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:18:56 +0000
Subject: [PATCH 15/30] fix: do not pass nil node to custom goyaml unmarshalers
 after an error

---
 engines/goyaml/engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index 88cd007..7e5ff17 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,9 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
+		fmt.Fprintln(dst, whitespace+"  if node := extIn.Node(); node != nil {")
+		fmt.Fprintln(dst, whitespace+"    in.AddError(("+outArg+").UnmarshalYAML(node))")
+		fmt.Fprintln(dst, whitespace+"  }")
 		fmt.Fprintln(dst, whitespace+"} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -89,7 +91,9 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
+	fmt.Fprintln(dst, whitespace+"    if node := extIn.Node(); node != nil {")
+	fmt.Fprintln(dst, whitespace+"      in.AddError(m.UnmarshalYAML(node))")
+	fmt.Fprintln(dst, whitespace+"    }")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"  }")
-- 
2.43.0


From f5973aca472b9fadd15fb9bd527b9dbc20498326 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:19:17 +0000
Subject: [PATCH 16/30] fix: skip sequence items which do not fit into decoded
 array

---
 generator/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 54a699e..cf256e7 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -243,6 +243,9 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From dadb6249814d5aa4c7a611896ff862cced38b282 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:23:41 +0000
Subject: [PATCH 17/30] fix: never share temporary output between generator
 runs

---
 generator/bootstrap/generator.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 40f056e..d19ba9b 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -158,11 +158,10 @@ func (g *Generator) Generate() error {
 		return fmt.Errorf("failed to create overlay: %w", err)
 	}
 
-	f, err := os.Create(g.OutputName + ".tmp")
+	f, err := os.Create(filepath.Join(tmpDir, "output.go"))
 	if err != nil {
 		return err
 	}
-	defer os.Remove(f.Name()) // will remain after rename
 
 	cmd := exec.Command("go", "run", "-overlay", overlay, "-tags", g.BuildTags, mainName) // nolint: gosec
 
@@ -187,8 +186,26 @@ func (g *Generator) Generate() error {
 		fmt.Println(string(data))
 		return fmt.Errorf("failed to format: %w", err)
 	}
-	if err = os.WriteFile(f.Name(), formatedData, 0o600); err != nil {
+	return writeOutput(g.OutputName, formatedData)
+}
+
+// writeOutput creates or replaces the output file, so that it is never observed partially written.
+func writeOutput(name string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(name), filepath.Base(name)+".*.tmp")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name()) // does nothing after rename
+
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Chmod(0o644)
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return err
 	}
-	return os.Rename(f.Name(), g.OutputName)
+	return os.Rename(f.Name(), name)
 }
-- 
2.43.0


From c524fa9b296f1196d0deedfc4007f307d6950fe0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:25:54 +0000
Subject: [PATCH 18/30] fix: distinguish trees of different shape in AST
 comparator

---
 engines/yayamls/ast/astcmp/comparator.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..52b414d 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -63,7 +63,22 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 		}
 		return false
 	default:
-		return true
+		return childrenCount(first) == childrenCount(second)
+	}
+}
+
+// childrenCount returns the amount of node's children. Without comparing it
+// different trees with the same order of nodes would be considered equal.
+func childrenCount(n ast.Node) int {
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		return len(n.Documents())
+	case *ast.SequenceNode:
+		return len(n.Entries())
+	case *ast.MappingNode:
+		return len(n.Entries())
+	default:
+		return 0
 	}
 }
 
-- 
2.43.0


From d80150ac57f91f80c091d2020238299d947e7a56 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:26:13 +0000
Subject: [PATCH 19/30] fix: report write errors from AST printer

---
 engines/yayamls/ast/astprint/printer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/ast/astprint/printer.go b/engines/yayamls/ast/astprint/printer.go
index 099e5f0..3ee17b7 100644
--- a/engines/yayamls/ast/astprint/printer.go
+++ b/engines/yayamls/ast/astprint/printer.go
@@ -54,10 +54,26 @@ func (p *Printer) Print(root ast.Node, w io.Writer) error {
 	if root == nil {
 		return fmt.Errorf("nil ast.Node")
 	}
-	workingPrinter := p.cloneWithWriter(w)
+	ew := &errorKeepingWriter{w: w}
+	workingPrinter := p.cloneWithWriter(ew)
 	workingPrinter.printValue(root)
 	root.Accept(workingPrinter)
-	return nil
+	return ew.err
+}
+
+// errorKeepingWriter remembers the first write error and writes nothing after it.
+type errorKeepingWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (ew *errorKeepingWriter) Write(data []byte) (int, error) {
+	if ew.err != nil {
+		return 0, ew.err
+	}
+	var n int
+	n, ew.err = ew.w.Write(data)
+	return n, ew.err
 }
 
 func (p *Printer) printValueWithLevel(n ast.Node) {
-- 
2.43.0


From 463bbbcb17ac14f5cfa0620ccf58afea6009d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:57 +0000
Subject: [PATCH 20/30] fix: report nodes inserted after the root of the tree
 is completed

Builders silently replaced a completed collection root with the next inserted
node, appended to a root inserted as raw data and let it be ended.
---
 engines/goyaml/encode/builder.go  | 8 +++++++-
 engines/yayamls/encode/builder.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index b0af992..ad1862a 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -210,8 +210,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already completed")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index 27adba3..c07d5f7 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -187,8 +187,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree is already completed")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From d5606a9496688bb6d2d20c950c2ea10801f57a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:16 +0000
Subject: [PATCH 21/30] fix: do not return partially built tree together with
 an error

---
 engines/goyaml/encode/builder.go  | 5 ++++-
 engines/yayamls/encode/builder.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index ad1862a..a9c7205 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -175,7 +175,10 @@ func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
 	if err == nil && b.hasPendingKey() {
-		root, err = nil, fmt.Errorf("failed to build tree: got mapping key without value")
+		err = fmt.Errorf("failed to build tree: got mapping key without value")
+	}
+	if err != nil {
+		root = nil
 	}
 	b.route = b.route[:0]
 	b.root = nil
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index c07d5f7..76c252a 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -153,7 +153,10 @@ func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
 	if err == nil && b.hasPendingKey() {
-		root, err = nil, fmt.Errorf("failed to build tree: got mapping key without value")
+		err = fmt.Errorf("failed to build tree: got mapping key without value")
+	}
+	if err != nil {
+		root = nil
 	}
 	b.route = b.route[:0]
 	b.root = nil
-- 
2.43.0


From 9da94d061231d8fd786f40796227608b0244fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:18 +0000
Subject: [PATCH 22/30] fix: report short writes of the destination

---
 engines/goyaml/encode/writer.go         | 16 +++++++++++++++-
 engines/yayamls/ast/astprint/printer.go |  3 +++
 generator/generator.go                  |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/writer.go b/engines/goyaml/encode/writer.go
index e4a789a..8126733 100644
--- a/engines/goyaml/encode/writer.go
+++ b/engines/goyaml/encode/writer.go
@@ -14,7 +14,21 @@ var _ yamly.TreeWriter[*yaml.Node] = (*ASTWriter)(nil)
 type ASTWriter struct{}
 
 func (*ASTWriter) WriteTo(dst io.Writer, tree *yaml.Node) error {
-	return yaml.NewEncoder(dst).Encode(tree)
+	return yaml.NewEncoder(fullWriter{dst}).Encode(tree)
+}
+
+// fullWriter reports short writes, because YAML encoder does not check
+// the amount of written bytes.
+type fullWriter struct {
+	dst io.Writer
+}
+
+func (w fullWriter) Write(data []byte) (int, error) {
+	n, err := w.dst.Write(data)
+	if err == nil && n < len(data) {
+		err = io.ErrShortWrite
+	}
+	return n, err
 }
 
 func (w *ASTWriter) WriteString(tree *yaml.Node) (string, error) {
diff --git a/engines/yayamls/ast/astprint/printer.go b/engines/yayamls/ast/astprint/printer.go
index 3ee17b7..cbc2403 100644
--- a/engines/yayamls/ast/astprint/printer.go
+++ b/engines/yayamls/ast/astprint/printer.go
@@ -73,6 +73,9 @@ func (ew *errorKeepingWriter) Write(data []byte) (int, error) {
 	}
 	var n int
 	n, ew.err = ew.w.Write(data)
+	if ew.err == nil && n < len(data) {
+		ew.err = io.ErrShortWrite
+	}
 	return n, ew.err
 }
 
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..f7a3f16 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -153,7 +153,7 @@ func (g *Generator) Generate(w io.Writer) error {
 		return err
 	}
 
-	_, err := w.Write(out.Bytes())
+	_, err := io.Copy(w, &out)
 	return err
 }
 
-- 
2.43.0


From ce18de0809c1858aa28b71d3865676cd1bfa97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:35 +0000
Subject: [PATCH 23/30] fix: package path of a directory named by an unclean
 absolute path

---
 generator/parser/pkgpath.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index 34fb5d6..a032830 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -20,6 +20,7 @@ func findPkgPath(dirPath string) (string, error) {
 		}
 		dirPath = filepath.Join(currentDir, dirPath)
 	}
+	dirPath = filepath.Clean(dirPath) // it is compared with the path of go.mod
 
 	goModPath, err := getGoModPath(dirPath)
 	if err != nil {
-- 
2.43.0


From bc21f45cadffa80ff4e0c55df0e0e48acb64056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:50 +0000
Subject: [PATCH 24/30] fix: go.mod missing once is not remembered as missing
 forever

---
 generator/parser/pkgpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index a032830..de75e55 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -104,7 +104,7 @@ func getGoModPath(dirPath string) (string, error) {
 	cmd.Dir = dirPath
 
 	defer func() {
-		if goModPath == "" { // failed to find out, may succeed next time
+		if !isGoModFile(goModPath) { // not found (yet), may be there next time
 			return
 		}
 		pkgPathFromGoModCache.Lock()
-- 
2.43.0


From c564cb82def9dfd890f4f8c2f153b213772b1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:33 +0000
Subject: [PATCH 25/30] fix: package path of a directory below GOPATH is not
 cut by one element

---
 generator/parser/pkgpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index de75e55..c98e2f1 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -43,7 +43,7 @@ func pkgPathFromGOPATH(dirPath string) (string, error) {
 		prefix := filepath.Join(p, "src") + string(filepath.Separator)
 		rel, err := filepath.Rel(prefix, dirPath)
 		if err == nil && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
-			return path.Dir(filePathToPackagePath(rel)), nil
+			return filePathToPackagePath(rel), nil
 		}
 	}
 	return "", fmt.Errorf("directory '%v' is not in GOPATH '%v'", dirPath, gopath)
-- 
2.43.0


From c23e4e52e46b0310a7d1b96a6d127a33352a1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:12 +0000
Subject: [PATCH 26/30] fix: files ignored by the go command do not prevent the
 package lookup

---
 generator/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/parser/parser.go b/generator/parser/parser.go
index 22b629f..5a6e07c 100644
--- a/generator/parser/parser.go
+++ b/generator/parser/parser.go
@@ -28,7 +28,11 @@ func (p *Parser) Parse(dirPath string) error {
 		token.NewFileSet(),
 		dirPath,
 		func(info fs.FileInfo) bool {
-			return !strings.HasSuffix(info.Name(), "_test.go")
+			name := info.Name()
+			if strings.HasPrefix(name, "_") || strings.HasPrefix(name, ".") { // not seen by the go command
+				return false
+			}
+			return !strings.HasSuffix(name, "_test.go")
 		},
 		parser.PackageClauseOnly,
 	)
-- 
2.43.0


From 2484177bb20d74e8f2a516e5cea40b5e5d8899ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:04 +0000
Subject: [PATCH 27/30] fix: yayamls reader does not reuse the previous value
 when a null node is denied

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 8ac9cc4..e8b370d 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -450,10 +450,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From ce727700aa951ab9bf67eab60cef2657dcae4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:31 +0000
Subject: [PATCH 28/30] fix: a directory that is GOPATH or its src folder
 itself has no package path

---
 generator/parser/pkgpath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/parser/pkgpath.go b/generator/parser/pkgpath.go
index c98e2f1..0aaedba 100644
--- a/generator/parser/pkgpath.go
+++ b/generator/parser/pkgpath.go
@@ -42,7 +42,7 @@ func pkgPathFromGOPATH(dirPath string) (string, error) {
 	for _, p := range paths {
 		prefix := filepath.Join(p, "src") + string(filepath.Separator)
 		rel, err := filepath.Rel(prefix, dirPath)
-		if err == nil && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+		if err == nil && rel != "." && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			return filePathToPackagePath(rel), nil
 		}
 	}
-- 
2.43.0


From 23897dfbde036b60febc50810f560e7a143948eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:27 +0000
Subject: [PATCH 29/30] fix: do not pass absent data to custom yayamls
 unmarshalers after an error

---
 engines/yayamls/engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/engine.go b/engines/yayamls/engine.go
index 47aaa05..2f6811a 100644
--- a/engines/yayamls/engine.go
+++ b/engines/yayamls/engine.go
@@ -65,7 +65,10 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	unmarshalIface := reflect.TypeOf((*Unmarshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
-		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"in.AddError(("+outArg+").UnmarshalYAML(in.Raw()))")
+		whitespace := strings.Repeat(" ", indent)
+		fmt.Fprintln(dst, whitespace+"if raw := in.Raw(); raw != nil || in.Error() == nil {")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(raw))")
+		fmt.Fprintln(dst, whitespace+"}")
 		return generator.ImplementationResultTrue, nil
 	}
 	return generator.ImplementationResultFalse, nil
@@ -88,7 +91,9 @@ func (engineGenerator) MarshalersImplementationCheck(
 func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer, outArg string, indent int) error {
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yayamls.Unmarshaler); ok {")
-	fmt.Fprintln(dst, whitespace+"  in.AddError(m.UnmarshalYAML(in.Raw()))")
+	fmt.Fprintln(dst, whitespace+"  if raw := in.Raw(); raw != nil || in.Error() == nil {")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(raw))")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
-- 
2.43.0


From cd3ea81c7f8a006925640602783ea05aaaad8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:25 +0000
Subject: [PATCH 30/30] fix: goyaml reader reports the end of stream for a
 source without documents

---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 5ca50fa..46cc303 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -130,6 +130,9 @@ func (r *ASTReader) setAST(tree *yaml.Node) {
 	if tree.Kind == yaml.DocumentNode {
 		tree = tree.Content[0]
 	}
+	if tree.Kind == 0 { // there is no document, e.g. the source is empty
+		return
+	}
 	r.pushRoutePoint(routePoint{
 		node: tree,
 	})
-- 
2.43.0

