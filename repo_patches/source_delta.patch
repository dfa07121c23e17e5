From 158fcbc5f7971268148e0dcfbc221f7ad4d540c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 01/35] fix: generate code in an order independent of map
 iteration

Generated source, and in some cases the set of generated types, depended
on the iteration order of the maps of types and declarations: colliding
type names, renaming of anonymous types and the lookup of SOAP array item
types were resolved in whichever order the types were visited.
---
 xsd/xsd.go       | 15 +++++++++++++--
 xsdgen/xsdgen.go | 35 ++++++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/xsd/xsd.go b/xsd/xsd.go
index fb84c36..1cda3fb 100644
--- a/xsd/xsd.go
+++ b/xsd/xsd.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"io"
 	"regexp"
+	"sort"
 	"time"
 
 	"aqwari.net/xml/xmltree"
@@ -115,8 +116,18 @@ type Schema struct {
 // a Schema's top-level types are derived from. FindType will return nil if
 // a type could not be found with the given name.
 func (s *Schema) FindType(name xml.Name) Type {
-	for _, t := range s.Types {
-		if t := findType(t, name); t != nil {
+	names := make([]xml.Name, 0, len(s.Types))
+	for n := range s.Types {
+		names = append(names, n)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	for _, n := range names {
+		if t := findType(s.Types[n], name); t != nil {
 			return t
 		}
 	}
diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 0604c4d..a44abdc 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -60,6 +60,22 @@ func lookupTargetNS(data ...[]byte) []string {
 	return result
 }
 
+// sortedNames returns the keys of types in a fixed order, so that generated
+// code does not depend on the iteration order of the map.
+func sortedNames(types map[xml.Name]xsd.Type) []xml.Name {
+	names := make([]xml.Name, 0, len(types))
+	for name := range types {
+		names = append(names, name)
+	}
+	sort.Slice(names, func(i, j int) bool {
+		if names[i].Space != names[j].Space {
+			return names[i].Space < names[j].Space
+		}
+		return names[i].Local < names[j].Local
+	})
+	return names
+}
+
 type specListing map[string]spec
 
 func (m specListing) keys() (result []string) {
@@ -160,8 +176,8 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 			prev := primary.Types
 			primary.Types = all
 
-			for name, t := range prev {
-				if t := cfg.preprocessType(primary, t); t != nil {
+			for _, name := range sortedNames(prev) {
+				if t := cfg.preprocessType(primary, prev[name]); t != nil {
 					prev[name] = t
 				}
 			}
@@ -196,20 +212,20 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 
 	if cfg.postprocessType != nil {
 		cfg.debugf("running user-defined post-processing functions")
-		for name, s := range code.decls {
-			code.decls[name] = cfg.postprocessType(s)
-		}
+		rangeMap(code.decls, func(name string) {
+			code.decls[name] = cfg.postprocessType(code.decls[name])
+		})
 	}
 
-	for t, s := range code.decls {
+	rangeMap(code.decls, func(t string) {
 		cfg.debugf("processing dependencies for type %v", t)
-		for _, dep := range s.helperTypes {
+		for _, dep := range code.decls[t].helperTypes {
 			if h, ok := cfg.helperTypes[dep]; ok {
 				code.decls[h.name] = h
 				delete(cfg.helperTypes, dep)
 			}
 		}
-	}
+	})
 	rangeMap(code.decls, func(t string) {
 		s := code.decls[t]
 		for _, dep := range s.helperFuncs {
@@ -371,7 +387,8 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
-	for _, t := range types {
+	for _, name := range sortedNames(types) {
+		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
 			continue
 		}
-- 
2.43.0


From 43f0d785f7378de694b02f3a63512e2e8b79f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 02/35] fix: merge schema documents that share a target
 namespace

Parse kept only the types of the last of several schema with the same
target namespace, and named anonymous types after elements without regard
to the types the other schema declare. Keep the types of all of them.
---
 xsd/parse.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e1ac4f..d549c79 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -104,10 +104,19 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 			result = append(result, root.Search(schemaNS, "schema")...)
 		}
 	}
+	// The names of types are shared by all schema with the same
+	// target namespace.
+	used := make(map[xml.Name]struct{})
+	for _, root := range result {
+		tns := root.Attr("", "targetNamespace")
+		for _, el := range root.SearchFunc(and(isType, hasAttr("", "name"))) {
+			used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
+		}
+	}
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
-		copyEltNamesToAnonTypes(root)
+		copyEltNamesToAnonTypes(root, used)
 	}
 	typeCounter := 0
 	for _, root := range result {
@@ -146,7 +155,10 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
-		s := Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		s, ok := parsed[tns]
+		if !ok {
+			s = Schema{TargetNS: tns, Types: make(map[xml.Name]Type)}
+		}
 		if err := s.parse(root); err != nil {
 			return nil, err
 		}
@@ -202,15 +214,9 @@ to
   </complexType>
 </element>
 */
-func copyEltNamesToAnonTypes(root *xmltree.Element) {
-	used := make(map[xml.Name]struct{})
+func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{}) {
 	tns := root.Attr("", "targetNamespace")
 
-	namedTypes := and(isType, hasAttr("", "name"))
-	for _, el := range root.SearchFunc(namedTypes) {
-		used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
-	}
-
 	eltWithAnonType := and(
 		or(isElem(schemaNS, "element"), isElem(schemaNS, "attribute")),
 		hasAttr("", "name"),
@@ -621,10 +627,29 @@ func (s *Schema) parseTypes(root *xmltree.Element) (err error) {
 		t := s.parseSimpleType(el)
 		s.Types[t.Name] = t
 	}
-	s.Types[xml.Name{tns, "_self"}] = s.parseSelfType(root)
+	self := s.parseSelfType(root)
+	if prev, ok := s.Types[self.Name].(*ComplexType); ok {
+		self = mergeSelfType(prev, self)
+	}
+	s.Types[xml.Name{tns, "_self"}] = self
 	return err
 }
 
+// mergeSelfType combines the top-level elements of schema that have
+// the same target namespace.
+func mergeSelfType(a, b *ComplexType) *ComplexType {
+	have := make(map[xml.Name]bool)
+	for _, el := range a.Elements {
+		have[el.Name] = true
+	}
+	for _, el := range b.Elements {
+		if !have[el.Name] {
+			a.Elements = append(a.Elements, el)
+		}
+	}
+	return a
+}
+
 func (s *Schema) parseSelfType(root *xmltree.Element) *ComplexType {
 	self := *root
 	self.Content = nil
-- 
2.43.0


From 616df6db157ff5a4831f72a663837de9d5b1ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 03/35] fix: resolve the types of all schema before following
 them

propagateMixedAttr panicked with 'unexpected xsd.linkedType' when a type
was derived from a type of a schema supplied later.
---
 xsd/parse.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index d549c79..47905e1 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -171,11 +171,16 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		}
 	}
 
+	// All types must be resolved before types are followed from
+	// one schema into another.
 	for _, root := range schema {
 		s := parsed[root.Attr("", "targetNamespace")]
 		if err := s.resolvePartialTypes(types); err != nil {
 			return nil, err
 		}
+	}
+	for _, root := range schema {
+		s := parsed[root.Attr("", "targetNamespace")]
 		err := s.addElementTypeAliases(root, types)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 8cf76f64228a4af613bd596b7fba6f5641d60e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:01 +0000
Subject: [PATCH 04/35] fix: do not overwrite the document passed to
 xmltree.Parse

For documents that are not utf-8, Parse wrote the converted text into the
byte slice it was given.
---
 xmltree/xmltree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 47567f4..77072a1 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -214,7 +214,7 @@ func Parse(doc []byte) (*Element, error) {
 	// stream. If the source document is not utf8, the position may be
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
-	utf8buf := bytes.NewBuffer(doc[:0])
+	data := doc
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
@@ -223,13 +223,15 @@ func Parse(doc []byte) (*Element, error) {
 		// At this point, the encoding/xml package has already
 		// parsed the <?xml?> header. To be able to index
 		// into the document, we need to account for this.
+		var utf8buf bytes.Buffer
 		padding := make([]byte, int(d.InputOffset()))
 		utf8buf.Write(padding)
 
-		_, err = io.Copy(utf8buf, utf8input)
+		_, err = io.Copy(&utf8buf, utf8input)
 		if err != nil {
 			return nil, err
 		}
+		data = utf8buf.Bytes()
 		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
 	}
 	scanner := scanner{Decoder: d}
@@ -244,7 +246,7 @@ func Parse(doc []byte) (*Element, error) {
 	if scanner.err != nil {
 		return nil, scanner.err
 	}
-	if err := root.parse(&scanner, utf8buf.Bytes(), 0); err != nil {
+	if err := root.parse(&scanner, data, 0); err != nil {
 		return nil, err
 	}
 	return root, nil
-- 
2.43.0


From 5f6d5d67ad7b45017a9bef684d2337c3990c8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 05/35] fix: content of elements of documents that are not
 utf-8

The content was off by one byte, and the first byte after the XML
declaration was dropped.
---
 xmltree/xmltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 77072a1..f8801ff 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -232,7 +232,7 @@ func Parse(doc []byte) (*Element, error) {
 			return nil, err
 		}
 		data = utf8buf.Bytes()
-		return bytes.NewReader(utf8buf.Bytes()[len(padding)+1:]), nil
+		return bytes.NewReader(utf8buf.Bytes()[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
 	root := new(Element)
-- 
2.43.0


From e5a89b227d175918d6b79e0fe1b9662dbf976d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 06/35] fix: do not write behind the list of documents passed
 to xsd.Normalize

Appending the standard schema to the caller's slice overwrote elements of
its backing array behind the documents.
---
 xsd/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 47905e1..84b73c5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -90,7 +90,7 @@ func Imports(data []byte) ([]Ref, error) {
 // number of trees returned by Normalize may not equal the
 // number of arguments.
 func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
-	docs = append(docs, StandardSchema...)
+	docs = append(docs[:len(docs):len(docs)], StandardSchema...)
 	result := make([]*xmltree.Element, 0, len(docs))
 
 	for _, data := range docs {
-- 
2.43.0


From b07c0583bc1a96cf19d15a2f487daf85a4bc493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 07/35] fix: scopes joined with the same scope must not share
 memory

JoinScope of a scope that was itself joined could write into the namespace
list of a scope returned earlier.
---
 xmltree/xmltree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index f8801ff..f7f8e68 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -71,7 +71,9 @@ func (el *Element) Attr(space, local string) string {
 // prefixes using the returned scope, the prefix list in the argument
 // Scope is searched before that of the receiver Scope.
 func (outer *Scope) JoinScope(inner *Scope) *Scope {
-	return &Scope{append(outer.ns, inner.ns...)}
+	// The result must not share the space behind outer.ns with
+	// other scopes derived from outer.
+	return &Scope{append(outer.ns[:len(outer.ns):len(outer.ns)], inner.ns...)}
 }
 
 // Unmarshal parses the XML encoding of the Element and stores the result
-- 
2.43.0


From ace2df055cf05f461cbf68c03b5eb21133d2d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 08/35] fix: xmltree.Equal must not reorder the elements it
 compares

---
 xmltree/compare.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/xmltree/compare.go b/xmltree/compare.go
index 4e31dbd..7dd79ee 100644
--- a/xmltree/compare.go
+++ b/xmltree/compare.go
@@ -34,10 +34,13 @@ func equal(a, b *Element, depth int) bool {
 	if len(a.Children) == 0 {
 		return bytes.Equal(bytes.TrimSpace(a.Content), bytes.TrimSpace(b.Content))
 	}
-	sort.Sort(byName(a.Children))
-	sort.Sort(byName(b.Children))
-	for i := range a.Children {
-		if !equal(&a.Children[i], &b.Children[i], depth+1) {
+	// Sort copies; the elements passed to Equal must stay as they are.
+	ac := append([]Element(nil), a.Children...)
+	bc := append([]Element(nil), b.Children...)
+	sort.Sort(byName(ac))
+	sort.Sort(byName(bc))
+	for i := range ac {
+		if !equal(&ac[i], &bc[i], depth+1) {
 			return false
 		}
 	}
-- 
2.43.0


From 5afe964fec12a43e0698df0f4cbc1fc6fb32034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:03 +0000
Subject: [PATCH 09/35] fix: report every write error when encoding a tree

Errors writing the content of an element were ignored, so that Encode
could succeed after a failed write.
---
 xmltree/marshal.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/xmltree/marshal.go b/xmltree/marshal.go
index ca949fe..6b745f5 100644
--- a/xmltree/marshal.go
+++ b/xmltree/marshal.go
@@ -87,8 +87,8 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if _, ok := visited[el]; ok {
 		// We have a cycle. Leave a comment, but no error
-		e.w.Write([]byte("<!-- cycle detected -->"))
-		return nil
+		_, err := io.WriteString(e.w, "<!-- cycle detected -->")
+		return err
 	}
 	scope := diffScope(parent, el)
 	if err := e.encodeOpenTag(el, scope, len(visited)); err != nil {
@@ -96,7 +96,9 @@ func (e *encoder) encode(el, parent *Element, visited map[*Element]struct{}) err
 	}
 	if len(el.Children) == 0 {
 		if len(el.Content) > 0 {
-			e.w.Write(el.Content)
+			if _, err := e.w.Write(el.Content); err != nil {
+				return err
+			}
 		} else {
 			return nil
 		}
@@ -136,7 +138,9 @@ func diffScope(parent, child *Element) Scope {
 func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
-			io.WriteString(e.w, e.indent)
+			if _, err := io.WriteString(e.w, e.indent); err != nil {
+				return err
+			}
 		}
 	}
 	var tag = struct {
@@ -148,7 +152,9 @@ func (e *encoder) encodeOpenTag(el *Element, scope Scope, depth int) error {
 	}
 	if e.pretty {
 		if len(el.Children) > 0 || len(el.Content) == 0 {
-			io.WriteString(e.w, "\n")
+			if _, err := io.WriteString(e.w, "\n"); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -158,7 +164,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 	if e.pretty {
 		for i := 0; i < depth; i++ {
 			if len(el.Children) > 0 {
-				io.WriteString(e.w, e.indent)
+				if _, err := io.WriteString(e.w, e.indent); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -166,7 +174,9 @@ func (e *encoder) encodeCloseTag(el *Element, depth int) error {
 		return err
 	}
 	if e.pretty {
-		io.WriteString(e.w, "\n")
+		if _, err := io.WriteString(e.w, "\n"); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From ba9d16f8cf6283512ad6abe6f6ac1b8417aef37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 10/35] fix: report errors reading the input of GenAST

The error was overwritten by the result of generating code from the
documents that could be read, if any.
---
 xsdgen/cli.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 0274086..633704b 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -55,6 +55,9 @@ func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
 // associated methods based on a set of XML schema.
 func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	data, err := cfg.readFiles(files...)
+	if err != nil {
+		return nil, err
+	}
 	code, err := cfg.GenCode(data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9e5a218b026fd39dcd7abd14eb2acffb68701b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 11/35] fix: read every imported schema once

Following imports did not end when schemas import each other, read the
schemas that several others import more than once, and failed on imports
without a location.
---
 xsdgen/cli.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 633704b..46d6bcc 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/ast"
 	"io/ioutil"
+	"path/filepath"
 	"strings"
 
 	"aqwari.net/xml/internal/commandline"
@@ -65,9 +66,22 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	return code.GenAST()
 }
 
-func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
+func (cfg *Config) readFiles(files ...string) ([][]byte, error) {
+	return cfg.readUnseenFiles(files, make(map[string]bool))
+}
+
+// readUnseenFiles reads files, and with followImports the files they import,
+// each file once; imports may be mutual.
+func (cfg *Config) readUnseenFiles(files []string, seen map[string]bool) ([][]byte, error) {
 	data := make([][]byte, 0, len(files))
 	for _, filename := range files {
+		if cfg.followImports {
+			path := filepath.Clean(filename)
+			if seen[path] {
+				continue
+			}
+			seen[path] = true
+		}
 		b, err := ioutil.ReadFile(filename)
 		if err != nil {
 			return nil, err
@@ -80,9 +94,12 @@ func (cfg *Config) readFiles(files ...string) ([][]byte,error) {
 			}
 			importedFiles := make([]string, 0, len(importedRefs))
 			for _, r := range importedRefs {
-				importedFiles = append(importedFiles, r.Location)
+				// the location is optional
+				if r.Location != "" {
+					importedFiles = append(importedFiles, r.Location)
+				}
 			}
-			referencedData, err := cfg.readFiles(importedFiles...)
+			referencedData, err := cfg.readUnseenFiles(importedFiles, seen)
 			if err != nil {
 				return nil, fmt.Errorf("error reading imported files: %v", err)
 			}
-- 
2.43.0


From 1eb02a913c638ead348fe67424b2f5eb740bc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 12/35] fix: generating code must not change the configuration

The target namespaces, package name and package comment of the first set
of documents were stored in the Config and applied to the next one.
---
 wsdlgen/wsdlgen.go | 17 +++++++++--------
 xsdgen/cli.go      | 19 +++++++++++--------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 2dc8b2d..73fc9e0 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -91,12 +91,6 @@ func (cfg *Config) GenAST(files ...string) (*ast.File, error) {
 	if len(files) == 0 {
 		return nil, errors.New("must provide at least one file name")
 	}
-	if cfg.pkgName == "" {
-		cfg.pkgName = "ws"
-	}
-	if cfg.pkgHeader == "" {
-		cfg.pkgHeader = fmt.Sprintf("Package %s", cfg.pkgName)
-	}
 	docs := make([][]byte, 0, len(files))
 	for _, filename := range files {
 		if data, err := ioutil.ReadFile(filename); err != nil {
@@ -128,8 +122,15 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 	if err != nil {
 		return nil, err
 	}
-	file.Name = ast.NewIdent(cfg.pkgName)
-	file = gen.PackageDoc(file, cfg.pkgHeader, "\n", def.Doc)
+	pkgName, pkgHeader := cfg.pkgName, cfg.pkgHeader
+	if pkgName == "" {
+		pkgName = "ws"
+	}
+	if pkgHeader == "" {
+		pkgHeader = fmt.Sprintf("Package %s", pkgName)
+	}
+	file.Name = ast.NewIdent(pkgName)
+	file = gen.PackageDoc(file, pkgHeader, "\n", def.Doc)
 	p := &printer{
 		Config: cfg,
 		wsdl:   def,
diff --git a/xsdgen/cli.go b/xsdgen/cli.go
index 46d6bcc..3416014 100644
--- a/xsdgen/cli.go
+++ b/xsdgen/cli.go
@@ -18,30 +18,33 @@ import (
 // data. If succesful, the returned *Code value can be used to
 // lookup identifiers and generate Go code.
 func (cfg *Config) GenCode(data ...[]byte) (*Code, error) {
-	if len(cfg.namespaces) == 0 {
-		cfg.Option(Namespaces(lookupTargetNS(data...)...))
-		cfg.debugf("setting namespaces to %q", cfg.namespaces)
+	// The namespaces found in one set of documents must not be required
+	// of the next.
+	namespaces := cfg.namespaces
+	if len(namespaces) == 0 {
+		namespaces = lookupTargetNS(data...)
+		cfg.debugf("setting namespaces to %q", namespaces)
 	}
 	deps, err := xsd.Parse(data...)
 	if err != nil {
 		return nil, err
 	}
-	primaries := make([]xsd.Schema, 0, len(cfg.namespaces))
+	primaries := make([]xsd.Schema, 0, len(namespaces))
 	for _, s := range deps {
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if s.TargetNS == ns {
 				primaries = append(primaries, s)
 				break
 			}
 		}
 	}
-	if len(primaries) < len(cfg.namespaces) {
-		missing := make([]string, 0, len(cfg.namespaces)-len(primaries))
+	if len(primaries) < len(namespaces) {
+		missing := make([]string, 0, len(namespaces)-len(primaries))
 		have := make(map[string]bool)
 		for _, schema := range primaries {
 			have[schema.TargetNS] = true
 		}
-		for _, ns := range cfg.namespaces {
+		for _, ns := range namespaces {
 			if !have[ns] {
 				missing = append(missing, ns)
 			}
-- 
2.43.0


From ea5dff9ea9b23ec45dd8c1ebf4da3bb01649eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 13/35] fix: undo of AllowType

Reverting the only AllowType option left an empty list of allowed types,
so that no types were generated any more.
---
 xsdgen/config.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index a2bf601..d6698eb 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -202,9 +202,16 @@ func AllowType(name xml.Name) Option {
 		if cfg.allowTypes == nil {
 			cfg.allowTypes = make(map[xml.Name]bool)
 		}
+		allowed := cfg.allowTypes[name]
 		cfg.allowTypes[name] = true
 		return func(cfg *Config) Option {
-			delete(cfg.allowTypes, name)
+			if !allowed {
+				delete(cfg.allowTypes, name)
+			}
+			if len(cfg.allowTypes) == 0 {
+				// all types are allowed again
+				cfg.allowTypes = nil
+			}
 			return AllowType(name)
 		}
 	}
-- 
2.43.0


From 5f966b9b6da5aed95df1819ce440c602b077a5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 14/35] fix: apply the OnlyPorts option, and revert it properly

The filter was never consulted, and the undo option excluded all ports.
---
 wsdlgen/config.go  | 21 +++++++++++++--------
 wsdlgen/wsdlgen.go |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/wsdlgen/config.go b/wsdlgen/config.go
index d05bf2c..1fe2ebc 100644
--- a/wsdlgen/config.go
+++ b/wsdlgen/config.go
@@ -68,16 +68,21 @@ var DefaultOptions = []Option{
 // code for. Any other ports will not have types or methods present in
 // the generated output.
 func OnlyPorts(ports ...string) Option {
-	return func(cfg *Config) Option {
-		cfg.portFilter = func(p wsdl.Port) bool {
-			for _, name := range ports {
-				if name == p.Name {
-					return true
-				}
+	return replacePortFilter(func(p wsdl.Port) bool {
+		for _, name := range ports {
+			if name == p.Name {
+				return true
 			}
-			return false
 		}
-		return OnlyPorts()
+		return false
+	})
+}
+
+func replacePortFilter(fn func(wsdl.Port) bool) Option {
+	return func(cfg *Config) Option {
+		prev := cfg.portFilter
+		cfg.portFilter = fn
+		return replacePortFilter(prev)
 	}
 }
 
diff --git a/wsdlgen/wsdlgen.go b/wsdlgen/wsdlgen.go
index 73fc9e0..f2d265a 100644
--- a/wsdlgen/wsdlgen.go
+++ b/wsdlgen/wsdlgen.go
@@ -143,6 +143,9 @@ func (cfg *Config) genAST(def *wsdl.Definition, code *xsdgen.Code) (*ast.File, e
 func (p *printer) genAST() (*ast.File, error) {
 	p.addHelpers()
 	for _, port := range p.wsdl.Ports {
+		if p.portFilter != nil && !p.portFilter(port) {
+			continue
+		}
 		if err := p.port(port); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 6a7046a80c0764ce39235ca3553d9754e8388d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 15/35] fix: keep the helper types of a configuration after
 generating code

Helpers were removed from the Config when they were used, so that
Code.NameOf failed for types that need them.
---
 xsdgen/xsdgen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index a44abdc..6ded2e4 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -222,18 +222,18 @@ func (cfg *Config) gen(primaries, deps []xsd.Schema) (*Code, error) {
 		for _, dep := range code.decls[t].helperTypes {
 			if h, ok := cfg.helperTypes[dep]; ok {
 				code.decls[h.name] = h
-				delete(cfg.helperTypes, dep)
 			}
 		}
 	})
+	added := make(map[string]bool)
 	rangeMap(code.decls, func(t string) {
 		s := code.decls[t]
 		for _, dep := range s.helperFuncs {
-			if h, ok := cfg.helperFuncs[dep]; ok {
+			if h, ok := cfg.helperFuncs[dep]; ok && !added[dep] {
 				cfg.debugf("adding helper function %v for type %v", dep, t)
 				s.methods = append(s.methods, h)
 				code.decls[t] = s
-				delete(cfg.helperFuncs, dep)
+				added[dep] = true
 			}
 		}
 	})
-- 
2.43.0


From 19e785fd03779d8f50845c16260552600b2a8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 16/35] fix: do not share the map of built-in types between
 calls of Parse

The Types of the last Schema returned by Parse were the same map in every
result, so that a change made to one was visible in all others, and
concurrent changes were a data race.
---
 xsd/parse.go           |  2 +-
 xsd/standard-schema.go | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 84b73c5..438b6b7 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -188,7 +188,7 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 		s.propagateMixedAttr()
 		result = append(result, s)
 	}
-	result = append(result, builtinSchema)
+	result = append(result, builtinSchema())
 	return result, nil
 }
 
diff --git a/xsd/standard-schema.go b/xsd/standard-schema.go
index 1955850..bd6208b 100644
--- a/xsd/standard-schema.go
+++ b/xsd/standard-schema.go
@@ -1411,13 +1411,15 @@ constructs, e.g.
 </xs:schema>
 `)
 
-var builtinSchema = Schema{
-	TargetNS: schemaNS,
-}
-
-func init() {
-	builtinSchema.Types = make(map[xml.Name]Type, int(UnsignedShort))
+// builtinSchema returns the schema of the built-in types. Each call returns
+// a Schema of its own, as callers may modify the types of a Schema.
+func builtinSchema() Schema {
+	s := Schema{
+		TargetNS: schemaNS,
+		Types:    make(map[xml.Name]Type, int(UnsignedShort)),
+	}
 	for i := AnyType; i < UnsignedShort; i++ {
-		builtinSchema.Types[i.Name()] = i
+		s.Types[i.Name()] = i
 	}
+	return s
 }
-- 
2.43.0


From 2eb6b28fe95be08b7a97544408134dc60bf99b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 17/35] fix: name the anonymous types of all top-level elements

Growing root.Children while walking its elements left stale pointers
behind, so that whether a type was named depended on the number of
other types in the document.
---
 xsd/parse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 438b6b7..5d1f1ea 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -227,6 +227,9 @@ func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{})
 		hasAttr("", "name"),
 		hasAnonymousType)
 
+	// Growing root.Children while we look at its elements would
+	// leave us with pointers to stale copies of them.
+	var moved []xmltree.Element
 	for _, el := range root.SearchFunc(eltWithAnonType) {
 		// Make sure we can use this element's name
 		xmlname := el.ResolveDefault(el.Attr("", "name"), tns)
@@ -243,10 +246,11 @@ func copyEltNamesToAnonTypes(root *xmltree.Element, used map[xml.Name]struct{})
 
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			moved = append(moved, t)
 			break
 		}
 	}
+	root.Children = append(root.Children, moved...)
 }
 
 // Inside a <xs:choice>, set all children to optional
@@ -303,6 +307,7 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 	var (
 		updateAttr string
 		accum      bool
+		moved      []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
 	for _, el := range root.SearchFunc(hasAnonymousType) {
@@ -345,12 +350,13 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 			el.SetAttr("", updateAttr, qname)
 			el.Children = append(el.Children[:i], el.Children[i+1:]...)
 			el.Content = nil
-			root.Children = append(root.Children, t)
+			moved = append(moved, t)
 			if !accum {
 				break
 			}
 		}
 	}
+	root.Children = append(root.Children, moved...)
 	return nil
 }
 
-- 
2.43.0


From 54cf3dd76292def223f097684800b0bc34174b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:16 +0000
Subject: [PATCH 18/35] fix: resolve references to top-level declarations only

A reference could be replaced with a local declaration of the same
name, depending on the order of the documents.
---
 xsd/index.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd/index.go b/xsd/index.go
index 1fa8b08..ae81e6b 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -35,10 +35,15 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	}
 	for _, root := range schema {
 		tns := root.Attr("", "targetNamespace")
+		// Only the children of a <schema> can be referred to.
+		global := make(map[*xmltree.Element]bool, len(root.Children))
+		for i := range root.Children {
+			global[&root.Children[i]] = true
+		}
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
-			if name := el.Attr("", "name"); name != "" {
+			if name := el.Attr("", "name"); name != "" && global[el] {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
 			}
-- 
2.43.0


From cd944b8468ca2c723f919c334bd0736d0ce63aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 19/35] fix: report references to missing types as errors

An anonymous type was given the name of its element even if that name
was the one of a type missing from the documents, and references to the
missing type resolved to it.
---
 xsd/parse.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/xsd/parse.go b/xsd/parse.go
index 5d1f1ea..432884a 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -113,6 +113,17 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 			used[el.ResolveDefault(el.Attr("", "name"), tns)] = struct{}{}
 		}
 	}
+	// An anonymous type must not take the place of a type that is
+	// referred to, but missing.
+	for _, root := range result {
+		for _, el := range root.Flatten() {
+			if el.Name.Space == schemaNS {
+				for _, name := range typeReferences(el) {
+					used[name] = struct{}{}
+				}
+			}
+		}
+	}
 	for _, root := range result {
 		attributeDefaultType(root)
 		elementDefaultType(root)
@@ -136,6 +147,18 @@ func Normalize(docs ...[]byte) ([]*xmltree.Element, error) {
 	return result, nil
 }
 
+// typeReferences returns the names of the types that an element of a
+// schema document refers to.
+func typeReferences(el *xmltree.Element) []xml.Name {
+	var names []xml.Name
+	for _, attr := range []string{"type", "base", "itemType", "memberTypes"} {
+		for _, qname := range strings.Fields(el.Attr("", attr)) {
+			names = append(names, el.Resolve(qname))
+		}
+	}
+	return names
+}
+
 // Parse reads XML documents containing one or more <schema>
 // elements. The returned slice has one Schema for every <schema>
 // element in the documents. Parse will not fetch schema used in
@@ -1140,6 +1163,5 @@ func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool)
 	if v, ok := ext[xml.Name(name)]; ok {
 		return v, true
 	}
-	v, ok := s.Types[xml.Name(name)]
-	return v, ok
+	return nil, false
 }
-- 
2.43.0


From d8c90b10fa8b5f714e029ee5e8321d54a9d7a898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 20/35] fix: merge nested references in an order independent of
 the documents

The group a reference refers to was copied before or after the
references within the group, depending on the order of the documents,
and groups within groups were lost.  Circular references overflowed the
stack instead of being reported.
---
 xsd/index.go |  3 +++
 xsd/parse.go | 45 ++++++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/xsd/index.go b/xsd/index.go
index ae81e6b..6ecf823 100644
--- a/xsd/index.go
+++ b/xsd/index.go
@@ -12,6 +12,7 @@ type elementKey struct {
 
 type schemaIndex struct {
 	eltByID []*xmltree.Element
+	idByElt map[*xmltree.Element]int
 	// name indices can collide since different element
 	// types can have the same node.
 	idByName map[elementKey]int
@@ -31,6 +32,7 @@ func (idx *schemaIndex) ElementID(name, typ xml.Name) (int, bool) {
 
 func indexSchema(schema []*xmltree.Element) *schemaIndex {
 	index := &schemaIndex{
+		idByElt:  make(map[*xmltree.Element]int),
 		idByName: make(map[elementKey]int),
 	}
 	for _, root := range schema {
@@ -43,6 +45,7 @@ func indexSchema(schema []*xmltree.Element) *schemaIndex {
 		for _, el := range root.Flatten() {
 			id := len(index.eltByID)
 			index.eltByID = append(index.eltByID, el)
+			index.idByElt[el] = id
 			if name := el.Attr("", "name"); name != "" && global[el] {
 				xmlname := el.ResolveDefault(name, tns)
 				index.idByName[elementKey{xmlname, el.Name}] = id
diff --git a/xsd/parse.go b/xsd/parse.go
index 432884a..0e3499f 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -409,11 +409,16 @@ func flattenRef(schema []*xmltree.Element) error {
 			continue
 		}
 		name := el.Resolve(el.Attr("", "ref"))
-		if dep, ok := index.ElementID(name, el.Name); !ok {
+		dep, ok := index.ElementID(name, el.Name)
+		if !ok {
 			return fmt.Errorf("could not find ref %s in %s",
 				el.Attr("", "ref"), el)
-		} else {
-			depends.Add(id, dep)
+		}
+		depends.Add(id, dep)
+		// Whatever the referenced element refers to must be
+		// merged into it before it is copied.
+		for _, inner := range index.eltByID[dep].SearchFunc(hasAttr("", "ref")) {
+			depends.Add(dep, index.idByElt[inner])
 		}
 	}
 	depends.Flatten(func(id int) {
@@ -429,12 +434,14 @@ func flattenRef(schema []*xmltree.Element) error {
 		*el = *deref(el, real)
 	})
 	for ns, doc := range schema {
-		unpackGroups(doc)
 		if hasCycle(doc, nil) {
 			return fmt.Errorf("cycle detected after flattening references "+
-				"in schema %d:\n%s", ns, xmltree.MarshalIndent(doc, "", "  "))
+				"in schema %d (%s)", ns, doc.Attr("", "targetNamespace"))
 		}
 	}
+	for _, doc := range schema {
+		unpackGroups(doc)
+	}
 	return nil
 }
 
@@ -481,19 +488,27 @@ func deref(ref, real *xmltree.Element) *xmltree.Element {
 // unpack them within their parent elements.
 func unpackGroups(doc *xmltree.Element) {
 	isGroup := or(isElem(schemaNS, "group"), isElem(schemaNS, "attributeGroup"))
-	hasGroups := hasChild(isGroup)
+	for i := range doc.Children {
+		unpackChildren(&doc.Children[i], isGroup)
+	}
+}
 
-	for _, el := range doc.SearchFunc(hasGroups) {
-		children := make([]xmltree.Element, 0, len(el.Children))
-		for _, c := range el.Children {
-			if isGroup(&c) {
-				children = append(children, c.Children...)
-			} else {
-				children = append(children, c)
-			}
+func unpackChildren(el *xmltree.Element, isGroup predicate) {
+	for i := range el.Children {
+		unpackChildren(&el.Children[i], isGroup)
+	}
+	if !hasChild(isGroup)(el) {
+		return
+	}
+	children := make([]xmltree.Element, 0, len(el.Children))
+	for _, c := range el.Children {
+		if isGroup(&c) {
+			children = append(children, c.Children...)
+		} else {
+			children = append(children, c)
 		}
-		el.Children = children
 	}
+	el.Children = children
 }
 
 // a complex type defined without any simpleContent or
-- 
2.43.0


From 7ce94176dde7ce3b8d8148a2d47acb7f917610cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:57 +0000
Subject: [PATCH 21/35] fix: flatten each complex type once

Flattening followed the types of elements to a depth of 1000, once for
every path. A schema with a type that has two elements of its own type
kept the generator busy forever.
---
 xsdgen/xsdgen.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 6ded2e4..33d839e 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -126,7 +126,7 @@ func (c *Code) NameOf(name xml.Name) string {
 		return "NOTFOUND" + name.Local
 	}
 
-	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, 0).(type) {
+	switch b := c.cfg.flatten1(t, func(xsd.Type) {}, make(map[*xsd.ComplexType]bool)).(type) {
 	case xsd.Builtin:
 		return c.NameOf(b.Name())
 	}
@@ -387,6 +387,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 	push := func(t xsd.Type) {
 		result = append(result, t)
 	}
+	visited := make(map[*xsd.ComplexType]bool)
 	for _, name := range sortedNames(types) {
 		t := types[name]
 		if xsd.XMLName(t).Local == "_self" {
@@ -401,7 +402,7 @@ func (cfg *Config) flatten(types map[xml.Name]xsd.Type) []xsd.Type {
 				continue
 			}
 		}
-		if t := cfg.flatten1(t, push, 0); t != nil {
+		if t := cfg.flatten1(t, push, visited); t != nil {
 			push(t)
 		}
 	}
@@ -419,11 +420,9 @@ func dedup(types []xsd.Type) (unique []xsd.Type) {
 	return unique
 }
 
-func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type {
-	const maxDepth = 1000
-	if depth > maxDepth {
-		return t
-	}
+// The types of elements may refer to each other in cycles; each complex
+// type's elements and attributes are flattened once.
+func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), visited map[*xsd.ComplexType]bool) xsd.Type {
 	switch t := t.(type) {
 	case *xsd.SimpleType:
 		var (
@@ -497,28 +496,33 @@ func (cfg *Config) flatten1(t xsd.Type, push func(xsd.Type), depth int) xsd.Type
 				case xsd.Builtin:
 					return b
 				case *xsd.SimpleType:
-					return cfg.flatten1(t.Base, push, depth+1)
+					return cfg.flatten1(t.Base, push, visited)
 				}
 			}
 		}
+		if visited[t] {
+			return t
+		}
+		visited[t] = true
+
 		// We can flatten a struct field if its type does not
 		// need additional methods for unmarshalling.
 		for i, el := range t.Elements {
-			el.Type = cfg.flatten1(el.Type, push, depth+1)
+			el.Type = cfg.flatten1(el.Type, push, visited)
 			t.Elements[i] = el
 			push(el.Type)
 			cfg.debugf("element %s %T(%s): %v", el.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(el.Type))
 		}
 		for i, attr := range t.Attributes {
-			attr.Type = cfg.flatten1(attr.Type, push, depth+1)
+			attr.Type = cfg.flatten1(attr.Type, push, visited)
 			t.Attributes[i] = attr
 			push(attr.Type)
 			cfg.debugf("attribute %s %T(%s): %v", attr.Name.Local, t,
 				xsd.XMLName(t).Local, xsd.XMLName(attr.Type))
 		}
 
-		t.Base = cfg.flatten1(t.Base, push, depth+1)
+		t.Base = cfg.flatten1(t.Base, push, visited)
 
 		// We expand all complexTypes to merge all of the fields from
 		// their ancestors, so generated code has no dependencies
-- 
2.43.0


From f6891859a296a92c507ccd8acc8fb5684b5bdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:16 +0000
Subject: [PATCH 22/35] fix: reject types that have no definition

Parse left the base of a simple type without restriction, list or union
(or a complex type without content model) nil, and the code generator
panicked on it.
---
 xsd/parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 0e3499f..825aac5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -739,6 +739,9 @@ func (s *Schema) parseComplexType(root *xmltree.Element) *ComplexType {
 			stop("unexpected element " + el.Name.Local)
 		}
 	})
+	if t.Base == nil {
+		stop("complexType " + t.Name.Local + " has no content model")
+	}
 	t.Doc += string(doc)
 	return &t
 }
@@ -972,6 +975,9 @@ func (s *Schema) parseSimpleType(root *xmltree.Element) *SimpleType {
 			doc = doc.append(parseAnnotation(el))
 		}
 	})
+	if t.Base == nil {
+		stop("simpleType " + t.Name.Local + " is no restriction, list or union")
+	}
 	t.Doc = string(doc)
 	return &t
 }
-- 
2.43.0


From 83338167acf9f859962995477fb134a32aac2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:34 +0000
Subject: [PATCH 23/35] fix: reject types that are derived from themselves

Generating code from a schema with a circular derivation never ended.
---
 xsd/parse.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 825aac5..d587d65 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -202,6 +202,11 @@ func Parse(docs ...[]byte) ([]Schema, error) {
 			return nil, err
 		}
 	}
+	for _, s := range parsed {
+		if err := s.checkDerivation(); err != nil {
+			return nil, err
+		}
+	}
 	for _, root := range schema {
 		s := parsed[root.Attr("", "targetNamespace")]
 		err := s.addElementTypeAliases(root, types)
@@ -1177,6 +1182,21 @@ func (s *Schema) resolvePartialTypes(types map[xml.Name]Type) error {
 	return nil
 }
 
+// checkDerivation returns an error if a type is derived from itself.
+func (s *Schema) checkDerivation() error {
+	for name, t := range s.Types {
+		visited := make(map[Type]bool)
+		for base := t; base != nil; base = Base(base) {
+			if visited[base] {
+				return fmt.Errorf("type %s in namespace %s: circular derivation",
+					name.Local, name.Space)
+			}
+			visited[base] = true
+		}
+	}
+	return nil
+}
+
 func (s *Schema) lookupType(name linkedType, ext map[xml.Name]Type) (Type, bool) {
 	if b, err := ParseBuiltin(xml.Name(name)); err == nil {
 		return b, true
-- 
2.43.0


From e65d197bbe4262d6a04697ff7204ac6bc33a99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 24/35] fix: reject types without a name at the top level of a
 schema

The code generator panicked on them.
---
 xsd/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index d587d65..6ad1bb5 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -338,6 +338,9 @@ func nameAnonymousTypes(root *xmltree.Element, typeCounter *int) error {
 		moved      []xmltree.Element
 	)
 	targetNS := root.Attr("", "targetNamespace")
+	if hasAnonymousType(root) {
+		return fmt.Errorf("schema (%s) has a type without a name at its top level", targetNS)
+	}
 	for _, el := range root.SearchFunc(hasAnonymousType) {
 		if el.Name.Space != schemaNS {
 			continue
-- 
2.43.0


From 4c8b91357edd4aee6fcd40c1fc5844a4ac3a0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 25/35] fix: return an error for type names that are no Go
 identifiers

The code generator panicked if a type derived from a date or binary
type had such a name.
---
 xsdgen/xsdgen.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 33d839e..b1bb027 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -937,19 +937,26 @@ func (cfg *Config) addSpecMethods(s spec) (spec, error) {
 	s.helperTypes = append(s.helperTypes,
 		xsd.XMLName(helper.xsdType))
 
-	s.methods = append(s.methods, gen.Func("UnmarshalText").
+	unmarshal, err := gen.Func("UnmarshalText").
 		Receiver("t *"+s.name).
 		Args("text []byte").
 		Returns("error").
 		Body(`return (*%s)(t).UnmarshalText(text)`, helper.name).
-		MustDecl())
+		Decl()
+	if err != nil {
+		return s, err
+	}
 
-	s.methods = append(s.methods, gen.Func("MarshalText").
+	marshal, err := gen.Func("MarshalText").
 		Receiver("t "+s.name).
 		Returns("[]byte", "error").
 		Body(`return %s(t).MarshalText()`, helper.name).
-		MustDecl())
+		Decl()
+	if err != nil {
+		return s, err
+	}
 
+	s.methods = append(s.methods, unmarshal, marshal)
 	return s, nil
 }
 
-- 
2.43.0


From 39bf556839dc618ed4f02529c449dbc059e63d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 26/35] fix: do not name an anonymous type after another type

UseFieldNames gave anonymous simple types the name of the field even if
another type has it, so that two types shared a name: one of them was
missing from the generated code, or the generator panicked.
---
 xsdgen/config.go | 45 ++++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index d6698eb..f682d7d 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -321,40 +321,31 @@ func useFieldNames(s xsd.Schema, t xsd.Type) xsd.Type {
 	if !ok {
 		return t
 	}
-	for _, el := range c.Elements {
-		switch base := el.Type.(type) {
+	// Two types must not share a name.
+	rename := func(t xsd.Type, name xml.Name) {
+		if _, inuse := used[name]; inuse {
+			return
+		}
+		switch t := t.(type) {
 		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			if _, inuse := used[el.Name]; inuse {
-				break
+			if t.Anonymous {
+				t.Name = name
+				t.Anonymous = false
+				used[name] = struct{}{}
 			}
-			base.Name = el.Name
-			base.Anonymous = false
 		}
 	}
+	for _, el := range c.Elements {
+		rename(el.Type, el.Name)
+	}
 	for _, attr := range c.Attributes {
-		switch base := attr.Type.(type) {
-		case *xsd.SimpleType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		case *xsd.ComplexType:
-			if !base.Anonymous {
-				break
-			}
-			base.Name = attr.Name
-			base.Anonymous = false
-		}
+		rename(attr.Type, attr.Name)
 	}
 	return t
 }
-- 
2.43.0


From 8aa32ca15620ba0e27a3e9d99501def30a65ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:55 +0000
Subject: [PATCH 27/35] fix: treat lists of bytes as lists of numbers

The generated methods took the text of the list for the bytes: any text
was decoded without an error, and encoding wrote the bytes as they are.
---
 xsdgen/xsdgen.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b1bb027..b1afc95 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1116,12 +1116,22 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		`)
 	case xsd.Byte, xsd.UnsignedByte:
 		marshalFn = marshalFn.Body(`
-			return []byte(*x), nil
+			result := make([][]byte, 0, len(*x))
+			for _, v := range *x {
+				result = append(result, []byte(strconv.Itoa(int(v))))
+			}
+			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
-			*x = %s(text)
+			for _, v := range strings.Fields(string(text)) {
+				if i, err := strconv.ParseUint(v, 10, 8); err != nil {
+					return err
+				} else {
+					*x = append(*x, byte(i))
+				}
+			}
 			return nil
-		`, s.name)
+		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte
-- 
2.43.0


From 6fbca9bf317fb1bb7cb04d309c7a9e2ea797e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:55 +0000
Subject: [PATCH 28/35] fix: generate code for lists of booleans

The function body that was meant for them did not parse, and would have
decoded anything that is not true as false.
---
 xsdgen/xsdgen.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index b1afc95..be484df 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1134,7 +1134,7 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		`)
 	case xsd.Boolean:
 		marshalFn = marshalFn.Body(`
-			result := make([][]byte
+			result := make([][]byte, 0, len(*x))
 			for _, b := range *x {
 				if b {
 					result = append(result, []byte("1"))
@@ -1149,8 +1149,10 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 				switch string(v) {
 				case "1", "true":
 					*x = append(*x, true)
-				default:
+				case "0", "false":
 					*x = append(*x, false)
+				default:
+					return fmt.Errorf("invalid boolean %%q", v)
 				}
 			}
 			return nil
-- 
2.43.0


From a5b145315611050ec8dfe7c6c88d35fc3aca7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:55 +0000
Subject: [PATCH 29/35] fix: generate code that compiles for lists of
 unsignedLong

---
 xsdgen/xsdgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index be484df..9f1d6c5 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1100,13 +1100,13 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				result = append(result, []byte(strconv.FormatUInt(v, 10)))
+				result = append(result, []byte(strconv.FormatUint(v, 10)))
 			}
 			return bytes.Join(result, []byte(" ")), nil
 		`)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range strings.Fields(string(text)) {
-				if i, err := strconv.ParseInt(v, 10, 64); err != nil {
+				if i, err := strconv.ParseUint(v, 10, 64); err != nil {
 					return err
 				} else {
 					*x = append(*x, i)
-- 
2.43.0


From e843ca86a5ca87d88197e8b4f28843b21eb9923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:55 +0000
Subject: [PATCH 30/35] fix: generate code that compiles for lists of dates and
 times

---
 xsdgen/xsdgen.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/xsdgen/xsdgen.go b/xsdgen/xsdgen.go
index 9f1d6c5..8a93b15 100644
--- a/xsdgen/xsdgen.go
+++ b/xsdgen/xsdgen.go
@@ -1003,26 +1003,32 @@ func (cfg *Config) genSimpleListSpec(t *xsd.SimpleType) ([]spec, error) {
 			return nil
 		`)
 	case xsd.Date, xsd.DateTime, xsd.GDay, xsd.GMonth, xsd.GMonthDay, xsd.GYear, xsd.GYearMonth, xsd.Time:
+		helper, ok := cfg.helperTypes[xsd.XMLName(base)]
+		if !ok {
+			return nil, fmt.Errorf("no helper type for %v", base)
+		}
+		s.helperTypes = append(s.helperTypes, xsd.XMLName(helper.xsdType))
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
 			for _, v := range *x {
-				if b, err := v.MarshalText(); err != nil {
-					return result, err
-				} else {
-					result = append(result, b)
+				b, err := %s(v).MarshalText()
+				if err != nil {
+					return nil, err
 				}
+				result = append(result, b)
 			}
-			return bytes.Join(result, []byte(" "))
-		`)
+			return bytes.Join(result, []byte(" ")), nil
+		`, helper.name)
 		unmarshalFn = unmarshalFn.Body(`
 			for _, v := range bytes.Fields(text) {
 				var t %s
 				if err := t.UnmarshalText(v); err != nil {
 					return err
 				}
-				*x = append(*x, t)
+				*x = append(*x, time.Time(t))
 			}
-		`, builtinExpr(base.(xsd.Builtin)).(*ast.Ident).Name)
+			return nil
+		`, helper.name)
 	case xsd.Long:
 		marshalFn = marshalFn.Body(`
 			result := make([][]byte, 0, len(*x))
-- 
2.43.0


From 1b896d4b5779b8de3eca58454323d04a05c8d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:23 +0000
Subject: [PATCH 31/35] fix: report failures to print a schema

xsdparse succeeded when its output could not be written.
---
 cmd/xsdparse/xsdparse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/xsdparse/xsdparse.go b/cmd/xsdparse/xsdparse.go
index 557adfa..fd545a7 100644
--- a/cmd/xsdparse/xsdparse.go
+++ b/cmd/xsdparse/xsdparse.go
@@ -59,6 +59,8 @@ func main() {
 	}
 
 	for _, root := range selected {
-		fmt.Printf("%s\n", xmltree.MarshalIndent(root, "", "  "))
+		if _, err := fmt.Printf("%s\n", xmltree.MarshalIndent(root, "", "  ")); err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From d882a5b292835bc2fcdc2d797b9da245dda79e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:20 +0000
Subject: [PATCH 32/35] fix: xmltree: panic on an encoding declaration inside
 an element

---
 xmltree/xmltree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index f7f8e68..86ab2e2 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -217,7 +217,11 @@ func Parse(doc []byte) (*Element, error) {
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
 	data := doc
+	root := new(Element)
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
+		if root.Name.Local != "" {
+			return nil, errors.New("xmltree: encoding declared inside the document element")
+		}
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
 			return nil, err
@@ -237,7 +241,6 @@ func Parse(doc []byte) (*Element, error) {
 		return bytes.NewReader(utf8buf.Bytes()[len(padding):]), nil
 	}
 	scanner := scanner{Decoder: d}
-	root := new(Element)
 
 	for scanner.scan() {
 		if start, ok := scanner.tok.(xml.StartElement); ok {
-- 
2.43.0


From 78c6f971462b14fe74afdac697eb1f68497b632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:17 +0000
Subject: [PATCH 33/35] fix: xsdgen: panic on a SOAP array whose base type has
 no attributes

The capacity of the copied attribute list was one less than the number of
attributes, and make panics when that is negative.
---
 xsdgen/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsdgen/config.go b/xsdgen/config.go
index f682d7d..4b3c1c8 100644
--- a/xsdgen/config.go
+++ b/xsdgen/config.go
@@ -539,7 +539,7 @@ func (cfg *Config) parseSOAPArrayType(s xsd.Schema, t xsd.Type) xsd.Type {
 		return c
 	}
 	base := *basep
-	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes)-1)
+	base.Attributes = make([]xsd.Attribute, 0, len(basep.Attributes))
 	for _, v := range basep.Attributes {
 		if v.Name.Local != "arrayType" {
 			base.Attributes = append(base.Attributes, v)
-- 
2.43.0


From 9b5d955bc6016a397ae4de980188599273f40907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:29 +0000
Subject: [PATCH 34/35] fix: xmltree: memory exhaustion with repeated encoding
 declarations

Every declaration before the document element converted the rest of the
document once more, and characters outside of ASCII grew each time.
---
 xmltree/xmltree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xmltree/xmltree.go b/xmltree/xmltree.go
index 86ab2e2..4d7e33e 100644
--- a/xmltree/xmltree.go
+++ b/xmltree/xmltree.go
@@ -217,11 +217,16 @@ func Parse(doc []byte) (*Element, error) {
 	// incorrect and cause invalid data or a run-time panic. So we copy
 	// the utf8 conversion to an internal buffer.
 	data := doc
+	converted := false
 	root := new(Element)
 	d.CharsetReader = func(label string, r io.Reader) (io.Reader, error) {
 		if root.Name.Local != "" {
 			return nil, errors.New("xmltree: encoding declared inside the document element")
 		}
+		if converted {
+			return nil, errors.New("xmltree: encoding declared more than once")
+		}
+		converted = true
 		utf8input, err := charset.NewReaderLabel(label, r)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3122a83f5a0f9ebebab5a6d068da905ef08cdfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:37 +0000
Subject: [PATCH 35/35] fix: give what is referred to more than once memory of
 its own

Elements merged by reference shared the attributes and children of their
children, so changing a tree that xsd.Normalize returned in one place
changed it in others.
---
 xsd/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/xsd/parse.go b/xsd/parse.go
index 6ad1bb5..aa5c49d 100644
--- a/xsd/parse.go
+++ b/xsd/parse.go
@@ -448,11 +448,23 @@ func flattenRef(schema []*xmltree.Element) error {
 		}
 	}
 	for _, doc := range schema {
+		unshare(doc)
 		unpackGroups(doc)
 	}
 	return nil
 }
 
+// unshare gives el and its descendants memory of their own. What is
+// referred to more than once must not change in all places when it is
+// changed in one.
+func unshare(el *xmltree.Element) {
+	el.StartElement.Attr = append([]xml.Attr{}, el.StartElement.Attr...)
+	el.Children = append([]xmltree.Element{}, el.Children...)
+	for i := range el.Children {
+		unshare(&el.Children[i])
+	}
+}
+
 // Flatten a reference to an XML element, returning the full XML
 // object.
 func deref(ref, real *xmltree.Element) *xmltree.Element {
-- 
2.43.0

