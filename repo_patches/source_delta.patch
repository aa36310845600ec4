From ea498a5841af3fca60d4838e8bd3067b80c6369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 01/62] fix: report cyclic type references instead of
 overflowing the stack

---
 raml.go    |  5 +++++
 resolve.go | 18 ++++++++++++++++++
 shape.go   |  3 +++
 3 files changed, 26 insertions(+)

diff --git a/raml.go b/raml.go
index 683fc5e..8c3c341 100644
--- a/raml.go
+++ b/raml.go
@@ -25,6 +25,11 @@ type RAML struct {
 	shapes []*BaseShape
 	// Temporary storage for unresolved shapes.
 	unresolvedShapes list.List
+	// resolving holds the shapes whose resolution is in progress together with the number of shapes that
+	// were made concrete at the time their resolution started. It detects cyclic type references.
+	resolving map[int64]int64
+	// concreteShapes counts the shapes that were made concrete.
+	concreteShapes int64
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
diff --git a/resolve.go b/resolve.go
index 7a5869a..cdeaf19 100644
--- a/resolve.go
+++ b/resolve.go
@@ -152,6 +152,24 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	// A shape may be reached again while it is being resolved (e.g. through the items of an array), but if nothing
+	// was made concrete in between then the shape refers only to itself and can never be resolved.
+	started, inProgress := r.resolving[base.ID]
+	if inProgress && started == r.concreteShapes {
+		return StacktraceNew("cyclic type reference", base.Location, stacktrace.WithPosition(&base.Position))
+	}
+	if r.resolving == nil {
+		r.resolving = make(map[int64]int64)
+	}
+	r.resolving[base.ID] = r.concreteShapes
+	defer func() {
+		if inProgress {
+			r.resolving[base.ID] = started
+		} else {
+			delete(r.resolving, base.ID)
+		}
+	}()
+
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
diff --git a/shape.go b/shape.go
index 09e7252..89e915b 100644
--- a/shape.go
+++ b/shape.go
@@ -596,6 +596,9 @@ func (r *RAML) MakeConcreteShapeYAML(base *BaseShape, shapeType string, shapeFac
 		shape = &JSONShape{BaseShape: base}
 	}
 	base.SetShape(shape)
+	if _, unknown := shape.(*UnknownShape); !unknown {
+		r.concreteShapes++
+	}
 
 	if err := shape.unmarshalYAMLNodes(shapeFacets); err != nil {
 		return nil, StacktraceNewWrapped("unmarshal yaml nodes", err, base.Location,
-- 
2.43.0


From 827de37fca587ed47311516ca8ed67f168bf4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 02/62] fix: reject fragments whose body is null

---
 parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parse.go b/parse.go
index a50be10..68a20e1 100644
--- a/parse.go
+++ b/parse.go
@@ -82,6 +82,10 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if dt == nil {
+		// The YAML decoder resets the pointer if the document is null.
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, dt)
 
@@ -186,6 +190,10 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if lib == nil {
+		// The YAML decoder resets the pointer if the document is null.
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -262,6 +270,10 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if ne == nil {
+		// The YAML decoder resets the pointer if the document is null.
+		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
-- 
2.43.0


From d6ee2e5c0f7020b97a60d00b055fe1a5fad8f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 03/62] fix: reject a sequence where facets or uses must be a
 map

---
 fragment.go | 3 +++
 shape.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..072ab5a 100644
--- a/fragment.go
+++ b/fragment.go
@@ -344,6 +344,9 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 			if valueNode.Tag == TagNull {
 				break
 			}
+			if valueNode.Kind == yaml.SequenceNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
 
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
diff --git a/shape.go b/shape.go
index 89e915b..7cda717 100644
--- a/shape.go
+++ b/shape.go
@@ -806,6 +806,9 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Kind == yaml.SequenceNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 6801fe7c00471db792382a2ab13990c97e80bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 04/62] fix: reject an empty parent list and do not treat a
 type named composite as one

---
 resolve.go | 2 +-
 shape.go   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/resolve.go b/resolve.go
index cdeaf19..889e30b 100644
--- a/resolve.go
+++ b/resolve.go
@@ -180,7 +180,7 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 	}
 
 	shapeType := base.Type
-	if shapeType == TypeComposite {
+	if shapeType == TypeComposite && len(base.Inherits) > 0 {
 		// Special case for multiple inheritance
 		err := r.resolveMultipleInheritance(base, unknownShape)
 		if err != nil {
diff --git a/shape.go b/shape.go
index 7cda717..2afcb0a 100644
--- a/shape.go
+++ b/shape.go
@@ -689,6 +689,10 @@ func (r *RAML) makeShapeType(
 				WithNodePosition(shapeTypeNode))
 		}
 	case yaml.SequenceNode:
+		if len(shapeTypeNode.Content) == 0 {
+			return "", nil, StacktraceNew("type list must not be empty", location,
+				WithNodePosition(shapeTypeNode))
+		}
 		var inherits = make([]*BaseShape, len(shapeTypeNode.Content))
 		for i, node := range shapeTypeNode.Content {
 			if node.Kind != yaml.ScalarNode {
-- 
2.43.0


From 76281492fb7bd0416e5c6d0c3ca18a8a9955926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 05/62] fix: compare enum values of parent and child by value
 instead of panicking on lists and maps

---
 scalars.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..59d3a39 100644
--- a/scalars.go
+++ b/scalars.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"fmt"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -36,12 +37,40 @@ func (r *RAML) MakeEnum(v *yaml.Node, location string) (Nodes, error) {
 	return enums, nil
 }
 
+// toRat converts a decoded number to a rational to compare numbers regardless of their representation.
+func toRat(v any) (*big.Rat, bool) {
+	switch n := v.(type) {
+	case int:
+		return new(big.Rat).SetInt64(int64(n)), true
+	case int64:
+		return new(big.Rat).SetInt64(n), true
+	case uint:
+		return new(big.Rat).SetUint64(uint64(n)), true
+	case uint64:
+		return new(big.Rat).SetUint64(n), true
+	case float64:
+		r := new(big.Rat).SetFloat64(n)
+		return r, r != nil
+	}
+	return nil, false
+}
+
+// equalEnumValues compares two decoded values. Numbers are equal if they have the same numeric value.
+func equalEnumValues(a, b any) bool {
+	ra, okA := toRat(a)
+	rb, okB := toRat(b)
+	if okA && okB {
+		return ra.Cmp(rb) == 0
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func isCompatibleEnum(source Nodes, target Nodes) bool {
 	// Target enum must be a subset of source enum
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if equalEnumValues(v.Value, e.Value) {
 				found = true
 				break
 			}
-- 
2.43.0


From d532890141c794068ef2bc2d4bae61647dbd5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/62] fix: match number enumerations by numeric value

---
 scalars.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index 59d3a39..4b09de3 100644
--- a/scalars.go
+++ b/scalars.go
@@ -368,8 +368,13 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	// go-yaml unmarshals integers as int
 	case int:
 		val = float64(v)
+	case int64:
+		val = float64(v)
 	case uint:
 		val = float64(v)
+	// go-yaml unmarshals integers that exceed int64 as uint64
+	case uint64:
+		val = float64(v)
 	case float64:
 		val = v
 	default:
@@ -387,7 +392,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == val {
+			if equalEnumValues(e.Value, val) {
 				found = true
 				break
 			}
@@ -456,7 +461,7 @@ func (s *NumberShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint, float64:
+			case int, int64, uint, uint64, float64:
 			default:
 				return StacktraceNew("enum value must be int, uint, float64", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From aea140519fddeb268d3523daf303c09ce71e349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 07/62] fix: validate integers exactly whichever numeric type
 carries them

---
 scalars.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/scalars.go b/scalars.go
index 4b09de3..b7b2243 100644
--- a/scalars.go
+++ b/scalars.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"fmt"
+	"math"
 	"math/big"
 	"reflect"
 	"regexp"
@@ -142,11 +143,19 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	switch v := v.(type) {
 	case int:
 		val.SetInt64(int64(v))
+	case int64:
+		val.SetInt64(v)
 	case uint:
 		val.SetUint64(uint64(v))
+	// go-yaml unmarshals integers that exceed int64 as uint64
+	case uint64:
+		val.SetUint64(v)
 	// json unmarshals numbers as float64
 	case float64:
-		val.SetInt64(int64(v))
+		if math.IsInf(v, 0) || v != math.Trunc(v) {
+			return fmt.Errorf("invalid value, got %v, expected integer", v)
+		}
+		big.NewFloat(v).Int(&val)
 	default:
 		return fmt.Errorf("invalid type, got %T, expected int, uint or float64", v)
 	}
@@ -161,15 +170,10 @@ func (s *IntegerShape) validate(v interface{}, _ string) error {
 	// TODO: Implement format validation
 	if s.Enum != nil {
 		// TODO: Probably enum values should be stored as big.Int to simplify validation
-		var num any
-		if val.IsInt64() {
-			num = int(val.Int64())
-		} else if val.IsUint64() {
-			num = uint(val.Uint64())
-		}
+		num := new(big.Rat).SetInt(&val)
 		found := false
 		for _, e := range s.Enum {
-			if e.Value == num {
+			if en, ok := toRat(e.Value); ok && en.Cmp(num) == 0 {
 				found = true
 				break
 			}
@@ -238,7 +242,7 @@ func (s *IntegerShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			switch e.Value.(type) {
-			case int, uint:
+			case int, int64, uint, uint64:
 			default:
 				return StacktraceNew("enum value must be int or uint", s.Location,
 					stacktrace.WithPosition(&e.Position))
-- 
2.43.0


From e51d25dd7bd893a72a63af54cf8a18c688c7cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 08/62] fix: convert to plain JSON Schema without a wrapper

---
 jsonschemaconv.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..535527a 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -54,10 +54,20 @@ func NewJSONSchemaConverter[T jsonSchemaWrapper[T]](opt ...JSONSchemaConverterOp
 		if _, ok := any((*JSONSchema)(nil)).(T); !ok {
 			return nil, errors.New("NewJSONSchemaConverter requires WithWrapper for customized schemas")
 		}
+		c.opts.wrap = wrapPlain[T]
 	}
 	return c, nil
 }
 
+// wrapPlain is the default wrapper that makes plain *JSONSchema nodes.
+func wrapPlain[T jsonSchemaWrapper[T]](_ *JSONSchemaConverter[T], core *JSONSchemaGeneric[T], _ *BaseShape) T {
+	plain, ok := any(core).(*JSONSchemaGeneric[*JSONSchema])
+	if !ok {
+		return any(core).(T)
+	}
+	return any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
+}
+
 func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 	// TODO: Need to pass *BaseShape
 	var zero T
-- 
2.43.0


From e204035d7286721386f1c94927d3ae2eb6b47277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 09/62] fix: do not panic on conversion of empty fileTypes or a
 JSON type without a schema

---
 jsonschemaconv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 535527a..93377b9 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -263,7 +263,7 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
+	if len(s.FileTypes) > 0 {
 		maybeStr, ok := s.FileTypes[0].Value.(string)
 		if !ok {
 			panic("file type must be a string")
@@ -371,6 +371,9 @@ func (c *JSONSchemaConverter[T]) VisitJSONShape(s *JSONShape) T {
 	// Base RAML meta (annotations, facets) first …
 	node := c.makeSchemaFromBaseShape(s.Base())
 	dst := node.Generic()
+	if s.Schema == nil {
+		return node
+	}
 
 	// Recast the plain schema to T
 	recasted := c.recast(s.Schema)
-- 
2.43.0


From 15abad5c1dbafbe513ae1bd1d2a8b58eaf755ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 10/62] fix: report an include of a fragment of another kind
 instead of panicking

---
 parse.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 68a20e1..697d28c 100644
--- a/parse.go
+++ b/parse.go
@@ -135,7 +135,11 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 
 	if dt := r.GetFragment(path); dt != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		res, ok := dt.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return res, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -232,7 +236,11 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		res, ok := lib.(*Library)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return res, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -286,7 +294,11 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		res, ok := lib.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path, stacktrace.WithType(StacktraceTypeParsing))
+		}
+		return res, nil
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From 90370140e6e7c0ae92c5ec357cac7e1daa1e904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 11/62] fix: always reset the visited mark after inheritance

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 2afcb0a..329590d 100644
--- a/shape.go
+++ b/shape.go
@@ -134,6 +134,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return sourceBase, nil
 	}
 	sourceBase.ShapeVisited = true
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +176,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From 2fd7d3e9e6663eee13a054cca6d7060911a192d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 12/62] fix: load each fragment once when fragments include
 each other

---
 parse.go   | 10 +++++-----
 resolve.go |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 697d28c..d3fb988 100644
--- a/parse.go
+++ b/parse.go
@@ -78,6 +78,8 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// Fragment must be registered before it is decoded since it may include itself, directly or not.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -87,8 +89,6 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNew("must be map", path, stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
@@ -190,6 +190,8 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// Fragment must be registered before it is decoded since it may include itself, directly or not.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -201,8 +203,6 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
@@ -349,7 +349,7 @@ func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
 		}
 	}(f)
 
-	return r.parseFragment(f, f.Name(), pOpts)
+	return r.parseFragment(f, filepath.Clean(f.Name()), pOpts)
 }
 
 func (r *RAML) ParseFromString(content string, fileName string, baseDir string, opts ...ParseOpt) error {
diff --git a/resolve.go b/resolve.go
index 889e30b..2eacd2a 100644
--- a/resolve.go
+++ b/resolve.go
@@ -101,6 +101,9 @@ func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape)
 
 func (r *RAML) resolveLink(base *BaseShape, shape *UnknownShape) error {
 	linkShape := base.Link.Shape
+	if linkShape == nil {
+		return fmt.Errorf("linked shape is nil")
+	}
 	if err := r.resolveShape(linkShape); err != nil {
 		return fmt.Errorf("resolve link shape: %w", err)
 	}
-- 
2.43.0


From 9a0ae24a2b655d56adb4d6a2456b274c77f2c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 13/62] fix: validate and export the examples of an included
 NamedExample

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 329590d..d22460c 100644
--- a/shape.go
+++ b/shape.go
@@ -787,7 +787,7 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 			return StacktraceNewWrapped("parse named example", err, s.Location,
 				WithNodePosition(valueNode))
 		}
-		s.Examples = &Examples{Link: n, Location: s.Location}
+		s.Examples = &Examples{Map: n.Map, Link: n, Location: s.Location}
 		return nil
 	} else if valueNode.Kind != yaml.MappingNode {
 		return StacktraceNew("examples must be map", s.Location,
-- 
2.43.0


From e6b3a17b0a3859701c8303207c76bd810838ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:27 +0000
Subject: [PATCH 14/62] fix: report unions that contain themselves instead of
 overflowing the stack

---
 unwrap.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index 13c6410..8c2d080 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -193,6 +193,10 @@ func (r *RAML) FindAndMarkRecursion(base *BaseShape) (*BaseShape, error) {
 	case *ObjectShape:
 		err = r.findAndMarkRecursionInObjectShape(t)
 	case *UnionShape:
+		if unionContainsItself(base, make(map[*BaseShape]bool)) {
+			return nil, StacktraceNew("union contains itself", base.Location,
+				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+		}
 		err = r.findAndMarkRecursionInUnionShape(t)
 	}
 	if err != nil {
@@ -270,6 +274,30 @@ func (r *RAML) findAndMarkRecursionInObjectShape(t *ObjectShape) error {
 	return nil
 }
 
+// unionContainsItself returns true if a union is a member of itself, directly or through other unions.
+// Such union can never be matched, unlike a union that refers to itself through a property or an item.
+// The visited map holds true for the unions that are being visited and false for the ones that were visited.
+func unionContainsItself(base *BaseShape, visited map[*BaseShape]bool) bool {
+	if recursive, ok := base.Shape.(*RecursiveShape); ok {
+		base = recursive.Head
+	}
+	union, ok := base.Shape.(*UnionShape)
+	if !ok {
+		return false
+	}
+	if inProgress, seen := visited[base]; seen {
+		return inProgress
+	}
+	visited[base] = true
+	for _, item := range union.AnyOf {
+		if unionContainsItself(item, visited) {
+			return true
+		}
+	}
+	visited[base] = false
+	return false
+}
+
 func (r *RAML) findAndMarkRecursionInUnionShape(t *UnionShape) error {
 	for i, item := range t.AnyOf {
 		rs, err := r.FindAndMarkRecursion(item)
-- 
2.43.0


From c95c34d69bb5ec6c2bbad17d716aa83b595d66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 15/62] fix: give every shape copied for a union member an ID
 of its own

---
 complex.go |  4 +---
 shape.go   | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..b79fa86 100644
--- a/complex.go
+++ b/complex.go
@@ -889,9 +889,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
+				cs := targetMember.cloneAsNew(s.raml)
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
diff --git a/shape.go b/shape.go
index d22460c..84c5d11 100644
--- a/shape.go
+++ b/shape.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sort"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -194,10 +195,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
+			tc := s.cloneAsNew(s.raml)
 			is, err := tc.Inherit(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
@@ -329,6 +327,22 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
+// cloneAsNew creates a detached deep copy of the shape where every copied shape gets a new ID.
+// Copies that coexist with their originals must have own IDs, otherwise they would be mixed up by clone.
+func (s *BaseShape) cloneAsNew(r *RAML) *BaseShape {
+	clonedMap := make(map[int64]*BaseShape)
+	c := s.clone(clonedMap)
+	ids := make([]int64, 0, len(clonedMap))
+	for id := range clonedMap {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
+	for _, id := range ids {
+		clonedMap[id].ID = r.generateShapeID()
+	}
+	return c
+}
+
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if shape, ok := clonedMap[s.ID]; ok {
 		return shape
-- 
2.43.0


From 447ffd7308dbada7916c9c2fd75c4cfaf8d2584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 16/62] fix: do not leave inheritance marks in the shapes
 copied for union members

---
 complex.go |  3 +--
 shape.go   | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index b79fa86..6197282 100644
--- a/complex.go
+++ b/complex.go
@@ -889,8 +889,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.cloneAsNew(s.raml)
-				ms, err := cs.Inherit(sourceMember)
+				ms, err := targetMember.inheritAsNew(s.raml, sourceMember)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
diff --git a/shape.go b/shape.go
index 84c5d11..bde18e5 100644
--- a/shape.go
+++ b/shape.go
@@ -195,8 +195,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.cloneAsNew(s.raml)
-			is, err := tc.Inherit(source)
+			is, err := s.inheritAsNew(s.raml, source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
 					stacktrace.WithPosition(&s.Position))
@@ -327,9 +326,11 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
-// cloneAsNew creates a detached deep copy of the shape where every copied shape gets a new ID.
-// Copies that coexist with their originals must have own IDs, otherwise they would be mixed up by clone.
-func (s *BaseShape) cloneAsNew(r *RAML) *BaseShape {
+// inheritAsNew creates a detached deep copy of the shape and inherits the source into the copy.
+//
+// Every copied shape gets a new ID. Copies that coexist with their originals must have own IDs,
+// otherwise they would be mixed up by clone.
+func (s *BaseShape) inheritAsNew(r *RAML, source *BaseShape) (*BaseShape, error) {
 	clonedMap := make(map[int64]*BaseShape)
 	c := s.clone(clonedMap)
 	ids := make([]int64, 0, len(clonedMap))
@@ -340,7 +341,12 @@ func (s *BaseShape) cloneAsNew(r *RAML) *BaseShape {
 	for _, id := range ids {
 		clonedMap[id].ID = r.generateShapeID()
 	}
-	return c
+	is, err := c.Inherit(source)
+	// Marks of the traversal in progress, copied from the original shapes, must not outlive it in the copies.
+	for _, base := range clonedMap {
+		base.ShapeVisited = false
+	}
+	return is, err
 }
 
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
-- 
2.43.0


From 22b63261636ea4131cb77791c3934c74e16b34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:19 +0000
Subject: [PATCH 17/62] fix: count characters, not bytes, when checking string
 length

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index b7b2243..b654b4d 100644
--- a/scalars.go
+++ b/scalars.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"regexp"
 	"time"
+	"unicode/utf8"
 
 	"gopkg.in/yaml.v3"
 
@@ -573,7 +574,7 @@ func (s *StringShape) validate(v interface{}, _ string) error {
 		return fmt.Errorf("invalid type, got %T, expected string", v)
 	}
 
-	strLen := uint64(len(i))
+	strLen := uint64(utf8.RuneCountInString(i))
 	if s.MinLength != nil && strLen < *s.MinLength {
 		return fmt.Errorf("length must be greater than %d", *s.MinLength)
 	}
-- 
2.43.0


From 7055c7c291d286fff9f24d953ed1cb9ad9a37862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 18/62] fix: keep the enumeration of an aliased boolean

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index b654b4d..bb39636 100644
--- a/scalars.go
+++ b/scalars.go
@@ -875,13 +875,14 @@ func (s *BooleanShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 }
 
 func (s *BooleanShape) alias(source Shape) (Shape, error) {
-	_, ok := source.(*BooleanShape)
+	ss, ok := source.(*BooleanShape)
 	if !ok {
 		return nil, StacktraceNew("cannot make alias from different type", s.Location,
 			stacktrace.WithPosition(&s.Position),
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	s.Enum = ss.Enum
 	return s, nil
 }
 
-- 
2.43.0


From 9a771d01ad8956f4f3f96493dbed20a0e7d9211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 19/62] fix: do not let the parent override multipleOf of a
 number

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index bb39636..51b15b4 100644
--- a/scalars.go
+++ b/scalars.go
@@ -435,7 +435,7 @@ func (s *NumberShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", *s.Maximum))
 	}
 	// TODO: multipleOf validation
-	if ss.MultipleOf != nil {
+	if s.MultipleOf == nil {
 		// TODO: Disallow multipleOf 0 to avoid division by zero during validation
 		s.MultipleOf = ss.MultipleOf
 	}
-- 
2.43.0


From da7ee399cdba684ceaf94dee60663f453bb80696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 20/62] fix: keep the facets of a grouped built-in type

---
 rdt_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..291883c 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -77,7 +77,7 @@ func (visitor *RdtVisitor) VisitType(ctx *rdt.TypeContext, target *UnknownShape)
 }
 
 func (visitor *RdtVisitor) VisitPrimitive(ctx *rdt.PrimitiveContext, target *UnknownShape) (Shape, error) {
-	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), nil)
+	s, err := visitor.raml.MakeConcreteShapeYAML(target.Base(), ctx.GetText(), target.facets)
 	if err != nil {
 		return nil, fmt.Errorf("make concrete shape: %w", err)
 	}
-- 
2.43.0


From 026e4d84b5fb06a7f4140e8967c3a76f9f0bf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 21/62] fix: reject contradictory custom facet definitions

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index 9275a5e..07b3d2b 100644
--- a/validate.go
+++ b/validate.go
@@ -289,6 +289,10 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	// Validate trait definition shapes
 	for pair := s.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 		facetDef := pair.Value
+		if err := facetDef.Base.Check(); err != nil {
+			return StacktraceNewWrapped("check custom facet definition", err, facetDef.Base.Location,
+				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
+		}
 		if err := r.validateShapeCommons(facetDef.Base); err != nil {
 			return StacktraceNewWrapped("validate custom facet definition", err, facetDef.Base.Location,
 				stacktrace.WithPosition(&facetDef.Base.Position), stacktrace.WithInfo("facet", pair.Key))
-- 
2.43.0


From 45ab34734c094a1188f56d0344cbd20f4191db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 22/62] fix: read the facets of a union

---
 complex.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 6197282..2ea1f08 100644
--- a/complex.go
+++ b/complex.go
@@ -806,7 +806,27 @@ type UnionShape struct {
 }
 
 // UnmarshalYAMLNodes unmarshals the union shape from YAML nodes.
-func (s *UnionShape) unmarshalYAMLNodes(_ []*yaml.Node) error {
+func (s *UnionShape) unmarshalYAMLNodes(v []*yaml.Node) error {
+	if len(v)%2 != 0 {
+		return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
+	}
+	for i := 0; i != len(v); i += 2 {
+		node := v[i]
+		valueNode := v[i+1]
+		if node.Value == FacetEnum {
+			enums, err := s.raml.MakeEnum(valueNode, s.Location)
+			if err != nil {
+				return StacktraceNewWrapped("make enum", err, s.Location, WithNodePosition(valueNode))
+			}
+			s.Enum = enums
+			continue
+		}
+		n, err := s.raml.makeRootNode(valueNode, s.Location)
+		if err != nil {
+			return StacktraceNewWrapped("make node", err, s.Location, WithNodePosition(valueNode))
+		}
+		s.CustomShapeFacets.Set(node.Value, n)
+	}
 	return nil
 }
 
-- 
2.43.0


From da26ea4d1469c36c961bec9c0253c3361526959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 23/62] fix: enforce, inherit and convert the enumeration of a
 union

---
 complex.go        | 23 +++++++++++++++++++++--
 jsonschemaconv.go |  6 ++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/complex.go b/complex.go
index 2ea1f08..200c54b 100644
--- a/complex.go
+++ b/complex.go
@@ -872,7 +872,7 @@ func (s *UnionShape) validate(v interface{}, ctxPath string) error {
 	for _, item := range s.AnyOf {
 		err = item.Shape.validate(v, ctxPath)
 		if err == nil {
-			return nil
+			return s.validateEnum(v)
 		}
 		st = st.Append(
 			StacktraceNewWrapped(
@@ -889,6 +889,18 @@ func (s *UnionShape) validate(v interface{}, ctxPath string) error {
 	return st
 }
 
+func (s *UnionShape) validateEnum(v interface{}) error {
+	if s.Enum == nil {
+		return nil
+	}
+	for _, e := range s.Enum {
+		if equalEnumValues(e.Value, v) {
+			return nil
+		}
+	}
+	return fmt.Errorf("value must be one of (%s)", s.Enum.String())
+}
+
 // inherit merges the source shape into the target shape.
 func (s *UnionShape) inherit(source Shape) (Shape, error) {
 	ss, ok := source.(*UnionShape)
@@ -898,11 +910,18 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
+	if s.Enum == nil {
+		s.Enum = ss.Enum
+	} else if ss.Enum != nil && !isCompatibleEnum(ss.Enum, s.Enum) {
+		return nil, StacktraceNew("enum constraint violation", s.Location,
+			stacktrace.WithPosition(&s.Position),
+			stacktrace.WithInfo("source", ss.Enum.String()),
+			stacktrace.WithInfo("target", s.Enum.String()))
+	}
 	if len(s.AnyOf) == 0 {
 		s.AnyOf = ss.AnyOf
 		return s, nil
 	}
-	// TODO: Implement enum facets inheritance
 	var finalFiltered []*BaseShape
 	for _, sourceMember := range ss.AnyOf {
 		var filtered []*BaseShape
diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 93377b9..494542e 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -187,6 +187,12 @@ func (c *JSONSchemaConverter[T]) VisitUnionShape(s *UnionShape) T {
 	for i, item := range s.AnyOf {
 		schema.AnyOf[i] = c.Visit(item.Shape)
 	}
+	if s.Enum != nil {
+		schema.Enum = make([]interface{}, len(s.Enum))
+		for i, v := range s.Enum {
+			schema.Enum[i] = v.Value
+		}
+	}
 	return node
 }
 
-- 
2.43.0


From 235eb6e058940a74c3d3b3eb2d3e4b0725bf4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 24/62] fix: do not modify shared shapes during inheritance

---
 complex.go |  40 +++++++++++++++------
 raml.go    |   3 ++
 shape.go   | 103 +++++++++++++++++++++++++++++++++++++----------------
 unwrap.go  |   5 +--
 4 files changed, 109 insertions(+), 42 deletions(-)

diff --git a/complex.go b/complex.go
index 200c54b..27c88f4 100644
--- a/complex.go
+++ b/complex.go
@@ -130,11 +130,12 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
-		_, err := s.Items.Inherit(ss.Items)
+		is, err := s.Items.inheritNested(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
+		s.Items = is
 	}
 	if s.MinItems == nil {
 		s.MinItems = ss.MinItems
@@ -349,9 +350,23 @@ func (s *ObjectShape) Base() *BaseShape {
 func (s *ObjectShape) cloneShallow(base *BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	c.Properties = copyProperties(s.Properties)
+	c.PatternProperties = copyProperties(s.PatternProperties)
 	return &c
 }
 
+// copyProperties copies the map so that changes of the copy do not affect the original map.
+func copyProperties[T any](properties *orderedmap.OrderedMap[string, T]) *orderedmap.OrderedMap[string, T] {
+	if properties == nil {
+		return nil
+	}
+	c := orderedmap.New[string, T](properties.Len())
+	for pair := properties.Oldest(); pair != nil; pair = pair.Next() {
+		c.Set(pair.Key, pair.Value)
+	}
+	return c
+}
+
 func (s *ObjectShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
@@ -382,8 +397,8 @@ func (s *ObjectShape) alias(source Shape) (Shape, error) {
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
-	s.Properties = ss.Properties
-	s.PatternProperties = ss.PatternProperties
+	s.Properties = copyProperties(ss.Properties)
+	s.PatternProperties = copyProperties(ss.PatternProperties)
 	s.MinProperties = ss.MinProperties
 	s.MaxProperties = ss.MaxProperties
 	s.AdditionalProperties = ss.AdditionalProperties
@@ -533,7 +548,7 @@ func (s *ObjectShape) inheritMaxProperties(source *ObjectShape) error {
 
 func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 	if s.Properties == nil {
-		s.Properties = source.Properties
+		s.Properties = copyProperties(source.Properties)
 		return nil
 	}
 
@@ -552,13 +567,15 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			_, err := targetProp.Base.Inherit(sourceProp.Base)
+			is, err := targetProp.Base.inheritNested(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			targetProp.Base = is
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -568,20 +585,22 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 
 func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 	if s.PatternProperties == nil {
-		s.PatternProperties = source.PatternProperties
+		s.PatternProperties = copyProperties(source.PatternProperties)
 		return nil
 	}
 	if source.PatternProperties != nil {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
-				_, err := targetProp.Base.Inherit(sourceProp.Base)
+				is, err := targetProp.Base.inheritNested(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				targetProp.Base = is
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
@@ -838,6 +857,7 @@ func (s *UnionShape) Base() *BaseShape {
 func (s *UnionShape) cloneShallow(base *BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	c.AnyOf = append([]*BaseShape(nil), s.AnyOf...)
 	return &c
 }
 
@@ -859,7 +879,7 @@ func (s *UnionShape) alias(source Shape) (Shape, error) {
 			stacktrace.WithInfo("source", source.Base().Type),
 			stacktrace.WithInfo("target", s.Base().Type))
 	}
-	s.AnyOf = ss.AnyOf
+	s.AnyOf = append([]*BaseShape(nil), ss.AnyOf...)
 	s.Enum = ss.Enum
 	return s, nil
 }
@@ -919,7 +939,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 			stacktrace.WithInfo("target", s.Enum.String()))
 	}
 	if len(s.AnyOf) == 0 {
-		s.AnyOf = ss.AnyOf
+		s.AnyOf = append([]*BaseShape(nil), ss.AnyOf...)
 		return s, nil
 	}
 	var finalFiltered []*BaseShape
@@ -928,7 +948,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				ms, err := targetMember.inheritAsNew(s.raml, sourceMember)
+				ms, err := targetMember.inheritNested(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
diff --git a/raml.go b/raml.go
index 8c3c341..4a47db7 100644
--- a/raml.go
+++ b/raml.go
@@ -31,6 +31,9 @@ type RAML struct {
 	// concreteShapes counts the shapes that were made concrete.
 	concreteShapes int64
 
+	// merges holds the results of nested inheritance in progress by the target and the source.
+	merges map[[2]*BaseShape]*BaseShape
+
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
 	// ctx is a context of the RAML, for future use.
diff --git a/shape.go b/shape.go
index bde18e5..dff45ca 100644
--- a/shape.go
+++ b/shape.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
-	"sort"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -137,6 +136,66 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	sourceBase.ShapeVisited = true
 	defer func() { sourceBase.ShapeVisited = false }()
 
+	return s.inheritFrom(sourceBase)
+}
+
+// inheritNested merges the source into a copy of the shape and returns the copy.
+//
+// A nested shape (a property, an item or a union member) may be shared with other types, e.g. through an alias or
+// inheritance, so it must not be modified in-place. Merges in progress are remembered since types may be recursive.
+func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
+	if s.raml == nil {
+		return s.Inherit(sourceBase)
+	}
+	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, sourceBase); err != nil {
+		return nil, err
+	}
+	// The shape that derives from the source already has everything that the source provides.
+	if s.derivesFrom(sourceBase) {
+		return s, nil
+	}
+
+	r := s.raml
+	key := [2]*BaseShape{s, sourceBase}
+	if merged, ok := r.merges[key]; ok {
+		return merged, nil
+	}
+	if r.merges == nil {
+		r.merges = make(map[[2]*BaseShape]*BaseShape)
+		defer func() { r.merges = nil }()
+	}
+	c := s.CloneShallow()
+	c.ID = r.generateShapeID()
+	c.ShapeVisited = false
+	r.merges[key] = c
+	return c.inheritFrom(sourceBase)
+}
+
+// derivesFrom returns true if the shape is the source or refers to it as an alias or as one of its ancestors.
+func (s *BaseShape) derivesFrom(source *BaseShape) bool {
+	sources := map[*BaseShape]bool{}
+	for ; source != nil && !sources[source]; source = source.Alias {
+		sources[source] = true
+	}
+	seen := map[*BaseShape]bool{}
+	queue := []*BaseShape{s}
+	for len(queue) > 0 {
+		base := queue[0]
+		queue = queue[1:]
+		if base == nil || seen[base] {
+			continue
+		}
+		if sources[base] {
+			return true
+		}
+		seen[base] = true
+		queue = append(queue, base.Alias)
+		queue = append(queue, base.Inherits...)
+	}
+	return false
+}
+
+func (s *BaseShape) inheritFrom(sourceBase *BaseShape) (*BaseShape, error) {
 	source := sourceBase.Shape
 	target := s.Shape
 
@@ -169,7 +228,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		return sourceBase.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
@@ -187,6 +246,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var filtered []*BaseShape
+	var compatible *BaseShape
 	var st *stacktrace.StackTrace
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
@@ -194,8 +254,8 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			return s, nil
 		}
 		if source.Type == s.Type {
-			// Deep copy with ID change is required since we create new union members from source members
-			is, err := s.inheritAsNew(s.raml, source)
+			// Copy with ID change is required since we create new union members from source members
+			is, err := s.inheritNested(source)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
 					stacktrace.WithPosition(&s.Position))
@@ -208,6 +268,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 				continue
 			}
 			filtered = append(filtered, is)
+			compatible = source
 		}
 	}
 	if len(filtered) == 0 {
@@ -220,7 +281,11 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	}
 	// If only one union member remains - simplify to target type
 	if len(filtered) == 1 {
-		return filtered[0], nil
+		if filtered[0] == s {
+			return s, nil
+		}
+		// Others may refer to this shape already, so it must be the one that has the inherited facets.
+		return s.inheritFrom(compatible)
 	}
 	// Convert target to union
 	s.Type = TypeUnion
@@ -240,9 +305,9 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var st *stacktrace.StackTrace
-	for _, item := range targetUnion.AnyOf {
+	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		_, err := item.Inherit(s)
+		is, err := item.inheritNested(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
@@ -253,6 +318,7 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 			}
 			continue
 		}
+		targetUnion.AnyOf[i] = is
 	}
 	if st != nil {
 		return nil, st
@@ -326,29 +392,6 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
-// inheritAsNew creates a detached deep copy of the shape and inherits the source into the copy.
-//
-// Every copied shape gets a new ID. Copies that coexist with their originals must have own IDs,
-// otherwise they would be mixed up by clone.
-func (s *BaseShape) inheritAsNew(r *RAML, source *BaseShape) (*BaseShape, error) {
-	clonedMap := make(map[int64]*BaseShape)
-	c := s.clone(clonedMap)
-	ids := make([]int64, 0, len(clonedMap))
-	for id := range clonedMap {
-		ids = append(ids, id)
-	}
-	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
-	for _, id := range ids {
-		clonedMap[id].ID = r.generateShapeID()
-	}
-	is, err := c.Inherit(source)
-	// Marks of the traversal in progress, copied from the original shapes, must not outlive it in the copies.
-	for _, base := range clonedMap {
-		base.ShapeVisited = false
-	}
-	return is, err
-}
-
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if shape, ok := clonedMap[s.ID]; ok {
 		return shape
diff --git a/unwrap.go b/unwrap.go
index 8c2d080..bdc3912 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -389,12 +389,13 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
-			us, errUnwrap = ss.Inherit(us)
+			inherits[i] = us
+			// The first parent must stay as is, its type may be used elsewhere.
+			ss, errUnwrap = ss.inheritNested(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
 					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
-			inherits[i] = us
 		}
 		source = ss
 	}
-- 
2.43.0


From 9be34fb1310336f2a47b4f047211b3297fd3f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 25/62] fix: complete recursive aliases and parents once their
 types are unwrapped

---
 raml.go   |   7 +++
 shape.go  |   6 ++-
 unwrap.go | 145 ++++++++++++++++++++++++++++++++++++++----------------
 3 files changed, 113 insertions(+), 45 deletions(-)

diff --git a/raml.go b/raml.go
index 4a47db7..e025ea5 100644
--- a/raml.go
+++ b/raml.go
@@ -34,6 +34,13 @@ type RAML struct {
 	// merges holds the results of nested inheritance in progress by the target and the source.
 	merges map[[2]*BaseShape]*BaseShape
 
+	// unwrapping holds the shapes whose unwrapping is in progress or waits for a shape that is in progress.
+	unwrapping map[*BaseShape]struct{}
+	// postponedUnwraps holds the unwrapping steps that wait for the shapes in progress.
+	postponedUnwraps []func() error
+	// unwrapDepth is the number of nested UnwrapShape calls.
+	unwrapDepth int
+
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
 	// ctx is a context of the RAML, for future use.
diff --git a/shape.go b/shape.go
index dff45ca..76cbc9a 100644
--- a/shape.go
+++ b/shape.go
@@ -68,6 +68,8 @@ type BaseShape struct {
 
 	// Controlled by UnwrapShape
 	unwrapped bool
+	// aliasOf is the aliased shape, it is kept after unwrapping.
+	aliasOf *BaseShape
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
 
@@ -174,7 +176,7 @@ func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
 // derivesFrom returns true if the shape is the source or refers to it as an alias or as one of its ancestors.
 func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 	sources := map[*BaseShape]bool{}
-	for ; source != nil && !sources[source]; source = source.Alias {
+	for ; source != nil && !sources[source]; source = source.aliasOf {
 		sources[source] = true
 	}
 	seen := map[*BaseShape]bool{}
@@ -189,7 +191,7 @@ func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 			return true
 		}
 		seen[base] = true
-		queue = append(queue, base.Alias)
+		queue = append(queue, base.aliasOf)
 		queue = append(queue, base.Inherits...)
 	}
 	return false
diff --git a/unwrap.go b/unwrap.go
index bdc3912..3eb8cda 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -364,42 +364,76 @@ func (r *RAML) unwrapUnionShape(unionShape *UnionShape) error {
 	return nil
 }
 
-func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
-	var source *BaseShape
-	switch {
-	case base.Link != nil:
+// unwrapParents unwraps the shapes that the base shape inherits from.
+func (r *RAML) unwrapParents(base *BaseShape) ([]*BaseShape, error) {
+	if base.Link != nil {
 		us, err := r.UnwrapShape(base.Link.Shape)
 		if err != nil {
 			return nil, StacktraceNewWrapped("link unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		source = us
 		base.Link = nil
-	case len(base.Inherits) > 0:
-		inherits := base.Inherits
-		// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
-		ss, err := r.UnwrapShape(inherits[0])
+		return []*BaseShape{us}, nil
+	}
+	inherits := base.Inherits
+	for i, inherit := range inherits {
+		us, err := r.UnwrapShape(inherit)
 		if err != nil {
 			return nil, StacktraceNewWrapped("parent unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		inherits[0] = ss
-		for i := 1; i < len(inherits); i++ {
-			us, errUnwrap := r.UnwrapShape(inherits[i])
-			if errUnwrap != nil {
-				return nil, errUnwrap
-			}
-			inherits[i] = us
-			// The first parent must stay as is, its type may be used elsewhere.
-			ss, errUnwrap = ss.inheritNested(us)
-			if errUnwrap != nil {
-				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
-					stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
-			}
+		inherits[i] = us
+	}
+	return inherits, nil
+}
+
+// inheritParents merges unwrapped parents into the base shape.
+func (r *RAML) inheritParents(base *BaseShape, parents []*BaseShape) error {
+	// FIXME: Multiple inheritance members must be checked for compatibility with each other before unwrapping.
+	source := parents[0]
+	for i := 1; i < len(parents); i++ {
+		// The first parent must stay as is, its type may be used elsewhere.
+		us, err := source.inheritNested(parents[i])
+		if err != nil {
+			return StacktraceNewWrapped("multiple parents unwrap", err, base.Location,
+				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
-		source = ss
+		source = us
 	}
-	return source, nil
+	// Base shape inherits properties of the source shape in-place.
+	if _, err := base.Inherit(source); err != nil {
+		return StacktraceNewWrapped("merge shapes", err, base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+	}
+	return nil
+}
+
+// unwrapAfter performs the last unwrapping step of the base shape that depends on the given shapes.
+//
+// Recursive types make it possible that a shape depends on the shape which is still being unwrapped.
+// Since such shape is not complete yet, the step is postponed.
+func (r *RAML) unwrapAfter(base *BaseShape, dependencies []*BaseShape, step func() error) error {
+	for _, dependency := range dependencies {
+		if _, incomplete := r.unwrapping[dependency]; incomplete {
+			r.postponedUnwraps = append(r.postponedUnwraps, step)
+			return nil
+		}
+	}
+	delete(r.unwrapping, base)
+	return step()
+}
+
+// finishUnwrap performs postponed steps in the order they were postponed.
+func (r *RAML) finishUnwrap() error {
+	var err error
+	for _, step := range r.postponedUnwraps {
+		if errStep := step(); err == nil {
+			err = errStep
+		}
+	}
+	r.postponedUnwraps = nil
+	r.unwrapping = nil
+	return err
 }
 
 func (r *RAML) UnwrapTarget(target Shape) error {
@@ -428,8 +462,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	if err := r.callHooks(HookBeforeUnwrapShape, base); err != nil {
 		return nil, err
 	}
-	s := base.Shape
-	if s == nil {
+	if base.Shape == nil {
 		return nil, fmt.Errorf("shape is nil")
 	}
 
@@ -439,25 +472,48 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 	}
 	base.SetUnwrapped()
 
+	if r.unwrapping == nil {
+		r.unwrapping = make(map[*BaseShape]struct{})
+	}
+	r.unwrapping[base] = struct{}{}
+	r.unwrapDepth++
+	err := r.unwrapBase(base)
+	r.unwrapDepth--
+	if r.unwrapDepth == 0 {
+		if errFinish := r.finishUnwrap(); err == nil {
+			err = errFinish
+		}
+	}
+	if err != nil {
+		return nil, err
+	}
+	return base, nil
+}
+
+func (r *RAML) unwrapBase(base *BaseShape) error {
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
 		us, err := r.UnwrapShape(base.Alias)
 		if err != nil {
-			return nil, StacktraceNewWrapped("alias unwrap", err, base.Location,
+			return StacktraceNewWrapped("alias unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		r.PutShape(base)
-		return base.AliasTo(us)
+		base.aliasOf = us
+		return r.unwrapAfter(base, []*BaseShape{us}, func() error {
+			_, errAlias := base.AliasTo(us)
+			return errAlias
+		})
 	}
 
-	source, err := r.unwrapParents(base)
+	parents, err := r.unwrapParents(base)
 	if err != nil {
-		return nil, StacktraceNewWrapped("unwrap parents", err, base.Location,
+		return StacktraceNewWrapped("unwrap parents", err, base.Location,
 			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 	}
 
-	if err = r.UnwrapTarget(s); err != nil {
-		return nil, StacktraceNewWrapped("unwrap target", err, base.Location,
+	if err = r.UnwrapTarget(base.Shape); err != nil {
+		return StacktraceNewWrapped("unwrap target", err, base.Location,
 			stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 	}
 
@@ -465,24 +521,27 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 		prop := pair.Value
 		us, errUnwrap := r.UnwrapShape(prop.Base)
 		if errUnwrap != nil {
-			return nil, StacktraceNewWrapped("custom shape facet definition unwrap", errUnwrap, base.Location,
+			return StacktraceNewWrapped("custom shape facet definition unwrap", errUnwrap, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
+		if _, incomplete := r.unwrapping[us]; incomplete {
+			// The postponed step of the definition may bring its facet definitions back.
+			r.postponedUnwraps = append(r.postponedUnwraps, func() error {
+				us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()
+				return nil
+			})
+		}
 		// Reset custom shape facet definitions since traits cannot have nested traits.
 		us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()
 		prop.Base = us
 		base.CustomShapeFacetDefinitions.Set(pair.Key, prop)
 	}
 
-	if source != nil {
-		// Base shape inherits properties of the source shape in-place.
-		is, errInherit := base.Inherit(source)
-		if errInherit != nil {
-			return nil, StacktraceNewWrapped("merge shapes", errInherit, base.Location,
-				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
-		}
-		base = is
-	}
 	r.PutShape(base)
-	return base, nil
+	return r.unwrapAfter(base, parents, func() error {
+		if len(parents) == 0 {
+			return nil
+		}
+		return r.inheritParents(base, parents)
+	})
 }
-- 
2.43.0


From 8ed32e8f6867decaecad8faa5edf29926aa56d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 26/62] fix: compare large integers with number bounds and
 enumerations exactly

---
 scalars.go | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/scalars.go b/scalars.go
index 51b15b4..f9961dc 100644
--- a/scalars.go
+++ b/scalars.go
@@ -57,6 +57,27 @@ func toRat(v any) (*big.Rat, bool) {
 	return nil, false
 }
 
+// compareNumbers compares a decoded number with the bound without loss of precision.
+func compareNumbers(v any, bound float64) int {
+	rv, okV := toRat(v)
+	rb, okB := toRat(bound)
+	if okV && okB {
+		return rv.Cmp(rb)
+	}
+	// An infinity has no rational representation.
+	f, ok := v.(float64)
+	if !ok {
+		f, _ = rv.Float64()
+	}
+	switch {
+	case f < bound:
+		return -1
+	case f > bound:
+		return 1
+	}
+	return 0
+}
+
 // equalEnumValues compares two decoded values. Numbers are equal if they have the same numeric value.
 func equalEnumValues(a, b any) bool {
 	ra, okA := toRat(a)
@@ -368,28 +389,17 @@ func (s *NumberShape) alias(source Shape) (Shape, error) {
 }
 
 func (s *NumberShape) validate(v interface{}, _ string) error {
-	var val float64
-	switch v := v.(type) {
-	// go-yaml unmarshals integers as int
-	case int:
-		val = float64(v)
-	case int64:
-		val = float64(v)
-	case uint:
-		val = float64(v)
-	// go-yaml unmarshals integers that exceed int64 as uint64
-	case uint64:
-		val = float64(v)
-	case float64:
-		val = v
+	switch v.(type) {
+	// go-yaml unmarshals integers as int and integers that exceed int64 as uint64
+	case int, int64, uint, uint64, float64:
 	default:
 		return fmt.Errorf("invalid type, got %T, expected int, uint, float64", v)
 	}
 
-	if s.Minimum != nil && val < *s.Minimum {
+	if s.Minimum != nil && compareNumbers(v, *s.Minimum) < 0 {
 		return fmt.Errorf("value must be greater than %f", *s.Minimum)
 	}
-	if s.Maximum != nil && val > *s.Maximum {
+	if s.Maximum != nil && compareNumbers(v, *s.Maximum) > 0 {
 		return fmt.Errorf("value must be less than %f", *s.Maximum)
 	}
 	// TODO: Implement multipleOf validation
@@ -397,7 +407,7 @@ func (s *NumberShape) validate(v interface{}, _ string) error {
 	if s.Enum != nil {
 		found := false
 		for _, e := range s.Enum {
-			if equalEnumValues(e.Value, val) {
+			if equalEnumValues(e.Value, v) {
 				found = true
 				break
 			}
-- 
2.43.0


From a9a8c8b987cc967cdc3ebf3e1074e909a4c72f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 27/62] fix: narrow a union by the members of nested unions and
 by its enumeration

---
 shape.go | 67 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/shape.go b/shape.go
index 76cbc9a..36da5a6 100644
--- a/shape.go
+++ b/shape.go
@@ -253,9 +253,10 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
 		if _, ok := source.Shape.(*AnyShape); ok {
-			return s, nil
+			return s, s.inheritUnionEnum(sourceUnion.Enum)
 		}
-		if source.Type == s.Type {
+		// A member that is a union itself provides its own members.
+		if source.Type == s.Type || source.Type == TypeUnion {
 			// Copy with ID change is required since we create new union members from source members
 			is, err := s.inheritNested(source)
 			if err != nil {
@@ -283,11 +284,13 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	}
 	// If only one union member remains - simplify to target type
 	if len(filtered) == 1 {
-		if filtered[0] == s {
-			return s, nil
+		if filtered[0] != s {
+			// Others may refer to this shape already, so it must be the one that has the inherited facets.
+			if _, err := s.inheritFrom(compatible); err != nil {
+				return nil, err
+			}
 		}
-		// Others may refer to this shape already, so it must be the one that has the inherited facets.
-		return s.inheritFrom(compatible)
+		return s, s.inheritUnionEnum(sourceUnion.Enum)
 	}
 	// Convert target to union
 	s.Type = TypeUnion
@@ -297,7 +300,57 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			AnyOf: filtered,
 		},
 	})
-	return s, nil
+	return s, s.inheritUnionEnum(sourceUnion.Enum)
+}
+
+// inheritUnionEnum restricts the shape that narrows a union to the values that the union enumerates.
+func (s *BaseShape) inheritUnionEnum(source Nodes) error {
+	if source == nil {
+		return nil
+	}
+	var enum *Nodes
+	switch t := s.Shape.(type) {
+	case *IntegerShape:
+		enum = &t.Enum
+	case *NumberShape:
+		enum = &t.Enum
+	case *StringShape:
+		enum = &t.Enum
+	case *BooleanShape:
+		enum = &t.Enum
+	case *UnionShape:
+		enum = &t.Enum
+	default:
+		// Only a union can enumerate values of other types.
+		member := s.CloneShallow()
+		member.ID = s.raml.generateShapeID()
+		union := &UnionShape{BaseShape: s, UnionFacets: UnionFacets{AnyOf: []*BaseShape{member}}}
+		s.Type = TypeUnion
+		s.SetShape(union)
+		enum = &union.Enum
+	}
+	if *enum != nil {
+		if !isCompatibleEnum(source, *enum) {
+			return StacktraceNew("enum constraint violation", s.Location,
+				stacktrace.WithPosition(&s.Position),
+				stacktrace.WithInfo("source", source.String()),
+				stacktrace.WithInfo("target", enum.String()))
+		}
+		return nil
+	}
+	var common Nodes
+	for _, e := range source {
+		if s.Validate(e.Value) == nil {
+			common = append(common, e)
+		}
+	}
+	if len(common) == 0 {
+		return StacktraceNew("no enum values in common", s.Location,
+			stacktrace.WithPosition(&s.Position),
+			stacktrace.WithInfo("source", source.String()))
+	}
+	*enum = common
+	return nil
 }
 
 const HookBeforeBaseShapeInheritUnionTarget = "BaseShape.inheritUnionTarget"
-- 
2.43.0


From ef1d527da2a9918f84aca6f5bf240b8b808fa01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 28/62] fix: let a union drop alternatives of the union it
 narrows

---
 complex.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/complex.go b/complex.go
index 27c88f4..f90c675 100644
--- a/complex.go
+++ b/complex.go
@@ -921,6 +921,12 @@ func (s *UnionShape) validateEnum(v interface{}) error {
 	return fmt.Errorf("value must be one of (%s)", s.Enum.String())
 }
 
+// isCompatibleUnionMember returns true if the target member may narrow the source member.
+func isCompatibleUnionMember(source *BaseShape, target *BaseShape) bool {
+	return source.Type == target.Type || source.Type == TypeAny ||
+		source.Type == TypeUnion || target.Type == TypeUnion
+}
+
 // inherit merges the source shape into the target shape.
 func (s *UnionShape) inherit(source Shape) (Shape, error) {
 	ss, ok := source.(*UnionShape)
@@ -943,10 +949,11 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		return s, nil
 	}
 	var finalFiltered []*BaseShape
-	for _, sourceMember := range ss.AnyOf {
+	// Each member of the target must narrow at least one member of the source.
+	for _, targetMember := range s.AnyOf {
 		var filtered []*BaseShape
-		for _, targetMember := range s.AnyOf {
-			if sourceMember.Type == targetMember.Type {
+		for _, sourceMember := range ss.AnyOf {
+			if isCompatibleUnionMember(sourceMember, targetMember) {
 				// Clone is required to avoid modifying the original target member shape.
 				ms, err := targetMember.inheritNested(sourceMember)
 				if err != nil {
-- 
2.43.0


From 6ca1abac6ca09eb9e8720cad294b28df2ccab744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 29/62] fix: do not recurse forever through unions that contain
 each other

---
 shape.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/shape.go b/shape.go
index 36da5a6..b0e1dc1 100644
--- a/shape.go
+++ b/shape.go
@@ -138,7 +138,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	sourceBase.ShapeVisited = true
 	defer func() { sourceBase.ShapeVisited = false }()
 
-	return s.inheritFrom(sourceBase)
+	return s.inheritFrom(sourceBase, nil)
 }
 
 // inheritNested merges the source into a copy of the shape and returns the copy.
@@ -170,7 +170,21 @@ func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
 	c.ID = r.generateShapeID()
 	c.ShapeVisited = false
 	r.merges[key] = c
-	return c.inheritFrom(sourceBase)
+	return c.inheritFrom(sourceBase, nil)
+}
+
+// inheritUnionMember inherits from a member of a union. The member that is a union itself provides its own members.
+func (s *BaseShape) inheritUnionMember(member *BaseShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
+	if _, ok := member.Shape.(*UnionShape); !ok || s.raml == nil || s.derivesFrom(member) {
+		return s.inheritNested(member)
+	}
+	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
+		return nil, err
+	}
+	c := s.CloneShallow()
+	c.ID = s.raml.generateShapeID()
+	c.ShapeVisited = false
+	return c.inheritFrom(member, inProgress)
 }
 
 // derivesFrom returns true if the shape is the source or refers to it as an alias or as one of its ancestors.
@@ -197,7 +211,7 @@ func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 	return false
 }
 
-func (s *BaseShape) inheritFrom(sourceBase *BaseShape) (*BaseShape, error) {
+func (s *BaseShape) inheritFrom(sourceBase *BaseShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
 	source := sourceBase.Shape
 	target := s.Shape
 
@@ -227,7 +241,7 @@ func (s *BaseShape) inheritFrom(sourceBase *BaseShape) (*BaseShape, error) {
 
 	switch {
 	case isSourceUnion && !isTargetUnion:
-		return s.inheritUnionSource(sourceUnion)
+		return s.inheritUnionMembers(sourceUnion, inProgress)
 
 	case isTargetUnion && !isSourceUnion:
 		return sourceBase.inheritUnionTarget(targetUnion)
@@ -244,9 +258,20 @@ func (s *BaseShape) inheritFrom(sourceBase *BaseShape) (*BaseShape, error) {
 const HookBeforeBaseShapeInheritUnionSource = "BaseShape.inheritUnionSource"
 
 func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, error) {
+	return s.inheritUnionMembers(sourceUnion, nil)
+}
+
+// inheritUnionMembers inherits from the members of the source union and of the unions nested in it.
+// Unions that are in progress are skipped since they cannot provide members through themselves.
+func (s *BaseShape) inheritUnionMembers(sourceUnion *UnionShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInheritUnionSource, sourceUnion); err != nil {
 		return nil, err
 	}
+	if inProgress == nil {
+		inProgress = make(map[*UnionShape]bool)
+	}
+	inProgress[sourceUnion] = true
+	defer delete(inProgress, sourceUnion)
 	var filtered []*BaseShape
 	var compatible *BaseShape
 	var st *stacktrace.StackTrace
@@ -256,9 +281,13 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			return s, s.inheritUnionEnum(sourceUnion.Enum)
 		}
 		// A member that is a union itself provides its own members.
-		if source.Type == s.Type || source.Type == TypeUnion {
+		nested, isNested := source.Shape.(*UnionShape)
+		if isNested && inProgress[nested] {
+			continue
+		}
+		if source.Type == s.Type || isNested {
 			// Copy with ID change is required since we create new union members from source members
-			is, err := s.inheritNested(source)
+			is, err := s.inheritUnionMember(source, inProgress)
 			if err != nil {
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
 					stacktrace.WithPosition(&s.Position))
@@ -286,7 +315,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	if len(filtered) == 1 {
 		if filtered[0] != s {
 			// Others may refer to this shape already, so it must be the one that has the inherited facets.
-			if _, err := s.inheritFrom(compatible); err != nil {
+			if _, err := s.inheritFrom(compatible, inProgress); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 59a76f93fc760300a98eac38ba02701048e0e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:05 +0000
Subject: [PATCH 30/62] fix: give each recursive type its own definition and
 escape references to it

---
 jsonschemaconv.go | 48 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 494542e..7dc4820 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"net/url"
 	"strconv"
+	"strings"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
 )
@@ -41,12 +43,17 @@ type JSONSchemaConverter[T jsonSchemaWrapper[T]] struct {
 	ShapeVisitor[T]
 
 	definitions map[string]T
+	// definitionNames maps shapes to their names in definitions since shape names are not unique.
+	definitionNames map[*BaseShape]string
 
 	opts JSONSchemaConverterOptions[T]
 }
 
 func NewJSONSchemaConverter[T jsonSchemaWrapper[T]](opt ...JSONSchemaConverterOpt[T]) (*JSONSchemaConverter[T], error) {
-	c := &JSONSchemaConverter[T]{definitions: make(map[string]T)}
+	c := &JSONSchemaConverter[T]{
+		definitions:     make(map[string]T),
+		definitionNames: make(map[*BaseShape]string),
+	}
 	for _, o := range opt {
 		o.apply(&c.opts)
 	}
@@ -75,15 +82,14 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		return zero, fmt.Errorf("entrypoint shape must be unwrapped")
 	}
 
-	entrypointName := s.Base().Name
 	c.definitions = make(map[string]T)
-	// NOTE: Assign empty schema before traversing to definitions to occupy the name.
-	c.definitions[entrypointName] = zero
+	c.definitionNames = make(map[*BaseShape]string)
+	entrypointName := c.occupyDefinition(s.Base())
 	c.definitions[entrypointName] = c.Visit(s)
 
 	core := &JSONSchemaGeneric[T]{
 		Version:     JSONSchemaVersion,
-		Ref:         "#/definitions/" + entrypointName,
+		Ref:         definitionRef(entrypointName),
 		Definitions: c.definitions,
 	}
 
@@ -94,6 +100,27 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 	return any(core).(T), nil
 }
 
+// occupyDefinition returns a unique name of definition for the shape and occupies it with an empty schema.
+func (c *JSONSchemaConverter[T]) occupyDefinition(base *BaseShape) string {
+	name := base.Name
+	for i := 2; ; i++ {
+		if _, ok := c.definitions[name]; !ok {
+			break
+		}
+		name = base.Name + "_" + strconv.Itoa(i)
+	}
+	// NOTE: Assign empty schema to definitions to occupy the name before traversing.
+	var placeholder T
+	c.definitions[name] = placeholder
+	c.definitionNames[base] = name
+	return name
+}
+
+// definitionRef returns a reference to the definition with the given name.
+func definitionRef(name string) string {
+	return "#/definitions/" + url.PathEscape(strings.NewReplacer("~", "~0", "/", "~1").Replace(name))
+}
+
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
 	switch shapeType := s.(type) {
 	case *ObjectShape:
@@ -360,15 +387,12 @@ func (c *JSONSchemaConverter[T]) VisitRecursiveShape(s *RecursiveShape) T {
 
 	head := s.Head.Shape
 	baseHead := head.Base()
-	// TODO: Type name is not unique, need pretty naming to avoid collisions.
-	definition := baseHead.Name
-	if _, ok := c.definitions[definition]; !ok {
-		// NOTE: Assign empty schema to definitions to occupy the name before traversing.
-		var placeholder T
-		c.definitions[definition] = placeholder
+	definition, ok := c.definitionNames[baseHead]
+	if !ok {
+		definition = c.occupyDefinition(baseHead)
 		c.definitions[definition] = c.Visit(head)
 	}
-	schema.Ref = "#/definitions/" + definition
+	schema.Ref = definitionRef(definition)
 
 	return node
 }
-- 
2.43.0


From 5faf6630b135e07320585c15843b90e7f68493cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 31/62] fix: complete recursive types after the types they are
 derived from

---
 raml.go   |   2 +-
 unwrap.go | 113 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 104 insertions(+), 11 deletions(-)

diff --git a/raml.go b/raml.go
index e025ea5..d70af55 100644
--- a/raml.go
+++ b/raml.go
@@ -37,7 +37,7 @@ type RAML struct {
 	// unwrapping holds the shapes whose unwrapping is in progress or waits for a shape that is in progress.
 	unwrapping map[*BaseShape]struct{}
 	// postponedUnwraps holds the unwrapping steps that wait for the shapes in progress.
-	postponedUnwraps []func() error
+	postponedUnwraps []*postponedUnwrap
 	// unwrapDepth is the number of nested UnwrapShape calls.
 	unwrapDepth int
 
diff --git a/unwrap.go b/unwrap.go
index 3eb8cda..ddccd31 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -415,7 +415,7 @@ func (r *RAML) inheritParents(base *BaseShape, parents []*BaseShape) error {
 func (r *RAML) unwrapAfter(base *BaseShape, dependencies []*BaseShape, step func() error) error {
 	for _, dependency := range dependencies {
 		if _, incomplete := r.unwrapping[dependency]; incomplete {
-			r.postponedUnwraps = append(r.postponedUnwraps, step)
+			r.postponedUnwraps = append(r.postponedUnwraps, &postponedUnwrap{base: base, dependencies: dependencies, step: step})
 			return nil
 		}
 	}
@@ -423,17 +423,107 @@ func (r *RAML) unwrapAfter(base *BaseShape, dependencies []*BaseShape, step func
 	return step()
 }
 
-// finishUnwrap performs postponed steps in the order they were postponed.
+// postponedUnwrap is the last unwrapping step of a shape that depends on shapes which were not complete.
+type postponedUnwrap struct {
+	base         *BaseShape
+	dependencies []*BaseShape
+	step         func() error
+	running      bool
+	done         bool
+}
+
+// postponedUnwrapRunner performs postponed steps after the steps they depend on.
+type postponedUnwrapRunner struct {
+	steps map[*BaseShape]*postponedUnwrap
+	err   error
+}
+
+// runFor performs the postponed step of the shape, if there is one. It returns false if the step is still in progress.
+func (p *postponedUnwrapRunner) runFor(base *BaseShape) bool {
+	s, ok := p.steps[base]
+	return !ok || p.run(s, false)
+}
+
+// run performs the step unless it depends on a step in progress. It returns true if the step is done.
+func (p *postponedUnwrapRunner) run(s *postponedUnwrap, force bool) bool {
+	if s.done || s.running {
+		return s.done
+	}
+	s.running = true
+	defer func() { s.running = false }()
+	for _, dependency := range s.dependencies {
+		if !p.runFor(dependency) && !force {
+			return false
+		}
+	}
+	// The step may merge members of the shapes.
+	visited := map[*BaseShape]bool{}
+	p.runForMembers(s.base, visited)
+	for _, dependency := range s.dependencies {
+		p.runForMembers(dependency, visited)
+	}
+	s.done = true
+	if err := s.step(); p.err == nil {
+		p.err = err
+	}
+	return true
+}
+
+// runForMembers performs the postponed steps of all members of the shape.
+func (p *postponedUnwrapRunner) runForMembers(base *BaseShape, visited map[*BaseShape]bool) {
+	if base == nil || visited[base] {
+		return
+	}
+	visited[base] = true
+	member := func(m *BaseShape) {
+		if m == nil || visited[m] {
+			return
+		}
+		p.runFor(m)
+		p.runForMembers(m, visited)
+	}
+	switch t := base.Shape.(type) {
+	case *ArrayShape:
+		member(t.Items)
+	case *ObjectShape:
+		for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
+			member(pair.Value.Base)
+		}
+		for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+			member(pair.Value.Base)
+		}
+	case *UnionShape:
+		for _, m := range t.AnyOf {
+			member(m)
+		}
+	}
+}
+
+// finishUnwrap performs postponed steps.
 func (r *RAML) finishUnwrap() error {
-	var err error
-	for _, step := range r.postponedUnwraps {
-		if errStep := step(); err == nil {
-			err = errStep
+	p := &postponedUnwrapRunner{steps: make(map[*BaseShape]*postponedUnwrap, len(r.postponedUnwraps))}
+	for _, s := range r.postponedUnwraps {
+		if s.base != nil {
+			p.steps[s.base] = s
+		}
+	}
+	// A step that is blocked by a step in progress is repeated when the latter is done.
+	for pending := r.postponedUnwraps; len(pending) > 0; {
+		var blocked []*postponedUnwrap
+		for _, s := range pending {
+			if !p.run(s, false) {
+				blocked = append(blocked, s)
+			}
+		}
+		if len(blocked) == len(pending) {
+			p.run(blocked[0], true)
+			blocked = blocked[1:]
 		}
+		pending = blocked
 	}
 	r.postponedUnwraps = nil
 	r.unwrapping = nil
-	return err
+	return p.err
 }
 
 func (r *RAML) UnwrapTarget(target Shape) error {
@@ -526,9 +616,12 @@ func (r *RAML) unwrapBase(base *BaseShape) error {
 		}
 		if _, incomplete := r.unwrapping[us]; incomplete {
 			// The postponed step of the definition may bring its facet definitions back.
-			r.postponedUnwraps = append(r.postponedUnwraps, func() error {
-				us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()
-				return nil
+			r.postponedUnwraps = append(r.postponedUnwraps, &postponedUnwrap{
+				dependencies: []*BaseShape{us},
+				step: func() error {
+					us.CustomShapeFacetDefinitions = orderedmap.New[string, Property]()
+					return nil
+				},
 			})
 		}
 		// Reset custom shape facet definitions since traits cannot have nested traits.
-- 
2.43.0


From 2025ae1e6bdc19513dfdf176e5f775f4c6581074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:31 +0000
Subject: [PATCH 32/62] fix: treat 0 and -0 as the same item of an array of
 unique items

---
 complex.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index f90c675..c73afbe 100644
--- a/complex.go
+++ b/complex.go
@@ -71,8 +71,32 @@ func (s *ArrayShape) alias(source Shape) (Shape, error) {
 	return s, nil
 }
 
+// unsignZero returns v with every negative zero replaced with zero, the two are the same number but have different
+// representations in JSON.
+func unsignZero(v interface{}) interface{} {
+	switch t := v.(type) {
+	case float64:
+		if t == 0 {
+			return float64(0)
+		}
+	case []interface{}:
+		res := make([]interface{}, len(t))
+		for i := range t {
+			res[i] = unsignZero(t[i])
+		}
+		return res
+	case map[string]interface{}:
+		res := make(map[string]interface{}, len(t))
+		for k := range t {
+			res[k] = unsignZero(t[k])
+		}
+		return res
+	}
+	return v
+}
+
 func hashInterfaceFast(v interface{}) (uint64, error) {
-	data, err := json.Marshal(v)
+	data, err := json.Marshal(unsignZero(v))
 	if err != nil {
 		return 0, fmt.Errorf("marshal: %w", err)
 	}
-- 
2.43.0


From 4583529d3f3afd0cc718d81e5e8bfa4ae442b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 33/62] fix: clone the head of a recursive shape and the schema
 of a JSON shape

---
 complex.go | 8 +++++++-
 shape.go   | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index c73afbe..1866411 100644
--- a/complex.go
+++ b/complex.go
@@ -1029,6 +1029,9 @@ func (s *JSONShape) cloneShallow(base *BaseShape) Shape {
 func (s *JSONShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if s.Schema != nil {
+		c.Schema = s.Schema.DeepCopy()
+	}
 	return &c
 }
 
@@ -1141,9 +1144,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if s.Head != nil {
+		c.Head = s.Head.clone(clonedMap)
+	}
 	return &c
 }
 
diff --git a/shape.go b/shape.go
index b0e1dc1..92cf95e 100644
--- a/shape.go
+++ b/shape.go
@@ -506,6 +506,9 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if s.Alias != nil {
 		c.Alias = s.Alias.clone(clonedMap)
 	}
+	if s.aliasOf != nil {
+		c.aliasOf = s.aliasOf.clone(clonedMap)
+	}
 	if s.Inherits != nil {
 		c.Inherits = make([]*BaseShape, len(s.Inherits))
 		for i, v := range s.Inherits {
-- 
2.43.0


From c6410e4eef536d33b93c7456e67f691575554ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 34/62] fix: keep the list of shapes unchanged by validation

---
 validate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/validate.go b/validate.go
index 07b3d2b..0572311 100644
--- a/validate.go
+++ b/validate.go
@@ -209,6 +209,11 @@ func (r *RAML) ValidateShapes() error {
 	// to ensure the original references (aliases and links) match.
 	unwrapCache := make(map[int64]*BaseShape)
 
+	// Shapes that are not unwrapped are validated by their unwrapped copies, which are not a part of the model.
+	shapes := r.shapes
+	r.shapes = nil
+	defer func() { r.shapes = shapes }()
+
 	st := r.validateFragments(unwrapCache)
 
 	if se := r.validateDomainExtensions(unwrapCache); se != nil {
-- 
2.43.0


From 202f2511dfc82d3178e62142071d9a95dcfa5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 35/62] fix: process fragments in the order of their locations

---
 raml.go     | 15 +++++++++++++++
 unwrap.go   |  4 ++--
 validate.go |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/raml.go b/raml.go
index d70af55..7d8dfeb 100644
--- a/raml.go
+++ b/raml.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"fmt"
 	"reflect"
+	"sort"
 )
 
 type HookKey string
@@ -216,6 +217,20 @@ func (r *RAML) GetFragment(location string) Fragment {
 	return r.fragmentsCache[location]
 }
 
+// fragments returns all fragments in the order of their locations.
+func (r *RAML) fragments() []Fragment {
+	locations := make([]string, 0, len(r.fragmentsCache))
+	for location := range r.fragmentsCache {
+		locations = append(locations, location)
+	}
+	sort.Strings(locations)
+	fragments := make([]Fragment, 0, len(locations))
+	for _, location := range locations {
+		fragments = append(fragments, r.fragmentsCache[location])
+	}
+	return fragments
+}
+
 // PutFragment puts a fragment.
 func (r *RAML) PutFragment(location string, fragment Fragment) {
 	if _, ok := r.fragmentsCache[location]; !ok {
diff --git a/unwrap.go b/unwrap.go
index ddccd31..180500c 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -76,7 +76,7 @@ func (r *RAML) unwrapDataType(f *DataType) *stacktrace.StackTrace {
 
 func (r *RAML) unwrapFragments() *stacktrace.StackTrace {
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.fragments() {
 		switch f := frag.(type) {
 		case *Library:
 			se := r.unwrapLibrary(f)
@@ -146,7 +146,7 @@ func (r *RAML) UnwrapShapes() error {
 // markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
 func (r *RAML) markShapeRecursions() error {
 	// TODO: Maybe count shapes here?
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.fragments() {
 		switch f := frag.(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
diff --git a/validate.go b/validate.go
index 0572311..9a9ee46 100644
--- a/validate.go
+++ b/validate.go
@@ -136,7 +136,7 @@ func (r *RAML) validateFragments(unwrapCache map[int64]*BaseShape) *stacktrace.S
 		return StacktraceNewWrapped("handle step", err, r.GetLocation())
 	}
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
+	for _, frag := range r.fragments() {
 		switch f := frag.(type) {
 		case *Library:
 			if err := r.validateLibrary(f, unwrapCache); err != nil {
-- 
2.43.0


From 572dc7a558f2dca66a7f6f3c7b3a297a3eeb4fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 36/62] fix: check custom facets against the definitions of all
 parents

---
 resolve.go  |  4 ++++
 shape.go    | 17 +++++++++++++++++
 unwrap.go   |  4 +++-
 validate.go | 24 ++++++++++++------------
 4 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/resolve.go b/resolve.go
index 2eacd2a..b904ae3 100644
--- a/resolve.go
+++ b/resolve.go
@@ -111,6 +111,10 @@ func (r *RAML) resolveLink(base *BaseShape, shape *UnknownShape) error {
 	if err != nil {
 		return fmt.Errorf("make concrete shape: %w", err)
 	}
+	// Without facets of its own the shape is the linked shape.
+	if shape.facets == nil {
+		base.Alias = linkShape
+	}
 	return nil
 }
 
diff --git a/shape.go b/shape.go
index 92cf95e..a287839 100644
--- a/shape.go
+++ b/shape.go
@@ -169,6 +169,7 @@ func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
 	c := s.CloneShallow()
 	c.ID = r.generateShapeID()
 	c.ShapeVisited = false
+	c.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], sourceBase)
 	r.merges[key] = c
 	return c.inheritFrom(sourceBase, nil)
 }
@@ -187,6 +188,22 @@ func (s *BaseShape) inheritUnionMember(member *BaseShape, inProgress map[*UnionS
 	return c.inheritFrom(member, inProgress)
 }
 
+// ancestors returns all shapes that the shape inherits from, directly or through other shapes, the nearest first.
+func (s *BaseShape) ancestors() []*BaseShape {
+	var ancestors []*BaseShape
+	seen := map[*BaseShape]bool{}
+	for queue := s.Inherits; len(queue) > 0; queue = queue[1:] {
+		parent := queue[0]
+		if parent == nil || seen[parent] {
+			continue
+		}
+		seen[parent] = true
+		ancestors = append(ancestors, parent)
+		queue = append(queue[:len(queue):len(queue)], parent.Inherits...)
+	}
+	return ancestors
+}
+
 // derivesFrom returns true if the shape is the source or refers to it as an alias or as one of its ancestors.
 func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 	sources := map[*BaseShape]bool{}
diff --git a/unwrap.go b/unwrap.go
index 180500c..ceed48e 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -373,7 +373,8 @@ func (r *RAML) unwrapParents(base *BaseShape) ([]*BaseShape, error) {
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
 		}
 		base.Link = nil
-		return []*BaseShape{us}, nil
+		base.Inherits = []*BaseShape{us}
+		return base.Inherits, nil
 	}
 	inherits := base.Inherits
 	for i, inherit := range inherits {
@@ -583,6 +584,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 func (r *RAML) unwrapBase(base *BaseShape) error {
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
+		base.Link = nil
 		us, err := r.UnwrapShape(base.Alias)
 		if err != nil {
 			return StacktraceNewWrapped("alias unwrap", err, base.Location,
diff --git a/validate.go b/validate.go
index 9a9ee46..c49dfcd 100644
--- a/validate.go
+++ b/validate.go
@@ -343,29 +343,29 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateShapeFacets, base); err != nil {
 		return err
 	}
-	// TODO: Doesn't support multiple inheritance.
-	inherits := base.Inherits
+	if _, ok := base.Shape.(*RecursiveShape); ok {
+		// The facets of a recursive shape are the facets of its head, which are validated where the head occurs.
+		return nil
+	}
 	shapeFacetDefs := base.CustomShapeFacetDefinitions
-	validationFacetDefs := make(map[string]Property)
-	for {
-		if len(inherits) == 0 {
-			break
-		}
-		parent := inherits[0]
+	var validationFacetDefs []Property
+	known := make(map[string]struct{})
+	for _, parent := range base.ancestors() {
 		for pair := parent.CustomShapeFacetDefinitions.Oldest(); pair != nil; pair = pair.Next() {
 			f := pair.Value
 			if _, ok := shapeFacetDefs.Get(f.Name); ok {
 				return StacktraceNew("duplicate custom facet", f.Base.Location,
 					stacktrace.WithPosition(&f.Base.Position), stacktrace.WithInfo("facet", f.Name))
 			}
-			validationFacetDefs[f.Name] = f
+			validationFacetDefs = append(validationFacetDefs, f)
+			known[f.Name] = struct{}{}
 		}
-		inherits = parent.Inherits
 	}
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
+	for _, facetDef := range validationFacetDefs {
+		k := facetDef.Name
 		f, ok := shapeFacets.Get(k)
 		if !ok {
 			if facetDef.Required {
@@ -383,7 +383,7 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 	// If we encounter an undefined facet - it's an error.
 	for pair := shapeFacets.Oldest(); pair != nil; pair = pair.Next() {
 		k, f := pair.Key, pair.Value
-		if _, ok := validationFacetDefs[k]; !ok {
+		if _, ok := known[k]; !ok {
 			return StacktraceNew("unknown facet", f.Location, stacktrace.WithPosition(&f.Position),
 				stacktrace.WithInfo("facet", k))
 		}
-- 
2.43.0


From d89f1f1eb4e8dcd8fcfd894e9564b6b5c41ad773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 37/62] fix: do not require custom facets of union members from
 types derived from the union

---
 complex.go |  2 +-
 shape.go   | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/complex.go b/complex.go
index 1866411..aca789b 100644
--- a/complex.go
+++ b/complex.go
@@ -979,7 +979,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, sourceMember := range ss.AnyOf {
 			if isCompatibleUnionMember(sourceMember, targetMember) {
 				// Clone is required to avoid modifying the original target member shape.
-				ms, err := targetMember.inheritNested(sourceMember)
+				ms, err := targetMember.inheritAlternative(sourceMember)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
diff --git a/shape.go b/shape.go
index a287839..65f426b 100644
--- a/shape.go
+++ b/shape.go
@@ -146,6 +146,16 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 // A nested shape (a property, an item or a union member) may be shared with other types, e.g. through an alias or
 // inheritance, so it must not be modified in-place. Merges in progress are remembered since types may be recursive.
 func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
+	return s.mergeNested(sourceBase, []*BaseShape{sourceBase})
+}
+
+// inheritAlternative is inheritNested for a shape that is not derived from the source but from a union that contains it.
+func (s *BaseShape) inheritAlternative(sourceBase *BaseShape) (*BaseShape, error) {
+	return s.mergeNested(sourceBase, sourceBase.Inherits)
+}
+
+// mergeNested merges the source into a copy of the shape that has the given parents besides its own ones.
+func (s *BaseShape) mergeNested(sourceBase *BaseShape, parents []*BaseShape) (*BaseShape, error) {
 	if s.raml == nil {
 		return s.Inherit(sourceBase)
 	}
@@ -169,7 +179,7 @@ func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
 	c := s.CloneShallow()
 	c.ID = r.generateShapeID()
 	c.ShapeVisited = false
-	c.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], sourceBase)
+	c.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], parents...)
 	r.merges[key] = c
 	return c.inheritFrom(sourceBase, nil)
 }
@@ -177,7 +187,7 @@ func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
 // inheritUnionMember inherits from a member of a union. The member that is a union itself provides its own members.
 func (s *BaseShape) inheritUnionMember(member *BaseShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
 	if _, ok := member.Shape.(*UnionShape); !ok || s.raml == nil || s.derivesFrom(member) {
-		return s.inheritNested(member)
+		return s.inheritAlternative(member)
 	}
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
 		return nil, err
@@ -408,7 +418,7 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 	var st *stacktrace.StackTrace
 	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		is, err := item.inheritNested(s)
+		is, err := item.inheritAlternative(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
-- 
2.43.0


From e98bcb10c70228dec2c6e35bb26e84c50b8aec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:03 +0000
Subject: [PATCH 38/62] fix: do not validate examples that are declared as not
 strict

---
 example.go  | 5 ++++-
 validate.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/example.go b/example.go
index 70e752b..3e3257f 100644
--- a/example.go
+++ b/example.go
@@ -22,6 +22,7 @@ func (ex *Example) decode(node *yaml.Node, valueNode *yaml.Node, location string
 		if err := valueNode.Decode(&ex.Strict); err != nil {
 			return StacktraceNewWrapped("decode strict", err, location, WithNodePosition(valueNode))
 		}
+		ex.lax = !ex.Strict
 	case FacetDisplayName:
 		if err := valueNode.Decode(&ex.DisplayName); err != nil {
 			return StacktraceNewWrapped("decode displayName", err, location, WithNodePosition(valueNode))
@@ -112,7 +113,9 @@ type Example struct {
 	Description string
 	Data        *Node
 
-	Strict                 bool
+	Strict bool
+	// lax is true if the document says that the example is not strict, i.e. that it may not match its type.
+	lax                    bool
 	CustomDomainProperties *orderedmap.OrderedMap[string, *DomainExtension]
 
 	Location string
diff --git a/validate.go b/validate.go
index c49dfcd..6e9995b 100644
--- a/validate.go
+++ b/validate.go
@@ -313,7 +313,7 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 	if err := r.callHooks(HookBeforeValidateExamples, base); err != nil {
 		return err
 	}
-	if base.Example != nil {
+	if base.Example != nil && !base.Example.lax {
 		if err := base.Validate(base.Example.Data.Value); err != nil {
 			return StacktraceNewWrapped("validate example", err, base.Example.Location,
 				stacktrace.WithPosition(&base.Example.Position))
@@ -322,6 +322,9 @@ func (r *RAML) validateExamples(base *BaseShape) error {
 	if base.Examples != nil {
 		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
+			if ex.lax {
+				continue
+			}
 			if err := base.Validate(ex.Data.Value); err != nil {
 				return StacktraceNewWrapped("validate example", err, ex.Location,
 					stacktrace.WithPosition(&ex.Position))
-- 
2.43.0


From c2aadf44afa8498e86d7a4d87efdb018a64a5723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 39/62] fix: copy schema values deeply and keep empty maps of a
 schema

---
 schema.go | 83 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 19 deletions(-)

diff --git a/schema.go b/schema.go
index f0d4b2c..0ccd3d3 100644
--- a/schema.go
+++ b/schema.go
@@ -103,15 +103,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 		copy(newJs.Required, js.Required)
 	}
 
-	if len(js.Examples) > 0 {
-		newJs.Examples = make([]any, len(js.Examples))
-		copy(newJs.Examples, js.Examples)
-	}
-
-	if len(js.Enum) > 0 {
-		newJs.Enum = make([]any, len(js.Enum))
-		copy(newJs.Enum, js.Enum)
-	}
+	newJs.Examples = copyDataSlice(js.Examples)
+	newJs.Enum = copyDataSlice(js.Enum)
+	newJs.Const = copyData(js.Const)
+	newJs.Default = copyData(js.Default)
+
+	newJs.AdditionalProperties = copyPtr(js.AdditionalProperties)
+	newJs.MaxLength = copyPtr(js.MaxLength)
+	newJs.MinLength = copyPtr(js.MinLength)
+	newJs.MaxItems = copyPtr(js.MaxItems)
+	newJs.MinItems = copyPtr(js.MinItems)
+	newJs.UniqueItems = copyPtr(js.UniqueItems)
+	newJs.MaxContains = copyPtr(js.MaxContains)
+	newJs.MinContains = copyPtr(js.MinContains)
+	newJs.MaxProperties = copyPtr(js.MaxProperties)
+	newJs.MinProperties = copyPtr(js.MinProperties)
 
 	if len(js.AnyOf) > 0 {
 		newJs.AnyOf = make([]T, len(js.AnyOf))
@@ -141,21 +147,21 @@ func (js *JSONSchemaGeneric[T]) DeepCopy() *JSONSchemaGeneric[T] {
 	newJs.Items = js.Items.DeepCopy()
 	newJs.PropertyNames = js.PropertyNames.DeepCopy()
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		newJs.Properties = orderedmap.New[string, T](js.Properties.Len())
 		for p := js.Properties.Oldest(); p != nil; p = p.Next() {
 			newJs.Properties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		newJs.PatternProperties = orderedmap.New[string, T](js.PatternProperties.Len())
 		for p := js.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			newJs.PatternProperties.Set(p.Key, p.Value.DeepCopy())
 		}
 	}
 
-	if len(js.Definitions) > 0 {
+	if js.Definitions != nil {
 		newJs.Definitions = make(map[string]T, len(js.Definitions))
 		for k, v := range js.Definitions {
 			newJs.Definitions[k] = v.DeepCopy()
@@ -318,14 +324,14 @@ func (js *JSONSchemaGeneric[T]) Map() map[string]any {
 		out["items"] = v
 	}
 
-	if js.Properties.Len() > 0 {
+	if js.Properties != nil {
 		o := make(map[string]any, js.Properties.Len())
 		for el := js.Properties.Oldest(); el != nil; el = el.Next() {
 			o[el.Key] = el.Value.Map()
 		}
 		out["properties"] = o
 	}
-	if js.PatternProperties.Len() > 0 {
+	if js.PatternProperties != nil {
 		o := make(map[string]any, js.PatternProperties.Len())
 		for el := js.PatternProperties.Oldest(); el != nil; el = el.Next() {
 			o[el.Key] = el.Value.Map()
@@ -425,7 +431,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.Annotations != nil {
 		newJs.Annotations = orderedmap.New[string, any](js.Annotations.Len())
 		for p := js.Annotations.Oldest(); p != nil; p = p.Next() {
-			newJs.Annotations.Set(p.Key, p.Value)
+			newJs.Annotations.Set(p.Key, copyData(p.Value))
 		}
 	}
 	if js.FacetDefinitions != nil {
@@ -437,7 +443,7 @@ func (js *JSONSchemaRAML) DeepCopy() *JSONSchemaRAML {
 	if js.FacetData != nil {
 		newJs.FacetData = orderedmap.New[string, any](js.FacetData.Len())
 		for p := js.FacetData.Oldest(); p != nil; p = p.Next() {
-			newJs.FacetData.Set(p.Key, p.Value)
+			newJs.FacetData.Set(p.Key, copyData(p.Value))
 		}
 	}
 	return newJs
@@ -448,21 +454,21 @@ func (js *JSONSchemaRAML) Map() map[string]any {
 		return nil
 	}
 	m := js.JSONSchemaGeneric.Map()
-	if js.Annotations != nil && js.Annotations.Len() > 0 {
+	if js.Annotations != nil {
 		annotations := make(map[string]any, js.Annotations.Len())
 		for p := js.Annotations.Oldest(); p != nil; p = p.Next() {
 			annotations[p.Key] = p.Value
 		}
 		m["x-annotations"] = annotations
 	}
-	if js.FacetDefinitions != nil && js.FacetDefinitions.Len() > 0 {
+	if js.FacetDefinitions != nil {
 		facetDefs := make(map[string]any, js.FacetDefinitions.Len())
 		for p := js.FacetDefinitions.Oldest(); p != nil; p = p.Next() {
 			facetDefs[p.Key] = p.Value.Map()
 		}
 		m["x-facet-definitions"] = facetDefs
 	}
-	if js.FacetData != nil && js.FacetData.Len() > 0 {
+	if js.FacetData != nil {
 		facetData := make(map[string]any, js.FacetData.Len())
 		for p := js.FacetData.Oldest(); p != nil; p = p.Next() {
 			facetData[p.Key] = p.Value
@@ -504,6 +510,45 @@ func JSONSchemaWrapper(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchema
 	return w
 }
 
+// copyPtr returns a pointer to a copy of the value.
+func copyPtr[V any](p *V) *V {
+	if p == nil {
+		return nil
+	}
+	v := *p
+	return &v
+}
+
+// copyData returns a deep copy of a data value.
+func copyData(v any) any {
+	switch val := v.(type) {
+	case map[string]any:
+		if val == nil {
+			return val
+		}
+		m := make(map[string]any, len(val))
+		for k, item := range val {
+			m[k] = copyData(item)
+		}
+		return m
+	case []any:
+		return copyDataSlice(val)
+	default:
+		return v
+	}
+}
+
+func copyDataSlice(s []any) []any {
+	if s == nil {
+		return nil
+	}
+	items := make([]any, len(s))
+	for i, item := range s {
+		items[i] = copyData(item)
+	}
+	return items
+}
+
 func uint64PtrToNumber(p *uint64) json.Number {
 	if p == nil {
 		return ""
-- 
2.43.0


From 41e573f90793c0f45dc7eb2841e73d6114790184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:39 +0000
Subject: [PATCH 40/62] fix: do not share values of the model with converted
 schemas

---
 jsonschemaconv.go | 70 +++++++++++++++++++++++------------------------
 schema.go         |  4 +--
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 7dc4820..3d42888 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -166,9 +166,9 @@ func (c *JSONSchemaConverter[T]) VisitObjectShape(s *ObjectShape) T {
 	schema := node.Generic()
 
 	schema.Type = TypeObject
-	schema.MinProperties = s.MinProperties
-	schema.MaxProperties = s.MaxProperties
-	schema.AdditionalProperties = s.AdditionalProperties
+	schema.MinProperties = copyPtr(s.MinProperties)
+	schema.MaxProperties = copyPtr(s.MaxProperties)
+	schema.AdditionalProperties = copyPtr(s.AdditionalProperties)
 
 	if s.Properties != nil {
 		schema.Properties = orderedmap.New[string, T](s.Properties.Len())
@@ -196,9 +196,9 @@ func (c *JSONSchemaConverter[T]) VisitArrayShape(s *ArrayShape) T {
 	schema := node.Generic()
 
 	schema.Type = "array"
-	schema.MinItems = s.MinItems
-	schema.MaxItems = s.MaxItems
-	schema.UniqueItems = s.UniqueItems
+	schema.MinItems = copyPtr(s.MinItems)
+	schema.MaxItems = copyPtr(s.MaxItems)
+	schema.UniqueItems = copyPtr(s.UniqueItems)
 
 	if s.Items != nil {
 		schema.Items = c.Visit(s.Items.Shape)
@@ -217,7 +217,7 @@ func (c *JSONSchemaConverter[T]) VisitUnionShape(s *UnionShape) T {
 	if s.Enum != nil {
 		schema.Enum = make([]interface{}, len(s.Enum))
 		for i, v := range s.Enum {
-			schema.Enum[i] = v.Value
+			schema.Enum[i] = copyData(v.Value)
 		}
 	}
 	return node
@@ -227,15 +227,15 @@ func (c *JSONSchemaConverter[T]) VisitStringShape(s *StringShape) T {
 	node := c.makeSchemaFromBaseShape(s.Base())
 	schema := node.Generic()
 	schema.Type = TypeString
-	schema.MinLength = s.MinLength
-	schema.MaxLength = s.MaxLength
+	schema.MinLength = copyPtr(s.MinLength)
+	schema.MaxLength = copyPtr(s.MaxLength)
 	if s.Pattern != nil {
 		schema.Pattern = s.Pattern.String()
 	}
 	if s.Enum != nil {
 		schema.Enum = make([]interface{}, len(s.Enum))
 		for i, v := range s.Enum {
-			schema.Enum[i] = v.Value
+			schema.Enum[i] = copyData(v.Value)
 		}
 	}
 	return node
@@ -257,7 +257,7 @@ func (c *JSONSchemaConverter[T]) VisitIntegerShape(s *IntegerShape) T {
 	if s.Enum != nil {
 		schema.Enum = make([]interface{}, len(s.Enum))
 		for i, v := range s.Enum {
-			schema.Enum[i] = v.Value
+			schema.Enum[i] = copyData(v.Value)
 		}
 	}
 	// TODO: JSON Schema does not have a format for numbers
@@ -280,7 +280,7 @@ func (c *JSONSchemaConverter[T]) VisitNumberShape(s *NumberShape) T {
 	if s.Enum != nil {
 		schema.Enum = make([]interface{}, len(s.Enum))
 		for i, v := range s.Enum {
-			schema.Enum[i] = v.Value
+			schema.Enum[i] = copyData(v.Value)
 		}
 	}
 	// TODO: JSON Schema does not have a format for numbers
@@ -291,8 +291,8 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	node := c.makeSchemaFromBaseShape(s.Base())
 	schema := node.Generic()
 	schema.Type = TypeString
-	schema.MinLength = s.MinLength
-	schema.MaxLength = s.MaxLength
+	schema.MinLength = copyPtr(s.MinLength)
+	schema.MaxLength = copyPtr(s.MaxLength)
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
@@ -314,7 +314,7 @@ func (c *JSONSchemaConverter[T]) VisitBooleanShape(s *BooleanShape) T {
 	if s.Enum != nil {
 		schema.Enum = make([]interface{}, len(s.Enum))
 		for i, v := range s.Enum {
-			schema.Enum[i] = v.Value
+			schema.Enum[i] = copyData(v.Value)
 		}
 	}
 	return node
@@ -451,33 +451,33 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 
 		Items: c.recast(src.Items),
 
-		AdditionalProperties: src.AdditionalProperties,
+		AdditionalProperties: copyPtr(src.AdditionalProperties),
 		PropertyNames:        c.recast(src.PropertyNames),
 		Type:                 src.Type,
-		Enum:                 src.Enum,
-		Const:                src.Const,
+		Enum:                 copyDataSlice(src.Enum),
+		Const:                copyData(src.Const),
 		MultipleOf:           src.MultipleOf,
 		Maximum:              src.Maximum,
 		Minimum:              src.Minimum,
-		MaxLength:            src.MaxLength,
-		MinLength:            src.MinLength,
+		MaxLength:            copyPtr(src.MaxLength),
+		MinLength:            copyPtr(src.MinLength),
 		Pattern:              src.Pattern,
-		MaxItems:             src.MaxItems,
-		MinItems:             src.MinItems,
-		UniqueItems:          src.UniqueItems,
-		MaxContains:          src.MaxContains,
-		MinContains:          src.MinContains,
-		MaxProperties:        src.MaxProperties,
-		MinProperties:        src.MinProperties,
-		Required:             src.Required,
+		MaxItems:             copyPtr(src.MaxItems),
+		MinItems:             copyPtr(src.MinItems),
+		UniqueItems:          copyPtr(src.UniqueItems),
+		MaxContains:          copyPtr(src.MaxContains),
+		MinContains:          copyPtr(src.MinContains),
+		MaxProperties:        copyPtr(src.MaxProperties),
+		MinProperties:        copyPtr(src.MinProperties),
+		Required:             append([]string(nil), src.Required...),
 		ContentEncoding:      src.ContentEncoding,
 		ContentMediaType:     src.ContentMediaType,
 		Format:               src.Format,
 
 		Title:       src.Title,
 		Description: src.Description,
-		Default:     src.Default,
-		Examples:    src.Examples,
+		Default:     copyData(src.Default),
+		Examples:    copyDataSlice(src.Examples),
 	}
 
 	if len(src.AnyOf) > 0 {
@@ -498,13 +498,13 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 			core.OneOf[i] = c.recast(it)
 		}
 	}
-	if src.Properties.Len() > 0 {
+	if src.Properties != nil {
 		core.Properties = orderedmap.New[string, T](src.Properties.Len())
 		for p := src.Properties.Oldest(); p != nil; p = p.Next() {
 			core.Properties.Set(p.Key, c.recast(p.Value))
 		}
 	}
-	if src.PatternProperties.Len() > 0 {
+	if src.PatternProperties != nil {
 		core.PatternProperties = orderedmap.New[string, T](src.PatternProperties.Len())
 		for p := src.PatternProperties.Oldest(); p != nil; p = p.Next() {
 			core.PatternProperties.Set(p.Key, c.recast(p.Value))
@@ -539,16 +539,16 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 		core.Description = *base.Description
 	}
 	if base.Default != nil {
-		core.Default = base.Default.Value
+		core.Default = copyData(base.Default.Value)
 	}
 	if base.Examples != nil {
 		for pair := base.Examples.Map.Oldest(); pair != nil; pair = pair.Next() {
 			ex := pair.Value
-			core.Examples = append(core.Examples, ex.Data.Value)
+			core.Examples = append(core.Examples, copyData(ex.Data.Value))
 		}
 	}
 	if base.Example != nil {
-		core.Examples = []any{base.Example.Data.Value}
+		core.Examples = []any{copyData(base.Example.Data.Value)}
 	}
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, base)
diff --git a/schema.go b/schema.go
index 0ccd3d3..a9c763f 100644
--- a/schema.go
+++ b/schema.go
@@ -489,7 +489,7 @@ func JSONSchemaWrapper(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchema
 	if n := b.CustomDomainProperties.Len(); n > 0 {
 		m := orderedmap.New[string, any](n)
 		for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
-			m.Set(p.Key, p.Value.Extension.Value)
+			m.Set(p.Key, copyData(p.Value.Extension.Value))
 		}
 		w.Annotations = m
 	}
@@ -503,7 +503,7 @@ func JSONSchemaWrapper(c *JSONSchemaConverter[*JSONSchemaRAML], core *JSONSchema
 	if n := b.CustomShapeFacets.Len(); n > 0 {
 		m := orderedmap.New[string, any](n)
 		for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
-			m.Set(p.Key, p.Value.Value)
+			m.Set(p.Key, copyData(p.Value.Value))
 		}
 		w.FacetData = m
 	}
-- 
2.43.0


From 5e6c1241eb7ac99b1b8000ddeef03a36bb39bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:32 +0000
Subject: [PATCH 41/62] fix: do not modify lists of hooks in-place

---
 raml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 7d8dfeb..0b5be3d 100644
--- a/raml.go
+++ b/raml.go
@@ -73,7 +73,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// NOTE: The list must not be modified in-place: it may be in use by callHooks or shared through the context.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
@@ -87,7 +88,7 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From ea833a8ce439427b02d58c3a309748d2f6d62dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:02 +0000
Subject: [PATCH 42/62] fix: report hook errors of anonymous members in type
 expressions instead of panicking

---
 rdt_visitor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rdt_visitor.go b/rdt_visitor.go
index 291883c..142baf0 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make new shape: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
-- 
2.43.0


From 0968500b40d0e34a4cf807bec2972a30e7f7ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 43/62] fix: decode JSON files included inside collections

---
 node.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node.go b/node.go
index 728ab77..a9b3f8f 100644
--- a/node.go
+++ b/node.go
@@ -167,6 +167,14 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 					WithNodePosition(node))
 			}
 			return string(v), nil
+		case ".json":
+			var data any
+			d := json.NewDecoder(r)
+			if errDecode := d.Decode(&data); errDecode != nil {
+				return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
+					WithNodePosition(node))
+			}
+			return data, nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
-- 
2.43.0


From 77c88eda611a33acb6d115927eb33891b2727aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:46 +0000
Subject: [PATCH 44/62] fix: reject included JSON files with data after the
 value

---
 node.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/node.go b/node.go
index a9b3f8f..a272a63 100644
--- a/node.go
+++ b/node.go
@@ -63,9 +63,8 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 		}
 		value = string(v)
 	case ".json":
-		var data any
-		d := json.NewDecoder(rdr)
-		if errDecode := d.Decode(&data); errDecode != nil {
+		data, errDecode := decodeJSON(rdr)
+		if errDecode != nil {
 			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
 		}
 		value = data
@@ -123,6 +122,19 @@ func (r *RAML) makeYamlNode(node *yaml.Node, location string) (*Node, error) {
 	}, nil
 }
 
+// decodeJSON decodes the JSON value that the reader consists of.
+func decodeJSON(r io.Reader) (any, error) {
+	d := json.NewDecoder(r)
+	var data any
+	if err := d.Decode(&data); err != nil {
+		return nil, err
+	}
+	if _, err := d.Token(); err != io.EOF {
+		return nil, fmt.Errorf("unexpected data after JSON value")
+	}
+	return data, nil
+}
+
 func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any, error) {
 	switch node.Tag {
 	default:
@@ -168,9 +180,8 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 			}
 			return string(v), nil
 		case ".json":
-			var data any
-			d := json.NewDecoder(r)
-			if errDecode := d.Decode(&data); errDecode != nil {
+			data, errDecode := decodeJSON(r)
+			if errDecode != nil {
 				return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
 					WithNodePosition(node))
 			}
-- 
2.43.0


From e1f4a927eee672d4602fb873a05a2d405038adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 45/62] fix: reject JSON data types that are empty or not an
 object, accept leading whitespace

---
 fragment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fragment.go b/fragment.go
index 072ab5a..0fca0b6 100644
--- a/fragment.go
+++ b/fragment.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"bytes"
 	"fmt"
 	"path/filepath"
 
@@ -381,6 +382,11 @@ func (r *RAML) MakeDataType(path string) *DataType {
 }
 
 func (r *RAML) MakeJSONDataType(value []byte, path string) (*DataType, error) {
+	// The content must be an object: anything else would be taken for a type expression.
+	value = bytes.TrimSpace(value)
+	if len(value) == 0 || value[0] != '{' {
+		return nil, StacktraceNew("JSON data type must be an object", path)
+	}
 	dt := r.MakeDataType(path)
 	// Convert to yaml node to reuse the same data node creation interface
 	node := &yaml.Node{
-- 
2.43.0


From 9f604544c324170242a55b34e43ebec00af10c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 46/62] fix: report positions together with the file they
 belong to

---
 complex.go | 22 +++++++++++-----------
 node.go    | 15 +++++++++------
 scalars.go |  8 ++++----
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/complex.go b/complex.go
index aca789b..e225446 100644
--- a/complex.go
+++ b/complex.go
@@ -156,7 +156,7 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	} else if ss.Items != nil {
 		is, err := s.Items.inheritNested(ss.Items)
 		if err != nil {
-			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
+			return nil, StacktraceNewWrapped("merge array items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 		s.Items = is
@@ -192,7 +192,7 @@ func (s *ArrayShape) check() error {
 	}
 	if s.Items != nil {
 		if err := s.Items.Check(); err != nil {
-			return StacktraceNewWrapped("check items", err, s.Location,
+			return StacktraceNewWrapped("check items", err, s.Items.Location,
 				stacktrace.WithPosition(&s.Items.Position))
 		}
 	}
@@ -450,7 +450,7 @@ func (s *ObjectShape) validatePatternProperty(
 		if err == nil {
 			return true, nil
 		}
-		se := StacktraceNewWrapped("validate pattern property", err, s.Location,
+		se := StacktraceNewWrapped("validate pattern property", err, pp.Base.Location,
 			stacktrace.WithPosition(&pp.Base.Position),
 			stacktrace.WithInfo("property", pp.Pattern.String()))
 		if st == nil {
@@ -584,7 +584,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 		k, sourceProp := pair.Key, pair.Value
 		if targetProp, present := s.Properties.Get(k); present {
 			if sourceProp.Required && !targetProp.Required {
-				return StacktraceNew("cannot make required property optional", s.Location,
+				return StacktraceNew("cannot make required property optional", targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithInfo("source", sourceProp.Required),
@@ -593,7 +593,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 			}
 			is, err := targetProp.Base.inheritNested(sourceProp.Base)
 			if err != nil {
-				return StacktraceNewWrapped("inherit property", err, s.Location,
+				return StacktraceNewWrapped("inherit property", err, targetProp.Base.Location,
 					stacktrace.WithPosition(&targetProp.Base.Position),
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -618,7 +618,7 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 			if targetProp, present := s.PatternProperties.Get(k); present {
 				is, err := targetProp.Base.inheritNested(sourceProp.Base)
 				if err != nil {
-					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
+					return StacktraceNewWrapped("inherit pattern property", err, targetProp.Base.Location,
 						stacktrace.WithPosition(&targetProp.Base.Position),
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
@@ -688,7 +688,7 @@ func (s *ObjectShape) checkPatternProperties() error {
 	for pair := s.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check pattern property", err, s.Location,
+			return StacktraceNewWrapped("check pattern property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Pattern.String()))
 		}
@@ -704,7 +704,7 @@ func (s *ObjectShape) checkProperties() error {
 	for pair := s.Properties.Oldest(); pair != nil; pair = pair.Next() {
 		prop := pair.Value
 		if err := prop.Base.Check(); err != nil {
-			return StacktraceNewWrapped("check property", err, s.Location,
+			return StacktraceNewWrapped("check property", err, prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("property", prop.Name))
 		}
@@ -720,7 +720,7 @@ func (s *ObjectShape) checkProperties() error {
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
 		if !prop.Base.IsScalar() {
-			return StacktraceNew("discriminator property must be a scalar", s.Location,
+			return StacktraceNew("discriminator property must be a scalar", prop.Base.Location,
 				stacktrace.WithPosition(&prop.Base.Position),
 				stacktrace.WithInfo("discriminator", *s.Discriminator))
 		}
@@ -922,7 +922,7 @@ func (s *UnionShape) validate(v interface{}, ctxPath string) error {
 			StacktraceNewWrapped(
 				"validate union member",
 				err,
-				s.Location,
+				item.Location,
 				stacktrace.WithPosition(&item.Position),
 				stacktrace.WithInfo("type", item.Type),
 				stacktrace.WithInfo("name", item.Name),
@@ -1001,7 +1001,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 func (s *UnionShape) check() error {
 	for _, item := range s.AnyOf {
 		if err := item.Check(); err != nil {
-			return StacktraceNewWrapped("check union member", err, s.Location,
+			return StacktraceNewWrapped("check union member", err, item.Location,
 				stacktrace.WithPosition(&item.Position))
 		}
 	}
diff --git a/node.go b/node.go
index a272a63..d3fa9c4 100644
--- a/node.go
+++ b/node.go
@@ -59,31 +59,34 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 	default:
 		v, errDecode := io.ReadAll(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: read all", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: read all", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value = string(v)
 	case ".json":
 		data, errDecode := decodeJSON(rdr)
 		if errDecode != nil {
-			return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: json decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value = data
 	case ".yaml", ".yml":
 		var data yaml.Node
 		d := yaml.NewDecoder(rdr)
 		if errDecode := d.Decode(&data); errDecode != nil {
-			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath, WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
+				stacktrace.WithInfo("path", fragmentPath))
 		}
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
-			return nil, StacktraceNewWrapped("include: yaml node to data node", err, fragmentPath,
-				WithNodePosition(node))
+			return nil, StacktraceNewWrapped("include: yaml node to data node", err, location,
+				WithNodePosition(node), stacktrace.WithInfo("path", fragmentPath))
 		}
 	}
 	return &Node{
 		Value:    value,
 		Location: fragmentPath,
-		Position: stacktrace.Position{Line: node.Line, Column: node.Column},
+		Position: stacktrace.Position{Line: 1, Column: 1},
 		raml:     r,
 	}, nil
 }
diff --git a/scalars.go b/scalars.go
index f9961dc..b2536b9 100644
--- a/scalars.go
+++ b/scalars.go
@@ -266,7 +266,7 @@ func (s *IntegerShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64:
 			default:
-				return StacktraceNew("enum value must be int or uint", s.Location,
+				return StacktraceNew("enum value must be int or uint", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -478,7 +478,7 @@ func (s *NumberShape) check() error {
 			switch e.Value.(type) {
 			case int, int64, uint, uint64, float64:
 			default:
-				return StacktraceNew("enum value must be int, uint, float64", s.Location,
+				return StacktraceNew("enum value must be int, uint, float64", e.Location,
 					stacktrace.WithPosition(&e.Position))
 			}
 		}
@@ -658,7 +658,7 @@ func (s *StringShape) check() error {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(string); !ok {
 				return StacktraceNew("enum value must be string",
-					s.Location, stacktrace.WithPosition(&e.Position))
+					e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
@@ -937,7 +937,7 @@ func (s *BooleanShape) check() error {
 	if s.Enum != nil {
 		for _, e := range s.Enum {
 			if _, ok := e.Value.(bool); !ok {
-				return StacktraceNew("enum value must be boolean", s.Location, stacktrace.WithPosition(&e.Position))
+				return StacktraceNew("enum value must be boolean", e.Location, stacktrace.WithPosition(&e.Position))
 			}
 		}
 	}
-- 
2.43.0


From 79cb7fa2bd5db6aa2ca681403a4f569e78cdf930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:48 +0000
Subject: [PATCH 47/62] fix: report offending items and union members at their
 own position

---
 validate.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/validate.go b/validate.go
index 6e9995b..4302e7b 100644
--- a/validate.go
+++ b/validate.go
@@ -278,15 +278,15 @@ func (r *RAML) validateShapeCommons(s *BaseShape) error {
 	case *ArrayShape:
 		if shape.Items != nil {
 			if err := r.validateShapeCommons(shape.Items); err != nil {
-				return StacktraceNewWrapped("validate items", err, shape.Base().Location,
-					stacktrace.WithPosition(&shape.Base().Position))
+				return StacktraceNewWrapped("validate items", err, shape.Items.Location,
+					stacktrace.WithPosition(&shape.Items.Position))
 			}
 		}
 	case *UnionShape:
 		for _, item := range shape.AnyOf {
 			if err := r.validateShapeCommons(item); err != nil {
-				return StacktraceNewWrapped("validate union item", err, shape.Base().Location,
-					stacktrace.WithPosition(&shape.Base().Position))
+				return StacktraceNewWrapped("validate union item", err, item.Location,
+					stacktrace.WithPosition(&item.Position))
 			}
 		}
 	}
-- 
2.43.0


From 163871c0d42497f94122a8f83a2d9089b4cd587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:27 +0000
Subject: [PATCH 48/62] fix: report the position of failing includes of data
 and of libraries imported by a data type

---
 node.go  | 12 ++++++------
 parse.go |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/node.go b/node.go
index d3fa9c4..e75aaf3 100644
--- a/node.go
+++ b/node.go
@@ -178,23 +178,23 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 		default:
 			v, errRead := io.ReadAll(r)
 			if errRead != nil {
-				return nil, StacktraceNewWrapped("include: read all", errRead, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: read all", errRead, location,
+					WithNodePosition(node), stacktrace.WithInfo("path", fragmentPath))
 			}
 			return string(v), nil
 		case ".json":
 			data, errDecode := decodeJSON(r)
 			if errDecode != nil {
-				return nil, StacktraceNewWrapped("include: json decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: json decode", errDecode, location,
+					WithNodePosition(node), stacktrace.WithInfo("path", fragmentPath))
 			}
 			return data, nil
 		case ".yaml", ".yml":
 			var data yaml.Node
 			d := yaml.NewDecoder(r)
 			if errDecode := d.Decode(&data); errDecode != nil {
-				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, fragmentPath,
-					WithNodePosition(node))
+				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location,
+					WithNodePosition(node), stacktrace.WithInfo("path", fragmentPath))
 			}
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
diff --git a/parse.go b/parse.go
index d3fb988..d10024e 100644
--- a/parse.go
+++ b/parse.go
@@ -95,7 +95,7 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		sublib, err := r.parseLibrary(filepath.Join(baseDir, include.Value))
 		if err != nil {
 			return nil, StacktraceNewWrapped("parse library", err, dt.Location,
-				stacktrace.WithType(StacktraceTypeParsing))
+				stacktrace.WithType(StacktraceTypeParsing), stacktrace.WithPosition(&include.Position))
 		}
 		include.Link = sublib
 	}
-- 
2.43.0


From cb3a98cf110f694b0d09461ec039dae07fa8e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:23 +0000
Subject: [PATCH 49/62] fix: keep timestamps of discriminatorValue as strings

---
 complex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index e225446..24432f3 100644
--- a/complex.go
+++ b/complex.go
@@ -312,11 +312,13 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetDiscriminator))
 		}
 	case FacetDiscriminatorValue:
-		if err := valueNode.Decode(&s.DiscriminatorValue); err != nil {
+		value, err := yamlNodeToDataNode(valueNode, s.Location, false)
+		if err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetDiscriminatorValue))
 		}
+		s.DiscriminatorValue = value
 	case FacetMinProperties:
 		if err := valueNode.Decode(&s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
-- 
2.43.0


From ccba3eca56baf8fad16ffefabc363bf80410ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:25 +0000
Subject: [PATCH 50/62] fix: read integer bounds in every notation of YAML

---
 scalars.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scalars.go b/scalars.go
index b2536b9..7d8abb0 100644
--- a/scalars.go
+++ b/scalars.go
@@ -6,6 +6,7 @@ import (
 	"math/big"
 	"reflect"
 	"regexp"
+	"strings"
 	"time"
 	"unicode/utf8"
 
@@ -280,13 +281,18 @@ func (s *IntegerShape) check() error {
 	return nil
 }
 
+// parseInteger parses a YAML integer of any size and notation, in the way the YAML decoder does.
+func parseInteger(value string) (*big.Int, bool) {
+	return new(big.Int).SetString(strings.ReplaceAll(value, "_", ""), 0)
+}
+
 func (s *IntegerShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 	switch node.Value {
 	case FacetMinimum:
 		if valueNode.Tag != TagInt {
 			return StacktraceNew("minimum must be integer", s.Location, WithNodePosition(valueNode))
 		}
-		num, ok := big.NewInt(0).SetString(valueNode.Value, 10)
+		num, ok := parseInteger(valueNode.Value)
 		if !ok {
 			return StacktraceNew("invalid minimum value", s.Location, WithNodePosition(valueNode))
 		}
@@ -295,7 +301,7 @@ func (s *IntegerShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		if valueNode.Tag != TagInt {
 			return StacktraceNew("maximum must be integer", s.Location, WithNodePosition(valueNode))
 		}
-		num, ok := big.NewInt(0).SetString(valueNode.Value, 10)
+		num, ok := parseInteger(valueNode.Value)
 		if !ok {
 			return StacktraceNew("invalid maximum value", s.Location, WithNodePosition(valueNode))
 		}
-- 
2.43.0


From d64752ff2dc82e8cff148509d23409b388b86192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:43 +0000
Subject: [PATCH 51/62] fix: narrow a union by a type derived from one of its
 members without making it a member of itself

---
 shape.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shape.go b/shape.go
index 65f426b..477e1a0 100644
--- a/shape.go
+++ b/shape.go
@@ -348,6 +348,13 @@ func (s *BaseShape) inheritUnionMembers(sourceUnion *UnionShape, inProgress map[
 		}
 		return s, s.inheritUnionEnum(sourceUnion.Enum)
 	}
+	// A shape derived from a member is returned as is, it needs a copy to become a member of the union it turns into.
+	for i, member := range filtered {
+		if member == s && s.raml != nil {
+			filtered[i] = s.CloneShallow()
+			filtered[i].ID = s.raml.generateShapeID()
+		}
+	}
 	// Convert target to union
 	s.Type = TypeUnion
 	s.SetShape(&UnionShape{
-- 
2.43.0


From fd3b46971ece2287b0f00525fab774da28e9e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:51 +0000
Subject: [PATCH 52/62] fix: know the custom facets of the only union member
 that a narrowing type is compatible with

---
 shape.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shape.go b/shape.go
index 477e1a0..c5f06cc 100644
--- a/shape.go
+++ b/shape.go
@@ -342,6 +342,9 @@ func (s *BaseShape) inheritUnionMembers(sourceUnion *UnionShape, inProgress map[
 	if len(filtered) == 1 {
 		if filtered[0] != s {
 			// Others may refer to this shape already, so it must be the one that has the inherited facets.
+			if _, isUnion := compatible.Shape.(*UnionShape); !isUnion {
+				s.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], compatible.Inherits...)
+			}
 			if _, err := s.inheritFrom(compatible, inProgress); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 8e1f99b2bfa3d644fe3cff214369b5d1bfeeeb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:25 +0000
Subject: [PATCH 53/62] fix: do not take a narrowed copy of an alias for the
 aliased type itself

---
 shape.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shape.go b/shape.go
index c5f06cc..8c0ec2a 100644
--- a/shape.go
+++ b/shape.go
@@ -70,6 +70,8 @@ type BaseShape struct {
 	unwrapped bool
 	// aliasOf is the aliased shape, it is kept after unwrapping.
 	aliasOf *BaseShape
+	// narrowed is true if facets were merged into the shape, an alias is not the same as the aliased shape then.
+	narrowed bool
 	// NOTE: Not thread safe and should be used only in one method simultaneously.
 	ShapeVisited bool
 
@@ -219,6 +221,9 @@ func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 	sources := map[*BaseShape]bool{}
 	for ; source != nil && !sources[source]; source = source.aliasOf {
 		sources[source] = true
+		if source.narrowed {
+			break
+		}
 	}
 	seen := map[*BaseShape]bool{}
 	queue := []*BaseShape{s}
@@ -241,6 +246,7 @@ func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 func (s *BaseShape) inheritFrom(sourceBase *BaseShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
 	source := sourceBase.Shape
 	target := s.Shape
+	s.narrowed = true
 
 	if s.Description == nil {
 		s.Description = sourceBase.Description
-- 
2.43.0


From 0183c80925bf006b830767b0e70803ee8d0f0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:18 +0000
Subject: [PATCH 54/62] fix: do not take a failed merge of nested shapes for
 its result

---
 shape.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 8c0ec2a..b923903 100644
--- a/shape.go
+++ b/shape.go
@@ -183,7 +183,13 @@ func (s *BaseShape) mergeNested(sourceBase *BaseShape, parents []*BaseShape) (*B
 	c.ShapeVisited = false
 	c.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], parents...)
 	r.merges[key] = c
-	return c.inheritFrom(sourceBase, nil)
+	merged, err := c.inheritFrom(sourceBase, nil)
+	if err != nil {
+		// Other types may refer to the same shapes, they must not take the failed merge for a result.
+		delete(r.merges, key)
+		return nil, err
+	}
+	return merged, nil
 }
 
 // inheritUnionMember inherits from a member of a union. The member that is a union itself provides its own members.
-- 
2.43.0


From 6373050bbcc4f8ae5559554762d02bd3ea7fa796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:34 +0000
Subject: [PATCH 55/62] fix: narrow a union that narrows one of its own members
 by all facets of that member

---
 complex.go |  2 +-
 shape.go   | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/complex.go b/complex.go
index 24432f3..efc3361 100644
--- a/complex.go
+++ b/complex.go
@@ -981,7 +981,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, sourceMember := range ss.AnyOf {
 			if isCompatibleUnionMember(sourceMember, targetMember) {
 				// Clone is required to avoid modifying the original target member shape.
-				ms, err := targetMember.inheritAlternative(sourceMember)
+				ms, err := targetMember.inheritAlternative(sourceMember, nil)
 				if err != nil {
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
diff --git a/shape.go b/shape.go
index b923903..01fe792 100644
--- a/shape.go
+++ b/shape.go
@@ -148,16 +148,20 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 // A nested shape (a property, an item or a union member) may be shared with other types, e.g. through an alias or
 // inheritance, so it must not be modified in-place. Merges in progress are remembered since types may be recursive.
 func (s *BaseShape) inheritNested(sourceBase *BaseShape) (*BaseShape, error) {
-	return s.mergeNested(sourceBase, []*BaseShape{sourceBase})
+	return s.mergeNested(sourceBase, []*BaseShape{sourceBase}, nil)
 }
 
 // inheritAlternative is inheritNested for a shape that is not derived from the source but from a union that contains it.
-func (s *BaseShape) inheritAlternative(sourceBase *BaseShape) (*BaseShape, error) {
-	return s.mergeNested(sourceBase, sourceBase.Inherits)
+func (s *BaseShape) inheritAlternative(
+	sourceBase *BaseShape, inProgress map[*UnionShape]bool,
+) (*BaseShape, error) {
+	return s.mergeNested(sourceBase, sourceBase.Inherits, inProgress)
 }
 
 // mergeNested merges the source into a copy of the shape that has the given parents besides its own ones.
-func (s *BaseShape) mergeNested(sourceBase *BaseShape, parents []*BaseShape) (*BaseShape, error) {
+func (s *BaseShape) mergeNested(
+	sourceBase *BaseShape, parents []*BaseShape, inProgress map[*UnionShape]bool,
+) (*BaseShape, error) {
 	if s.raml == nil {
 		return s.Inherit(sourceBase)
 	}
@@ -165,7 +169,7 @@ func (s *BaseShape) mergeNested(sourceBase *BaseShape, parents []*BaseShape) (*B
 		return nil, err
 	}
 	// The shape that derives from the source already has everything that the source provides.
-	if s.derivesFrom(sourceBase) {
+	if s.derivesFrom(sourceBase, inProgress) {
 		return s, nil
 	}
 
@@ -194,8 +198,8 @@ func (s *BaseShape) mergeNested(sourceBase *BaseShape, parents []*BaseShape) (*B
 
 // inheritUnionMember inherits from a member of a union. The member that is a union itself provides its own members.
 func (s *BaseShape) inheritUnionMember(member *BaseShape, inProgress map[*UnionShape]bool) (*BaseShape, error) {
-	if _, ok := member.Shape.(*UnionShape); !ok || s.raml == nil || s.derivesFrom(member) {
-		return s.inheritAlternative(member)
+	if _, ok := member.Shape.(*UnionShape); !ok || s.raml == nil || s.derivesFrom(member, inProgress) {
+		return s.inheritAlternative(member, inProgress)
 	}
 	if err := s.callRAMLHooks(HookBeforeBaseShapeInherit, member); err != nil {
 		return nil, err
@@ -223,7 +227,8 @@ func (s *BaseShape) ancestors() []*BaseShape {
 }
 
 // derivesFrom returns true if the shape is the source or refers to it as an alias or as one of its ancestors.
-func (s *BaseShape) derivesFrom(source *BaseShape) bool {
+// The shape does not have the facets of a union in progress yet, so the ancestors of that union do not count.
+func (s *BaseShape) derivesFrom(source *BaseShape, inProgress map[*UnionShape]bool) bool {
 	sources := map[*BaseShape]bool{}
 	for ; source != nil && !sources[source]; source = source.aliasOf {
 		sources[source] = true
@@ -243,6 +248,9 @@ func (s *BaseShape) derivesFrom(source *BaseShape) bool {
 			return true
 		}
 		seen[base] = true
+		if union, ok := base.Shape.(*UnionShape); ok && inProgress[union] {
+			continue
+		}
 		queue = append(queue, base.aliasOf)
 		queue = append(queue, base.Inherits...)
 	}
@@ -440,7 +448,7 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 	var st *stacktrace.StackTrace
 	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
-		is, err := item.inheritAlternative(s)
+		is, err := item.inheritAlternative(s, nil)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
 				stacktrace.WithPosition(&targetUnion.Base().Position))
-- 
2.43.0


From ca7095188091a9b80cfc9738c5f6890aa13a501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:38 +0000
Subject: [PATCH 56/62] fix: refuse aliases as properties and facets instead of
 ignoring them

---
 complex.go | 3 +++
 shape.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/complex.go b/complex.go
index efc3361..c70614c 100644
--- a/complex.go
+++ b/complex.go
@@ -332,6 +332,9 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 				stacktrace.WithInfo("facet", FacetMaxProperties))
 		}
 	case FacetProperties:
+		if valueNode.Kind == yaml.AliasNode {
+			return StacktraceNew("alias nodes are not supported", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
diff --git a/shape.go b/shape.go
index 01fe792..f01cec1 100644
--- a/shape.go
+++ b/shape.go
@@ -1020,6 +1020,9 @@ func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
 	if valueNode.Kind == yaml.SequenceNode {
 		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
 	}
+	if valueNode.Kind == yaml.AliasNode {
+		return StacktraceNew("alias nodes are not supported", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 5f2f90dcca86907ebadd22f2ea27e3a0e5d1222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:41 +0000
Subject: [PATCH 57/62] fix: read aliases of scalars as the scalars instead of
 as the names of their anchors

---
 fragment.go |  3 +++
 node.go     | 16 ++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/fragment.go b/fragment.go
index 0fca0b6..9c40ba4 100644
--- a/fragment.go
+++ b/fragment.go
@@ -218,6 +218,7 @@ func (l *Library) UnmarshalYAML(value *yaml.Node) error {
 	if value.Kind != yaml.MappingNode {
 		return StacktraceNew("must be map", l.Location, WithNodePosition(value))
 	}
+	expandScalarAliases(value)
 
 	for i := 0; i != len(value.Content); i += 2 {
 		node := value.Content[i]
@@ -331,6 +332,7 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 	if value.Kind != yaml.MappingNode {
 		return StacktraceNew("must be map", dt.Location, WithNodePosition(value))
 	}
+	expandScalarAliases(value)
 
 	shapeValue := &yaml.Node{
 		Kind: yaml.MappingNode,
@@ -445,6 +447,7 @@ func (ne *NamedExample) UnmarshalYAML(value *yaml.Node) error {
 	if value.Kind != yaml.MappingNode {
 		return StacktraceNew("must be map", ne.Location, WithNodePosition(value))
 	}
+	expandScalarAliases(value)
 	examples := orderedmap.New[string, *Example](len(value.Content) / 2)
 	for i := 0; i != len(value.Content); i += 2 {
 		node := value.Content[i]
diff --git a/node.go b/node.go
index e75aaf3..9b770fa 100644
--- a/node.go
+++ b/node.go
@@ -77,6 +77,7 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 			return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location, WithNodePosition(node),
 				stacktrace.WithInfo("path", fragmentPath))
 		}
+		expandScalarAliases(&data)
 		value, err = yamlNodeToDataNode(&data, fragmentPath, false)
 		if err != nil {
 			return nil, StacktraceNewWrapped("include: yaml node to data node", err, location,
@@ -196,11 +197,26 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 				return nil, StacktraceNewWrapped("include: yaml decode", errDecode, location,
 					WithNodePosition(node), stacktrace.WithInfo("path", fragmentPath))
 			}
+			expandScalarAliases(&data)
 			return yamlNodeToDataNode(&data, fragmentPath, true)
 		}
 	}
 }
 
+// expandScalarAliases replaces the aliases of scalars below the node by copies of the scalars.
+func expandScalarAliases(node *yaml.Node) {
+	for i, item := range node.Content {
+		if item.Kind == yaml.AliasNode && item.Alias != nil && item.Alias.Kind == yaml.ScalarNode {
+			scalar := *item.Alias
+			scalar.Anchor = ""
+			scalar.Line, scalar.Column = item.Line, item.Column
+			node.Content[i] = &scalar
+			continue
+		}
+		expandScalarAliases(item)
+	}
+}
+
 func yamlNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any, error) {
 	switch node.Kind {
 	default:
-- 
2.43.0


From 88ea3afae50d0e8a9d6f001f0a28e6bcf2acc7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:35 +0000
Subject: [PATCH 58/62] fix: refuse fractional lengths and counts instead of
 truncating them

---
 complex.go |  8 ++++----
 consts.go  |  1 +
 node.go    | 15 +++++++++++++++
 scalars.go |  8 ++++----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/complex.go b/complex.go
index c70614c..d3e19ac 100644
--- a/complex.go
+++ b/complex.go
@@ -210,13 +210,13 @@ func (s *ArrayShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinItems:
-			if err := valueNode.Decode(&s.MinItems); err != nil {
+			if err := decodeCount(valueNode, &s.MinItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMinItems))
 			}
 		case FacetMaxItems:
-			if err := valueNode.Decode(&s.MaxItems); err != nil {
+			if err := decodeCount(valueNode, &s.MaxItems); err != nil {
 				return StacktraceNewWrapped("decode", err, s.Location,
 					WithNodePosition(valueNode),
 					stacktrace.WithInfo("facet", FacetMaxItems))
@@ -320,13 +320,13 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		}
 		s.DiscriminatorValue = value
 	case FacetMinProperties:
-		if err := valueNode.Decode(&s.MinProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MinProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMinProperties))
 		}
 	case FacetMaxProperties:
-		if err := valueNode.Decode(&s.MaxProperties); err != nil {
+		if err := decodeCount(valueNode, &s.MaxProperties); err != nil {
 			return StacktraceNewWrapped("decode", err, s.Location,
 				WithNodePosition(valueNode),
 				stacktrace.WithInfo("facet", FacetMaxProperties))
diff --git a/consts.go b/consts.go
index 70ab7c9..8d4412c 100644
--- a/consts.go
+++ b/consts.go
@@ -57,6 +57,7 @@ const (
 	TagStr       = "!!str"
 	TagTimestamp = "!!timestamp"
 	TagInt       = "!!int"
+	TagFloat     = "!!float"
 )
 
 const (
diff --git a/node.go b/node.go
index 9b770fa..97e9d1d 100644
--- a/node.go
+++ b/node.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"path/filepath"
 	"strings"
 
@@ -92,6 +93,20 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 	}, nil
 }
 
+// decodeCount decodes a length or a count. The YAML decoder would cut the fraction of a number.
+func decodeCount(node *yaml.Node, count **uint64) error {
+	if node.Tag == TagFloat {
+		var f float64
+		if err := node.Decode(&f); err != nil {
+			return err
+		}
+		if f != math.Trunc(f) {
+			return fmt.Errorf("value %s must be integer", node.Value)
+		}
+	}
+	return node.Decode(count)
+}
+
 func (r *RAML) makeRootNode(node *yaml.Node, location string) (*Node, error) {
 	if node.Tag == TagInclude {
 		return r.makeIncludedNode(node, location)
diff --git a/scalars.go b/scalars.go
index 7d8abb0..8a73276 100644
--- a/scalars.go
+++ b/scalars.go
@@ -681,11 +681,11 @@ func (s *StringShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetPattern:
@@ -835,11 +835,11 @@ func (s *FileShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 
 		switch node.Value {
 		case FacetMinLength:
-			if err := valueNode.Decode(&s.MinLength); err != nil {
+			if err := decodeCount(valueNode, &s.MinLength); err != nil {
 				return StacktraceNewWrapped("decode minLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetMaxLength:
-			if err := valueNode.Decode(&s.MaxLength); err != nil {
+			if err := decodeCount(valueNode, &s.MaxLength); err != nil {
 				return StacktraceNewWrapped("decode maxLength", err, s.Location, WithNodePosition(valueNode))
 			}
 		case FacetFileTypes:
-- 
2.43.0


From f2f76f3b93fc2ca77e14d544256c4e787015e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:01 +0000
Subject: [PATCH 59/62] fix: refuse properties, facets and uses that are not
 maps instead of ignoring or misreading them

---
 complex.go  | 3 +++
 fragment.go | 2 +-
 shape.go    | 5 +----
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/complex.go b/complex.go
index d3e19ac..fc46aa1 100644
--- a/complex.go
+++ b/complex.go
@@ -335,6 +335,9 @@ func (s *ObjectShape) unmarshalYAMLNode(node, valueNode *yaml.Node) error {
 		if valueNode.Kind == yaml.AliasNode {
 			return StacktraceNew("alias nodes are not supported", s.Location, WithNodePosition(valueNode))
 		}
+		if valueNode.Kind != yaml.MappingNode && valueNode.Tag != TagNull {
+			return StacktraceNew("properties must be map", s.Location, WithNodePosition(valueNode))
+		}
 		if len(valueNode.Content)%2 != 0 {
 			return StacktraceNew("odd number of nodes", s.Location, stacktrace.WithPosition(&s.Position))
 		}
diff --git a/fragment.go b/fragment.go
index 9c40ba4..3d47ad0 100644
--- a/fragment.go
+++ b/fragment.go
@@ -347,7 +347,7 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 			if valueNode.Tag == TagNull {
 				break
 			}
-			if valueNode.Kind == yaml.SequenceNode {
+			if valueNode.Kind != yaml.MappingNode {
 				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
 			}
 
diff --git a/shape.go b/shape.go
index f01cec1..e66500e 100644
--- a/shape.go
+++ b/shape.go
@@ -1017,12 +1017,9 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
-	if valueNode.Kind == yaml.SequenceNode {
+	if valueNode.Kind != yaml.MappingNode && valueNode.Tag != TagNull {
 		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
 	}
-	if valueNode.Kind == yaml.AliasNode {
-		return StacktraceNew("alias nodes are not supported", s.Location, WithNodePosition(valueNode))
-	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From 1cb54a5a82105327124c5c8a58aa9387dba82d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:04 +0000
Subject: [PATCH 60/62] fix: read included texts as their content instead of
 the file name, and refuse usage that is no text

---
 example.go  |  4 ++--
 fragment.go |  7 +++++--
 node.go     | 16 ++++++++++++++++
 shape.go    |  4 ++--
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/example.go b/example.go
index 3e3257f..69b3626 100644
--- a/example.go
+++ b/example.go
@@ -24,11 +24,11 @@ func (ex *Example) decode(node *yaml.Node, valueNode *yaml.Node, location string
 		}
 		ex.lax = !ex.Strict
 	case FacetDisplayName:
-		if err := valueNode.Decode(&ex.DisplayName); err != nil {
+		if err := decodeText(valueNode, location, &ex.DisplayName); err != nil {
 			return StacktraceNewWrapped("decode displayName", err, location, WithNodePosition(valueNode))
 		}
 	case FacetDescription:
-		if err := valueNode.Decode(&ex.Description); err != nil {
+		if err := decodeText(valueNode, location, &ex.Description); err != nil {
 			return StacktraceNewWrapped("decode description", err, location, WithNodePosition(valueNode))
 		}
 	default:
diff --git a/fragment.go b/fragment.go
index 3d47ad0..27f2686 100644
--- a/fragment.go
+++ b/fragment.go
@@ -237,7 +237,7 @@ func (l *Library) UnmarshalYAML(value *yaml.Node) error {
 				return fmt.Errorf("unmarshall annotation types: %w", err)
 			}
 		case "usage":
-			if err := valueNode.Decode(&l.Usage); err != nil {
+			if err := decodeText(valueNode, l.Location, &l.Usage); err != nil {
 				return StacktraceNewWrapped("parse usage: value node decode", err, l.Location,
 					WithNodePosition(valueNode))
 			}
@@ -342,7 +342,10 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 		valueNode := value.Content[i+1]
 		switch node.Value {
 		case "usage":
-			dt.Usage = valueNode.Value
+			if err := decodeText(valueNode, dt.Location, &dt.Usage); err != nil {
+				return StacktraceNewWrapped("parse usage: value node decode", err, dt.Location,
+					WithNodePosition(valueNode))
+			}
 		case "uses":
 			if valueNode.Tag == TagNull {
 				break
diff --git a/node.go b/node.go
index 97e9d1d..c8ac7e6 100644
--- a/node.go
+++ b/node.go
@@ -107,6 +107,22 @@ func decodeCount(node *yaml.Node, count **uint64) error {
 	return node.Decode(count)
 }
 
+// decodeText decodes a text, which may be included from a file.
+func decodeText(node *yaml.Node, location string, text any) error {
+	if node.Tag == TagInclude {
+		data, err := scalarNodeToDataNode(node, location, false)
+		if err != nil {
+			return err
+		}
+		s, ok := data.(string)
+		if !ok {
+			return fmt.Errorf("included value must be text")
+		}
+		node = &yaml.Node{Kind: yaml.ScalarNode, Tag: TagStr, Value: s, Line: node.Line, Column: node.Column}
+	}
+	return node.Decode(text)
+}
+
 func (r *RAML) makeRootNode(node *yaml.Node, location string) (*Node, error) {
 	if node.Tag == TagInclude {
 		return r.makeIncludedNode(node, location)
diff --git a/shape.go b/shape.go
index e66500e..04274d7 100644
--- a/shape.go
+++ b/shape.go
@@ -1058,12 +1058,12 @@ func (s *BaseShape) decodeValueNode(node, valueNode *yaml.Node) (*yaml.Node, []*
 	case FacetType:
 		shapeTypeNode = valueNode
 	case FacetDisplayName:
-		if err := valueNode.Decode(&s.DisplayName); err != nil {
+		if err := decodeText(valueNode, s.Location, &s.DisplayName); err != nil {
 			return nil, nil, StacktraceNewWrapped("decode display name", err, s.Location,
 				WithNodePosition(valueNode))
 		}
 	case FacetDescription:
-		if err := valueNode.Decode(&s.Description); err != nil {
+		if err := decodeText(valueNode, s.Location, &s.Description); err != nil {
 			return nil, nil, StacktraceNewWrapped("decode description", err, s.Location,
 				WithNodePosition(valueNode))
 		}
-- 
2.43.0


From ce9865004a2a6d27ed9dde83b2c4038789c131b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:04 +0000
Subject: [PATCH 61/62] fix: refuse lengths and counts that are negative or too
 large for their type

---
 node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index c8ac7e6..961afdb 100644
--- a/node.go
+++ b/node.go
@@ -93,15 +93,15 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 	}, nil
 }
 
-// decodeCount decodes a length or a count. The YAML decoder would cut the fraction of a number.
+// decodeCount decodes a length or a count. The YAML decoder would convert any floating-point number.
 func decodeCount(node *yaml.Node, count **uint64) error {
 	if node.Tag == TagFloat {
 		var f float64
 		if err := node.Decode(&f); err != nil {
 			return err
 		}
-		if f != math.Trunc(f) {
-			return fmt.Errorf("value %s must be integer", node.Value)
+		if f != math.Trunc(f) || f < 0 || f >= 1<<64 {
+			return fmt.Errorf("value %s must be a non-negative integer", node.Value)
 		}
 	}
 	return node.Decode(count)
-- 
2.43.0


From a79120f2146e0c0abac02ba554b36a9678744cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:57 +0000
Subject: [PATCH 62/62] fix: keep the list of shapes when shapes are unwrapped
 again

---
 unwrap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/unwrap.go b/unwrap.go
index ceed48e..4418d9d 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -126,7 +126,14 @@ func (r *RAML) UnwrapShapes() error {
 	// We need to invalidate old cache and re-populate it because references will no longer be valid after unwrapping.
 	r.fragmentTypes = make(map[string]map[string]*BaseShape)
 	r.fragmentAnnotationTypes = make(map[string]map[string]*BaseShape)
-	r.shapes = make([]*BaseShape, 0, len(r.shapes))
+	// Shapes that have been unwrapped already remain: only the other ones are put again.
+	shapes := make([]*BaseShape, 0, len(r.shapes))
+	for _, shape := range r.shapes {
+		if shape.IsUnwrapped() {
+			shapes = append(shapes, shape)
+		}
+	}
+	r.shapes = shapes
 	st := r.unwrapFragments()
 	if st != nil {
 		return st
-- 
2.43.0

