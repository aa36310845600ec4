package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
	"time"

	raml "github.com/acronis/go-raml/v2"
)

// oddValues are values of the Go types that JSON and YAML decoding produce.
func oddValues() []any {
	return []any{nil, true, "", "a", "{", "2020-01-01", "x\x00y\xff", 0, -1, 7, uint(3), int64(5), uint64(1) << 63, float64(1), 1.5, -1e300,
		json.Number("12"), time.Unix(0, 0), []any{}, []any{nil}, []any{"a", "a"}, []any{[]any{}, map[string]any{}}, []string{"a"},
		map[string]any{}, map[string]any{"a": 1, "p": nil, "q": map[string]any{}}, map[string]any{"p": map[string]any{"p": map[string]any{}}},
		map[any]any{1: "x"}, map[string]string{"a": "b"}, struct{}{}, []byte("x")}
}

// exercise uses every type of a model that parsing returned.
func exercise(r *Run, m *raml.RAML, vals []any) {
	var bases []*raml.BaseShape
	switch l := m.EntryPoint().(type) {
	case *raml.Library:
		for p := l.Types.Oldest(); p != nil; p = p.Next() {
			bases = append(bases, p.Value)
		}
		for p := l.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
			bases = append(bases, p.Value)
		}
	case *raml.DataType:
		bases = append(bases, l.Shape)
	}
	_ = m.GetAllAnnotations()
	_ = m.GetAllAnnotationsPtr()
	for _, b := range bases {
		if b == nil {
			r.Fail("nil-type", "a parsed model exposes a nil type", "")
			continue
		}
		c := b.CloneDetached()
		if !b.IsUnwrapped() {
			_, _ = ConvertRAML(b)
			_ = b.Validate("a")
			u, err := m.UnwrapShape(c)
			if err != nil {
				continue
			}
			if _, err := m.FindAndMarkRecursion(u); err != nil {
				continue
			}
			b, c = u, u.CloneDetached()
		}
		for _, x := range []*raml.BaseShape{b, c} {
			_ = x.Check()
			_ = x.String()
			for _, v := range vals {
				_ = x.Validate(v)
			}
			if s, err := ConvertRAML(x); err == nil {
				_ = s.Map()
				_, _ = json.Marshal(s)
				_ = s.DeepCopy()
			}
			if s, err := ConvertPlain(x); err == nil {
				_ = s.Map()
				_, _ = json.Marshal(s)
				_ = s.DeepCopy()
			}
		}
		r.Eval(2 * len(vals))
	}
	// The converter documented as usable without a wrapper.
	for i, b := range bases {
		if i > 0 || !b.IsUnwrapped() {
			break
		}
		if conv, err := raml.NewJSONSchemaConverter[*raml.JSONSchema](); err == nil {
			if s, err := conv.Convert(b.Shape); err == nil {
				_, _ = json.Marshal(s)
			}
		}
	}
}

var allOpts = [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}}

func totality(doc string, vals []any) Case {
	return Case{Label: func() string { return doc }, Run: func(r *Run) {
		for _, o := range allOpts {
			m, err := ParseLib(r.Dir, doc, o[0], o[1])
			r.Eval(1)
			if err == nil {
				exercise(r, m, vals)
			} else {
				_ = err.Error()
			}
			r.Class(fmt.Sprintf("%v %s %s", o, okerr(err), errClass(err)))
		}
	}}
}

func errClass(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	if i := strings.LastIndex(s, ": "); i >= 0 {
		s = s[i:]
	}
	return s
}

func totalityFiles(f Files, entry string, vals []any) Case {
	return Case{Label: func() string { return "entry " + entry + "\n" + f.String() }, Run: func(r *Run) {
		f.Write(r.Dir)
		for _, o := range allOpts {
			m, err := raml.ParseFromPath(filepath.Join(r.Dir, entry), parseOpts(o[0], o[1])...)
			r.Eval(1)
			if err == nil {
				exercise(r, m, vals)
			} else {
				_ = err.Error()
			}
			r.Class(fmt.Sprintf("%v %s %s", o, okerr(err), errClass(err)))
		}
	}}
}

var kinds = []string{"any", "nil", "string", "integer", "number", "boolean", "datetime", "datetime-only", "date-only", "time-only",
	"file", "array", "object", "union"}

var facetNames = []string{"type", "displayName", "description", "required", "facets", "example", "examples", "default", "allowedTargets",
	"format", "enum", "minimum", "maximum", "multipleOf", "minLength", "maxLength", "pattern", "fileTypes", "additionalProperties",
	"properties", "minProperties", "maxProperties", "items", "minItems", "maxItems", "uniqueItems", "discriminator",
	"discriminatorValue", "strict", "(ann)", "()", "(", "unknownFacet", "", "?", "uses"}

// node texts in flow form, so that they can be placed anywhere.
var nodeTexts = []string{"", "null", "true", "0", "-1", "1.5", "18446744073709551616", "1e400", ".nan", ".inf", "0x1F", "2020-01-01", `""`, `"x"`,
	`"{"`, `"{}"`, `'{"a": 1}'`, `'{"type":"string"}'`, `'{"properties":{"a":null}}'`, `"?"`, `"("`, `"a["`, `"/["`, `"[]"`, "string[]?", "A", "L.A", "composite", "json", "recursive",
	"[]", "[a]", "[[a]]", "[{a: b}]", "[null]", "[A, A]", "[A, missing]", "[1, 1.5, true]", "{}", "{a: b}", "{a: null}", "{a: {b: c}}", "{a: [b]}",
	"{'?': x}", "{'/': x}", "{'//': x}", "{'/[/': x}", "{'/a/?': x}", "{a?: {required: true}}", "{value: 1}", "{value: null, strict: 1}", "{value: 1, strict: false}", "{'': ''}", "{? [a] : b}",
	"&x a", "*x", "[&y a, *y]", "{a: &z {b: c}, d: *z}", "!include missing.raml", "!include missing.json", "!include data.yaml", "!include data.json", "!include data.txt", "!include main.raml", "!include ''", "!include [a]", "!include {a: b}",
	"!!binary aGk=", "!custom x", "!!str 1", "!!int x", "!!float a", "!!bool z", "!!null a", "!!seq {}", "!!map []", "!!set {a}", "<<", "{<<: {a: b}}"}

func init() {
	register(&Check{ID: "C01", Level: "exploration", Deep: true,
		Rule: "every (construct position x YAML node) document, every reference graph over 3 declarations, every include graph over the file set, every truncation/line edit of the corpus; " +
			"each parsed with all 4 option combinations and every resulting type validated against every value kind, cloned, converted; non-trivial = distinct (options, outcome, innermost error) class",
		Assumptions: []string{"stack limit of 48 MiB and no-progress limit of 25 s (confirmed twice in isolation with 60 s) stand for non-termination"},
		Gen:         genC01})
}

func genC01(tier string, emit func(Case)) {
	vals := oddValues()
	few := []any{nil, "a", 1, map[string]any{"p": map[string]any{}}, []any{"a"}}
	// 1. document-level keys
	for _, h := range []string{hdrLib, hdrDT, hdrNE, "#%RAML 1.0\n", "#%RAML 1.0 Library", "", "\n", "#%RAML 1.0 Library \r\n"} {
		for _, n := range nodeTexts {
			emit(totality(h+n+"\n", few))
			if h == hdrLib || h == hdrDT || h == hdrNE {
				for _, k := range []string{"types", "annotationTypes", "uses", "usage", "(ann)", "()", "x", "\"(\"", "\")\"", "types: {A: string}\nuses", "types: {A: string}\ntypes"} {
					emit(totality(h+k+": "+n+"\n", few))
					emit(totality(h+"types: {A: string}\nannotationTypes: {ann: string}\n"+k+": {A: "+n+"}\n", few))
				}
			}
		}
	}
	// values of each kind against each type
	for _, k := range kinds {
		emit(totality(hdrLib+"types:\n  A: "+k+"\n", vals))
		emit(totality(hdrLib+"types:\n  A: {type: "+k+", description: d}\n  B: A[]\n  C: A?\n  D: {type: [A, A]}\n  E: {properties: {p: A}}\n", vals))
	}
	// 2. facet x kind x node x placement
	places := []string{
		"types:\n  T: {%s}\n",
		"types:\n  A: {type: KIND}\n  T: {properties: {p: {%s}}}\n",
		"types:\n  P: {%s}\n  C: {type: P, description: c}\n  D: {type: [P, C]}\n  A: string\n",
		"annotationTypes:\n  ann: {%s}\ntypes:\n  A: {type: string, (ann): x}\n",
	}
	if tier != "quick" {
		places = append(places,
			"types:\n  T: {type: array, items: {%s}}\n  A: string\n",
			"types:\n  T: {facets: {f: {%s}}}\n  U: {type: T, f: 1}\n  A: string\n",
			"types:\n  T: {properties: {/a/: {%s}}}\n  A: string\n",
			"types:\n  P: {%s}\n  C: P | string\n  D: P[]\n  E: {type: C, description: x}\n  A: string\n",
			"types:\n  P: {type: object, properties: {p: {%s}}}\n  C: {type: P, properties: {p: {%s}}}\n  A: string\n")
	}
	for pi, pl := range places {
		for _, f := range facetNames {
			for _, k := range append([]string{""}, kinds...) {
				if pi == 3 && k != "" && k != "object" {
					continue
				}
				if tier == "quick" && pi == 1 && k != "" && k != "string" && k != "array" && k != "object" && k != "number" {
					continue
				}
				for _, n := range nodeTexts {
					body := ""
					if k != "" && f != "type" {
						body = "type: " + k + ", "
					}
					key := f
					if f == "" || strings.ContainsAny(f, "?") {
						key = "'" + f + "'"
					}
					body += key + ": " + n
					doc := hdrLib + strings.ReplaceAll(pl, "%s", body)
					doc = strings.ReplaceAll(doc, "KIND", "string")
					emit(totality(doc, few))
				}
			}
		}
	}
	// pairs of facets on parent and child (narrowing code paths with odd nodes)
	for _, f := range []string{"enum", "fileTypes", "format", "minimum", "multipleOf", "items", "properties", "pattern", "discriminator", "facets", "x"} {
		for _, k := range []string{"string", "integer", "number", "boolean", "file", "array", "object", "datetime", "any"} {
			for _, n1 := range nodeTexts {
				for _, n2 := range []string{"[a]", "[[a]]", "[{a: b}]", "{a: b}", "1", "x", "{a: string}", n1} {
					emit(totality(hdrLib+"types:\n  P: {type: "+k+", "+f+": "+n1+"}\n  C: {type: P, "+f+": "+n2+"}\n", few))
				}
			}
		}
	}
	// 3. reference graphs
	forms := []string{"X", "{type: X}", "{type: X, description: d}", "{type: [X, Y]}", "X | string", "X | Y", "X[]", "X?", "(X)", "(X | Y)[]",
		"{type: object, properties: {p: X}}", "{type: object, properties: {p?: X}}", "{type: X, properties: {p?: Y}}", "{type: array, items: X}",
		"{type: X, items: Y}", "{type: X, facets: {f?: Y}}", "{type: object, properties: {/a/: X}}", "{type: object, properties: {p?: X | Y}}",
		"{type: [X, Y], properties: {q?: X}}", "{type: object, properties: {p?: {type: X, properties: {p?: Y}}}}", "{type: X[], items: Y}", "object", "string"}
	inst := func(form string, refs []string) []string {
		var out []string
		for _, x := range refs {
			if !strings.Contains(form, "Y") {
				out = append(out, replRef(form, x, ""))
				if !strings.Contains(form, "X") {
					break
				}
				continue
			}
			for _, y := range refs {
				out = append(out, replRef(form, x, y))
			}
		}
		return out
	}
	graphDoc := func(decls []string) string {
		var b strings.Builder
		b.WriteString(hdrLib + "types:\n")
		for i, d := range decls {
			fmt.Fprintf(&b, "  %c: %s\n", 'A'+i, d)
		}
		return b.String()
	}
	var one, two []string
	for _, f := range forms {
		one = append(one, inst(f, []string{"A"})...)
		two = append(two, inst(f, []string{"A", "B"})...)
	}
	for _, a := range one {
		emit(totality(graphDoc([]string{a}), few))
		emit(totality(hdrLib+"annotationTypes:\n  A: "+a+"\ntypes:\n  A: "+a+"\n  B: {type: string, (A): z}\n", few))
	}
	for _, a := range two {
		for _, b := range two {
			emit(totality(graphDoc([]string{a, b}), few))
		}
	}
	forms3 := []string{"X", "{type: X, description: d}", "{type: [X, Y]}", "X | Y", "X[]", "X?", "{type: object, properties: {p?: X}}", "{type: X, properties: {p?: Y}}", "object"}
	if tier == "quick" {
		forms3 = []string{"X", "{type: [X, Y]}", "X | Y", "X[]", "{type: object, properties: {p?: X}}", "{type: X, properties: {p?: Y}}"}
	}
	if tier == "deep" {
		forms3 = forms
	}
	var three []string
	for _, f := range forms3 {
		three = append(three, inst(f, []string{"A", "B", "C"})...)
	}
	for ai, a := range three {
		for bi, b := range three {
			for ci, c := range three {
				if tier == "quick" && (ai*31+bi*17+ci)%3 != 0 {
					// quick: every pair (a,b) with a third of the third declarations; thorough: all
					continue
				}
				emit(totality(graphDoc([]string{a, b, c}), few[:3]))
			}
		}
	}
	// 4. include graphs
	genIncludes(tier, few, emit)
	// 5. textual damage of a corpus document
	for _, doc := range corpusDocs() {
		lines := strings.SplitAfter(doc, "\n")
		for i := range lines {
			del := strings.Join(lines[:i], "") + strings.Join(lines[i+1:], "")
			emit(totality(del, few))
			dup := strings.Join(lines[:i+1], "") + lines[i] + strings.Join(lines[i+1:], "")
			emit(totality(dup, few))
			emit(totality(strings.Join(lines[:i], "")+"  "+lines[i]+strings.Join(lines[i+1:], ""), few))
			if i+1 < len(lines) {
				sw := append([]string{}, lines...)
				sw[i], sw[i+1] = sw[i+1], sw[i]
				emit(totality(strings.Join(sw, ""), few))
			}
			if c := strings.Index(lines[i], ":"); c >= 0 {
				emit(totality(strings.Join(lines[:i], "")+lines[i][:c+1]+"\n"+strings.Join(lines[i+1:], ""), few))
			}
		}
		step := 1
		if tier == "quick" {
			step = 2
		}
		for i := 0; i < len(doc); i += step {
			emit(totality(doc[:i], few))
		}
	}
}

func replRef(form, x, y string) string {
	var b strings.Builder
	for _, c := range form {
		switch c {
		case 'X':
			b.WriteString(x)
		case 'Y':
			b.WriteString(y)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// genIncludes enumerates include graphs over four files of three kinds.
func genIncludes(tier string, few []any, emit func(Case)) {
	targets := []string{"main.raml", "l.raml", "d.raml", "n.raml", "j.json", "gone.raml", "dir"}
	uses := func(t string) string { return "uses: {u: " + t + "}\n" }
	typ := func(t string) string {
		return "types:\n  A: !include " + t + "\n  B: {type: !include " + t + ", description: x}\n"
	}
	prop := func(t string) string {
		return "types:\n  A: {properties: {p?: !include " + t + "}}\n  B: {type: A, properties: {q: u.A}}\n"
	}
	exs := func(t string) string {
		return "types:\n  A: {type: any, examples: !include " + t + "}\n  B: {type: any, example: !include " + t + "}\n"
	}
	mains := func(t string) []string {
		return []string{uses(t) + "types: {A: u.A, B: {type: u.A, description: q}}\n", typ(t), uses("l.raml") + prop(t), exs(t), uses(t) + exs("n.raml")}
	}
	dts := func(t string) []string {
		return []string{"uses: {u: " + t + "}\ntype: u.A\n", "type: !include " + t + "\n", "type: object\nproperties: {p?: !include " + t + "}\n",
			"type: !include " + t + "\ndescription: x\n", "type: any\nexamples: !include " + t + "\n", "type: array\nitems: !include " + t + "\n", "uses: {u: " + t + "}\ntype: object\nproperties: {p?: u.A}\n"}
	}
	nes := []string{"a: {value: 1}\nb: x\n", "a: !include j.json\n", "a: !include n.raml\n", "null\n", "[]\n", "a: {value: !include d.raml}\n"}
	jss := []string{`{"type":"object"}`, `{"type":"object","properties":{"a":{"$ref":"#"}},"items":{"type":"string"}}`, " {\"type\": \"string\"}", "[]", "", "{", `{"type": 5}`, `{"enum":[1],"not":{"type":"null"}}`}
	base := func() Files {
		return Files{"l.raml": hdrLib + "types: {A: string}\n", "d.raml": hdrDT + "type: string\n", "n.raml": hdrNE + "a: 1\n", "j.json": `{"type":"object"}`, "dir/x": "y"}
	}
	for _, t := range targets {
		for _, m := range mains(t) {
			for _, t2 := range targets {
				for _, d := range dts(t2) {
					f := base()
					f["main.raml"] = hdrLib + m
					f["d.raml"] = hdrDT + d
					emit(totalityFiles(f, "main.raml", few))
					emit(totalityFiles(f, "d.raml", few))
				}
				for _, m2 := range mains(t2) {
					f := base()
					f["main.raml"] = hdrLib + m
					f["l.raml"] = hdrLib + m2
					emit(totalityFiles(f, "main.raml", few))
					if tier != "quick" {
						for _, t3 := range targets {
							for _, d := range dts(t3) {
								g := base()
								for k, v := range f {
									g[k] = v
								}
								g["d.raml"] = hdrDT + d
								emit(totalityFiles(g, "main.raml", few))
							}
						}
					}
				}
			}
			for _, n := range nes {
				f := base()
				f["main.raml"] = hdrLib + m
				f["n.raml"] = hdrNE + n
				emit(totalityFiles(f, "main.raml", few))
				emit(totalityFiles(f, "n.raml", few))
			}
			for _, j := range jss {
				f := base()
				f["main.raml"] = hdrLib + m
				f["j.json"] = j
				emit(totalityFiles(f, "main.raml", few))
			}
		}
	}
	for _, t := range targets {
		for _, t2 := range targets {
			for _, a := range dts(t) {
				for _, b := range dts(t2) {
					f := base()
					f["d.raml"] = hdrDT + a
					f["e.raml"] = hdrDT + strings.ReplaceAll(b, "main.raml", "e.raml")
					f["main.raml"] = hdrLib + "types: {A: !include d.raml, B: !include e.raml}\n"
					emit(totalityFiles(f, "main.raml", few))
				}
			}
		}
	}
}

// corpusDocs are rich single-file documents used as seeds for textual damage and other checks.
func corpusDocs() []string {
	return []string{corpusA, corpusB, corpusC, corpusD}
}

const corpusA = hdrLib + `usage: corpus
annotationTypes:
  ann: {type: object, properties: {v: integer}}
  note: string
types:
  Base:
    type: object
    (note): base
    additionalProperties: false
    discriminator: kind
    properties:
      kind: string
      id: {type: integer, minimum: 1, maximum: 100}
      tags?: {type: string[], uniqueItems: true, maxItems: 3}
      /^x-/: string
    facets:
      level: integer
  Child:
    type: Base
    level: 3
    (ann): {v: 1}
    additionalProperties: true
    discriminatorValue: Child
    properties:
      name: {type: string, pattern: "^[a-z]+$", minLength: 1, maxLength: 8}
      parent?: Child
    examples:
      one: {kind: c, id: 1, name: ab}
      two: {value: {kind: d, id: 2, name: cd}, strict: true, displayName: Two}
`

const corpusB = hdrLib + `types:
  Num: {type: number, minimum: 0.5, enum: [1.5, 2.5], example: 1.5}
  U: string | integer | nil
  Opt: U?
  Arr: {type: array, items: U, minItems: 1, default: [a, 1]}
  Tree: {type: object, properties: {left?: Tree, right?: Tree, kids: Tree[]}}
  Multi: {type: [M1, M2], properties: {c: boolean}}
  M1: {type: object, properties: {a: string}}
  M2: {type: object, properties: {b: date-only}}
  When: {type: datetime, format: rfc2616}
  F: {type: file, fileTypes: [image/png], minLength: 1}
  J: '{"type": "object", "properties": {"a": {"type": "string"}}}'
  E: {type: boolean, enum: [true]}
`

const corpusC = hdrDT + `type: object
displayName: X
description: |
  several
  lines
properties:
  a: {type: string, default: q, required: false}
  b?: {type: integer, format: int32, multipleOf: 2}
  "c?": {required: true}
  d: {properties: {e: {items: number}}}
example: {a: z, "c?": s, d: {e: [1, 2.5]}}
`

const corpusD = hdrNE + `one:
  value: {a: 1, b: [x, y, {c: null}]}
  strict: false
  description: d
two: 2020-01-01
three: '{"a": 1}'
four: [1, 2.5, true, ~]
`
