package main

// C21: data keep the exact written value.

import (
	"fmt"
	"path"
	"reflect"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// dv is a data value as written and as it must be delivered.
type dv struct {
	flow  string // as part of a flow collection or on the line of its key
	block func(ind int) string
	val   any
	files Files // by path relative to the including file
	root  bool  // may stand where a whole value stands only: inline JSON
}

func lit(s string, v any) dv { return dv{flow: s, val: v} }

func pad(n int) string { return strings.Repeat(" ", n) }

func (v dv) inline(ind int) string { return " " + v.flow + "\n" }
func (v dv) blocky(ind int) string {
	if v.block != nil {
		return v.block(ind)
	}
	return " " + v.flow + "\n"
}

// scalars of every YAML type and spelling
func c21scalars() []dv {
	out := []dv{
		lit("1", 1), lit("0", 0), lit("-7", -7), lit("+3", 3), lit("0x1F", 31), lit("0o17", 15), lit("9007199254740993", 9007199254740993),
		lit("-9223372036854775808", -9223372036854775808), lit("18446744073709551615", uint64(18446744073709551615)),
		lit("1.5", 1.5), lit("-0.25", -0.25), lit("1e3", 1000.0), lit("1.0", 1.0), lit(".5", 0.5), lit("2.", 2.0), lit("6.02E+23", 6.02e23), lit("0.1", 0.1),
		lit("123456789012345678901234567890", 123456789012345678901234567890.0),
		lit("true", true), lit("false", false), lit("True", true), lit("FALSE", false),
		lit("yes", "yes"), lit("off", "off"), lit("y", "y"), lit("NO", "NO"),
		lit("null", nil), lit("~", nil), lit("Null", nil),
		lit("plain", "plain"), lit("two words", "two words"), lit(`""`, ""), lit(`''`, ""), lit(`" "`, " "),
		lit(`"1"`, "1"), lit(`'1.5'`, "1.5"), lit(`"true"`, "true"), lit(`'null'`, "null"), lit(`"~"`, "~"), lit(`"0x1F"`, "0x1F"),
		lit(`" lead and trail "`, " lead and trail "), lit(`"a\nb\t\"q\" \\ \u00e9 \U0001F600"`, "a\nb\t\"q\" \\ é \U0001F600"), lit(`'it''s'`, "it's"), lit("é✓", "é✓"),
		lit("2020-01-01", "2020-01-01"), lit("2020-01-01T00:00:00Z", "2020-01-01T00:00:00Z"), lit("2001-12-14t21:59:43.10-05:00", "2001-12-14t21:59:43.10-05:00"),
		lit("2001-12-14 21:59:43.10", "2001-12-14 21:59:43.10"), lit(`"2020-01-01"`, "2020-01-01"), lit("12:30", "12:30"), lit("12:30:45", "12:30:45"),
		lit("!!str 5", "5"), lit("!!str true", "true"), lit("!!str null", "null"), lit(`!!int "5"`, 5), lit(`!!float "2"`, 2.0), lit(`!!bool "true"`, true), lit("!!str 2020-01-01", "2020-01-01"),
		lit("a#b", "a#b"), lit(`"# no comment"`, "# no comment"), lit(`"k: v"`, "k: v"), lit(`"[1]"`, "[1]"), lit(`"!include x"`, "!include x"), lit("1.2.3", "1.2.3"), lit("1_000", 1000), lit("0.0.0.0", "0.0.0.0"), lit("-", "-")}
	out = out[:len(out)-1]
	return append(out,
		dv{flow: `"l1\nl2\n"`, val: "l1\nl2\n", block: func(i int) string { return " |\n" + pad(i) + "l1\n" + pad(i) + "l2\n" }},
		dv{flow: `"l1\n  l2"`, val: "l1\n  l2", block: func(i int) string { return " |-\n" + pad(i) + "l1\n" + pad(i) + "  l2\n" }},
		dv{flow: `"l1 l2\n"`, val: "l1 l2\n", block: func(i int) string { return " >\n" + pad(i) + "l1\n" + pad(i) + "l2\n" }},
		dv{flow: `"5\n"`, val: "5\n", block: func(i int) string { return " |\n" + pad(i) + "5\n" }},
	)
}

// scalars for use inside collections
func c21few() []dv {
	return []dv{lit("1", 1), lit("1.0", 1.0), lit(`"1"`, "1"), lit("null", nil), lit("2020-01-01", "2020-01-01"), lit(`""`, ""), lit("true", true)}
}

type dkv struct {
	k, key string // as written and as delivered
	v      dv
}

func dmap(kvs ...dkv) dv {
	var fl []string
	val := map[string]any{}
	out := dv{files: Files{}}
	for _, e := range kvs {
		fl = append(fl, e.k+": "+e.v.flow)
		val[e.key] = e.v.val
		for p, c := range e.v.files {
			out.files[p] = c
		}
	}
	out.flow, out.val = "{"+strings.Join(fl, ", ")+"}", val
	if len(kvs) > 0 {
		out.block = func(ind int) string {
			s := "\n"
			for _, e := range kvs {
				s += pad(ind) + e.k + ":" + e.v.blocky(ind+2)
			}
			return s
		}
	}
	return out
}

func dseq(vs ...dv) dv {
	var fl []string
	val := make([]any, 0)
	out := dv{files: Files{}}
	for _, e := range vs {
		fl = append(fl, e.flow)
		val = append(val, e.val)
		for p, c := range e.files {
			out.files[p] = c
		}
	}
	out.flow, out.val = "["+strings.Join(fl, ", ")+"]", val
	if len(vs) > 0 {
		out.block = func(ind int) string {
			s := "\n"
			for _, e := range vs {
				s += pad(ind) + "-" + e.blocky(ind+2)
			}
			return s
		}
	}
	return out
}

func c21wraps(v dv) []dv {
	one := lit("1", 1)
	return []dv{
		dmap(dkv{"k", "k", v}), dseq(v), dmap(dkv{"a", "a", one}, dkv{"k", "k", v}, dkv{"z", "z", one}), dseq(one, v, one), dseq(v, v),
		dmap(dkv{"value", "value", v}, dkv{"other", "other", one}), dmap(dkv{`"(note)"`, "(note)", v}), dmap(dkv{"1", "1", v}, dkv{"true", "true", one}, dkv{`"a b"`, "a b", one}),
		dmap(dkv{"displayName", "displayName", v}, dkv{"strict", "strict", one}), dmap(dkv{"type", "type", v}, dkv{"properties", "properties", one}), dmap(dkv{`""`, "", v}, dkv{"2020-01-01", "2020-01-01", one}),
	}
}

// included files: name -> content and value; relative to the including file
func c21includes() []dv {
	inc := func(p, content string, val any) dv {
		return dv{flow: "!include " + p, val: val, files: Files{p: content}}
	}
	var out []dv
	jsonVals := []struct {
		s string
		v any
	}{
		{`{"a": 1, "b": [true, null, "x", 1.5], "c": {"d": {}}}`, map[string]any{"a": 1.0, "b": []any{true, nil, "x", 1.5}, "c": map[string]any{"d": map[string]any{}}}},
		{`[]`, []any{}}, {`"text"`, "text"}, {"3", 3.0}, {"null", nil}, {"\n {\"a\":\"2020-01-01\"}\n\n", map[string]any{"a": "2020-01-01"}}, {`{"value": 1, "displayName": "d"}`, map[string]any{"value": 1.0, "displayName": "d"}},
	}
	for i, j := range jsonVals {
		out = append(out, inc(fmt.Sprintf("f%d.json", i), j.s, j.v))
	}
	yamlVals := []struct {
		s string
		v any
	}{
		{"a: 1\nb: [true, null, x, 1.5]\nc:\n  d: {}\n", map[string]any{"a": 1, "b": []any{true, nil, "x", 1.5}, "c": map[string]any{"d": map[string]any{}}}},
		{"- 2020-01-01\n- \"1\"\n", []any{"2020-01-01", "1"}}, {"5", 5}, {"text\n", "text"}, {"---\na: b\n", map[string]any{"a": "b"}}, {"# comment\n'{\"a\": 1}'\n", `{"a": 1}`}, {"value: 1\nstrict: false\n", map[string]any{"value": 1, "strict": false}},
	}
	for i, j := range yamlVals {
		out = append(out, inc(fmt.Sprintf("f%d.yaml", i), j.s, j.v), inc(fmt.Sprintf("g%d.yml", i), j.s, j.v))
	}
	for i, s := range []string{"plain text\n", "", "{\"a\": 1}", "a: 1\n", "  spaces \r\n\ttabs", "\ufeffbom\n", "é✓\x00end", "#%RAML 1.0 Library\n", "<a/>\n\n"} {
		for _, e := range []string{".txt", ".xml", ".md", ""} {
			out = append(out, inc(fmt.Sprintf("t%d%s", i, e), s, s))
		}
	}
	out = append(out, inc("sub/x.json", `{"s": 1}`, map[string]any{"s": 1.0}), inc("sub/deep/x.yaml", "s: 1\n", map[string]any{"s": 1}), inc("./dot.txt", "dot", "dot"), inc("sub/../up.txt", "up", "up"), inc("name with.dots.yaml", "n: 1\n", map[string]any{"n": 1}))
	return out
}

// rootIncludes are included files that include further files themselves.
func c21rootIncludes() []dv {
	var out []dv
	for _, in := range c21includes() {
		for p, c := range in.files {
			if strings.HasPrefix(p, "f") && !strings.HasPrefix(p, "f0") || strings.HasPrefix(p, "g") && !strings.HasPrefix(p, "g0") || strings.HasPrefix(p, "t") && p != "t0.txt" {
				continue
			}
			out = append(out,
				dv{flow: "!include outer.yaml", val: map[string]any{"i": in.val, "o": 1}, files: Files{"outer.yaml": "i: !include " + p + "\no: 1\n", p: c}},
				dv{flow: "!include deep/er/outer.yml", val: []any{map[string]any{"i": in.val}, 1}, files: Files{"deep/er/outer.yml": "- i: !include " + p + "\n- 1\n", path.Join("deep/er", p): c}})
		}
	}
	return out
}

// c21json are inline JSON objects.
func c21json() []dv {
	var out []dv
	for _, j := range []struct {
		s string
		v any
	}{
		{`{"a": 1}`, map[string]any{"a": 1.0}}, {`{}`, map[string]any{}}, {`{"a": "2020-01-01", "b": null, "c": [1, "1", true, {"d": 0.5}], "e": {"value": 1}}`,
			map[string]any{"a": "2020-01-01", "b": nil, "c": []any{1.0, "1", true, map[string]any{"d": 0.5}}, "e": map[string]any{"value": 1.0}}}, {`{"value": 2}`, map[string]any{"value": 2.0}},
	} {
		j := j
		out = append(out, dv{flow: "'" + j.s + "'", val: j.v, root: true}, dv{flow: "'" + j.s + "'", val: j.v, root: true, block: func(i int) string { return " |\n" + pad(i) + j.s + "\n" }})
	}
	return out
}

// a place where data are written
type c21site struct {
	name  string
	file  string // the file that holds the data
	build func(v func(ind int) string) Files
	get   func(rm *raml.RAML) (any, bool)
	enum  bool
	plain bool // a mapping with a value key is the data itself here
}

func libOf(rm *raml.RAML) *raml.Library { return rm.EntryPoint().(*raml.Library) }

func typ(rm *raml.RAML, n string) *raml.BaseShape { return LibType(rm, n) }

func exData(e *raml.Example) (any, bool) {
	if e == nil || e.Data == nil {
		return nil, false
	}
	return e.Data.Value, true
}

func exNamed(b *raml.BaseShape, n string) (any, bool) {
	if b == nil || b.Examples == nil || b.Examples.Map == nil {
		return nil, false
	}
	e, ok := b.Examples.Map.Get(n)
	if !ok {
		return nil, false
	}
	return exData(e)
}

func annOf(m interface {
	Get(string) (*raml.DomainExtension, bool)
}, n string) (any, bool) {
	d, ok := m.Get(n)
	if !ok || d == nil || d.Extension == nil {
		return nil, false
	}
	return d.Extension.Value, true
}

func prop(b *raml.BaseShape, n string) *raml.BaseShape {
	o, ok := b.Shape.(*raml.ObjectShape)
	if !ok || o.Properties == nil {
		return nil
	}
	p, _ := o.Properties.Get(n)
	return p.Base
}

func enumOf(b *raml.BaseShape) raml.Nodes {
	switch t := b.Shape.(type) {
	case *raml.StringShape:
		return t.Enum
	case *raml.IntegerShape:
		return t.Enum
	case *raml.NumberShape:
		return t.Enum
	case *raml.BooleanShape:
		return t.Enum
	}
	return nil
}

func c21sites() []c21site {
	one := func(s string) Files { return Files{"main.raml": hdrLib + s} }
	ann := "annotationTypes:\n  note: any\n"
	T := func(rm *raml.RAML) *raml.BaseShape { return typ(rm, "T") }
	return []c21site{
		{name: "example", file: "main.raml", build: func(v func(int) string) Files {
			return one("types:\n  T:\n    type: any\n    example:" + v(6) + "    description: d\n")
		},
			get: func(rm *raml.RAML) (any, bool) { return exData(T(rm).Example) }},
		{name: "example value", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one("types:\n  T:\n    type: any\n    example:\n      description: d\n      value:" + v(8) + "      displayName: n\n")
		}, get: func(rm *raml.RAML) (any, bool) { return exData(T(rm).Example) }},
		{name: "examples", file: "main.raml", build: func(v func(int) string) Files {
			return one("types:\n  T:\n    type: any\n    examples:\n      zero: 0\n      one:" + v(8) + "      two: 2\n")
		}, get: func(rm *raml.RAML) (any, bool) { return exNamed(T(rm), "one") }},
		{name: "examples value", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one("types:\n  T:\n    examples:\n      one:\n        value:" + v(10) + "        strict: true\n      two:\n        value: 2\n    type: any\n")
		}, get: func(rm *raml.RAML) (any, bool) { return exNamed(T(rm), "one") }},
		{name: "default", file: "main.raml", plain: true, build: func(v func(int) string) Files { return one("types:\n  T:\n    type: any\n    default:" + v(6)) },
			get: func(rm *raml.RAML) (any, bool) {
				if T(rm).Default == nil {
					return nil, false
				}
				return T(rm).Default.Value, true
			}},
		{name: "property example", file: "main.raml", build: func(v func(int) string) Files {
			return one("types:\n  T:\n    properties:\n      p?:\n        type: any\n        example:" + v(10) + "      q?: string\n")
		}, get: func(rm *raml.RAML) (any, bool) { return exData(prop(T(rm), "p").Example) }},
		{name: "property default", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one("types:\n  T:\n    properties:\n      p?:\n        default:" + v(10) + "        type: any\n")
		}, get: func(rm *raml.RAML) (any, bool) {
			if p := prop(T(rm), "p"); p != nil && p.Default != nil {
				return p.Default.Value, true
			}
			return nil, false
		}},
		{name: "custom facet", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one("types:\n  B:\n    type: any\n    facets:\n      f: any\n      g?: any\n  T:\n    type: B\n    f:" + v(6) + "    g: 1\n")
		}, get: func(rm *raml.RAML) (any, bool) {
			n, ok := T(rm).CustomShapeFacets.Get("f")
			if !ok || n == nil {
				return nil, false
			}
			return n.Value, true
		}},
		{name: "type annotation", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one(ann + "types:\n  T:\n    (note):" + v(6) + "    type: any\n")
		},
			get: func(rm *raml.RAML) (any, bool) { return annOf(T(rm).CustomDomainProperties, "note") }},
		{name: "reported annotation", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one(ann + "types:\n  T:\n    (note):" + v(6) + "    type: any\n")
		},
			get: func(rm *raml.RAML) (any, bool) {
				for _, d := range rm.GetAllAnnotations() {
					if d.Name == "note" && d.Extension != nil {
						return d.Extension.Value, true
					}
				}
				return nil, false
			}},
		{name: "property annotation", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one(ann + "types:\n  T:\n    properties:\n      p?:\n        type: any\n        (note):" + v(10))
		}, get: func(rm *raml.RAML) (any, bool) { return annOf(prop(T(rm), "p").CustomDomainProperties, "note") }},
		{name: "library annotation", file: "main.raml", plain: true, build: func(v func(int) string) Files { return one(ann + "(note):" + v(2) + "types:\n  T: string\n") },
			get: func(rm *raml.RAML) (any, bool) { return annOf(libOf(rm).CustomDomainProperties, "note") }},
		{name: "example annotation", file: "main.raml", plain: true, build: func(v func(int) string) Files {
			return one(ann + "types:\n  T:\n    type: any\n    example:\n      (note):" + v(8) + "      value: 1\n")
		}, get: func(rm *raml.RAML) (any, bool) {
			if T(rm).Example == nil {
				return nil, false
			}
			return annOf(T(rm).Example.CustomDomainProperties, "note")
		}},
		{name: "named example", file: "ex/ne.raml", build: func(v func(int) string) Files {
			f := one("types:\n  T:\n    type: any\n    examples: !include ex/ne.raml\n")
			f["ex/ne.raml"] = hdrNE + "zero: 0\none:" + v(2) + "two: 2\n"
			return f
		}, get: func(rm *raml.RAML) (any, bool) { return exNamed(T(rm), "one") }},
		{name: "named example value", file: "ex/ne.raml", plain: true, build: func(v func(int) string) Files {
			f := one("types:\n  T:\n    type: any\n    examples: !include ex/ne.raml\n")
			f["ex/ne.raml"] = hdrNE + "one:\n  value:" + v(4) + "  description: d\n"
			return f
		}, get: func(rm *raml.RAML) (any, bool) { return exNamed(T(rm), "one") }},
		{name: "data type example", file: "dt/any.raml", build: func(v func(int) string) Files {
			f := one("types:\n  T: !include dt/any.raml\n")
			f["dt/any.raml"] = hdrDT + "type: any\nexample:" + v(2)
			return f
		}, get: func(rm *raml.RAML) (any, bool) {
			if f, ok := rm.GetFragment(strings.TrimSuffix(rm.GetLocation(), "main.raml") + "dt/any.raml").(*raml.DataType); ok {
				return exData(f.Shape.Example)
			}
			return nil, false
		}},
		{name: "imported library default", file: "lib/l.raml", plain: true, build: func(v func(int) string) Files {
			f := one("uses:\n  l: lib/l.raml\ntypes:\n  T: l.U\n")
			f["lib/l.raml"] = hdrLib + "types:\n  U:\n    type: any\n    default:" + v(6)
			return f
		}, get: func(rm *raml.RAML) (any, bool) {
			l, _ := libOf(rm).Uses.Get("l")
			b, ok := l.Link.Types.Get("U")
			if !ok || b.Default == nil {
				return nil, false
			}
			return b.Default.Value, true
		}},
		{name: "enum", file: "main.raml", enum: true, plain: true, build: func(v func(int) string) Files {
			return one("types:\n  T:\n    type: string\n    enum:\n      - first\n      -" + v(8) + "      - last\n")
		},
			get: func(rm *raml.RAML) (any, bool) {
				e := enumOf(T(rm))
				if len(e) != 3 || e[0].Value != "first" || e[2].Value != "last" {
					return nil, false
				}
				return e[1].Value, true
			}},
		{name: "number enum", file: "main.raml", enum: true, plain: true, build: func(v func(int) string) Files {
			return one("types:\n  T:\n    type: number\n    enum:\n      - 77\n      -" + v(8))
		},
			get: func(rm *raml.RAML) (any, bool) {
				e := enumOf(T(rm))
				if len(e) != 2 || e[0].Value != 77 {
					return nil, false
				}
				return e[1].Value, true
			}},
	}
}

func c21fits(s c21site, v dv) bool {
	if v.root && !s.plain {
		// a mapping with a value key written as JSON text is the data itself
	}
	if m, ok := v.val.(map[string]any); ok && !s.plain && !v.root && !strings.HasPrefix(v.flow, "!include") {
		if _, has := m["value"]; has {
			return false // the example wrapper, checked separately
		}
	}
	return true
}

func c21run(emit func(Case), s c21site, vals []dv, what string) {
	vals2 := vals
	emit(Case{Label: func() string { return s.name + ": " + what }, Run: func(r *Run) {
		for _, v := range vals2 {
			if !c21fits(s, v) {
				continue
			}
			for _, render := range []struct {
				name string
				f    func(int) string
			}{{"flow", v.inline}, {"block", v.blocky}} {
				if render.name == "block" && v.block == nil {
					continue
				}
				f := s.build(render.f)
				for p, c := range v.files {
					q := path.Join(path.Dir(s.file), p)
					if _, clash := f[q]; clash {
						continue
					}
					f[q] = c
				}
				f.Write(r.Dir)
				for _, m := range []struct{ u, v bool }{{false, false}, {true, false}, {false, true}, {true, true}} {
					if s.enum && (m.u || m.v) {
						continue // judged by type
					}
					if (m.u != m.v) && r.Tier == "quick" {
						continue
					}
					r.Eval(1)
					rm, err := raml.ParseFromPath(r.Dir+"/main.raml", parseOpts(m.u, m.v)...)
					sig := fmt.Sprintf("%s %s %s %v", s.name, v.flow, render.name, v.files)
					if err != nil {
						r.Fail(sig, fmt.Sprintf("%s, written %s: the set is rejected: %s", s.name, v.flow, errText(err)), f.String())
						break
					}
					got, ok := s.get(rm)
					if !ok {
						r.Fail(sig, fmt.Sprintf("%s, written %s: no value is delivered", s.name, v.flow), f.String())
						break
					}
					if !reflect.DeepEqual(got, v.val) {
						r.Fail(sig, fmt.Sprintf("%s, written %s: delivered %#v, written is %#v", s.name, v.flow, got, v.val), f.String())
						break
					}
				}
				r.Class(s.name + " " + v.flow)
			}
		}
	}})
}

// c21wrapper checks the recognition of the form of an example with attributes.
func c21wrapper(emit func(Case), tier string) {
	type attr struct {
		k, v string
	}
	attrs := []attr{{"displayName", "shown"}, {"description", "told"}, {"strict", "false"}, {"(note)", "{n: [1]}"}, {"value", ""}}
	vals := []dv{lit("5", 5), lit("null", nil), lit(`""`, ""), dmap(dkv{"value", "value", lit("1", 1)}), dmap(dkv{"displayName", "displayName", lit("x", "x")}), dseq(lit("1", 1)), dmap(),
		{flow: "!include v.json", val: map[string]any{"value": 3.0}, files: Files{"v.json": `{"value": 3}`}}, {flow: `'{"value": 1}'`, val: map[string]any{"value": 1.0}}}
	hold := []struct {
		name  string
		build func(body string) Files
		get   func(rm *raml.RAML) *raml.Example
	}{
		{"example", func(b string) Files {
			return Files{"main.raml": hdrLib + "annotationTypes:\n  note: any\ntypes:\n  T:\n    type: any\n    example: " + b + "\n"}
		}, func(rm *raml.RAML) *raml.Example { return typ(rm, "T").Example }},
		{"examples", func(b string) Files {
			return Files{"main.raml": hdrLib + "annotationTypes:\n  note: any\ntypes:\n  T:\n    type: any\n    examples:\n      z: 1\n      e: " + b + "\n"}
		}, func(rm *raml.RAML) *raml.Example { e, _ := typ(rm, "T").Examples.Map.Get("e"); return e }},
		{"named example", func(b string) Files {
			return Files{"main.raml": hdrLib + "types:\n  T:\n    type: any\n    examples: !include ne.raml\n", "ne.raml": hdrNE + "z: 1\ne: " + b + "\n"}
		}, func(rm *raml.RAML) *raml.Example { e, _ := typ(rm, "T").Examples.Map.Get("e"); return e }},
	}
	var perms func(rest []attr, cur []attr, out *[][]attr)
	perms = func(rest, cur []attr, out *[][]attr) {
		*out = append(*out, append([]attr{}, cur...))
		for i := range rest {
			n := append(append([]attr{}, rest[:i]...), rest[i+1:]...)
			perms(n, append(cur, rest[i]), out)
		}
	}
	var all [][]attr
	perms(attrs, nil, &all)
	for _, h := range hold {
		h := h
		for _, p := range all {
			p := p
			hasVal, hasNote := false, false
			for _, a := range p {
				hasVal = hasVal || a.k == "value"
				hasNote = hasNote || a.k == "(note)"
			}
			if h.name == "named example" && hasNote && hasVal {
				continue // no annotation types are visible in such a file
			}
			emit(Case{Label: func() string { return fmt.Sprintf("%s with keys %v", h.name, p) }, Run: func(r *Run) {
				vs := vals
				if !hasVal {
					vs = vals[:1]
				}
				for _, v := range vs {
					var kv []string
					want := map[string]any{}
					for _, a := range p {
						t := a.v
						if a.k == "value" {
							t = v.flow
						}
						kv = append(kv, fmt.Sprintf("%q: %s", a.k, t))
						switch a.k {
						case "strict":
							want[a.k] = false
						case "(note)":
							want[a.k] = map[string]any{"n": []any{1}}
						default:
							want[a.k] = a.v
						}
					}
					body := "{" + strings.Join(kv, ", ") + "}"
					f := h.build(body)
					for q, c := range v.files {
						f[q] = c
					}
					f.Write(r.Dir)
					r.Eval(1)
					rm, err := raml.ParseFromPath(r.Dir + "/main.raml")
					sig := h.name + " " + body
					if err != nil {
						r.Fail(sig, h.name+" "+body+" is rejected: "+errText(err), f.String())
						return
					}
					e := h.get(rm)
					if e == nil || e.Data == nil {
						r.Fail(sig, h.name+" "+body+": no example is delivered", f.String())
						return
					}
					has := func(k string) bool {
						for _, a := range p {
							if a.k == k {
								return hasVal
							}
						}
						return false
					}
					var wantV any = want
					dn, ds, strict := "", "", true
					if hasVal {
						wantV = v.val
					}
					if has("displayName") {
						dn = "shown"
					}
					if has("description") {
						ds = "told"
					}
					if has("strict") {
						strict = false
					}
					note, gotNote := annOf(e.CustomDomainProperties, "note")
					switch {
					case !reflect.DeepEqual(e.Data.Value, wantV):
						r.Fail(sig, fmt.Sprintf("%s %s: delivered %#v, written is %#v", h.name, body, e.Data.Value, wantV), f.String())
					case e.DisplayName != dn || e.Description != ds || e.Strict != strict:
						r.Fail(sig, fmt.Sprintf("%s %s: attributes %q %q strict %v, written are %q %q %v", h.name, body, e.DisplayName, e.Description, e.Strict, dn, ds, strict), f.String())
					case gotNote != has("(note)") || gotNote && !reflect.DeepEqual(note, map[string]any{"n": []any{1}}):
						r.Fail(sig, fmt.Sprintf("%s %s: annotation %#v", h.name, body, note), f.String())
					}
					r.Class(h.name + " " + body)
				}
			}})
		}
	}
}

func c21gen(tier string, emit func(Case)) {
	quick := tier == "quick"
	scal, few, incs, roots, jsons := c21scalars(), c21few(), c21includes(), c21rootIncludes(), c21json()
	var depth1, depth2, depth3, inIncs []dv
	for _, v := range scal {
		depth1 = append(depth1, c21wraps(v)...)
	}
	deeper := few
	if tier == "deep" {
		deeper = scal
	}
	for _, v := range deeper {
		for _, w := range c21wraps(v) {
			depth2 = append(depth2, c21wraps(w)...)
		}
	}
	if !quick {
		for i, v := range depth2 {
			if i%2 == 0 || true {
				depth3 = append(depth3, c21wraps(v)...)
			}
		}
	}
	for _, v := range incs {
		ws := c21wraps(v)
		inIncs = append(inIncs, ws...)
		if quick {
			inIncs = append(inIncs, c21wraps(ws[0])[:2]...)
			inIncs = append(inIncs, c21wraps(ws[1])[:2]...)
			continue
		}
		for _, w := range ws {
			inIncs = append(inIncs, c21wraps(w)...)
		}
	}
	empties := []dv{dmap(), dseq(), dmap(dkv{"a", "a", dmap()}, dkv{"b", "b", dseq()}), dseq(dseq(), dmap())}
	chunk := func(s c21site, vs []dv, what string) {
		for i := 0; i < len(vs); i += 40 {
			j := i + 40
			if j > len(vs) {
				j = len(vs)
			}
			c21run(emit, s, vs[i:j], fmt.Sprintf("%s %d to %d", what, i, j))
		}
	}
	for _, s := range c21sites() {
		if s.enum {
			chunk(s, scal, "scalars")
			chunk(s, incs, "included files")
			continue
		}
		chunk(s, scal, "scalars")
		chunk(s, depth1, "collections of scalars")
		chunk(s, depth2, "collections of collections")
		chunk(s, depth3, "collections three deep")
		chunk(s, empties, "empty collections")
		chunk(s, incs, "included files")
		chunk(s, roots, "included files with includes")
		chunk(s, inIncs, "included files inside collections")
		chunk(s, jsons, "inline JSON")
	}
	c21wrapper(emit, tier)
}

func init() {
	register(&Check{ID: "C21", Level: "model_checking", Deep: true, Gen: c21gen,
		Rule: "exhaustive: every scalar spelling, every collection composed of them up to a depth and every kind of included file, in every place that takes data and both YAML styles; all orders and subsets of the keys of an example with attributes",
		Assumptions: []string{
			"text that starts with { where a whole value stands is JSON, its numbers are delivered in double precision",
			"an include inside a YAML file that is itself included from within a collection is refused",
			"YAML anchors, aliases and merge keys, keys that are collections, duplicate keys and files with several YAML documents are not considered",
		}})
}
