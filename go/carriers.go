package main

import "strings"

// Places where a type may be written: nestings of members, and files.

// subject builds a declaration; ref qualifies the name of a helper type declared next to it.
type subject struct {
	name  string
	mk    func(ref func(string) string) any
	types M // helper types
}

func plain(name string, t any) subject {
	return subject{name: name, mk: func(func(string) string) any { return t }}
}

// child is a declaration derived from helper types.
func childOf(name string, helpers M, mk func(ref func(string) string) any) subject {
	return subject{name: name, mk: mk, types: helpers}
}

// wrapper nests a declaration one level deeper.
type wrapper struct {
	name string
	mk   func(t any, ref func(string) string, k string) (any, M)
}

func wrappers() []wrapper {
	named := func(t any, k string) M { return M{{"N" + k, t}} }
	return []wrapper{
		{"property", func(t any, _ func(string) string, _ string) (any, M) { return M{{"properties", M{{"p", t}}}}, nil }},
		{"optional property", func(t any, _ func(string) string, _ string) (any, M) {
			return M{{"type", "object"}, {"properties", M{{"a", "string"}, {"p?", t}}}}, nil
		}},
		{"pattern property", func(t any, _ func(string) string, _ string) (any, M) { return M{{"properties", M{{"/^p/", t}}}}, nil }},
		{"items", func(t any, _ func(string) string, _ string) (any, M) { return M{{"type", "array"}, {"items", t}}, nil }},
		{"union", func(t any, ref func(string) string, k string) (any, M) {
			return ref("N"+k) + " | " + ref("Zz"+k), cat(named(t, k), M{{"Zz" + k, "nil"}})
		}},
		{"array of", func(t any, ref func(string) string, k string) (any, M) { return ref("N"+k) + "[]", named(t, k) }},
		{"alias", func(t any, ref func(string) string, k string) (any, M) { return ref("N" + k), named(t, k) }},
		{"child", func(t any, ref func(string) string, k string) (any, M) {
			return M{{"type", ref("N" + k)}, {"description", "d"}}, named(t, k)
		}},
		{"facet definition", func(t any, _ func(string) string, _ string) (any, M) {
			return M{{"type", "string"}, {"facets", M{{"ff?", t}}}}, nil
		}},
	}
}

// decorations are settings that may stand next to a nested declaration without any effect on it.
func decorations(kind string) []M {
	common := []M{{{"description", "d"}}, {{"displayName", "n"}}, {{"facets", M{{"zf?", "string"}}}}}
	switch kind {
	case "array":
		return append(common, M{{"minItems", 0}}, M{{"minItems", 1}}, M{{"maxItems", 9}}, M{{"maxItems", 0}}, M{{"uniqueItems", true}}, M{{"uniqueItems", false}}, M{{"minItems", 1}, {"maxItems", 9}},
			M{{"example", M{{"value", "x"}, {"strict", false}}}})
	case "object":
		return append(common, M{{"minProperties", 0}}, M{{"minProperties", 1}}, M{{"maxProperties", 9}}, M{{"maxProperties", 0}}, M{{"additionalProperties", true}}, M{{"additionalProperties", false}},
			M{{"example", M{{"value", "x"}, {"strict", false}}}})
	case "scalar":
		return append(common, M{{"example", "x"}}, M{{"default", "x"}}, M{{"examples", M{{"e", "x"}}}}, M{{"minLength", 0}}, M{{"enum", l("x")}})
	}
	return append(common, M{{"example", M{{"value", "x"}, {"strict", false}}}})
}

// decoratedWrappers lists the wrappers together with the settings that may stand next to the nested declaration, and
// with further members before and after it.
func decoratedWrappers() []wrapper {
	var out []wrapper
	with := func(w wrapper, name string, f func(t any, ref func(string) string, k string) (any, M)) {
		out = append(out, wrapper{w.name + " with " + name, f})
	}
	for _, w := range wrappers() {
		w := w
		kind := map[string]string{"property": "object", "optional property": "object", "pattern property": "object", "items": "array", "array of": "array", "facet definition": "scalar"}[w.name]
		for _, dec := range decorations(kind) {
			dec := dec
			if w.name == "facet definition" && dec[0].K == "facets" || w.name == "pattern property" && dec[0].K == "additionalProperties" {
				continue
			}
			with(w, flow(dec), func(t any, ref func(string) string, k string) (any, M) {
				b, x := w.mk(t, ref, k)
				m, ok := b.(M)
				if !ok {
					m = M{{"type", b}}
				}
				return cat(m, dec), x
			})
		}
		key := map[string]string{"property": "properties", "optional property": "properties", "pattern property": "properties", "facet definition": "facets"}[w.name]
		if key == "" {
			continue
		}
		for _, sib := range []M{{{"q?", "integer"}}, {{"q?", M{{"type", "array"}, {"items", "string"}}}}, {{"/^q/", "integer"}}} {
			sib := sib
			if key == "facets" && sib[0].K[0] == '/' {
				continue
			}
			for _, before := range []bool{true, false} {
				before := before
				with(w, "a sibling "+flow(sib), func(t any, ref func(string) string, k string) (any, M) {
					b, x := w.mk(t, ref, k)
					m := append(M{}, b.(M)...)
					for i := range m {
						if m[i].K == key && before {
							m[i].V = cat(sib, m[i].V.(M))
						} else if m[i].K == key {
							m[i].V = cat(m[i].V.(M), sib)
						}
					}
					return m, x
				})
			}
		}
	}
	return out
}

// decoratedChains lists single decorated wrappers and their combinations with a further wrapper inside or outside,
// which is decorated as well in the thorough tier.
func decoratedChains(thorough bool) [][]wrapper {
	var out [][]wrapper
	add := func(c ...wrapper) {
		for i := range c {
			if strings.HasPrefix(c[i].name, "facet definition") && endsInFacetDef(c[:i]) {
				return
			}
		}
		out = append(out, c)
	}
	inner := wrappers()
	if thorough {
		inner = append(inner, decoratedWrappers()...)
	}
	for _, w := range decoratedWrappers() {
		add(w)
		for _, x := range inner {
			add(x, w)
			if !strings.Contains(x.name, " with ") {
				add(w, x)
			}
		}
	}
	return out
}

// wrapChains lists the chains of wrappers up to a depth.
func wrapChains(depth int) [][]wrapper {
	out := [][]wrapper{nil}
	lvl := [][]wrapper{nil}
	for d := 0; d < depth; d++ {
		var next [][]wrapper
		for _, c := range lvl {
			for _, w := range wrappers() {
				if w.name == "facet definition" && endsInFacetDef(c) {
					continue // facet definitions have no facet definitions of their own
				}
				n := append(append([]wrapper{}, c...), w)
				next = append(next, n)
				out = append(out, n)
			}
		}
		lvl = next
	}
	return out
}

// endsInFacetDef tells whether the outermost declaration of a chain, or the one it is derived from, defines a facet.
func endsInFacetDef(c []wrapper) bool {
	for i := len(c) - 1; i >= 0; i-- {
		switch strings.SplitN(c[i].name, " with ", 2)[0] {
		case "facet definition":
			return true
		case "alias", "child":
		default:
			return false
		}
	}
	return false
}

// apply nests the subject; the innermost wrapper is the first.
func apply(s subject, chain []wrapper, ref func(string) string) (any, M) {
	t := s.mk(ref)
	extra := append(M{}, s.types...)
	for i, w := range chain {
		var e M
		t, e = w.mk(t, ref, string(rune('0'+i)))
		// a union wrapper of the model's grammar names its other alternative
		extra = append(extra, e...)
	}
	return t, extra
}

type place struct {
	name string
	mk   func(s subject, chain []wrapper) *DocSet
	// name of the entry file's type that carries the subject ("" if there is none)
	typ string
}

func same(s string) string { return s }

// qualify is used where the helpers live in the library that is imported as l.
func qualify(s string) string { return "l." + s }

var places = []place{
	{"type", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		return NewDocSet().Lib("main.raml", M{{"types", cat(M{{"X", t}}, x)}})
	}, "X"},
	{"type declared last", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		return NewDocSet().Lib("main.raml", M{{"types", cat(x, M{{"X", t}})}})
	}, "X"},
	{"annotation type", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		if len(x) == 0 {
			return NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"an", t}}}})
		}
		return NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"an", t}}}, {"types", x}})
	}, ""},
	{"imported library", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		return NewDocSet().Lib("main.raml", M{{"uses", M{{"lib", "sub/lib.raml"}}}, {"types", M{{"Other", "string"}}}}).
			Lib("sub/lib.raml", M{{"types", cat(M{{"X", t}}, x)}})
	}, ""},
	{"used from an imported library", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		return NewDocSet().Lib("main.raml", M{{"uses", M{{"lib", "sub/lib.raml"}}}, {"types", M{{"X", "lib.X"}}}}).
			Lib("sub/lib.raml", M{{"types", cat(M{{"X", t}}, x)}})
	}, "X"},
	{"library imported by a library", func(s subject, c []wrapper) *DocSet {
		t, x := apply(s, c, same)
		return NewDocSet().Lib("main.raml", M{{"uses", M{{"lib", "a.raml"}}}}).Lib("a.raml", M{{"uses", M{{"lib", "b.raml"}}}}).
			Lib("b.raml", M{{"annotationTypes", M{{"an", "string"}}}, {"types", cat(M{{"X", t}}, x)}})
	}, ""},
	{"data type", func(s subject, c []wrapper) *DocSet { return dtDoc(s, c, false) }, ""},
	{"included data type", func(s subject, c []wrapper) *DocSet { return dtDoc(s, c, true) }, "X"},
}

// dtDoc writes the subject as a data type fragment whose helpers are in an imported library.
func dtDoc(s subject, c []wrapper, included bool) *DocSet {
	t, x := apply(s, c, qualify)
	// the helpers refer to each other without a prefix
	_, x2 := apply(s, c, same)
	_ = x
	body, ok := t.(M)
	if !ok {
		body = M{{"type", t}}
	}
	if len(body) == 0 {
		body = M{{"displayName", "x"}}
	}
	if len(x2) > 0 {
		body = cat(M{{"uses", M{{"l", "helpers.raml"}}}}, body)
	}
	d := NewDocSet()
	if included {
		d.Lib("main.raml", M{{"types", M{{"X", Inc("dt.raml")}, {"Y", M{{"type", Inc("dt.raml")}}}}}})
	}
	d.DataType("dt.raml", body)
	if len(x2) > 0 {
		d.Lib("helpers.raml", M{{"types", x2}})
	}
	return d
}

// fourModes runs a case with every combination of unwrapping and validation.
func fourModes(r *Run, d *DocSet) (*World, map[string]bool) {
	w := NewWorld(d)
	v := w.Verdict()
	if w.limit > 20000 {
		r.Note("model_limit", 1)
		return w, nil
	}
	for _, unwrap := range []bool{false, true} {
		for _, validate := range []bool{false, true} {
			Outcome(r, d, w, v, unwrap, validate)
		}
	}
	if len(v) > 0 {
		r.Class("rejected:" + cats(v))
	} else {
		r.Class("accepted")
	}
	return w, v
}

// startsInFacetDef tells whether the first wrapper that is not a further name of the subject is a facet definition.
func startsInFacetDef(c []wrapper) bool {
	for _, w := range c {
		switch strings.SplitN(w.name, " with ", 2)[0] {
		case "facet definition":
			return true
		case "alias", "child":
		default:
			return false
		}
	}
	return false
}
