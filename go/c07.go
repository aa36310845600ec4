package main

import (
	"path"
	"sort"
	"strings"
)

// C07: every example and default is checked against the type that carries it.

func init() {
	register(&Check{ID: "C07", Level: "model_checking", Deep: true,
		Rule:        "every carrier declaration (kinds and facets, direct, inherited, redeclared, aliased) x form of example, named examples or default x accepted and rejected values, in every place (nesting of members up to the depth bound x kind of file), written inline or included, parsed with all four option combinations; acceptance is compared with the model",
		Assumptions: []string{"reference type semantics (model.go)"},
		Gen:         genC07})
}

// a carrier: helper types, the facets of the declaration, a value that it accepts and one that it does not.
type dataCarrier struct {
	helpers   M
	own       func(ref func(string) string) M
	good, bad []any
}

func fixedM(m M) func(func(string) string) M { return func(func(string) string) M { return m } }

func dataCarriers() []dataCarrier {
	t := func(m M, good, bad []any) dataCarrier { return dataCarrier{nil, fixedM(m), good, bad} }
	return []dataCarrier{
		t(typed("string", M{{"minLength", 2}}), l("ab"), l("a", 12, nil)),
		t(M{}, l("x", ""), l(1, true)),
		t(typed("integer", M{{"maximum", 3}}), l(3), l(4, "3", 1.5)),
		t(typed("number", M{{"enum", l(0.5, 1)}}), l(0.5, 1), l(2, "1")),
		t(typed("boolean", nil), l(false), l("true", 0)),
		t(typed("nil", nil), l(nil), l("", 0)),
		t(typed("date-only", nil), l("2020-02-29"), l("2021-02-29", 5)),
		t(typed("datetime", nil), l("2020-02-29T10:00:00Z"), l("x")),
		t(typed("file", M{{"maxLength", 4}}), l("YWJj"), l("YWJjZGVm")),
		t(M{{"items", "integer"}, {"maxItems", 2}}, l(l(1, 2), l()), l(l("a"), l(1, 2, 3), 1)),
		t(M{{"properties", M{{"a", "string"}, {"b?", "integer"}}}, {"additionalProperties", false}}, l(M{{"a", "x"}}, M{{"b", 1}, {"a", ""}}), l(M{}, M{{"a", 1}}, M{{"a", "x"}, {"c", 1}})),
		t(M{{"properties", M{{"/^x/", "integer"}}}}, l(M{{"x", 1}, {"y", "s"}}), l(M{{"xx", "s"}})),
		t(typed("string | integer", nil), l("x", 1), l(true, 1.5)),
		t(typed("string?", nil), l("x", nil), l(1)),
		t(typed("integer[]", nil), l(l(1)), l(l("x"))),
		{M{{"P", typed("string", M{{"minLength", 2}})}}, func(ref func(string) string) M { return M{{"type", ref("P")}} }, l("ab"), l("a")},
		{M{{"P", typed("string", M{{"minLength", 2}})}, {"Q", typed("P", M{{"maxLength", 3}})}}, func(ref func(string) string) M { return M{{"type", ref("Q")}, {"enum", l("ab", "abc")}} }, l("ab"), l("a", "abcd", "xy")},
		{M{{"P", typed("object", M{{"properties", M{{"a", "integer"}}}})}}, func(ref func(string) string) M { return M{{"type", ref("P")}, {"properties", M{{"b", "string"}}}} }, l(M{{"a", 1}, {"b", ""}}), l(M{{"b", ""}}, M{{"a", 1}}, M{{"a", "x"}, {"b", ""}})},
		{M{{"P", typed("object", M{{"properties", M{{"a", typed("integer", M{{"minimum", 1}})}}}})}}, func(ref func(string) string) M {
			return M{{"type", ref("P")}, {"properties", M{{"a", typed("integer", M{{"maximum", 5}})}}}}
		}, l(M{{"a", 1}}), l(M{{"a", 0}}, M{{"a", 6}})},
		{M{{"P", typed("object", M{{"properties", M{{"a", "integer"}}}})}, {"Q", typed("object", M{{"minProperties", 2}})}}, func(ref func(string) string) M { return M{{"type", l(ref("P"), ref("Q"))}} }, l(M{{"a", 1}, {"b", 1}}), l(M{{"a", 1}}, M{{"b", 1}, {"c", 1}})},
		{M{{"P", "string"}, {"Q", "P"}}, func(ref func(string) string) M { return M{{"type", ref("Q") + " | integer"}} }, l("x", 1), l(true)},
		{M{{"P", typed("string | integer", nil)}}, func(ref func(string) string) M { return M{{"type", ref("P")}, {"minLength", 2}} }, l("ab"), l("a", true)},
		{M{{"P", M{{"type", "object"}, {"properties", M{{"v", "integer"}, {"n?", "P"}}}}}}, func(ref func(string) string) M { return M{{"type", ref("P")}} }, l(M{{"v", 1}, {"n", M{{"v", 2}}}}), l(M{{"v", 1}, {"n", M{{"v", "x"}}}}, M{{"v", 1}, {"n", M{}}})},
		{M{{"P", M{{"type", "array"}, {"items", "string"}}}}, func(ref func(string) string) M {
			return M{{"type", ref("P")}, {"items", typed("string", M{{"maxLength", 1}})}}
		}, l(l("a")), l(l("ab"), l(1))},
	}
}

// forms in which a value is attached to a declaration; the value is the only invalid one.
type dataForm struct {
	name string
	mk   func(v, good any) M
}

func dataForms() []dataForm {
	return []dataForm{
		{"example", func(v, _ any) M { return M{{"example", v}} }},
		{"default", func(v, _ any) M { return M{{"default", v}} }},
		{"example value", func(v, _ any) M { return M{{"example", M{{"value", v}}}} }},
		{"example value with attributes", func(v, _ any) M {
			return M{{"example", M{{"displayName", "d"}, {"description", "x"}, {"value", v}, {"strict", true}}}}
		}},
		{"example not strict", func(v, _ any) M { return M{{"example", M{{"strict", false}, {"value", v}}}} }},
		{"only example of examples", func(v, _ any) M { return M{{"examples", M{{"one", v}}}} }},
		{"first of examples", func(v, g any) M { return M{{"examples", M{{"one", v}, {"two", M{{"value", g}}}}}} }},
		{"last of examples", func(v, g any) M {
			return M{{"examples", M{{"one", g}, {"two", g}, {"three", M{{"value", v}, {"strict", true}}}}}}
		}},
		{"not strict among examples", func(v, g any) M { return M{{"examples", M{{"one", M{{"value", v}, {"strict", false}}}, {"two", g}}}} }},
		{"default next to an example", func(v, g any) M { return M{{"example", g}, {"default", v}} }},
		{"example next to a default", func(v, g any) M { return M{{"default", g}, {"example", v}} }},
		{"written before the facets", nil},
	}
}

func genC07(tier string, emit func(Case)) {
	thorough := tier != "quick"
	one := func(d *DocSet) {
		emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
	}
	deep := 1
	if thorough {
		deep = 2
	}
	for ci, dc := range dataCarriers() {
		dc := dc
		for fi, form := range dataForms() {
			vals := append(append([]any{}, dc.good...), dc.bad...)
			for vi, v := range vals {
				s := childOf("carrier", dc.helpers, func(ref func(string) string) any {
					own := dc.own(ref)
					if form.mk == nil {
						return cat(M{{"example", v}}, own)
					}
					return cat(own, form.mk(v, dc.good[0]))
				})
				chains := wrapChains(deep)
				for pi, p := range places {
					for i, c := range chains {
						if !thorough && vi != 0 && vi != len(dc.good) && (i > 0 || pi > 0) {
							continue
						}
						if !thorough && len(c) > 0 && (ci > 1 && fi > 1 && pi > 0) {
							continue
						}
						if tier != "deep" && len(c) > 1 && (vi != 0 && vi != len(dc.good) || fi > 6 || ci > 4 && fi > 2 || pi > 2) {
							continue
						}
						one(p.mk(s, c))
					}
				}
			}
			// values that come from files
			if form.mk == nil {
				continue
			}
			for _, v := range vals {
				for _, ext := range []string{"json", "yaml", "raml"} {
					one(c07include(dc, form, v, ext, false))
					one(c07include(dc, form, v, ext, true))
				}
			}
		}
		for _, v := range append(append([]any{}, dc.good...), dc.bad...) {
			for _, nf := range []M{{{"one", v}}, {{"one", dc.good[0]}, {"two", M{{"value", v}}}}, {{"one", M{{"value", v}, {"strict", false}}}, {"two", dc.good[0]}}} {
				d := NewDocSet().Lib("main.raml", M{{"types", cat(dc.helpers, M{{"X", cat(dc.own(same), M{{"examples", Inc("sub/ne.raml")}})}})}}).Example("sub/ne.raml", nf)
				one(d)
				d2 := NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "sub/lib.raml"}}}}).Lib("sub/lib.raml", M{{"types", cat(M{{"X", M{{"properties", M{{"p?", cat(dc.own(same), M{{"examples", Inc("ne.raml")}})}}}}}}, dc.helpers)}}).Example("sub/ne.raml", nf)
				one(d2)
			}
		}
	}
	// examples of a file next to other data of the declaration, in every place
	for _, dc := range dataCarriers() {
		g := dc.good[0]
		for _, v := range append(append([]any{}, dc.good...), dc.bad...) {
			for _, f := range []struct {
				one, two any
				rest     M
			}{{g, g, M{{"default", v}}}, {v, g, M{{"default", g}}}, {g, v, nil}, {g, g, M{{"default", v}, {"description", "d"}}}, {M{{"value", v}, {"strict", false}}, g, M{{"default", g}}}, {M{{"value", g}, {"strict", false}}, g, M{{"default", v}}}, {M{{"value", g}, {"strict", true}}, M{{"value", v}}, M{{"default", g}}}} {
				for k := 0; k < 2; k++ {
					s := childOf("linked", dc.helpers, func(ref func(string) string) any {
						m := cat(M{{"examples", Inc("ne.raml")}}, f.rest)
						if k == 0 {
							return cat(dc.own(ref), m)
						}
						return cat(m, dc.own(ref))
					})
					for pi, p := range places {
						for _, c := range wrapChains(1) {
							if !thorough && (k > 0 || pi > 0 && len(c) > 0) {
								continue
							}
							one(withExamples(p.mk(s, c), M{{"one", f.one}, {"two", f.two}}))
						}
					}
				}
			}
		}
	}
	// next to settings of the enclosing declaration, and next to further data and settings of the same declaration
	for _, c := range decoratedChains(thorough) {
		for pi, p := range places {
			if pi > 0 && len(c) > 1 {
				break
			}
			for fi, f := range dataForms()[:6] {
				if !thorough && len(c) > 1 && fi > 1 {
					break
				}
				for _, v := range l("ab", "a") {
					one(p.mk(plain("decorated", cat(typed("string", M{{"minLength", 2}}), f.mk(v, "ab"))), c))
				}
			}
		}
	}
	for _, x := range dataSiblings() {
		for _, y := range dataSiblings() {
			if clash(x, y) {
				continue
			}
			for _, form := range dataForms()[:9] {
				for _, v := range l("ab", "a") {
					m := form.mk(v, "ab")
					if clash(m, x) || clash(m, y) {
						continue
					}
					for pi, p := range places {
						for ci, c := range wrapChains(1) {
							if !thorough && pi > 1 && ci > 0 {
								break
							}
							for k, body := range []M{cat(typed("string", M{{"minLength", 2}}), x, y, m), cat(m, x, typed("string", M{{"minLength", 2}}), y)} {
								if k == 1 && ci > 0 {
									continue
								}
								one(p.mk(plain("siblings", body), c))
							}
						}
					}
				}
			}
		}
	}
	// the same value in every chain of members
	n := 2
	if thorough {
		n = 3
	}
	if tier == "deep" {
		n = 4
	}
	for _, c := range wrapChains(n) {
		for pi, p := range places {
			if len(c) > 2 && pi > 2 || len(c) > 3 && pi > 0 {
				break
			}
			for _, f := range dataForms()[:6] {
				for _, v := range l("ab", "a") {
					one(p.mk(plain("chain", cat(typed("string", M{{"minLength", 2}}), f.mk(v, "ab"))), c))
				}
			}
		}
	}
	// an example inherited by nobody: the child is not bound by the parent's example, the parent's is checked against the parent
	for _, v := range l("a", "ab", "abc") {
		for _, k := range []string{"example", "default"} {
			for _, cf := range []M{nil, {{"minLength", 2}}, {{"maxLength", 2}}, {{"enum", l("ab")}}} {
				one(types(M{{"P", M{{"type", "string"}, {k, v}}}, {"C", cat(M{{"type", "P"}}, cf)}, {"A", "C"}, {"O", M{{"properties", M{{"a?", "C"}, {"b?", cat(M{{"type", "P"}}, cf)}}}}}}))
				one(types(M{{"O", M{{"type", "object"}, {"properties", M{{"m?", M{{"type", "string"}, {k, v}}}}}}}, {"C", M{{"type", "O"}, {"properties", M{{"m?", cat(M{{"type", "string"}}, cf)}}}}}}))
				one(types(M{{"O", M{{"type", "object"}, {"properties", M{{"m?", cat(M{{"type", "string"}}, cf)}}}}}, {"C", M{{"type", "O"}, {"properties", M{{"m?", M{{"type", "string"}, {k, v}}}}}}}}))
			}
		}
	}
}

// withExamples puts a file of named examples, ne.raml, beside every file of the document.
func withExamples(d *DocSet, body M) *DocSet {
	var names []string
	for n := range d.Kind {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if p := path.Join(path.Dir(n), "ne.raml"); d.Kind[p] == "" {
			d.Example(p, body)
		}
	}
	return d
}

// dataSiblings are settings that may stand next to data without any effect on it.
func dataSiblings() []M {
	return []M{nil, {{"example", "abc"}}, {{"examples", M{{"p", "abc"}, {"q", "abcd"}}}}, {{"example", M{{"value", 1}, {"strict", false}}}}, {{"default", "abcd"}}, {{"enum", l("a", "ab", "abc", "abcd")}},
		{{"maxLength", 9}}, {{"facets", M{{"zf?", M{{"type", "integer"}, {"default", 1}}}}}}, {{"description", "d"}}}
}

// clash tells whether two bodies have a key in common, or both have examples.
func clash(a, b M) bool {
	for _, x := range a {
		for _, y := range b {
			if x.K == y.K || strings.HasPrefix(x.K, "example") && strings.HasPrefix(y.K, "example") {
				return true
			}
		}
	}
	return false
}

func c07include(dc dataCarrier, form dataForm, v any, ext string, lib bool) *DocSet {
	text := flow(v)
	if ext == "json" {
		text = js(plainOf(v))
	}
	body := cat(dc.own(same), form.mk(Inc("data/v."+ext), dc.good[0]))
	d := NewDocSet()
	if lib {
		d.Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}})
		d.Lib("lib.raml", M{{"types", cat(M{{"X", body}}, dc.helpers)}})
	} else {
		d.Lib("main.raml", M{{"types", cat(M{{"X", body}}, dc.helpers)}})
	}
	return d.Raw("data/v."+ext, text+"\n")
}

// plainOf converts abstract data to plain maps.
func plainOf(v any) any {
	switch x := v.(type) {
	case M:
		r := map[string]any{}
		for _, e := range x {
			r[e.K] = plainOf(e.V)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i, e := range x {
			r[i] = plainOf(e)
		}
		return r
	}
	return v
}
