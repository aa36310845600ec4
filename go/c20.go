package main

// C20: implied kinds and property names are determined by the declaration alone.

import (
	"fmt"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C20", Level: "model_checking", Deep: true,
		Rule:        "every sequence without repetition of kind-bearing and neutral facets up to the length bound, in every order and declaration place, and every property key over {a, ?, /, .} up to the length bound x required setting x kind of definition, alone and in pairs; acceptance, kinds, property tables and accepted values are compared with the model",
		Assumptions: []string{"reference model of kind inference and property naming (model.go)"},
		Gen:         genC20})
}

var c20facets = []KV{{"minLength", 1}, {"maxLength", 3}, {"pattern", "^a"}, {"minimum", 1}, {"maximum", 2}, {"multipleOf", 1}, {"minItems", 1}, {"maxItems", 2},
	{"uniqueItems", true}, {"items", "string"}, {"minProperties", 1}, {"maxProperties", 2}, {"additionalProperties", false}, {"properties", M{{"a?", "string"}}}, {"discriminator", "a"},
	{"fileTypes", l("a/b")}, {"description", "d"}, {"enum", l("a", "ab")}, {"type", ""}, {"type", nil}, {"default", "a"}}

var c20vals = []any{nil, true, "", "a", "b", "ab", "abcd", 0, 1, 2, 3, 1.5, []any{}, []any{"a"}, []any{"a", "a"}, []any{1}, []any{"a", "b", "c"},
	map[string]any{}, map[string]any{"a": "x"}, map[string]any{"a": 1}, map[string]any{"b": "x"}, map[string]any{"a": "a", "b": 1}, map[string]any{"a": "a", "b": 1, "c": 1}}

// descDefs describes the facet definitions of a model type.
func descDefs(t *Ty) string {
	var ps []string
	for _, p := range t.Defs {
		ps = append(ps, fmt.Sprintf("%s req=%v: %s", p.Name, p.Req, descTy(p.T.get(), 3)))
	}
	var b strings.Builder
	fList(&b, "defs", ps)
	return b.String()
}

func descDefsShape(s *raml.BaseShape) string {
	var ps []string
	if s.CustomShapeFacetDefinitions != nil {
		for p := s.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
			n := p.Key
			if p.Value.Name != n {
				n += "!name-is-" + p.Value.Name
			}
			ps = append(ps, fmt.Sprintf("%s req=%v: %s", n, p.Value.Required, descShape(p.Value.Base, 3)))
		}
	}
	var b strings.Builder
	fList(&b, "defs", ps)
	return b.String()
}

func c20case(emit func(Case), d *DocSet, vals []any) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		Outcome(r, d, w, v, false, false)
		Outcome(r, d, w, v, false, true)
		rm, ok := Outcome(r, d, w, v, true, false)
		if !ok {
			r.Class("rejected:" + cats(v))
			return
		}
		if w.entry.dt == nil && w.entry.types["X"] == nil {
			r.Class("accepted")
			return
		}
		CompareDesc(r, d, w, rm, []string{"X"}, 6)
		if b := LibType(rm, "X"); b != nil {
			if want, got := descDefs(typeOf(w, "X")), descDefsShape(b); want != got {
				r.Fail(sigOf(d, "facet definitions"), fmt.Sprintf("type X: the facet definitions are %s where the declarations mean %s", got, want), "")
			}
		}
		n := CompareTypes(r, d, w, rm, []string{"X"}, vals)
		r.Class("accepted:" + typeOf(w, "X").Kind + sizeClass(n))
	}})
}

// sequences emits every sequence of distinct elements up to length n.
func sequences(n, from int, emit func([]int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		emit(cur)
		if len(cur) == n {
			return
		}
	next:
		for i := 0; i < from; i++ {
			for _, c := range cur {
				if c == i {
					continue next
				}
			}
			rec(append(append([]int{}, cur...), i))
		}
	}
	rec(nil)
}

func wrapVals(c []wrapper, vals []any) []any {
	for _, w := range c {
		var out []any
		for _, v := range vals {
			switch w.name {
			case "property", "optional property", "pattern property":
				out = append(out, map[string]any{"p": v}, map[string]any{"p": v, "a": "s"})
			case "items", "array of":
				out = append(out, []any{v})
			default:
				out = append(out, v)
			}
		}
		vals = out
	}
	return vals
}

func genC20(tier string, emit func(Case)) {
	thorough := tier != "quick"
	chains := wrapChains(1)
	n := 3
	if thorough {
		n = 4
	}
	if tier == "deep" {
		n = 5
	}
	sequences(n, len(c20facets), func(ix []int) {
		decl := M{}
		if hasBoth(ix, 18, 19) {
			return
		}
		for _, i := range ix {
			decl = append(decl, c20facets[i])
		}
		s := plain("implied", decl)
		for pi, p := range places {
			for ci, c := range chains {
				if (pi > 0 && ci > 0) || (len(ix) > 2 && !thorough && pi+ci > 1) || (len(ix) > 3 && pi+ci > 0) {
					continue
				}
				c20case(emit, p.mk(s, c), wrapVals(c, c20vals))
			}
		}
	})
	// deeper nestings of implied kinds
	for _, c := range wrapChains(min(n-1, 3)) {
		if len(c) < 2 {
			continue
		}
		for _, f := range c20facets {
			c20case(emit, places[0].mk(plain("implied", M{f}), c), wrapVals(c, c20vals))
			c20case(emit, places[0].mk(plain("implied", M{f, {"description", "x"}}), c), wrapVals(c, c20vals))
		}
	}
	genC20names(thorough, emit)
}

func genC20names(thorough bool, emit func(Case)) {
	maxLen := 3
	if thorough {
		maxLen = 5
	}
	keys := []string{""}
	lvl := []string{""}
	for i := 0; i < maxLen; i++ {
		var next []string
		for _, k := range lvl {
			for _, ch := range []string{"a", "?", "/", "."} {
				next = append(next, k+ch)
			}
		}
		keys = append(keys, next...)
		lvl = next
	}
	decls := []any{"integer", M{{"type", "integer"}}, M{{"minimum", 1}}, M{{"type", "integer"}, {"required", true}}, M{{"required", false}, {"type", "integer"}},
		M{{"type", "integer"}, {"required", nil}}, M{{"type", "integer"}, {"required", "x"}}, M{{"required", true}, {"maximum", 5}}, "T", M{{"type", "T"}, {"required", false}}}
	def := func(kind string, ps M) M {
		if kind == "facets" {
			return M{{"type", "string"}, {"facets", ps}}
		}
		return M{{"properties", ps}}
	}
	helper := M{{"T", M{{"type", "integer"}, {"required", true}}}}
	valsOf := func(ks ...string) []any {
		var out []any
		ks = append(ks, "x")
		for _, k := range ks {
			t := strings.TrimSuffix(k, "?")
			for _, n := range []string{k, t, strings.Trim(t, "/"), t + "a"} {
				out = append(out, map[string]any{n: 2}, map[string]any{n: 0}, map[string]any{n: "s"})
				for _, m := range ks {
					out = append(out, map[string]any{n: 2, strings.TrimSuffix(m, "?"): 2})
				}
			}
		}
		return append(out, map[string]any{})
	}
	chains := wrapChains(1)
	for _, kind := range []string{"properties", "facets"} {
		for _, k := range keys {
			for di, decl := range decls {
				s := subject{name: "named", types: helper, mk: func(ref func(string) string) any {
					x := decl
					if x == "T" {
						x = ref("T")
					} else if m, ok := x.(M); ok {
						if t, _ := m.get("type"); t == "T" {
							x = m.with("type", ref("T"))
						}
					}
					return def(kind, M{{k, x}})
				}}
				vals := valsOf(k)
				for ci, c := range chains {
					if ci > 0 && len(k) > 2 && !thorough {
						break
					}
					if kind == "facets" && len(c) > 0 && c[0].name == "facet definition" {
						continue
					}
					if ci > 0 && len(k) > 4 {
						break
					}
					c20case(emit, places[0].mk(s, c), wrapVals(c, vals))
				}
				if di < 5 && len(k) < 4 {
					for _, p := range places[1:] {
						c20case(emit, p.mk(s, nil), vals)
					}
				}
			}
		}
		// two keys that may name the same property
		small := []string{}
		for _, k := range keys {
			if len(k) <= 2 || k == "/a/" || k == "/a/?" || k == "a??" || thorough && len(k) <= 3 {
				small = append(small, k)
			}
		}
		for _, k1 := range small {
			for _, k2 := range small {
				if k1 == k2 {
					continue
				}
				for _, d1 := range []any{"integer", M{{"type", "string"}, {"required", true}}, M{{"type", "string"}, {"required", false}}} {
					for _, d2 := range []any{"integer", M{{"type", "integer"}, {"required", true}}, M{{"type", "integer"}, {"required", false}}} {
						s := plain("pair", def(kind, M{{k1, d1}, {k2, d2}}))
						c20case(emit, places[0].mk(s, nil), valsOf(k1, k2))
					}
				}
			}
		}
	}
}

func hasBoth(ix []int, a, b int) bool {
	n := 0
	for _, i := range ix {
		if i == a || i == b {
			n++
		}
	}
	return n == 2
}
