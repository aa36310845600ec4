package main

// C02: a value is accepted exactly when it satisfies every declared constraint.

import (
	"math"
	"regexp"
	"strings"
)

// scalarVals is the boundary universe of scalars.
func scalarVals() []any {
	vs := []any{nil, true, false, "", "a", "b", "ab", "abc", "abcd", "é", "éé", "日本語", "a b", "\n", "1", "true", "null", "2020-02-29", "2021-02-29",
		"2020-13-01", "2020-1-1", "12:30:00", "24:00:00", "12:30", "12:30:00.5", "2020-02-29T12:30:00", "2020-02-29T12:30:00.25",
		"2020-02-29T12:30:00Z", "2020-02-29T12:30:00+01:30", "2020-02-29T25:30:00Z", "2020-02-29 12:30:00", "Sat, 29 Feb 2020 12:30:00 GMT",
		"Sat, 31 Feb 2020 12:30:00 GMT", "2020-02-29T12:30:00Zx",
		-3, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 8, 10, 11, 14, 15, 16, 17, 999, 1000, 1001, 127, 128, math.MaxInt32, math.MaxInt32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MinInt64,
		uint64(math.MaxInt64) + 1, uint64(math.MaxUint64), 0.5, 1.5, 2.5, -0.5, 2.0000000001, math.Copysign(0, -1), 1e21, 9007199254740994.0, 1e300}
	return allReps(vs)
}

func facetOpt(name string, vals ...any) []M {
	out := []M{nil}
	for _, v := range vals {
		out = append(out, M{{name, v}})
	}
	return out
}

// product of optional facets.
func product(opts ...[]M) []M {
	res := []M{nil}
	for _, o := range opts {
		var next []M
		for _, r := range res {
			for _, x := range o {
				next = append(next, cat(r, x))
			}
		}
		res = next
	}
	return res
}

func typed(kind any, facets M) M { return cat(M{{"type", kind}}, facets) }

func l(vs ...any) []any { return vs }

// scalarTypes lists declarations of scalar kinds.
func scalarTypes(tier string) []M {
	var out []M
	add := func(kind string, fs []M) {
		for _, f := range fs {
			out = append(out, typed(kind, f))
		}
	}
	big1 := Raw("9007199254740993")
	add("integer", product(facetOpt("minimum", -1, 0, 2, 1<<53, big1), facetOpt("maximum", 0, 2, 5, big1, Raw("18446744073709551615")),
		facetOpt("enum", l(1), l(0, 2, 5), l(-1, 1<<53+1, uint64(math.MaxUint64)))))
	add("integer", product(facetOpt("multipleOf", 2), facetOpt("format", "int8", "int64"), facetOpt("minimum", 1)))
	for _, n := range intNotations {
		add("integer", facetOpt("minimum", n)[1:])
		add("integer", facetOpt("maximum", n)[1:])
		add("number", facetOpt("minimum", n)[1:])
		add("number", facetOpt("maximum", n)[1:])
	}
	for _, n := range []any{Raw("0x2"), Raw("0b11"), Raw("0o3"), Raw("02"), Raw("+2"), Raw("0_2")} {
		add("string", facetOpt("minLength", n)[1:])
		add("string", facetOpt("maxLength", n)[1:])
	}
	add("number", product(facetOpt("minimum", -0.5, 0, 2, 1.5), facetOpt("maximum", 0, 2.5, 5, 9007199254740992.0),
		facetOpt("enum", l(1), l(0.5, 2, 5.0), l(1<<53+1, 1e21))))
	add("number", product(facetOpt("multipleOf", 0.5), facetOpt("format", "float", "double"), facetOpt("maximum", 1)))
	add("string", product(facetOpt("minLength", 0, 1, 2, 3), facetOpt("maxLength", 0, 1, 2, 3),
		facetOpt("pattern", "^a", "b$", "^[ab]*$", "é", "^.{2}$"), facetOpt("enum", l("a"), l("", "ab", "é"), l("1", "true", "null"))))
	add("boolean", facetOpt("enum", l(true), l(false), l(true, false)))
	add("file", product(facetOpt("minLength", 0, 1, 3), facetOpt("maxLength", 0, 1, 3), facetOpt("fileTypes", l("image/png"))))
	add("nil", product(nil2()))
	add("any", product(nil2()))
	add("date-only", product(nil2()))
	add("time-only", product(nil2()))
	add("datetime-only", product(nil2()))
	add("datetime", facetOpt("format", "rfc3339", "rfc2616"))
	return out
}

// intNotations are integers in the notations of YAML other than plain decimal ones.
var intNotations = []any{Raw("010"), Raw("0x10"), Raw("-0x2"), Raw("0b11"), Raw("0o17"), Raw("+5"), Raw("1_000"), Raw("0_7")}

func nil2() []M { return []M{nil} }

// base types used as leaves of composites.
func leafTypes() []any {
	return []any{"string", typed("string", M{{"minLength", 2}}), typed("string", M{{"enum", l("a", "ab")}}), "integer",
		typed("integer", M{{"maximum", 1}}), typed("number", M{{"minimum", 0.5}}), "boolean", "nil", "any"}
}

func leafVals() []any { return []any{nil, true, "", "a", "ab", "abc", 0, 1, 2, 1.0, 0.5, 2.5} }

func arraysOf(vs []any, max int) []any {
	out := []any{[]any{}}
	lvl := [][]any{{}}
	for n := 1; n <= max; n++ {
		var next [][]any
		for _, p := range lvl {
			for _, v := range vs {
				q := append(append([]any{}, p...), v)
				next = append(next, q)
				out = append(out, q)
			}
		}
		lvl = next
	}
	return out
}

// objectsOf lists objects over the keys, each absent or one of vs, at most max keys present.
func objectsOf(keys []string, vs []any, max int) []any {
	var out []any
	var rec func(i int, cur map[string]any)
	rec = func(i int, cur map[string]any) {
		if i == len(keys) {
			c := map[string]any{}
			for k, v := range cur {
				c[k] = v
			}
			out = append(out, c)
			return
		}
		rec(i+1, cur)
		if len(cur) < max {
			for _, v := range vs {
				cur[keys[i]] = v
				rec(i+1, cur)
				delete(cur, keys[i])
			}
		}
	}
	rec(0, map[string]any{})
	return out
}

// valuesFor lists values around a type: for every position accepted and rejected parts.
func valuesFor(w *World, t *Ty, depth, width int) []any {
	if t == nil {
		return nil
	}
	switch t.Kind {
	case "array":
		var elems []any
		if t.Items != nil && depth > 0 {
			elems = pick(w, t.Items.get(), valuesFor(w, t.Items.get(), depth-1, width), width)
		} else {
			elems = []any{1, "a"}
		}
		out := arraysOf(elems, 2)
		var long []any
		for i := 0; i < 4; i++ {
			if len(elems) > 0 {
				long = append(long, elems[0])
			}
			if i >= 2 {
				out = append(out, append([]any{}, long...))
			}
		}
		return append(out, nil, "a", map[string]any{})
	case "object":
		type slot struct {
			k  string
			vs []any
		}
		var slots []slot
		for _, p := range t.Props {
			if depth > 0 {
				slots = append(slots, slot{p.Name, pick(w, p.T.get(), valuesFor(w, p.T.get(), depth-1, width), width)})
			}
		}
		for _, p := range t.Pats {
			k := map[string]string{"/^p/": "p1", "/^[ab]$/": "b", "/x$/": "ax", "//": "any"}[p.Key]
			if k == "" {
				k = "p1"
			}
			if depth > 0 && findProp(t.Props, k) < 0 {
				slots = append(slots, slot{k, pick(w, p.T.get(), valuesFor(w, p.T.get(), depth-1, width), width)})
			}
		}
		slots = append(slots, slot{"zz", []any{1}})
		out := []any{map[string]any{}}
		cur := map[string]any{}
		var rec func(i int)
		rec = func(i int) {
			if i == len(slots) {
				c := map[string]any{}
				for k, v := range cur {
					c[k] = v
				}
				out = append(out, c)
				return
			}
			rec(i + 1)
			for _, v := range slots[i].vs {
				cur[slots[i].k] = v
				rec(i + 1)
			}
			delete(cur, slots[i].k)
		}
		rec(0)
		if len(out) > 400 {
			out = out[:400]
		}
		return append(out, nil, "a", []any{})
	case "union":
		var out []any
		for _, m := range t.AnyOf {
			if depth > 0 {
				out = append(out, pick(w, m.get(), valuesFor(w, m.get(), depth-1, width), width)...)
			}
		}
		return append(out, leafVals()...)
	}
	return leafVals()
}

// pick keeps up to n accepted and n rejected values.
func pick(w *World, t *Ty, vs []any, n int) []any {
	var out []any
	a, b := 0, 0
	for _, v := range vs {
		if w.Accepts(t, v) {
			if a < n {
				out = append(out, v)
			}
			a++
		} else {
			if b < n {
				out = append(out, v)
			}
			b++
		}
	}
	return out
}

func c02case(emit func(Case), decl any, extra []any) {
	d := types(M{{"T", decl}})
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		rm, ok := Outcome(r, d, w, v, true, false)
		if !ok {
			r.Class("rejected")
			return
		}
		vals := append(append([]any{}, extra...), valuesFor(w, w.entry.types["T"].get(), 4, 2)...)
		vals = allReps(vals)
		n := CompareTypes(r, d, w, rm, []string{"T"}, vals)
		r.Class(w.entry.types["T"].get().Kind + sizeClass(n))
	}})
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return ":none"
	case n < 10:
		return ":few"
	}
	return ":many"
}

func genC02(tier string, emit func(Case)) {
	thorough := tier != "quick"
	sv := scalarVals()
	sv = append(sv, []any{}, []any{1}, map[string]any{}, map[string]any{"a": 1})
	for _, t := range scalarTypes(tier) {
		c02case(emit, t, sv)
	}
	arr := arraysOf([]any{nil, "a", "ab", 0, 1, 1.0, true}, 2)
	arr = append(arr, arraysOf([]any{1, "ab", []any{1}}, 3)...)
	arr = append(arr, l(l(1, 2), l(1, 2.0)), l(map[string]any{"a": 1, "b": 2}, map[string]any{"b": 2.0, "a": 1}), l("1", 1), l(nil, nil), l(true, "true"), l("é", "é"), l(0, math.Copysign(0, -1)), l(l(0.0), l(math.Copysign(0, -1))), nil, "a", map[string]any{})
	arr = allReps(arr)
	for _, f := range product(facetOpt("minItems", 0, 1, 2), facetOpt("maxItems", 0, 1, 2), facetOpt("uniqueItems", true, false)) {
		c02case(emit, typed("array", f), arr)
		for _, it := range leafTypes() {
			c02case(emit, typed("array", append(M{{"items", it}}, f...)), arr)
		}
	}
	objs := objectsOf([]string{"a", "b", "p1", "ab"}, []any{1, "ab", nil}, 3)
	objs = append(objs, nil, "a", []any{}, map[string]any{"": 1})
	leaf := leafTypes()
	objs1 := objectsOf([]string{"p1", "q"}, []any{1, "ab", nil, true, 0.5, "a", []any{}}, 2)
	patsets := []M{nil, {{"/^p/", leaf[1]}}, {{"/^[ab]$/", "integer"}}, {{"//", "string"}}, {{"/^p/", "integer"}, {"/^[ab]$/", "string"}},
		{{"/^p/", "integer"}, {"/p/", "string"}}}
	var propsets []M
	for _, q := range []string{"a", "a?"} {
		for _, t := range leaf {
			propsets = append(propsets, M{{q, t}})
		}
	}
	propsets = append(propsets, M{}, M{{"a", "integer"}, {"b?", "string"}}, M{{"a?", "string"}, {"b", "nil"}}, M{{"a??", "integer"}}, M{{"a?", M{{"type", "integer"}, {"required", true}}}},
		M{{"p1", "integer"}}, M{{"ab?", "string"}, {"a", "any"}, {"b?", "integer"}})
	for _, ps := range propsets {
		for _, pt := range patsets {
			for _, f := range product(facetOpt("additionalProperties", true, false), facetOpt("minProperties", 0, 1, 2), facetOpt("maxProperties", 0, 1, 2)) {
				p := cat(ps, pt)
				c02case(emit, typed("object", append(M{{"properties", p}}, f...)), objs)
				if len(p) == 0 {
					c02case(emit, typed("object", f), objs)
				}
			}
		}
	}
	// a name that several pattern properties match
	for _, a := range leaf {
		for _, b := range leaf {
			for _, c := range leaf {
				c02case(emit, typed("object", M{{"properties", M{{"/^p/", a}, {"/1$/", b}, {"/p/", c}}}}), objs1)
				c02case(emit, typed("object", M{{"properties", M{{"p1?", a}, {"/p/", b}, {"//", c}}}}), objs1)
			}
		}
	}
	patternTypes(3+b2i(thorough), func(decl any, values []any) { c02case(emit, decl, values) })
	// unions
	names := []string{"string", "integer", "boolean", "nil", "number", "object", "array", "string[]", "date-only"}
	for _, a := range names {
		c02case(emit, a+"?", leafVals())
		for _, b := range names {
			c02case(emit, a+" | "+b, append(arr[:20:20], append(objs[:8:8], sv...)...))
			for _, e := range []any{l(1), l("a", 1), l(nil, true), l(l("a"), map[string]any{"a": 1})} {
				c02case(emit, M{{"type", a + " | " + b}, {"enum", e}}, append(arr[:60:60], append(objs[:20:20], leafVals()...)...))
			}
			for _, c := range names {
				c02case(emit, strings.Join([]string{a, b, c}, "|"), append(leafVals(), arr[:20]...))
			}
		}
	}
	// composites of composites
	lvl := compose(leaf)
	for _, t := range lvl {
		c02case(emit, t, nil)
	}
	lvl2 := compose(lvl)
	for _, t := range lvl2 {
		c02case(emit, t, nil)
	}
	lvl3 := compose(lvl2)
	for _, t := range lvl3 {
		c02case(emit, t, nil)
	}
	// every pair of types side by side
	for _, a := range lvl {
		for _, b := range lvl {
			c02case(emit, M{{"properties", M{{"a", a}, {"b?", b}}}}, nil)
			c02case(emit, M{{"properties", M{{"/^p/", a}, {"b?", b}}}, {"additionalProperties", true}}, nil)
		}
	}
	lvl4 := compose(lvl3)
	for _, t := range lvl4 {
		c02case(emit, t, nil)
	}
	for _, a := range lvl {
		for _, b := range lvl2 {
			c02case(emit, M{{"properties", M{{"a", a}, {"b?", b}}}}, nil)
			c02case(emit, M{{"properties", M{{"/^p/", b}, {"b?", a}}}, {"additionalProperties", true}}, nil)
		}
	}
	if thorough {
		lvl5 := compose(lvl4)
		for _, t := range lvl5 {
			c02case(emit, t, nil)
		}
		for _, t := range compose(lvl5) {
			c02case(emit, t, nil)
		}
		for _, a := range lvl2 {
			for _, b := range lvl2 {
				c02case(emit, M{{"properties", M{{"a", a}, {"b?", b}}}}, nil)
			}
		}
		for _, a := range lvl {
			for _, b := range lvl {
				for _, c := range leaf {
					c02case(emit, M{{"properties", M{{"a?", a}, {"/^p/", b}, {"//", c}}}}, nil)
				}
			}
		}
	}
}

// patternStrings lists all valid patterns of at most n tokens that matter to keys of properties.
func patternStrings(n int) []string {
	toks := []string{"a", "/", "^", "$", ".", "\\/", "\\.", "?", "|"}
	var out []string
	lvl := []string{""}
	for i := 0; i <= n; i++ {
		var next []string
		for _, p := range lvl {
			if _, err := regexp.Compile(p); err == nil {
				out = append(out, p)
			}
			for _, t := range toks {
				next = append(next, p+t)
			}
		}
		lvl = next
	}
	return out
}

// patternKeys are the texts matched against patternStrings.
func patternKeys() []string {
	return []string{"", "a", "/", ".", "?", "b", "aa", "a/", "/a", "//", "a.", "a?", "ba", "ab", "/a/", "a/a"}
}

// patternTypes calls emit with types that use the patterns as keys of properties and as facets.
func patternTypes(n int, emit func(decl any, values []any)) {
	var objs, strs []any
	for _, k := range patternKeys() {
		objs = append(objs, map[string]any{k: 1}, map[string]any{k: "x"})
		strs = append(strs, k)
	}
	for _, p := range patternStrings(n) {
		emit(M{{"type", "object"}, {"properties", M{{"/" + p + "/", "integer"}}}}, objs)
		emit(M{{"type", "object"}, {"properties", M{{"/" + p + "/", "integer"}, {"a?", "string"}}}}, objs)
		emit(M{{"type", "string"}, {"pattern", p}}, strs)
	}
}

// compose nests types in every kind of position.
func compose(in []any) []any {
	var out []any
	for i, t := range in {
		out = append(out,
			M{{"type", "array"}, {"items", t}},
			M{{"type", "array"}, {"items", t}, {"minItems", 1}, {"uniqueItems", true}},
			M{{"type", "object"}, {"properties", M{{"a", t}}}},
			M{{"type", "object"}, {"properties", M{{"a?", t}, {"b", in[(i+1)%len(in)]}}}, {"additionalProperties", false}},
			M{{"type", "object"}, {"properties", M{{"/^p/", t}, {"a?", in[(i+2)%len(in)]}}}},
		)
		if s, ok := t.(string); ok {
			out = append(out, s+" | integer[]", s+"[]", "("+s+" | nil)[]")
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C02", Level: "model_checking",
		Rule: "every declaration of the facet grammar x every value of the boundary universe (each number in every Go representation); Validate must agree with the reference semantics in model.go",
		Assumptions: []string{"pattern matching itself is Go regexp on both sides", "number kinds are compared exactly (rationals)",
			"multipleOf, number formats and file types are not enforced on values, as the property says"},
		Gen: genC02})
}
