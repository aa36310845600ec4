package main

// C03: a derived type keeps its parents' facets and members and may only narrow.

// facetSets lists small facet settings of a kind that narrow, widen, repeat or conflict with each other.
func facetSets(kind string) []M {
	switch kind {
	case "integer":
		return append(product(facetOpt("minimum", 0, 1, 2), facetOpt("maximum", 1, 2, 5), facetOpt("enum", l(1), l(1, 2), l(0, 1, 2))),
			M{{"format", "int"}}, M{{"format", "int32"}}, M{{"format", "int64"}}, M{{"multipleOf", 2}}, M{{"multipleOf", 3}})
	case "number":
		return append(product(facetOpt("minimum", 0, 0.5, 2), facetOpt("maximum", 0.5, 2, 5), facetOpt("enum", l(0.5), l(0.5, 2), l(0, 0.5, 2.0))),
			M{{"format", "float"}}, M{{"format", "double"}}, M{{"multipleOf", 0.5}})
	case "string":
		return append(product(facetOpt("minLength", 0, 1, 2), facetOpt("maxLength", 1, 2, 3), facetOpt("enum", l("a"), l("a", "ab"))),
			product(facetOpt("pattern", "^a", "b$"), facetOpt("minLength", 1))...)
	case "file":
		return product(facetOpt("minLength", 0, 2), facetOpt("maxLength", 1, 3), facetOpt("fileTypes", l("a/b"), l("a/b", "c/d")))
	case "boolean":
		return facetOpt("enum", l(true), l(false), l(true, false))
	case "datetime":
		return facetOpt("format", "rfc3339", "rfc2616")
	case "array":
		return append(product(facetOpt("minItems", 0, 1, 2), facetOpt("maxItems", 1, 2), facetOpt("uniqueItems", true, false)),
			product(facetOpt("items", "integer", "string", typed("integer", M{{"minimum", 1}}), typed("integer", M{{"minimum", 2}}), "any", "integer | string"), facetOpt("minItems", 1))...)
	case "object":
		return append(product(facetOpt("minProperties", 0, 1, 2), facetOpt("maxProperties", 1, 2), facetOpt("additionalProperties", true, false)),
			product(facetOpt("properties", M{{"a", "integer"}}, M{{"a?", "integer"}}, M{{"a", typed("integer", M{{"minimum", 1}})}}, M{{"b?", "string"}}, M{{"a", "string"}},
				M{{"/^p/", "integer"}}, M{{"/^p/", typed("integer", M{{"maximum", 1}})}}, M{{"a?", typed("object", M{{"properties", M{{"b", "string"}}}})}},
				M{{"a?", typed("object", M{{"properties", M{{"b?", typed("string", M{{"minLength", 2}})}, {"c?", "integer"}}}})}}),
				facetOpt("additionalProperties", false))...)
	}
	return []M{nil}
}

// Nodes2 is the value of an enumeration.
type Nodes2 = []any

// memberTypes are redeclared against each other in every nested position.
func memberTypes() []any {
	obj := func(ps M, f ...KV) M { return append(M{{"type", "object"}, {"properties", ps}}, f...) }
	return []any{"string", typed("string", M{{"minLength", 2}}), typed("string", M{{"maxLength", 1}}), typed("string", M{{"enum", l("a", "ab")}}), typed("string", M{{"enum", l("ab")}}),
		"integer", typed("integer", M{{"minimum", 1}}), typed("integer", M{{"maximum", 2}, {"minimum", 1}}), "number", "boolean", "nil", "any", "object", "array", "date-only",
		obj(M{{"b", "string"}}), obj(M{{"b?", typed("string", M{{"minLength", 2}})}}), obj(M{{"c?", "integer"}}, KV{"additionalProperties", false}),
		obj(M{{"b?", obj(M{{"c", "integer"}})}}), obj(M{{"b?", obj(M{{"c", typed("integer", M{{"minimum", 1}})}, {"d?", "string"}})}}),
		obj(M{{"/^p/", "integer"}}), obj(M{{"/^p/", typed("integer", M{{"minimum", 1}})}, {"/x$/", "string"}}),
		M{{"type", "array"}, {"items", "integer"}}, M{{"type", "array"}, {"items", typed("integer", M{{"minimum", 1}})}, {"minItems", 1}},
		M{{"type", "array"}, {"items", obj(M{{"b", "integer"}})}}, "string[]",
		"string | integer", "string | nil", "string | integer | boolean", "integer?", "(string | integer) | boolean",
		M{{"type", "string | integer"}, {"enum", l(1, "ab")}}, "string | any"}
}

func c03case(emit func(Case), d *DocSet, names ...string) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		if w.limit > 20000 {
			r.Note("model_limit", 1)
			return
		}
		rm, ok := Outcome(r, d, w, v, true, false)
		if !ok {
			r.Class("rejected:" + cats(v))
			return
		}
		var vals []any
		for _, n := range names {
			vals = append(vals, valuesFor(w, typeOf(w, n), 4, 2)...)
		}
		vals = append(vals, leafVals()...)
		vals = append(vals, l(1, 1), l(1, 2), l("a"), map[string]any{"a": 1}, map[string]any{"p1": 0, "zz": 1})
		CompareDesc(r, d, w, rm, names, 5)
		n := CompareTypes(r, d, w, rm, names, dedupe(vals))
		r.Class("accepted:" + typeOf(w, names[0]).Kind + sizeClass(n))
	}})
}

func dedupe(vs []any) []any {
	seen := map[string]bool{}
	var out []any
	for _, v := range vs {
		k := js(v)
		if !seen[k] {
			seen[k] = true
			out = append(out, v)
		}
	}
	return out
}

func typeOf(w *World, n string) *Ty {
	if w.entry.dt != nil {
		return w.entry.dt.get()
	}
	return w.entry.types[n].get()
}

var derivableKinds = []string{"integer", "number", "string", "file", "boolean", "datetime", "array", "object"}

func every(ms []M, n int) []M {
	if len(ms) <= n {
		return ms
	}
	var out []M
	for i := 0; i < n; i++ {
		out = append(out, ms[i*len(ms)/n])
	}
	return out
}

func genC03(tier string, emit func(Case)) {
	thorough := tier != "quick"
	for _, k := range derivableKinds {
		fs := facetSets(k)
		for _, f1 := range fs {
			for _, f2 := range fs {
				c03case(emit, types(M{{"P", typed(k, f1)}, {"C", typed("P", f2)}}), "C", "P")
			}
		}
		// three levels, several parents
		n := 14
		if thorough {
			n = 40
		}
		if tier == "deep" {
			n = 64
		}
		small := fs
		if k == "object" || k == "array" {
			small = append(every(fs[:len(fs)/2], n/2), every(fs[len(fs)/2:], n/2)...)
		} else {
			small = every(fs, n)
		}
		for _, f1 := range small {
			for _, f2 := range small {
				for _, f3 := range small {
					c03case(emit, types(M{{"P", typed(k, f1)}, {"Q", typed("P", f2)}, {"C", typed("Q", f3)}}), "C", "Q", "P")
					c03case(emit, types(M{{"P", typed(k, f1)}, {"Q", typed(k, f2)}, {"C", typed(l("P", "Q"), f3)}}), "C", "P", "Q")
				}
			}
		}
		tiny := every(small, 6)
		if thorough {
			tiny = every(small, 9)
		}
		if tier == "deep" {
			tiny = every(small, 13)
		}
		for _, f1 := range tiny {
			for _, f2 := range tiny {
				for _, f3 := range tiny {
					for _, f4 := range tiny {
						c03case(emit, types(M{{"P", typed(k, f1)}, {"Q", typed("P", f2)}, {"R", typed("P", f3)}, {"C", typed(l("Q", "R"), f4)}}), "C", "P", "Q", "R")
						c03case(emit, types(M{{"C", typed(l("P", "Q", "R"), f4)}, {"P", typed(k, f1)}, {"Q", typed(k, f2)}, {"R", typed(k, f3)}}), "C", "P", "Q", "R")
					}
				}
			}
		}
	}
	// nested members: every member type redeclared by every member type in every position, at one and two levels
	ms := memberTypes()
	pos := []func(t any) M{
		func(t any) M { return M{{"type", "object"}, {"properties", M{{"a", t}}}} },
		func(t any) M { return M{{"type", "object"}, {"properties", M{{"a?", t}}}} },
		func(t any) M { return M{{"type", "object"}, {"properties", M{{"/^p/", t}}}} },
		func(t any) M { return M{{"type", "array"}, {"items", t}} },
		func(t any) M {
			return M{{"type", "object"}, {"properties", M{{"a?", M{{"type", "object"}, {"properties", M{{"b?", t}}}}}}}}
		},
		func(t any) M { return M{{"type", "array"}, {"items", M{{"type", "array"}, {"items", t}}}} },
		func(t any) M {
			return M{{"type", "object"}, {"properties", M{{"a?", M{{"type", "array"}, {"items", t}}}}}}
		},
		func(t any) M {
			return M{{"type", "array"}, {"items", M{{"type", "object"}, {"properties", M{{"b?", t}}}}}}
		},
	}
	over := func(p M, parent any) M { return p.with("type", parent) }
	for i, p := range pos {
		for _, t1 := range ms {
			for _, t2 := range ms {
				c03case(emit, types(M{{"P", p(t1)}, {"C", over(p(t2), "P")}}), "C", "P")
				if i < 4 || thorough {
					c03case(emit, types(M{{"P", p(t1)}, {"Q", p(t2)}, {"C", M{{"type", l("P", "Q")}}}}), "C", "P", "Q")
					c03case(emit, types(M{{"P", p("T")}, {"T", t1}, {"C", over(p(t2), "P")}, {"D", over(p("T"), "C")}}), "D", "C", "P", "T")
				}
			}
		}
		if i < 4 {
			mem := ms
			if !thorough {
				mem = nil
				for j := 0; j < len(ms); j += 2 {
					mem = append(mem, ms[j])
				}
			}
			for _, t1 := range mem {
				for _, t2 := range mem {
					for _, t3 := range mem {
						c03case(emit, types(M{{"P", p(t1)}, {"Q", over(p(t2), "P")}, {"C", over(p(t3), "Q")}}), "C", "P", "Q")
					}
				}
			}
		}
	}
	genC03families(tier, pos[:4], emit)
	// property by property: required/optional x redeclared
	keys := []string{"a", "a?"}
	for _, k1 := range keys {
		for _, k2 := range keys {
			for _, k3 := range keys {
				for _, r := range []any{nil, true, false} {
					t := any("integer")
					if r != nil {
						t = typed("integer", M{{"required", r}})
					}
					mk := func(k string, ty any) M { return M{{"properties", M{{k, ty}}}} }
					c03case(emit, types(M{{"P", cat(M{{"type", "object"}}, mk(k1, "integer"))}, {"Q", cat(M{{"type", "P"}}, mk(k2, t))}, {"C", cat(M{{"type", "Q"}}, mk(k3, "integer"))}}), "C", "Q", "P")
					c03case(emit, types(M{{"P", cat(M{{"type", "object"}}, mk(k1, t))}, {"Q", cat(M{{"type", "object"}}, mk(k2, "integer"))}, {"C", cat(M{{"type", l("P", "Q")}}, mk(k3, "integer"))}}), "C", "Q", "P")
				}
			}
		}
	}
	// unions, nil and any as parents and through aliases and groups
	for _, t1 := range ms {
		for _, form := range []any{"P", "(P)", l("P"), "P | nil", "P[]", "P?"} {
			for _, f := range []M{{}, {{"description", "x"}}, {{"enum", l("ab", 1)}}, {{"minLength", 1}}, {{"minItems", 1}}, {{"properties", M{{"zz?", "string"}}}}} {
				c03case(emit, types(M{{"P", t1}, {"C", typed(form, f)}}), "C", "P")
				c03case(emit, types(M{{"C", typed(form, f)}, {"P", "Q"}, {"Q", t1}}), "C", "P", "Q")
			}
		}
	}
	// enumerations of unions, narrowed to a member, to a smaller union, or to another enumeration
	parts := []string{"string", "integer", "number", "boolean", "nil", "date-only", "datetime-only", "array", "object", "string[]", "file"}
	enums := []Nodes2{nil, l("a", 1), l(true, 0.5), l(1, 0.5, 2), l("2020-02-29", "x"), l(nil, false), l(1.0), l("a", true, nil, 1)}
	if thorough {
		enums = append(enums, l("a"), l(false), l(1, 2), l(1, 2.0), l("YQ=="), l("a", "ab", 1, 2, true, false, nil), l(l("a"), M{{"a", 1}}), l(M{}, "a"))
	}
	withEnum := func(t string, e Nodes2) M {
		if e == nil {
			return M{{"type", t}}
		}
		return M{{"type", t}, {"enum", []any(e)}}
	}
	for ai, a := range parts {
		for bi, b := range parts {
			if ai == bi || !thorough && ai > bi || a == "string[]" && b == "array" || b == "string[]" && a == "array" {
				continue
			}
			for _, e1 := range enums {
				for _, t := range []string{"P", a, b, a + " | " + b, b + " | " + a, a + " | nil", "any", a + "?", "integer", "(" + b + ")"} {
					for _, e2 := range enums {
						if t != "P" && t != a && t != b && t != a+" | "+b && t != b+" | "+a && len(e2) > 0 && !thorough {
							continue
						}
						P := KV{"P", withEnum(a+" | "+b, e1)}
						T := withEnum(t, e2)
						c03case(emit, types(M{P, {"O", M{{"properties", M{{"a", "P"}}}}}, {"C", M{{"type", "O"}, {"properties", M{{"a", T}}}}}}), "C", "O", "P")
						if t == "P" || thorough {
							c03case(emit, types(M{P, {"L", M{{"items", "P"}}}, {"C", M{{"type", "L"}, {"items", T}}}, {"D", T}}), "C", "D", "L")
							c03case(emit, types(M{P, {"Q", T}, {"C", M{{"type", l("P", "Q")}}}}), "C", "P", "Q")
						}
					}
				}
			}
		}
	}
	// included parents
	for _, k := range derivableKinds {
		fs := every(facetSets(k), 8)
		for _, f1 := range fs {
			for _, f2 := range fs {
				d := NewDocSet().Lib("main.raml", M{{"types", M{{"C", M(cat(M{{"type", Inc("dt.raml")}}, f2))}, {"A", Inc("dt.raml")}, {"D", typed("C", M{})}}}}).
					DataType("dt.raml", typed(k, f1))
				c03case(emit, d, "C", "A", "D")
			}
		}
	}
}

// genC03families: families of types that derive from each other; members of a parent are given by one expression over
// the family and redeclared by another one, so that the redeclared member may be the inherited one, an ancestor, a
// descendant, a sibling or a union of such.
func genC03families(tier string, pos []func(t any) M, emit func(Case)) {
	families := []M{
		{{"A", "string"}, {"B", typed("A", M{{"minLength", 1}})}, {"D", typed("B", M{{"maxLength", 2}})}, {"E", typed("A", M{{"enum", l("a", "abc")}})}},
		{{"A", M{{"properties", M{{"a?", "integer"}}}}}, {"B", typed("A", M{{"properties", M{{"b?", "string"}}}})}, {"D", typed("B", M{{"maxProperties", 1}})}, {"E", typed("A", M{{"properties", M{{"a", typed("integer", M{{"minimum", 1}})}}}})}},
		{{"A", M{{"items", "any"}}}, {"B", typed("A", M{{"items", "integer"}})}, {"D", typed("B", M{{"maxItems", 1}})}, {"E", typed("A", M{{"items", "string"}})}},
		{{"A", "string | integer | nil"}, {"B", typed("A", M{{"enum", l("a", 1)}})}, {"D", "string"}, {"E", typed("A", nil)}},
		{{"A", "any"}, {"B", "integer"}, {"D", "B"}, {"E", typed("B", M{{"minimum", 1}})}},
	}
	forms := []any{"A", "B", "D", "E", "A | B", "B | E", "E | B", "B | D | E", "D?", "B | integer", "nil | E", "(B | nil) | E", "A[]",
		typed("A", M{{"description", "d"}}), typed("B", M{{"description", "d"}}), typed("E", M{{"description", "d"}}), typed("B | E", M{{"description", "d"}}), M{{"type", l("B", "E")}}, M{{"type", l("B", "D")}}}
	for fi, fam := range families {
		for i, p := range pos {
			for f1, t1 := range forms {
				for f2, t2 := range forms {
					d := types(cat(M{{"C", p(t2).with("type", "P")}, {"P", p(t1)}}, fam))
					c03case(emit, d, "C", "P", "A", "B", "D", "E")
					if tier == "quick" && (i > 0 || (fi+f1+f2)%3 != 0) {
						continue
					}
					c03case(emit, types(cat(fam, M{{"P", p(t1)}, {"Q", p(t2)}, {"C", M{{"type", l("P", "Q")}}}})), "C", "P", "Q", "A", "B", "D", "E")
					for _, t3 := range forms {
						if tier == "quick" {
							if (fi+f1)%2 != 0 {
								continue
							}
						}
						c03case(emit, types(cat(M{{"C", p(t3).with("type", "Q")}, {"P", p(t1)}, {"Q", p(t2).with("type", "P")}}, fam)), "C", "Q", "P", "B", "E")
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking", Deep: true,
		Rule:        "every inheritance hierarchy of the enumerated shapes (chains, diamonds, several parents, members redeclared at depth <= 2, unions, included parents) over the facet settings of each kind; acceptance of the document and of every value must agree with the functional merge in model.go",
		Assumptions: []string{"value universe: boundary values derived from each type of the hierarchy"},
		Gen:         genC03})
}
