package main

// C09: custom facets obey their definitions throughout the hierarchy.

func init() {
	register(&Check{ID: "C09", Level: "model_checking", Deep: true,
		Rule:        "every hierarchy of up to 3 levels and 2 parents over the enumerated facet definitions and facet values, for every kind of type, in every place (nesting of members up to the depth bound x kind of file), parsed with all four option combinations; acceptance is compared with the model",
		Assumptions: []string{"reference model of the custom facet rules (model.go)"},
		Gen:         genC09})
}

var c09kinds = []M{{{"type", "string"}}, {{"type", "integer"}}, {{"type", "number"}}, {{"type", "boolean"}}, {{"type", "nil"}}, {{"type", "any"}}, {{"type", "file"}}, {{"type", "array"}},
	{{"type", "object"}}, {{"type", "date-only"}}, {{"type", "time-only"}}, {{"type", "datetime-only"}}, {{"type", "datetime"}}, {{"type", "string | integer"}}, {{"type", "string?"}}, {{"type", "string[]"}},
	{{"minLength", 1}}, {{"properties", M{{"a?", "string"}}}}, {}}

var c09defs = []KV{{"f", typed("integer", M{{"minimum", 1}})}, {"f?", typed("integer", M{{"minimum", 1}})}, {"f", M{{"type", "string"}, {"required", false}, {"enum", l("x", "y")}}},
	{"f", "string[]"}, {"f?", M{{"properties", M{{"k", "integer"}}}}}, {"f", "integer | string"}, {"f?", "boolean"}, {"f", "any"}, {"f?", "nil"}, {"f", "Rng"}, {"f?", typed("Rng", M{{"maximum", 3}})}}

var c09values = []any{nil, 0, 1, 5, 1.5, "x", "z", true, l("a"), l(1), M{{"k", 1}}, M{{"k", "s"}}, M{}}

var c09helper = KV{"Rng", typed("integer", M{{"minimum", 1}, {"maximum", 4}})}

const absent = "\x00absent"

func c09own(v any) M {
	if v == absent {
		return M{}
	}
	return M{{"f", v}}
}

func genC09(tier string, emit func(Case)) {
	thorough := tier != "quick"
	run := func(s subject, c []wrapper, p place) {
		s.types = append(append(M{}, s.types...), c09helper)
		d := p.mk(s, c)
		emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
	}
	placesOf := func(s subject, depth int) {
		for i, p := range places {
			for _, c := range wrapChains(depth) {
				if i > 2 && len(c) > 1 {
					continue
				}
				run(s, c, p)
			}
		}
	}
	defs := func(ref func(string) string, ds ...KV) KV {
		m := M{}
		for _, d := range ds {
			switch x := d.V.(type) {
			case string:
				if x == "Rng" {
					d.V = ref("Rng")
				}
			case M:
				if t, _ := x.get("type"); t == "Rng" {
					d.V = x.with("type", ref("Rng"))
				}
			}
			m = append(m, d)
		}
		return KV{"facets", m}
	}
	vals := append(l(absent), c09values...)
	deep := 1
	if thorough {
		deep = 2
	}
	// one level: every kind x definition x value
	for ki, k := range c09kinds {
		for di, def := range c09defs {
			for vi, v := range vals {
				s := childOf("child", M{{"P", cat(k, M{defs(same, def)})}}, func(ref func(string) string) any { return cat(M{{"type", ref("P")}}, c09own(v)) })
				depth := 0
				if ki == 8 || ki == 0 && di < 4 && vi < 4 || thorough && vi < 5 && di < 4 {
					depth = 1
				}
				if thorough && ki == 8 && vi < 5 {
					depth = deep
				}
				placesOf(s, depth)
			}
			// the type gives its own facet a value, or defines it and a built-in one
			for _, v := range l(1, "x") {
				placesOf(childOf("own", nil, func(ref func(string) string) any { return cat(k, M{defs(ref, def), {"f", v}}) }), 0)
				placesOf(childOf("own, value first", nil, func(ref func(string) string) any { return cat(k, M{{"f", v}, defs(ref, def)}) }), 0)
			}
		}
		// undefined facets, and facets of other kinds
		for _, f := range []KV{{"g", 1}, {"minLength", 1}, {"maximum", 1}, {"minItems", 1}, {"maxProperties", 1}, {"pattern", "a"}, {"uniqueItems", true}, {"items", "string"}, {"properties", M{{"z?", "string"}}},
			{"format", "int"}, {"fileTypes", l("a/b")}, {"multipleOf", 1}, {"discriminatorValue", "x"}, {"enum", l("a")}, {"additionalProperties", true}, {"Required", true}, {"g", nil}, {"xml", M{}}} {
			if t, _ := k.get("type"); f.K == "format" && (t == "integer" || t == "number" || t == "datetime") {
				continue
			}
			placesOf(childOf("undefined", nil, func(func(string) string) any { return cat(k, M{f}) }), deep)
			placesOf(childOf("undefined in child", M{{"P", k}}, func(ref func(string) string) any { return M{{"type", ref("P")}, f} }), 0)
			placesOf(childOf("undefined besides defined", M{{"P", cat(k, M{defs(same, c09defs[1])})}}, func(ref func(string) string) any { return M{{"type", ref("P")}, {"f", 1}, f} }), 0)
		}
	}
	// three levels: values given at any level, redefinitions at any level
	obj := M{{"type", "object"}}
	lvlVals := l(absent, 0, 2, "x")
	if tier == "deep" {
		lvlVals = vals
	}
	redefs := []M{nil, {{"facets", M{{"f", "integer"}}}}, {{"facets", M{{"f?", "string"}}}}, {{"facets", M{{"g", "integer"}}}}, {{"facets", M{{"g?", "integer"}}}}, {{"facets", M{}}}}
	for _, k := range []M{obj, {{"type", "string"}}, {{"type", "string | integer"}}} {
		for _, def := range c09defs[:4] {
			for _, v1 := range lvlVals {
				for _, v2 := range lvlVals {
					for _, r1 := range redefs {
						for _, r2 := range redefs {
							for _, g := range []M{nil, {{"g", 3}}, {{"g", "x"}}} {
								s := childOf("grandchild", M{{"P", cat(k, M{defs(same, def)})}, {"Mid", cat(M{{"type", "P"}}, c09own(v1), r1)}}, func(ref func(string) string) any {
									return cat(M{{"type", ref("Mid")}}, c09own(v2), g, r2)
								})
								for i, p := range places {
									if i == 0 || i == 2 || thorough || r2 == nil && g == nil {
										run(s, nil, p)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// two parents, diamonds, aliases of parents, array and optional of types with facets
	for _, k := range []M{obj, {{"type", "string"}}, {{"type", "array"}}} {
		for _, d1 := range c09defs[:4] {
			for _, d2 := range []KV{{"f", "integer"}, {"f?", "string"}, {"g", "integer"}, {"g?", "integer"}, {"h?", "any"}} {
				for _, v := range lvlVals {
					for _, g := range []M{nil, {{"g", 3}}, {{"g", "x"}}} {
						own := cat(c09own(v), g)
						P, Q := KV{"P", cat(k, M{defs(same, d1)})}, KV{"Q", cat(k, M{defs(same, d2)})}
						ss := []subject{
							childOf("two parents", M{P, Q}, func(ref func(string) string) any { return cat(M{{"type", l(ref("P"), ref("Q"))}}, own) }),
							childOf("two parents swapped", M{P, Q}, func(ref func(string) string) any { return cat(M{{"type", l(ref("Q"), ref("P"))}}, own) }),
							childOf("second parent has a parent", M{P, Q, {"R", cat(M{{"type", "P"}}, c09own(2))}}, func(ref func(string) string) any { return cat(M{{"type", l(ref("Q"), ref("R"))}}, own) }),
							childOf("diamond", M{P, {"R", cat(M{{"type", "P"}}, c09own(v))}, {"S", cat(M{{"type", "P"}}, c09own(2))}}, func(ref func(string) string) any { return cat(M{{"type", l(ref("R"), ref("S"))}}, own) }),
							childOf("alias", M{P, {"R", "P"}, {"S", "R"}}, func(ref func(string) string) any { return cat(M{{"type", ref("S")}}, own) }),
							childOf("grouped", M{P}, func(ref func(string) string) any { return cat(M{{"type", "(" + ref("P") + ")"}}, own) }),
							childOf("array of", M{P}, func(ref func(string) string) any { return cat(M{{"type", ref("P") + "[]"}}, own) }),
							childOf("optional", M{P}, func(ref func(string) string) any { return cat(M{{"type", ref("P") + "?"}}, own) }),
							childOf("facet typed by a type with facets", M{P, {"R", M{{"type", "string"}, {"facets", M{{"f", "P"}}}}}}, func(ref func(string) string) any { return cat(M{{"type", ref("R")}}, own) }),
						}
						for _, s := range ss {
							for i, p := range places {
								if i == 0 || i == 4 || i == 7 || thorough {
									run(s, nil, p)
								}
							}
						}
					}
				}
			}
		}
	}
	// next to settings of the enclosing declaration
	facetP := M{{"P", M{{"type", "string"}, {"facets", M{{"f", typed("integer", M{{"minimum", 1}})}}}}}}
	for _, c := range decoratedChains(thorough) {
		for _, own := range []M{{{"f", 1}}, {{"f", 0}}, nil, {{"f", 1}, {"g", 1}}} {
			run(childOf("decorated", facetP, func(ref func(string) string) any { return cat(M{{"type", ref("P")}}, own) }), c, places[0])
		}
	}
	// several definitions and several values, in every order, next to other settings
	two := []KV{{"f", typed("integer", M{{"minimum", 1}})}, {"f?", typed("integer", M{{"minimum", 1}})}, {"g", "string"}, {"g?", "string"}, {"h?", "boolean"}}
	sets := []M{{{"f", 1}}, {{"f", 0}}, {{"g", "x"}}, {{"g", 1}}, {{"h", true}}, {{"h", 1}}, {{"i", 1}}, {{"description", "d"}}, {{"minLength", 1}}, {{"example", "x"}}, {{"default", "x"}}, {{"facets", M{{"j", "any"}}}}, {{"enum", l("x")}}}
	for _, d1 := range two {
		for _, d2 := range two {
			if d1.K[0] == d2.K[0] {
				continue
			}
			for _, a := range sets {
				for _, b := range sets {
					for _, c := range append(sets, nil) {
						if clash(a, b) || clash(a, c) || clash(b, c) || len(c) == 0 && flow(a) > flow(b) {
							continue
						}
						if !thorough && d1.K > d2.K {
							continue
						}
						for i, pt := range []M{{defs(same, d1, d2)}, {defs(same, d1)}} {
							if i == 1 && (len(c) > 0 || !thorough) {
								continue
							}
							run(childOf("several", M{{"P", cat(M{{"type", "string"}}, pt)}}, func(ref func(string) string) any { return cat(M{{"type", ref("P")}}, a, b, c) }), nil, places[0])
						}
					}
				}
			}
		}
	}
	// redeclared members: the declared member has facets of its own ancestors
	for _, v1 := range lvlVals {
		for _, v2 := range lvlVals {
			P := KV{"P", M{{"type", "object"}, {"facets", M{{"f", typed("integer", M{{"minimum", 1}})}}}}}
			Q := KV{"Q", M{{"type", "object"}, {"facets", M{{"f?", typed("integer", M{{"maximum", 1}})}}}}}
			a, b := cat(M{{"type", "P"}}, c09own(v1)), cat(M{{"type", "Q"}}, c09own(v2))
			c := cat(M{{"type", "object"}}, M{{"maxProperties", 2}}, c09own(v2))
			for _, second := range []M{b, c, {{"type", "object"}, {"minProperties", 1}}} {
				for _, mk := range []func(t any) M{
					func(t any) M { return M{{"properties", M{{"m?", t}}}} },
					func(t any) M { return M{{"properties", M{{"/^m/", t}}}} },
					func(t any) M { return M{{"items", t}} },
				} {
					kind := "object"
					if _, ok := mk(nil).get("items"); ok {
						kind = "array"
					}
					first := cat(M{{"type", kind}}, mk(a))
					d := types(M{P, Q, {"A", first}, {"X", cat(M{{"type", "A"}}, mk(second))}})
					emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
					d2 := types(M{{"X", cat(M{{"type", l("A", "B")}})}, {"A", first}, {"B", cat(M{{"type", kind}}, mk(second))}, P, Q})
					emit(Case{Doc: d2, Label: d2.String, Run: func(r *Run) { fourModes(r, d2) }})
				}
			}
		}
	}
	// members of unions that have facet values, narrowed by a redeclared member
	for _, v1 := range lvlVals {
		for _, v2 := range lvlVals {
			for _, v3 := range lvlVals {
				P := KV{"P", M{{"type", "string"}, {"facets", M{{"f?", typed("integer", M{{"minimum", 1}})}}}}}
				A, B := KV{"A", cat(M{{"type", "P"}}, c09own(v1))}, KV{"B", cat(M{{"type", "P"}, {"minLength", 1}}, c09own(v2))}
				for _, u := range []any{"A | B", "B | A", "A | integer", "A?", "(A | integer) | B", M{{"type", "A | B"}, {"enum", l("ab", "b")}}} {
					for _, second := range []M{cat(M{{"type", "string"}, {"maxLength", 4}}, c09own(v3)), cat(M{{"type", "A"}, {"maxLength", 4}}, c09own(v3)), cat(M{{"type", "P"}}, c09own(v3))} {
						for _, mk := range []func(t any) M{
							func(t any) M { return M{{"properties", M{{"m?", t}}}} },
							func(t any) M { return M{{"properties", M{{"/^m/", t}}}} },
							func(t any) M { return M{{"items", t}} },
						} {
							kind := "object"
							if _, ok := mk(nil).get("items"); ok {
								kind = "array"
							}
							d := types(M{P, A, B, {"U", cat(M{{"type", kind}}, mk(u))}, {"X", cat(M{{"type", "U"}}, mk(second))}, {"Y", cat(M{{"type", "U"}}, mk(M{{"type", "string"}, {"minLength", 2}}))}})
							emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
						}
					}
				}
			}
		}
	}
	// recursive types with facets
	for _, v := range lvlVals {
		for _, w := range lvlVals {
			for _, member := range []any{"Node", "Node[]", "Node?", cat(M{{"type", "Node"}}, c09own(w)), M{{"type", "array"}, {"items", cat(M{{"type", "Node"}}, c09own(w))}}} {
				for _, key := range []string{"n?", "/^n/"} {
					d := types(M{{"Base", M{{"type", "object"}, {"facets", M{{"f", typed("integer", M{{"minimum", 1}})}}}}}, {"Node", cat(M{{"type", "Base"}, {"properties", M{{key, member}}}}, c09own(v))}, {"Kid", cat(M{{"type", "Node"}}, c09own(w))}})
					emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
				}
			}
		}
	}
}
