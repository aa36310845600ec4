package main

// C19: self-contradictory declarations are rejected, consistent ones are not.

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule:        "every bound pair, enumeration, closed object and discriminator setting of the bounded universe, written on one type or divided between a type and its parents, in every place (nesting of members up to the depth bound x kind of file), parsed with all four option combinations; acceptance is compared with the model",
		Assumptions: []string{"reference model of the declaration rules (model.go)"},
		Gen:         genC19})
}

// contradictory lists facet settings of a kind around the point where they contradict each other.
func contradictory(kind string) []M {
	wrong := []any{l("a"), l(1), l(1.5), l(true), l(nil), l(l(1)), l(M{{"a", 1}}), l(1, "a"), l("a", 1), l("1"), l(2.0), l(1, 2, 1.5), l("2020-01-01")}
	enum := facetOpt("enum", wrong...)
	switch kind {
	case "integer":
		return append(product(facetOpt("minimum", -1, 0, 1, 2), facetOpt("maximum", -1, 0, 1, 2)),
			append(enum, M{{"minimum", Raw("9007199254740993")}, {"maximum", Raw("9007199254740992")}}, M{{"minimum", Raw("9007199254740992")}, {"maximum", Raw("9007199254740993")}},
				M{{"minimum", Raw("9223372036854775808")}, {"maximum", Raw("9223372036854775807")}}, M{{"minimum", -2}, {"maximum", Raw("18446744073709551615")}})...)
	case "number":
		return append(product(facetOpt("minimum", -1, 0.5, 1, 1.5), facetOpt("maximum", -1, 0.5, 1, 1.5)), enum...)
	case "string":
		return append(product(facetOpt("minLength", 0, 1, 2), facetOpt("maxLength", 0, 1, 2)), enum...)
	case "boolean":
		return enum
	case "file":
		return append(product(facetOpt("minLength", 0, 1, 2), facetOpt("maxLength", 0, 1, 2)), facetOpt("fileTypes", l("a/b"), l(1), l("a/b", true), l(nil), l(l("a")))...)
	case "array":
		return product(facetOpt("minItems", 0, 1, 2), facetOpt("maxItems", 0, 1, 2))
	case "object":
		ps := func(p ...KV) M { return M{{"properties", M(p)}} }
		out := product(facetOpt("minProperties", 0, 1, 2), facetOpt("maxProperties", 0, 1, 2))
		out = append(out, product([]M{nil, ps(KV{"a?", "string"}), ps(KV{"/^x/", "string"}), ps(KV{"a?", "string"}, KV{"//", "string"})}, facetOpt("additionalProperties", true, false))...)
		for _, p := range []M{nil, ps(KV{"k", "string"}), ps(KV{"k?", "string"}), ps(KV{"other", "string"}), ps(KV{"k", "integer"}), ps(KV{"k", "number"}), ps(KV{"k", "boolean"}), ps(KV{"k", "object"}), ps(KV{"k", "string[]"}),
			ps(KV{"k", "nil"}), ps(KV{"k", "string | integer"}), ps(KV{"/^k/", "string"}), ps(KV{"k", typed("string", M{{"enum", l("a", "b")}})}), ps(KV{"k", typed("string", M{{"minLength", 2}})}),
			ps(KV{"k", typed("integer", M{{"maximum", 1}})}), ps(KV{"k", "date-only"}), ps(KV{"k", "datetime"}), ps(KV{"k", "time-only"}), ps(KV{"k", "datetime-only"}), ps(KV{"k", "file"})} {
			for _, v := range []any{nil, "a", "c", 1, 2, true, 1.5, "2020-01-01", Raw("2020-01-01"), Raw("2020-01-01T10:00:00Z"), Raw("10:00:00"), Raw("2020-01-01T10:00:00")} {
				m := cat(p, M{{"discriminator", "k"}})
				if v != nil {
					m = cat(m, M{{"discriminatorValue", v}})
				}
				out = append(out, m)
			}
		}
		return out
	}
	return []M{nil}
}

var c19kinds = []string{"integer", "number", "string", "boolean", "file", "array", "object"}

func c19subjects(thorough bool) (direct, derived []subject) {
	for _, k := range c19kinds {
		fs := contradictory(k)
		for _, f := range fs {
			direct = append(direct, plain(k, typed(k, f)))
		}
		for _, a := range fs {
			for _, b := range fs {
				if len(a) == 0 || len(b) == 0 {
					continue
				}
				a, b := a, b
				if k == "object" && !thorough && len(a)+len(b) > 3 {
					continue
				}
				derived = append(derived, childOf(k+" child", M{{"P", typed(k, a)}}, func(ref func(string) string) any { return typed(ref("P"), b) }))
			}
		}
	}
	// enumerations and bounds of unions, and contradictions between two parents
	for _, e := range []any{l("a"), l(1), l(true), l(nil), l(1.5), l("a", 1), l("a", true)} {
		direct = append(direct, plain("union", M{{"type", "string | integer"}, {"enum", e}}))
	}
	for _, k := range []string{"integer", "string", "array", "object"} {
		lo, hi := map[string]string{"integer": "minimum", "string": "minLength", "array": "minItems", "object": "minProperties"}[k], map[string]string{"integer": "maximum", "string": "maxLength", "array": "maxItems", "object": "maxProperties"}[k]
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				a, b := a, b
				derived = append(derived,
					childOf(k+" two parents", M{{"P", typed(k, M{{lo, a}})}, {"Q", typed(k, M{{hi, b}})}}, func(ref func(string) string) any { return typed(l(ref("P"), ref("Q")), M{}) }),
					childOf(k+" two levels", M{{"P", typed(k, M{{lo, a}})}, {"Q", typed("P", M{})}}, func(ref func(string) string) any { return typed(ref("Q"), M{{hi, b}}) }),
					childOf(k+" alias of a child", M{{"P", typed(k, M{{lo, a}})}, {"Q", typed("P", M{{hi, b}})}}, func(ref func(string) string) any { return ref("Q") }),
					// in a member that is divided between the parent and the child
					childOf(k+" redeclared member", M{{"P", M{{"type", "object"}, {"properties", M{{"m", typed(k, M{{lo, a}})}}}}}}, func(ref func(string) string) any {
						return typed(ref("P"), M{{"properties", M{{"m", typed(k, M{{hi, b}})}}}})
					}),
					childOf(k+" redeclared items", M{{"P", M{{"type", "array"}, {"items", typed(k, M{{lo, a}})}}}}, func(ref func(string) string) any {
						return typed(ref("P"), M{{"items", typed(k, M{{hi, b}})}})
					}),
					childOf(k+" redeclared pattern member", M{{"P", M{{"type", "object"}, {"properties", M{{"/^m/", typed(k, M{{lo, a}})}}}}}}, func(ref func(string) string) any {
						return typed(ref("P"), M{{"properties", M{{"/^m/", typed(k, M{{hi, b}})}}}})
					}))
			}
		}
	}
	return
}

func genC19(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	direct, derived := c19subjects(thorough)
	run := func(s subject, c []wrapper, p place) {
		d := p.mk(s, c)
		emit(Case{Doc: d, Label: d.String, Run: func(r *Run) { fourModes(r, d) }})
	}
	deep := wrapChains(1)
	deepD := wrapChains(0)
	if thorough {
		deep, deepD = wrapChains(2), wrapChains(1)
	}
	for _, s := range direct {
		for _, p := range places {
			for _, c := range deep {
				run(s, c, p)
			}
		}
	}
	for _, s := range derived {
		for i, p := range places {
			if !thorough && i != 0 && i != 2 && i < 6 {
				continue
			}
			for _, c := range deepD {
				run(s, c, p)
			}
		}
	}
	// next to settings of the enclosing declaration
	probes := []subject{
		plain("bad", typed("string", M{{"minLength", 2}, {"maxLength", 1}})), plain("good", typed("string", M{{"minLength", 1}, {"maxLength", 2}})),
		plain("bad items", typed("array", M{{"minItems", 2}, {"maxItems", 1}})), plain("good items", typed("array", M{{"minItems", 1}, {"maxItems", 2}})),
		plain("bad object", M{{"properties", M{{"/a/", "string"}}}, {"additionalProperties", false}}), plain("bad enum", typed("boolean", M{{"enum", l(1)}})),
		childOf("bad union", M{{"Bu", typed("integer", M{{"minimum", 2}, {"maximum", 1}})}}, func(ref func(string) string) any { return ref("Bu") + " | string" }),
	}
	for _, c := range decoratedChains(thorough) {
		for pi, p := range places {
			if pi > 0 && len(c) > 1 {
				break
			}
			for _, s := range probes {
				run(s, c, p)
			}
		}
	}
	// one contradiction and one consistent setting in every chain of members
	n := 3
	if thorough {
		n = 4
	}
	for _, c := range wrapChains(n) {
		if len(c) < 2 {
			continue
		}
		for i, p := range places {
			if i > 2 && len(c) > 2 {
				break
			}
			run(plain("bad", typed("string", M{{"minLength", 2}, {"maxLength", 1}})), c, p)
			run(plain("good", typed("string", M{{"minLength", 1}, {"maxLength", 2}})), c, p)
		}
	}
}
