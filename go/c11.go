package main

// C11: the converted JSON Schema accepts exactly the values the type accepts.

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// toJSON re-decodes a value as a JSON consumer sees it; ok is false if it has no JSON form.
func toJSON(v any) (any, bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	x, err := decodeNum(b)
	return x, err == nil
}

// schemaOf converts with both flavours and returns the encoded schemas.
func schemaOf(b *raml.BaseShape) (map[string][]byte, error) {
	out := map[string][]byte{}
	p, err := ConvertPlain(b)
	if err != nil {
		return nil, fmt.Errorf("plain conversion: %w", err)
	}
	if out["plain"], err = json.Marshal(p); err != nil {
		return nil, fmt.Errorf("encode: %w", err)
	}
	c, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
	if err != nil {
		return nil, fmt.Errorf("converter without options: %w", err)
	}
	for i := 0; i < 2; i++ { // a converter can be used again
		again, err := c.Convert(b.Shape)
		if err != nil {
			return nil, fmt.Errorf("conversion without options: %w", err)
		}
		if x, err := json.Marshal(again); err != nil || string(x) != string(out["plain"]) {
			return nil, fmt.Errorf("conversion %d without options gives another schema (%v): %s", i+1, err, x)
		}
	}
	e, err := ConvertRAML(b)
	if err != nil {
		return nil, fmt.Errorf("conversion: %w", err)
	}
	if out["extended"], err = json.Marshal(e); err != nil {
		return nil, fmt.Errorf("encode: %w", err)
	}
	return out, nil
}

// dates tells whether a type has a date or time kind anywhere, or keys that several members may match.
func outsideC11(w *World, t *Ty) bool {
	out := false
	w.walk(t, map[*Ty]bool{}, func(x *Ty) {
		if strings.HasPrefix(x.Kind, "date") || x.Kind == "time-only" || x.Kind == "json" || x.Kind == "error" {
			out = true
		}
		if x.HasPats && x.AddP != nil && !*x.AddP {
			out = true // contradictory
		}
	})
	return out
}

// overlapping tells whether v has, at any place the type looks at, a key matched by a pattern and by another member.
func overlapping(t *Ty, v any, depth int) bool {
	if t == nil || depth > 8 {
		return false
	}
	switch x := v.(type) {
	case []any:
		if t.Items != nil {
			for _, e := range x {
				if overlapping(t.Items.get(), e, depth+1) {
					return true
				}
			}
		}
	case map[string]any:
		for k, e := range x {
			n := 0
			if i := findProp(t.Props, k); i >= 0 {
				n++
				if overlapping(t.Props[i].T.get(), e, depth+1) {
					return true
				}
			}
			for _, p := range t.Pats {
				if p.Re != nil && p.Re.MatchString(k) {
					n++
					if overlapping(p.T.get(), e, depth+1) {
						return true
					}
				}
			}
			if n > 1 && len(t.Pats) > 0 {
				return true
			}
		}
	}
	for _, m := range t.AnyOf {
		if overlapping(m.get(), v, depth+1) {
			return true
		}
	}
	return false
}

// SchemaAgrees checks the schemas of the named types on every value.
func SchemaAgrees(r *Run, d *DocSet, w *World, rm *raml.RAML, names []string, vals []any) {
	for _, n := range names {
		t := typeOf(w, n)
		if outsideC11(w, t) {
			r.Note("outside", 1)
			continue
		}
		b := LibType(rm, n)
		if b == nil {
			r.Fail(sigOf(d, n), "type "+n+" is missing from the model", "")
			continue
		}
		schemaAgrees1(r, w, d, n, t, b, vals)
	}
}

func schemaAgrees1(r *Run, w *World, d *DocSet, n string, t *Ty, b *raml.BaseShape, vals []any) {
	enc, err := schemaOf(b)
	if err != nil {
		r.Fail(sigOf(d, n+" convert"), fmt.Sprintf("type %s does not convert: %v", n, err), "")
		return
	}
	sizedFile := false // the length of a file is in bytes, the schema's in characters
	if w != nil && t != nil {
		w.walk(t, map[*Ty]bool{}, func(x *Ty) { sizedFile = sizedFile || x.Kind == "file" && (x.MinL != nil || x.MaxL != nil) })
	}
	for _, fl := range []string{"plain", "extended"} {
		ev, err := newJSEval(enc[fl])
		if err == nil {
			err = ev.checkRefs()
		}
		if err != nil {
			r.Fail(sigOf(d, n+" "+fl), fmt.Sprintf("the %s schema of %s is broken: %v: %s", fl, n, err, enc[fl]), "")
			continue
		}
		for _, v := range vals {
			jv, ok := toJSON(v)
			if !ok || t != nil && overlapping(t, v, 0) || sizedFile && !ascii(v) {
				continue
			}
			verr := b.Validate(v)
			r.Eval(1)
			if sok := ev.ok(ev.root, jv); sok != (verr == nil) {
				r.Fail(sigOf(d, n+" "+fl+" <- "+js(v)), fmt.Sprintf("type %s, value %s: the %s schema %s it, but the type %s (%s); schema %s", n, js(v), fl,
					map[bool]string{true: "accepts", false: "rejects"}[sok], map[bool]string{true: "accepts it", false: "rejects it"}[verr == nil], errText(verr), enc[fl]), "")
				break
			}
		}
	}
}

// jsonVals keeps the values that a JSON consumer can see, in one representation.
func jsonVals(vs []any) []any {
	var out []any
	for _, v := range vs {
		if f, ok := v.(float64); ok && (math.IsNaN(f) || math.IsInf(f, 0)) {
			continue
		}
		out = append(out, v)
	}
	return dedupe(out)
}

func c11case(emit func(Case), d *DocSet, extra []any, names ...string) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		if w.limit > 20000 {
			r.Note("model_limit", 1)
			return
		}
		if len(v) > 0 {
			r.Class("not a valid document")
			return
		}
		rm, ok := Outcome(r, d, w, v, true, false)
		if !ok {
			return
		}
		vals := append([]any{}, extra...)
		for _, n := range names {
			vals = append(vals, valuesFor(w, typeOf(w, n), 4, 2)...)
		}
		SchemaAgrees(r, d, w, rm, names, jsonVals(append(vals, leafVals()...)))
		r.Class(typeOf(w, names[0]).Kind)
	}})
}

// schemaAt follows a path of keywords, through references.
func schemaAt(ev *jsEval, path ...string) (map[string]any, error) {
	var cur any = ev.root
	deref := func() error {
		for i := 0; i < 8; i++ {
			m, ok := cur.(map[string]any)
			if !ok {
				return nil
			}
			s, ok := m["$ref"].(string)
			if !ok {
				return nil
			}
			t, err := ev.resolve(s)
			if err != nil {
				return err
			}
			cur = t
		}
		return fmt.Errorf("endless reference")
	}
	if err := deref(); err != nil {
		return nil, err
	}
	for _, p := range path {
		switch x := cur.(type) {
		case map[string]any:
			c, ok := x[p]
			if !ok {
				return nil, fmt.Errorf("no %s in the schema", p)
			}
			cur = c
		case []any:
			i := int(p[0] - '0')
			if i >= len(x) {
				return nil, fmt.Errorf("no element %s in the schema", p)
			}
			cur = x[i]
		}
		if err := deref(); err != nil {
			return nil, err
		}
	}
	m, ok := cur.(map[string]any)
	if !ok {
		return nil, fmt.Errorf("not a schema: %v", cur)
	}
	return m, nil
}

// metadata: every descriptive or unenforced facet in every position.
func genC11Meta(emit func(Case)) {
	type position struct {
		mk   func(t M) M
		path []string
	}
	pos := []position{
		{func(t M) M { return M{{"T", t}} }, nil},
		{func(t M) M { return M{{"T", M{{"properties", M{{"a", t}}}}}} }, []string{"properties", "a"}},
		{func(t M) M { return M{{"T", M{{"properties", M{{"a?", t}}}}}} }, []string{"properties", "a"}},
		{func(t M) M { return M{{"T", M{{"properties", M{{"/^p/", t}}}}}} }, []string{"patternProperties", "^p"}},
		{func(t M) M { return M{{"T", M{{"items", t}}}} }, []string{"items"}},
		{func(t M) M { return M{{"T", "U | nil"}, {"U", t}} }, []string{"anyOf", "0"}},
		{func(t M) M { return M{{"T", M{{"properties", M{{"a", "U"}}}}}, {"U", t}} }, []string{"properties", "a"}},
		{func(t M) M { return M{{"T", "P"}, {"P", M{{"items", M{{"items", t}}}}}} }, []string{"items", "items"}},
		{func(t M) M {
			return M{{"T", M{{"type", "P"}, {"properties", M{{"z?", "string"}}}}}, {"P", M{{"properties", M{{"a", t}}}}}}
		}, []string{"properties", "a"}},
	}
	type want struct {
		k string
		v any
	}
	type setting struct {
		facets M
		wants  []want
	}
	kinds := []struct {
		t   M
		val any
		bad any
	}{{M{{"type", "string"}}, "x", "y"}, {M{{"type", "integer"}}, 3, 4}, {M{{"type", "boolean"}}, true, false},
		{M{{"type", "object"}}, M{{"k", l(1, nil)}}, M{}}, {M{{"type", "array"}}, l(1, "a"), l()}, {M{{"type", "any"}}, l(M{{"k", "v"}}), 0},
		{M{{"type", "number"}}, 2.5, 1}, {M{{"type", "string | integer"}}, "u", 7}}
	for _, k := range kinds {
		sets := []setting{
			{M{{"displayName", "D n"}}, []want{{"title", "D n"}}},
			{M{{"description", "De\nsc"}}, []want{{"description", "De\nsc"}}},
			{M{{"default", k.val}}, []want{{"default", k.val}}},
			{M{{"example", k.val}}, []want{{"examples", l(k.val)}}},
			{M{{"example", M{{"value", k.val}}}}, []want{{"examples", l(k.val)}}},
			{M{{"examples", M{{"e1", k.val}, {"e2", M{{"value", k.bad}}}}}}, []want{{"examples", l(k.val, k.bad)}}},
			{M{{"displayName", "D"}, {"description", "E"}, {"default", k.bad}, {"example", k.val}},
				[]want{{"title", "D"}, {"description", "E"}, {"default", k.bad}, {"examples", l(k.val)}}},
		}
		switch k.t[0].V {
		case "integer":
			sets = append(sets, setting{M{{"multipleOf", 3}}, []want{{"multipleOf", 3}}}, setting{M{{"minimum", -5}, {"maximum", 9007199254740993}}, []want{{"minimum", -5}, {"maximum", 9007199254740993}}},
				setting{M{{"enum", l(1, 2)}}, []want{{"enum", l(1, 2)}}})
		case "number":
			sets = append(sets, setting{M{{"multipleOf", 0.1}}, []want{{"multipleOf", Raw("0.1")}}}, setting{M{{"minimum", 0.1}, {"maximum", 1e21}}, []want{{"minimum", Raw("0.1")}, {"maximum", 1e21}}})
		case "string":
			sets = append(sets, setting{M{{"minLength", 0}, {"maxLength", 7}, {"pattern", "^\\S+$"}}, []want{{"minLength", 0}, {"maxLength", 7}, {"pattern", "^\\S+$"}}})
		case "array":
			sets = append(sets, setting{M{{"minItems", 0}, {"maxItems", 7}, {"uniqueItems", false}}, []want{{"minItems", 0}, {"maxItems", 7}, {"uniqueItems", false}}},
				setting{M{{"uniqueItems", true}}, []want{{"uniqueItems", true}}})
		case "object":
			sets = append(sets, setting{M{{"minProperties", 0}, {"maxProperties", 7}, {"additionalProperties", true}}, []want{{"minProperties", 0}, {"maxProperties", 7}, {"additionalProperties", true}}})
		}
		// what only the extended flavour shows
		fp := M{{"FP", M{{"type", k.t[0].V}, {"facets", M{{"f?", "any"}, {"g?", M{{"type", "integer"}, {"default", 3}}}}}}}}
		if k.t[0].V == "string | integer" {
			fp[0].V.(M)[0].V = "any"
		}
		for _, v := range []any{"", "x", nil, 9007199254740993, true, l(), l(1, M{{"k", nil}}), M{}, M{{"b", l(1)}, {"a", M{{"c", 0.1}}}}} {
			sets = append(sets,
				setting{M{{"(n)", v}}, []want{{"x-annotations", M{{"n", v}}}}},
				setting{M{{"(m)", "a"}, {"(n)", v}, {"description", "E"}}, []want{{"x-annotations", M{{"n", v}, {"m", "a"}}}, {"description", "E"}}},
				setting{M{{"type", "FP"}, {"f", v}}, []want{{"x-facet-data", M{{"f", v}}}}},
				setting{M{{"type", "FP"}, {"g", 7}, {"f", v}, {"(n)", v}, {"facets", M{{"h?", "boolean"}}}},
					[]want{{"x-facet-data", M{{"f", v}, {"g", 7}}}, {"x-annotations", M{{"n", v}}}, {"x-facet-definitions", nil}}})
		}
		if k.t[0].V != "string | integer" {
			sets = append(sets, setting{M{{"facets", M{{"h", M{{"type", "integer"}, {"minimum", 1}, {"description", "H"}}}}}},
				[]want{{"x-facet-definitions", M{{"h", M{{"type", "integer"}, {"minimum", 1}, {"description", "H"}}}}}}},
				setting{M{{"facets", M{{"h?", "string[]"}, {"i", M{{"properties", M{{"a", "nil"}}}}}}}},
					[]want{{"x-facet-definitions", M{{"h", M{{"type", "array"}, {"items", M{{"type", "string"}}}}},
						{"i", M{{"type", "object"}, {"properties", M{{"a", M{{"type", "null"}}}}}, {"required", l("a")}}}}}}})
		}
		for _, p := range pos {
			for _, s := range sets {
				p, s := p, s
				t := cat(k.t, s.facets)
				if _, ok := s.facets.get("type"); ok {
					t = s.facets
				}
				d := NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"n", "any"}, {"m", "string"}}}, {"types", append(p.mk(t), fp...)}})
				emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
					rm, err := d.Parse(r.Dir, true, false)
					r.Eval(1)
					if err != nil {
						r.Fail(sigOf(d, ""), "the document must be accepted: "+errText(err), "")
						return
					}
					enc, err := schemaOf(LibType(rm, "T"))
					if err != nil {
						r.Fail(sigOf(d, ""), "conversion: "+err.Error(), "")
						return
					}
					for _, fl := range []string{"plain", "extended"} {
						ev, err := newJSEval(enc[fl])
						var m map[string]any
						if err == nil {
							m, err = schemaAt(ev, p.path...)
						}
						if err != nil {
							r.Fail(sigOf(d, fl), fmt.Sprintf("%v: %s", err, enc[fl]), "")
							continue
						}
						declared := map[string]bool{}
						for _, wt := range s.wants {
							declared[wt.k] = true
						}
						for key := range m {
							if strings.HasPrefix(key, "x-") && (fl == "plain" || !declared[key]) {
								r.Fail(sigOf(d, fl+" "+key), fmt.Sprintf("the %s schema at %v has %s: %s", fl, p.path, key, enc[fl]), "")
							}
						}
						for _, wt := range s.wants {
							if strings.HasPrefix(wt.k, "x-") && (fl == "plain" || wt.k == "x-facet-definitions" && wt.v == nil) {
								continue
							}
							var wv any
							if raw, ok := wt.v.(Raw); ok {
								wv = json.Number(raw)
							} else {
								wv, _ = toJSON(plainData(wt.v))
							}
							r.Eval(1)
							if !jsame(m[wt.k], wv) {
								r.Fail(sigOf(d, fl+" "+wt.k), fmt.Sprintf("keyword %s of the %s schema at %v is %v, declared %v: %s", wt.k, fl, p.path, js(m[wt.k]), js(wv), enc[fl]), "")
							}
						}
					}
					r.Class("metadata")
				}})
			}
		}
	}
}

// plainData turns abstract data into Go data.
func plainData(v any) any {
	switch x := v.(type) {
	case M:
		m := map[string]any{}
		for _, e := range x {
			m[e.K] = plainData(e.V)
		}
		return m
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = plainData(e)
		}
		return out
	}
	return v
}

func genC11(tier string, emit func(Case)) {
	thorough := tier != "quick"
	genC11Meta(emit)
	sv := jsonVals(append(scalarVals(), []any{}, []any{1}, map[string]any{}, map[string]any{"a": 1}))
	one := func(decl any, extra []any) { c11case(emit, types(M{{"T", decl}}), extra, "T") }
	for _, t := range scalarTypes(tier) {
		if hasAnyKey(t, "multipleOf") {
			continue
		}
		one(t, sv)
	}
	arr := jsonVals(append(arraysOf([]any{nil, "a", "ab", 0, 1, true}, 2), l(1, 1.0), l(0, math.Copysign(0, -1)), l(l(1, 2), l(1, 2.0)), l("1", 1), nil, "a"))
	for _, f := range product(facetOpt("minItems", 0, 1, 2), facetOpt("maxItems", 0, 1, 2), facetOpt("uniqueItems", true, false)) {
		one(typed("array", f), arr)
		for _, it := range leafTypes() {
			one(typed("array", append(M{{"items", it}}, f...)), arr)
		}
	}
	leaf := leafTypes()
	objs := objectsOf([]string{"a", "b", "p1", "x y"}, []any{1, "ab", nil}, 3)
	var propsets []M
	for _, q := range []string{"a", "a?"} {
		for _, t := range leaf {
			propsets = append(propsets, M{{q, t}})
		}
	}
	propsets = append(propsets, M{}, M{{"a", "integer"}, {"b?", "string"}}, M{{"a??", "integer"}}, M{{"x y", "any"}, {"b", "nil"}}, M{{"$ref", "integer"}}, M{{"a?", M{{"type", "integer"}, {"required", true}}}})
	for _, ps := range propsets {
		for _, pt := range []M{nil, {{"/^p/", leaf[1]}}, {{"/^[ab]$/", "integer"}}, {{"//", "string"}}, {{"/\\//", "integer"}}} {
			for _, f := range product(facetOpt("additionalProperties", true, false), facetOpt("minProperties", 1), facetOpt("maxProperties", 0, 2)) {
				one(typed("object", append(M{{"properties", cat(ps, pt)}}, f...)), objs)
			}
		}
	}
	patternTypes(2, one)
	names := []string{"string", "integer", "boolean", "nil", "number", "object", "array", "string[]", "any"}
	for _, a := range names {
		one(a+"?", leafVals())
		for _, b := range names {
			one(a+" | "+b, append(arr[:20:20], objs[:8:8]...))
			one(M{{"type", a + " | " + b}, {"enum", l(1, "a", nil, l("a"))}}, arr)
		}
	}
	lvl := compose(leaf)
	lvl2 := compose(lvl)
	for _, t := range append(lvl, lvl2...) {
		one(t, nil)
	}
	if thorough {
		for _, t := range compose(lvl2) {
			one(t, nil)
		}
	}
	// inheritance
	for _, k := range []string{"integer", "number", "string", "boolean", "array", "object"} {
		fs := facetSets(k)
		n := 24
		if thorough {
			n = 60
		}
		for _, f1 := range every(fs, n) {
			for _, f2 := range every(fs, n) {
				if hasAnyKey(f1, "multipleOf") || hasAnyKey(f2, "multipleOf") {
					continue
				}
				c11case(emit, types(M{{"P", typed(k, f1)}, {"C", typed("P", f2)}}), nil, "C")
				c11case(emit, types(M{{"P", typed(k, f1)}, {"Q", typed(k, f2)}, {"C", M{{"type", l("P", "Q")}}}}), nil, "C")
			}
		}
	}
	ms := memberTypes()
	for _, t1 := range ms {
		for _, t2 := range ms {
			c11case(emit, types(M{{"P", M{{"type", "object"}, {"properties", M{{"a?", t1}}}}}, {"C", M{{"type", "P"}, {"properties", M{{"a?", t2}}}}}}), nil, "C", "P")
			c11case(emit, types(M{{"P", t1}, {"Q", t2}, {"C", "P | Q[]"}}), nil, "C", "P")
		}
	}
	genC11Names(emit, thorough)
	genRec(tier, func(d *DocSet, names []string) { c11case(emit, d, nil, names...) })
}

func hasAnyKey(m M, k string) bool { _, ok := m.get(k); return ok }

// genC11Names: recursive types whose names collide, are empty, or need escaping in references.
func genC11Names(emit func(Case), thorough bool) {
	rec := func(prop string, leaf any, self string) M {
		return M{{"type", "object"}, {"properties", M{{prop, leaf}, {"n?", self}}}}
	}
	for _, nm := range []string{"A", "a b", "a/b", "a~b", "a%25b", "a%b", "é", "a#b", "a\"b", "~1", "A?", "a?b", "items", "definitions", "$ref"} {
		// the type refers to itself through a name that an expression can spell
		c11case(emit, types(M{{nm, M{{"type", "R"}}}, {"R", rec("v", "integer", "R")}}), nil, nm, "R")
		c11case(emit, types(M{{nm, M{{"type", "object"}, {"properties", M{{nm, M{{"type", "R"}}}}}}}, {"R", rec("v", "string", "R[]")}}), nil, nm)
		d := NewDocSet().Lib("main.raml", M{{"types", M{{"T", Inc("dt.raml")}, {"U", M{{"properties", M{{"x?", Inc("dt.raml")}, {"y?", "T"}}}}}}}}).
			DataType("dt.raml", M{{"properties", M{{"v", "integer"}, {"n?", M{{"type", Inc("dt.raml")}}}}}})
		_ = d
	}
	// the same name in several files
	for _, l1 := range []any{"integer", "string"} {
		for _, l2 := range []any{"integer", "string", "boolean"} {
			for _, form := range []any{"l.A", "l.A[]", "l.A | nil", "l.A?", M{{"type", "l.A"}}, M{{"type", "l.A"}, {"properties", M{{"w?", "string"}}}}} {
				for _, own := range []M{rec("v", l1, "A"), rec("v", l1, "A[]"), M{{"type", "object"}, {"properties", M{{"v", l1}}}}} {
					for _, theirs := range []M{rec("v", l2, "A"), rec("v", l2, "A | nil"), M{{"type", "object"}, {"properties", M{{"v", l2}}}}} {
						o := own.with("properties", append(append(M{}, mustM(own, "properties")...), KV{"o?", form}))
						d := NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", M{{"A", o}, {"B", form}, {"C", M{{"properties", M{{"A?", form}, {"c?", "A"}}}}}}}}).
							Lib("lib.raml", M{{"types", M{{"A", theirs}}}})
						c11case(emit, d, []any{map[string]any{"v": 1}, map[string]any{"v": "x"}, map[string]any{"v": true},
							map[string]any{"v": 1, "o": map[string]any{"v": 1}}, map[string]any{"v": 1, "o": map[string]any{"v": "x"}},
							map[string]any{"v": "x", "o": map[string]any{"v": "x", "n": map[string]any{"v": "x"}}},
							map[string]any{"v": "x", "o": map[string]any{"v": 1, "n": map[string]any{"v": "x"}}},
							map[string]any{"v": "x", "o": map[string]any{"v": 1, "n": map[string]any{"v": 1}}},
						}, "A", "B", "C")
					}
				}
			}
		}
	}
	// anonymous recursive parts: a property, an item, a union member of the same local name as a type
	for _, pn := range []string{"A", "R", "items", "n", "v"} {
		for _, leaf := range []any{"integer", "string"} {
			c11case(emit, types(M{{"A", M{{"properties", M{{pn, M{{"type", "object"}, {"properties", M{{"x?", "A"}, {"y?", leaf}}}}}, {"v", "integer"}}}}},
				{"R", M{{"properties", M{{pn + "?", M{{"properties", M{{"A?", "A"}, {"R?", "R"}, {"v", leaf}}}}}}}}}}), nil, "A", "R")
			c11case(emit, types(M{{"A", M{{"items", M{{"properties", M{{pn + "?", "A"}, {"q?", leaf}}}}}}},
				{"R", M{{"properties", M{{"A?", "R[]"}, {"a?", "A"}, {pn, leaf}}}}}}), nil, "A", "R")
		}
	}
}

func mustM(m M, k string) M { v, _ := m.get(k); x, _ := v.(M); return x }

func init() {
	register(&Check{ID: "C11", Level: "model_checking", Deep: true,
		Rule:        "every type of the value-checking, inheritance and recursion grammars x the value universe: an own draft-07 evaluator on the encoded schema (plain and extended) must agree with Validate; every reference must resolve; every descriptive facet must appear at every position",
		Assumptions: []string{"regular expressions are Go's on both sides", "values are JSON data"},
		Gen:         genC11})
}

// ascii tells whether every string in v is ASCII.
func ascii(v any) bool {
	switch x := v.(type) {
	case string:
		for i := 0; i < len(x); i++ {
			if x[i] >= 0x80 {
				return false
			}
		}
	case []any:
		for _, e := range x {
			if !ascii(e) {
				return false
			}
		}
	case map[string]any:
		for _, e := range x {
			if !ascii(e) {
				return false
			}
		}
	}
	return true
}
