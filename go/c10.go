package main

// C10: recursive types become finite models that mean their infinite unfolding.

import (
	"fmt"

	raml "github.com/acronis/go-raml/v2"
)

var recNames = []string{"A", "B", "C"}

// recTemplates lists the declarations a node of the reference graph may have, for one target.
func recTemplates(ref string, thorough bool) []any {
	obj := func(ps ...KV) M { return M{{"type", "object"}, {"properties", M(ps)}} }
	leaf := KV{"v", typed("string", M{{"minLength", 2}})}
	out := []any{
		obj(leaf, KV{"n?", ref}),
		obj(KV{"n?", ref + "[]"}, KV{"w?", "integer"}),
		obj(leaf, KV{"n", ref + "?"}),
		obj(KV{"n", ref + " | integer"}),
		obj(KV{"/^p/", ref}, KV{"w?", "integer"}),
		M{{"type", "array"}, {"items", ref}, {"maxItems", 2}},
		ref + " | string",
		ref,
		M{{"type", ref}},
		M{{"type", ref}, {"description", "d"}},
		obj(KV{"n?", M{{"type", ref}}}).with("additionalProperties", false),
		obj(KV{"n?", M{{"properties", M{{"m?", ref}, {"q?", "boolean"}}}}}),
		ref + "[]",
	}
	if thorough {
		out = append(out,
			obj(leaf, KV{"n", ref}),
			obj(KV{"n?", M{{"type", "array"}, {"items", M{{"type", ref}}}, {"minItems", 1}}}),
			M{{"type", ref}, {"minProperties", 1}},
			M{{"type", ref}, {"properties", M{{"x?", "integer"}}}},
			"("+ref+" | nil)[]",
		)
	}
	return out
}

// genRec emits recursive document sets.
func genRec(tier string, emit func(*DocSet, []string)) {
	thorough := tier != "quick"
	// one type
	one := recTemplates("A", true)
	for _, t := range one {
		emit(types(M{{"A", t}}), []string{"A"})
		emit(types(M{{"B", M{{"properties", M{{"b?", "A"}}}}}, {"A", t}}), []string{"A", "B"})
	}
	// two types, three types: every assignment of templates and targets
	n := 3
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for _, ta := range recTemplates(recNames[a], thorough) {
				for _, tb := range recTemplates(recNames[b], thorough) {
					if a < 2 && b < 2 {
						emit(types(M{{"A", ta}, {"B", tb}}), []string{"A", "B"})
					}
				}
			}
		}
	}
	idx := []int{0, 1, 2, 4, 5, 6, 7, 9}
	if thorough {
		idx = nil
		for i := range recTemplates("A", tier == "deep") {
			idx = append(idx, i)
		}
	}
	deep := tier == "deep"
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for c := 0; c < n; c++ {
				for _, ia := range idx {
					for _, ib := range idx {
						for _, ic := range idx {
							emit(types(M{{"A", recTemplates(recNames[a], deep)[ia]}, {"B", recTemplates(recNames[b], deep)[ib]}, {"C", recTemplates(recNames[c], deep)[ic]}}), recNames)
						}
					}
				}
			}
		}
	}
	// four types
	if deep {
		names4, idx4 := []string{"A", "B", "C", "D"}, []int{0, 3, 5, 7}
		odometer(4, 4, func(to []int) {
			odometer(4, len(idx4), func(t []int) {
				m := M{}
				for i, n := range names4 {
					m = append(m, KV{n, recTemplates(names4[to[i]], false)[idx4[t[i]]]})
				}
				emit(types(m), names4)
			})
		})
	}
	// two references in one type
	for a := 0; a < 2; a++ {
		for b := 0; b < 2; b++ {
			ra, rb := recNames[a], recNames[b]
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					f := func(k int, ref string) any { return []any{ref, ref + "[]", M{{"type", ref}, {"description", "x"}}}[k] }
					for _, tb := range recTemplates("A", thorough) {
						emit(types(M{{"A", M{{"properties", M{{"l?", f(i, ra)}, {"r?", f(j, rb)}, {"v?", typed("integer", M{{"maximum", 2}})}}}}}, {"B", tb}}), []string{"A", "B"})
					}
					emit(types(M{{"A", M{{"properties", M{{"l?", f(i, ra)}, {"r?", M{{"properties", M{{"m?", f(j, rb)}}}}}}}}}, {"B", M{{"type", "A"}, {"properties", M{{"x?", "B"}}}}}}), []string{"A", "B"})
				}
			}
		}
	}
	// derived types of recursive types
	for _, ta := range recTemplates("A", true) {
		if _, isStr := ta.(string); isStr {
			continue
		}
		for _, f := range []M{{{"description", "d"}}, {{"maxProperties", 1}}, {{"properties", M{{"x?", "B"}}}}, {{"properties", M{{"x?", "A"}, {"y?", "C"}}}}, {{"maxItems", 1}}} {
			emit(types(M{{"A", ta}, {"B", typed("A", f)}, {"C", typed("B", M{})}}), recNames)
			emit(types(M{{"C", "B"}, {"B", typed("A", f)}, {"A", ta}}), recNames)
			emit(types(M{{"A", ta}, {"B", typed("A", f)}, {"C", "B[]"}}), recNames)
			emit(types(M{{"A", ta}, {"B", typed("A", f)}, {"C", M{{"properties", M{{"a?", "A"}, {"b?", "B"}}}}}}), recNames)
		}
	}
	// through a second file
	for _, t1 := range recTemplates("m.A", thorough) {
		for _, t2 := range recTemplates("l.B", thorough) {
			d := NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", M{{"A", t2}, {"C", "l.B"}}}}).
				Lib("lib.raml", M{{"uses", M{{"m", "main.raml"}}}, {"types", M{{"B", t1}}}})
			emit(d, []string{"A", "C"})
		}
	}
	for _, t := range recTemplates("l.T", thorough) {
		m, ok := t.(M)
		if !ok {
			continue
		}
		d := NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", M{{"A", "l.T"}, {"B", Inc("dt.raml")}}}}).
			Lib("lib.raml", M{{"types", M{{"T", Inc("dt.raml")}}}}).
			DataType("dt.raml", cat(M{{"uses", M{{"l", "lib.raml"}}}}, m))
		emit(d, []string{"A", "B"})
	}
}

// finite checks that the model of a type is a finite structure whose back references lead to enclosing types.
func finite(b *raml.BaseShape) (int, error) {
	on := map[*raml.BaseShape]bool{}
	nodes := 0
	var walk func(s *raml.BaseShape) error
	walk = func(s *raml.BaseShape) error {
		nodes++
		if nodes > 20000 {
			return fmt.Errorf("more than 20000 nodes")
		}
		if s == nil || s.Shape == nil {
			return fmt.Errorf("a part without a shape")
		}
		if on[s] {
			return fmt.Errorf("a path that never ends through %s", s.Name)
		}
		on[s] = true
		defer delete(on, s)
		switch t := s.Shape.(type) {
		case *raml.RecursiveShape:
			h := t.Head
			if h == nil || h.Shape == nil {
				return fmt.Errorf("a back reference to nothing")
			}
			if _, ok := h.Shape.(*raml.RecursiveShape); ok {
				return fmt.Errorf("a back reference to a back reference")
			}
		case *raml.ArrayShape:
			if t.Items != nil {
				return walk(t.Items)
			}
		case *raml.UnionShape:
			for _, m := range t.AnyOf {
				if err := walk(m); err != nil {
					return err
				}
			}
		case *raml.ObjectShape:
			if t.Properties != nil {
				for p := t.Properties.Oldest(); p != nil; p = p.Next() {
					if err := walk(p.Value.Base); err != nil {
						return err
					}
				}
			}
			if t.PatternProperties != nil {
				for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
					if err := walk(p.Value.Base); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	return nodes, walk(b)
}

func c10case(emit func(Case), d *DocSet, names []string) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		if w.limit > 20000 {
			r.Note("model_limit", 1)
			return
		}
		rm, ok := Outcome(r, d, w, v, true, false)
		if !ok {
			r.Class("rejected:" + cats(v))
			return
		}
		vals := leafVals()
		for _, n := range names {
			b := LibType(rm, n)
			if b == nil {
				r.Fail(sigOf(d, n), "type "+n+" is missing from the model", "")
				return
			}
			if _, err := finite(b); err != nil {
				r.Fail(sigOf(d, n+" walk"), fmt.Sprintf("the model of %s has %v", n, err), "")
				return
			}
			vals = append(vals, valuesFor(w, typeOf(w, n), 4, 2)...)
		}
		vals = dedupe(vals)
		CompareDesc(r, d, w, rm, names, 5)
		k := CompareTypes(r, d, w, rm, names, vals)
		for _, n := range names {
			b := LibType(rm, n)
			c := b.CloneDetached()
			if _, err := finite(c); err != nil {
				r.Fail(sigOf(d, n+" clone walk"), fmt.Sprintf("the clone of %s has %v", n, err), "")
				return
			}
			for _, v := range vals {
				r.Eval(1)
				if (c.Validate(v) == nil) != (b.Validate(v) == nil) {
					r.Fail(sigOf(d, n+" clone <- "+js(v)), fmt.Sprintf("type %s and its clone disagree on %s", n, js(v)), "")
					break
				}
			}
		}
		if len(v) == 0 {
			SchemaAgrees(r, d, w, rm, names, vals)
		}
		r.Class("accepted:" + typeOf(w, names[0]).Kind + sizeClass(k))
	}})
}

func init() {
	register(&Check{ID: "C10", Level: "model_checking", Deep: true,
		Rule:        "every reference graph over up to 3 types x edge templates (and derived, two-edge and two-file forms); the unwrapped model must be finite, structurally equal to the lazy model unfolded to depth 5, accept the same value trees (depth 4), clone and convert accordingly",
		Assumptions: []string{"types that are alternatives of themselves are errors"},
		Gen:         func(tier string, emit func(Case)) { genRec(tier, func(d *DocSet, n []string) { c10case(emit, d, n) }) }})
}

// odometer calls f with every sequence of n numbers below k.
func odometer(n, k int, f func([]int)) {
	v := make([]int, n)
	for {
		f(v)
		i := 0
		for i < n {
			if v[i]++; v[i] < k {
				break
			}
			v[i] = 0
			i++
		}
		if i == n {
			return
		}
	}
}
