package main

// C13: processing one type never changes the meaning of another, and reading a model never changes it.

import (
	"fmt"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// describeAll describes the named types and records which of the values they accept.
func describeAll(rm *raml.RAML, names []string, vals []any) map[string]string {
	out := map[string]string{}
	for _, n := range names {
		b := LibType(rm, n)
		if b == nil {
			out[n] = "missing"
			continue
		}
		var sb strings.Builder
		sb.WriteString(desc(b))
		facetValues(&sb, b, 4)
		sb.WriteString(" accepts ")
		for _, v := range vals {
			if b.Validate(v) == nil {
				sb.WriteString("1")
			} else {
				sb.WriteString("0")
			}
		}
		out[n] = sb.String()
	}
	return out
}

// facetValues lists the custom facet values and annotations of b and of the types within it.
func facetValues(sb *strings.Builder, b *raml.BaseShape, depth int) {
	for k := 0; b != nil && k < 4; k++ {
		rec, ok := b.Shape.(*raml.RecursiveShape)
		if !ok {
			break
		}
		b = rec.Head
	}
	if b == nil || depth == 0 {
		return
	}
	sb.WriteString(" [")
	for p := b.CustomShapeFacets.Oldest(); p != nil; p = p.Next() {
		fmt.Fprintf(sb, "%s=", p.Key)
		if p.Value != nil {
			sb.WriteString(numText(p.Value.Value))
		}
		sb.WriteString(";")
	}
	for p := b.CustomDomainProperties.Oldest(); p != nil; p = p.Next() {
		fmt.Fprintf(sb, "(%s)", p.Key)
	}
	for p := b.CustomShapeFacetDefinitions.Oldest(); p != nil; p = p.Next() {
		fmt.Fprintf(sb, "%s:%v;", p.Key, p.Value.Required)
	}
	switch t := b.Shape.(type) {
	case *raml.ObjectShape:
		if t.Properties != nil {
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				facetValues(sb, p.Value.Base, depth-1)
			}
		}
		if t.PatternProperties != nil {
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				facetValues(sb, p.Value.Base, depth-1)
			}
		}
	case *raml.ArrayShape:
		facetValues(sb, t.Items, depth-1)
	case *raml.UnionShape:
		for _, m := range t.AnyOf {
			facetValues(sb, m, depth-1)
		}
	}
	sb.WriteString("]")
}

// readOps are operations that only look at a model; each returns its outcome.
var readOps = []struct {
	name   string
	onRaw  bool
	effect func(rm *raml.RAML, bs []*raml.BaseShape, vals []any) string
}{
	{"validate model", true, func(rm *raml.RAML, _ []*raml.BaseShape, _ []any) string { return okerr(rm.ValidateShapes()) }},
	{"convert", false, func(_ *raml.RAML, bs []*raml.BaseShape, _ []any) string {
		var sb strings.Builder
		for _, b := range bs {
			m, err := schemaOf(b)
			sb.WriteString(okerr(err) + js(m))
		}
		return sb.String()
	}},
	{"check values", false, func(_ *raml.RAML, bs []*raml.BaseShape, vals []any) string {
		var sb strings.Builder
		for _, b := range bs {
			sb.WriteString(okerr(b.Check()))
			for _, v := range vals {
				sb.WriteString(okerr(b.Validate(v))[:1])
			}
		}
		return sb.String()
	}},
	{"clone", true, func(_ *raml.RAML, bs []*raml.BaseShape, _ []any) string {
		for _, b := range bs {
			b.CloneDetached()
		}
		return ""
	}},
	{"edit a shallow clone", true, func(_ *raml.RAML, bs []*raml.BaseShape, _ []any) string {
		for _, b := range bs {
			editOwn(b.CloneShallow())
		}
		return ""
	}},
}

// editOwn changes what a shallow clone owns: its fields, its maps and the list of union members.
func editOwn(s *raml.BaseShape) {
	txt := "edited"
	s.Description, s.DisplayName, s.Name, s.Default, s.Example, s.Required = &txt, &txt, txt, nil, nil, nil
	s.CustomShapeFacets.Set("edited", nil)
	s.CustomShapeFacetDefinitions.Set("edited", raml.Property{Name: "edited", Base: s})
	s.CustomDomainProperties.Set("edited", nil)
	for p := s.CustomDomainProperties.Oldest(); p != nil && p.Key != "edited"; p = s.CustomDomainProperties.Oldest() {
		s.CustomDomainProperties.Delete(p.Key)
	}
	s.Inherits = append(s.Inherits[:len(s.Inherits):len(s.Inherits)], s)
	n := uint64(7)
	switch t := s.Shape.(type) {
	case *raml.ObjectShape:
		t.MinProperties, t.Discriminator = &n, &txt
		if t.Properties != nil {
			t.Properties.Set("edited", raml.Property{Name: "edited", Base: s})
			t.Properties.Delete(t.Properties.Oldest().Key)
		}
		if t.PatternProperties != nil {
			t.PatternProperties.Delete(t.PatternProperties.Oldest().Key)
		}
	case *raml.ArrayShape:
		t.MinItems, t.Items = &n, s
	case *raml.UnionShape:
		for i := range t.AnyOf {
			t.AnyOf[i] = s
		}
		t.Enum = nil
	case *raml.StringShape:
		t.MinLength, t.Enum = &n, nil
	case *raml.IntegerShape:
		t.Minimum, t.Enum = nil, nil
	}
}

func c13reads(emit func(Case), d *DocSet, names []string, depth int) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		vals := append(leafVals(), map[string]any{}, map[string]any{"a": 1}, map[string]any{"v": "ab", "n": "x"}, l(1), l("a"), l(map[string]any{}))
		for _, unwrap := range []bool{false, true} {
			var seqs [][]int
			var rec func(s []int)
			rec = func(s []int) {
				if len(s) == depth {
					seqs = append(seqs, append([]int{}, s...))
					return
				}
				for i, o := range readOps {
					if unwrap || o.onRaw {
						rec(append(s, i))
					}
				}
			}
			rec(nil)
			first := map[int]string{}
			for _, s := range seqs {
				rm, err := d.Parse(r.Dir, unwrap, false)
				if err != nil {
					r.Class("rejected")
					return
				}
				bs := typesOf(rm, names)
				before := DumpModel(rm)
				for k, o := range s {
					res := readOps[o].effect(rm, bs, vals)
					r.Eval(1)
					var done []string
					for _, q := range s[:k+1] {
						done = append(done, readOps[q].name)
					}
					hist := fmt.Sprintf("unwrap=%v, %s", unwrap, strings.Join(done, ", "))
					if f, ok := first[o]; !ok {
						first[o] = res
					} else if f != res {
						r.Fail(sigOf(d, hist), fmt.Sprintf("[%s] the outcome of the last operation differs from what it was: %s", hist, diffAt(f, res)), "")
						return
					}
					if x := DumpModel(rm); x != before {
						r.Fail(sigOf(d, hist), fmt.Sprintf("[%s] the last operation changed the model: %s", hist, diffAt(before, x)), "")
						return
					}
				}
			}
			// unwrapping after validating gives what unwrapping alone gives
			if !unwrap {
				rm, err := d.Parse(r.Dir, false, true)
				rm2, err2 := d.Parse(r.Dir, true, false)
				if err == nil && err2 == nil {
					for _, b := range rm.GetShapes() {
						if b.IsUnwrapped() {
							r.Fail(sigOf(d, "unwrapped by validation"), "validation left an unwrapped type in the model: "+b.Name, "")
							return
						}
					}
					if err := rm.UnwrapShapes(); err != nil {
						r.Fail(sigOf(d, "unwrap after validate"), "unwrapping works alone but not after validating: "+err.Error(), "")
						return
					}
					a, b := describeAll(rm, names, vals), describeAll(rm2, names, vals)
					for _, n := range names {
						if a[n] != b[n] {
							r.Fail(sigOf(d, "unwrap after validate "+n), "unwrapping after validating gives another type "+n+": "+diffAt(b[n], a[n]), "")
							return
						}
					}
				}
			}
			r.Class(fmt.Sprintf("reads unwrap=%v %s", unwrap, sizeClass(len(names))))
		}
	}})
}

// adder is a declaration added to a set that declares T and P.
type adder struct {
	name string
	typ  any
	file func(d *DocSet) *DocSet // extends the set with a file and an import instead
}

func adders(thorough bool) []adder {
	a := func(n string, t any) adder { return adder{name: n, typ: t} }
	out := []adder{
		a("alias", "T"), a("alias of P", "P"), a("empty child", M{{"type", "T"}}),
		a("child with description", M{{"type", "T"}, {"description", "added"}}),
		a("child with properties", M{{"type", "T"}, {"properties", M{{"zz?", "integer"}, {"a?", "any"}}}}),
		a("child narrowing b", M{{"type", "T"}, {"properties", M{{"b?", typed("string", M{{"maxLength", 3}})}}}}),
		a("child closed", M{{"type", "T"}, {"additionalProperties", false}}),
		a("child minLength", M{{"type", "T"}, {"minLength", 2}}),
		a("child enum", M{{"type", "T"}, {"enum", l("ab")}}),
		a("child minimum", M{{"type", "T"}, {"minimum", 2}}),
		a("child items", M{{"type", "T"}, {"items", typed("integer", M{{"maximum", 9}})}, {"maxItems", 1}}),
		a("child of P", M{{"type", "P"}, {"properties", M{{"zz?", "T"}, {"a?", M{{"type", "T"}, {"description", "d"}}}}}}),
		a("items child of P", M{{"type", "P"}, {"items", M{{"type", "T"}, {"description", "d"}}}, {"minItems", 1}}),
		a("property", M{{"properties", M{{"q?", "T"}, {"r?", "P"}}}}),
		a("inline child property", M{{"properties", M{{"q?", M{{"type", "T"}, {"required", false}, {"displayName", "q"}}}}}}),
		a("items", "T[]"), a("union", "T | P"), a("union reversed", "P | T | nil"), a("optional", "T?"),
		a("narrowed union", M{{"type", "T"}, {"type", "T | P"}}),
		a("multiple parents", M{{"type", l("T", "P")}}), a("multiple parents reversed", M{{"type", l("P", "T")}, {"description", "m"}}),
		a("recursive child", M{{"type", "P"}, {"properties", M{{"self?", "X"}}}}),
		a("facet definition", M{{"facets", M{{"f?", "T"}}}, {"properties", M{{"k?", "T"}}}}),
		a("facet value", M{{"type", "T"}, {"f", 1}}),
		a("property with a facet value", M{{"type", "P"}, {"properties", M{{"a?", M{{"type", "T"}, {"f", 1}}}}}}),
		a("items with a facet value", M{{"type", "P"}, {"items", M{{"type", "T"}, {"f", 1}}}}),
		a("alternative with a facet value", M{{"type", "P"}, {"properties", M{{"n?", M{{"type", "P"}, {"g", 2}}}}}}),
		a("unrelated", M{{"type", "object"}, {"properties", M{{"a", "string"}}}}),
	}
	imp := func(n string, lib M) adder {
		return adder{name: n, file: func(d *DocSet) *DocSet {
			e := NewDocSet()
			body := d.Body["main.raml"]
			e.Lib("main.raml", append(M{{"uses", M{{"x", "x.raml"}}}}, body...))
			e.Lib("x.raml", lib)
			return e
		}}
	}
	out = append(out,
		imp("import equal names", M{{"types", M{{"T", "integer"}, {"P", M{{"properties", M{{"a", "nil"}}}}}}}}),
		imp("import that derives", M{{"uses", M{{"m", "main.raml"}}}, {"types", M{{"T", M{{"type", "m.T"}, {"description", "o"}}}, {"P", M{{"type", "m.P"}, {"description", "p"}}}, {"U", "m.P | T"}}}}),
	)
	_ = thorough
	return out
}

func c13add(emit func(Case), base *DocSet, names []string, as []adder) {
	var ext []*DocSet
	var how []string
	apply := func(after bool) {
		ts, _ := base.Body["main.raml"].get("types")
		tm := append(M{}, ts.(M)...)
		d := NewDocSet()
		var add M
		var file func(*DocSet) *DocSet
		var ns []string
		for i, a := range as {
			ns = append(ns, a.name)
			if a.file != nil {
				file = a.file
				continue
			}
			add = append(add, KV{[]string{"X", "Y", "Z"}[i], a.typ})
		}
		if after {
			tm = append(tm, add...)
		} else {
			tm = append(add, tm...)
		}
		d.Lib("main.raml", M{{"types", tm}})
		if file != nil {
			d = file(d)
		}
		ext = append(ext, d)
		how = append(how, strings.Join(ns, " + ")+map[bool]string{true: " after", false: " before"}[after])
	}
	apply(true)
	apply(false)
	emit(Case{Label: func() string { return ext[0].String() }, Run: func(r *Run) {
		rm, err := base.Parse(r.Dir, true, false)
		if err != nil {
			r.Class("base rejected")
			return
		}
		w := NewWorld(base)
		var vals []any
		for _, n := range names {
			vals = append(vals, valuesFor(w, typeOf(w, n), 3, 2)...)
		}
		vals = dedupe(append(vals, leafVals()...))
		want := describeAll(rm, names, vals)
		for i, e := range ext {
			rm2, err := e.Parse(r.Dir, true, false)
			r.Eval(len(names) * (1 + len(vals)))
			if err != nil {
				r.Class("addition rejected")
				continue
			}
			got := describeAll(rm2, names, vals)
			for _, n := range names {
				if got[n] != want[n] {
					r.Fail(sigOf(e, n), fmt.Sprintf("adding %s changed type %s: %s", how[i], n, diffAt(want[n], got[n])), "")
					return
				}
			}
			r.Class("addition accepted")
		}
	}})
}

func genC13(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	as := adders(thorough)
	obj := func(ps M, f ...KV) M { return append(M{{"type", "object"}, {"properties", ps}}, f...) }
	ts := append(memberTypes(), obj(M{{"b?", "string"}, {"a?", "integer"}}), obj(M{{"b?", "P"}}), M{{"type", "P"}, {"description", "t"}}, "P[]", "P | string",
		typed("string", M{{"facets", M{{"f?", "integer"}}}}), obj(M{{"b?", "string"}}, KV{"facets", M{{"f?", "integer"}}}))
	ps := []any{
		obj(M{{"a?", "T"}}), obj(M{{"a?", M{{"type", "T"}, {"description", "pa"}}}, {"/^p/", "T"}}), M{{"type", "array"}, {"items", "T"}}, M{{"type", "T"}}, "T", "T | integer",
		M{{"type", "T"}, {"properties", M{{"n?", "P"}}}}, obj(M{{"n?", "P"}, {"a?", "T"}}), obj(M{{"n?", "P"}, {"a?", "T"}}, KV{"facets", M{{"g?", "integer"}}}),
	}
	for _, t := range ts {
		for _, p := range ps {
			base := types(M{{"T", t}, {"P", p}})
			for i := range as {
				c13add(emit, base, []string{"T", "P"}, as[i:i+1])
				for j := range as {
					if thorough || (i+j)%3 == 0 {
						c13add(emit, base, []string{"T", "P"}, []adder{as[i], as[j]})
					}
				}
			}
		}
	}
	n := 0
	genCorpus(tier, func(d *DocSet, names []string) {
		depth := 1
		switch {
		case n < 260:
			depth = 3
		case n%8 == 0 || thorough:
			depth = 2
		}
		n++
		c13reads(emit, d, names, depth)
	})
}

func init() {
	register(&Check{ID: "C13", Level: "model_checking",
		Rule:        "every (set of two declarations T and P) x (one or two added declarations or imports, before or after): the descriptions and accepted values of T and P must be those they have alone; every sequence of read-only operations (validate model, convert, check values, clone) up to the depth bound on every corpus model: full dumps of the model and the outcomes must not change",
		Assumptions: []string{"sequences of 3 operations on the constructs corpus, 1-2 on the recursion and inheritance corpus"},
		Gen:         genC13})
}
