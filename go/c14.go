package main

// C14: a clone equals its original and shares no mutable structure with it.

import (
	"fmt"

	raml "github.com/acronis/go-raml/v2"
)

func typesOf(rm *raml.RAML, names []string) []*raml.BaseShape {
	var out []*raml.BaseShape
	for _, n := range names {
		if b := LibType(rm, n); b != nil {
			out = append(out, b)
		}
	}
	return out
}

// shared returns a path of an object that both can reach.
func shared(a, b *raml.BaseShape) string {
	ra, rb := Reach(a), Reach(b)
	for k, p := range rb {
		if q, ok := ra[k]; ok {
			return fmt.Sprintf("%s of the clone is %s of the original", p, q)
		}
	}
	return ""
}

func desc(b *raml.BaseShape) string { return descShape(b, 5) }

// scramble edits every type reachable from b.
func scramble(b *raml.BaseShape) {
	for k := range Reach(b) {
		s, ok := k.(*raml.BaseShape)
		if !ok || s.Shape == nil {
			continue
		}
		txt := "scrambled"
		s.Description, s.Name = &txt, s.Name+"~"
		n := uint64(7777)
		switch t := s.Shape.(type) {
		case *raml.ObjectShape:
			t.MinProperties = &n
			if t.Properties != nil {
				if p := t.Properties.Oldest(); p != nil {
					t.Properties.Delete(p.Key)
				}
				t.Properties.Set("scrambled", raml.Property{Name: "scrambled", Base: s})
			}
			if t.PatternProperties != nil {
				if p := t.PatternProperties.Oldest(); p != nil {
					t.PatternProperties.Delete(p.Key)
				}
			}
		case *raml.ArrayShape:
			t.MinItems, t.Items = &n, s
		case *raml.UnionShape:
			for i := range t.AnyOf {
				t.AnyOf[i] = s
			}
		case *raml.StringShape:
			t.MinLength, t.Enum = &n, nil
		case *raml.IntegerShape:
			t.Minimum, t.Enum = nil, nil
		case *raml.RecursiveShape:
			t.Head = s
		}
		for i := range s.Inherits {
			s.Inherits[i] = s
		}
		if s.CustomShapeFacets != nil {
			s.CustomShapeFacets.Set("scrambled", nil)
		}
		if s.CustomShapeFacetDefinitions != nil {
			s.CustomShapeFacetDefinitions.Set("scrambled", raml.Property{Name: "s", Base: s})
		}
		if s.CustomDomainProperties != nil {
			s.CustomDomainProperties.Set("scrambled", nil)
		}
	}
}

func c14case(emit func(Case), d *DocSet, names []string) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		for _, unwrap := range []bool{false, true} {
			mode := fmt.Sprintf("unwrap=%v ", unwrap)
			rm, err := d.Parse(r.Dir, unwrap, false)
			if err != nil {
				r.Class("rejected")
				continue
			}
			bs := typesOf(rm, names)
			// nested types are cloned on their own as well
			var all []*raml.BaseShape
			seen := map[*raml.BaseShape]bool{}
			for _, b := range bs {
				all = append(all, b)
				seen[b] = true
			}
			for _, b := range bs {
				for k := range Reach(b) {
					if s, ok := k.(*raml.BaseShape); ok && !seen[s] && len(all) < 40 {
						seen[s] = true
						all = append(all, s)
					}
				}
			}
			before := DumpModel(rm)
			var clones []*raml.BaseShape
			for _, b := range all {
				c := b.CloneDetached()
				clones = append(clones, c)
				r.Eval(1)
				if x, y := DumpTypes(b), DumpTypes(c); x != y {
					r.Fail(sigOf(d, mode+b.Name+" dump"), fmt.Sprintf("[%s] the clone of %s differs from it: %s", mode, b.Name, diffAt(x, y)), "")
					return
				}
				if s := shared(b, c); s != "" {
					r.Fail(sigOf(d, mode+b.Name+" shared"), fmt.Sprintf("[%s] the clone of %s shares structure with it: %s", mode, b.Name, s), "")
					return
				}
			}
			if x := DumpModel(rm); x != before {
				r.Fail(sigOf(d, mode+"cloning"), "["+mode+"] cloning changed the model: "+diffAt(before, x), "")
				return
			}
			// one table
			table := map[int64]*raml.BaseShape{}
			var joint []*raml.BaseShape
			for _, b := range bs {
				joint = append(joint, b.Clone(table))
			}
			if x, y := DumpTypes(bs...), DumpTypes(joint...); x != y {
				r.Fail(sigOf(d, mode+"table"), "["+mode+"] clones made with one table differ from the originals: "+diffAt(x, y), "")
				return
			}
			for i, b := range bs {
				if b.Clone(table) != joint[i] {
					r.Fail(sigOf(d, mode+"again"), "["+mode+"] a second clone of "+b.Name+" with the same table is another one", "")
					return
				}
			}
			if unwrap {
				for i, b := range all {
					if x, y := desc(b), desc(clones[i]); x != y {
						r.Fail(sigOf(d, mode+b.Name+" desc"), "["+mode+"] the clone of "+b.Name+" means something else: "+diffAt(x, y), "")
						return
					}
					w1, e1 := schemaOf(b)
					w2, e2 := schemaOf(clones[i])
					if okerr(e1) != okerr(e2) || js(w1) != js(w2) {
						r.Fail(sigOf(d, mode+b.Name+" schema"), fmt.Sprintf("[%s] the clone of %s converts differently: %v %v %s", mode, b.Name, e1, e2, diffAt(js(w1), js(w2))), "")
						return
					}
				}
			} else {
				// unwrapping a clone leaves the model as it is, and gives what unwrapping the original gives
				shapes := len(rm.GetShapes())
				var got []string
				ok := true
				cs := typesOf(rm, names)
				for i, b := range cs {
					c := b.CloneDetached()
					cs[i] = c
					before := DumpTypes(bs...)
					u, err := rm.UnwrapShape(c)
					if err == nil {
						_, err = rm.FindAndMarkRecursion(u)
					}
					if err != nil {
						ok = false
						continue
					}
					if x := DumpTypes(bs...); x != before {
						r.Fail(sigOf(d, mode+b.Name+" unwrap"), "unwrapping a clone of "+b.Name+" changed the originals: "+diffAt(before, x), "")
						return
					}
					got = append(got, desc(u))
				}
				_ = shapes
				keep := DumpTypes(cs...)
				errU := rm.UnwrapShapes()
				if x := DumpTypes(cs...); x != keep {
					r.Fail(sigOf(d, mode+"unwrap original"), "unwrapping the originals changed their clones: "+diffAt(keep, x), "")
					return
				}
				if ok && errU == nil {
					for i, b := range typesOf(rm, names) {
						if x := desc(b); x != got[i] {
							r.Fail(sigOf(d, mode+b.Name+" unwrapped"), "unwrapping a clone of "+b.Name+" gives another type than unwrapping the original: "+diffAt(x, got[i]), "")
							return
						}
					}
				}
				r.Class(fmt.Sprintf("clone-unwrap %v %v", ok, errU == nil))
			}
			// edits of the clones leave the originals alone, and the other way round
			keep := DumpTypes(typesOf(rm, names)...)
			for _, c := range clones {
				scramble(c)
			}
			if x := DumpTypes(typesOf(rm, names)...); x != keep {
				r.Fail(sigOf(d, mode+"edit"), "["+mode+"] editing the clones changed the originals: "+diffAt(keep, x), "")
				return
			}
			fresh := map[int64]*raml.BaseShape{}
			joint = nil
			for _, b := range bs {
				joint = append(joint, b.Clone(fresh))
			}
			keep = DumpTypes(joint...)
			for _, b := range bs {
				scramble(b)
			}
			if x := DumpTypes(joint...); x != keep {
				r.Fail(sigOf(d, mode+"edit original"), "["+mode+"] editing the originals changed their clones: "+diffAt(keep, x), "")
				return
			}
			r.Class(fmt.Sprintf("cloned %v %s", unwrap, sizeClass(len(all))))
		}
	}})
}

func init() {
	register(&Check{ID: "C14", Level: "model_checking",
		Rule:        "every type (and every nested type) of every corpus document set, resolved and unwrapped: clone x {detached, one table} x {compare, unwrap clone, unwrap original, edit clone, edit original}; full structural dumps with pointer identities, reachability of types and member tables, and meaning are compared",
		Assumptions: []string{"data nodes, annotations and compiled patterns are immutable and may be shared"},
		Gen: func(tier string, emit func(Case)) {
			genCorpus(tier, func(d *DocSet, n []string) { c14case(emit, d, n) })
		}})
}
