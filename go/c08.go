package main

// C08: every annotation is bound to the annotation type of its name and its value is checked.

import (
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C08", Level: "model_checking",
		Rule:        "every annotation site (fragment, type of every kind, member, facet definition, annotation type, example, included data type and example, nested to the depth bound) x annotation type (kinds, derived, aliased, union, recursive, included) x accepted and rejected value, and every way of naming an annotation type (local, qualified, invisible, shadowed) from every kind of file, parsed with all four option combinations; the verdict, the reported annotations and the declarations they are bound to are compared with the model",
		Assumptions: []string{"reference type semantics and scoping rules (model.go)"},
		Gen:         genC08})
}

// checkAnnots compares the annotations of a model that was accepted.
func checkAnnots(r *Run, d *DocSet, w *World, v map[string]bool, unwrap, validate bool) {
	rm, ok := Outcome(r, d, w, v, unwrap, validate)
	if !ok || rm == nil {
		return
	}
	mode := fmt.Sprintf("unwrap=%v validate=%v", unwrap, validate)
	line := func(file, name string, val any) string { return file + " (" + name + ") = " + js(val) }
	var want, got []string
	for _, a := range w.annots {
		want = append(want, line(a.file.path, a.name, a.val))
	}
	dir := r.Dir
	rel := func(loc string) string {
		if !filepath.IsAbs(loc) {
			return loc
		}
		x, err := filepath.Rel(dir, loc)
		if err != nil {
			return loc
		}
		return x
	}
	list := rm.GetAllAnnotationsPtr()
	listed := map[*raml.DomainExtension]bool{}
	for _, a := range list {
		got = append(got, line(rel(a.Location), a.Name, plainOf(a.Extension.Value)))
		if listed[a] {
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] annotation %s is reported twice", mode, a.Name), "")
			return
		}
		listed[a] = true
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] the model reports the annotations %v, but the documents have %v", mode, got, want), "")
		return
	}
	byVal := rm.GetAllAnnotations()
	if len(byVal) != len(list) {
		r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] GetAllAnnotations reports %d annotations, GetAllAnnotationsPtr %d", mode, len(byVal), len(list)), "")
		return
	}
	for i := range byVal {
		if !reflect.DeepEqual(byVal[i].Name, list[i].Name) || byVal[i].Extension != list[i].Extension || byVal[i].DefinedBy != list[i].DefinedBy {
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] GetAllAnnotations and GetAllAnnotationsPtr differ at %d", mode, i), "")
			return
		}
	}
	// each is bound to the declaration of that name
	for _, a := range list {
		var use *annotUse
		for i := range w.annots {
			if w.annots[i].file.path == rel(a.Location) && w.annots[i].name == a.Name {
				use = &w.annots[i]
			}
		}
		f, name := use.file, a.Name
		if i := strings.Index(name, "."); i >= 0 {
			f, name = f.uses[name[:i]], name[i+1:]
		}
		loc := f.path
		if filepath.IsAbs(a.Location) {
			loc = filepath.Join(dir, f.path)
		}
		lib, _ := rm.GetFragment(loc).(*raml.Library)
		if lib == nil {
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] no library %s in the model", mode, loc), "")
			return
		}
		b, _ := lib.AnnotationTypes.Get(name)
		if a.DefinedBy == nil || a.DefinedBy != b {
			what := "nothing"
			if a.DefinedBy != nil {
				what = a.DefinedBy.Name + " of " + rel(a.DefinedBy.Location)
			}
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] annotation (%s) in %s is bound to %s rather than to annotation type %s of %s", mode, a.Name, rel(a.Location), what, name, f.path), "")
			return
		}
		if unwrap {
			err := a.DefinedBy.Validate(a.Extension.Value)
			if t := f.annots[name].get(); t != nil && w.Accepts(t, use.val) != (err == nil) {
				// several annotations of one name in one file: compare only if there is one
				n := 0
				for i := range w.annots {
					if w.annots[i].file == use.file && w.annots[i].name == use.name {
						n++
					}
				}
				if n == 1 {
					r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] the type that annotation (%s) is bound to gives %s for its value", mode, a.Name, errText(err)), "")
					return
				}
			}
		}
		r.Eval(1)
	}
	// every annotation is found where it is written
	at := map[*raml.DomainExtension]bool{}
	annotsOf(rm, at)
	for a := range at {
		if !listed[a] {
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] annotation (%s) of a declaration is not among the reported annotations", mode, a.Name), "")
			return
		}
	}
	for a := range listed {
		if !at[a] {
			r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] annotation (%s) in %s is reported, but no declaration of the model carries it", mode, a.Name, rel(a.Location)), "")
			return
		}
	}
}

// annotsOf collects the annotations carried by the parts of a model.
func annotsOf(rm *raml.RAML, at map[*raml.DomainExtension]bool) {
	seen := map[uintptr]bool{}
	extT := reflect.TypeOf((*raml.DomainExtension)(nil))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || !v.CanInterface() {
				return
			}
			if v.Type() == extT {
				at[v.Interface().(*raml.DomainExtension)] = true
				return
			}
			if strings.Contains(v.Type().String(), "regexp") {
				return
			}
			if seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if m := v.MethodByName("Oldest"); m.IsValid() {
				for p := m.Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
					walk(p.Elem().FieldByName("Value"))
				}
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(rm.EntryPoint()))
}

func c08case(d *DocSet) Case {
	return Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		if w.limit > 20000 {
			r.Note("model_limit", 1)
			return
		}
		for _, unwrap := range []bool{false, true} {
			for _, validate := range []bool{false, true} {
				checkAnnots(r, d, w, v, unwrap, validate)
			}
		}
		r.Note("annotations", int64(len(w.annots)))
		if len(v) > 0 {
			r.Class("rejected:" + cats(v))
		} else {
			r.Class("accepted")
		}
	}}
}

// withAnnotTypes adds annotation types (and helper types) to every library of the set.
func withAnnotTypes(d *DocSet, at, helpers M) *DocSet {
	for _, p := range d.Paths {
		if d.Kind[p] != "Library" {
			continue
		}
		body := append(M{}, d.Body[p]...)
		merge := func(key string, m M) {
			if len(m) == 0 {
				return
			}
			for i, e := range body {
				if e.K == key {
					body[i].V = cat(e.V.(M), m)
					return
				}
			}
			body = append(body, KV{key, m})
		}
		merge("annotationTypes", at)
		merge("types", helpers)
		d.Body[p] = body
	}
	return d
}

// annotated declarations: every kind of type carrying an annotation of its own.
func annotated(key string, v any) map[string]any {
	a := func(m M) M { return cat(m, M{{key, v}}) }
	out := map[string]any{
		"alone":                   a(M{}),
		"first":                   cat(M{{key, v}}, M{{"type", "string"}, {"minLength", 1}}),
		"string facets":           a(M{{"type", "string"}, {"minLength", 1}, {"pattern", "a"}}),
		"integer facets":          a(M{{"minimum", 1}}),
		"array facets":            a(M{{"items", "string"}}),
		"items":                   M{{"items", a(M{{"type", "string"}})}},
		"items of items":          M{{"type", "array"}, {"items", M{{"type", "array"}, {"items", a(M{})}}}},
		"object facets":           a(M{{"properties", M{{"a", "string"}}}}),
		"property":                M{{"properties", M{{"a", a(M{{"type", "string"}})}}}},
		"optional property":       M{{"properties", M{{"a?", a(M{{"type", "string[]"}})}}}},
		"pattern property":        M{{"properties", M{{"/a/", a(M{{"type", "integer"}})}}}},
		"property of property":    M{{"properties", M{{"a", M{{"properties", M{{"b", a(M{})}}}}}}}},
		"facet definition":        M{{"type", "string"}, {"facets", M{{"f?", a(M{{"type", "integer"}})}}}},
		"union":                   a(M{{"type", "string | integer"}}),
		"expression":              a(M{{"type", "string[]?"}}),
		"example":                 M{{"example", M{{"value", "x"}, {key, v}}}},
		"example annotated first": M{{"example", M{{key, v}, {"value", "x"}}}},
		"example of examples":     M{{"examples", M{{"one", "y"}, {"two", M{{"value", "x"}, {key, v}}}}}},
		"example not strict":      M{{"example", M{{"value", 1}, {"strict", false}, {key, v}}}},
		"example data":            M{{"type", "object"}, {"example", M{{key, v}}}},
		"default data":            M{{"type", "object"}, {"default", M{{"value", 1}, {key, v}}}},
		"example of property":     M{{"properties", M{{"a", M{{"type", "string"}, {"example", M{{"value", "x"}, {key, v}}}}}}}},
		"annotation and example":  M{{key, v}, {"example", M{{"value", "x"}, {key, v}}}},
		"twice in one type":       M{{key, v}, {"properties", M{{"a", a(M{})}, {"b?", a(M{})}}}},
		"required property":       M{{"properties", M{{"a", a(M{{"required", true}, {"type", "nil"}})}}}},
	}
	for k := range builtins {
		if k != "union" {
			out["kind "+k] = a(M{{"type", k}})
		}
	}
	return out
}

// shapes of declarations that refer to a helper type P.
func annotatedRefs(key string, v any, ref func(string) string) map[string]any {
	a := func(m M) M { return cat(m, M{{key, v}}) }
	return map[string]any{
		"child":             a(M{{"type", ref("P")}}),
		"child with facets": a(M{{"type", ref("P")}, {"minLength", 1}}),
		"parents":           a(M{{"type", l(ref("P"), ref("P"))}}),
		"array of":          a(M{{"type", ref("P") + "[]"}}),
		"union of":          a(M{{"type", ref("P") + " | nil"}}),
		"items ref":         a(M{{"type", "array"}, {"items", ref("P")}}),
		"items child":       M{{"type", "array"}, {"items", a(M{{"type", ref("P")}})}},
		"redeclared member": M{{"type", ref("O")}, {"properties", M{{"a", a(M{{"type", "string"}})}}}},
		"recursive":         M{{"type", ref("R")}, {"properties", M{{"q?", a(M{{"type", ref("R")}})}}}},
	}
}

var c08helpers = M{{"P", typed("string", M{{"maxLength", 9}})}, {"O", M{{"properties", M{{"a", "string"}}}}},
	{"R", M{{"type", "object"}, {"properties", M{{"n?", "R"}}}}}}

func genC08(tier string, emit func(Case)) {
	thorough := tier != "quick"
	strAn := typed("string", M{{"minLength", 2}})
	depth := 2
	if thorough {
		depth = 3
	}
	// 1. sites
	for _, name := range []string{"ann", "none", "P"} {
		for _, v := range l("ab", "a") {
			if name != "ann" && v == "a" {
				continue
			}
			at := M{{"ann", strAn}}
			plainSites := annotated("("+name+")", v)
			for _, k := range sortedKeys(plainSites) {
				k := k
				s := subject{name: k, types: M{{"P", "string"}}, mk: func(ref func(string) string) any {
					return annotated("("+ref(name)+")", v)[k]
				}}
				for pi, p := range places {
					for _, c := range wrapChains(depth) {
						if k == "facet definition" && startsInFacetDef(c) {
							continue
						}
						if len(c) > 1 && pi > 3 && pi < 6 {
							continue
						}
						if name != "ann" && len(c) > 0 && pi > 1 {
							continue
						}
						emit(c08case(withAnnotTypes(p.mk(s, c), at, nil)))
					}
				}
			}
			refSites := annotatedRefs("("+name+")", v, same)
			for _, k := range sortedKeys(refSites) {
				k := k
				s := subject{name: k, types: c08helpers, mk: func(ref func(string) string) any {
					return annotatedRefs("("+ref(name)+")", v, ref)[k]
				}}
				for pi, p := range places {
					for _, c := range wrapChains(1) {
						if name != "ann" && len(c) > 0 && pi > 1 {
							continue
						}
						emit(c08case(withAnnotTypes(p.mk(s, c), at, nil)))
					}
				}
			}
		}
	}
	for _, c := range decoratedChains(thorough) {
		for _, v := range l("ab", "a") {
			for _, k := range []string{"alone", "items", "property", "example"} {
				k := k
				s := subject{name: k, mk: func(func(string) string) any { return annotated("(ann)", v)[k] }}
				emit(c08case(withAnnotTypes(places[0].mk(s, c), M{{"ann", strAn}}, nil)))
			}
		}
	}
	// 2. annotation types of every kind; the annotation on a fragment, a type, an annotation type and an example
	site := func(i int, key string, v any) (root M, typ M, an M) {
		switch i {
		case 0:
			return M{{key, v}}, nil, nil
		case 1:
			return nil, M{{"T", M{{"type", "string"}, {key, v}}}}, nil
		case 2:
			return nil, nil, M{{"zz", M{{"type", "integer"}, {key, v}}}}
		case 3:
			return nil, M{{"T", M{{"example", M{{"value", "x"}, {key, v}}}}}}, nil
		}
		return M{{key, v}}, M{{"T", M{{"properties", M{{"a?", M{{"type", "nil"}, {key, v}}}}}}}}, nil
	}
	for _, dc := range dataCarriers() {
		for _, v := range append(append([]any{}, dc.good...), dc.bad...) {
			for i := 0; i < 5; i++ {
				for _, form := range []string{"own", "alias", "child", "library", "included", "before"} {
					an := M{{"an", dc.own(same)}}
					types, uses := append(M{}, dc.helpers...), M(nil)
					var lib, dt M
					key := "(an)"
					switch form {
					case "alias":
						types = append(types, KV{"Al", dc.own(same)})
						an = M{{"an", "Al"}}
					case "child":
						types = append(types, KV{"Al", dc.own(same)})
						an = M{{"an", M{{"type", "Al"}, {"description", "d"}}}}
					case "library":
						key = "(l.an)"
						lib = M{{"annotationTypes", an}, {"types", types}}
						an, types, uses = M{{"an", "nil"}}, nil, M{{"l", "sub/lib.raml"}}
					case "included":
						dt = cat(dc.own(qualify), nil)
						if len(dc.helpers) > 0 {
							dt = cat(M{{"uses", M{{"l", "lib.raml"}}}}, dt)
							lib = M{{"types", types}}
						}
						if len(dt) == 0 {
							continue
						}
						types = nil
						an = M{{"an", Inc("sub/dt.raml")}}
					}
					root, typ, an2 := site(i, key, v)
					var body M
					if len(uses) > 0 {
						body = append(body, KV{"uses", uses})
					}
					if form == "before" {
						body = cat(body, root)
						body = append(body, KV{"types", cat(typ, types)}, KV{"annotationTypes", cat(an2, an)})
					} else {
						body = append(body, KV{"annotationTypes", cat(an, an2)})
						if tt := cat(types, typ); len(tt) > 0 {
							body = append(body, KV{"types", tt})
						}
						body = cat(body, root)
					}
					d := NewDocSet().Lib("main.raml", body)
					if dt != nil {
						d.DataType("sub/dt.raml", dt)
					}
					if lib != nil {
						d.Lib("sub/lib.raml", lib)
					}
					emit(c08case(d))
					// the annotations in a library that is imported
					if form == "own" {
						emit(c08case(NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"annotationTypes", M{{"an", "nil"}}}}).Lib("lib.raml", body)))
					}
				}
			}
			// from a file
			for _, ext := range []string{"json", "yaml"} {
				text := flow(v)
				if ext == "json" {
					text = js(plainOf(v))
				}
				emit(c08case(NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"an", dc.own(same)}}}, {"types", cat(dc.helpers, M{{"T", M{{"(an)", Inc("data/v." + ext)}}}})}}).Raw("data/v."+ext, text+"\n")))
			}
		}
	}
	// 3. scoping: declarations of the same name in several files, used by every name from every file
	names := []string{"(a)", "(l.a)", "(m.a)", "(l.b)", "(b)", "(l.m.a)", "(x.a)", "(l.)", "(.a)", "(a.l)"}
	carriers := []string{"main", "lib", "liblib", "dt", "ne", "inner dt"}
	for mask := 0; mask < 8; mask++ { // which of main, lib and liblib declare a
		for _, lnk := range []int{0, 1, 2, 3} { // whether main imports lib as l, lib imports liblib as m; 3: both import each other
			for _, name := range names {
				for _, c := range carriers {
					for _, v := range l("s", 1, nil) {
						decl := func(bit int, t string, extra ...KV) M {
							var m M
							if mask&(1<<bit) != 0 {
								m = append(m, KV{"a", t})
							}
							return append(m, extra...)
						}
						ann := M{{name, v}}
						use := func(where string) M {
							if where == c {
								return M{{"U", cat(M{{"type", "integer"}}, ann)}}
							}
							return M{{"U", "integer"}}
						}
						main := M{{"uses", M{{"l", "lib.raml"}}}, {"annotationTypes", decl(0, "string")}, {"types", use("main")}}
						lib := M{{"uses", M{{"m", "sub/ll.raml"}}}, {"annotationTypes", decl(1, "integer", KV{"b", "string"})}, {"types", use("lib")}}
						ll := M{{"annotationTypes", decl(2, "nil")}, {"types", use("liblib")}}
						if lnk&1 != 0 {
							main[0].V = M{{"l", "lib.raml"}, {"m", "sub/ll.raml"}}
						}
						if lnk&2 != 0 {
							ll = cat(M{{"uses", M{{"l", "../lib.raml"}, {"m", "../main.raml"}}}}, ll)
						}
						d := NewDocSet().Lib("main.raml", main).Lib("lib.raml", lib).Lib("sub/ll.raml", ll)
						switch c {
						case "dt", "inner dt":
							main[2].V = M{{"D", Inc("sub/d.raml")}}
							body := cat(M{{"uses", M{{"l", "../lib.raml"}}}, {"type", "integer"}}, ann)
							if c == "inner dt" {
								body = M{{"uses", M{{"l", "../lib.raml"}}}, {"properties", M{{"p", cat(M{{"type", "integer"}}, ann)}}}}
							}
							d.DataType("sub/d.raml", body)
						case "ne":
							main[2].V = M{{"D", M{{"examples", Inc("sub/n.raml")}}}}
							d.Example("sub/n.raml", M{{"e", cat(M{{"value", "x"}}, ann)}})
						}
						emit(c08case(d))
						if lnk > 0 && !thorough {
							continue
						}
						// both libraries imported by the file, in either order
						for o, us := range []M{{{"l", "lib.raml"}, {"m", "sub/ll.raml"}}, {{"m", "sub/ll.raml"}, {"l", "lib.raml"}}} {
							rel := M{{us[0].K, "../" + us[0].V.(string)}, {us[1].K, "../" + us[1].V.(string)}}
							lib2 := M{{"annotationTypes", decl(1, "integer", KV{"b", "string"})}, {"types", M{{"Z", "nil"}}}}
							switch c {
							case "dt":
								emit(c08case(NewDocSet().Lib("main.raml", M{{"uses", us}, {"annotationTypes", decl(0, "string")}, {"types", M{{"D", Inc("sub/d.raml")}}}}).Lib("lib.raml", lib2).Lib("sub/ll.raml", M{{"annotationTypes", decl(2, "nil")}}).
									DataType("sub/d.raml", cat(M{{"uses", rel}, {"type", "integer"}}, ann))))
								emit(c08case(NewDocSet().DataType("main.raml", cat(M{{"uses", us}, {"type", "integer"}}, ann)).Lib("lib.raml", lib2).Lib("sub/ll.raml", M{{"annotationTypes", decl(2, "nil")}})))
							case "main":
								if o == 1 {
									emit(c08case(NewDocSet().Lib("main.raml", M{{"uses", us}, {"annotationTypes", decl(0, "string")}, {"types", use("main")}}).Lib("lib.raml", lib2).Lib("sub/ll.raml", M{{"annotationTypes", decl(2, "nil")}})))
								}
							}
						}
					}
				}
			}
		}
	}
	// 4. several annotations: order, number, the same name at several sites, one invalid among valid ones
	pairs := []M{{{"(s)", "x"}}, {{"(i)", 1}}, {{"(i)", "x"}}, {{"(n)", nil}}, {{"(l.s)", 1}}, {{"(l.s)", "x"}}, {{"(q)", 1}}}
	for _, a := range pairs {
		for _, b := range pairs {
			for _, c := range pairs {
				if !thorough && flow(a) > flow(c) {
					continue
				}
				an := M{{"s", "string"}, {"i", "integer"}, {"n", "nil"}}
				d := NewDocSet().Lib("main.raml", cat(M{{"uses", M{{"l", "lib.raml"}}}, {"annotationTypes", an}, {"types", M{{"T", cat(M{{"type", "object"}}, a, M{{"properties", M{{"p?", cat(M{{"type", "string"}}, b)}}}})}, {"V", cat(M{{"type", "T"}}, c)}, {"W", "T"}, {"A", "T[]"}}}}, a)).
					Lib("lib.raml", M{{"annotationTypes", M{{"s", "integer"}}}})
				emit(c08case(d))
			}
		}
	}
	// 5. a data type reached several times contributes its annotations once
	for _, v := range l("ab", "a") {
		dt := cat(M{{"uses", M{{"l", "ann.raml"}}}, {"properties", M{{"p?", M{{"type", "string"}, {"(l.an)", v}}}}}}, M{{"(l.an)", v}})
		for _, refs := range [][]any{{Inc("d.raml")}, {Inc("d.raml"), Inc("d.raml")}, {Inc("d.raml"), M{{"type", Inc("d.raml")}}, M{{"properties", M{{"x?", Inc("d.raml")}}}}}, {M{{"items", Inc("./d.raml")}}, Inc("././d.raml")}} {
			var ts M
			for i, f := range refs {
				ts = append(ts, KV{fmt.Sprintf("T%d", i), f})
			}
			d := NewDocSet().Lib("main.raml", M{{"types", ts}}).DataType("d.raml", dt).Lib("ann.raml", M{{"annotationTypes", M{{"an", strAn}}}})
			emit(c08case(d))
			d2 := NewDocSet().Lib("main.raml", M{{"uses", M{{"k", "k.raml"}, {"l", "ann.raml"}}}, {"types", ts}, {"(l.an)", v}}).DataType("d.raml", dt).Lib("ann.raml", M{{"annotationTypes", M{{"an", strAn}}}}).Lib("k.raml", M{{"types", ts}})
			emit(c08case(d2))
		}
	}
}
