package main

// C24: however a model is made, it is the same, and every way to ask it for a type gives the same answer.

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// textOf dumps a model without positions and identifiers.
func textOf(rm *raml.RAML, withShapes bool) string {
	x := newDumper()
	x.whole, x.noIDs = true, true
	x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	if withShapes {
		x.b.WriteString("\nshapes:")
		x.val(reflect.ValueOf(rm.GetShapes()), "shapes")
	}
	x.b.WriteString("\nannotations:")
	x.val(reflect.ValueOf(rm.GetAllAnnotationsPtr()), "annotations")
	var locs []string
	for p := range x.objs {
		if b, ok := p.(*raml.BaseShape); ok {
			locs = append(locs, b.Location)
		}
	}
	sort.Strings(locs)
	fmt.Fprintf(&x.b, "\nfiles: %s %q", rm.GetLocation(), locs)
	return x.b.String()
}

type madeModel struct {
	text string
	ok   bool
	// how and why it differs, for the report
	err error
	rm  *raml.RAML
}

func made(rm *raml.RAML, err error) madeModel {
	if err != nil {
		return madeModel{err: err}
	}
	return madeModel{text: textOf(rm, true), ok: true, rm: rm}
}

// entries24 lists the ways to parse a text that is the file name in dir.
var entries24 = []struct {
	name string
	f    func(text, dir, name string, opts []raml.ParseOpt) (*raml.RAML, error)
}{
	{"path", func(_, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromPath(filepath.Join(dir, name), o...)
	}},
	{"path with context", func(_, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromPathCtx(context.WithValue(context.Background(), raml.HookKey("k"), 1), filepath.Join(dir, name), o...)
	}},
	{"relative path", func(_, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		wd, err := os.Getwd()
		if err != nil {
			return nil, err
		}
		rel, err := filepath.Rel(wd, filepath.Join(dir, name))
		if err != nil {
			return nil, err
		}
		return raml.ParseFromPath(rel, o...)
	}},
	{"path with detours", func(_, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromPath(dir+"/./"+filepath.Dir(name)+"//../"+filepath.Base(filepath.Dir(name))+"/"+filepath.Base(name), o...)
	}},
	{"text", func(text, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromString(text, name, dir, o...)
	}},
	{"text with context", func(text, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromStringCtx(context.TODO(), text, name, dir, o...)
	}},
	{"text in its directory", func(text, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromString(text, filepath.Base(name), filepath.Join(dir, filepath.Dir(name)), o...)
	}},
	{"text with detours", func(text, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		return raml.ParseFromString(text, "./"+filepath.Base(filepath.Dir(name))+"/../"+filepath.Base(filepath.Dir(name))+"//"+filepath.Base(name), filepath.Join(dir, filepath.Dir(filepath.Dir(name)))+"/", o...)
	}},
	{"model", func(_, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		rm := raml.New(context.Background())
		return rm, rm.ParseFromPath(filepath.Join(dir, name), o...)
	}},
	{"model from text", func(text, dir, name string, o []raml.ParseOpt) (*raml.RAML, error) {
		rm := raml.New(context.Background())
		return rm, rm.ParseFromString(text, name, dir, o...)
	}},
}

func fragments24(rm *raml.RAML) []raml.Fragment {
	var out []raml.Fragment
	seen := map[raml.Fragment]bool{}
	var visit func(f raml.Fragment)
	visit = func(f raml.Fragment) {
		if f == nil || reflect.ValueOf(f).IsNil() || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		switch x := f.(type) {
		case *raml.Library:
			for p := x.Uses.Oldest(); p != nil; p = p.Next() {
				visit(p.Value.Link)
			}
		case *raml.DataType:
			for p := x.Uses.Oldest(); p != nil; p = p.Next() {
				visit(p.Value.Link)
			}
		}
	}
	visit(rm.EntryPoint())
	x := newDumper()
	x.whole = true
	x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	var linked []raml.Fragment
	for p := range x.objs {
		if b, ok := p.(*raml.BaseShape); ok && b.Link != nil {
			linked = append(linked, b.Link)
		}
	}
	sort.Slice(linked, func(i, j int) bool { return linked[i].GetLocation() < linked[j].GetLocation() })
	for _, f := range linked {
		visit(f)
	}
	return out
}

// views compares all ways to ask a model for its types.
func views(rm *raml.RAML, unwrapped bool) string {
	bad := ""
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	for _, f := range fragments24(rm) {
		loc := f.GetLocation()
		if rm.GetFragment(loc) != f {
			fail("the fragment of %s is another one than the one that is linked", loc)
		}
		switch x := f.(type) {
		case *raml.Library:
			n := 0
			for p := x.Types.Oldest(); p != nil; p = p.Next() {
				n++
				if b, err := rm.GetTypeFromFragmentPtr(loc, p.Key); err != nil || b != p.Value {
					fail("type %s of %s: the fragment's table has another one (%v)", p.Key, loc, err)
				}
				if b := rm.GetFragmentTypePtrs(loc)[p.Key]; b != p.Value {
					fail("type %s of %s: the list of the fragment has another one", p.Key, loc)
				}
				if b, err := rm.GetReferencedType(p.Key, loc); !strings.Contains(p.Key, ".") && (err != nil || b != p.Value) {
					fail("type %s of %s: a reference leads to another one (%v)", p.Key, loc, err)
				}
				if p.Value.Name != p.Key {
					fail("type %s of %s is named %s", p.Key, loc, p.Value.Name)
				}
			}
			if m := rm.GetFragmentTypePtrs(loc); len(m) != n {
				fail("%s declares %d types, its table has %d", loc, n, len(m))
			}
			for p := x.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
				if b, err := rm.GetAnnotationTypeFromFragmentPtr(loc, p.Key); err != nil || b != p.Value {
					fail("annotation type %s of %s: the fragment's table has another one (%v)", p.Key, loc, err)
				}
				if b, err := rm.GetReferencedAnnotationType(p.Key, loc); !strings.Contains(p.Key, ".") && (err != nil || b != p.Value) {
					fail("annotation type %s of %s: a reference leads to another one (%v)", p.Key, loc, err)
				}
			}
			for u := x.Uses.Oldest(); u != nil; u = u.Next() {
				viaAlias(rm, loc, u.Key, u.Value.Link, fail)
			}
		case *raml.DataType:
			for u := x.Uses.Oldest(); u != nil; u = u.Next() {
				viaAlias(rm, loc, u.Key, u.Value.Link, fail)
			}
			if unwrapped {
				if b, err := rm.GetTypeFromFragmentPtr(loc, x.Shape.Name); err != nil || b != x.Shape {
					fail("the type of %s: the fragment's table has another one (%v)", loc, err)
				}
			}
		}
	}
	// every type
	x := newDumper()
	x.whole = true
	x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	ids := map[int64]*raml.BaseShape{}
	listed := map[*raml.BaseShape]bool{}
	for _, b := range rm.GetShapes() {
		if listed[b] {
			fail("%s (%s) is listed twice", b.Name, b.Type)
		}
		listed[b] = true
	}
	for p := range x.objs {
		b, ok := p.(*raml.BaseShape)
		if !ok {
			continue
		}
		if b.Shape == nil {
			fail("%s has no shape", b.Name)
			continue
		}
		if b.Shape.Base() != b {
			fail("the shape of %s belongs to %s", b.Name, b.Shape.Base().Name)
		}
		if o := ids[b.ID]; o != nil && o != b {
			fail("%s and %s have the same ID", b.Name, o.Name)
		}
		ids[b.ID] = b
		if _, ok := b.Shape.(*raml.UnknownShape); ok {
			fail("%s is not resolved", b.Name)
		}
		if unwrapped && !b.IsUnwrapped() {
			fail("%s (%s) is not unwrapped", b.Name, b.Type)
		}
		if b.Location == "" {
			fail("%s has no location", b.Name)
		}
		kind := strings.TrimPrefix(reflect.TypeOf(b.Shape).String(), "*raml.")
		if k := kindNames[b.Type]; k != kind && !(k == "" && b.Link != nil) {
			fail("%s of type %q is a %s", b.Name, b.Type, kind)
		}
	}
	anns := map[*raml.DomainExtension]bool{}
	for i, a := range rm.GetAllAnnotationsPtr() {
		anns[a] = true
		if a.DefinedBy == nil {
			fail("annotation %s is not bound", a.Name)
			continue
		}
		if t, err := rm.GetAnnotationTypeFromFragmentPtr(a.DefinedBy.Location, a.DefinedBy.Name); err != nil || t != a.DefinedBy {
			fail("annotation %s is bound to another %s than the fragment's (%v)", a.Name, a.DefinedBy.Name, err)
		}
		if c := rm.GetAllAnnotations()[i]; c.Name != a.Name || c.DefinedBy != a.DefinedBy || c.Extension != a.Extension {
			fail("annotation %s differs between the lists", a.Name)
		}
	}
	if rm.GetLocation() != rm.EntryPoint().GetLocation() {
		fail("location %s, the entry's is %s", rm.GetLocation(), rm.EntryPoint().GetLocation())
	}
	return bad
}

var kindNames = map[string]string{"any": "AnyShape", "nil": "NilShape", "object": "ObjectShape", "array": "ArrayShape", "string": "StringShape", "integer": "IntegerShape", "number": "NumberShape", "boolean": "BooleanShape",
	"datetime": "DateTimeShape", "datetime-only": "DateTimeOnlyShape", "date-only": "DateOnlyShape", "time-only": "TimeOnlyShape", "file": "FileShape", "union": "UnionShape", "json": "JSONShape", "recursive": "RecursiveShape"}

func viaAlias(rm *raml.RAML, loc, alias string, lib *raml.Library, fail func(string, ...any)) {
	if lib == nil {
		fail("library %s of %s is not linked", alias, loc)
		return
	}
	for p := lib.Types.Oldest(); p != nil; p = p.Next() {
		if b, err := rm.GetReferencedType(alias+"."+p.Key, loc); err != nil || b != p.Value {
			fail("type %s.%s seen from %s is another one (%v)", alias, p.Key, loc, err)
		}
	}
	for p := lib.AnnotationTypes.Oldest(); p != nil; p = p.Next() {
		if b, err := rm.GetReferencedAnnotationType(alias+"."+p.Key, loc); err != nil || b != p.Value {
			fail("annotation type %s.%s seen from %s is another one (%v)", alias, p.Key, loc, err)
		}
	}
}

// steps24 are the processing steps that can be called on a model.
func c24case(emit func(Case), d *DocSet, depth int) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		base := filepath.Join(r.Dir, "a", "b")
		d.Files().Write(base)
		name := filepath.Join("a", "b", d.Entry)
		fail := func(what, f string, a ...any) {
			r.Fail(sigOf(d, what), "["+what+"] "+fmt.Sprintf(f, a...)+"\n"+d.String(), "")
		}
		// by options
		ref := map[string]madeModel{}
		for _, o := range []struct {
			name             string
			unwrap, validate bool
		}{{"", false, false}, {"U", true, false}, {"V", false, true}, {"UV", true, true}} {
			opts := parseOpts(o.unwrap, o.validate)
			for i, e := range entries24 {
				rm, err := e.f(d.content(d.Entry), r.Dir, name, opts)
				r.Eval(1)
				m := made(rm, err)
				if i == 0 {
					ref[o.name] = m
					if m.ok {
						if bad := views(rm, o.unwrap); bad != "" {
							fail("views, options "+o.name, "%s", bad)
							return
						}
					}
					continue
				}
				if w := ref[o.name]; w.ok != m.ok || w.text != m.text {
					fail("entry by "+e.name, "options %q: accepted=%v (by path %v) %s", o.name, m.ok, w.ok, diffAt(w.text, m.text))
					return
				}
			}
		}
		r.Class(fmt.Sprint(ref[""].ok, ref["U"].ok, ref["V"].ok, ref["UV"].ok))
		if !ref[""].ok {
			for _, k := range []string{"U", "V", "UV"} {
				if ref[k].ok {
					fail("options "+k, "accepted, but refused without options")
				}
			}
			return
		}
		if ref["UV"].ok != (ref["U"].ok && ref["V"].ok) && ref["U"].ok {
			r.Note("verdict of validation depends on unwrapping", 1)
		}
		// steps one after another
		var seqs []string
		lvl := []string{""}
		for i := 0; i < depth; i++ {
			var next []string
			for _, s := range lvl {
				next = append(next, s+"U", s+"V")
			}
			seqs = append(seqs, next...)
			lvl = next
		}
		for _, start := range []string{"", "U", "V", "UV"} {
			if !ref[start].ok {
				continue
			}
			for _, s := range seqs {
				if len(s) < depth && start != "" {
					continue // a prefix of a longer sequence
				}
				rm, err := d.Parse24(base, strings.Contains(start, "U"), strings.Contains(start, "V"))
				if err != nil {
					fail("parse again", "refused: %v", err)
					return
				}
				un := strings.Contains(start, "U")
				for i, op := range s {
					var err error
					what := "options " + start + " then " + s[:i+1]
					r.Note("steps", 1)
					if op == 'U' {
						err = rm.UnwrapShapes()
						if (err == nil) != (un || ref["U"].ok) {
							fail(what, "unwrapping: %s", errText(err))
							return
						}
						un = true
						if err != nil {
							break
						}
					} else {
						err = rm.ValidateShapes()
						k := "V"
						if un {
							k = "UV"
						}
						if (err == nil) != ref[k].ok {
							fail(what, "validation: %s; as an option accepted=%v", errText(err), ref[k].ok)
							return
						}
					}
					want := ref[""].text
					if un {
						want = ref["U"].text
					}
					if got := textOf(rm, true); got != want {
						fail(what, "the model differs from the one made with options: %s", diffAt(want, got))
						return
					}
					if bad := views(rm, un); bad != "" {
						fail(what, "%s", bad)
						return
					}
				}
			}
		}
	}})
}

// Parse24 parses the files that are in the directory.
func (d *DocSet) Parse24(dir string, unwrap, validate bool) (*raml.RAML, error) {
	return raml.ParseFromPath(filepath.Join(dir, d.Entry), parseOpts(unwrap, validate)...)
}

func init() {
	register(&Check{ID: "C24", Level: "model_checking",
		Rule:        "every document set of the corpora, valid and invalid x every entry point (path, text, with and without context, method of a model) x every option combination; and every sequence of the steps unwrap and validate up to the depth bound after each of them; models, verdicts and all lookups compared",
		Assumptions: []string{"a model whose unwrapping failed is not used further"},
		Gen: func(tier string, emit func(Case)) {
			depth := 3
			if tier == "thorough" {
				depth = 4
			}
			seen := map[uint64]bool{}
			once := func(d *DocSet, depth int) {
				if h := hash64(d.String()); !seen[h] {
					seen[h] = true
					c24case(emit, d, depth)
				}
			}
			notationDocs(func(d *DocSet) { once(d, depth) })
			genMulti(tier, func(d *DocSet, _ []string) { once(d, depth-1) })
			genCorpus(tier, func(d *DocSet, _ []string) { once(d, depth-1) })
		}})
}
