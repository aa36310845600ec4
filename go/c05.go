package main

// C05: every reference and include binds to the one declaration it names.

import (
	"context"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C05", Level: "model_checking",
		Rule:        "every import graph over the bounded set of libraries in different directories (all declaring the same names, with import cycles and shared prefixes) x every reference form and name; every graph of data types that include each other and import libraries; every spelling of a relative path up to the bound for every kind of include; every way of naming the entry file; acceptance, accepted values of every declaration of every file and identity of the loaded fragments are compared with the model",
		Assumptions: []string{"reference scoping rules (model.go)", "paths are resolved lexically; directories named by a path exist"},
		Gen:         genC05})
}

// entryHow is a way to hand over the entry file.
var entryHows = []string{"path", "unclean path", "relative path", "string", "string with unclean base", "string with relative base"}

// parseAs parses the document set (already written to dir) whose entry file is d.Entry.
func parseAs(d *DocSet, dir, how string, unwrap, validate bool) (*raml.RAML, error) {
	full := filepath.Join(dir, d.Entry)
	o := parseOpts(unwrap, validate)
	switch how {
	case "unclean path":
		return raml.ParseFromPath(filepath.Dir(full)+"/./../"+filepath.Base(filepath.Dir(full))+"//"+filepath.Base(full), o...)
	case "relative path":
		wd, _ := os.Getwd()
		p, err := filepath.Rel(wd, full)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return raml.ParseFromPath(p, o...)
	case "string":
		return raml.ParseFromString(d.content(d.Entry), filepath.Base(full), filepath.Dir(full), o...)
	case "string with relative base":
		wd, _ := os.Getwd()
		if err := os.Chdir(dir); err != nil {
			panic("harness: " + err.Error())
		}
		defer func() { _ = os.Chdir(wd) }()
		return raml.ParseFromStringCtx(context.Background(), d.content(d.Entry), filepath.Base(full), filepath.Dir(d.Entry), o...)
	case "string with unclean base":
		return raml.ParseFromString(d.content(d.Entry), filepath.Base(full), filepath.Dir(full)+"/../"+filepath.Base(filepath.Dir(full))+"/.", o...)
	}
	return raml.ParseFromPath(full, o...)
}

// links returns the libraries that a fragment imports.
func links(f raml.Fragment) map[string]*raml.Library {
	out := map[string]*raml.Library{}
	switch x := f.(type) {
	case *raml.Library:
		for p := x.Uses.Oldest(); p != nil; p = p.Next() {
			out[p.Key] = p.Value.Link
		}
	case *raml.DataType:
		for p := x.Uses.Oldest(); p != nil; p = p.Next() {
			out[p.Key] = p.Value.Link
		}
	}
	return out
}

// c05check parses with every option and compares with the model.
func c05check(r *Run, d *DocSet, how string, vals []any) {
	w := NewWorld(d)
	v := w.Verdict()
	if w.limit > 20000 {
		r.Note("model_limit", 1)
		return
	}
	d.Files().Write(r.Dir)
	for _, mode := range [][2]bool{{true, true}, {false, false}, {false, true}} {
		rm, err := parseAs(d, r.Dir, how, mode[0], mode[1])
		r.Eval(1)
		ms := fmt.Sprintf("%s, unwrap=%v validate=%v", how, mode[0], mode[1])
		want := expected(v, mode[0], mode[1])
		if want != (err != nil) {
			exp := "must be accepted"
			if want {
				exp = "must be rejected (" + cats(v) + ": " + strings.Join(w.why, "; ") + ")"
			}
			r.Fail(sigOf(d, ms), fmt.Sprintf("[%s] the document set %s, but parsing gave %s", ms, exp, errText(err)), "")
			return
		}
		if err != nil {
			continue
		}
		// fragments: one object per file
		base := r.Dir
		if how == "string with relative base" {
			base = ""
		}
		loc := func(p string) string { return filepath.Join(base, p) }
		frag := map[string]raml.Fragment{}
		ptr := map[raml.Fragment]string{}
		frag[d.Entry] = rm.EntryPoint()
		ptr[rm.EntryPoint()] = d.Entry
		bad := func(format string, a ...any) {
			r.Fail(sigOf(d, ms), fmt.Sprintf("[%s] ", ms)+fmt.Sprintf(format, a...), "")
		}
		for _, p := range w.forder {
			if w.files[p] == nil {
				continue
			}
			f := rm.GetFragment(loc(p))
			if f == nil {
				bad("file %s is not among the fragments of the model", p)
				return
			}
			if p == d.Entry && f != rm.EntryPoint() {
				bad("the entry file was loaded a second time as %s", p)
				return
			}
			if q, ok := ptr[f]; ok && q != p {
				bad("files %s and %s are the same fragment", p, q)
				return
			}
			ptr[f], frag[p] = p, f
		}
		for _, p := range w.forder {
			mf := w.files[p]
			ls := links(frag[p])
			if len(ls) != len(mf.uses) {
				bad("%s imports %d libraries, the model has %d", p, len(mf.uses), len(ls))
				return
			}
			for al, t := range mf.uses {
				if raml.Fragment(ls[al]) != frag[t.path] {
					got := "another fragment"
					if ls[al] == nil {
						got = "nothing"
					} else if q, ok := ptr[ls[al]]; ok {
						got = q
					}
					bad("%s imports %s as %s, but the model has %s", p, t.path, al, got)
					return
				}
			}
			r.Eval(len(ls))
		}
		// declarations of every file
		for _, p := range w.forder {
			mf := w.files[p]
			cmp := func(name string, b *raml.BaseShape, t *Ty) bool {
				if b == nil {
					bad("%s: declaration %s is missing from the model", p, name)
					return false
				}
				if !mode[0] {
					return true
				}
				for _, val := range vals {
					want := w.Accepts(t, val)
					err := b.Validate(val)
					r.Eval(1)
					if want != (err == nil) {
						bad("%s: declaration %s must %s %s, but Validate gave %s", p, name, map[bool]string{true: "accept", false: "reject"}[want], js(val), errText(err))
						return false
					}
				}
				return true
			}
			switch f := frag[p].(type) {
			case *raml.Library:
				if f.Types.Len() != len(mf.order) || f.AnnotationTypes.Len() != len(mf.aorder) {
					bad("%s: the model has %d types and %d annotation types", p, f.Types.Len(), f.AnnotationTypes.Len())
					return
				}
				for _, n := range mf.order {
					b, _ := f.Types.Get(n)
					if !cmp(n, b, mf.types[n].get()) {
						return
					}
					if x, err := f.GetReferenceType(n); err != nil || x != b {
						bad("%s: GetReferenceType(%s) does not give its declaration: %v", p, n, err)
						return
					}
				}
				for _, n := range mf.aorder {
					b, _ := f.AnnotationTypes.Get(n)
					if !cmp("annotation type "+n, b, mf.annots[n].get()) {
						return
					}
				}
				for al, t := range mf.uses {
					for _, n := range t.order {
						if mf.types[al+"."+n] != nil || strings.Contains(n, ".") {
							continue // a declaration of the file itself, or no name that can be written behind the prefix
						}
						b, _ := frag[t.path].(*raml.Library).Types.Get(n)
						if x, err := f.GetReferenceType(al + "." + n); err != nil || x != b {
							bad("%s: GetReferenceType(%s.%s) does not give the declaration of %s: %v", p, al, n, t.path, err)
							return
						}
					}
				}
			case *raml.DataType:
				if !cmp("root", f.Shape, mf.dt.get()) {
					return
				}
			}
		}
	}
	if len(v) > 0 {
		r.Class("rejected:" + cats(v))
	} else {
		r.Class("accepted")
	}
}

func c05case(d *DocSet, how string, vals []any) Case {
	return Case{Doc: d, Label: func() string { return how + "\n" + d.String() }, Run: func(r *Run) { c05check(r, d, how, vals) }}
}

// relPath spells the path from the directory of file "from" to "to".
func relPath(from, to string) string {
	p, err := filepath.Rel(path.Dir(from), to)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// spellings lists the relative paths with at most n directory steps that lead from a directory of the tree to a file.
// dirs are the existing directories (with "." for the root, all below the directory top, whose parent is only left again).
func spellings(from, to string, dirs []string, n int) []string {
	exists := map[string]bool{}
	for _, d := range dirs {
		exists[d] = true
	}
	names := map[string]bool{".": true, "..": true}
	for _, d := range dirs {
		names[path.Base(d)] = true
	}
	var out []string
	var rec func(at string, segs []string)
	rec = func(at string, segs []string) {
		if at == path.Dir(to) {
			out = append(out, strings.Join(append(append([]string{}, segs...), path.Base(to)), "/"))
		}
		if len(segs) == n {
			return
		}
		for _, s := range sortedKeys(names) {
			nx := path.Join(at, s)
			if at == "." && s == ".." || !exists[nx] {
				continue
			}
			rec(nx, append(append([]string{}, segs...), s))
		}
	}
	rec(path.Dir(from), nil)
	return out
}

var c05files = []string{"w/main.raml", "w/a/lib.raml", "w/b/lib.raml", "w/a/c/lib.raml"}

// refForm writes a reference.
func refForm(i int, ref string) any {
	switch i % 8 {
	case 0:
		return ref
	case 1:
		return M{{"type", ref}}
	case 2:
		return ref + "[]"
	case 3:
		return M{{"properties", M{{"p", ref}}}}
	case 4:
		return M{{"type", "array"}, {"items", M{{"type", ref}, {"description", "d"}}}}
	case 5:
		return "(" + ref + " | nil)"
	case 6:
		return M{{"type", l(ref)}, {"displayName", "d"}}
	}
	return M{{"type", "string"}, {"facets", M{{"ff?", M{{"type", ref}, {"enum", l("none")}}}}}}
}

func markValues(marks []string) []any {
	out := []any{nil, 1, []any{nil}}
	for _, m := range marks {
		out = append(out, m, []any{m}, map[string]any{"p": m})
	}
	return out
}

func genC05(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	n := len(c05files)
	vals := markValues(append([]string{"u"}, c05files...))
	mark := func(m string) M { return M{{"type", "string"}, {"enum", l(m)}} }
	refs := []string{"T", "U", "l.T", "l.U", "m.T", "m.U"}
	// every import graph: file i imports edge[i][0] as l and edge[i][1] as m (n: no such import)
	build := func(edges [][2]int, extra map[int]M, annot map[int]string) *DocSet {
		d := NewDocSet()
		for i, p := range c05files {
			var body, uses M
			for k, al := range []string{"l", "m"} {
				if t := edges[i][k]; t < n {
					uses = append(uses, KV{al, relPath(p, c05files[t])})
				}
			}
			if len(uses) > 0 {
				body = append(body, KV{"uses", uses})
			}
			ts, at := M{{"T", mark(p)}}, M{{"T", mark(p)}}
			if i%2 == 1 {
				ts = append(ts, KV{"U", mark("u")})
				at = append(at, KV{"V", mark("u")})
			}
			body = append(body, KV{"types", cat(extra[i], ts)}, KV{"annotationTypes", at})
			if a, ok := annot[i]; ok {
				t := p
				if s := strings.IndexByte(a, '.'); s >= 0 {
					t = c05files[edges[i][strings.Index("lm", a[:s])]]
				}
				body = append(body, KV{"(" + a + ")", t})
			}
			d.Lib(p, body)
		}
		return d
	}
	valid := func(edges [][2]int, i int, ref string) bool {
		t := i
		if s := strings.IndexByte(ref, '.'); s >= 0 {
			t = edges[i][strings.Index("lm", ref[:s])]
			ref = ref[s+1:]
		}
		return t < n && (ref == "T" || t%2 == 1)
	}
	count := 0
	var graphs func(i int, edges [][2]int)
	graphs = func(i int, edges [][2]int) {
		if i == n {
			e := append([][2]int{}, edges...)
			count++
			extra, annot := map[int]M{}, map[int]string{}
			k := count
			for f := 0; f < n; f++ {
				for _, ref := range refs {
					if valid(e, f, ref) {
						extra[f] = append(extra[f], KV{fmt.Sprintf("R%d", k), refForm(k, ref)})
						k++
						if strings.HasSuffix(ref, "T") && (annot[f] == "" || k%3 == 0) {
							annot[f] = ref
						}
					}
				}
			}
			emit(c05case(build(e, extra, annot), entryHows[count%len(entryHows)], vals))
			// names that are not visible, one at a time
			for f := 0; f < n; f++ {
				reach := reachable(e, f)
				for ri, ref := range append(append([]string{}, refs...), "l.l.T", "l.m.T", "x.T", "l.X", ".T", "l.") {
					if ri < len(refs) && valid(e, f, ref) || !reach {
						continue
					}
					if !thorough && (count+f+ri)%5 != 0 {
						continue
					}
					emit(c05case(build(e, map[int]M{f: {{"R", refForm((count+f)%7, ref)}}}, nil), "path", vals))
				}
			}
			return
		}
		for a := 0; a <= n; a++ {
			for b := 0; b <= n; b++ {
				if !thorough && i != 0 && b != n && (a+b+i)%3 != 0 {
					continue
				}
				if !thorough && i == 3 && b != n {
					continue
				}
				if thorough && i == 3 && b != n && b != 0 {
					continue
				}
				if a == n && b != n && b != 0 {
					continue // m without l is no different from l without m, but for one case
				}
				graphs(i+1, append(edges, [2]int{a, b}))
			}
		}
	}
	graphs(0, nil)
	c05dataTypes(thorough, emit)
	c05paths(thorough, emit)
	c05spaces(emit)
	c05dotted(emit)
}

// c05dotted: names with dots that a file declares itself, next to imports under the same prefix.
func c05dotted(emit func(Case)) {
	str := func(m string) M { return typed("string", M{{"enum", l(m)}}) }
	vals := l("main", "own", "lib", nil, 1)
	for mask := 0; mask < 64; mask++ {
		on := func(b int, m M) M {
			if mask&b != 0 {
				return m
			}
			return nil
		}
		for _, sec := range []string{"types", "annotationTypes"} {
			for f := 0; f < 8; f++ {
				for _, ref := range []string{"l.N", "k.N", "N", "l.Z"} {
					body := on(1, M{{"uses", M{{"l", "lib.raml"}}}})
					decls := cat(on(2, M{{"N", str("main")}}), on(4, M{{"l.N", str("own")}}), on(8, M{{"k.N", str("own")}}))
					ld := cat(on(16, M{{"N", str("lib")}}), on(32, M{{"l.N", str("own")}}), M{{"Z", str("lib")}})
					if sec == "types" {
						body = cat(body, M{{"types", cat(decls, M{{"R", refForm(f, ref)}})}})
					} else if f > 3 {
						continue
					} else {
						v := l("main", "own", "lib", "none")[f]
						at := M{{"type", "string"}, {"(" + ref + ")", v}}
						body = cat(body, M{{"annotationTypes", cat(decls, M{{"y", "string"}})}, {"types", M{{"R", at}}}})
					}
					emit(c05case(NewDocSet().Lib("main.raml", body).Lib("lib.raml", M{{"types", ld}, {"annotationTypes", ld}}), "path", vals))
				}
			}
		}
	}
}

// reachable tells whether file f is loaded from the entry file.
func reachable(e [][2]int, f int) bool {
	seen := map[int]bool{0: true}
	todo := []int{0}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		for _, t := range e[i] {
			if t < len(e) && !seen[t] {
				seen[t] = true
				todo = append(todo, t)
			}
		}
	}
	return seen[f]
}

// c05dataTypes enumerates data types that include each other and import libraries.
func c05dataTypes(thorough bool, emit func(Case)) {
	dts := []string{"w/d.raml", "w/a/d.raml", "w/b/d.raml"}
	forms := []func(inc Inc) any{
		func(i Inc) any { return i },
		func(i Inc) any { return M{{"type", i}} },
		func(i Inc) any { return M{{"type", "array"}, {"items", i}} },
		func(i Inc) any { return M{{"type", i}, {"description", "x"}} },
	}
	vals := []any{map[string]any{}, nil, "x"}
	for i := range dts {
		for _, k := range []string{dts[0], dts[1], dts[2], "w/l.raml", "w/b/l.raml"} {
			vals = append(vals, map[string]any{"k": k}, map[string]any{fmt.Sprintf("m%d", i): map[string]any{"k": k}}, map[string]any{fmt.Sprintf("m%d", i): []any{map[string]any{"k": k}}},
				map[string]any{"m1": map[string]any{fmt.Sprintf("m%d", i): map[string]any{"k": k}}}, map[string]any{"q": k}, map[string]any{"m1": map[string]any{"q": k}})
		}
	}
	nf := len(forms)
	max := 1 << 9
	for mask := 0; mask < max; mask++ {
		for fi := 0; fi < nf; fi++ {
			for use := 0; use < 4; use++ {
				if !thorough && (mask+fi+use)%4 != 0 {
					continue
				}
				d := NewDocSet()
				body := func(i int) M {
					p := dts[i]
					ps := M{{"k?", M{{"type", "string"}, {"enum", l(p)}}}}
					var uses M
					if use > 0 {
						lib := []string{"", "w/l.raml", "w/b/l.raml", []string{"w/l.raml", "w/b/l.raml", "w/l.raml"}[i]}[use]
						uses = M{{"uses", M{{"l", relPath(p, lib)}}}}
						ps = append(ps, KV{"q?", "l.L"})
					}
					for j := range dts {
						if mask&(1<<(3*i+j)) != 0 {
							ps = append(ps, KV{fmt.Sprintf("m%d?", j), forms[(fi+i+j)%nf](Inc(relPath(p, dts[j])))})
						}
					}
					return cat(uses, M{{"type", "object"}, {"properties", ps}, {"additionalProperties", false}})
				}
				d.Lib("w/main.raml", M{{"types", M{{"A", Inc("d.raml")}, {"B", M{{"type", Inc("a/d.raml")}}}, {"C", M{{"type", "object"}, {"properties", M{{"m2?", Inc("b/d.raml")}}}}}, {"d.raml", M{{"type", "nil"}}}}}})
				for i, p := range dts {
					d.DataType(p, body(i))
				}
				for _, lp := range []string{"w/l.raml", "w/b/l.raml"} {
					d.Lib(lp, M{{"types", M{{"L", M{{"type", "string"}, {"enum", l(lp)}}}}}})
				}
				emit(c05case(d, entryHows[(mask+fi)%len(entryHows)], vals))
				if fi == 0 {
					d2 := NewDocSet()
					for i, p := range dts {
						d2.DataType(p, body(i))
					}
					for _, lp := range []string{"w/l.raml", "w/b/l.raml"} {
						d2.Lib(lp, M{{"types", M{{"L", M{{"type", "string"}, {"enum", l(lp)}}}}}})
					}
					emit(c05case(d2, "path", vals))
				}
			}
		}
	}
}

// c05paths enumerates the spellings of paths for every kind of include.
func c05paths(thorough bool, emit func(Case)) {
	dirs := []string{".", "w", "w/a", "w/b", "w/a/c"}
	steps := 3
	if thorough {
		steps = 5
	}
	kinds := []string{"uses", "type", "type facet", "items", "property", "example", "default", "examples", "annotation", "facet", "enum item"}
	for _, from := range []string{"w/main.raml", "w/a/x.raml", "w/a/c/x.raml"} {
		for _, dir := range []string{"w", "w/a", "w/b", "w/a/c"} {
			for si, sp := range spellings(from, dir+"/t.raml", dirs, steps) {
				for ki, k := range kinds {
					if !thorough && ki > 1 && si%2 == 1 {
						continue
					}
					sp := sp
					plainSp := relPath(from, dir+"/t.raml")
					d := NewDocSet()
					var carrier M
					var fileKinds = "Library"
					str := M{{"type", "string"}, {"enum", l(dir)}}
					switch k {
					case "uses":
						carrier = M{{"uses", M{{"l", sp}, {"m", plainSp}, {"k", "./" + sp}}}, {"types", M{{"T", "l.T"}, {"S", "m.T"}, {"K", "k.T"}}}}
					case "type":
						fileKinds = "DataType"
						carrier = M{{"types", M{{"T", Inc(sp)}, {"S", Inc(plainSp)}}}}
					case "type facet":
						fileKinds = "DataType"
						carrier = M{{"types", M{{"T", M{{"type", Inc(sp)}}}, {"S", M{{"type", Inc(plainSp)}, {"maxLength", 9}}}}}}
					case "items":
						fileKinds = "DataType"
						carrier = M{{"types", M{{"T", M{{"items", Inc(sp)}}}, {"S", M{{"items", M{{"type", Inc(plainSp)}}}}}}}}
					case "property":
						fileKinds = "DataType"
						carrier = M{{"types", M{{"T", M{{"properties", M{{"p", Inc(sp)}, {"q?", Inc(plainSp)}}}}}}}}
					case "examples":
						fileKinds = "NamedExample"
						carrier = M{{"types", M{{"T", cat(str, M{{"examples", Inc(sp)}})}, {"S", cat(str, M{{"examples", Inc(plainSp)}})}}}}
					case "example", "default":
						fileKinds = "data"
						carrier = M{{"types", M{{"T", cat(str, M{{k, Inc(sp)}})}, {"S", M{{"properties", M{{"p?", cat(str, M{{k, Inc(plainSp)}})}}}}}}}}
					case "annotation":
						fileKinds = "data"
						carrier = M{{"annotationTypes", M{{"an", str}}}, {"types", M{{"T", M{{"(an)", Inc(sp)}}}}}, {"(an)", Inc(plainSp)}}
					case "facet":
						fileKinds = "data"
						carrier = M{{"types", M{{"P", M{{"type", "string"}, {"facets", M{{"ff", str}}}}}, {"T", M{{"type", "P"}, {"ff", Inc(sp)}}}}}}
					case "enum item":
						fileKinds = "data"
						carrier = M{{"types", M{{"T", M{{"type", "string"}, {"enum", l("x", Inc(sp))}}}}}}
					}
					if from != "w/main.raml" {
						d.Lib("w/main.raml", M{{"uses", M{{"x", relPath("w/main.raml", from)}}}})
					}
					d.Lib(from, carrier)
					// a target in every directory, each different
					for _, td := range []string{"w", "w/a", "w/b", "w/a/c"} {
						ts := M{{"type", "string"}, {"enum", l(td)}}
						switch fileKinds {
						case "Library":
							d.Lib(td+"/t.raml", M{{"types", M{{"T", ts}}}})
						case "DataType":
							d.DataType(td+"/t.raml", ts)
						case "NamedExample":
							d.Example(td+"/t.raml", M{{"e", td}})
						case "data":
							d.Raw(td+"/t.raml", td)
						}
					}
					var vals []any
					for _, td := range []string{"w", "w/a", "w/b", "w/a/c", "x"} {
						vals = append(vals, td, []any{td}, map[string]any{"p": td}, map[string]any{"p": "w/b", "q": td})
					}
					emit(c05case(d, entryHows[(si+ki)%len(entryHows)], vals))
				}
			}
		}
	}
	// the entry file under every way of naming it, reached again from the files that it imports
	for _, how := range entryHows {
		for _, back := range spellings("w/a/x.raml", "w/main.raml", dirs, steps+1) {
			for _, fwd := range spellings("w/main.raml", "w/a/x.raml", dirs, 3) {
				d := NewDocSet().Lib("w/main.raml", M{{"uses", M{{"x", fwd}}}, {"types", M{{"T", typed("string", M{{"enum", l("main")}})}, {"Q", "x.B"}}}}).
					Lib("w/a/x.raml", M{{"uses", M{{"m", back}}}, {"types", M{{"B", "m.T"}, {"T", "nil"}}}})
				emit(c05case(d, how, l("main", nil)))
			}
		}
	}
}

// c05spaces covers names that exist in several name spaces, and references to what is not a declaration of the right kind.
func c05spaces(emit func(Case)) {
	str := func(m string) M { return typed("string", M{{"enum", l(m)}}) }
	vals := l("main", "lib", "ann", "dt", nil, 1)
	for _, ref := range []string{"N", "l.N", "l", "Q", "l.Q", "dt", "dt.raml", "N.N", "l.l"} {
		for mask := 0; mask < 16; mask++ {
			for f := 0; f < 7; f++ {
				var mt, ma, lt, la M
				if mask&1 != 0 {
					mt = append(mt, KV{"N", str("main")})
				}
				if mask&2 != 0 {
					ma = append(ma, KV{"N", str("ann")})
				}
				if mask&4 != 0 {
					lt = append(lt, KV{"N", str("lib")})
				}
				if mask&8 != 0 {
					la = append(la, KV{"N", str("ann")}, KV{"Q", str("ann")})
				}
				body := M{{"uses", M{{"l", "lib.raml"}}}, {"annotationTypes", cat(ma, M{{"a", "string"}})}, {"types", cat(mt, M{{"l", str("main")}, {"D", Inc("dt.raml")}, {"R", refForm(f, ref)}})}}
				d := NewDocSet().Lib("main.raml", body).Lib("lib.raml", M{{"types", cat(lt, M{{"Z", "nil"}})}, {"annotationTypes", cat(la, M{{"Z", "nil"}})}}).DataType("dt.raml", str("dt"))
				emit(c05case(d, "path", vals))
				// the reference in an annotation type
				if f < 3 {
					b2 := M{{"uses", M{{"l", "lib.raml"}}}, {"annotationTypes", cat(ma, M{{"R", refForm(f, ref)}})}, {"types", cat(mt, M{{"l", str("main")}})}}
					emit(c05case(NewDocSet().Lib("main.raml", b2).Lib("lib.raml", M{{"types", cat(lt, M{{"Z", "nil"}})}, {"annotationTypes", cat(la, M{{"Z", "nil"}})}}), "path", vals))
				}
			}
		}
	}
	// a file of one kind where another is wanted, and files that do not exist
	inc := []struct {
		name string
		mk   func(p string) M
	}{
		{"uses", func(p string) M { return M{{"uses", M{{"l", p}}}} }},
		{"type", func(p string) M { return M{{"types", M{{"T", Inc(p)}}}} }},
		{"property", func(p string) M { return M{{"types", M{{"T", M{{"properties", M{{"a?", M{{"type", Inc(p)}}}}}}}}}} }},
		{"items", func(p string) M { return M{{"types", M{{"T", M{{"items", Inc(p)}}}}}} }},
		{"annotation type", func(p string) M { return M{{"annotationTypes", M{{"T", Inc(p)}}}} }},
		{"facet definition", func(p string) M { return M{{"types", M{{"T", M{{"facets", M{{"ff", Inc(p)}}}}}}}} }},
		{"examples", func(p string) M { return M{{"types", M{{"T", M{{"examples", Inc(p)}}}}}} }},
	}
	for _, a := range inc {
		for _, p := range []string{"a/l.raml", "a/d.raml", "a/n.raml", "a/none.raml", "none/l.raml"} {
			d := NewDocSet().Lib("main.raml", a.mk(p))
			files := func(d *DocSet) *DocSet {
				return d.Lib("a/l.raml", M{{"types", M{{"T", "string"}}}}).DataType("a/d.raml", M{{"type", "string"}}).Example("a/n.raml", M{{"e", "x"}})
			}
			emit(c05case(files(d), "path", vals))
			// the same file a second time, as what it is
			for _, b := range inc[:2] {
				for _, q := range []string{"a/l.raml", "a/d.raml"} {
					if b.name == a.name {
						continue
					}
					emit(c05case(files(NewDocSet().Lib("main.raml", cat(b.mk(q), M{{"usage", "x"}})).Lib("x.raml", a.mk(p))), "path", vals))
					emit(c05case(files(NewDocSet().Lib("main.raml", cat(M{{"uses", M{{"x", "x.raml"}, {"y", "y.raml"}}}})).Lib("x.raml", a.mk(p)).Lib("y.raml", b.mk(q))), "path", vals))
				}
			}
		}
	}
}
