package main

// C25: every part of a model says in which file, line and column it was written.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"gopkg.in/yaml.v3"
)

// posWalk compares the positions in a model with the nodes of the files.
type posWalk struct {
	r       *Run
	dir     string
	roots   map[string]*yaml.Node
	at      map[string]map[[2]int]map[string]bool // file -> line, column -> keys of the values that begin there
	unwrap  bool
	bad     string
	done    map[any]bool
	isDT    map[string]bool
	n       int64
	badWhat string
}

func (w *posWalk) fail(what, f string, a ...any) {
	if w.bad == "" {
		w.bad, w.badWhat = fmt.Sprintf(f, a...), what
	}
}

func (w *posWalk) rel(loc string) string {
	if x, err := filepath.Rel(w.dir, loc); err == nil && !strings.HasPrefix(x, "..") {
		return x
	}
	return loc
}

// root parses a file on its own.
func (w *posWalk) root(loc string) *yaml.Node {
	if n, ok := w.roots[loc]; ok {
		return n
	}
	w.roots[loc] = nil
	b, err := os.ReadFile(loc)
	if err != nil {
		return nil
	}
	var doc yaml.Node
	if yaml.Unmarshal(b, &doc) != nil || len(doc.Content) == 0 {
		return nil
	}
	w.roots[loc] = doc.Content[0]
	w.isDT[loc] = strings.HasPrefix(string(b), "#%RAML 1.0 DataType")
	at := map[[2]int]map[string]bool{}
	add := func(n *yaml.Node, key string) {
		k := [2]int{n.Line, n.Column}
		if at[k] == nil {
			at[k] = map[string]bool{}
		}
		at[k][key] = true
	}
	var visit func(n *yaml.Node)
	visit = func(n *yaml.Node) {
		if n.Kind == yaml.MappingNode {
			for i := 0; i+1 < len(n.Content); i += 2 {
				add(n.Content[i], "key "+n.Content[i].Value)
				add(n.Content[i+1], n.Content[i].Value)
				visit(n.Content[i+1])
			}
			return
		}
		for _, c := range n.Content {
			add(c, "")
			visit(c)
		}
	}
	add(doc.Content[0], "")
	visit(doc.Content[0])
	w.at[loc] = at
	return doc.Content[0]
}

func (w *posWalk) is(what, loc string, line, col int, wantLoc string, n *yaml.Node) {
	w.n++
	if loc != wantLoc || line != n.Line || col != n.Column {
		w.fail(what, "%s is at %s:%d:%d, written at %s:%d:%d", what, w.rel(loc), line, col, w.rel(wantLoc), n.Line, n.Column)
	}
}

func member(n *yaml.Node, key string) *yaml.Node {
	if n != nil && n.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			if n.Content[i].Value == key {
				return n.Content[i+1]
			}
		}
	}
	return nil
}

func pairs(n *yaml.Node, f func(k, v *yaml.Node)) {
	if n != nil && n.Kind == yaml.MappingNode {
		for i := 0; i+1 < len(n.Content); i += 2 {
			f(n.Content[i], n.Content[i+1])
		}
	}
}

// data checks a value, which is either written in place or included.
func (w *posWalk) data(what string, d *raml.Node, file string, n *yaml.Node) {
	if d == nil {
		w.fail(what, "%s is missing", what)
		return
	}
	if n.Tag == "!include" {
		w.n++
		if want := filepath.Join(filepath.Dir(file), n.Value); d.Location != want || d.Line != 1 || d.Column != 1 {
			w.fail(what, "%s is at %s:%d:%d, included from %s", what, w.rel(d.Location), d.Line, d.Column, w.rel(want))
		}
		return
	}
	w.is(what, d.Location, d.Line, d.Column, file, n)
}

func (w *posWalk) uses(what, file string, n *yaml.Node, get func(string) (*raml.LibraryLink, bool)) {
	pairs(member(n, "uses"), func(k, v *yaml.Node) {
		u, ok := get(k.Value)
		if !ok {
			w.fail("uses", "the library %s of %s is missing", k.Value, w.rel(file))
			return
		}
		w.is("the use "+k.Value, u.Location, u.Line, u.Column, file, v)
		if u.Link != nil {
			w.library(u.Link, filepath.Join(filepath.Dir(file), v.Value))
		}
	})
}

func (w *posWalk) library(l *raml.Library, file string) {
	if w.done[l] {
		return
	}
	w.done[l] = true
	root := w.root(file)
	if l.Location != file || root == nil {
		w.fail("library", "the library of %s says %s", w.rel(file), w.rel(l.Location))
		return
	}
	w.uses("uses", file, root, func(k string) (*raml.LibraryLink, bool) { return l.Uses.Get(k) })
	pairs(member(root, "types"), func(k, v *yaml.Node) {
		b, ok := l.Types.Get(k.Value)
		if !ok {
			w.fail("types", "type %s is missing", k.Value)
			return
		}
		w.shape("type "+k.Value, b, file, v)
	})
	pairs(member(root, "annotationTypes"), func(k, v *yaml.Node) {
		b, ok := l.AnnotationTypes.Get(k.Value)
		if !ok {
			w.fail("annotation types", "annotation type %s is missing", k.Value)
			return
		}
		w.shape("annotation type "+k.Value, b, file, v)
	})
	w.annotations("library", file, root, func(k string) (*raml.DomainExtension, bool) { return l.CustomDomainProperties.Get(k) })
}

func (w *posWalk) dataType(dt *raml.DataType, file string) {
	if w.done[dt] {
		return
	}
	w.done[dt] = true
	if dt.Location != file {
		w.fail("data type", "the data type of %s says %s", w.rel(file), w.rel(dt.Location))
		return
	}
	root := w.root(file)
	if root == nil || strings.HasSuffix(file, ".json") {
		if dt.Shape.Location != file {
			w.fail("data type", "the type of %s says %s", w.rel(file), w.rel(dt.Shape.Location))
		}
		return
	}
	w.uses("uses", file, root, func(k string) (*raml.LibraryLink, bool) { return dt.Uses.Get(k) })
	w.shape("data type "+w.rel(file), dt.Shape, file, root)
}

func (w *posWalk) annotations(what, file string, n *yaml.Node, get func(string) (*raml.DomainExtension, bool)) {
	pairs(n, func(k, v *yaml.Node) {
		if len(k.Value) < 2 || k.Value[0] != '(' || k.Value[len(k.Value)-1] != ')' {
			return
		}
		a, ok := get(k.Value[1 : len(k.Value)-1])
		if !ok {
			w.fail("annotation", "annotation %s of %s is missing", k.Value, what)
			return
		}
		w.is("annotation", a.Location, a.Line, a.Column, file, k)
		w.data("annotation value", a.Extension, file, v)
	})
}

func (w *posWalk) example(what string, e *raml.Example, file string, n *yaml.Node) {
	if e == nil {
		w.fail(what, "%s is missing", what)
		return
	}
	w.is(what, e.Location, e.Line, e.Column, file, n)
	v := n
	if x := member(n, "value"); x != nil {
		v = x
		w.annotations(what, file, n, func(k string) (*raml.DomainExtension, bool) { return e.CustomDomainProperties.Get(k) })
	}
	w.data(what+" data", e.Data, file, v)
}

// named finds the declared member of a table; key is as written.
func named[V any](get func(string) (V, bool), key string, v *yaml.Node) (V, bool) {
	if strings.HasSuffix(key, "?") {
		if r := member(v, "required"); r == nil {
			return get(strings.TrimSuffix(key, "?"))
		}
	}
	p, ok := get(key)
	if !ok {
		p, ok = get(strings.TrimSuffix(key, "?"))
	}
	return p, ok
}

func (w *posWalk) shape(what string, b *raml.BaseShape, file string, n *yaml.Node) {
	if b == nil {
		w.fail(what, "%s is missing", what)
		return
	}
	if n != w.root(file) || b.Line != 1 { // a data type that is a file begins with the file
		w.is(what, b.Location, b.Line, b.Column, file, n)
	}
	if _, ok := b.Shape.(*raml.RecursiveShape); ok {
		return
	}
	t := n
	if n.Kind == yaml.MappingNode {
		t = member(n, "type")
	}
	alias := n.Kind != yaml.MappingNode
	if t != nil {
		w.typeOf(what, b, file, n, t)
	}
	if alias {
		return
	}
	pairs(n, func(k, v *yaml.Node) {
		switch k.Value {
		case "type", "displayName", "description", "required":
		case "example":
			w.example(what+": example", b.Example, file, v)
		case "examples":
			if b.Examples == nil {
				w.fail(what, "the examples of %s are missing", what)
				return
			}
			if b.Examples.Location != file {
				w.fail(what, "the examples of %s are in %s", what, b.Examples.Location)
			}
			from, en := file, v
			if v.Tag == "!include" {
				from = filepath.Join(filepath.Dir(file), v.Value)
				if en = w.root(from); en == nil {
					return
				}
				if b.Examples.Link == nil || b.Examples.Link.Location != from {
					w.fail(what, "the examples of %s are not linked", what)
				}
			}
			pairs(en, func(ek, ev *yaml.Node) {
				e, _ := b.Examples.Map.Get(ek.Value)
				w.example(what+": example "+ek.Value, e, from, ev)
			})
		case "default":
			w.data(what+": default", b.Default, file, v)
		case "facets":
			pairs(v, func(fk, fv *yaml.Node) {
				if p, ok := named(b.CustomShapeFacetDefinitions.Get, fk.Value, fv); ok {
					w.shape(what+": facet "+fk.Value, p.Base, file, fv)
				} else if !w.unwrap || !strings.Contains(what, ": facet") {
					w.fail(what, "facet %s of %s is missing", fk.Value, what)
				}
			})
		case "items":
			if a, ok := b.Shape.(*raml.ArrayShape); ok {
				w.shape(what+": items", a.Items, file, v)
			}
		case "properties":
			o, ok := b.Shape.(*raml.ObjectShape)
			if !ok {
				return
			}
			pairs(v, func(pk, pv *yaml.Node) {
				if l := len(pk.Value); l >= 2 && pk.Value[0] == '/' && pk.Value[l-1] == '/' {
					if p, ok := o.PatternProperties.Get(pk.Value); ok {
						w.shape(what+": pattern "+pk.Value, p.Base, file, pv)
						return
					}
				}
				if o.Properties == nil {
					w.fail(what, "%s has no properties", what)
				} else if p, ok := named(o.Properties.Get, pk.Value, pv); ok {
					w.shape(what+": property "+pk.Value, p.Base, file, pv)
				} else {
					w.fail(what, "property %s of %s is missing", pk.Value, what)
				}
			})
		case "enum":
			if v.Kind != yaml.SequenceNode {
				return
			}
			f := reflect.ValueOf(b.Shape).Elem().FieldByName("Enum")
			if !f.IsValid() {
				return
			}
			en, _ := f.Interface().(raml.Nodes)
			if len(en) == len(v.Content) {
				for i, x := range v.Content {
					w.data(what+": enum", en[i], file, x)
				}
			}
		default:
			if c, ok := b.CustomShapeFacets.Get(k.Value); ok {
				w.data(what+": custom facet", c, file, v)
			}
		}
	})
	w.annotations(what, file, n, func(k string) (*raml.DomainExtension, bool) { return b.CustomDomainProperties.Get(k) })
}

// typeOf checks what a type node leads to.
func (w *posWalk) typeOf(what string, b *raml.BaseShape, file string, n, t *yaml.Node) {
	switch {
	case t.Tag == "!include":
		if b.Link == nil {
			if !w.unwrap {
				w.fail(what, "the data type of %s is not linked", what)
			}
			return
		}
		w.dataType(b.Link, filepath.Join(filepath.Dir(file), t.Value))
	case t.Kind == yaml.SequenceNode:
		if len(b.Inherits) == len(t.Content) {
			for i, x := range t.Content {
				w.shape(what+": parent", b.Inherits[i], file, x)
			}
		} else if !w.unwrap && len(t.Content) > 1 {
			w.fail(what, "%s has %d parents", what, len(b.Inherits))
		}
	case t.Kind == yaml.MappingNode:
		if len(b.Inherits) == 1 {
			w.shape(what+": inline parent", b.Inherits[0], file, t)
		} else if !w.unwrap {
			w.fail(what, "%s has %d parents", what, len(b.Inherits))
		}
	case !w.unwrap && strings.ContainsAny(t.Value, "[]|?()") && !strings.HasPrefix(strings.TrimSpace(t.Value), "{"):
		w.parts(what, b, file, n, 0)
	}
}

// parts checks the anonymous parts of a type expression: they are where the declaration is.
func (w *posWalk) parts(what string, b *raml.BaseShape, file string, n *yaml.Node, depth int) {
	if depth > 6 || b.Alias != nil || len(b.Inherits) > 0 {
		return
	}
	sub := func(p *raml.BaseShape) {
		if p != nil && p.Name == "" {
			if n != w.root(file) || p.Line != 1 {
				w.is(what+": part of the expression", p.Location, p.Line, p.Column, file, n)
			}
			w.parts(what, p, file, n, depth+1)
		}
	}
	switch x := b.Shape.(type) {
	case *raml.ArrayShape:
		if n.Kind == yaml.MappingNode && member(n, "items") != nil && depth == 0 {
			return
		}
		sub(x.Items)
	case *raml.UnionShape:
		for _, m := range x.AnyOf {
			sub(m)
		}
	}
}

// all checks that every part of the model is at a place where something of its name is written.
func (w *posWalk) all(rm *raml.RAML) {
	x := newDumper()
	x.whole = true
	x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	for _, b := range rm.GetShapes() {
		x.val(reflect.ValueOf(b), "shapes")
	}
	check := func(what, name, loc string, line, col int) {
		w.n++
		if root := w.root(loc); name == "" && line == 1 && col == 0 && root != nil && w.isDT[loc] {
			return
		}
		if w.root(loc) == nil || strings.HasSuffix(loc, ".json") {
			return
		}
		if name == filepath.Base(loc) && line == 1 {
			return
		}
		keys := w.at[loc][[2]int{line, col}]
		if keys == nil {
			w.fail(what, "%s is at %s:%d:%d, where nothing begins", what, w.rel(loc), line, col)
			return
		}
		if name != "" && !keys[name] && !keys[name+"?"] && !keys["/"+name+"/"] && !keys[""] && name != filepath.Base(loc) {
			w.fail(what, "%s is at %s:%d:%d, where %v is written", what, w.rel(loc), line, col, keys)
		}
	}
	if w.bad != "" {
		return
	}
	var first, firstWhat string
	for p := range x.objs {
		if b, ok := p.(*raml.BaseShape); ok {
			name := b.Name
			check(fmt.Sprintf("%s (%s)", b.Name, b.Type), name, b.Location, b.Line, b.Column)
			if w.bad != "" && (first == "" || w.bad < first) { // the objects come in no particular order
				first, firstWhat = w.bad, w.badWhat
			}
			w.bad = ""
		}
	}
	w.bad, w.badWhat = first, firstWhat
	for _, a := range rm.GetAllAnnotationsPtr() {
		check("annotation "+a.Name, "key ("+a.Name+")", a.Location, a.Line, a.Column)
	}
}

// layouts25 are notations that move the parts of a file about.
var layouts25 = []struct {
	name  string
	unit  int
	every string
	flow  bool
	file  func(h, b string) string
}{
	{"block", 2, "", false, nil},
	{"block, indented by 5", 5, "", false, nil},
	{"flow", 2, "flow", false, nil},
	{"quoted", 2, "'", false, nil},
	{"explicit keys", 2, "?", false, nil},
	{"split over lines", 3, "split", false, nil},
	{"literal texts", 2, "lit", false, nil},
	{"comments", 2, "comment", false, nil},
	{"lists not indented", 2, "seq0", false, nil},
	{"tags", 2, "!!map", false, nil},
	{"blank lines", 2, "", false, func(h, b string) string { return h + "\n# comment\n\n" + b }},
	{"CRLF", 2, "", false, func(h, b string) string { return strings.ReplaceAll(h+b, "\n", "\r\n") }},
	{"document marker", 2, "", false, func(h, b string) string { return h + "---\n" + b + "...\n" }},
}

// subjects25 are declarations with everything that has a position.
func subjects25() []subject {
	obj := M{{"type", "object"}, {"properties", M{{"a", M{{"type", "string"}, {"enum", l("x", "y")}, {"default", "x"}}}, {"b?", "integer[]"}, {"/^q/", M{{"items", M{{"type", "number"}, {"example", 1.5}}}}}}},
		{"examples", M{{"one", M{{"a", "x"}}}, {"two", M{{"value", M{{"a", "y"}, {"b", l(1)}}}, {"strict", false}}}}}, {"default", M{{"a", "x"}}}}
	base := M{{"Hb", M{{"type", "object"}, {"facets", M{{"cf?", M{{"type", "integer"}, {"default", 4}}}, {"cg?", "any"}}}, {"properties", M{{"i", M{{"type", "string"}, {"example", "e"}}}, {"j?", M{{"items", "string"}}}}}}},
		{"Hc", M{{"type", "object"}, {"properties", M{{"k?", M{{"type", "integer"}, {"enum", l(1, 2)}}}}}}}}
	return []subject{
		plain("object", obj),
		plain("array", M{{"type", "array"}, {"items", M{{"type", "integer"}, {"enum", l(1, 2)}, {"example", 1}}}, {"example", l(1, 2)}, {"default", l()}}),
		plain("expression", M{{"type", "(string | integer[])[]"}, {"example", l("a", l(1))}}),
		plain("optional", "string?"),
		plain("json", `{"type": "integer"}`),
		childOf("child", base, func(ref func(string) string) any {
			return M{{"type", ref("Hb")}, {"cf", 7}, {"cg", M{{"x", l(1)}}}, {"properties", M{{"i", M{{"maxLength", 5}, {"default", "z"}}}, {"n?", "boolean"}}}, {"example", M{{"i", "e"}}}}
		}),
		childOf("child of two", base, func(ref func(string) string) any {
			return M{{"type", l(ref("Hb"), ref("Hc"))}, {"cf", 7}, {"properties", M{{"k?", M{{"maximum", 9}}}}}, {"examples", M{{"e", M{{"i", "v"}}}}}}
		}),
		childOf("child of an inline type", base, func(ref func(string) string) any {
			return M{{"type", M{{"type", ref("Hb")}, {"description", "in"}, {"cf", 1}}}, {"properties", M{{"z?", "nil"}}}}
		}),
		childOf("union", base, func(ref func(string) string) any { return ref("Hb") + " | " + ref("Hc") + "[]" }),
	}
}

func c25case(emit func(Case), d *DocSet, level int) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		for p := range d.Body {
			os.MkdirAll(filepath.Dir(filepath.Join(r.Dir, p)), 0o755)
		}
		try := func(o *DocSet, what string) bool {
			o.Files().Write(r.Dir)
			for _, stage := range [][2]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
				rm, err := o.Parse24(r.Dir, stage[0], stage[1])
				if err != nil {
					r.Class("refused")
					continue
				}
				r.Eval(1)
				w := &posWalk{r: r, dir: r.Dir, roots: map[string]*yaml.Node{}, at: map[string]map[[2]int]map[string]bool{}, unwrap: stage[0], done: map[any]bool{}, isDT: map[string]bool{}}
				entry := filepath.Join(r.Dir, o.Entry)
				switch f := rm.EntryPoint().(type) {
				case *raml.Library:
					w.library(f, entry)
				case *raml.DataType:
					w.dataType(f, entry)
				}
				w.all(rm)
				r.Note("positions", w.n)
				r.Class(fmt.Sprintf("%s unwrapped=%v", what, stage[0]))
				if w.bad != "" {
					r.Fail(sigOf(o, w.badWhat), fmt.Sprintf("[%s, unwrap=%v validate=%v] %s\n%s", what, stage[0], stage[1], w.bad, o.String()), "")
					return false
				}
			}
			return true
		}
		if !try(d, "as written") || level == 0 {
			return
		}
		for _, l := range layouts25 {
			o := d
			for _, p := range d.Paths {
				h := headerOf(d.Kind[p])
				if h == "" && d.Kind[p] != "Yaml" {
					continue
				}
				var every func(v any, isKey, inFlow bool) string
				if l.every != "" {
					every = func(v any, isKey, inFlow bool) string {
						if isKey && l.every == "lit" {
							return ""
						}
						return l.every
					}
				}
				text := h + render22(d.Body[p], l.unit, nil, every)
				if l.file != nil {
					text = l.file(h, render22(d.Body[p], l.unit, nil, every))
				}
				o = withText(o, p, text)
			}
			if !try(o, l.name) {
				return
			}
		}
	}})
}

func init() {
	register(&Check{ID: "C25", Level: "model_checking",
		Rule:        "every document set of the corpora and of the wrapped subjects x file layouts (block, flow, indentation, quoting, explicit keys, split and literal texts, comments, blank lines, CRLF) x the four option combinations: file, line and column of every declared type, member, item, facet, example, default, enum value, custom facet, annotation, library use and part of an expression against the node of the file it stands for, and of every other reachable shape against some node of its name",
		Assumptions: []string{"the YAML library's line and column of a node are right", "values that are included from a file are at the file's beginning; parts of an expression are where its declaration is"},
		Gen: func(tier string, emit func(Case)) {
			seen := map[uint64]bool{}
			once := func(d *DocSet, level int) {
				if h := hash64(d.String()); !seen[h] {
					seen[h] = true
					c25case(emit, d, level)
				}
			}
			notationDocs(func(d *DocSet) { once(d, 1) })
			depth := 1
			if tier == "thorough" {
				depth = 3
			}
			for _, pl := range places {
				for _, c := range wrapChains(depth) {
					for _, s := range subjects25() {
						if d := pl.mk(s, c); len(c) < 2 {
							once(d, 1)
						} else {
							once(d, 0)
						}
					}
				}
			}
			genMulti(tier, func(d *DocSet, _ []string) { once(d, 1) })
			genCorpus(tier, func(d *DocSet, _ []string) { once(d, 1) })
		}})
}
