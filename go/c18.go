package main

// C18: errors point at the file and line of the offending construct.

import (
	"errors"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
	"github.com/acronis/go-stacktrace"
)

func init() {
	register(&Check{ID: "C18", Level: "model_checking",
		Rule:        "every kind of offending construct in every place (nesting of members up to the depth bound x kind of file), in every layout of the files (offsets of the lines of each file, members before and after), every set of up to three independent offending types in one or several files, parsed with all four option combinations; the entries of the reported error are compared with the lines on which the renderer wrote the construct and the declaration that carries it, and every reported position with the extent of its file",
		Assumptions: []string{"one offending construct per document unless several top-level types are combined", "documents are well-formed YAML"},
		Gen:         genC18})
}

// Marks in the bodies of a document set: carrier marks a mapping as the declaration that carries the offending
// construct, off prefixes the key of the construct, Off wraps a value that is both. The label tells constructs apart.
const (
	carrierMark = "\x00"
	offMark     = "\x01"
)

type Off struct {
	label string
	v     any
}

// spanSet maps label -> file -> allowed lines.
type spanSet map[string]map[string]map[int]bool

func (s spanSet) add(label, file string, from, to int) {
	if s[label] == nil {
		s[label] = map[string]map[int]bool{}
	}
	if s[label][file] == nil {
		s[label][file] = map[int]bool{}
	}
	for i := from; i <= to; i++ {
		s[label][file][i] = true
	}
}

type layout struct {
	name string
	// blank lines after the header of the entry file and of the other files, lines between the members of a mapping
	lead, leadOther, gap int
	flowDepth            int // depth from which the text is flow style
}

var layouts = []layout{
	{"block", 0, 0, 0, 99},
	{"shifted entry", 40, 0, 0, 99},
	{"shifted others", 0, 40, 1, 99},
	{"sparse", 2, 5, 2, 99},
	{"flow from depth 3", 1, 7, 1, 3},
	{"flow from depth 2", 3, 1, 0, 2},
}

type rend struct {
	b     strings.Builder
	line  int
	file  string
	kind  string
	spans spanSet
	lay   layout
}

func (r *rend) w(s string) {
	r.b.WriteString(s)
	r.line += strings.Count(s, "\n")
}

// marksIn lists the labels of the marks within a value; carriers tells whether they are carriers or constructs.
func marksIn(v any, f func(label string)) {
	switch x := v.(type) {
	case Off:
		f(x.label)
		marksIn(x.v, f)
	case M:
		for _, e := range x {
			if strings.HasPrefix(e.K, carrierMark) {
				f(e.K[1:])
			} else if strings.HasPrefix(e.K, offMark) {
				f(strings.SplitN(e.K[1:], offMark, 2)[0])
			}
			marksIn(e.V, f)
		}
	case []any:
		for _, e := range x {
			marksIn(e, f)
		}
	}
}

func stripMarks(v any) any {
	switch x := v.(type) {
	case Off:
		return stripMarks(x.v)
	case M:
		out := M{}
		for _, e := range x {
			if strings.HasPrefix(e.K, carrierMark) {
				continue
			}
			k := e.K
			if strings.HasPrefix(k, offMark) {
				k = strings.SplitN(k[1:], offMark, 2)[1]
			}
			out = append(out, KV{k, stripMarks(e.V)})
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = stripMarks(e)
		}
		return out
	}
	return v
}

// value renders a value that belongs to a key on keyLine.
func (r *rend) value(v any, ind, depth, keyLine int) {
	if o, ok := v.(Off); ok {
		start := keyLine
		r.value(o.v, ind, depth, keyLine)
		r.spans.add(o.label, r.file, start, r.line)
		return
	}
	m, ok := v.(M)
	if !ok || depth >= r.lay.flowDepth || len(stripMarks(m).(M)) == 0 {
		marksIn(v, func(label string) { r.spans.add(label, r.file, keyLine, r.line) })
		r.w(flow(stripMarks(v)))
		return
	}
	r.members(m, ind, depth, keyLine, func() { r.w("\n") })
}

// members renders a mapping in block style; nl starts a line.
func (r *rend) members(m M, ind, depth, keyLine int, nl func()) {
	first := true
	for _, e := range m {
		if strings.HasPrefix(e.K, carrierMark) {
			continue
		}
		nl()
		if !first {
			for i := 0; i < r.lay.gap; i++ {
				r.w("\n")
			}
		}
		k, label := e.K, ""
		if strings.HasPrefix(k, offMark) {
			p := strings.SplitN(k[1:], offMark, 2)
			label, k = p[0], p[1]
		}
		if first {
			for _, c := range m {
				if strings.HasPrefix(c.K, carrierMark) {
					if ind == 0 && r.kind == "DataType" {
						// the data type is declared by the first line of its file
						r.spans.add(c.K[1:], r.file, 1, 1)
					}
					if keyLine > 0 {
						r.spans.add(c.K[1:], r.file, keyLine, keyLine)
					}
					r.spans.add(c.K[1:], r.file, r.line, r.line)
				}
			}
			first = false
		}
		start := r.line
		if o, ok := e.V.(Off); ok && ind == 0 && r.kind == "DataType" {
			r.spans.add(o.label, r.file, 1, 1)
		}
		if ind == 0 {
			r.w(k + ": ")
		} else {
			r.w(strings.Repeat("  ", ind) + quote(k) + ": ")
		}
		r.value(e.V, ind+1, depth+1, start)
		if label != "" {
			r.spans.add(label, r.file, start, r.line)
		}
	}
}

// render writes the files of a set in a layout and tells where the marked constructs are.
func render(d *DocSet, lay layout) (Files, spanSet) {
	spans := spanSet{}
	fs := Files{}
	for _, p := range d.Paths {
		if d.Kind[p] == "raw" {
			fs[p] = d.Text[p]
			// raw text that carries a mark on its first line
			if strings.HasPrefix(d.Text[p], offMark) {
				t := strings.SplitN(d.Text[p][1:], offMark, 2)
				fs[p] = t[1]
				spans.add(t[0], p, 1, strings.Count(t[1], "\n")+1)
			}
			continue
		}
		r := &rend{line: 1, file: p, kind: d.Kind[p], spans: spans, lay: lay}
		r.w(map[string]string{"Library": hdrLib, "DataType": hdrDT, "NamedExample": hdrNE}[d.Kind[p]])
		n := lay.lead
		if p != d.Entry {
			n = lay.leadOther
		}
		for i := 0; i < n; i++ {
			r.w("# line\n")
		}
		firstNL := true
		r.members(d.Body[p], 0, 0, 0, func() {
			if !firstNL {
				r.w("\n")
			}
			firstNL = false
		})
		r.w("\n")
		fs[p] = r.b.String()
	}
	return fs, spans
}

type posEntry struct {
	file      string
	line, col int
	hasPos    bool
	msg       string
}

func entriesOf(st *stacktrace.StackTrace) []posEntry {
	var out []posEntry
	seen := map[*stacktrace.StackTrace]bool{}
	var walk func(s *stacktrace.StackTrace)
	walk = func(s *stacktrace.StackTrace) {
		if s == nil || seen[s] {
			return
		}
		seen[s] = true
		e := posEntry{msg: s.Message}
		if s.Location != nil {
			e.file = s.Location.String()
		}
		// the library takes a position without a line for no position
		if s.Position != nil && s.Position.Line != 0 {
			e.hasPos, e.line, e.col = true, s.Position.Line, s.Position.Column
		}
		out = append(out, e)
		walk(s.Wrapped)
		for _, l := range s.List {
			walk(l)
		}
	}
	walk(st)
	return out
}

// expectation of a document: the labels that have to be reported when parsing fails at the step of each.
type offence struct {
	label string
	stage int // parse, resolve, unwrap, check
}

const (
	stParse = iota
	stResolve
	stUnwrap
	stValidate
)

func runC18(r *Run, d *DocSet, lay layout, offs []offence) {
	fs, spans := render(d, lay)
	fs.Write(r.Dir)
	desc := func() string { return fs.String() }
	for _, unwrap := range []bool{false, true} {
		for _, validate := range []bool{false, true} {
			r.Eval(1)
			_, err := raml.ParseFromPath(filepath.Join(r.Dir, d.Entry), parseOpts(unwrap, validate)...)
			mode := fmt.Sprintf("unwrap=%v validate=%v", unwrap, validate)
			// the step at which the set is rejected
			step := 99
			for _, o := range offs {
				s := o.stage
				if s == stUnwrap && !unwrap {
					s = stValidate
				}
				if s == stValidate && !validate {
					continue
				}
				if s < step {
					step = s
				}
			}
			if err == nil {
				if step != 99 {
					r.Note("accepted", 1)
					r.Class("accepted")
				}
				continue
			}
			if step == 99 {
				r.Note("rejected_early", 1)
			}
			var st *stacktrace.StackTrace
			if !errors.As(err, &st) {
				r.Fail("no structured error", mode+": the error has no structured entries: "+err.Error(), desc())
				continue
			}
			ents := entriesOf(st)
			for _, e := range ents {
				if !e.hasPos {
					continue
				}
				rel, rerr := filepath.Rel(r.Dir, e.file)
				text, ok := fs[rel]
				if e.file == "" || rerr != nil || !ok {
					r.Fail("position outside:"+e.msg, fmt.Sprintf("%s: entry %q has position %d:%d but its file %q is not a file of the set: %v", mode, e.msg, e.line, e.col, e.file, err), desc())
					continue
				}
				lines := strings.Split(text, "\n")
				if e.line < 1 || e.line > len(lines) || e.col < 0 || e.col > len(lines[e.line-1])+1 {
					r.Fail("position outside:"+e.msg, fmt.Sprintf("%s: entry %q has position %d:%d outside of its file %s: %v", mode, e.msg, e.line, e.col, rel, err), desc())
				}
			}
			hit := map[string]bool{}
			for _, o := range offs {
				for _, e := range ents {
					if e.file == "" {
						continue
					}
					rel, rerr := filepath.Rel(r.Dir, e.file)
					if rerr == nil && e.hasPos && spans[o.label][rel][e.line] {
						hit[o.label] = true
					}
				}
			}
			any := false
			for _, o := range offs {
				any = any || hit[o.label]
				s := o.stage
				if s == stUnwrap && !unwrap {
					s = stValidate
				}
				if s != step || hit[o.label] || s == stParse && len(offs) > 1 {
					continue
				}
				r.Fail("not reported at its place:"+fmt.Sprint(len(offs)), fmt.Sprintf("%s: no entry of the error is at the construct %q or its declaration (%s): %s", mode, o.label, showSpans(spans[o.label]), showEntries(r.Dir, ents)), desc())
			}
			if !any && step != 99 {
				r.Fail("not reported at all", mode+": no entry of the error is at an offending construct: "+showEntries(r.Dir, ents), desc())
			}
			r.Class(mode + fmt.Sprint(step, len(ents)))
		}
	}
}

func showSpans(s map[string]map[int]bool) string {
	var p []string
	for f, ls := range s {
		var n []int
		for l := range ls {
			n = append(n, l)
		}
		sort.Ints(n)
		p = append(p, fmt.Sprint(f, n))
	}
	sort.Strings(p)
	return strings.Join(p, " ")
}

func showEntries(dir string, es []posEntry) string {
	var p []string
	for _, e := range es {
		rel, _ := filepath.Rel(dir, e.file)
		p = append(p, fmt.Sprintf("%s:%d:%d %s", rel, e.line, e.col, e.msg))
	}
	return strings.Join(p, " | ")
}

// bad is an offending declaration; stage is the step at which it is found.
type bad struct {
	name  string
	stage int
	body  any // M (the carrier mark is added), Off
	types M   // helper types; the names in refs of the body are written as "@Name"
	// allowed in facet definitions and annotation types
	notFacetDef bool
	raw         map[string]string // included files, relative to the declaring file
}

const offL = offMark + "x" + offMark

func off(k string, v any) KV { return KV{offL + k, v} }

func badDecls() []bad {
	A := func(name string, stage int, kv ...KV) bad { return bad{name: name, stage: stage, body: M(kv)} }
	var out []bad
	add := func(b ...bad) { out = append(out, b...) }
	offs := func(v any) Off { return Off{"x", v} }
	// unresolvable or malformed references
	for _, e := range []string{"Nope", "Nope[]", "string | Nope", "Nope?", "no.Such", "a.b.c", "string |", "(string", "[]", "a b", "string]", "#", "|"} {
		add(bad{name: "scalar " + e, stage: stResolve, body: offs(e)})
		add(A("type: "+e, stResolve, KV{"description", "d"}, off("type", e), KV{"displayName", "n"}))
	}
	add(A("type list", stResolve, KV{"description", "d"}, off("type", l("string", "Nope"))))
	add(A("type list", stResolve, off("type", l("Nope", "No2")), KV{"description", "d"}))
	add(A("empty type list", stParse, KV{"description", "d"}, off("type", l())))
	add(A("type of a wrong kind", stParse, KV{"description", "d"}, off("type", M{{"a", M{{"b", 1}}}, {"c", 1}})))
	// malformed facets
	for _, k := range []struct {
		t  string
		kv KV
	}{
		{"string", KV{"minLength", "abc"}}, {"string", KV{"maxLength", -1}}, {"string", KV{"pattern", "("}}, {"string", KV{"pattern", l(1)}}, {"string", KV{"enum", "a"}},
		{"string", KV{"minLength", l(1)}}, {"integer", KV{"minimum", "abc"}}, {"integer", KV{"maximum", 1.5}}, {"integer", KV{"format", "int128"}}, {"integer", KV{"multipleOf", "x"}}, {"integer", KV{"enum", 1}},
		{"number", KV{"minimum", "abc"}}, {"number", KV{"maximum", true}}, {"number", KV{"format", "bad"}}, {"boolean", KV{"enum", true}},
		{"file", KV{"fileTypes", "a/b"}}, {"file", KV{"minLength", "x"}}, {"array", KV{"minItems", "x"}}, {"array", KV{"maxItems", -1}}, {"array", KV{"uniqueItems", "x"}},
		{"object", KV{"minProperties", "x"}}, {"object", KV{"additionalProperties", "x"}}, {"object", KV{"discriminator", l(1)}},
		{"datetime", KV{"format", "rfc0"}}, {"string", KV{"required", "x"}}, {"string", KV{"displayName", l(1)}}, {"string", KV{"description", M{{"a", 1}}}},
		{"string", KV{"facets", l("a")}}, {"string", KV{"examples", "a"}}, {"string", KV{"examples", 1}},
		{"object", KV{"properties", M{{"/(/", "string"}}}}, {"string", KV{"example", M{{"value", "x"}, {"strict", "maybe"}}}},
		{"string", KV{"example", M{{"value", "x"}, {"displayName", l(1)}}}}, {"string", KV{"examples", M{{"e", M{{"value", "x"}, {"strict", 5}}}}}},
	} {
		stage := stResolve
		add(A(k.t+" "+k.kv.K, stage, KV{"type", k.t}, KV{"description", "d"}, KV{offL + k.kv.K, k.kv.V}, KV{"displayName", "n"}))
		if k.kv.K == "displayName" || k.kv.K == "description" {
			out[len(out)-1].body = M{{"type", k.t}, KV{offL + k.kv.K, k.kv.V}}
		}
	}
	out = out[:len(out):len(out)]
	// unknown facets, unknown annotations, annotations with a wrong value
	add(A("unknown facet", stValidate, KV{"type", "string"}, KV{"description", "d"}, off("nope", 1)))
	add(A("unknown annotation", stResolve, KV{"type", "string"}, KV{"description", "d"}, off("(nope)", 1)))
	add(A("unknown library of an annotation", stResolve, KV{"type", "string"}, KV{"description", "d"}, off("(no.pe)", 1)))
	add(A("missing custom facet", stValidate, off("type", "@P"), KV{"description", "d"}))
	out[len(out)-1].types = M{{"P", M{{"type", "string"}, {"facets", M{{"need", "string"}}}}}}
	add(A("wrong custom facet", stValidate, KV{"type", "@P"}, KV{"description", "d"}, off("need", l(1)), KV{"displayName", "n"}))
	out[len(out)-1].types = M{{"P", M{{"type", "string"}, {"facets", M{{"need", "string"}}}}}}
	// contradictions
	for _, k := range []struct {
		t    string
		a, b KV
	}{
		{"string", KV{"minLength", 2}, KV{"maxLength", 1}}, {"integer", KV{"minimum", 2}, KV{"maximum", 1}}, {"number", KV{"minimum", 2.5}, KV{"maximum", 1.5}},
		{"array", KV{"minItems", 2}, KV{"maxItems", 1}}, {"object", KV{"minProperties", 2}, KV{"maxProperties", 1}}, {"file", KV{"minLength", 2}, KV{"maxLength", 1}},
	} {
		add(A(k.t+" bounds", stValidate, KV{"type", k.t}, KV{"description", "d"}, KV{offL + k.a.K, k.a.V}, KV{"displayName", "n"}, KV{offL + k.b.K, k.b.V}))
		// inherited bound
		b := A(k.t+" inherited bounds", stUnwrap, KV{"type", "@P"}, KV{"description", "d"}, KV{offL + k.b.K, k.b.V}, KV{"displayName", "n"})
		b.types = M{{"P", typed(k.t, M{k.a})}}
		b.stage = stValidate
		add(b)
		// widened bound
		b = A(k.t+" widened bounds", stUnwrap, KV{"type", "@P"}, KV{"description", "d"}, KV{offL + k.a.K, 1}, KV{"displayName", "n"})
		b.types = M{{"P", typed(k.t, M{{k.a.K, 3}})}}
		add(b)
	}
	add(A("enum of a wrong kind", stValidate, KV{"type", "string"}, KV{"description", "d"}, off("enum", l("a", 1))))
	add(A("enum of a wrong kind", stValidate, KV{"type", "integer"}, KV{"description", "d"}, off("enum", l("a"))))
	add(A("discriminator without property", stValidate, KV{"type", "object"}, KV{"description", "d"}, off("discriminator", "k")))
	add(A("closed object with pattern", stValidate, KV{"description", "d"}, off("properties", M{{"/a/", "string"}}), off("additionalProperties", false)))
	b := A("widened enum", stUnwrap, KV{"type", "@P"}, KV{"description", "d"}, off("enum", l("a", "b")))
	b.types = M{{"P", typed("string", M{{"enum", l("a")}})}}
	add(b)
	b = A("kind change", stUnwrap, off("type", l("@P", "@Q")), KV{"description", "d"})
	b.types = M{{"P", "string"}, {"Q", "integer"}}
	add(b)
	b = A("kind change of a property", stUnwrap, KV{"type", "@P"}, KV{"description", "d"}, KV{"properties", M{{"a", "string"}, off("p", "string")}})
	b.types = M{{"P", M{{"properties", M{{"p", "integer"}}}}}}
	add(b)
	b = A("required property made optional", stUnwrap, KV{"type", "@P"}, KV{"description", "d"}, KV{"properties", M{{"a", "string"}, off("p?", "integer")}})
	b.types = M{{"P", M{{"properties", M{{"p", "integer"}}}}}}
	add(b)
	b = A("redefined facet", stValidate, KV{"type", "@P"}, KV{"description", "d"}, KV{"facets", M{{"other?", "string"}, off("need?", "string")}})
	b.types = M{{"P", M{{"type", "string"}, {"facets", M{{"need?", "string"}}}}}}
	b.notFacetDef = true
	add(b)
	// examples and defaults
	for _, t := range []struct {
		t  M
		ok any
		no any
	}{
		{M{{"type", "string"}, {"minLength", 3}}, "abc", "a"}, {M{{"type", "integer"}, {"maximum", 3}}, 1, "a"}, {M{{"type", "boolean"}}, true, 1},
		{M{{"properties", M{{"a", "string"}, {"b?", "integer"}}}}, M{{"a", "x"}}, M{{"a", 1}}}, {M{{"type", "array"}, {"items", "integer"}}, l(1), l(1, "a")},
	} {
		add(bad{name: "example", stage: stValidate, body: cat(t.t, M{{"description", "d"}, off("example", t.no), {"displayName", "n"}})})
		add(bad{name: "example with a value key", stage: stValidate, body: cat(M{{"description", "d"}, off("example", M{{"displayName", "e"}, {"value", t.no}})}, t.t)})
		add(bad{name: "named examples", stage: stValidate, body: cat(t.t, M{{"description", "d"}, {"examples", M{{"e1", t.ok}, off("e2", t.no), {"e3", t.ok}}}, {"displayName", "n"}})})
		add(bad{name: "default", stage: stValidate, body: cat(t.t, M{{"description", "d"}, off("default", t.no), {"displayName", "n"}})})
		add(bad{name: "default next to an example", stage: stValidate, body: cat(t.t, M{{"example", t.ok}, off("default", t.no), {"displayName", "n"}})})
	}
	return out
}

// ref replaces the names of helper types in a body.
func refBody(v any, ref func(string) string) any {
	switch x := v.(type) {
	case Off:
		return Off{x.label, refBody(x.v, ref)}
	case string:
		if strings.HasPrefix(x, "@") {
			return ref(x[1:])
		}
		return x
	case M:
		out := make(M, len(x))
		for i, e := range x {
			out[i] = KV{e.K, refBody(e.V, ref)}
		}
		return out
	case []any:
		out := make([]any, len(x))
		for i, e := range x {
			out[i] = refBody(e, ref)
		}
		return out
	}
	return v
}

func (b bad) subject() subject {
	return childOf(b.name, b.types, func(ref func(string) string) any {
		v := refBody(b.body, ref)
		if m, ok := v.(M); ok {
			return cat(M{{carrierMark + "x", nil}}, m)
		}
		return v
	})
}

func genC18(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	depth := 2
	if thorough {
		depth = 3
	}
	lays := layouts
	chains := wrapChains(depth)
	decorated := decoratedChains(false)
	if !thorough {
		decorated = decorated[:0]
		for _, w := range decoratedWrappers() {
			decorated = append(decorated, []wrapper{w})
		}
	}
	plainChains := len(chains)
	chains = append(chains, decorated...)
	for _, b := range badDecls() {
		b := b
		s := b.subject()
		for _, p := range places {
			for ci, c := range chains {
				if ci >= plainChains && p.name != "type" && p.name != "included data type" && p.name != "used from an imported library" {
					break
				}
				if b.notFacetDef && startsInFacetDef(c) {
					continue
				}
				for li, lay := range lays {
					if len(c) == 1 && !thorough && li%2 == 0 || len(c) > 1 && li != 3 || ci >= plainChains && li != 3 {
						continue
					}
					lay := lay
					d := p.mk(s, c)
					emit(Case{Label: func() string { f, _ := render(d, lay); return b.name + " in " + p.name + "\n" + f.String() }, Run: func(r *Run) {
						runC18(r, d, lay, []offence{{"x", b.stage}})
					}})
				}
			}
		}
	}
	for _, dd := range docOffences() {
		dd := dd
		for _, lay := range lays {
			lay := lay
			emit(Case{Label: func() string { f, _ := render(dd.d, lay); return dd.name + "\n" + f.String() }, Run: func(r *Run) {
				runC18(r, dd.d, lay, []offence{{"x", dd.stage}})
			}})
		}
	}
	genC18multi(true, emit)
}

type docOffence struct {
	name  string
	stage int
	d     *DocSet
}

// docOffences lists offending constructs outside of the members of types.
func docOffences() []docOffence {
	var out []docOffence
	add := func(name string, stage int, d *DocSet) { out = append(out, docOffence{name, stage, d}) }
	types := KV{"types", M{{"A", "string"}, {"B", M{{"type", "object"}, {"properties", M{{"a", "string"}}}}}}}
	ann := KV{"annotationTypes", M{{"an", "string"}, {"bn", M{{"type", "integer"}, {"maximum", 3}}}}}
	// libraries, as entry and imported once or twice
	libs := func(name string, stage int, mk func() (M, func(d *DocSet))) {
		for _, hops := range []int{0, 1, 2} {
			body, extra := mk()
			d := NewDocSet()
			switch hops {
			case 0:
				d.Lib("main.raml", body)
			case 1:
				d.Lib("main.raml", M{{"uses", M{{"l", "sub/l.raml"}}}, types}).Lib("sub/l.raml", body)
			case 2:
				d.Lib("main.raml", M{{"uses", M{{"l", "a.raml"}}}}).Lib("a.raml", M{{"uses", M{{"m", "sub/l.raml"}}}, types}).Lib("sub/l.raml", body)
			}
			if extra != nil {
				extra(d)
			}
			add(fmt.Sprint(name, " after ", hops, " imports"), stage, d)
		}
		if name == "data type of an import" {
			return
		}
		// imported by a data type, which is the entry or is included
		for _, included := range []bool{false, true} {
			body, extra := mk()
			d := NewDocSet()
			if included {
				d.Lib("main.raml", M{{"types", M{{"X", Inc("d.raml")}}}})
			}
			d.DataType("d.raml", M{{"uses", M{{"l", "sub/l.raml"}}}, {"type", "object"}}).Lib("sub/l.raml", body)
			if extra != nil {
				extra(d)
			}
			add(fmt.Sprint(name, " imported by a data type, included: ", included), stage, d)
		}
	}
	lib := func(name string, stage int, kv ...KV) {
		libs(name, stage, func() (M, func(*DocSet)) { return M(kv), nil })
	}
	for _, v := range []any{l("a"), "a", 1, l()} {
		lib("types of a wrong kind", stParse, ann, off("types", v))
		lib("annotation types of a wrong kind", stParse, off("annotationTypes", v), types)
		lib("uses of a wrong kind", stParse, off("uses", v), types)
		lib("usage of a wrong kind", stParse, types, off("usage", M{{"a", v}}))
	}
	lib("missing import", stParse, KV{"uses", M{{"ok", "../good.raml"}, off("bad", "missing.raml"), {"ok2", "../good.raml"}}}, types)
	for i := len(out) - 5; i < len(out); i++ {
		d := out[i].d
		d.Lib("good.raml", M{types})
		for _, p := range d.Paths { // the path is relative to the importing file
			if u, ok := d.Body[p].get("uses"); ok && p == "main.raml" {
				for j := range u.(M) {
					if u.(M)[j].V == "../good.raml" {
						u.(M)[j].V = "good.raml"
					}
				}
			}
		}
	}
	lib("unknown annotation of a library", stResolve, ann, types, off("(nope)", 1))
	lib("wrong annotation of a library", stValidate, ann, types, off("(bn)", 5))
	lib("wrong annotation of a library", stValidate, off("(an)", l(1)), ann, KV{"(bn)", 1}, types)
	// the same with the annotation types of an imported file
	imported := func(v any) any { return nil }
	imported = func(v any) any {
		m, ok := v.(M)
		if !ok {
			return v
		}
		o := make(M, len(m))
		for i, e := range m {
			o[i] = KV{strings.NewReplacer("(bn)", "(z.bn)", "(an)", "(z.an)").Replace(e.K), imported(e.V)}
		}
		return o
	}
	annFile := func(d *DocSet) {
		for _, p := range append([]string(nil), d.Paths...) {
			if u, ok := d.Body[p].get("uses"); ok {
				if _, z := u.(M).get("z"); z {
					d.Lib(path.Join(path.Dir(p), "anns.raml"), M{{"usage", "u"}, ann})
				}
			}
		}
	}
	for _, kv := range [][]KV{{off("(z.bn)", 5), types}, {types, off("(z.an)", l(1)), {"(z.bn)", 1}}} {
		libs("wrong annotation of a library, from an import", stValidate, func() (M, func(*DocSet)) {
			return append(M{{"uses", M{{"z", "anns.raml"}}}}, kv...), annFile
		})
	}
	// annotations of types, members, examples
	for _, t := range []M{
		{{"type", "string"}, {"description", "d"}, off("(bn)", "x"), {"(an)", "ok"}},
		{{"properties", M{{"a", "string"}, {"b", M{{"type", "string"}, {"(an)", "ok"}, off("(bn)", 7)}}}}},
		{{"type", "array"}, {"items", M{{"type", "string"}, off("(bn)", "x")}}},
		{{"type", "string"}, {"facets", M{{"f?", M{{"type", "string"}, off("(bn)", "x")}}}}},
		{{"type", "string"}, {"example", M{{"value", "x"}, off("(bn)", "x")}}},
		{{"type", "string"}, {"examples", M{{"e", M{{"value", "x"}}}, {"f", M{{"value", "x"}, off("(bn)", 9)}}}}},
	} {
		t := t
		lib("wrong annotation of a type", stValidate, ann, KV{"types", M{{"T", t}}})
		libs("wrong annotation of a type, from an import", stValidate, func() (M, func(*DocSet)) {
			return M{{"uses", M{{"z", "anns.raml"}}}, {"types", M{{"T", imported(t)}}}}, annFile
		})
		unknown := func(v any) any { return nil }
		unknown = func(v any) any {
			m, ok := v.(M)
			if !ok {
				return v
			}
			o := make(M, len(m))
			for i, e := range m {
				k := e.K
				if k == offL+"(bn)" {
					k = offL + "(nope)"
				}
				o[i] = KV{k, unknown(e.V)}
			}
			return o
		}
		lib("unknown annotation of a type", stResolve, ann, KV{"types", M{{"T", unknown(t)}}})
	}
	lib("wrong annotation of an annotation type", stValidate, KV{"annotationTypes", M{{"bn", M{{"type", "integer"}}}, {"cn", M{{"type", "string"}, off("(bn)", "x")}}}}, types)
	// includes
	for _, t := range []struct {
		n string
		f func(inc Inc) KV
	}{
		{"type", func(i Inc) KV { return off("T", i) }},
		{"type key", func(i Inc) KV { return KV{"T", M{{"description", "d"}, off("type", i)}} }},
		{"property", func(i Inc) KV { return KV{"T", M{{"properties", M{{"a", "string"}, off("b", i), {"c", "string"}}}}} }},
		{"items", func(i Inc) KV { return KV{"T", M{{"type", "array"}, {"description", "d"}, off("items", i)}} }},
		{"facet definition", func(i Inc) KV { return KV{"T", M{{"type", "string"}, {"facets", M{{"a?", "string"}, off("f?", i)}}}} }},
	} {
		t := t
		for _, bad := range []string{"missing.raml", "sub", "wrongkind.raml", "empty.raml"} {
			bad := bad
			libs("include of "+bad+" as "+t.n, stParse, func() (M, func(*DocSet)) {
				return M{{"types", M{{"S", "string"}, t.f(Inc(bad)), {"U", "string"}}}}, func(d *DocSet) {
					for _, pre := range []string{"", "sub/"} {
						d.Raw(pre+"wrongkind.raml", hdrNE+"a: 1\n")
						d.Raw(pre+"empty.raml", "")
					}
				}
			})
		}
		// an include of a faulty data type
		for _, f := range []struct {
			n     string
			stage int
			b     M
		}{
			{"unknown type", stResolve, M{{carrierMark + "x", nil}, {"description", "d"}, off("type", "l.No")}},
			{"wrong facet", stResolve, M{{carrierMark + "x", nil}, {"type", "string"}, off("minLength", "a")}},
			{"wrong example", stValidate, M{{carrierMark + "x", nil}, {"type", "string"}, {"minLength", 3}, off("example", "a")}},
			{"wrong member", stValidate, M{{"type", "object"}, {"properties", M{{"a", "string"}, {"b", M{{carrierMark + "x", nil}, {"type", "string"}, {"minLength", 3}, off("default", "a")}}}}}},
			{"wrong pattern", stResolve, M{{"type", "object"}, {"properties", M{{"a", "string"}, off("/(/", "string")}}}},
		} {
			f := f
			libs("data type with "+f.n+" included as "+t.n, f.stage, func() (M, func(*DocSet)) {
				return M{{"types", M{{"S", "string"}, {"U", "string"}, stripMarks(M{t.f("dt.raml")}).(M)[0]}}}, func(d *DocSet) {
					p := "dt.raml"
					for _, q := range d.Paths {
						if q == "sub/l.raml" {
							p = "sub/dt.raml"
						}
					}
					d.DataType(p, f.b)
				}
			})
		}
	}
	// data
	for _, f := range []struct {
		n, text string
	}{{"missing.json", ""}, {"bad.json", "{\n\n\n\n\n\n\n\n\n\n\n\n\n\n\"a\": }\n"}, {"bad.yaml", "a: [\n"}, {"empty.json", ""}} {
		for _, k := range []string{"example", "default", "value", "named", "facet", "annotation", "inmap", "inseq"} {
			f, k := f, k
			libs(f.n+" as "+k, stParse, func() (M, func(*DocSet)) {
				i := Inc(f.n)
				b := M{{"type", "any"}, {"description", "d"}}
				switch k {
				case "example", "default":
					b = cat(b, M{off(k, i)})
				case "value":
					b = cat(b, M{{"example", M{{"displayName", "n"}, off("value", i)}}})
				case "named":
					b = cat(b, M{{"examples", M{{"e", 1}, off("f", i)}}})
				case "facet":
					b = M{{"type", "P"}, {"description", "d"}, off("need", i)}
				case "annotation":
					b = cat(b, M{off("(an)", i)})
				case "inmap":
					b = cat(b, M{{"default", M{{"a", 1}, off("b", i), {"c", 2}}}})
				case "inseq":
					b = cat(b, M{off("default", l(1, i))})
				}
				return M{{"annotationTypes", M{{"an", "any"}}}, {"types", M{{"P", M{{"type", "string"}, {"facets", M{{"need", "any"}}}}}, {"T", b}}}}, func(d *DocSet) {
					if strings.HasPrefix(f.n, "missing") {
						return
					}
					p := f.n
					for _, q := range d.Paths {
						if q == "sub/l.raml" {
							p = "sub/" + f.n
						}
					}
					d.Raw(p, offMark+"x"+offMark+f.text)
				}
			})
		}
	}
	// named examples: a faulty value, a faulty attribute
	for _, e := range []struct {
		stage int
		b     M
	}{
		{stValidate, M{{"e1", 1}, off("e2", "x"), {"e3", 2}}},
		{stValidate, M{{"e1", 1}, {"e2", 2}, off("e3", M{{"displayName", "d"}, {"value", "x"}})}},
		{stParse, M{{"e1", 1}, off("e2", M{{"strict", "maybe"}, {"value", 1}}), {"e3", 2}}},
		{stParse, M{{"e1", 1}, {"e2", M{{"value", 1}, off("displayName", l(1))}}, {"e3", 2}}},
		{stParse, M{{"e1", 1}, off("e2", Inc("missing.json"))}},
	} {
		e := e
		libs("named example file", e.stage, func() (M, func(*DocSet)) {
			return M{{"types", M{{"T", M{{"type", "integer"}, {"examples", Inc("ne.raml")}}}}}}, func(d *DocSet) {
				p := "ne.raml"
				for _, q := range d.Paths {
					if q == "sub/l.raml" {
						p = "sub/ne.raml"
					}
				}
				d.Example(p, e.b)
			}
		})
		if e.stage == stParse {
			add("named example file as entry", stParse, NewDocSet().Example("ne.raml", e.b))
		}
	}
	// cycles of references
	add("alias cycle", stResolve, NewDocSet().Lib("main.raml", M{{"types", M{{"S", "string"}, off("A", "B"), off("B", "A")}}}))
	add("alias cycle in a library", stResolve, NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "l.raml"}}}, {"types", M{{"A", "l.A"}}}}).Lib("l.raml", M{{"types", M{{"S", "string"}, off("A", "B"), off("B", "A")}}}))
	add("parent cycle", stResolve, NewDocSet().Lib("main.raml", M{{"types", M{{"S", "string"}, off("A", M{{"type", "B"}, {"description", "d"}}), off("B", M{{"type", "A"}, {"description", "d"}})}}}))
	// data types
	for _, inc := range []bool{false, true} {
		dt := func(name string, stage int, b M) {
			d := NewDocSet()
			if inc {
				d.Lib("main.raml", M{{"types", M{{"S", "string"}, {"X", Inc("dt.raml")}}}})
			}
			add(fmt.Sprint(name, " of a data type, included: ", inc), stage, d.DataType("dt.raml", b).Lib("good.raml", M{types}))
		}
		dt("missing import", stParse, M{{"uses", M{{"g", "good.raml"}, off("b", "missing.raml")}}, {"type", "object"}})
		dt("missing import", stParse, M{{"type", "object"}, {"description", "d"}, {"uses", M{off("b", "missing.raml"), {"g", "good.raml"}}}})
		dt("uses of a wrong kind", stParse, M{{"type", "object"}, {"description", "d"}, off("uses", l("a"))})
		dt("unknown library", stResolve, M{{"uses", M{{"g", "good.raml"}}}, {"properties", M{{"a", "g.A"}, off("b", "h.A")}}})
		dt("unknown type", stResolve, M{{"uses", M{{"g", "good.raml"}}}, {"properties", M{{"a", "g.A"}, off("b", "g.Z")}}})
		dt("unknown annotation", stResolve, M{{"uses", M{{"g", "good.raml"}}}, {"properties", M{{"a", "g.A"}}}, off("(g.no)", 1)})
	}
	return out
}

func genC18multi(thorough bool, emit func(Case)) {
	mark := func(label string, b any) any {
		var re func(v any) any
		re = func(v any) any {
			switch x := v.(type) {
			case Off:
				return Off{label, re(x.v)}
			case M:
				o := make(M, len(x))
				for i, e := range x {
					k := e.K
					if strings.HasPrefix(k, offL) {
						k = offMark + label + offMark + k[len(offL):]
					} else if k == carrierMark+"x" {
						k = carrierMark + label
					}
					o[i] = KV{k, re(e.V)}
				}
				return o
			}
			return v
		}
		return re(b)
	}
	var sel []bad
	n := map[int]int{}
	seen := map[string]bool{}
	for _, b := range badDecls() {
		if b.stage == stParse || seen[b.name] || len(b.types) > 0 && b.types[0].K != "P" {
			continue
		}
		seen[b.name] = true
		if b.stage == stResolve && (!strings.HasPrefix(b.name, "scalar ") && !strings.HasPrefix(b.name, "type: ") || n[stResolve] > 8) {
			continue // malformed facets are found while the file is read
		}
		n[b.stage]++
		sel = append(sel, b)
	}
	limit := 14
	if thorough {
		limit = len(sel)
	}
	pick := sel
	if len(pick) > limit {
		// every step is represented
		pick = nil
		per := map[int]int{}
		for _, b := range sel {
			if per[b.stage] < limit/3 {
				per[b.stage]++
				pick = append(pick, b)
			}
		}
	}
	build := func(bs []bad, files int, lay layout) {
		// types in one library, or each in a library of its own; good types in between
		body := func(i int) M {
			label := fmt.Sprint("x", i)
			b := bs[i]
			ref := func(n string) string { return fmt.Sprint(n, i) }
			s := b.subject()
			out := M{{fmt.Sprint("Ok", i), "string"}, {fmt.Sprint("T", i), mark(label, s.mk(ref))}}
			for _, h := range b.types {
				out = append(out, KV{ref(h.K), h.V})
			}
			return out
		}
		d := NewDocSet()
		if files == 1 {
			ts := M{}
			for i := range bs {
				ts = append(ts, body(i)...)
			}
			d.Lib("main.raml", M{{"types", ts}})
		} else {
			uses := M{}
			for i := 1; i < len(bs); i++ {
				uses = append(uses, KV{fmt.Sprint("l", i), fmt.Sprintf("l%d.raml", i)})
			}
			key := "types"
			if files == 3 { // the offending types of the entry file are annotation types
				key = "annotationTypes"
			}
			b0 := body(0)
			main := M{{"uses", uses}, {"types", b0}}
			if key != "types" {
				main = M{{"uses", uses}, {"annotationTypes", b0[:2]}, {"types", b0[2:]}}
				if len(b0) == 2 {
					main = main[:2]
				}
			}
			d.Lib("main.raml", main)
			for i := 1; i < len(bs); i++ {
				d.Lib(fmt.Sprintf("l%d.raml", i), M{{"types", body(i)}})
			}
		}
		var offs []offence
		for i, b := range bs {
			offs = append(offs, offence{fmt.Sprint("x", i), b.stage})
		}
		emit(Case{Label: func() string { f, _ := render(d, lay); return fmt.Sprint(len(bs), " offending types\n", f.String()) }, Run: func(r *Run) {
			runC18(r, d, lay, offs)
		}})
	}
	for _, a := range pick {
		for _, b := range pick {
			for files := 1; files <= 3; files++ {
				build([]bad{a, b}, files, layouts[3])
				if thorough {
					build([]bad{a, b}, files, layouts[1])
				}
			}
			if a.stage != b.stage && !thorough {
				continue
			}
			for i, c := range pick {
				if thorough && i%3 != 0 && a.stage != c.stage {
					continue
				}
				for files := 1; files <= 3; files++ {
					build([]bad{a, b, c}, files, layouts[2])
				}
			}
		}
	}
}
