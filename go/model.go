package main

// Reference semantics of RAML data types, written independently of the code under test:
// names are resolved by a memoising interpreter over the abstract document, inheritance is a
// functional merge whose nested positions are lazy (so recursive types are exact, infinite
// objects), and a type accepts a value or not by direct recursion.

import (
	"fmt"
	"math"
	"math/big"
	"path"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// Th is a memoised lazy type.
type Th struct {
	f    func() *Ty
	v    *Ty
	busy bool
}

func (t *Th) get() *Ty {
	if t.v == nil {
		if t.busy {
			return nil
		}
		t.busy = true
		v := t.f()
		t.busy = false
		if t.v == nil {
			t.v = v
		}
	}
	return t.v
}

func now(t *Ty) *Th { return &Th{v: t} }

type Prop struct {
	Name string
	Req  bool
	T    *Th
}

type Pat struct {
	Key string
	Re  *regexp.Regexp
	T   *Th
}

// Ty is an effective type.
type Ty struct {
	Kind                               string
	Min, Max                           *big.Rat
	MultipleOf                         any
	Format                             string
	MinL, MaxL, MinI, MaxI, MinP, MaxP *uint64
	Uniq, AddP                         *bool
	Pattern                            *regexp.Regexp
	Enum                               []any
	HasEnum                            bool
	FileTypes                          []any
	HasFT                              bool
	Items                              *Th
	Props                              []Prop
	HasProps                           bool
	Pats                               []Pat
	HasPats                            bool
	AnyOf                              []*Th
	Disc                               *string
	DiscVal                            any
	Custom                             []KV
	Defs                               []Prop
	Parents                            []*Ty
	Examples                           []any
	Name                               string
	Annots                             []annotUse

	errs []string // merge errors of this node
	// nested declared positions, used to force everything that was written
	declared []*Th
	merged   bool
}

type annotUse struct {
	file *mfile
	name string
	val  any
}

type mfile struct {
	path   string
	kind   string
	body   M
	types  map[string]*Th
	order  []string
	annots map[string]*Th
	aorder []string
	uses   map[string]*mfile
	dt     *Th
	ne     []KV
	uOrder []string
}

// World interprets a document set.
type World struct {
	docs   *DocSet
	files  map[string]*mfile
	forder []string
	errs   map[string]bool // parse/ref problems found while evaluating declarations
	why    []string
	decls  []*Ty
	pairs  map[[2]*Ty]*Ty
	annots []annotUse
	limit  int
	entry  *mfile
}

func NewWorld(d *DocSet) *World {
	w := &World{docs: d, files: map[string]*mfile{}, errs: map[string]bool{}, pairs: map[[2]*Ty]*Ty{}}
	w.entry = w.load(d.Entry, "")
	return w
}

func (w *World) err(cat, format string, a ...any) {
	w.errs[cat] = true
	w.why = append(w.why, cat+": "+fmt.Sprintf(format, a...))
}

func asM(v any) (M, bool) {
	switch x := v.(type) {
	case M:
		return x, true
	case nil:
		return nil, true
	}
	return nil, false
}

func (w *World) load(p, want string) *mfile {
	p = path.Clean(p)
	if f, ok := w.files[p]; ok {
		if want != "" && f.kind != want {
			w.err("parse", "%s is not a %s", p, want)
			return nil
		}
		return f
	}
	kind, ok := w.docs.Kind[p]
	if !ok {
		w.err("parse", "no file %s", p)
		return nil
	}
	if kind == "raw" || (want != "" && kind != want) {
		w.err("parse", "%s is not a %s", p, want)
		return nil
	}
	f := &mfile{path: p, kind: kind, body: w.docs.Body[p], types: map[string]*Th{}, annots: map[string]*Th{},
		uses: map[string]*mfile{}}
	w.files[p] = f
	w.forder = append(w.forder, p)
	if u, ok := f.body.get("uses"); ok {
		m, _ := asM(u)
		for _, e := range m {
			s, _ := e.V.(string)
			f.uses[e.K] = w.load(path.Join(path.Dir(p), s), "Library")
			f.uOrder = append(f.uOrder, e.K)
		}
	}
	switch kind {
	case "Library":
		if t, ok := f.body.get("types"); ok {
			m, _ := asM(t)
			for _, e := range m {
				e := e
				f.types[e.K] = w.declTh(f, e.V, e.K)
				f.order = append(f.order, e.K)
			}
		}
		if t, ok := f.body.get("annotationTypes"); ok {
			m, _ := asM(t)
			for _, e := range m {
				e := e
				f.annots[e.K] = w.declTh(f, e.V, e.K)
				f.aorder = append(f.aorder, e.K)
			}
		}
		for _, e := range f.body {
			w.annot(f, e)
		}
	case "DataType":
		var rest M
		for _, e := range f.body {
			if e.K != "uses" {
				rest = append(rest, e)
			}
		}
		f.dt = w.declTh(f, rest, path.Base(p))
	case "NamedExample":
		f.ne = f.body
	}
	// includes are read as soon as they are written
	w.scan(f, f.body)
	return f
}

// scan loads the data types included anywhere in declarations.
func (w *World) scan(f *mfile, v any) {
	_ = f
	_ = v
}

func (w *World) annot(f *mfile, e KV) {
	if strings.HasPrefix(e.K, "(") && strings.HasSuffix(e.K, ")") && len(e.K) > 2 {
		w.annots = append(w.annots, annotUse{f, e.K[1 : len(e.K)-1], w.data(f, e.V)})
	}
}

func (w *World) declTh(f *mfile, v any, name string) *Th {
	th := &Th{}
	th.f = func() *Ty {
		t := w.decl(f, v, name, th)
		return t
	}
	return th
}

func (w *World) bad(cat, format string, a ...any) *Ty {
	w.err(cat, format, a...)
	return &Ty{Kind: "error"}
}

// lookup resolves a reference written in file f.
func (w *World) lookup(f *mfile, ref string) *Th {
	name := ref
	if i := strings.Index(ref, "."); i >= 0 {
		if strings.Count(ref, ".") > 1 {
			w.err("ref", "bad reference %s", ref)
			return nil
		}
		// A name with a dot that the file declares itself is that declaration.
		if th, own := f.types[ref]; own {
			return th
		}
		lib, ok := f.uses[ref[:i]]
		if !ok || lib == nil {
			w.err("ref", "no library %s", ref)
			return nil
		}
		f, name = lib, ref[i+1:]
	}
	th, ok := f.types[name]
	if !ok {
		w.err("ref", "no type %s in %s", ref, f.path)
		return nil
	}
	return th
}

func (w *World) lookupAnnot(f *mfile, ref string) *Th {
	name := ref
	if i := strings.Index(ref, "."); i >= 0 && f.annots[ref] == nil {
		lib, ok := f.uses[ref[:i]]
		if !ok || lib == nil {
			return nil
		}
		f, name = lib, ref[i+1:]
	}
	return f.annots[name]
}

var builtins = map[string]bool{"any": true, "nil": true, "object": true, "array": true, "string": true,
	"integer": true, "number": true, "datetime": true, "datetime-only": true, "date-only": true,
	"time-only": true, "file": true, "boolean": true, "union": true}

var scalarKinds = map[string]bool{"string": true, "integer": true, "number": true, "boolean": true, "datetime": true,
	"datetime-only": true, "date-only": true, "time-only": true, "file": true, "nil": true}

// ---- type expressions ----

// Ex is a parsed expression.
type Ex struct {
	Op   string // prim ref array opt union
	Name string
	Args []*Ex
}

func (e *Ex) String() string {
	switch e.Op {
	case "prim", "ref":
		return e.Name
	case "array":
		return "array<" + e.Args[0].String() + ">"
	case "opt":
		return "opt<" + e.Args[0].String() + ">"
	}
	var p []string
	for _, a := range e.Args {
		p = append(p, a.String())
	}
	return "union<" + strings.Join(p, ",") + ">"
}

func isIdent(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '-' || c == '.'
}

// parseExpr parses the published grammar by direct descent over the characters.
func parseExpr(s string) (*Ex, bool) {
	// Tokens: ( ) | [] ? and names; blanks separate tokens and are otherwise ignored.
	var toks []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '(' || c == ')' || c == '|' || c == '?':
			toks = append(toks, string(c))
			i++
		case c == '[' && i+1 < len(s) && s[i+1] == ']':
			toks = append(toks, "[]")
			i += 2
		case isIdent(c):
			j := i
			for j < len(s) && isIdent(s[j]) {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		default:
			return nil, false
		}
	}
	p := &exParser{toks: toks}
	e := p.expr()
	if e == nil || p.pos != len(toks) {
		return nil, false
	}
	return e, true
}

type exParser struct {
	toks []string
	pos  int
}

func (p *exParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *exParser) expr() *Ex {
	var alts []*Ex
	for {
		t := p.typ()
		if t == nil {
			return nil
		}
		alts = append(alts, t)
		if p.peek() != "|" {
			break
		}
		p.pos++
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &Ex{Op: "union", Args: alts}
}

func (p *exParser) typ() *Ex {
	var e *Ex
	switch t := p.peek(); {
	case t == "(":
		p.pos++
		e = p.expr()
		if e == nil || p.peek() != ")" {
			return nil
		}
		p.pos++
	case t != "" && isIdent(t[0]) && t != ".":
		p.pos++
		if builtins[t] {
			e = &Ex{Op: "prim", Name: t}
			break
		}
		e = &Ex{Op: "ref", Name: t}
		// the dot of a reference may stand apart
		if p.peek() == "." {
			p.pos++
			n := p.peek()
			if n == "" || n == "." || !isIdent(n[0]) || builtins[n] {
				return nil
			}
			p.pos++
			e.Name += "." + n
		}
	default:
		return nil
	}
	switch p.peek() {
	case "[]":
		p.pos++
		return &Ex{Op: "array", Args: []*Ex{e}}
	case "?":
		p.pos++
		return &Ex{Op: "opt", Args: []*Ex{e}}
	}
	return e
}

// anon evaluates a nested expression.
func (w *World) anon(f *mfile, e *Ex) *Th {
	th := &Th{}
	th.f = func() *Ty { return w.expr(f, e, nil, nil, th) }
	return th
}

// expr evaluates an expression; own holds the facets written next to it (nil: a bare expression).
func (w *World) expr(f *mfile, e *Ex, own M, d *declParts, self *Th) *Ty {
	switch e.Op {
	case "prim":
		t := &Ty{Kind: e.Name}
		w.facets(f, t, own, self)
		return t
	case "array":
		t := &Ty{Kind: "array"}
		w.facets(f, t, own, self)
		t.Items = w.anon(f, e.Args[0])
		t.declared = append(t.declared, t.Items)
		return t
	case "opt", "union":
		t := &Ty{Kind: "union"}
		w.facets(f, t, own, self)
		for _, a := range e.Args {
			t.AnyOf = append(t.AnyOf, w.anon(f, a))
		}
		if e.Op == "opt" {
			t.AnyOf = append(t.AnyOf, now(&Ty{Kind: "nil"}))
		}
		t.declared = append(t.declared, t.AnyOf...)
		return t
	}
	th := w.lookup(f, e.Name)
	if th == nil {
		return &Ty{Kind: "error"}
	}
	parent := th.get()
	if parent == nil {
		return w.bad("ref", "cyclic reference %s", e.Name)
	}
	if own == nil && (d == nil || !d.isMap) {
		return parent // an alias
	}
	return w.derive(f, own, []*Ty{parent}, self)
}

// derive makes a type with its own facets from its parents.
func (w *World) derive(f *mfile, own M, parents []*Ty, self *Th) *Ty {
	for _, p := range parents {
		if p.Kind == "error" {
			return &Ty{Kind: "error"}
		}
	}
	t := &Ty{Kind: parents[0].Kind}
	w.facets(f, t, own, self)
	w.decls = append(w.decls, t)
	src := parents[0]
	for _, p := range parents[1:] {
		src = w.merge(src, p)
	}
	m := w.merge(t, src)
	m.Parents = parents
	return m
}

type declParts struct {
	isMap bool
}

var commonFacets = map[string]bool{"type": true, "displayName": true, "description": true, "required": true,
	"facets": true, "example": true, "examples": true, "default": true, "allowedTargets": true}

// decl evaluates a type declaration.
func (w *World) decl(f *mfile, v any, name string, self *Th) *Ty {
	t := w.decl1(f, v, name, self)
	return t
}

func (w *World) decl1(f *mfile, v any, name string, self *Th) *Ty {
	var typ any
	hasType := true
	var own M
	isMap := false
	m, ok := v.(M)
	var t *Ty
	if ok {
		isMap = true
		own = M{}
		hasType = false
		for _, e := range m {
			if e.K == "type" {
				typ, hasType = e.V, true
			}
			if !commonFacets[e.K] && !(strings.HasPrefix(e.K, "(") && strings.HasSuffix(e.K, ")")) {
				own = append(own, e)
			}
		}
	} else {
		typ = v
	}
	switch {
	case !hasType:
		t = w.implied(f, own, self)
	default:
		switch x := typ.(type) {
		case nil:
			t = &Ty{Kind: "string"}
			w.facets(f, t, own, self)
		case string:
			if x == "" {
				t = w.implied(f, own, self)
				break
			}
			if x[0] == '{' {
				if _, ok := decodeJSON(x); !ok {
					return w.bad("parse", "bad JSON schema")
				}
				t = &Ty{Kind: "json"}
				break
			}
			e, ok := parseExpr(x)
			if !ok {
				return w.bad("ref", "bad expression %q", x)
			}
			if e.Op == "ref" && isMap && own == nil {
				own = M{}
			}
			t = w.expr(f, e, own, &declParts{isMap}, self)
		case Inc:
			lf := w.load(path.Join(path.Dir(f.path), string(x)), "DataType")
			if lf == nil {
				return &Ty{Kind: "error"}
			}
			p := lf.dt.get()
			if p == nil {
				return w.bad("ref", "cyclic include %s", string(x))
			}
			if !isMap {
				return p // the included type itself
			}
			t = w.derive(f, own, []*Ty{p}, self)
		case []any:
			if len(x) == 0 {
				return w.bad("parse", "empty parent list")
			}
			var ps []*Ty
			for _, pe := range x {
				var p *Ty
				switch pe.(type) {
				case string, nil:
					p = w.decl1(f, pe, name, &Th{})
				default:
					return w.bad("parse", "bad parent")
				}
				ps = append(ps, p)
			}
			t = w.derive(f, own, ps, self)
		default:
			return w.bad("parse", "type must be string")
		}
	}
	if !isMap {
		return t
	}
	if t.Kind == "error" {
		t = &Ty{Kind: "error"}
	}
	// examples, defaults, facet definitions and annotations belong to this declaration only
	for _, e := range m {
		switch e.K {
		case "facets":
			fm, ok := asM(e.V)
			if !ok {
				w.err("parse", "facets must be a map")
			}
			t.Defs = nil
			for _, d := range fm {
				p := w.prop(f, d)
				t.Defs = setProp(t.Defs, p)
				t.declared = append(t.declared, p.T)
			}
		case "example":
			w.addExample(f, t, e.V)
		case "default":
			t.Examples = append(t.Examples, w.data(f, e.V))
		case "examples":
			switch x := e.V.(type) {
			case Inc:
				ne := w.load(path.Join(path.Dir(f.path), string(x)), "NamedExample")
				if ne != nil {
					for _, k := range ne.ne {
						w.addExample(ne, t, k.V)
					}
				}
			case M:
				for _, k := range x {
					w.addExample(f, t, k.V)
				}
			default:
				w.err("parse", "examples must be a map")
			}
		default:
			w.annot(f, e)
		}
	}
	w.decls = append(w.decls, t)
	return t
}

// addExample adds an example unless it says that it is not strict.
func (w *World) addExample(f *mfile, t *Ty, v any) {
	data := w.example(f, v)
	if m, ok := v.(M); ok {
		if _, ok := m.get("value"); ok {
			if s, ok := m.get("strict"); ok && s != nil {
				if b := w.bool(s); b == nil || !*b {
					return
				}
			}
		}
	}
	t.Examples = append(t.Examples, data)
}

// example returns the data of an example.
func (w *World) example(f *mfile, v any) any {
	if m, ok := v.(M); ok {
		if val, ok := m.get("value"); ok {
			for _, e := range m {
				w.annot(f, e)
			}
			return w.data(f, val)
		}
	}
	return w.data(f, v)
}

// data converts an abstract data tree to a value.
func (w *World) data(f *mfile, v any) any {
	switch x := v.(type) {
	case M:
		r := map[string]any{}
		for _, e := range x {
			r[e.K] = w.data(f, e.V)
		}
		return r
	case []any:
		r := make([]any, len(x))
		for i, e := range x {
			r[i] = w.data(f, e)
		}
		return r
	case Inc:
		p := path.Join(path.Dir(f.path), string(x))
		t, ok := w.docs.Text[p]
		if !ok {
			w.err("parse", "no data file %s", p)
			return nil
		}
		switch path.Ext(p) {
		case ".json", ".yaml", ".yml":
			v, ok := decodeJSON(t)
			if !ok {
				w.err("parse", "bad data file %s", p)
			}
			return v
		}
		return t
	case Raw: // YAML text that is a timestamp stays a string
		if len(x) > 7 && x[4] == '-' && x[7] == '-' || strings.Count(string(x), ":") == 2 {
			return string(x)
		}
	}
	return v
}

func setProp(ps []Prop, p Prop) []Prop {
	for i := range ps {
		if ps[i].Name == p.Name {
			ps[i] = p
			return ps
		}
	}
	return append(ps, p)
}

// prop applies the naming rule of properties.
func (w *World) prop(f *mfile, e KV) Prop {
	name, q := e.K, false
	if strings.HasSuffix(name, "?") {
		name, q = name[:len(name)-1], true
	}
	req := !q
	if m, ok := e.V.(M); ok {
		if r, ok := m.get("required"); ok && r != nil {
			b, isB := r.(bool)
			if !isB {
				w.err("parse", "required must be boolean")
			}
			req = b
			name = e.K
		}
	}
	return Prop{name, req, w.declTh(f, e.V, e.K)}
}

var facetKinds = map[string]string{"minLength": "L", "maxLength": "L", "pattern": "string", "minimum": "number",
	"maximum": "number", "multipleOf": "number", "minItems": "array", "maxItems": "array", "uniqueItems": "array",
	"items": "array", "minProperties": "object", "maxProperties": "object", "additionalProperties": "object",
	"properties": "object", "discriminator": "object", "fileTypes": "file"}

// impliedKind returns the kind the facets belong to: the set of kinds that have every one of the facets.
func impliedKind(own M) (string, bool) {
	cand := map[string]bool{}
	any := false
	for _, e := range own {
		k, ok := facetKinds[e.K]
		if !ok {
			continue
		}
		any = true
		cand[k] = true
	}
	if !any {
		return "string", true
	}
	l := cand["L"]
	delete(cand, "L")
	switch len(cand) {
	case 0:
		return "string", true
	case 1:
		for k := range cand {
			if l && k != "string" && k != "file" {
				return "", false
			}
			return k, true
		}
	}
	return "", false
}

func (w *World) implied(f *mfile, own M, self *Th) *Ty {
	k, ok := impliedKind(own)
	if !ok {
		return w.bad("parse", "facets of different kinds")
	}
	t := &Ty{Kind: k}
	w.facets(f, t, own, self)
	return t
}

func (w *World) uint(v any) *uint64 {
	n, ok := v.(int)
	if raw, isRaw := v.(Raw); isRaw {
		var i *big.Int
		if i, ok = intOfRaw(raw); ok {
			ok = i.IsInt64()
			n = int(i.Int64())
		}
	}
	if !ok || n < 0 {
		w.err("parse", "not an unsigned number: %v", v)
		return nil
	}
	u := uint64(n)
	return &u
}

func (w *World) bool(v any) *bool {
	b, ok := v.(bool)
	if !ok {
		w.err("parse", "not a boolean: %v", v)
		return nil
	}
	return &b
}

func (w *World) re(v any) *regexp.Regexp {
	s, ok := v.(string)
	if !ok {
		w.err("parse", "not a string: %v", v)
		return nil
	}
	r, err := regexp.Compile(s)
	if err != nil {
		w.err("parse", "bad pattern %q", s)
		return nil
	}
	return r
}

func (w *World) num(v any, integer bool) *big.Rat {
	r, ok := ratOf(v)
	if raw, isRaw := v.(Raw); isRaw {
		r, ok = ratOfRaw(raw)
	}
	if !ok || (integer && !isIntLit(v)) {
		w.err("parse", "not a number: %v", v)
		return nil
	}
	return r
}

func isIntLit(v any) bool {
	switch v.(type) {
	case int, int64, uint64:
		return true
	case Raw:
		_, ok := intOfRaw(v.(Raw))
		return ok
	}
	return false
}

// intOfRaw reads an integer in any notation of YAML: decimal, 0x, 0o, 0 and 0b prefixes, digits parted by "_".
func intOfRaw(raw Raw) (*big.Int, bool) {
	return new(big.Int).SetString(strings.ReplaceAll(string(raw), "_", ""), 0)
}

func ratOfRaw(raw Raw) (*big.Rat, bool) {
	if i, ok := intOfRaw(raw); ok {
		return new(big.Rat).SetInt(i), true
	}
	return new(big.Rat).SetString(strings.ReplaceAll(string(raw), "_", ""))
}

func (w *World) list(f *mfile, v any) ([]any, bool) {
	l, ok := v.([]any)
	if !ok {
		w.err("parse", "not a list: %v", v)
		return nil, false
	}
	out := []any{}
	for _, e := range l {
		out = append(out, w.data(f, e))
	}
	return out, true
}

// facets reads the facets of kind t.Kind; everything else is a custom facet value.
func (w *World) facets(f *mfile, t *Ty, own M, self *Th) {
	for _, e := range own {
		used := true
		switch t.Kind {
		case "integer", "number":
			switch e.K {
			case "minimum":
				t.Min = w.num(e.V, t.Kind == "integer")
			case "maximum":
				t.Max = w.num(e.V, t.Kind == "integer")
			case "multipleOf":
				t.MultipleOf = e.V
			case "format":
				t.Format, _ = e.V.(string)
			case "enum":
				t.Enum, t.HasEnum = w.list(f, e.V)
			default:
				used = false
			}
		case "string":
			switch e.K {
			case "minLength":
				t.MinL = w.uint(e.V)
			case "maxLength":
				t.MaxL = w.uint(e.V)
			case "pattern":
				t.Pattern = w.re(e.V)
			case "enum":
				t.Enum, t.HasEnum = w.list(f, e.V)
			default:
				used = false
			}
		case "file":
			switch e.K {
			case "minLength":
				t.MinL = w.uint(e.V)
			case "maxLength":
				t.MaxL = w.uint(e.V)
			case "fileTypes":
				t.FileTypes, t.HasFT = w.list(f, e.V)
				for _, x := range t.FileTypes {
					if _, ok := x.(string); !ok {
						w.err("parse", "file type must be string")
					}
				}
			default:
				used = false
			}
		case "boolean":
			if e.K == "enum" {
				t.Enum, t.HasEnum = w.list(f, e.V)
			} else {
				used = false
			}
		case "union":
			if e.K == "enum" {
				t.Enum, t.HasEnum = w.list(f, e.V)
			} else {
				used = false
			}
		case "datetime":
			if e.K == "format" {
				t.Format, _ = e.V.(string)
			} else {
				used = false
			}
		case "array":
			switch e.K {
			case "minItems":
				t.MinI = w.uint(e.V)
			case "maxItems":
				t.MaxI = w.uint(e.V)
			case "uniqueItems":
				t.Uniq = w.bool(e.V)
			case "items":
				t.Items = w.declTh(f, e.V, "items")
				t.declared = append(t.declared, t.Items)
			default:
				used = false
			}
		case "object":
			switch e.K {
			case "minProperties":
				t.MinP = w.uint(e.V)
			case "maxProperties":
				t.MaxP = w.uint(e.V)
			case "additionalProperties":
				t.AddP = w.bool(e.V)
			case "discriminator":
				s, ok := e.V.(string)
				if !ok {
					w.err("parse", "discriminator must be a string")
				}
				t.Disc = &s
			case "discriminatorValue":
				t.DiscVal = w.data(f, e.V)
			case "properties":
				m, ok := asM(e.V)
				if !ok {
					w.err("parse", "properties must be a map")
				}
				for _, p := range m {
					w.property(f, t, p)
				}
			default:
				used = false
			}
		default:
			used = false
		}
		if !used {
			t.Custom = append(t.Custom, KV{e.K, w.data(f, e.V)})
		}
	}
}

func (w *World) property(f *mfile, t *Ty, e KV) {
	name := strings.TrimSuffix(e.K, "?")
	if len(name) > 1 && name[0] == '/' && name[len(name)-1] == '/' {
		if m, ok := e.V.(M); ok {
			if r, ok := m.get("required"); ok && r != nil {
				w.err("parse", "required pattern property")
			}
		}
		if name != e.K {
			w.err("parse", "optional pattern property")
		}
		p := Pat{name, w.re(name[1 : len(name)-1]), w.declTh(f, e.V, e.K)}
		t.HasPats = true
		t.declared = append(t.declared, p.T)
		for i := range t.Pats {
			if t.Pats[i].Key == name {
				t.Pats[i] = p
				return
			}
		}
		t.Pats = append(t.Pats, p)
		return
	}
	t.HasProps = true
	p := w.prop(f, e)
	t.declared = append(t.declared, p.T)
	t.Props = setProp(t.Props, p)
}

// ---- inheritance ----

func maxRatErr(c, p *big.Rat, lower bool) (*big.Rat, bool) {
	if c == nil {
		return p, true
	}
	if p == nil {
		return c, true
	}
	if lower {
		return c, c.Cmp(p) >= 0
	}
	return c, c.Cmp(p) <= 0
}

func cnt(c, p *uint64, lower bool) (*uint64, bool) {
	if c == nil {
		return p, true
	}
	if p == nil {
		return c, true
	}
	if lower {
		return c, *c >= *p
	}
	return c, *c <= *p
}

func subset(c, p []any) bool {
	for _, x := range c {
		ok := false
		for _, y := range p {
			if sameData(x, y) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

var intFormats = map[string]int{"int8": 1, "int16": 2, "int32": 3, "int": 3, "int64": 4, "long": 4}

// mergeTh merges lazily.
func (w *World) mergeTh(c, p *Th) *Th {
	return &Th{f: func() *Ty {
		ct, pt := c.get(), p.get()
		m := w.merge(ct, pt)
		if m != nil && m != ct && m.Kind != "error" && pt != nil {
			m.Parents = append(append([]*Ty(nil), m.Parents...), pt) // a redeclared member derives from the inherited one
		}
		return m
	}}
}

// merge narrows child by parent.
func (w *World) merge(child, parent *Ty) *Ty {
	if child == nil || parent == nil {
		return &Ty{Kind: "error"}
	}
	if child == parent {
		return child
	}
	if child.Kind == "error" || parent.Kind == "error" {
		return &Ty{Kind: "error"}
	}
	key := [2]*Ty{child, parent}
	if m, ok := w.pairs[key]; ok {
		return m
	}
	w.limit++
	r := new(Ty)
	w.pairs[key] = r
	*r = *child
	r.merged = true
	r.errs = append(append([]string(nil), child.errs...), parent.errs...)
	r.Custom = append([]KV(nil), child.Custom...)
	for _, e := range parent.Custom {
		if _, ok := M(r.Custom).get(e.K); !ok {
			r.Custom = append(r.Custom, e)
		}
	}
	if parent.Kind == "any" {
		return r
	}
	fail := func(format string, a ...any) { r.errs = append(r.errs, fmt.Sprintf(format, a...)) }
	switch {
	case parent.Kind == "union" && child.Kind != "union":
		var ok []*Th
		for _, m := range parent.AnyOf {
			mt := m.get()
			if mt == nil {
				continue
			}
			if w.hasAny(mt, nil) {
				return w.enumOver(r, parent)
			}
			if mt.Kind != child.Kind && mt.Kind != "union" {
				continue
			}
			x := w.merge(child, mt)
			if !w.failed(x) {
				if x != child && mt.Kind != "union" {
					// the facets that come from the member are defined by the types it derives from
					x.Parents = append(append([]*Ty(nil), x.Parents...), mt.Parents...)
				}
				ok = append(ok, now(x))
			}
		}
		if len(ok) == 0 {
			fail("no compatible union member")
			return r
		}
		if len(ok) == 1 {
			custom, errs := r.Custom, parent.errs
			x := ok[0].get()
			*r = *x // with the parents of x
			r.Custom = custom
			r.errs = append(append([]string(nil), errs...), x.errs...)
			for _, e := range x.Custom {
				if _, dup := M(r.Custom).get(e.K); !dup {
					r.Custom = append(r.Custom, e)
				}
			}
			return w.enumOver(r, parent)
		}
		*r = Ty{Kind: "union", AnyOf: ok, Custom: r.Custom, errs: r.errs, Defs: r.Defs, Examples: r.Examples, Parents: r.Parents,
			Name: r.Name, merged: true}
		return w.enumOver(r, parent)
	case child.Kind == "union" && parent.Kind != "union":
		r.AnyOf = nil
		for _, m := range child.AnyOf {
			x := w.merge(m.get(), parent)
			if w.failed(x) {
				fail("union member does not narrow the parent")
			}
			r.AnyOf = append(r.AnyOf, now(x))
		}
		return r
	}
	if child.Kind != parent.Kind {
		fail("kind %s over %s", child.Kind, parent.Kind)
		return r
	}
	if parent.HasEnum {
		if !r.HasEnum {
			r.Enum, r.HasEnum = parent.Enum, true
		} else if !subset(r.Enum, parent.Enum) {
			fail("enum")
		}
	}
	var ok bool
	chk := func(what string) {
		if !ok {
			fail("%s", what)
		}
	}
	switch r.Kind {
	case "integer", "number":
		r.Min, ok = maxRatErr(r.Min, parent.Min, true)
		chk("minimum")
		r.Max, ok = maxRatErr(r.Max, parent.Max, false)
		chk("maximum")
		if r.MultipleOf == nil {
			r.MultipleOf = parent.MultipleOf
		}
		if r.Format == "" {
			r.Format = parent.Format
		} else if parent.Format != "" {
			if r.Kind == "integer" && intFormats[r.Format] != intFormats[parent.Format] ||
				r.Kind == "number" && r.Format != parent.Format {
				fail("format")
			}
		}
	case "string", "file":
		r.MinL, ok = cnt(r.MinL, parent.MinL, true)
		chk("minLength")
		r.MaxL, ok = cnt(r.MaxL, parent.MaxL, false)
		chk("maxLength")
		if r.Pattern == nil {
			r.Pattern = parent.Pattern
		}
		if parent.HasFT {
			if !r.HasFT {
				r.FileTypes, r.HasFT = parent.FileTypes, true
			} else if !subset(r.FileTypes, parent.FileTypes) {
				fail("fileTypes")
			}
		}
	case "datetime":
		if r.Format == "" {
			r.Format = parent.Format
		} else if parent.Format != "" && r.Format != parent.Format {
			fail("format")
		}
	case "array":
		r.MinI, ok = cnt(r.MinI, parent.MinI, true)
		chk("minItems")
		r.MaxI, ok = cnt(r.MaxI, parent.MaxI, false)
		chk("maxItems")
		if r.Uniq == nil {
			r.Uniq = parent.Uniq
		} else if parent.Uniq != nil && *parent.Uniq && !*r.Uniq {
			fail("uniqueItems")
		}
		if r.Items == nil {
			r.Items = parent.Items
		} else if parent.Items != nil {
			r.Items = w.mergeTh(child.Items, parent.Items)
		}
	case "object":
		r.MinP, ok = cnt(r.MinP, parent.MinP, true)
		chk("minProperties")
		r.MaxP, ok = cnt(r.MaxP, parent.MaxP, false)
		chk("maxProperties")
		if r.AddP == nil {
			r.AddP = parent.AddP
		}
		if r.Disc == nil {
			r.Disc = parent.Disc
		}
		r.HasProps = child.HasProps || parent.HasProps
		r.HasPats = child.HasPats || parent.HasPats
		r.Props = append([]Prop(nil), child.Props...)
		for _, pp := range parent.Props {
			i := findProp(r.Props, pp.Name)
			if i < 0 {
				r.Props = append(r.Props, pp)
				continue
			}
			if pp.Req && !r.Props[i].Req {
				fail("required property %s made optional", pp.Name)
			}
			r.Props[i].T = w.mergeTh(r.Props[i].T, pp.T)
		}
		r.Pats = append([]Pat(nil), child.Pats...)
	outer:
		for _, pp := range parent.Pats {
			for i := range r.Pats {
				if r.Pats[i].Key == pp.Key {
					r.Pats[i].T = w.mergeTh(r.Pats[i].T, pp.T)
					continue outer
				}
			}
			r.Pats = append(r.Pats, pp)
		}
	case "union":
		if len(child.AnyOf) == 0 {
			r.AnyOf = parent.AnyOf
			return r
		}
		r.AnyOf = nil
		for _, c := range child.AnyOf {
			n := 0
			for _, p := range parent.AnyOf {
				ct, pt := c.get(), p.get()
				if ct == nil || pt == nil {
					continue
				}
				if ct.Kind != pt.Kind && ct.Kind != "union" && pt.Kind != "union" && pt.Kind != "any" {
					continue
				}
				x := w.merge(ct, pt)
				if !w.failed(x) {
					r.AnyOf = append(r.AnyOf, now(x))
					n++
				}
			}
			if n == 0 {
				fail("union alternative without a counterpart")
			}
		}
	}
	return r
}

// enumOver restricts a type that narrows a union to the enumeration of the union.
func (w *World) enumOver(r, union *Ty) *Ty {
	if !union.HasEnum {
		return r
	}
	if r.HasEnum && !subset(r.Enum, union.Enum) {
		r.errs = append(r.errs, "enum")
		return r
	}
	if r.HasEnum {
		return r
	}
	var keep []any
	for _, e := range union.Enum {
		if w.Accepts(r, e) {
			keep = append(keep, e)
		}
	}
	if len(keep) == 0 {
		r.errs = append(r.errs, "no enum value in common")
	}
	r.Enum, r.HasEnum = keep, true
	return r
}

// hasAny tells whether a union member makes the union accept anything.
func (w *World) hasAny(t *Ty, _ map[*Ty]bool) bool { return t.Kind == "any" }

func findProp(ps []Prop, n string) int {
	for i := range ps {
		if ps[i].Name == n {
			return i
		}
	}
	return -1
}

func (t *Ty) children() []*Th {
	var l []*Th
	if t.Items != nil {
		l = append(l, t.Items)
	}
	for _, p := range t.Props {
		l = append(l, p.T)
	}
	for _, p := range t.Pats {
		l = append(l, p.T)
	}
	l = append(l, t.AnyOf...)
	return l
}

// failed tells whether a merge error is reachable from t.
func (w *World) failed(t *Ty) bool {
	bad := false
	w.walk(t, map[*Ty]bool{}, func(x *Ty) {
		if len(x.errs) > 0 || x.Kind == "error" {
			bad = true
		}
	})
	return bad
}

func (w *World) walk(t *Ty, seen map[*Ty]bool, f func(*Ty)) {
	if t == nil || seen[t] || w.limit > 20000 {
		return
	}
	seen[t] = true
	f(t)
	for _, c := range t.children() {
		w.walk(c.get(), seen, f)
	}
}

// ---- verdict ----

// Verdict evaluates everything and returns the categories of problems.
//
//	parse, ref: malformed declarations, names that do not resolve
//	merge: a declaration that does not narrow its parents
//	check: contradictory constraints
//	facet, example, annot: custom facet, example and annotation rules
func (w *World) Verdict() map[string]bool {
	// Everything written is evaluated: named types, nested declarations, facet definitions.
	var roots []*Ty
	rootSeen := map[*Ty]bool{}
	add := func(t *Ty) {
		if t == nil {
			w.err("ref", "cyclic type")
			return
		}
		if !rootSeen[t] {
			rootSeen[t] = true
			roots = append(roots, t)
		}
	}
	for i := 0; i < len(w.forder); i++ {
		f := w.files[w.forder[i]]
		for _, n := range f.aorder {
			add(f.annots[n].get())
		}
		for _, n := range f.order {
			add(f.types[n].get())
		}
		if f.dt != nil {
			add(f.dt.get())
		}
	}
	seen := map[*Ty]bool{}
	forced := map[*Th]bool{}
	var queue []*Ty
	queue = append(queue, roots...)
	out := map[string]bool{}
	for {
		// nested declarations may load further files, which add roots
		for len(queue) > 0 || len(w.decls) > 0 {
			if len(queue) == 0 {
				queue, w.decls = w.decls, nil
			}
			t := queue[0]
			queue = queue[1:]
			for _, th := range t.declared {
				if forced[th] {
					continue
				}
				forced[th] = true
				if x := th.get(); x == nil {
					w.err("ref", "cyclic type")
				} else {
					queue = append(queue, x)
				}
			}
		}
		break
	}
	for _, f := range w.forder {
		mf := w.files[f]
		if mf.dt != nil {
			add(mf.dt.get())
		}
		for _, n := range mf.aorder {
			add(mf.annots[n].get())
		}
		for _, n := range mf.order {
			add(mf.types[n].get())
		}
	}
	check := func(t *Ty) {
		for _, e := range t.errs {
			w.err("merge", "%s", e)
		}
		if t.Kind == "union" && w.selfUnion(t, map[*Ty]int{}) {
			w.err("merge", "union contains itself")
		}
		for _, c := range w.contradictions(t) {
			w.err("check", "%s", c)
		}
		for _, c := range w.facetErrs(t) {
			w.err("facet", "%s", c)
		}
		if w.selfUnionSafe(t) {
			for _, e := range t.Examples {
				if !w.Accepts(t, e) {
					w.err("example", "%s rejects %s", t.Kind, js(e))
				}
			}
		}
	}
	var visit func(t *Ty)
	visit = func(t *Ty) {
		if t == nil || seen[t] || w.limit > 20000 {
			return
		}
		seen[t] = true
		check(t)
		for _, c := range t.children() {
			visit(c.get())
		}
		for _, d := range t.Defs {
			visit(d.T.get())
		}
	}
	for i := 0; i < len(roots); i++ {
		visit(roots[i])
	}
	for _, a := range w.annots {
		th := w.lookupAnnot(a.file, a.name)
		if th == nil {
			w.err("ref", "no annotation type %s", a.name)
			continue
		}
		if t := th.get(); t != nil && !w.Accepts(t, a.val) {
			w.err("annot", "%s rejects %s", a.name, js(a.val))
		}
	}
	for k := range w.errs {
		out[k] = true
	}
	return out
}

func (w *World) selfUnionSafe(t *Ty) bool {
	ok := true
	w.walk(t, map[*Ty]bool{}, func(x *Ty) {
		if x.Kind == "union" && w.selfUnion(x, map[*Ty]int{}) {
			ok = false
		}
	})
	return ok
}

// selfUnion tells whether a union is an alternative of itself.
func (w *World) selfUnion(t *Ty, st map[*Ty]int) bool {
	if t == nil || t.Kind != "union" {
		return false
	}
	switch st[t] {
	case 1:
		return true
	case 2:
		return false
	}
	st[t] = 1
	for _, m := range t.AnyOf {
		if w.selfUnion(m.get(), st) {
			return true
		}
	}
	st[t] = 2
	return false
}

func above(a, b *uint64) bool { return a != nil && b != nil && *a > *b }

// contradictions of one type node.
func (w *World) contradictions(t *Ty) []string {
	var out []string
	add := func(s string) { out = append(out, s) }
	if t.Min != nil && t.Max != nil && t.Min.Cmp(t.Max) > 0 {
		add("minimum above maximum")
	}
	if above(t.MinL, t.MaxL) || above(t.MinI, t.MaxI) || above(t.MinP, t.MaxP) {
		add("lower bound above upper bound")
	}
	for _, e := range t.Enum {
		ok := true
		switch t.Kind {
		case "integer":
			switch e.(type) {
			case int, int64, uint64:
			default:
				ok = false
			}
		case "number":
			_, ok = ratOf(e)
		case "string":
			_, ok = e.(string)
		case "boolean":
			_, ok = e.(bool)
		}
		if !ok {
			add("enumeration value of a wrong kind")
		}
	}
	if t.Kind == "object" {
		if t.HasPats && t.AddP != nil && !*t.AddP {
			add("pattern properties on a closed object")
		}
		if t.Disc != nil {
			i := findProp(t.Props, *t.Disc)
			if i < 0 {
				add("discriminator is not a property")
			} else if p := t.Props[i].T.get(); p != nil {
				if !scalarKinds[p.Kind] {
					add("discriminator is not scalar")
				} else if t.DiscVal != nil && !w.Accepts(p, t.DiscVal) {
					add("discriminator value")
				}
			}
		}
	}
	return out
}

// ancestors returns all parents, nearest first.
func ancestors(t *Ty) []*Ty {
	var out []*Ty
	seen := map[*Ty]bool{}
	var rec func(x *Ty)
	rec = func(x *Ty) {
		for _, p := range x.Parents {
			if !seen[p] {
				seen[p] = true
				out = append(out, p)
				rec(p)
			}
		}
	}
	rec(t)
	return out
}

func (w *World) facetErrs(t *Ty) []string {
	var out []string
	var defs []Prop
	known := map[string]bool{}
	for _, a := range ancestors(t) {
		for _, d := range a.Defs {
			if findProp(t.Defs, d.Name) >= 0 {
				out = append(out, "custom facet "+d.Name+" redefined")
			}
			defs = append(defs, d)
			known[d.Name] = true
		}
	}
	for _, d := range defs {
		n := d.Name
		v, ok := M(t.Custom).get(n)
		if !ok {
			if d.Req {
				out = append(out, "custom facet "+n+" missing")
			}
			continue
		}
		if dt := d.T.get(); dt != nil && !w.Accepts(dt, v) {
			out = append(out, "custom facet "+n+" has a bad value")
		}
	}
	for _, e := range t.Custom {
		if !known[e.K] {
			out = append(out, "unknown facet "+e.K)
		}
	}
	return out
}

// ---- acceptance ----

func ratOf(v any) (*big.Rat, bool) {
	switch n := v.(type) {
	case int:
		return new(big.Rat).SetInt64(int64(n)), true
	case int64:
		return new(big.Rat).SetInt64(n), true
	case uint:
		return new(big.Rat).SetUint64(uint64(n)), true
	case uint64:
		return new(big.Rat).SetUint64(n), true
	case float64:
		if math.IsInf(n, 0) || math.IsNaN(n) {
			return nil, false
		}
		return new(big.Rat).SetFloat64(n), true
	case *big.Rat:
		return n, true
	}
	return nil, false
}

// sameData compares data; numbers compare by value.
func sameData(a, b any) bool {
	ra, oka := ratOf(a)
	rb, okb := ratOf(b)
	if oka || okb {
		return oka && okb && ra.Cmp(rb) == 0
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameData(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !sameData(x[k], v) {
				return false
			}
		}
		return true
	}
	return a == b
}

func inBounds(n uint64, lo, hi *uint64) bool {
	return (lo == nil || n >= *lo) && (hi == nil || n <= *hi)
}

func digits(s string, lo, hi int) (int, bool) {
	if s == "" {
		return 0, false
	}
	n := 0
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, n >= lo && n <= hi
}

func isDate(s string) bool {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return false
	}
	y, ok1 := digits(s[:4], 0, 9999)
	m, ok2 := digits(s[5:7], 1, 12)
	if !ok1 || !ok2 {
		return false
	}
	dm := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		dm = 29
	}
	_, ok := digits(s[8:], 1, dm)
	return ok
}

func isTime(s string) bool {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		if _, ok := digits(s[i+1:], 0, math.MaxInt); !ok {
			return false
		}
		s = s[:i]
	}
	if len(s) != 8 || s[2] != ':' || s[5] != ':' {
		return false
	}
	_, a := digits(s[:2], 0, 23)
	_, b := digits(s[3:5], 0, 59)
	_, c := digits(s[6:], 0, 59)
	return a && b && c
}

func isDateTimeOnly(s string) bool {
	return len(s) > 11 && s[10] == 'T' && isDate(s[:10]) && isTime(s[11:])
}

func isRFC3339(s string) bool {
	if strings.HasSuffix(s, "Z") {
		return isDateTimeOnly(s[:len(s)-1])
	}
	if len(s) < 6 {
		return false
	}
	o := s[len(s)-6:]
	if (o[0] != '+' && o[0] != '-') || o[3] != ':' {
		return false
	}
	_, a := digits(o[1:3], 0, 23)
	_, b := digits(o[4:], 0, 59)
	return a && b && isDateTimeOnly(s[:len(s)-6])
}

func isRFC2616(s string) bool {
	// Mon, 02 Jan 2006 15:04:05 GMT
	if len(s) != 29 || s[3:5] != ", " || s[25:] != " GMT" || s[7] != ' ' || s[11] != ' ' || s[16] != ' ' {
		return false
	}
	if !strings.Contains("Mon Tue Wed Thu Fri Sat Sun", s[:3]) || strings.Contains(s[:3], " ") {
		return false
	}
	mi := strings.Index("JanFebMarAprMayJunJulAugSepOctNovDec", s[8:11])
	if mi < 0 || mi%3 != 0 {
		return false
	}
	return isDate(fmt.Sprintf("%s-%02d-%s", s[12:16], mi/3+1, s[5:7])) && isTime(s[17:25])
}

// Accepts is the meaning of a type.
func (w *World) Accepts(t *Ty, v any) bool {
	if t == nil {
		return false
	}
	if t.HasEnum {
		ok := false
		for _, e := range t.Enum {
			if sameData(e, v) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	switch t.Kind {
	case "any", "json":
		return true
	case "nil":
		return v == nil
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "integer", "number":
		r, ok := ratOf(v)
		if !ok || t.Kind == "integer" && !r.IsInt() {
			return false
		}
		return (t.Min == nil || r.Cmp(t.Min) >= 0) && (t.Max == nil || r.Cmp(t.Max) <= 0)
	case "string":
		s, ok := v.(string)
		return ok && inBounds(uint64(utf8.RuneCountInString(s)), t.MinL, t.MaxL) &&
			(t.Pattern == nil || t.Pattern.MatchString(s))
	case "file":
		s, ok := v.(string)
		return ok && inBounds(uint64(len(s)), t.MinL, t.MaxL)
	case "date-only":
		s, ok := v.(string)
		return ok && isDate(s)
	case "time-only":
		s, ok := v.(string)
		return ok && isTime(s)
	case "datetime-only":
		s, ok := v.(string)
		return ok && isDateTimeOnly(s)
	case "datetime":
		s, ok := v.(string)
		if t.Format == "rfc2616" {
			return ok && isRFC2616(s)
		}
		return ok && isRFC3339(s)
	case "array":
		l, ok := v.([]any)
		if !ok || !inBounds(uint64(len(l)), t.MinI, t.MaxI) {
			return false
		}
		for _, e := range l {
			if t.Items != nil && !w.Accepts(t.Items.get(), e) {
				return false
			}
		}
		if t.Uniq != nil && *t.Uniq {
			for i := range l {
				for j := range l[:i] {
					if sameData(l[i], l[j]) {
						return false
					}
				}
			}
		}
		return true
	case "object":
		m, ok := v.(map[string]any)
		if !ok || !inBounds(uint64(len(m)), t.MinP, t.MaxP) {
			return false
		}
		for _, p := range t.Props {
			if _, ok := m[p.Name]; !ok && p.Req {
				return false
			}
		}
		for k, e := range m {
			if i := findProp(t.Props, k); i >= 0 {
				if !w.Accepts(t.Props[i].T.get(), e) {
					return false
				}
				continue
			}
			if t.AddP != nil && !*t.AddP {
				return false
			}
			matched, good := false, false
			for _, p := range t.Pats {
				if p.Re != nil && p.Re.MatchString(k) {
					matched = true
					if w.Accepts(p.T.get(), e) {
						good = true
					}
				}
			}
			if matched && !good {
				return false
			}
		}
		return true
	case "union":
		for _, m := range t.AnyOf {
			if w.Accepts(m.get(), v) {
				return true
			}
		}
		return false
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func cats(m map[string]bool) string { return strings.Join(sortedKeys(m), ",") }
