package main

// C23: a declaration that is written with a value of the wrong kind is refused, and one that is accepted is in effect as written.

import (
	"fmt"
	"math/big"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

const mark23 = "the marked declaration"

const incText = "included: text\n"

type want23 struct {
	ok    bool // must be accepted (or must be refused)
	open  bool // either is right
	late  bool // only validation has to refuse it
	value any  // what the model must report, if accepted; nothing for no23
}

type none23 struct{}

var no23 = none23{}

func refuse() want23      { return want23{value: no23} }
func accept(v any) want23 { return want23{ok: true, value: v} }
func either(v any) want23 { return want23{open: true, value: v} }
func isList(v any) bool   { _, ok := v.([]any); return ok }
func isMap(v any) bool    { _, ok := v.(M); return ok }
func rawNum(v any) *big.Rat {
	r, ok := v.(Raw)
	x, _ := new(big.Rat).SetString(string(r))
	return map[bool]*big.Rat{true: x}[ok]
}
func scalarText(v any) string { return strings.TrimSpace(flow(v)) }

// values written at every position.
func values23(thorough bool) []any {
	out := []any{nil, true, false, 0, 1, 5, -5, 1.5, -0.5, Raw("5.0"), Raw("1e1"), Raw("-2.0"), Raw("1e30"), Raw("2.0000001"), Raw(".inf"), Raw("2020-01-01"), "", "word", "5", "true", "null", "string", "kind", "1.5",
		l(), l("word"), l("string"), l(1), l(true), l(nil), l("word", 1), l(l("word")), l(M{{"a", 1}}), M{}, M{{"a", "string"}}, M{{"a", 1}}, M{{"a", nil}}, M{{"value", 1}}, M{{"value", "x"}}, Inc("f.txt"), Inc("missing.txt")}
	if thorough {
		out = append(out, 255, 65536, Raw("9007199254740993"), Raw("18446744073709551615"), Raw("18446744073709551616"), Raw("-0"), Raw("0.5"), Raw("1e-1"), Raw(".nan"), Raw("-.inf"), "yes", "1e1", " ", "a b", "[a]", "é",
			l("kind"), l(l()), l(M{}), l("a", "a"), l("a", nil), M{{"", "string"}}, M{{"a", l()}}, M{{"a", M{}}}, M{{"a", l("string")}}, M{{"a", "string"}, {"b", 1}}, M{{"b", 1}, {"a", "string"}}, Inc("g.yaml"))
	}
	return out
}

func count23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(nil)
	case int:
		if x >= 0 {
			return accept(uint64(x))
		}
	case Raw:
		if n, err := strconv.ParseUint(string(x), 10, 64); err == nil {
			return accept(n)
		}
		if r := rawNum(v); r != nil && r.IsInt() && r.Num().IsUint64() {
			return either(r.Num().Uint64())
		}
	}
	return refuse()
}

func bool23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(no23)
	case bool:
		return accept(x)
	case string:
		if x == "yes" || x == "true" {
			return either(no23)
		}
	}
	return refuse()
}

func text23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(no23)
	case string:
		return accept(x)
	case Inc:
		switch x {
		case "f.txt":
			return accept(incText)
		case "g.yaml":
			return refuse()
		}
		return refuse()
	}
	if isList(v) || isMap(v) {
		return refuse()
	}
	return either(scalarText(v))
}

func pattern23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(no23)
	case string:
		return accept(x)
	case Inc:
		if x == "f.txt" {
			return either(incText)
		}
	}
	return refuse()
}

func number23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(no23)
	case int:
		return accept(float64(x))
	case float64:
		return accept(x)
	case Raw:
		if strings.HasSuffix(string(x), "inf") || strings.HasSuffix(string(x), "nan") {
			return either(no23)
		}
		if r := rawNum(v); r != nil {
			f, _ := r.Float64()
			return accept(f)
		}
	}
	return refuse()
}

func integer23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return either(no23)
	case int:
		return accept(strconv.Itoa(x))
	case Raw:
		if r := rawNum(v); r != nil && r.IsInt() {
			if !r.Num().IsUint64() && !r.Num().IsInt64() {
				return either(no23)
			}
			if strings.ContainsAny(string(x), ".eE") {
				return either(r.Num().String())
			}
			return accept(r.Num().String())
		}
	}
	return refuse()
}

func multiple23(v any) want23 {
	w := number23(v)
	if f, ok := w.value.(float64); ok && f <= 0 {
		w.open = true
	}
	return w
}

func list23(fits func(any) bool) func(any) want23 {
	return func(v any) want23 {
		x, ok := v.([]any)
		if v == nil || ok && len(x) == 0 {
			return either(no23)
		}
		if v == Inc("g.yaml") {
			return either(no23)
		}
		if !ok {
			return refuse()
		}
		for _, e := range x {
			if !fits(e) {
				return want23{late: true, value: no23}
			}
		}
		return accept(no23)
	}
}

func isText(v any) bool { _, ok := v.(string); return ok }

func word23(words ...string) func(any) want23 {
	return func(v any) want23 {
		if v == nil {
			return either(no23)
		}
		for _, w := range words {
			if v == w {
				return accept(w)
			}
		}
		return want23{late: true, value: no23}
	}
}

// typed23 tells whether a type may be declared by the value.
func typed23(v any) want23 {
	switch x := v.(type) {
	case nil:
		return accept(no23)
	case string:
		switch strings.TrimSpace(x) {
		case "string":
			return accept(no23)
		case "":
			return either(no23)
		}
	case []any:
		for _, e := range x {
			if e == nil {
				return either(no23)
			}
			if e != "string" {
				return refuse()
			}
		}
		if len(x) > 0 {
			return accept(no23)
		}
	case M:
		if len(x) == 0 {
			return accept(no23)
		}
		return want23{late: true, value: no23} // unknown facets
	}
	return refuse()
}

func typeName23(v any) want23 {
	if isMap(v) {
		return refuse()
	}
	return typed23(v)
}

func declMap23(v any) want23 {
	m, ok := v.(M)
	if v == nil {
		return either(no23)
	}
	if !ok {
		return refuse()
	}
	w, bad := accept(no23), false
	w.late = true
	for _, e := range m {
		x := typed23(e.V)
		if !x.ok && !x.open {
			bad = true
			w.late = w.late && x.late
		}
		w.open = w.open || x.open || e.K == ""
	}
	if bad {
		return want23{late: w.late, value: no23}
	}
	return w
}

// facetMap23 judges facet definitions; a type derived from the declaration has to set those that are required.
func facetMap23(v any) want23 {
	w := declMap23(v)
	if m, ok := v.(M); ok && len(m) > 0 && w.ok {
		w.open = true
	}
	return w
}

func facetRequired23(v any) want23 {
	w := bool23(v)
	w.open = w.open || v == true
	return w
}

func useMap23(v any) want23 {
	m, ok := v.(M)
	if v == nil {
		return either(no23)
	}
	if !ok || len(m) > 0 {
		return refuse()
	}
	return accept(no23)
}

func exampleMap23(v any) want23 {
	if v == nil || isMap(v) {
		return either(no23)
	}
	return refuse()
}

// facet23 is a facet of a host declaration.
type facet23 struct {
	host  M
	key   string
	judge func(any) want23
	field string // path of the field of the model
	// at says where in the declaration the facet is, with the marked declaration around it
	at func(M) any
	// wide facets are common to many hosts: they are nested less deeply
	wide bool
}

func facets23() []facet23 {
	var out []facet23
	add := func(host M, judge func(any) want23, pairs ...string) {
		for i := 0; i < len(pairs); i += 2 {
			out = append(out, facet23{host: host, key: pairs[i], field: pairs[i+1], judge: judge})
		}
	}
	h := func(t string) M { return M{{"type", t}} }
	add(h("string"), count23, "minLength", "MinLength", "maxLength", "MaxLength")
	add(h("string"), pattern23, "pattern", "Pattern")
	add(h("file"), count23, "minLength", "MinLength", "maxLength", "MaxLength")
	add(h("file"), list23(isText), "fileTypes", "")
	add(h("array"), count23, "minItems", "MinItems", "maxItems", "MaxItems")
	add(h("array"), bool23, "uniqueItems", "UniqueItems")
	add(h("array"), typed23, "items", "")
	add(h("object"), count23, "minProperties", "MinProperties", "maxProperties", "MaxProperties")
	add(h("object"), bool23, "additionalProperties", "AdditionalProperties")
	add(h("object"), declMap23, "properties", "")
	add(M{{"type", "object"}, {"properties", M{{"kind", "string"}}}}, word23("kind"), "discriminator", "Discriminator")
	add(h("number"), number23, "minimum", "Minimum", "maximum", "Maximum")
	add(h("number"), multiple23, "multipleOf", "MultipleOf")
	add(h("integer"), integer23, "minimum", "Minimum", "maximum", "Maximum")
	add(h("integer"), multiple23, "multipleOf", "MultipleOf")
	add(h("integer"), word23("int8"), "format", "Format")
	add(h("number"), word23("float"), "format", "Format")
	add(h("datetime"), word23("rfc3339"), "format", "Format")
	add(h("string"), list23(isText), "enum", "")
	add(h("integer"), list23(func(v any) bool { _, ok := v.(int); return ok }), "enum", "")
	add(h("boolean"), list23(func(v any) bool { _, ok := v.(bool); return ok }), "enum", "")
	for _, t := range []string{"string", "integer", "boolean", "object", "array", "any", "nil", "datetime-only", "file", "string[]", "string | nil"} {
		add(h(t), text23, "displayName", "DisplayName")
		add(h(t), exampleMap23, "examples", "")
		add(h(t), facetMap23, "facets", "")
		for i := range out[len(out)-3:] {
			out[len(out)-3+i].wide = t != "string" && t != "object"
		}
	}
	add(M{}, facetMap23, "facets", "")
	add(M{}, declMap23, "properties", "")
	add(M{}, typeName23, "type", "")
	add(M{}, typed23, "items", "")
	// of members and examples
	at := func(key string, judge func(any) want23, field string, f func(M) any) {
		out = append(out, facet23{key: key, judge: judge, field: field, at: f})
	}
	at("required", bool23, "", func(m M) any { return M{{"properties", M{{"r", cat(M{{"type", "string"}}, m)}}}} })
	at("required", facetRequired23, "", func(m M) any { return M{{"type", "string"}, {"facets", M{{"r?", cat(M{{"type", "string"}}, m)}}}} })
	at("p", typed23, "", func(m M) any { return M{{"properties", m}} })
	at("p?", typed23, "", func(m M) any { return M{{"properties", cat(M{{"q?", "string"}}, m)}} })
	at("/p/", typed23, "", func(m M) any { return M{{"properties", m}} })
	at("f?", typed23, "", func(m M) any { return M{{"type", "string"}, {"facets", m}} })
	for _, single := range []bool{true, false} {
		ex := func(m M) any {
			e := cat(M{{"value", "x"}}, m)
			if single {
				return M{{"type", "string"}, {"description", mark23}, {"example", e}}
			}
			return M{{"type", "string"}, {"description", mark23}, {"examples", M{{"e", e}, {"f", "y"}}}}
		}
		p := map[bool]string{true: "Example.", false: "Examples.e."}[single]
		at("strict", bool23, p+"Strict", ex)
		at("displayName", text23, p+"DisplayName", ex)
		at("description", text23, p+"Description", ex)
	}
	return out
}

func fieldOf(b *raml.BaseShape, path string) (any, bool) {
	v := reflect.ValueOf(b)
	for _, p := range strings.Split(path, ".") {
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return nil, false
		}
		if x, ok := v.Addr().Interface().(*raml.Examples); ok {
			e, ok := x.Map.Get(p)
			if !ok {
				return nil, false
			}
			v = reflect.ValueOf(e)
			continue
		}
		f := v.FieldByName(p)
		if !f.IsValid() {
			s := v.FieldByName("Shape")
			if !s.IsValid() || s.IsNil() {
				return nil, false
			}
			f = s.Elem().Elem().FieldByName(p)
		}
		if !f.IsValid() {
			return nil, false
		}
		v = f
	}
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil, true
		}
		if s, ok := v.Interface().(fmt.Stringer); ok {
			return s.String(), true
		}
		v = v.Elem()
	}
	return v.Interface(), true
}

// marked finds the types of the model that carry the mark.
func marked(rm *raml.RAML) []*raml.BaseShape {
	x := newDumper()
	x.whole = true
	x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	var out []*raml.BaseShape
	for p := range x.objs {
		if b, ok := p.(*raml.BaseShape); ok && b.Description != nil && *b.Description == mark23 {
			out = append(out, b)
		}
	}
	return out
}

func withTexts(d *DocSet) *DocSet {
	dirs := map[string]bool{}
	for _, p := range d.Paths {
		dirs[filepath.Dir(p)] = true
	}
	for _, dir := range sortedKeys(dirs) {
		d.Raw(filepath.Join(dir, "f.txt"), incText)
		d.Raw(filepath.Join(dir, "g.yaml"), "a: 1\n")
	}
	return d
}

func c23run(r *Run, d *DocSet, what string, w want23, field string) {
	for _, unwrap := range []bool{false, true} {
		for _, validate := range []bool{false, true} {
			rm, err := d.Parse(r.Dir, unwrap, validate)
			r.Eval(1)
			if !w.open && (err == nil) != w.ok && (w.ok || validate || !w.late) {
				r.Fail(sigOf(d, what), fmt.Sprintf("[%s, unwrap=%v validate=%v] accepted=%v, must be %v: %s\n%s", what, unwrap, validate, err == nil, w.ok, errText(err), d.String()), "")
				return
			}
			if err != nil {
				r.Class("refused")
				continue
			}
			r.Class("accepted")
			if field == "" || w.value == no23 || unwrap {
				continue
			}
			bs := marked(rm)
			if len(bs) == 0 {
				r.Fail(sigOf(d, what), "["+what+"] the declaration is not in the model\n"+d.String(), "")
				return
			}
			for _, b := range bs {
				got, ok := fieldOf(b, field)
				r.Note("delivered values", 1)
				if !ok || !reflect.DeepEqual(got, w.value) {
					r.Fail(sigOf(d, what), fmt.Sprintf("[%s, validate=%v] the model reports %s = %#v (%v), written is %#v\n%s", what, validate, field, got, ok, w.value, d.String()), "")
					return
				}
			}
		}
	}
}

func genC23(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	run := func(d *DocSet, what string, w want23, field string) {
		withTexts(d)
		emit(Case{Doc: d, Label: func() string { return what + "\n" + d.String() }, Run: func(r *Run) { c23run(r, d, what, w, field) }})
	}
	vals := values23(thorough)
	depth := 1
	if thorough {
		depth = 2
	}
	chains := wrapChains(depth)
	for _, f := range facets23() {
		for _, v := range vals {
			w := f.judge(v)
			var t any
			if f.at != nil {
				t = f.at(M{{f.key, v}})
			} else {
				t = cat(f.host, M{{f.key, v}, {"description", mark23}})
			}
			for _, pl := range places {
				for _, c := range chains {
					m, _ := t.(M)
					if _, has := m.get("facets"); has && endsInFacetDef(append([]wrapper{}, c...)) {
						continue
					}
					inFacets := false
					for _, x := range c {
						inFacets = inFacets || x.name == "facet definition"
					}
					if inFacets && f.key == "facets" || inFacets && m != nil && strings.Contains(flow(m), `"facets"`) {
						continue // facet definitions have no facet definitions of their own
					}
					if f.wide && len(c) > 1 {
						continue
					}
					d := pl.mk(plain(f.key, t), c)
					name := f.key + " of " + flow(f.host) + " = " + flow(v) + " in " + pl.name + chainName(c)
					run(d, name, w, f.field)
				}
			}
		}
	}
	// sections of files
	for _, v := range vals {
		for _, s := range []struct {
			key   string
			judge func(any) want23
		}{{"types", declMap23}, {"annotationTypes", declMap23}, {"uses", useMap23}, {"usage", text23}} {
			for _, with := range []M{nil, {{"usage", "u"}}, {{"types", M{{"T", "string"}}}}, {{"annotationTypes", M{{"T", "string"}}}}} {
				if len(with) > 0 && with[0].K == s.key {
					continue
				}
				for _, before := range []bool{true, false} {
					b := cat(with, M{{s.key, v}})
					if !before {
						b = cat(M{{s.key, v}}, with)
					}
					n := s.key + " = " + flow(v)
					run(NewDocSet().Lib("main.raml", b), n+" in a library", s.judge(v), "")
					run(NewDocSet().Lib("main.raml", M{{"uses", M{{"lib", "lib.raml"}}}}).Lib("lib.raml", b), n+" in an imported library", s.judge(v), "")
					run(NewDocSet().DataType("main.raml", M{{"uses", M{{"lib", "lib.raml"}}}, {"type", "string"}}).Lib("lib.raml", b), n+" in a library imported by a data type", s.judge(v), "")
				}
			}
		}
		for _, s := range []struct {
			key   string
			judge func(any) want23
		}{{"uses", useMap23}, {"usage", text23}} {
			for _, before := range []bool{true, false} {
				b := M{{s.key, v}, {"type", "string"}}
				if before {
					b = M{{"type", "string"}, {s.key, v}}
				}
				n := s.key + " = " + flow(v)
				run(NewDocSet().DataType("main.raml", b), n+" in a data type", s.judge(v), "")
				run(NewDocSet().Lib("main.raml", M{{"types", M{{"T", Inc("dt.raml")}}}}).DataType("dt.raml", b), n+" in an included data type", s.judge(v), "")
				run(NewDocSet().DataType("main.raml", M{{"properties", M{{"p", Inc("dt.raml")}}}}).DataType("dt.raml", b), n+" in a data type included by a data type", s.judge(v), "")
			}
		}
		// elements of lists of parents, values of uses
		for _, rest := range [][]any{{}, {"any"}} {
			for _, before := range []bool{true, false} {
				ps := append(append([]any{}, rest...), v)
				if before {
					ps = append([]any{v}, rest...)
				}
				w := refuse()
				switch {
				case v == nil || v == "" || v == " " || len(rest) > 0 && v == "string":
					w = either(no23)
				case v == "string":
					w = accept(no23)
				}
				run(types(M{{"T", M{{"type", ps}}}}), "parent "+flow(v), w, "")
				run(types(M{{"T", ps}}), "parent "+flow(v), w, "")
			}
		}
		w := refuse()
		run(NewDocSet().Lib("main.raml", M{{"uses", M{{"lib", v}}}}), "path of a library "+flow(v), w, "")
		run(NewDocSet().DataType("main.raml", M{{"uses", M{{"lib", v}}}, {"type", "string"}}), "path of a library "+flow(v)+" in a data type", w, "")
	}
}

func chainName(c []wrapper) string {
	var b strings.Builder
	for _, w := range c {
		b.WriteString(" in " + w.name)
	}
	return b.String()
}

func init() {
	register(&Check{ID: "C23", Level: "model_checking",
		Rule:        "every facet, section and member declaration x value of every YAML kind x place (nesting of members up to the depth bound x kind of file) x option combination; acceptance is compared with the kinds that the language allows there, and the value that the model reports with the written one",
		Assumptions: []string{"null, other scalars where text is expected, integral numbers written with a fraction or exponent, and empty enumerations may be accepted or refused"},
		Gen:         genC23})
}
