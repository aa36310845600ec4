package main

// C12: JSON Schema objects copy, export and round-trip without loss or sharing.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	orderedmap "github.com/wk8/go-ordered-map/v2"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C12", Level: "model_checking",
		Rule:        "every setting of one and of two keywords (keyword table read from the schema type itself, sample values of every JSON kind) in every sub-schema position to the depth bound, in both schema flavours: deep copy, map form, encoding and decoding compared, memory reachable from the copy decided to be disjoint from the original's; every embedded JSON Schema of the same table converted; every sequence of conversions of sample types with one converter up to the bound, results scribbled over between the conversions",
		Assumptions: []string{"values of enum, const, default, examples and extension keywords are JSON data (maps, slices, scalars)"},
		Gen:         genC12})
}

// schemaT is what both schema flavours offer.
type schemaT[T raml.Copyable[T]] interface {
	comparable
	raml.Copyable[T]
	Generic() *raml.JSONSchemaGeneric[T]
}

type c12flavour[T schemaT[T]] struct {
	name string
	mk   func() T
}

// slot sets one keyword of a schema object.
type slot struct {
	name string
	set  func(obj reflect.Value)
}

func dataSamples() []any {
	return []any{"s", true, false, 3.5, "", map[string]any{"a": map[string]any{"b": []any{1.0, "x"}}}, []any{[]any{"x"}, map[string]any{"k": nil}}, map[string]any{}, []any{}}
}

// copyJSON gives fresh data every time.
func copyJSON(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = copyJSON(e)
		}
		return m
	case []any:
		s := make([]any, len(x))
		for i, e := range x {
			s[i] = copyJSON(e)
		}
		return s
	}
	return v
}

// structFields lists the keyword fields of a schema type, its embedded part included.
func structFields(t reflect.Type) []reflect.StructField {
	var out []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		if f.Anonymous {
			for _, g := range structFields(f.Type) {
				g.Index = append([]int{i}, g.Index...)
				out = append(out, g)
			}
			continue
		}
		out = append(out, f)
	}
	return out
}

// slots lists the settings of every keyword that is not a sub-schema, and the sub-schema positions.
func slots[T schemaT[T]](mk func() T) (leaves []slot, positions []struct {
	name string
	put  func(obj reflect.Value, sub ...T)
}) {
	var zero T
	tt := reflect.TypeOf(zero)
	for _, f := range structFields(tt.Elem()) {
		f := f
		name := strings.Split(f.Tag.Get("json"), ",")[0]
		if name == "" {
			name = f.Name
		}
		leaf := func(i int, v func() any) {
			leaves = append(leaves, slot{fmt.Sprintf("%s#%d", name, i), func(o reflect.Value) {
				o.FieldByIndex(f.Index).Set(reflect.ValueOf(v()))
			}})
		}
		position := func(put func(fv reflect.Value, sub ...T)) {
			positions = append(positions, struct {
				name string
				put  func(obj reflect.Value, sub ...T)
			}{name, func(o reflect.Value, sub ...T) { put(o.FieldByIndex(f.Index), sub...) }})
		}
		switch {
		case f.Type == tt:
			position(func(fv reflect.Value, sub ...T) { fv.Set(reflect.ValueOf(sub[0])) })
		case f.Type == reflect.TypeOf([]T(nil)):
			position(func(fv reflect.Value, sub ...T) { fv.Set(reflect.ValueOf(append([]T{}, sub...))) })
		case f.Type == reflect.TypeOf(map[string]T(nil)):
			position(func(fv reflect.Value, sub ...T) {
				m := map[string]T{}
				for i, s := range sub {
					m[fmt.Sprintf("k%d/~", i)] = s
				}
				fv.Set(reflect.ValueOf(m))
			})
			leaf(0, func() any { return map[string]T{} })
		case f.Type == reflect.TypeOf((*orderedmap.OrderedMap[string, T])(nil)):
			position(func(fv reflect.Value, sub ...T) {
				m := orderedmap.New[string, T]()
				for i, s := range sub {
					m.Set(fmt.Sprintf("k%d", len(sub)-i), s)
				}
				fv.Set(reflect.ValueOf(m))
			})
			leaf(0, func() any { return orderedmap.New[string, T]() })
		case f.Type == reflect.TypeOf((*orderedmap.OrderedMap[string, any])(nil)):
			leaf(0, func() any { return orderedmap.New[string, any]() })
			leaf(1, func() any {
				m := orderedmap.New[string, any]()
				for i, d := range dataSamples() {
					m.Set(fmt.Sprintf("z%d", 9-i), copyJSON(d))
				}
				m.Set("n", nil)
				return m
			})
		case f.Type == reflect.TypeOf(json.Number("")):
			for i, v := range []string{"0", "-1", "1.5", "12345678901234567890", "1e30"} {
				v := v
				leaf(i, func() any { return json.Number(v) })
			}
		case f.Type.Kind() == reflect.String:
			leaf(0, func() any { return "text \"<é" })
		case f.Type == reflect.TypeOf((*uint64)(nil)):
			for i, v := range []uint64{0, 7, 1<<64 - 1} {
				v := v
				leaf(i, func() any { return &v })
			}
		case f.Type == reflect.TypeOf((*bool)(nil)):
			for i, v := range []bool{false, true} {
				v := v
				leaf(i, func() any { return &v })
			}
		case f.Type == reflect.TypeOf([]any(nil)):
			leaf(0, func() any { return []any{"x", 1.0, nil, false} })
			leaf(1, func() any { return copyJSON(dataSamples()) })
			leaf(2, func() any { return []any{} })
			leaf(3, func() any { return []any{nil} })
		case f.Type == reflect.TypeOf([]string(nil)):
			leaf(0, func() any { return []string{"b", "a"} })
			leaf(1, func() any { return []string{} })
		case f.Type.Kind() == reflect.Interface:
			for i, d := range dataSamples() {
				d := d
				leaf(i, func() any { return copyJSON(d) })
			}
		default:
			panic("harness: keyword " + name + " of type " + f.Type.String() + " is not covered")
		}
	}
	return leaves, positions
}

// memory collects the mutable memory reachable through exported fields: pointers, maps, slices and ordered maps.
func memory(v reflect.Value, path string, out map[[2]uintptr]string) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), path, out)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		key := [2]uintptr{v.Pointer(), uintptr(v.Elem().Type().Size())}
		if _, ok := out[key]; ok {
			return
		}
		out[key] = path
		if m := v.MethodByName("Oldest"); m.IsValid() {
			for p := m.Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
				out[[2]uintptr{p.Pointer(), 1}] = path + ".pair"
				memory(p.Elem().FieldByName("Value"), path+"."+p.Elem().FieldByName("Key").String(), out)
			}
			return
		}
		memory(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				memory(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		out[[2]uintptr{v.Pointer(), 2}] = path
		for _, k := range v.MapKeys() {
			memory(v.MapIndex(k), path+"."+k.String(), out)
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		out[[2]uintptr{v.Pointer(), 3}] = path
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func sharing(a, b any) string {
	ma, mb := map[[2]uintptr]string{}, map[[2]uintptr]string{}
	memory(reflect.ValueOf(a), "$", ma)
	memory(reflect.ValueOf(b), "$", mb)
	for k, p := range ma {
		if q, ok := mb[k]; ok {
			return p + " is " + q
		}
	}
	return ""
}

// scribble changes everything that is reachable through the keywords.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		switch e.Kind() {
		case reflect.Map, reflect.Slice, reflect.Ptr:
			scribble(e, seen)
		}
		if v.CanSet() && v.NumMethod() == 0 {
			v.Set(reflect.ValueOf("scribbled"))
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		if m := v.MethodByName("Oldest"); m.IsValid() {
			for p := m.Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
				scribble(p.Elem().FieldByName("Value"), seen)
			}
			f := v.MethodByName("Set")
			f.Call([]reflect.Value{reflect.ValueOf("scribbled"), reflect.Zero(f.Type().In(1))})
			return
		}
		scribble(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen)
		}
		v.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(v.Type().Elem()))
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("0")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	}
}

func normJSON(b []byte) (string, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return "", err
	}
	o, err := json.Marshal(v)
	return string(o), err
}

// c12object checks one schema object.
func c12object[T schemaT[T]](r *Run, name string, build func() T) bool {
	fail := func(format string, a ...any) bool {
		r.Fail(name, name+": "+fmt.Sprintf(format, a...), "")
		return false
	}
	s := build()
	enc, err := json.Marshal(s)
	if err != nil {
		return fail("encoding fails: %v", err)
	}
	c := s.DeepCopy()
	cenc, err := json.Marshal(c)
	if err != nil || !bytes.Equal(enc, cenc) {
		return fail("the deep copy encodes to %s, the original to %s", cenc, enc)
	}
	r.Eval(1)
	if x := sharing(s, c); x != "" {
		return fail("the deep copy shares memory with the original: %s", x)
	}
	scribble(reflect.ValueOf(c), map[uintptr]bool{})
	if after, _ := json.Marshal(s); !bytes.Equal(after, enc) {
		return fail("changing the deep copy changed the original from %s to %s", enc, after)
	}
	r.Eval(1)
	sh := s.ShallowCopy()
	if senc, err := json.Marshal(sh); err != nil || !bytes.Equal(enc, senc) {
		return fail("the shallow copy encodes to %s, the original to %s", senc, enc)
	}
	if x := reflect.ValueOf(sh).Elem(); x.Addr().Pointer() == reflect.ValueOf(s).Pointer() {
		return fail("the shallow copy is the original")
	} else {
		x.SetZero()
	}
	if after, _ := json.Marshal(s); !bytes.Equal(after, enc) {
		return fail("replacing keywords of the shallow copy changed the original from %s to %s", enc, after)
	}
	menc, err := json.Marshal(s.Map())
	if err != nil {
		return fail("encoding of the map form fails: %v", err)
	}
	a, err1 := normJSON(enc)
	b, err2 := normJSON(menc)
	if err1 != nil || err2 != nil || a != b {
		return fail("the map form is %s, the encoding %s", b, a)
	}
	r.Eval(1)
	var back T
	back = reflect.New(reflect.TypeOf(back).Elem()).Interface().(T)
	d := json.NewDecoder(bytes.NewReader(enc))
	d.UseNumber()
	if err := d.Decode(back); err != nil {
		return fail("the encoding %s is not decoded: %v", enc, err)
	}
	benc, err := json.Marshal(back)
	if err != nil || !bytes.Equal(benc, enc) {
		return fail("the decoded schema encodes to %s, the original to %s", benc, enc)
	}
	if bm, _ := json.Marshal(back.Map()); string(bm) != string(menc) {
		return fail("the map form of the decoded schema is %s, that of the original %s", bm, menc)
	}
	r.Eval(2)
	return true
}

func genC12flavour[T schemaT[T]](thorough bool, fl c12flavour[T], emit func(Case)) {
	leaves, pos := slots(fl.mk)
	nl, np := len(leaves), len(pos)
	set := func(s T, l ...int) T {
		for _, i := range l {
			leaves[i].set(reflect.ValueOf(s).Elem())
		}
		return s
	}
	one := func(label string, builds map[string]func() T, order []string) {
		emit(Case{Label: func() string { return fl.name + " " + label }, Run: func(r *Run) {
			for _, k := range order {
				if !c12object(r, fl.name+" "+label+k, builds[k]) {
					return
				}
			}
			r.Class(label)
		}})
	}
	// one and two keywords
	for i := 0; i < nl; i++ {
		i := i
		builds := map[string]func() T{"": func() T { return set(fl.mk(), i) }}
		order := []string{""}
		for j := i + 1; j < nl; j++ {
			j := j
			builds["+"+leaves[j].name] = func() T { return set(fl.mk(), i, j) }
			order = append(order, "+"+leaves[j].name)
		}
		for p := range pos {
			p := p
			k := "+" + pos[p].name
			builds[k] = func() T {
				s := set(fl.mk(), i)
				pos[p].put(reflect.ValueOf(s).Elem(), fl.mk(), set(fl.mk(), (i+1)%nl))
				return s
			}
			order = append(order, k)
		}
		one(leaves[i].name, builds, order)
	}
	// two positions
	for p := 0; p < np; p++ {
		for q := p + 1; q < np; q++ {
			p, q := p, q
			one(pos[p].name+"+"+pos[q].name, map[string]func() T{"": func() T {
				s := fl.mk()
				pos[p].put(reflect.ValueOf(s).Elem(), set(fl.mk(), 0), set(fl.mk(), 1))
				pos[q].put(reflect.ValueOf(s).Elem(), set(fl.mk(), 2), set(fl.mk(), 3))
				return s
			}}, []string{""})
		}
	}
	// nested
	depth := 3
	if thorough {
		depth = 4
	}
	var chains func(c []int)
	chains = func(c []int) {
		if len(c) > 0 {
			c := append([]int{}, c...)
			var names []string
			for _, p := range c {
				names = append(names, pos[p].name)
			}
			builds := map[string]func() T{}
			var order []string
			for i := -1; i < nl; i++ {
				i := i
				k := " empty"
				if i >= 0 {
					k = " " + leaves[i].name
				}
				order = append(order, k)
				builds[k] = func() T {
					in := fl.mk()
					if i >= 0 {
						set(in, i)
					}
					for x := len(c) - 1; x >= 0; x-- {
						o := fl.mk()
						if x == 0 {
							pos[c[x]].put(reflect.ValueOf(o).Elem(), in, set(fl.mk(), 5))
						} else {
							pos[c[x]].put(reflect.ValueOf(o).Elem(), in)
						}
						in = o
					}
					return in
				}
			}
			one(strings.Join(names, "/"), builds, order)
		}
		if len(c) == depth {
			return
		}
		for p := range pos {
			chains(append(c, p))
		}
	}
	chains(nil)
}

// c12types are the types that are converted.
func c12types() (M, []string) {
	schema := `{"type":"object","properties":{"a":{"type":"array","items":{"enum":[1,{"x":[1]}]},"maxItems":3},"b":{"minLength":1}},"required":["a"],"examples":[{"a":[1]}],"default":{"a":[]},"definitions":{"d":{"const":{"y":1}}},"anyOf":[{"minProperties":1}],"additionalProperties":false}`
	m := M{
		{"Str", M{{"type", "string"}, {"minLength", 1}, {"maxLength", 5}, {"enum", l("a", "b")}, {"example", "a"}, {"default", "b"}, {"displayName", "d"}, {"description", "x"}}},
		{"Int", M{{"type", "integer"}, {"minimum", 1}, {"maximum", 5}, {"multipleOf", 1}, {"enum", l(1, 2)}}},
		{"Num", M{{"type", "number"}, {"minimum", 0.5}, {"enum", l(1, 2.5)}}},
		{"Bool", M{{"type", "boolean"}, {"enum", l(true)}}},
		{"File", M{{"type", "file"}, {"maxLength", 4}, {"fileTypes", l("a/b")}}},
		{"Arr", M{{"type", "array"}, {"items", "Str"}, {"minItems", 1}, {"maxItems", 3}, {"uniqueItems", true}, {"example", l("a")}}},
		{"Obj", M{{"type", "object"}, {"properties", M{{"s", "Str"}, {"i?", "Int"}, {"/x/", "Arr"}}}, {"minProperties", 1}, {"maxProperties", 4}, {"example", M{{"s", "a"}, {"z", M{{"deep", l(1, M{{"k", "v"}})}}}}}, {"additionalProperties", true}}},
		{"Clo", M{{"type", "object"}, {"properties", M{{"s?", "Str"}}}, {"additionalProperties", false}, {"default", M{{"s", "a"}}}, {"examples", M{{"one", M{{"s", "a"}}}, {"two", M{}}}}}},
		{"Uni", M{{"type", "Str | Int | nil"}, {"enum", l("a", 1)}}},
		{"Rec", M{{"type", "object"}, {"properties", M{{"r?", "Rec"}, {"l?", "Rec[]"}, {"o?", "Obj"}}}}},
		{"Any", M{{"type", "any"}, {"default", M{{"q", l(1)}}}}},
		{"Js", M{{"type", schema}}},
		{"JsOver", M{{"type", schema}, {"displayName", "t"}, {"example", M{{"a", l(1)}}}}},
		{"Cust", M{{"type", "string"}, {"facets", M{{"f?", M{{"type", "object"}, {"properties", M{{"z?", "Int"}}}}}, {"g?", "Str"}}}, {"(an)", M{{"a", l(1, M{{"b", 2}})}}}}},
		{"CustChild", M{{"type", "Cust"}, {"f", M{{"z", 1}}}, {"(an)", "x"}}},
		{"Date", M{{"type", "date-only"}, {"example", "2020-01-01"}}},
		{"Dt", M{{"type", "datetime"}, {"format", "rfc2616"}}},
	}
	var names []string
	for _, e := range m {
		names = append(names, e.K)
	}
	return m, names
}

func c12convert[T schemaT[T]](r *Run, flavour string, d *DocSet, names []string, seq []int, conv func() func(b *raml.BaseShape) (T, error)) {
	hist := ""
	for _, i := range seq {
		hist += " " + names[i]
	}
	fail := func(format string, a ...any) {
		r.Fail(flavour+" convert"+hist, flavour+": converting"+hist+": "+fmt.Sprintf(format, a...), "")
	}
	rm, err := d.Parse(r.Dir, true, true)
	if err != nil {
		fail("the document is rejected: %v", err)
		return
	}
	ref := func(i int) string {
		rm2, err := d.Parse(r.Dir, true, true)
		if err != nil {
			panic("harness: " + err.Error())
		}
		s, err := conv()(LibType(rm2, names[i]))
		if err != nil {
			return err.Error()
		}
		return js(s)
	}
	before := DumpModel(rm)
	for _, scrib := range []bool{false, true} {
		c := conv()
		var results []T
		for k, i := range seq {
			s, err := c(LibType(rm, names[i]))
			r.Eval(1)
			if err != nil {
				fail("conversion %d fails: %v", k+1, err)
				return
			}
			want := ref(i)
			if got := js(s); got != want {
				fail("conversion %d gives %s, alone it gives %s (earlier results changed: %v)", k+1, got, want, scrib)
				return
			}
			for q, o := range results {
				if x := sharing(o, s); x != "" {
					fail("the results %d and %d share memory: %s", q+1, k+1, x)
					return
				}
			}
			results = append(results, s)
			if scrib {
				scribble(reflect.ValueOf(s), map[uintptr]bool{})
				if x := DumpModel(rm); x != before {
					fail("changing the result changed the model: %s", diffAt(before, x))
					return
				}
			}
		}
	}
}

func genC12(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	plainF := c12flavour[*raml.JSONSchema]{"plain", func() *raml.JSONSchema { return &raml.JSONSchema{} }}
	ramlF := c12flavour[*raml.JSONSchemaRAML]{"extended", func() *raml.JSONSchemaRAML { return &raml.JSONSchemaRAML{} }}
	genC12flavour(thorough, plainF, emit)
	genC12flavour(thorough, ramlF, emit)
	emit(Case{Label: func() string { return "nil schemas" }, Run: func(r *Run) {
		var p *raml.JSONSchema
		var q *raml.JSONSchemaRAML
		if p.ShallowCopy() != nil || q.ShallowCopy() != nil || p.DeepCopy() != nil || q.DeepCopy() != nil || p.Map() != nil || q.Map() != nil {
			r.Fail("nil", "the copy or map form of a nil schema is not nil", "")
		}
		r.Eval(4)
	}})
	// embedded schemas
	leaves, pos := slots(plainF.mk)
	for i := -1; i < len(leaves); i++ {
		for p := -1; p < len(pos); p++ {
			for q := -1; q < len(pos); q++ {
				if p < 0 && q >= 0 || q >= 0 && i >= 0 && !thorough && (i+p+q)%3 != 0 {
					continue
				}
				i, p, q := i, p, q
				build := func() *raml.JSONSchema {
					s := plainF.mk()
					if i >= 0 {
						leaves[i].set(reflect.ValueOf(s).Elem())
					}
					for _, x := range []int{q, p} {
						if x >= 0 {
							o := plainF.mk()
							pos[x].put(reflect.ValueOf(o).Elem(), s, plainF.mk())
							s = o
						}
					}
					return s
				}
				label := func() string { return "embedded " + js(build()) }
				emit(Case{Label: label, Run: func(r *Run) {
					s := build()
					text := js(s)
					d := types(M{{"T", M{{"type", text}}}})
					rm, err := d.Parse(r.Dir, true, true)
					if err != nil {
						r.Fail(label(), "the type "+text+" is rejected: "+err.Error(), "")
						return
					}
					// dialect version and position in the output are the converter's own
					s.Version = ""
					want, _ := normJSON([]byte(js(s)))
					b := LibType(rm, "T")
					for k := 0; k < 2; k++ {
						for fl, f := range map[string]func() (any, error){
							"extended": func() (any, error) { x, e := ConvertRAML(b); return x.Definitions["T"], e },
							"plain":    func() (any, error) { x, e := ConvertPlain(b); return x.Definitions["T"], e },
						} {
							got, err := f()
							r.Eval(1)
							if err != nil {
								r.Fail(label(), fl+": "+err.Error(), "")
								return
							}
							x, _ := normJSON([]byte(js(got)))
							if x != want {
								r.Fail(label(), fmt.Sprintf("%s: the schema %s is converted to %s", fl, want, x), "")
								return
							}
							scribble(reflect.ValueOf(got), map[uintptr]bool{})
						}
					}
				}})
			}
		}
	}
	// conversions
	m, names := c12types()
	d := NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"an", "any"}}}, {"types", m}})
	depth := 2
	if thorough {
		depth = 3
	}
	var seqs func(s []int)
	seqs = func(s []int) {
		if len(s) > 0 {
			s := append([]int{}, s...)
			emit(Case{Label: func() string { return fmt.Sprint("conversions ", s, names) }, Run: func(r *Run) {
				c12convert(r, "extended", d, names, s, func() func(b *raml.BaseShape) (*raml.JSONSchemaRAML, error) {
					c, err := raml.NewJSONSchemaConverter[*raml.JSONSchemaRAML](raml.WithWrapper(raml.JSONSchemaWrapper))
					if err != nil {
						panic("harness: " + err.Error())
					}
					return func(b *raml.BaseShape) (*raml.JSONSchemaRAML, error) { return c.Convert(b.Shape) }
				})
				c12convert(r, "plain", d, names, s, func() func(b *raml.BaseShape) (*raml.JSONSchema, error) {
					c, err := raml.NewJSONSchemaConverter[*raml.JSONSchema]()
					if err != nil {
						panic("harness: " + err.Error())
					}
					return func(b *raml.BaseShape) (*raml.JSONSchema, error) { return c.Convert(b.Shape) }
				})
			}})
		}
		if len(s) == depth {
			return
		}
		for i := range names {
			seqs(append(s, i))
		}
	}
	seqs(nil)
}
