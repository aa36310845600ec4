package main

// Exhaustive textual dumps of the exported structure of a model, with pointer identities replaced by visiting order,
// and the set of mutable objects reachable from a type.

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"strconv"

	raml "github.com/acronis/go-raml/v2"
)

type dumper struct {
	b     bytes.Buffer
	ids   map[any]int
	noIDs bool // leave out the identifiers of types
	// types and member tables that were visited, for reachability
	objs      map[any]string
	whole     bool // the model rather than types of it
	reachOnly bool
}

func newDumper() *dumper { return &dumper{ids: map[any]int{}, objs: map[any]string{}} }

// DumpTypes dumps types together: sharing between them shows.
func DumpTypes(bs ...*raml.BaseShape) string {
	d := newDumper()
	for _, b := range bs {
		d.val(reflect.ValueOf(b), "")
		d.b.WriteString("\n")
	}
	return d.b.String()
}

// DumpModel dumps everything the model exposes.
func DumpModel(rm *raml.RAML) string {
	d := newDumper()
	d.whole = true
	d.val(reflect.ValueOf(rm.EntryPoint()), "entry")
	d.b.WriteString("\nshapes:")
	d.val(reflect.ValueOf(rm.GetShapes()), "shapes")
	d.b.WriteString("\nannotations:")
	d.val(reflect.ValueOf(rm.GetAllAnnotationsPtr()), "annotations")
	return d.b.String()
}

// Reach returns the types and member tables reachable from b through members, parents, aliases, links and facet definitions.
func Reach(b *raml.BaseShape) map[any]string {
	d := newDumper()
	d.reachOnly = true
	d.val(reflect.ValueOf(b), "$")
	return d.objs
}

var skipReach = map[string]bool{"CustomDomainProperties": true, "Example": true, "Examples": true, "Default": true, "CustomShapeFacets": true, "Uses": true}

func (d *dumper) val(v reflect.Value, path string) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		e := v.Elem()
		d.b.WriteString("<" + e.Type().String() + ">")
		d.val(e, path)
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		i := v.Interface()
		if re, ok := i.(*regexp.Regexp); ok {
			d.b.WriteString("/" + re.String() + "/")
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			// member tables are listed wherever they are used
			if m, ok := v.Type().MethodByName("Oldest"); ok && m.Type.NumIn() == 1 {
				if _, ok := d.objs[i]; ok && d.reachOnly {
					return
				}
				d.objs[i] = path + "{}"
				d.omap(v, path)
				return
			}
		}
		_, isBase := i.(*raml.BaseShape)
		_, isShape := i.(raml.Shape)
		if !d.whole && !isBase && !isShape {
			d.val(v.Elem(), path) // data and fragments are not parts of the type that can be shared
			return
		}
		if id, ok := d.ids[i]; ok {
			d.b.WriteString("#" + strconv.Itoa(id))
			return
		}
		d.ids[i] = len(d.ids)
		switch x := i.(type) {
		case *raml.BaseShape:
			d.objs[i] = path
			fmt.Fprintf(&d.b, "T%d(u=%v ", d.ids[i], x.IsUnwrapped())
			d.strct(v.Elem(), path)
			d.b.WriteString(")")
			return
		case raml.Shape:
			d.objs[i] = path + "!"
		}
		d.val(v.Elem(), path)
	case reflect.Struct:
		d.b.WriteString("{")
		d.strct(v, path)
		d.b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.b.WriteString("nil[]")
			return
		}
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				d.b.WriteString(", ")
			}
			d.val(v.Index(i), path+"["+strconv.Itoa(i)+"]")
		}
		d.b.WriteString("]")
	case reflect.Map:
		d.b.WriteString(js(v.Interface()))
	case reflect.String:
		d.b.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int64, reflect.Int32:
		d.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint64, reflect.Uint:
		d.b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		d.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Func:
		d.b.WriteString("func")
	default:
		fmt.Fprintf(&d.b, "%v", v.Interface())
	}
}

func (d *dumper) strct(v reflect.Value, path string) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if d.noIDs && (f.Name == "ID" || f.Name == "Position" || f.Name == "Location") {
			continue
		}
		if d.reachOnly && skipReach[f.Name] {
			continue
		}
		fv := v.Field(i)
		if fv.IsZero() || fv.Kind() == reflect.Slice && fv.Len() == 0 {
			continue
		}
		if !d.whole && (f.Name == "DefinedBy" || f.Name == "Uses") {
			continue // leads out of the type
		}
		d.b.WriteString(f.Name + "=")
		d.val(fv, path+"."+f.Name)
		if fv.Kind() == reflect.Struct && bytes.HasSuffix(d.b.Bytes(), []byte(f.Name+"={}")) {
			d.b.Truncate(d.b.Len() - len(f.Name) - 3)
			continue
		}
		d.b.WriteString(" ")
	}
}

// omap lists an ordered map in its order.
func (d *dumper) omap(v reflect.Value, path string) {
	d.b.WriteString("{")
	for p := v.MethodByName("Oldest").Call(nil)[0]; !p.IsNil(); p = p.MethodByName("Next").Call(nil)[0] {
		k := p.Elem().FieldByName("Key").String()
		d.b.WriteString(strconv.Quote(k) + ":")
		d.val(p.Elem().FieldByName("Value"), path+"."+k)
		d.b.WriteString("; ")
	}
	d.b.WriteString("}")
}

// diffAt shows where two texts part.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-120, i+160
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return "before ..." + cut(a) + "...  after ..." + cut(b) + "..."
}
