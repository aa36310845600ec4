package main

// Structural descriptions of effective types, from the model and from the code under test.
// Nested unions are flattened, properties are listed by name, and recursion is unfolded to a depth.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func fUint(b *strings.Builder, n string, v *uint64) {
	if v != nil {
		fmt.Fprintf(b, " %s=%d", n, *v)
	}
}

func fBool(b *strings.Builder, n string, v *bool) {
	if v != nil {
		fmt.Fprintf(b, " %s=%v", n, *v)
	}
}

func fRat(b *strings.Builder, n string, v *big.Rat) {
	if v != nil {
		fmt.Fprintf(b, " %s=%s", n, v.RatString())
	}
}

func numText(v any) string {
	if r, ok := ratOf(v); ok {
		return r.RatString()
	}
	switch x := v.(type) {
	case []any:
		var p []string
		for _, e := range x {
			p = append(p, numText(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case map[string]any:
		var p []string
		for _, k := range sortedKeys(x) {
			p = append(p, quote(k)+":"+numText(x[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return js(v)
}

func fEnum(b *strings.Builder, n string, vs []any, has bool) {
	if !has {
		return
	}
	p := make([]string, len(vs))
	for i, v := range vs {
		p[i] = numText(v)
	}
	fmt.Fprintf(b, " %s=(%s)", n, strings.Join(p, ","))
}

func fList(b *strings.Builder, n string, p []string) {
	if len(p) > 0 {
		sort.Strings(p)
		fmt.Fprintf(b, " %s{%s}", n, strings.Join(p, "; "))
	}
}

// descTy describes a model type.
func descTy(t *Ty, depth int) string {
	if t == nil {
		return "none"
	}
	if depth < 0 {
		return "..."
	}
	var b strings.Builder
	switch t.Kind {
	case "string", "integer", "number", "boolean", "union":
	default:
		// A type without an enumeration of its own that narrows an enumerating union: the union of just that type.
		if t.HasEnum {
			m := *t
			m.HasEnum, m.Enum = false, nil
			b.WriteString("union")
			fEnum(&b, "enum", t.Enum, true)
			b.WriteString(" any<" + descTy(&m, depth-1) + ">")
			return b.String()
		}
	}
	b.WriteString(t.Kind)
	fRat(&b, "min", t.Min)
	fRat(&b, "max", t.Max)
	if t.MultipleOf != nil {
		b.WriteString(" mult=" + numText(t.MultipleOf))
	}
	if t.Format != "" {
		b.WriteString(" format=" + t.Format)
	}
	fUint(&b, "minL", t.MinL)
	fUint(&b, "maxL", t.MaxL)
	fUint(&b, "minI", t.MinI)
	fUint(&b, "maxI", t.MaxI)
	fUint(&b, "minP", t.MinP)
	fUint(&b, "maxP", t.MaxP)
	fBool(&b, "uniq", t.Uniq)
	fBool(&b, "addP", t.AddP)
	if t.Pattern != nil {
		b.WriteString(" pattern=" + t.Pattern.String())
	}
	fEnum(&b, "enum", t.Enum, t.HasEnum)
	fEnum(&b, "fileTypes", t.FileTypes, t.HasFT)
	if t.Disc != nil {
		b.WriteString(" disc=" + *t.Disc)
	}
	if t.Items != nil {
		b.WriteString(" items<" + descTy(t.Items.get(), depth-1) + ">")
	}
	var ps []string
	for _, p := range t.Props {
		ps = append(ps, fmt.Sprintf("%s req=%v: %s", p.Name, p.Req, descTy(p.T.get(), depth-1)))
	}
	fList(&b, "props", ps)
	ps = nil
	for _, p := range t.Pats {
		ps = append(ps, p.Key+": "+descTy(p.T.get(), depth-1))
	}
	fList(&b, "pats", ps)
	if t.Kind == "union" {
		var ms []string
		var rec func(x *Ty, n int)
		rec = func(x *Ty, n int) {
			for _, m := range x.AnyOf {
				mt := m.get()
				if mt != nil && mt.Kind == "union" && !mt.HasEnum && len(mt.Custom) == 0 && n < 8 {
					rec(mt, n+1)
					continue
				}
				ms = append(ms, descTy(mt, depth-1))
			}
		}
		rec(t, 0)
		b.WriteString(" any<" + strings.Join(ms, " | ") + ">")
	}
	return b.String()
}

func nodeVals(ns raml.Nodes) []any {
	var out []any
	for _, n := range ns {
		out = append(out, n.Value)
	}
	return out
}

func fFloat(b *strings.Builder, n string, v *float64) {
	if v != nil {
		fmt.Fprintf(b, " %s=%s", n, new(big.Rat).SetFloat64(*v).RatString())
	}
}

func fBig(b *strings.Builder, n string, v *big.Int) {
	if v != nil {
		fmt.Fprintf(b, " %s=%s", n, v.String())
	}
}

func unionOf(s *raml.BaseShape) *raml.UnionShape {
	if s == nil {
		return nil
	}
	u, _ := s.Shape.(*raml.UnionShape)
	return u
}

// follow replaces back references by the type they refer to.
func follow(s *raml.BaseShape) *raml.BaseShape {
	for i := 0; i < 16 && s != nil; i++ {
		r, ok := s.Shape.(*raml.RecursiveShape)
		if !ok {
			return s
		}
		s = r.Head
	}
	return s
}

// descShape describes a type of an unwrapped model.
func descShape(s *raml.BaseShape, depth int) string {
	s = follow(s)
	if s == nil {
		return "none"
	}
	if depth < 0 {
		return "..."
	}
	var b strings.Builder
	b.WriteString(s.Type)
	kindErr := func(want string) {
		if s.Type != want {
			b.WriteString("!kind-is-" + want)
		}
	}
	switch t := s.Shape.(type) {
	case *raml.IntegerShape:
		kindErr("integer")
		fBig(&b, "min", t.Minimum)
		fBig(&b, "max", t.Maximum)
		fFloat(&b, "mult", t.MultipleOf)
		if t.Format != nil {
			b.WriteString(" format=" + *t.Format)
		}
		fEnum(&b, "enum", nodeVals(t.Enum), t.Enum != nil)
	case *raml.NumberShape:
		kindErr("number")
		fFloat(&b, "min", t.Minimum)
		fFloat(&b, "max", t.Maximum)
		fFloat(&b, "mult", t.MultipleOf)
		if t.Format != nil {
			b.WriteString(" format=" + *t.Format)
		}
		fEnum(&b, "enum", nodeVals(t.Enum), t.Enum != nil)
	case *raml.StringShape:
		kindErr("string")
		fUint(&b, "minL", t.MinLength)
		fUint(&b, "maxL", t.MaxLength)
		if t.Pattern != nil {
			b.WriteString(" pattern=" + t.Pattern.String())
		}
		fEnum(&b, "enum", nodeVals(t.Enum), t.Enum != nil)
	case *raml.FileShape:
		kindErr("file")
		fUint(&b, "minL", t.MinLength)
		fUint(&b, "maxL", t.MaxLength)
		fEnum(&b, "fileTypes", nodeVals(t.FileTypes), t.FileTypes != nil)
	case *raml.BooleanShape:
		kindErr("boolean")
		fEnum(&b, "enum", nodeVals(t.Enum), t.Enum != nil)
	case *raml.DateTimeShape:
		kindErr("datetime")
		if t.Format != nil {
			b.WriteString(" format=" + *t.Format)
		}
	case *raml.ArrayShape:
		kindErr("array")
		fUint(&b, "minI", t.MinItems)
		fUint(&b, "maxI", t.MaxItems)
		fBool(&b, "uniq", t.UniqueItems)
		if t.Items != nil {
			b.WriteString(" items<" + descShape(t.Items, depth-1) + ">")
		}
	case *raml.ObjectShape:
		kindErr("object")
		fUint(&b, "minP", t.MinProperties)
		fUint(&b, "maxP", t.MaxProperties)
		fBool(&b, "addP", t.AdditionalProperties)
		if t.Discriminator != nil {
			b.WriteString(" disc=" + *t.Discriminator)
		}
		var ps []string
		if t.Properties != nil {
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				n := p.Key
				if p.Value.Name != n {
					n += "!name-is-" + p.Value.Name
				}
				ps = append(ps, fmt.Sprintf("%s req=%v: %s", n, p.Value.Required, descShape(p.Value.Base, depth-1)))
			}
		}
		fList(&b, "props", ps)
		ps = nil
		if t.PatternProperties != nil {
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				ps = append(ps, "/"+p.Value.Pattern.String()+"/: "+descShape(p.Value.Base, depth-1))
			}
		}
		fList(&b, "pats", ps)
	case *raml.UnionShape:
		kindErr("union")
		fEnum(&b, "enum", nodeVals(t.Enum), t.Enum != nil)
		var ms []string
		var rec func(u *raml.UnionShape, n int)
		rec = func(u *raml.UnionShape, n int) {
			for _, m := range u.AnyOf {
				m = follow(m)
				if x := unionOf(m); x != nil && x.Enum == nil && (m.CustomShapeFacets == nil || m.CustomShapeFacets.Len() == 0) && n < 8 {
					rec(x, n+1)
					continue
				}
				ms = append(ms, descShape(m, depth-1))
			}
		}
		rec(t, 0)
		b.WriteString(" any<" + strings.Join(ms, " | ") + ">")
	case *raml.JSONShape:
	case nil:
		b.WriteString("!no-shape")
	default:
		if t.Base() != s {
			b.WriteString("!base")
		}
	}
	if s.Shape != nil && s.Shape.Base() != s {
		b.WriteString("!base-differs")
	}
	return b.String()
}

// CompareDesc compares the structure of named types of the entry file with the model.
func CompareDesc(r *Run, d *DocSet, w *World, rm *raml.RAML, names []string, depth int) {
	for _, n := range names {
		b := LibType(rm, n)
		if b == nil {
			r.Fail(sigOf(d, n), "type "+n+" is missing from the model", "")
			continue
		}
		want, got := descTy(typeOf(w, n), depth), descShape(b, depth)
		r.Eval(1)
		if want != got {
			r.Fail(sigOf(d, n+" structure"), fmt.Sprintf("type %s: the model has %s where the declarations mean %s", n, firstDiff(got, want), firstDiff(want, got)), got+"\n"+want)
		}
	}
}

// firstDiff shows a around its first difference from b.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-80, i+120
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return "..." + a[lo:i] + ">>>" + a[i:hi]
}
