package main

// Abstract RAML documents: ordered trees rendered as YAML.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// KV is one key of an ordered mapping.
type KV struct {
	K string
	V any
}

// M is an ordered mapping.
type M []KV

// Inc is an !include tag.
type Inc string

// Raw is YAML text written as is.
type Raw string

func (m M) get(k string) (any, bool) {
	for _, e := range m {
		if e.K == k {
			return e.V, true
		}
	}
	return nil, false
}

// with returns a copy of m with k set to v.
func (m M) with(k string, v any) M {
	var out M
	done := false
	for _, e := range m {
		if e.K == k {
			out = append(out, KV{k, v})
			done = true
		} else {
			out = append(out, e)
		}
	}
	if !done {
		out = append(out, KV{k, v})
	}
	return out
}

func cat(ms ...M) M {
	var out M
	for _, m := range ms {
		out = append(out, m...)
	}
	return out
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func fmtFloat(f float64) string {
	s := strconv.FormatFloat(f, 'g', -1, 64)
	if !strings.ContainsAny(s, ".eE") {
		s += ".0"
	} else if strings.ContainsAny(s, "eE") && !strings.Contains(s, ".") {
		i := strings.IndexAny(s, "eE")
		s = s[:i] + ".0" + s[i:]
	}
	return s
}

// flow renders a value as one-line YAML.
func flow(v any) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return quote(x)
	case Inc:
		return "!include " + string(x)
	case Raw:
		return string(x)
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		return fmtFloat(x)
	case []any:
		p := make([]string, len(x))
		for i, e := range x {
			p[i] = flow(e)
		}
		return "[" + strings.Join(p, ", ") + "]"
	case M:
		p := make([]string, len(x))
		for i, e := range x {
			p[i] = quote(e.K) + ": " + flow(e.V)
		}
		return "{" + strings.Join(p, ", ") + "}"
	case map[string]any:
		return flow(mapToM(x))
	}
	panic(fmt.Sprintf("harness: cannot render %T", v))
}

func mapToM(x map[string]any) M {
	var m M
	for _, k := range sortedKeys(x) {
		m = append(m, KV{k, x[k]})
	}
	return m
}

// block renders the first levels of a document in block style.
func block(v any, ind, depth int) string {
	pre := strings.Repeat("  ", ind)
	m, ok := v.(M)
	if !ok || depth == 0 || len(m) == 0 {
		return flow(v)
	}
	var b strings.Builder
	for _, e := range m {
		b.WriteString("\n" + pre + quote(e.K) + ": ")
		b.WriteString(block(e.V, ind+1, depth-1))
	}
	return b.String()
}

// plainKeys renders a fragment body: top-level keys unquoted.
func fragment(header string, m M) string {
	var b strings.Builder
	b.WriteString(header)
	for _, e := range m {
		b.WriteString(e.K + ": " + block(e.V, 1, 1) + "\n")
	}
	return b.String()
}

// DocSet is a set of abstract files; the value is a body (M) with the kind of fragment or Raw text.
type DocSet struct {
	Paths []string
	Body  map[string]M
	Kind  map[string]string // Library | DataType | NamedExample | raw
	Text  map[string]string // raw files
	Entry string
}

func NewDocSet() *DocSet {
	return &DocSet{Body: map[string]M{}, Kind: map[string]string{}, Text: map[string]string{}}
}

func (d *DocSet) add(path, kind string, body M) *DocSet {
	if d.Entry == "" {
		d.Entry = path
	}
	d.Paths = append(d.Paths, path)
	d.Kind[path] = kind
	d.Body[path] = body
	return d
}

func (d *DocSet) Lib(path string, body M) *DocSet      { return d.add(path, "Library", body) }
func (d *DocSet) DataType(path string, body M) *DocSet { return d.add(path, "DataType", body) }
func (d *DocSet) Example(path string, body M) *DocSet  { return d.add(path, "NamedExample", body) }
func (d *DocSet) Raw(path, text string) *DocSet {
	d.add(path, "raw", nil)
	d.Text[path] = text
	return d
}

func (d *DocSet) content(p string) string {
	switch d.Kind[p] {
	case "Library":
		return fragment(hdrLib, d.Body[p])
	case "DataType":
		return fragment(hdrDT, d.Body[p])
	case "NamedExample":
		return fragment(hdrNE, d.Body[p])
	case "Yaml":
		return fragment("", d.Body[p])
	}
	return d.Text[p]
}

func (d *DocSet) Files() Files {
	f := Files{}
	for _, p := range d.Paths {
		f[p] = d.content(p)
	}
	return f
}

func (d *DocSet) String() string {
	var b strings.Builder
	for _, p := range d.Paths {
		fmt.Fprintf(&b, "--- %s\n%s\n", p, d.content(p))
	}
	return b.String()
}

// types makes a one-library document set.
func types(m M) *DocSet { return NewDocSet().Lib("main.raml", M{{"types", m}}) }
