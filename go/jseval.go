package main

// A small JSON Schema draft-07 evaluator over decoded JSON (numbers as json.Number).

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"strings"
	"unicode/utf8"
)

type jsEval struct {
	root  any
	depth int
	res   map[string]*regexp.Regexp
}

func decodeNum(b []byte) (any, error) {
	var v any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	err := d.Decode(&v)
	return v, err
}

func newJSEval(schema []byte) (*jsEval, error) {
	v, err := decodeNum(schema)
	if err != nil {
		return nil, err
	}
	return &jsEval{root: v, res: map[string]*regexp.Regexp{}}, nil
}

// resolve follows a same-document reference.
func (e *jsEval) resolve(ref string) (any, error) {
	if !strings.HasPrefix(ref, "#") {
		return nil, fmt.Errorf("reference %q leaves the document", ref)
	}
	p, err := url.PathUnescape(ref[1:])
	if err != nil {
		return nil, fmt.Errorf("reference %q is not a URI reference", ref)
	}
	if strings.ContainsAny(ref[1:], "#%^\"<>\\{}| `") && p == ref[1:] {
		return nil, fmt.Errorf("reference %q is not a URI reference", ref)
	}
	cur := e.root
	if p == "" {
		return cur, nil
	}
	for _, t := range strings.Split(p, "/")[1:] {
		t = strings.ReplaceAll(strings.ReplaceAll(t, "~1", "/"), "~0", "~")
		m, ok := cur.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("reference %q does not resolve", ref)
		}
		if cur, ok = m[t]; !ok {
			return nil, fmt.Errorf("reference %q does not resolve", ref)
		}
	}
	return cur, nil
}

// checkRefs resolves every reference of the document.
func (e *jsEval) checkRefs() error {
	var walk func(v any, inData bool) error
	walk = func(v any, inData bool) error {
		switch x := v.(type) {
		case map[string]any:
			if r, ok := x["$ref"].(string); ok && !inData {
				if _, err := e.resolve(r); err != nil {
					return err
				}
			}
			for k, c := range x {
				switch k {
				case "enum", "const", "default", "examples", "x-annotations", "x-facet-data":
					if !inData {
						continue
					}
				case "properties", "patternProperties", "definitions":
					if m, ok := c.(map[string]any); ok {
						for _, s := range m {
							if err := walk(s, false); err != nil {
								return err
							}
						}
						continue
					}
				}
				if err := walk(c, inData); err != nil {
					return err
				}
			}
		case []any:
			for _, c := range x {
				if err := walk(c, inData); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return walk(e.root, false)
}

func jnum(v any) (*big.Rat, bool) {
	if n, ok := v.(json.Number); ok {
		return new(big.Rat).SetString(string(n))
	}
	return ratOf(v)
}

func jsame(a, b any) bool {
	ra, oka := jnum(a)
	rb, okb := jnum(b)
	if oka || okb {
		return oka && okb && ra.Cmp(rb) == 0
	}
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !jsame(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			w, ok := y[k]
			if !ok || !jsame(x[k], w) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	switch b.(type) {
	case []any, map[string]any:
		return false
	}
	return a == b
}

func jtype(t string, v any) bool {
	switch t {
	case "null":
		return v == nil
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "string":
		_, ok := v.(string)
		return ok
	case "array":
		_, ok := v.([]any)
		return ok
	case "object":
		_, ok := v.(map[string]any)
		return ok
	case "number", "integer":
		r, ok := jnum(v)
		return ok && (t == "number" || r.IsInt())
	}
	return false
}

func (e *jsEval) re(p string) *regexp.Regexp {
	r, ok := e.res[p]
	if !ok {
		r, _ = regexp.Compile(p)
		e.res[p] = r
	}
	return r
}

// ok evaluates a value (decoded with json.Number) against a schema node.
func (e *jsEval) ok(s, v any) bool {
	if b, isB := s.(bool); isB {
		return b
	}
	m, isM := s.(map[string]any)
	if !isM {
		return false
	}
	if r, ok := m["$ref"].(string); ok {
		t, err := e.resolve(r)
		if err != nil {
			return false
		}
		e.depth++
		defer func() { e.depth-- }()
		if e.depth > 200 {
			return false
		}
		return e.ok(t, v)
	}
	list := func(k string) []any { l, _ := m[k].([]any); return l }
	switch t := m["type"].(type) {
	case string:
		if !jtype(t, v) {
			return false
		}
	case []any:
		ok := false
		for _, x := range t {
			if s, _ := x.(string); jtype(s, v) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if en, ok := m["enum"].([]any); ok {
		hit := false
		for _, x := range en {
			if jsame(x, v) {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	if c, ok := m["const"]; ok && !jsame(c, v) {
		return false
	}
	cmp := func(k string, n *big.Rat, lower, strict bool) bool {
		b, ok := jnum(m[k])
		if !ok {
			return true
		}
		c := n.Cmp(b)
		if strict && c == 0 {
			return false
		}
		return lower && c >= 0 || !lower && c <= 0
	}
	count := func(n int, lo, hi string) bool {
		r := new(big.Rat).SetInt64(int64(n))
		return cmp(lo, r, true, false) && cmp(hi, r, false, false)
	}
	if n, ok := jnum(v); ok {
		if !cmp("minimum", n, true, false) || !cmp("maximum", n, false, false) ||
			!cmp("exclusiveMinimum", n, true, true) || !cmp("exclusiveMaximum", n, false, true) {
			return false
		}
		if d, ok := jnum(m["multipleOf"]); ok && d.Sign() > 0 {
			if !new(big.Rat).Quo(n, d).IsInt() {
				return false
			}
		}
	}
	switch x := v.(type) {
	case string:
		if !count(utf8.RuneCountInString(x), "minLength", "maxLength") {
			return false
		}
		if p, ok := m["pattern"].(string); ok {
			if r := e.re(p); r == nil || !r.MatchString(x) {
				return false
			}
		}
	case []any:
		if !count(len(x), "minItems", "maxItems") {
			return false
		}
		if u, _ := m["uniqueItems"].(bool); u {
			for i := range x {
				for j := range x[:i] {
					if jsame(x[i], x[j]) {
						return false
					}
				}
			}
		}
		if it, ok := m["items"]; ok {
			for _, y := range x {
				if !e.ok(it, y) {
					return false
				}
			}
		}
	case map[string]any:
		if !count(len(x), "minProperties", "maxProperties") {
			return false
		}
		for _, r := range list("required") {
			if _, ok := x[r.(string)]; !ok {
				return false
			}
		}
		props, _ := m["properties"].(map[string]any)
		pats, _ := m["patternProperties"].(map[string]any)
		for k, y := range x {
			seen := false
			if s, ok := props[k]; ok {
				seen = true
				if !e.ok(s, y) {
					return false
				}
			}
			for p, s := range pats {
				if r := e.re(p); r != nil && r.MatchString(k) {
					seen = true
					if !e.ok(s, y) {
						return false
					}
				}
			}
			if a, ok := m["additionalProperties"]; ok && !seen && !e.ok(a, y) {
				return false
			}
			if pn, ok := m["propertyNames"]; ok && !e.ok(pn, k) {
				return false
			}
		}
	}
	for _, s := range list("allOf") {
		if !e.ok(s, v) {
			return false
		}
	}
	if a, ok := m["anyOf"].([]any); ok {
		hit := false
		for _, s := range a {
			if e.ok(s, v) {
				hit = true
				break
			}
		}
		if !hit {
			return false
		}
	}
	if a, ok := m["oneOf"].([]any); ok {
		n := 0
		for _, s := range a {
			if e.ok(s, v) {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	if s, ok := m["not"]; ok && e.ok(s, v) {
		return false
	}
	if c, ok := m["if"]; ok {
		if e.ok(c, v) {
			if s, ok := m["then"]; ok && !e.ok(s, v) {
				return false
			}
		} else if s, ok := m["else"]; ok && !e.ok(s, v) {
			return false
		}
	}
	return true
}
