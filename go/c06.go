package main

// C06: the outcome does not depend on the order of declarations, keys and internal visits.

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C06", Level: "model_checking",
		Rule: "every document set of the shared corpora x every order of the entries of each of its mappings (all permutations up to 5 entries, all transpositions beyond; one mapping at a time, and all of them reversed at once) x two modes; " +
			"acceptance, accepted values and canonical JSON Schema of every type are compared with those of the order as written",
		Assumptions: []string{"member order of unions and of several parents is never changed", "schemas of recursive types are compared after unfolding their references to a fixed depth, by their validating keywords"},
		Gen:         genC06})
}

// reorders calls f with every reordering of one mapping below v (including v) and the name of the mapping.
func reorders(v any, path string, full bool, f func(v any, path string)) {
	switch x := v.(type) {
	case M:
		n := len(x)
		put := func(idx []int) {
			o := make(M, n)
			for i, j := range idx {
				o[i] = x[j]
			}
			f(o, path)
		}
		switch {
		case n < 2:
		case full && n <= 5:
			first := true
			permute(n, func(idx []int) {
				if !first {
					put(idx)
				}
				first = false
			})
		case full:
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					idx := upto(n)
					idx[i], idx[j] = j, i
					put(idx)
				}
			}
			fallthrough
		default:
			idx := upto(n)
			for i := range idx {
				idx[i] = n - 1 - i
			}
			put(idx)
		}
		for i, e := range x {
			reorders(e.V, path+"/"+e.K, full, func(nv any, p string) {
				o := append(M{}, x...)
				o[i] = KV{e.K, nv}
				f(o, p)
			})
		}
	case []any:
		for i, e := range x {
			reorders(e, fmt.Sprintf("%s/%d", path, i), full, func(nv any, p string) {
				o := append([]any{}, x...)
				o[i] = nv
				f(o, p)
			})
		}
	}
}

func upto(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// permute enumerates the permutations of n elements in lexical order.
func permute(n int, f func([]int)) {
	idx := upto(n)
	for {
		f(append([]int{}, idx...))
		i := n - 2
		for i >= 0 && idx[i] > idx[i+1] {
			i--
		}
		if i < 0 {
			return
		}
		j := n - 1
		for idx[j] < idx[i] {
			j--
		}
		idx[i], idx[j] = idx[j], idx[i]
		sort.Ints(idx[i+1:])
	}
}

// reversed reverses every mapping.
func reversed(v any) any {
	switch x := v.(type) {
	case M:
		var o M
		for i := len(x) - 1; i >= 0; i-- {
			o = append(o, KV{x[i].K, reversed(x[i].V)})
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i, e := range x {
			o[i] = reversed(e)
		}
		return o
	}
	return v
}

func (d *DocSet) withBody(p string, b M) *DocSet {
	c := *d
	c.Body = map[string]M{}
	for k, v := range d.Body {
		c.Body[k] = v
	}
	c.Body[p] = b
	return &c
}

// canonSchema renders a schema with sorted members; references of recursive schemas are unfolded.
func canonSchema(b []byte) string {
	e, err := newJSEval(b)
	if err != nil {
		return "undecodable"
	}
	root, _ := e.root.(map[string]any)
	defs, _ := root["definitions"].(map[string]any)
	refs := strings.Count(string(b), `"$ref"`)
	if len(defs) == 1 && refs == 1 {
		for _, v := range defs {
			return js(sortRequired(v, false))
		}
	}
	return js(unfold(e, e.root, 5))
}

// sortRequired sorts the lists whose order has no meaning.
func sortRequired(v any, data bool) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, c := range x {
			if l, ok := c.([]any); ok && (k == "required" || k == "examples") && !data {
				l = append([]any{}, l...)
				sort.Slice(l, func(i, j int) bool { return js(l[i]) < js(l[j]) })
				o[k] = l
				continue
			}
			o[k] = sortRequired(c, data || k == "default" || k == "examples" || k == "enum" || k == "x-annotations" || k == "x-facet-data")
		}
		return o
	case []any:
		o := make([]any, len(x))
		for i, c := range x {
			o[i] = sortRequired(c, data)
		}
		return o
	}
	return v
}

// unfold follows references and keeps the validating keywords down to a depth of nested schemas.
func unfold(e *jsEval, v any, depth int) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	for i := 0; ; i++ {
		r, ok := m["$ref"].(string)
		if !ok {
			break
		}
		t, err := e.resolve(r)
		if err != nil || i > 50 {
			return "unresolved " + r
		}
		if m, ok = t.(map[string]any); !ok {
			return t
		}
	}
	if depth == 0 {
		return "…"
	}
	o := map[string]any{}
	for k, c := range m {
		switch k {
		case "definitions", "title", "description", "default", "examples", "$schema", "$id":
			continue
		case "properties", "patternProperties":
			cm, _ := c.(map[string]any)
			om := map[string]any{}
			for n, s := range cm {
				om[n] = unfold(e, s, depth-1)
			}
			o[k] = om
		case "items", "additionalProperties", "not":
			o[k] = unfold(e, c, depth-1)
		case "anyOf", "allOf", "oneOf":
			cl, _ := c.([]any)
			var ol []any
			for _, s := range cl {
				ol = append(ol, unfold(e, s, depth-1))
			}
			o[k] = ol
		case "required":
			o[k] = sortRequired(map[string]any{k: c}, false).(map[string]any)[k]
		default:
			if !strings.HasPrefix(k, "x-") {
				o[k] = c
			}
		}
	}
	return o
}

// vals06 is the universe every type is asked about besides values of its own making.
func vals06() []any {
	return append(append([]any{}, c04vals...), map[string]any{"a": 1}, map[string]any{"a": "ab", "b": 1}, map[string]any{"id": 1, "name": "ab"}, map[string]any{"v": "ab", "n": map[string]any{"v": "a"}},
		map[string]any{"kind": "d", "x": 1}, map[string]any{"p1": 1, "q": 1}, 1.5, "abc", uint64(5), -1)
}

// outcomes runs one document set and describes what a user can observe.
func outcomes(r *Run, d *DocSet, vals map[string][]any) (parts []string) {
	_, err := d.Parse(r.Dir, false, true)
	parts = append(parts, "validated without unwrapping: "+okerr(err))
	rm, err := d.Parse(r.Dir, true, true)
	parts = append(parts, "unwrapped and validated: "+okerr(err))
	r.Eval(2)
	if err != nil {
		rm, err = d.Parse(r.Dir, true, false)
		r.Eval(1)
		parts = append(parts, "unwrapped: "+okerr(err))
		if err != nil {
			_, err = d.Parse(r.Dir, false, false)
			r.Eval(1)
			return append(parts, "parsed only: "+okerr(err))
		}
	}
	common := vals06()
	for _, p := range d.Paths {
		fr := rm.GetFragment(filepath.Join(r.Dir, p))
		one := func(what string, b *raml.BaseShape) {
			if b == nil {
				parts = append(parts, what+" missing")
				return
			}
			var sb strings.Builder
			for _, vs := range [][]any{common, vals[p+" "+what]} {
				for _, v := range vs {
					sb.WriteByte("01"[b2i(b.Validate(v) == nil)])
				}
			}
			parts = append(parts, "values "+p+" "+what+" "+sb.String())
			m, err := schemaOf(b)
			if err != nil {
				parts = append(parts, "schema "+p+" "+what+" error")
				return
			}
			for _, k := range sortedKeys(m) {
				parts = append(parts, "schema ("+k+") "+p+" "+what+" "+canonSchema(m[k]))
			}
			r.Eval(1)
		}
		switch f := fr.(type) {
		case *raml.Library:
			var ns []string
			for q := f.Types.Oldest(); q != nil; q = q.Next() {
				ns = append(ns, q.Key)
			}
			sort.Strings(ns)
			for _, n := range ns {
				b, _ := f.Types.Get(n)
				one("type "+n, b)
			}
			ns = nil
			for q := f.AnnotationTypes.Oldest(); q != nil; q = q.Next() {
				ns = append(ns, q.Key)
			}
			sort.Strings(ns)
			for _, n := range ns {
				b, _ := f.AnnotationTypes.Get(n)
				one("annotation type "+n, b)
			}
		case *raml.DataType:
			one("", f.Shape)
		}
	}
	return parts
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// c06case: level 0 reverses all mappings at once, 1 also each mapping, 2 enumerates the orders of each mapping.
func c06case(d *DocSet, level int) Case {
	return Case{Doc: d, Label: d.String, Run: func(r *Run) {
		vals := map[string][]any{}
		w := NewWorld(d)
		v := w.Verdict()
		if w.limit <= 20000 && !expected(v, true, false) && w.entry != nil {
			for n, th := range w.entry.types {
				vs := valuesFor(w, th.get(), 3, 2)
				if len(vs) > 60 {
					vs = vs[:60]
				}
				vals[d.Entry+" type "+n] = vs
			}
		}
		base := outcomes(r, d, vals)
		cmp := func(what string, o *DocSet) bool {
			got := outcomes(r, o, vals)
			r.Note("reorderings", 1)
			for i := 0; i < len(base) || i < len(got); i++ {
				a, b := "nothing", "nothing"
				if i < len(base) {
					a = base[i]
				}
				if i < len(got) {
					b = got[i]
				}
				if a != b {
					r.Fail(sigOf(o, what), fmt.Sprintf("with %s in another order the outcome differs: %s\nas written:\n%s", what, firstDiff(a, b), d.String()), "")
					return false
				}
			}
			return true
		}
		r.Class(strings.Join(base[:min(3, len(base))], ", "))
		all := d
		for _, p := range d.Paths {
			if d.Body[p] != nil {
				b, _ := reversed(d.Body[p]).(M)
				all = all.withBody(p, b)
			}
		}
		if !cmp("every mapping", all) || level == 0 {
			return
		}
		for _, p := range d.Paths {
			if d.Body[p] == nil {
				continue
			}
			p, good := p, true
			reorders(d.Body[p], p, level == 2, func(nv any, where string) {
				if good {
					good = cmp("the entries of "+where, d.withBody(p, nv.(M)))
				}
			})
			if !good {
				return
			}
		}
	}}
}

func genC06(tier string, emit func(Case)) {
	seen := map[uint64]bool{}
	once := func(d *DocSet, level int) {
		h := hash64(d.String())
		if seen[h] || repeats(d) {
			return
		}
		seen[h] = true
		emit(c06case(d, level))
		if setOrder != nil && (level == 2 || len(d.Paths) > 1 && len(d.Paths) < 4) {
			emit(c06maps(d, tier == "thorough"))
		}
	}
	k := 0
	genCorpus(tier, func(d *DocSet, names []string) {
		k++
		level := 2
		if tier == "quick" && len(names) > 6 && k > 1 {
			level = 1
		}
		once(d, level)
	})
	// keys that several pattern properties match
	pats := []any{"string", "integer", "nil", typed("string", M{{"maxLength", 1}}), "any"}
	keys := []string{"/^p/", "/1$/", "/p/", "//"}
	for _, a := range pats {
		for _, b := range pats {
			for _, c := range pats[:4] {
				once(NewDocSet().Lib("main.raml", M{{"types", M{{"C", typed("object", M{{"properties", M{{keys[0], a}, {keys[1], b}, {keys[2], c}}}})}}}}), 2)
				once(NewDocSet().Lib("main.raml", M{{"types", M{{"C", typed("P", M{{"properties", M{{keys[0], a}, {keys[1], b}}}})}, {"P", typed("object", M{{"properties", M{{keys[2], c}, {keys[3], "boolean"}}}})}}}}), 2)
			}
		}
	}
	others := []string{"C02", "C09"}
	if tier == "thorough" {
		others = []string{"C02", "C09", "C08", "C07", "C03", "C11", "C19", "C20", "C05"}
	}
	for _, id := range others {
		checks[id].Gen("quick", func(c Case) {
			if c.Doc == nil {
				return
			}
			once(c.Doc, map[string]int{"quick": 0, "thorough": 1}[tier])
		})
	}
}

// repeats tells whether some mapping of the set declares one name twice.
func repeats(d *DocSet) bool {
	var rec func(v any) bool
	rec = func(v any) bool {
		switch x := v.(type) {
		case M:
			seen := map[string]bool{}
			for _, e := range x {
				k := strings.TrimRight(e.K, "?")
				if seen[k] || rec(e.V) {
					return true
				}
				seen[k] = true
			}
		case []any:
			for _, e := range x {
				if rec(e) {
					return true
				}
			}
		}
		return false
	}
	for _, p := range d.Paths {
		if rec(d.Body[p]) {
			return true
		}
	}
	return false
}
