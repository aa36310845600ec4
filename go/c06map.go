package main

// C06, second part: the order in which the library visits Go maps.

import (
	"fmt"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

// visit is one visit of a map during an operation.
type visit struct{ site, n int }

// ordered runs an operation with chosen orders for some of its visits and returns all visits.
func ordered(plan map[int][]int, op func()) (vs []visit) {
	setOrder(func(site, n int) []int {
		k := len(vs)
		vs = append(vs, visit{site, n})
		return plan[k]
	})
	defer setOrder(nil)
	op()
	return vs
}

// ordersOf lists the orders of n entries other than the sorted one.
func ordersOf(n, full int) [][]int {
	var out [][]int
	if n <= full {
		permute(n, func(idx []int) { out = append(out, idx) })
		return out[1:]
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			idx := upto(n)
			idx[i], idx[j] = j, i
			out = append(out, idx)
		}
	}
	rev := upto(n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	return append(out, rev)
}

// explore runs op under every plan that deviates from sorted order in at most bound visits.
// op returns what is observable; it must not depend on the plan.
func explore(r *Run, sig func(extra string) string, what string, bound, full, limit int, op func() string) bool {
	var base string
	vs := ordered(nil, func() { base = op() })
	r.Note("map_visits", int64(len(vs)))
	runs := 1
	var rec func(plan map[int][]int, vs []visit, from, left int) bool
	rec = func(plan map[int][]int, vs []visit, from, left int) bool {
		for k := from; k < len(vs); k++ {
			for _, o := range ordersOf(vs[k].n, full) {
				if runs >= limit {
					r.Note("map_orders_capped", 1)
					return true
				}
				p := map[int][]int{k: o}
				for a, b := range plan {
					p[a] = b
				}
				var got string
				nvs := ordered(p, func() { got = op() })
				runs++
				r.Eval(1)
				if got != base {
					r.Fail(sig(what), fmt.Sprintf("%s: with the entries of one map visited in order %v (visit %d) the outcome differs: %s", what, o, k, firstDiff(base, got)), "")
					return false
				}
				if left > 1 && !rec(p, nvs, k+1, left-1) {
					return false
				}
			}
		}
		return true
	}
	// every visit reversed at once
	var got string
	setOrder(func(_, n int) []int {
		idx := upto(n)
		for i := range idx {
			idx[i] = n - 1 - i
		}
		return idx
	})
	got = op()
	setOrder(nil)
	if got != base {
		r.Fail(sig(what), fmt.Sprintf("%s: with all maps visited in reverse order the outcome differs: %s", what, firstDiff(base, got)), "")
		return false
	}
	ok := rec(nil, vs, 0, bound)
	r.Note("map_orders", int64(runs))
	return ok
}

// allShapes lists the declared types of the files of a model, with a name.
func allShapes(rm *raml.RAML, dir string, d *DocSet) (names []string, bs []*raml.BaseShape) {
	for _, p := range d.Paths {
		add := func(n string, b *raml.BaseShape) {
			names = append(names, p+" "+n)
			bs = append(bs, b)
		}
		switch f := rm.GetFragment(filepath.Join(dir, p)).(type) {
		case *raml.Library:
			for q := f.Types.Oldest(); q != nil; q = q.Next() {
				add("type "+q.Key, q.Value)
			}
			for q := f.AnnotationTypes.Oldest(); q != nil; q = q.Next() {
				add("annotation type "+q.Key, q.Value)
			}
		case *raml.DataType:
			add("", f.Shape)
		}
	}
	return names, bs
}

func c06maps(d *DocSet, thorough bool) Case {
	bound, limit := 1, 400
	if thorough {
		bound, limit = 2, 1000
	}
	return Case{Doc: d, Label: func() string { return "map orders\n" + d.String() }, Run: func(r *Run) {
		sig := func(extra string) string { return sigOf(d, extra) }
		d.Files().Write(r.Dir)
		entry := filepath.Join(r.Dir, d.Entry)
		var model *raml.RAML
		for _, mode := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
			mode := mode
			good := explore(r, sig, fmt.Sprintf("parsing with unwrap=%v validate=%v", mode[0], mode[1]), bound, 4, limit, func() string {
				rm, err := raml.ParseFromPath(entry, parseOpts(mode[0], mode[1])...)
				if err != nil {
					return "rejected"
				}
				if mode[0] {
					model = rm
				}
				names, bs := allShapes(rm, r.Dir, d)
				var sb strings.Builder
				for i, b := range bs {
					depth := 4
					if !mode[0] {
						depth = 2
					}
					sb.WriteString(names[i] + ": " + descShape(b, depth) + "\n")
				}
				return sb.String()
			})
			if !good {
				return
			}
		}
		if model == nil {
			r.Class("rejected")
			return
		}
		r.Class("accepted")
		names, bs := allShapes(model, r.Dir, d)
		w := NewWorld(d)
		v := w.Verdict()
		vals := map[string][]any{}
		if w.limit <= 20000 && !expected(v, true, false) && w.entry != nil {
			for n, th := range w.entry.types {
				vs := valuesFor(w, th.get(), 4, 3)
				if len(vs) > 40 {
					vs = vs[:40]
				}
				vals[d.Entry+" type "+n] = vs
			}
		}
		common := vals06()
		for i, b := range bs {
			if !explore(r, sig, "converting "+names[i], bound, 3, limit, func() string {
				m, err := schemaOf(b)
				if err != nil {
					return "error"
				}
				var sb strings.Builder
				for _, k := range sortedKeys(m) {
					sb.WriteString(k + " " + canonSchema(m[k]) + "\n")
				}
				return sb.String()
			}) {
				return
			}
			for _, vs := range [][]any{common, vals[names[i]]} {
				for _, v := range vs {
					if !hasMap(v) {
						continue
					}
					if !explore(r, sig, "checking "+js(v)+" against "+names[i], bound, 4, limit, func() string { return okerr(b.Validate(v)) }) {
						return
					}
				}
			}
		}
	}}
}

// hasMap tells whether a value contains a map with several entries.
func hasMap(v any) bool {
	switch x := v.(type) {
	case map[string]any:
		if len(x) > 1 {
			return true
		}
		for _, c := range x {
			if hasMap(c) {
				return true
			}
		}
	case []any:
		for _, c := range x {
			if hasMap(c) {
				return true
			}
		}
	}
	return false
}
