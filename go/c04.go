package main

// C04: type expressions denote exactly what their grammar says.

import "strings"

type exprPos struct {
	name string
	mk   func(e any) M // the declaration of X in which the expression sits
}

func exprPositions() []exprPos {
	return []exprPos{
		{"scalar", nil},
		{"type", func(e any) M { return M{{"type", e}} }},
		{"type+facet", func(e any) M { return M{{"description", "d"}, {"type", e}} }},
		{"parents", func(e any) M { return M{{"type", l(e)}} }},
		{"property", func(e any) M { return M{{"properties", M{{"p", e}}}} }},
		{"optional property type", func(e any) M { return M{{"properties", M{{"p?", M{{"type", e}}}}}} }},
		{"pattern property", func(e any) M { return M{{"properties", M{{"/^p/", e}}}} }},
		{"items", func(e any) M { return M{{"type", "array"}, {"items", e}} }},
		{"items type", func(e any) M { return M{{"items", M{{"type", e}}}} }},
		{"facet definition", func(e any) M { return M{{"type", "string"}, {"facets", M{{"f?", e}}}} }},
	}
}

func exprDoc(e any, pos exprPos, order int) *DocSet {
	var x any = e
	if pos.mk != nil {
		x = pos.mk(e)
	}
	ts := M{{"A", typed("string", M{{"minLength", 2}})}, {"B-1", typed("object", M{{"properties", M{{"b", "integer"}}}})}}
	if order == 0 {
		ts = append(ts, KV{"X", x})
	} else {
		ts = append(M{{"X", x}}, ts...)
	}
	return NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", ts}}).
		Lib("lib.raml", M{{"types", M{{"A", typed("integer", M{{"maximum", 1}})}, {"C", "A[]"}}}})
}

var c04vals = []any{nil, true, "a", "ab", 1, 2, 0.5, []any{}, []any{1}, []any{2}, []any{"ab"}, []any{"a"}, []any{nil}, []any{[]any{"ab"}}, []any{[]any{1}},
	map[string]any{}, map[string]any{"b": 1}, map[string]any{"b": "x"}, []any{map[string]any{"b": 1}}, "2020-02-29", "12:30:00"}

func c04case(emit func(Case), d *DocSet, unwrap bool) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		w := NewWorld(d)
		v := w.Verdict()
		rm, ok := Outcome(r, d, w, v, unwrap, false)
		if !ok {
			r.Class("rejected:" + cats(v))
			return
		}
		if !unwrap {
			r.Class("accepted without unwrapping")
			return
		}
		CompareDesc(r, d, w, rm, []string{"X"}, 6)
		n := CompareTypes(r, d, w, rm, []string{"X"}, c04vals)
		r.Class("accepted:" + typeOf(w, "X").Kind + sizeClass(n))
	}})
}

func genC04(tier string, emit func(Case)) {
	thorough := tier != "quick"
	// every token string
	toks := []string{"A", "l.A", "string", "[]", "|", "(", ")", "?", " ", "Zz", "."}
	n := 5
	if thorough {
		n = 6
	}
	pos := exprPositions()
	var rec func(cur []string, depth int)
	rec = func(cur []string, depth int) {
		if len(cur) > 0 {
			s := strings.Join(cur, "")
			for i, p := range pos {
				if i > 0 && len(cur) > 3 {
					break
				}
				c04case(emit, exprDoc(s, p, 0), true)
				if i < 2 && len(cur) <= 4 {
					c04case(emit, exprDoc(s, p, 1), false)
				}
			}
		}
		if depth == 0 {
			return
		}
		for _, t := range toks {
			rec(append(append([]string(nil), cur...), t), depth-1)
		}
	}
	rec(nil, n)
	if tier == "deep" { // one token more, without those that can only be part of a wrong name
		short := toks[:9]
		var rec7 func(cur string, depth int)
		rec7 = func(cur string, depth int) {
			if depth == 0 {
				c04case(emit, exprDoc(cur, pos[0], 0), true)
				return
			}
			for _, t := range short {
				rec7(cur+t, depth-1)
			}
		}
		rec7("", 7)
	}
	// every sentence derived from the grammar to a depth, in every position
	atoms := []string{"A", "l.A", "l.C", "B-1", "string", "integer", "nil", "any"}
	if thorough {
		atoms = append(atoms, "number", "boolean", "datetime", "time-only", "datetime-only", "date-only", "file", "array", "object", "union", "l . C")
	}
	var gen func(depth int) []string
	gen = func(depth int) []string {
		out := append([]string(nil), atoms...)
		if depth == 0 {
			return out
		}
		sub := gen(depth - 1)
		small := sub
		if len(small) > 90 {
			small = nil
			for i := 0; i < 90; i++ {
				small = append(small, sub[i*len(sub)/90])
			}
		}
		for _, e := range small {
			plain := e
			if strings.ContainsAny(e, "[]?|") {
				plain = "(" + e + ")"
			}
			out = append(out, plain+"[]", plain+"?", "("+e+")", "( "+e+" )")
		}
		pair := small
		if len(pair) > 36 {
			pair = append(append([]string(nil), sub[:len(atoms)]...), small[len(small)-28:]...)
		}
		for _, a := range pair {
			for _, b := range pair {
				out = append(out, a+" | "+b)
			}
		}
		for _, a := range atoms[:4] {
			for _, b := range atoms[2:5] {
				for _, c := range atoms[:3] {
					out = append(out, a+"|"+b+"|"+c, a+"\t|"+b+"[]| "+c+"?")
				}
			}
		}
		return out
	}
	for _, e := range gen(2) {
		for i, p := range pos {
			c04case(emit, exprDoc(e, p, 0), true)
			if thorough || i == 4 {
				c04case(emit, exprDoc(e, p, 1), true)
			}
		}
	}
	// characters outside the alphabet, one at a time, at every place of a sentence
	for c := 1; c < 128; c++ {
		for _, base := range []string{"A", "A | string", "(A)[]", "l.A", "A?"} {
			for i := 0; i <= len(base); i++ {
				c04case(emit, exprDoc(base[:i]+string(rune(c))+base[i:], pos[1], 0), true)
			}
		}
	}
	for _, u := range []string{"é", " ", "日", "\u2028", "\U0001F600"} {
		for i := 0; i <= 3; i++ {
			c04case(emit, exprDoc("A[]"[:i]+u+"A[]"[i:], pos[1], 0), true)
		}
	}
	// names that begin with, end with or contain built-in names
	for _, n := range sortedKeys(builtins) {
		for _, s := range []string{n, n + "s", n + "-x", "x" + n, n + "." + n, "l." + n, n + ".A", n + "[]", n + "?", n + " | nil", "(" + n + ")", n + " " + n, strings.ToUpper(n)} {
			for _, p := range pos {
				c04case(emit, exprDoc(s, p, 0), true)
			}
		}
	}
}

func init() {
	register(&Check{ID: "C04", Level: "model_checking", Deep: true,
		Rule:        "every token string up to length 6 over 11 tokens (thorough: of length 7 over 9 of them), every sentence derived to depth 2, every single foreign character at every place, in every embedding position; acceptance and structure of the resolved type must agree with an independent parser of the published grammar",
		Assumptions: []string{"a string starting with { is a JSON schema, not an expression"},
		Gen:         genC04})
}
