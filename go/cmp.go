package main

// Comparison of the code under test with the reference semantics (model.go).

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"

	raml "github.com/acronis/go-raml/v2"
)

func decodeJSON(s string) (any, bool) {
	var v any
	d := json.NewDecoder(strings.NewReader(s))
	if d.Decode(&v) != nil {
		return nil, false
	}
	return v, true
}

// Parse parses a document set with the code under test.
func (d *DocSet) Parse(dir string, unwrap, validate bool) (*raml.RAML, error) {
	if len(d.Paths) == 1 {
		return raml.ParseFromString(d.content(d.Entry), d.Entry, dir, parseOpts(unwrap, validate)...)
	}
	d.Files().Write(dir)
	return raml.ParseFromPath(filepath.Join(dir, d.Entry), parseOpts(unwrap, validate)...)
}

// expected tells whether parsing with the options must fail.
func expected(v map[string]bool, unwrap, validate bool) bool {
	if v["parse"] || v["ref"] {
		return true
	}
	if (unwrap || validate) && v["merge"] {
		return true
	}
	return validate && (v["check"] || v["facet"] || v["example"] || v["annot"])
}

// sigOf identifies the input of a case.
func sigOf(d *DocSet, extra string) string {
	s := strings.Join(strings.Fields(d.String()), " ")
	if extra != "" {
		s += " @ " + extra
	}
	return shortLabel(s)
}

func errText(err error) string {
	if err == nil {
		return "accepted"
	}
	s := err.Error()
	return "error: " + s
}

// Outcome compares acceptance of the document set; it returns the model on success.
func Outcome(r *Run, d *DocSet, w *World, v map[string]bool, unwrap, validate bool) (*raml.RAML, bool) {
	rm, err := d.Parse(r.Dir, unwrap, validate)
	r.Eval(1)
	want := expected(v, unwrap, validate)
	mode := fmt.Sprintf("unwrap=%v validate=%v", unwrap, validate)
	if want != (err != nil) {
		exp := "must be accepted"
		if want {
			exp = "must be rejected (" + cats(v) + ": " + strings.Join(w.why, "; ") + ")"
		}
		r.Fail(sigOf(d, mode), fmt.Sprintf("[%s] the document set %s, but parsing gave %s", mode, exp, errText(err)), "")
		return nil, false
	}
	return rm, err == nil
}

// CompareTypes compares every named type of the entry file on every value.
func CompareTypes(r *Run, d *DocSet, w *World, rm *raml.RAML, names []string, vals []any) int {
	acc := 0
	for _, n := range names {
		b := LibType(rm, n)
		var th *Th
		if w.entry.dt != nil {
			th = w.entry.dt
		} else {
			th = w.entry.types[n]
		}
		if b == nil {
			r.Fail(sigOf(d, n), "type "+n+" is missing from the model", "")
			continue
		}
		t := th.get()
		for _, v := range vals {
			want := w.Accepts(t, v)
			err := b.Validate(v)
			r.Eval(1)
			if want {
				acc++
			}
			if want != (err == nil) {
				r.Fail(sigOf(d, n+" <- "+js(v)), fmt.Sprintf("type %s, value %s (%T): the declared constraints %s it, but Validate gave %s",
					n, js(v), v, map[bool]string{true: "accept", false: "reject"}[want], errText(err)), "")
				break
			}
		}
	}
	return acc
}

// reps lists the Go representations of a value: every numeric type that can carry a number.
func reps(v any) []any {
	switch n := v.(type) {
	case int:
		out := []any{n, int64(n)}
		if n >= 0 {
			out = append(out, uint(n), uint64(n))
		}
		if f := float64(n); int64(f) == int64(n) && n < 1<<62 && n > -(1<<62) {
			out = append(out, f)
		}
		return out
	case uint64:
		out := []any{n}
		if f := float64(n); f < 1.8e19 && uint64(f) == n {
			out = append(out, f)
		}
		return out
	}
	return []any{v}
}

func allReps(vs []any) []any {
	var out []any
	for _, v := range vs {
		out = append(out, reps(v)...)
	}
	return out
}
