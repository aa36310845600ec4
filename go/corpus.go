package main

// A corpus of document sets that covers every construct; used by the checks that compare a document set with a variation
// of itself, or a model with a later state of itself.

import "strings"

// richTypes are declarations with data, annotations and custom facets; they use the annotation types of richLib.
func richTypes() []KV {
	return []KV{
		{"Base", M{{"type", "object"}, {"displayName", "Base type"}, {"description", "base"}, {"facets", M{{"level", "integer"}, {"tag?", typed("string", M{{"maxLength", 3}})}}},
			{"properties", M{{"id", typed("integer", M{{"minimum", 1}, {"example", 3}, {"(note)", "id"}})}, {"name?", typed("string", M{{"default", "nn"}, {"minLength", 2}})}}}, {"(note)", "on base"}}},
		{"Derived", M{{"type", "Base"}, {"level", 5}, {"properties", M{{"name", typed("string", M{{"maxLength", 4}})}, {"more?", "Leaf[]"}}}, {"example", M{{"id", 1}, {"name", "abc"}}}}},
		{"Derived2", M{{"type", "Derived"}, {"level", 6}, {"tag", "x"}, {"additionalProperties", false}}},
		{"Multi", M{{"type", l("Base", "Other")}, {"level", 1}}},
		{"Other", M{{"type", "object"}, {"properties", M{{"o?", "Leaf"}, {"/^x-/", "string"}}}, {"minProperties", 1}}},
		{"Leaf", M{{"type", "string"}, {"enum", l("a", "bb", "ccc")}, {"default", "a"}, {"examples", M{{"one", "a"}, {"two", M{{"value", "bb"}, {"displayName", "Two"}, {"(note)", "ex"}}}}}}},
		{"LeafAlias", "Leaf"},
		{"Un", "Leaf | integer | Other[]"},
		{"UnAlias", "Un"},
		{"Opt", "Base?"},
		{"Arr", M{{"type", "array"}, {"items", M{{"type", "Base"}, {"level", 2}}}, {"uniqueItems", true}, {"maxItems", 2}, {"(full)", M{{"a", 1}, {"b", l("x")}}}}},
		{"Node", M{{"type", "object"}, {"properties", M{{"v", "Leaf"}, {"next?", "Node"}, {"kids?", "Node[]"}, {"u?", "Un"}}}}},
		{"NodeChild", M{{"type", "Node"}, {"properties", M{{"w?", "NodeChild"}}}}},
		{"Disc", M{{"type", "object"}, {"discriminator", "kind"}, {"discriminatorValue", "d"}, {"properties", M{{"kind", "string"}}}}},
		{"Num", M{{"type", "number"}, {"minimum", 0.5}, {"maximum", 10}, {"multipleOf", 0.5}, {"format", "double"}, {"example", 1.5}}},
		{"Dt", M{{"type", "datetime"}, {"format", "rfc3339"}, {"example", "2020-01-01T00:00:00Z"}}},
		{"File", M{{"type", "file"}, {"fileTypes", l("image/png")}, {"minLength", 1}, {"maxLength", 9}}},
		{"Any", "any"},
		{"Nil", "nil"},
		{"Js", `{"type":"object","properties":{"a":{"type":"integer"}}}`},
	}
}

func richAnnots() KV {
	return KV{"annotationTypes", M{{"note", "string"}, {"full", M{{"properties", M{{"a", "integer"}, {"b?", "string[]"}, {"c?", "Node"}}}}}, {"sub", M{{"type", "note"}}}}}
}

// fixAnnots drops the reference from an annotation type to a named type when that type is not declared.
func richDoc(ts ...KV) *DocSet {
	have := map[string]bool{}
	for _, t := range ts {
		have[t.K] = true
	}
	an := M{{"note", "string"}, {"full", M{{"properties", M{{"a", "integer"}, {"b?", "string[]"}}}}}}
	return NewDocSet().Lib("main.raml", M{{"annotationTypes", an}, {"types", M(ts)}})
}

// closure returns the declarations that the chosen ones refer to, in the order of all.
func closure(all []KV, chosen ...string) []KV {
	need := map[string]bool{}
	var rec func(n string)
	rec = func(n string) {
		if need[n] {
			return
		}
		for _, t := range all {
			if t.K == n {
				need[n] = true
				s := flow(t.V)
				for _, o := range all {
					if mentions(s, o.K) {
						rec(o.K)
					}
				}
			}
		}
	}
	for _, c := range chosen {
		rec(c)
	}
	var out []KV
	for _, t := range all {
		if need[t.K] {
			out = append(out, t)
		}
	}
	return out
}

// mentions tells whether a name occurs as a whole word in s.
func mentions(s, name string) bool {
	for i := 0; ; {
		j := strings.Index(s[i:], name)
		if j < 0 {
			return false
		}
		j += i
		k := j + len(name)
		if (j == 0 || !isIdent(s[j-1])) && (k == len(s) || !isIdent(s[k])) {
			return true
		}
		i = j + 1
	}
}

func namesOf(ts []KV) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.K)
	}
	return out
}

// genMulti emits document sets of several files.
func genMulti(tier string, emit func(*DocSet, []string)) {
	_ = tier
	rich := richTypes()
	dt := func(k string) M {
		for _, t := range rich {
			if t.K == k {
				m, _ := t.V.(M)
				return m
			}
		}
		return nil
	}
	for _, k := range []string{"Other", "Leaf", "Num", "Disc", "File"} {
		body := dt(k)
		var b2 M
		for _, e := range body {
			if e.K == "properties" {
				e.V = M{{"o?", "l.LL"}, {"kind", "string"}}
			}
			if e.K == "examples" || e.K == "example" || e.K == "minProperties" {
				continue
			}
			b2 = append(b2, e)
		}
		b2 = cat(M{{"uses", M{{"l", "sub/lib.raml"}}}}, b2)
		d := NewDocSet().Lib("main.raml", M{
			{"uses", M{{"l", "sub/lib.raml"}}},
			{"annotationTypes", M{{"note", "string"}}},
			{"types", M{{"I", Inc("dt.raml")}, {"J", M{{"type", Inc("dt.raml")}, {"description", "own"}, {"(note)", "j"}}}, {"K", M{{"type", "I"}, {"(l.mark)", 1}}}, {"L", "l.LL"}, {"M", "(I | l.LL)[]"},
				{"P", M{{"properties", M{{"a?", "I"}, {"b?", Inc("dt.raml")}, {"c?", M{{"type", "l.Up"}}}}}}}}},
			{"(l.mark)", 3}}).
			DataType("dt.raml", b2).
			Lib("sub/lib.raml", M{{"uses", M{{"up", "../main.raml"}}}, {"annotationTypes", M{{"mark", "integer"}}}, {"types", M{{"LL", M{{"type", "integer"}, {"minimum", 1}, {"(mark)", 2}}}, {"Up", "up.I"}, {"I", Inc("../dt.raml")}}}})
		emit(d, []string{"I", "J", "K", "L", "M", "P"})
	}
	emit(NewDocSet().Lib("main.raml", M{{"types", M{{"A", M{{"type", "object"}, {"properties", M{{"x?", Inc("s.json")}, {"y", "integer"}}}, {"example", Inc("ex.raml")}}}, {"B", M{{"type", Inc("s.json")}, {"examples", Inc("ne.raml")}}},
		{"C", M{{"type", "A"}, {"example", Inc("e.json")}, {"default", Inc("e.yaml")}}}}}}).
		Raw("s.json", `{"type":"object","properties":{"q":{"type":"string"}}}`).Raw("e.json", `{"y":1,"x":{"q":"a"}}`).Raw("e.yaml", "y: 2\n").Raw("ex.raml", "text").
		Example("ne.raml", M{{"one", M{{"q", "a"}}}, {"two", M{{"value", M{{"q", "b"}}}, {"strict", true}}}}), []string{"A", "B", "C"})
}

// genCorpus emits the whole corpus; validate is set for the sets that are meant to be valid with validation.
func genCorpus(tier string, emit func(d *DocSet, names []string)) {
	thorough := tier != "quick"
	rich := richTypes()
	emit(richDoc(rich...), namesOf(rich))
	emit(NewDocSet().Lib("main.raml", M{richAnnots(), {"types", M(rich)}, {"(note)", "lib"}, {"(sub)", "s"}}), namesOf(rich))
	for i, a := range rich {
		ts := closure(rich, a.K)
		emit(richDoc(ts...), namesOf(ts))
		for _, b := range rich[i+1:] {
			ts := closure(rich, a.K, b.K)
			emit(richDoc(ts...), namesOf(ts))
		}
	}
	genMulti(tier, emit)
	ms := memberTypes()
	pos := []func(t any) M{
		func(t any) M { return M{{"type", "object"}, {"properties", M{{"a?", t}}}} },
		func(t any) M { return M{{"type", "object"}, {"properties", M{{"/^p/", t}, {"q", "integer"}}}} },
		func(t any) M { return M{{"type", "array"}, {"items", t}} },
	}
	for _, p := range pos {
		for _, t1 := range ms {
			emit(types(M{{"P", p("T")}, {"T", t1}, {"C", typed("P", M{})}, {"D", "C | P"}, {"U", "D"}}), []string{"P", "T", "C", "D", "U"})
			for _, t2 := range ms {
				emit(types(M{{"P", p("T")}, {"T", t1}, {"C", p(t2).with("type", "P")}, {"A", "C"}}), []string{"P", "T", "C", "A"})
				if thorough {
					emit(types(M{{"P", p("T")}, {"T", t1}, {"Q", p(t2)}, {"C", typed(l("P", "Q"), M{})}, {"A", M{{"type", "A0"}}}, {"A0", "C"}}), []string{"P", "T", "Q", "C", "A0", "A"})
				}
			}
		}
	}
	genRec(tier, emit)
}
