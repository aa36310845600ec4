package main

// C22: a document set means what its YAML content says, in whatever notation it is written.

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// nnode is a key or value of a file, in the order of writing.
type nnode struct {
	v     any
	isKey bool
	text  string // content, for comparison
	where string
}

func nsize(v any) int {
	n := 1
	switch x := v.(type) {
	case M:
		for _, e := range x {
			n += 1 + nsize(e.V)
		}
	case []any:
		for _, e := range x {
			n += nsize(e)
		}
	}
	return n
}

func nlist(v any, where string, out *[]nnode) {
	*out = append(*out, nnode{v: v, text: flow(v), where: where})
	switch x := v.(type) {
	case M:
		for _, e := range x {
			*out = append(*out, nnode{v: e.K, isKey: true, text: flow(e.K), where: where + "/key " + e.K})
			nlist(e.V, where+"/"+e.K, out)
		}
	case []any:
		for i, e := range x {
			nlist(e, where+"/"+strconv.Itoa(i), out)
		}
	}
}

var (
	plainBlock = regexp.MustCompile(`^[A-Za-z(/][A-Za-z0-9_.\-/ ()|^+*$?\[\]]*$`)
	plainFlow  = regexp.MustCompile(`^[A-Za-z(/][A-Za-z0-9_.\-/ ()|^+*$]*$`)
	reserved   = map[string]bool{"true": true, "false": true, "null": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true}
)

func plainOK(s string, inFlow bool) bool {
	re := plainBlock
	if inFlow {
		re = plainFlow
	}
	return re.MatchString(s) && !strings.HasSuffix(s, " ") && !reserved[strings.ToLower(s)]
}

// notator renders a value in block style, except for the nodes with a style of their own.
type notator struct {
	style map[int]string
	next  int
	unit  int
	inSeq bool                                   // the node is an element of a sequence
	every func(v any, isKey, inFlow bool) string // the style of all other nodes
}

func (n *notator) pad(ind int) string { return strings.Repeat(" ", ind*n.unit) }

// key renders a key with its colon.
func (n *notator) key(s string, inFlow bool, ind int) string {
	id := n.next
	n.next++
	st := n.style[id]
	if st == "" && n.every != nil {
		st = n.every(s, true, inFlow)
	}
	anchor := ""
	if strings.HasPrefix(st, "&") {
		anchor, st = st+" ", ""
	}
	switch {
	case strings.HasPrefix(st, "*"):
		return st + " :"
	case st == "'":
		return "'" + strings.ReplaceAll(s, "'", "''") + "':"
	case st == "plain" && plainOK(s, inFlow):
		return s + ":"
	case st == "?" && !inFlow:
		return "? " + quote(s) + "\n" + n.pad(ind) + ":"
	case st == "?":
		return "? " + quote(s) + " :"
	case st == "!!str":
		return "!!str " + quote(s) + ":"
	case st == "esc":
		return escaped(s) + ":"
	case st == "verbatim":
		return "!<tag:yaml.org,2002:str> " + quote(s) + ":"
	}
	return anchor + quote(s) + ":"
}

// node renders a value with a leading blank or line break.
func (n *notator) node(v any, ind int, inFlow bool) string {
	id, inSeq := n.next, n.inSeq
	n.inSeq = false
	st := n.style[id]
	if st == "" && n.every != nil {
		st = n.every(v, false, inFlow)
	}
	if strings.HasPrefix(st, "*") {
		n.next += nsize(v)
		return " " + st + " "
	}
	n.next++
	pre := " "
	if strings.HasPrefix(st, "&") {
		pre, st = " "+st+" ", ""
	}
	switch x := v.(type) {
	case M:
		if st == "!!map" {
			pre = " !!map "
		}
		if inFlow || st == "flow" || len(x) == 0 {
			p := make([]string, len(x))
			for i, e := range x {
				k := n.key(e.K, true, ind)
				p[i] = k + n.node(e.V, ind, true)
			}
			return pre + "{" + strings.Join(p, ", ") + "}"
		}
		var b strings.Builder
		b.WriteString(strings.TrimRight(pre, " "))
		for _, e := range x {
			if st == "comment" {
				b.WriteString("\n\n" + n.pad(ind) + "# note: {}[]")
			}
			k := n.key(e.K, false, ind)
			val := n.node(e.V, ind+1, false)
			b.WriteString("\n" + n.pad(ind) + k + val)
			if st == "comment" && !strings.Contains(val, "\n") {
				b.WriteString(" # a: b")
			}
		}
		return b.String()
	case []any:
		if st == "!!seq" {
			pre = " !!seq "
		}
		if inFlow || st == "flow" || len(x) == 0 {
			p := make([]string, len(x))
			for i, e := range x {
				p[i] = n.node(e, ind, true)
			}
			return pre + "[" + strings.Join(p, ",") + "]"
		}
		at := ind
		if st == "seq0" && ind > 0 && !inSeq {
			at--
		}
		var b strings.Builder
		b.WriteString(strings.TrimRight(pre, " "))
		for _, e := range x {
			n.inSeq = true
			b.WriteString("\n" + n.pad(at) + "-" + n.node(e, at+1, false))
		}
		return b.String()
	case string:
		switch {
		case st == "'" && !strings.Contains(x, "\n"):
			return " '" + strings.ReplaceAll(x, "'", "''") + "'"
		case st == "plain" && plainOK(x, inFlow):
			return " " + x
		case (st == "lit" || st == "fold") && !inFlow && x != "" && !strings.ContainsAny(x, "\n\r\t") && x == strings.TrimSpace(x):
			return map[string]string{"lit": " |-", "fold": " >-"}[st] + "\n" + n.pad(max(ind, 1)) + x
		case st == "!!str":
			return " !!str " + quote(x)
		case st == "esc":
			return " " + escaped(x)
		case st == "verbatim":
			return " !<tag:yaml.org,2002:str> " + quote(x)
		case st == "split" && !inFlow && len(x) > 2 && !strings.ContainsAny(x, " \n\"\\\t"):
			return " \"" + x[:1] + "\\\n" + n.pad(ind+1) + x[1:] + "\""
		case st == "keep" && !inFlow && x != "" && !strings.ContainsAny(x, "\r\t") && x[0] != ' ' && x[0] != '\n' && strings.HasSuffix(x, "\n") && !strings.HasSuffix(x, "\n\n"):
			return " |\n" + n.pad(max(ind, 1)) + strings.ReplaceAll(strings.TrimSuffix(x, "\n"), "\n", "\n"+n.pad(max(ind, 1)))
		}
		return pre + quote(x)
	case Inc:
		switch {
		case st == "'":
			return " !include '" + string(x) + "'"
		case st == "dq":
			return " !include " + quote(string(x))
		case st == "lit" && !inFlow:
			return " !include |-\n" + n.pad(max(ind, 1)) + string(x)
		}
		return pre + "!include " + string(x)
	case nil:
		switch {
		case st == "~":
			return " ~"
		case st == "empty" && !inFlow:
			return ""
		case st == "NULL":
			return " NULL"
		case st == "Null":
			return " Null"
		case st == "!!null":
			return " !!null null"
		}
	case bool:
		switch st {
		case "True":
			return " " + strings.ToUpper(strconv.FormatBool(x)[:1]) + strconv.FormatBool(x)[1:]
		case "TRUE":
			return " " + strings.ToUpper(strconv.FormatBool(x))
		case "!!bool":
			return " !!bool " + strconv.FormatBool(x)
		}
	case int:
		switch {
		case st == "!!int":
			return " !!int " + strconv.Itoa(x)
		case st == "hex" && x >= 0:
			return fmt.Sprintf(" 0x%X", x)
		case st == "oct" && x >= 0:
			return fmt.Sprintf(" 0o%o", x)
		case st == "+" && x >= 0:
			return " +" + strconv.Itoa(x)
		}
	case float64:
		switch st {
		case "!!float":
			return " !!float " + fmtFloat(x)
		case "EXP":
			return " " + strconv.FormatFloat(x, 'E', -1, 64)
		case "+":
			if x > 0 {
				return " +" + fmtFloat(x)
			}
		case "0":
			return " " + fmtFloat(x) + map[bool]string{true: "000"}[strings.Contains(fmtFloat(x), ".") && !strings.Contains(fmtFloat(x), "e")]
		case "exp":
			return " " + strconv.FormatFloat(x, 'e', -1, 64)
		}
	}
	return pre + flow(v)
}

// escaped writes every character as an escape.
func escaped(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < 0x100 {
			fmt.Fprintf(&b, "\\x%02x", c)
		} else {
			fmt.Fprintf(&b, "\\U%08x", c)
		}
	}
	return "\"" + b.String() + "\""
}

// notations lists the styles that a node can be written in besides the usual one.
func notations(x nnode) []string {
	if x.isKey {
		return []string{"'", "plain", "?", "!!str", "esc", "verbatim", "&k"}
	}
	switch v := x.v.(type) {
	case M:
		if len(v) == 0 {
			return []string{"!!map", "&m"}
		}
		return []string{"flow", "!!map", "comment", "&m"}
	case []any:
		if len(v) == 0 {
			return []string{"!!seq", "&s"}
		}
		return []string{"flow", "!!seq", "seq0", "&s"}
	case string:
		return []string{"'", "plain", "lit", "fold", "!!str", "esc", "verbatim", "split", "keep", "&t"}
	case Inc:
		return []string{"'", "dq", "lit"}
	case nil:
		return []string{"~", "empty", "Null", "NULL", "!!null", "&n"}
	case bool:
		return []string{"True", "TRUE", "!!bool", "&b"}
	case int:
		return []string{"!!int", "hex", "oct", "+", "&i"}
	case float64:
		return []string{"!!float", "exp", "EXP", "+", "0", "&f"}
	}
	return nil
}

// fileStyles are notations of a whole file.
var fileStyles = []struct {
	name string
	unit int
	f    func(header, body string) string
}{
	{"CRLF", 2, func(h, b string) string { return strings.ReplaceAll(h+b, "\n", "\r\n") }},
	{"document start", 2, func(h, b string) string { return h + "---\n" + strings.TrimPrefix(b, "\n") }},
	{"document end", 2, func(h, b string) string { return h + b + "\n...\n" }},
	{"no final line end", 2, func(h, b string) string { return h + strings.TrimRight(b, "\n") }},
	{"blank lines", 2, func(h, b string) string { return h + strings.ReplaceAll(b, "\n", "\n\n") + "\n\n\n" }},
	{"trailing blanks", 2, func(h, b string) string { return h + strings.ReplaceAll(b, "\n", "  \n") }},
	{"comment lines", 2, func(h, b string) string { return h + "# x: y\n" + strings.ReplaceAll(b, "\n", "\n# - c\n") + "\n# end" }},
	{"indentation 1", 1, func(h, b string) string { return h + b }},
	{"indentation 7", 7, func(h, b string) string { return h + b }},
}

func headerOf(kind string) string {
	return map[string]string{"Library": hdrLib, "DataType": hdrDT, "NamedExample": hdrNE}[kind]
}

func withText(d *DocSet, p, text string) *DocSet {
	c := *d
	c.Text, c.Kind = map[string]string{}, map[string]string{}
	for k, v := range d.Text {
		c.Text[k] = v
	}
	for k, v := range d.Kind {
		c.Kind[k] = v
	}
	c.Text[p], c.Kind[p] = text, "raw"
	return &c
}

// meaningOf describes everything a document set yields, without positions.
func meaningOf(r *Run, d *DocSet) string {
	var b strings.Builder
	for _, on := range []bool{false, true} {
		rm, err := d.Parse(r.Dir, on, on)
		r.Eval(1)
		if err != nil {
			b.WriteString("rejected\n")
			continue
		}
		x := newDumper()
		x.whole, x.noIDs = true, true
		x.val(reflect.ValueOf(rm.EntryPoint()), "entry")
		x.b.WriteString("\nshapes:")
		x.val(reflect.ValueOf(rm.GetShapes()), "shapes")
		x.b.WriteString("\nannotations:")
		x.val(reflect.ValueOf(rm.GetAllAnnotationsPtr()), "annotations")
		b.WriteString(x.b.String() + "\n")
	}
	return b.String()
}

func render22(body M, unit int, style map[int]string, every func(v any, isKey, inFlow bool) string) string {
	n := &notator{style: style, unit: unit, every: every}
	if style[0] == "flow" {
		return strings.TrimPrefix(n.node(body, 0, false), " ") + "\n"
	}
	return strings.TrimPrefix(strings.TrimPrefix(n.node(body, 0, false), " "), "\n") + "\n"
}

func c22case(emit func(Case), d *DocSet, level int) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		for p := range d.Body {
			if f := filepath.Join(r.Dir, p); d.Kind[p] != "raw" {
				os.MkdirAll(filepath.Dir(f), 0o755)
			}
		}
		base := meaningOf(r, d)
		r.Class("as written " + map[bool]string{true: "rejected", false: "accepted"}[strings.HasPrefix(base, "rejected")])
		try := func(p, text, what string, orReject bool, want string) bool {
			o := withText(d, p, text)
			got := meaningOf(r, o)
			r.Note("notations", 1)
			if got == want || orReject && got == "rejected\nrejected\n" {
				if got != want {
					r.Note("refused aliases", 1)
				}
				return true
			}
			r.Fail(sigOf(o, what), fmt.Sprintf("[%s: %s] another notation of the same content means something else: %s\n%s", p, what, diffAt(want, got), o.String()), "")
			return false
		}
		for _, p := range d.Paths {
			h := headerOf(d.Kind[p])
			if h == "" && d.Kind[p] != "Yaml" {
				continue
			}
			body := d.Body[p]
			var nodes []nnode
			nlist(body, "", &nodes)
			if !try(p, h+render22(body, 2, nil, nil), "block style", false, base) {
				return
			}
			for _, fs := range fileStyles {
				if !try(p, fs.f(h, render22(body, fs.unit, nil, nil)), fs.name, false, base) {
					return
				}
			}
			// one notation for all nodes
			for _, st := range []string{"'", "plain", "?", "!!str", "esc", "verbatim", "split", "lit", "fold", "flow", "seq0", "!!map", "!!seq", "!!int", "hex", "oct", "~", "empty", "TRUE", "EXP", "comment"} {
				every := func(v any, isKey, inFlow bool) string {
					if isKey && (st == "lit" || st == "fold") {
						return ""
					}
					return st
				}
				if !try(p, h+render22(body, 2, nil, every), "all "+st, false, base) {
					return
				}
			}
			if level == 0 {
				continue
			}
			// each node in each notation
			ok := true
			for i, x := range nodes {
				for _, st := range notations(x) {
					if ok {
						ok = try(p, h+render22(body, 2, map[int]string{i: st}, nil), x.where+" as "+st, false, base)
					}
				}
			}
			if !ok {
				return
			}
			// each node as an alias of an equal node before it
			for j, y := range nodes {
				for i := j - 1; i >= 0; i-- {
					if x := nodes[i]; x.text == y.text {
						if !try(p, h+render22(body, 2, map[int]string{i: "&a1", j: "*a1"}, nil), y.where+" as alias of "+x.where, true, base) {
							return
						}
						break
					}
				}
			}
			// each node as an alias of an annotation value
			if d.Kind[p] != "Library" {
				continue
			}
			for j, y := range nodes {
				if j == 0 || strings.Contains(y.text, "!include") {
					continue
				}
				an, _ := body.get("annotationTypes")
				anm, _ := an.(M)
				var hb M
				for _, e := range body {
					if e.K != "annotationTypes" {
						hb = append(hb, e)
					}
				}
				hb = append(M{{"(hold)", y.v}}, append(hb, KV{"annotationTypes", append(append(M{}, anm...), KV{"hold", "any"})})...)
				var hn []nnode
				nlist(hb, "", &hn)
				at := -1
				for k, z := range hn {
					if k > 2 && z.text == y.text && (z.where == y.where) && z.isKey == y.isKey {
						at = k
					}
				}
				if at < 0 {
					continue
				}
				want := meaningOf(r, withText(d, p, h+render22(hb, 2, nil, nil)))
				if !try(p, h+render22(hb, 2, map[int]string{2: "&h", at: "*h"}, nil), y.where+" as alias of an annotation", true, want) {
					return
				}
			}
			if level < 2 {
				continue
			}
			// two nodes in other notations
			for i, x := range nodes {
				for j := i + 1; j < len(nodes) && j < i+8; j++ {
					for _, a := range notations(x) {
						for _, b := range notations(nodes[j]) {
							if !try(p, h+render22(body, 2, map[int]string{i: a, j: b}, nil), x.where+" as "+a+" and "+nodes[j].where+" as "+b, false, base) {
								return
							}
						}
					}
				}
			}
		}
	}})
}

// notationDocs are small sets that place every kind of data at every kind of position, some of them invalid.
func notationDocs(emit func(*DocSet)) {
	vals := []any{nil, true, false, 0, 7, -3, 1.5, "", "a", "two words", "1", "true", "null", "2020-01-01", "a: b", "x # y", "{\"a\": 1}", "[1]", "~", "line\nbreak", " lead", "'", "é", l(), l(1, "a", nil), M{}, M{{"a", 1}, {"b", l("x", M{{"c", nil}})}}, M{{"value", "v"}}, M{{"1", "one"}, {"true", "t"}, {"", "e"}}}
	for _, v := range vals {
		emit(types(M{{"T", M{{"type", "any"}, {"example", v}, {"default", v}}}}))
		emit(types(M{{"T", M{{"type", "any"}, {"examples", M{{"one", v}, {"two", M{{"value", v}, {"displayName", "d"}}}}}}}}))
		emit(NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"n", "any"}}}, {"types", M{{"T", M{{"type", "string"}, {"(n)", v}}}}}}))
		emit(types(M{{"P", M{{"type", "object"}, {"facets", M{{"f", "any"}}}}}, {"T", M{{"type", "P"}, {"f", v}}}}))
	}
	for _, t := range memberTypes() {
		emit(types(M{{"P", "object"}, {"T", t}, {"C", "T[] | P"}}))
		emit(types(M{{"T", M{{"properties", M{{"a", t}, {"b?", t}, {"/^p/", t}}}}}, {"P", "string"}}))
		emit(types(M{{"T", M{{"items", t}}}, {"P", "string"}}))
	}
	// every facet and section with values of every kind
	few := []any{nil, true, 5, 1.5, "word", "string", l("word"), M{{"a", "string"}}}
	for _, f := range facets23() {
		if f.wide {
			continue
		}
		for _, v := range few {
			// a number or boolean in place of a text is the text as written
			if w := f.judge(v); !isText(v) && (w.open && isText(w.value) || f.key == "discriminator") {
				continue
			}
			t := any(cat(f.host, M{{f.key, v}}))
			if f.at != nil {
				t = f.at(M{{f.key, v}})
			}
			emit(types(M{{"T", t}}))
		}
	}
	for _, v := range few {
		for _, k := range []string{"types", "annotationTypes", "uses", "usage", "(n)"} {
			if w := text23(v); k == "usage" && w.open && v != nil {
				continue
			}
			emit(NewDocSet().Lib("main.raml", M{{k, v}}))
			emit(NewDocSet().DataType("main.raml", M{{"type", "string"}, {k, v}}))
			emit(NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", M{{"T", "l.T"}}}}).Lib("lib.raml", M{{k, v}, {map[bool]string{true: "Types", false: "types"}[k == "types"], M{{"T", "string"}}}}))
		}
		emit(NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"n", "any"}, {"m", v}}}, {"(n)", v}}))
		emit(NewDocSet().Lib("main.raml", M{{"uses", M{{"l", v}}}}))
		emit(NewDocSet().Example("main.raml", M{{"a", v}}))
	}
	// invalid ones
	for _, t := range []any{"Missing", "string |", 5, l("string", "Missing"), M{{"type", "string"}, {"minLength", 3}, {"maxLength", 2}}, M{{"type", "integer"}, {"minimum", "a"}}, M{{"type", "string"}, {"example", 5}},
		M{{"type", "string"}, {"minLength", -1}}, M{{"type", "string"}, {"unknown", 1}}, M{{"properties", M{{"a", "Missing"}}}}, M{{"properties", M{{"a", M{{"required", "yes"}}}}}}, M{{"items", "Missing"}}, M{{"type", "object"}, {"additionalProperties", "no"}},
		M{{"type", "integer"}, {"enum", l("a")}}, M{{"type", "integer"}, {"enum", 5}}, M{{"(nope)", 1}}, M{{"type", "string"}, {"pattern", "["}}, M{{"type", "string"}, {"default", 5}}, M{{"type", "array"}, {"uniqueItems", 1}}, M{{"facets", M{{"f", "Missing"}}}}} {
		emit(types(M{{"T", t}}))
	}
	emit(NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "lib.raml"}}}, {"types", M{{"T", "l.A"}, {"U", M{{"type", l("l.A", "l.B")}}}}}, {"usage", "how to"}}).
		Lib("lib.raml", M{{"types", M{{"A", M{{"properties", M{{"a", "string"}}}}}, {"B", M{{"properties", M{{"b?", "integer"}}}}}}}}))
	emit(NewDocSet().DataType("main.raml", M{{"type", "object"}, {"properties", M{{"a", Inc("dt.raml")}}}, {"example", M{{"a", "x"}}}}).DataType("dt.raml", M{{"type", "string"}, {"minLength", 1}}))
	emit(NewDocSet().Example("main.raml", M{{"a", 1}, {"b", M{{"value", l(1, "x")}}}}))
	for _, v := range vals {
		ds := NewDocSet().Lib("main.raml", M{{"annotationTypes", M{{"n", "any"}}}, {"types", M{{"T", M{{"type", "any"}, {"example", Inc("v.yaml")}, {"(n)", Inc("v.yaml")}}}, {"U", M{{"type", "any"}, {"default", M{{"k", Inc("v.yaml")}}}}}}}})
		emit(ds.add("v.yaml", "Yaml", M{{"a", v}, {"b", l(v, M{{"c", v}})}}))
	}
}

func init() {
	register(&Check{ID: "C22", Level: "model_checking",
		Rule: "every document set of the corpora x every file x every notation of one node (quoting, plain, literal and folded text, core tags, flow and block collections, explicit keys, unused anchors, comments, notations of null, booleans and numbers), of all nodes, or of the whole file (line ends, indentation, blank lines, document markers), and every node as an alias of an equal node; " +
			"dumps of the whole model without positions are compared with those of the set as written",
		Assumptions: []string{"merge keys are not part of YAML 1.2 and are not considered", "a document with aliases may be refused, but never be read as something else"},
		Gen: func(tier string, emit func(Case)) {
			thorough := tier == "thorough"
			seen := map[uint64]bool{}
			once := func(d *DocSet, level int) {
				if h := hash64(d.String()); !seen[h] {
					seen[h] = true
					c22case(emit, d, level)
				}
			}
			notationDocs(func(d *DocSet) { once(d, 1+b2i(thorough)) })
			k := 0
			genCorpus("quick", func(d *DocSet, _ []string) {
				k++
				level := 1
				if k > 260 && !thorough {
					level = 0
				}
				once(d, level)
			})
		}})
}
