package main

// C17: an unreadable or invalid file anywhere makes parsing fail, and leaks nothing.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	raml "github.com/acronis/go-raml/v2"
)

// fedge is a way in which a file of kind from refers to a file of kind to.
// Kinds: L library, D data type, J JSON data type, N named example, json, yaml, yml, txt: data.
type fedge struct {
	from, to, name string
}

var dataKinds = []string{"json", "yaml", "yml", "txt"}

func fedges() []fedge {
	var out []fedge
	add := func(from, name string, to ...string) {
		for _, t := range to {
			out = append(out, fedge{from, t, name})
		}
	}
	add("L", "uses", "L")
	add("L", "type", "D", "J")
	add("L", "typed", "D", "J")
	add("L", "prop", "D", "J")
	add("L", "items", "D")
	add("L", "pattern", "D")
	add("L", "facetdef", "D")
	add("L", "anntype", "D")
	add("L", "examples", "N")
	add("L", "example", dataKinds...)
	add("L", "value", dataKinds...)
	add("L", "named", "json", "txt")
	add("L", "default", "json", "yaml")
	add("L", "facet", "json", "txt")
	add("L", "ann", "json", "yaml")
	add("L", "libann", "json")
	add("L", "exann", "json", "txt")
	add("L", "inmap", dataKinds...)
	add("L", "inseq", "json", "yaml")
	add("L", "enum", "txt")
	add("D", "uses", "L")
	add("D", "type", "D", "J")
	add("D", "prop", "D", "J")
	add("D", "itemsd", "D")
	add("D", "examples", "N")
	add("D", "example", dataKinds...)
	add("D", "default", "json", "txt")
	add("D", "inmap", "json", "yaml")
	add("N", "entry", dataKinds...)
	add("N", "value", dataKinds...)
	add("N", "inmap", "json", "txt")
	add("yaml", "inmap", dataKinds...)
	add("yml", "inseq", "json", "yaml", "txt")
	return out
}

func kindExt(k string) string {
	switch k {
	case "L", "D", "N":
		return ".raml"
	case "J":
		return ".json"
	}
	return "." + k
}

// fbody renders a valid file of a kind that refers to target by the edge; rel gives the path of a good file.
// siblings: 0 nothing else, 1 valid references before, 2 after, 3 both.
func fbody(kind string, e *fedge, target string, rel func(string) string, siblings int) string {
	before, after := siblings&1 != 0, siblings&2 != 0
	inc := "!include " + target
	var name string
	if e != nil {
		name = e.name
	}
	switch kind {
	case "L":
		var uses, ann, types []string
		good := func(n string) {
			uses = append(uses, fmt.Sprintf("  g%s: %s\n", n, rel("good/lib.raml")))
			types = append(types, fmt.Sprintf("  G%s: !include %s\n", n, rel("good/dt.raml")), fmt.Sprintf("  H%s: {type: any, examples: !include %s}\n", n, rel("good/ne.raml")),
				fmt.Sprintf("  I%s: {type: any, example: !include %s, default: {k: !include %s}}\n", n, rel("good/d.json"), rel("good/d.yaml")))
			ann = append(ann, fmt.Sprintf("  note%s: any\n", n))
		}
		if before {
			good("1")
		}
		ann = append(ann, "  note: any\n")
		types = append(types, "  Base:\n    type: any\n    facets:\n      f?: any\n")
		root := ""
		switch name {
		case "uses":
			uses = append(uses, "  v: "+target+"\n")
		case "type":
			types = append(types, "  V: "+inc+"\n")
		case "typed":
			types = append(types, "  V:\n    type: "+inc+"\n    description: own\n")
		case "prop":
			types = append(types, "  V: {properties: {\"a?\": string, \"p?\": "+inc+", \"z?\": string}}\n")
		case "items":
			types = append(types, "  V: {type: array, items: "+inc+"}\n")
		case "pattern":
			types = append(types, "  V: {properties: {\"/^a/\": "+inc+"}}\n")
		case "facetdef":
			types = append(types, "  V: {type: string, facets: {\"q?\": "+inc+"}}\n")
		case "anntype":
			ann = append(ann, "  va: "+inc+"\n")
		case "examples":
			types = append(types, "  V: {type: any, examples: "+inc+"}\n")
		case "example":
			types = append(types, "  V: {type: any, example: "+inc+"}\n")
		case "value":
			types = append(types, "  V: {type: any, example: {displayName: d, value: "+inc+"}}\n")
		case "named":
			types = append(types, "  V: {type: any, examples: {a: 1, b: "+inc+", c: 2}}\n")
		case "default":
			types = append(types, "  V: {type: any, default: "+inc+"}\n")
		case "facet":
			types = append(types, "  V: {type: Base, f: "+inc+"}\n")
		case "ann":
			types = append(types, "  V: {type: any, (note): "+inc+"}\n")
		case "libann":
			root = "(note): " + inc + "\n"
		case "exann":
			types = append(types, "  V: {type: any, example: {value: 1, (note): "+inc+"}}\n")
		case "inmap":
			types = append(types, "  V: {type: any, default: {a: 1, k: "+inc+", z: 2}}\n")
		case "inseq":
			types = append(types, "  V: {type: any, example: [1, ["+inc+"], 2]}\n")
		case "enum":
			types = append(types, "  V: {type: string, enum: [a, "+inc+", z]}\n")
		}
		if after {
			good("2")
		}
		s := hdrLib
		if len(uses) > 0 {
			s += "uses:\n" + strings.Join(uses, "")
		}
		return s + "annotationTypes:\n" + strings.Join(ann, "") + "types:\n" + strings.Join(types, "") + root
	case "D":
		var uses, props []string
		top, typ, end := "", "object", ""
		good := func(n string) {
			uses = append(uses, fmt.Sprintf("  g%s: %s\n", n, rel("good/lib.raml")))
			props = append(props, fmt.Sprintf("  g%s?: !include %s\n", n, rel("good/dt.raml")))
		}
		if before {
			good("1")
		}
		switch name {
		case "uses":
			uses = append(uses, "  v: "+target+"\n")
		case "type":
			typ = inc
			if e.to == "J" {
				return hdrDT + "description: d\ntype: " + inc + "\n"
			}
		case "prop":
			props = append(props, "  v?: "+inc+"\n")
		case "itemsd":
			return hdrDT + "type: array\nitems: " + inc + "\n"
		case "examples":
			typ, top = "any", "examples: "+inc+"\n"
		case "example":
			typ, top = "any", "example: "+inc+"\n"
		case "default":
			typ, end = "any", "default: "+inc+"\n"
		case "inmap":
			typ, top = "any", "example: {a: 1, k: "+inc+", z: 2}\n"
		}
		if after {
			good("2")
		}
		s := hdrDT
		if len(uses) > 0 {
			s += "uses:\n" + strings.Join(uses, "")
		}
		s += "type: " + typ + "\n" + top
		if len(props) > 0 && typ == "object" {
			s += "properties:\n" + strings.Join(props, "")
		}
		return s + end
	case "N":
		s := hdrNE
		if before || name == "" {
			s += "a: {}\n"
		}
		switch name {
		case "entry":
			s += "v: " + inc + "\n"
		case "value":
			s += "v: {description: d, value: " + inc + "}\n"
		case "inmap":
			s += "v: {k: [" + inc + "]}\n"
		}
		if after {
			s += "z: !include " + rel("good/d.json") + "\n"
		}
		return s
	case "J":
		return `{"type": "object"}`
	case "json":
		return `{"d": [1, "x"]}`
	case "yaml", "yml":
		s := ""
		if name == "inseq" {
			if before {
				s += "- 1\n"
			}
			s += "- " + inc + "\n"
			if after {
				s += "- !include " + rel("good/d.txt") + "\n"
			}
			return s
		}
		if before || name == "" {
			s += "a: 1\n"
		}
		if name == "inmap" {
			s += "k: " + inc + "\n"
		}
		if after && name != "" {
			s += "z: !include " + rel("good/d.json") + "\n"
		}
		return s
	}
	return "text"
}

// goodData: the examples of named example files are used by types of any kind; keep them objects or any
var goodFiles = Files{
	"good/lib.raml": hdrLib + "uses:\n  again: lib.raml\ntypes:\n  G: !include dt.raml\n  X: {type: any, examples: !include ne.raml}\n",
	"good/dt.raml":  hdrDT + "type: object\nproperties:\n  o?: string\n",
	"good/ne.raml":  hdrNE + "one: {}\ntwo: {value: !include d.json}\n",
	"good/d.json":   `{"ok": true}`, "good/d.yaml": "ok: true\n", "good/d.txt": "ok",
}

// a fault replaces the victim: content, or something done to the path.
type fault struct {
	name    string
	content string
	do      func(p string) error // instead of content; the path does not exist yet
	unread  bool                 // the file exists but the process may not read it
	may     bool                 // the result may be valid: only leaks are judged
}

var badYAML = []string{"a: [\n", "a: b: c\n", "\tx: 1\n", "}\n", "a: 'open\n", "a: \"\\q\"\n", "- a\nb: c\n", "a: \x01\n", "a: \xff\xfe\n", "a: *nowhere\n", "? {\n", "a: |x\n", "%YAML 9\n---\na\n---", "a: {b: 1\nc: 2\n"}

func faultsFor(kind, content string, quick bool) []fault {
	fs := []fault{
		{name: "missing", do: func(string) error { return nil }},
		{name: "directory", do: func(p string) error { return os.MkdirAll(p, 0o755) }},
		{name: "dangling link", do: func(p string) error { return os.Symlink("nowhere", p) }},
		{name: "link to itself", do: func(p string) error { return os.Symlink(filepath.Base(p), p) }},
		{name: "no permission", content: content, unread: true},
	}
	add := func(n, c string) { fs = append(fs, fault{name: n, content: c}) }
	switch kind {
	case "L", "D", "N":
		nl := strings.Index(content, "\n") + 1
		head, body := content[:nl], content[nl:]
		for i := 0; i < nl; i++ {
			add(fmt.Sprintf("cut after %d bytes", i), content[:i])
		}
		add("header only", head)
		for _, h := range []string{hdrLib, hdrDT, hdrNE} {
			if h != head {
				add("header of another kind", h+body)
			}
		}
		for _, h := range []string{"#%RAML 1.0\n", "#%RAML 0.8 Library\n", "#%raml 1.0 library\n", "#%RAML 1.0 Library2\n", " " + head, "\n" + head, "\ufeff" + head, "#%RAML 1.0 Trait\n", "#%RAML 1.0  Library\n", "# RAML\n" + head, "Library\n", "\r" + head} {
			add("header "+fmt.Sprintf("%q", h), h+body)
		}
		for i, b := range badYAML {
			add(fmt.Sprintf("bad body %d", i), head+b)
			if i < 4 || !quick {
				add(fmt.Sprintf("bad before %d", i), head+b+body)
				if kind != "N" || i != 2 {
					add(fmt.Sprintf("bad after %d", i), content+b)
				}
			}
		}
		for _, b := range []string{"just text\n", "- a\n- b\n", "[]\n", "null\n", "5\n", "# comment\n", "\n\n"} {
			add("body "+fmt.Sprintf("%q", b), head+b)
		}
	case "J":
		for _, b := range []string{"", "{", `{"type":}`, `{"type":"object"} x`, `{"type":"object"}}`, `{"type":"object",}`, "\xff", `{'type':'object'}`, "text", "[1]", "  ", `{"type": {"a": 1}}`, `{"properties": []}`} {
			add("json "+fmt.Sprintf("%q", b), b)
		}
	case "json":
		for _, b := range []string{"", "{", `{"a":}`, `{"a":1} x`, `{"a":1}}`, `{"a":1,}`, `[1,`, "{'a':1}", "text", "  ", "nul", `"open`, "01", `{"a":1}{"b":2}`, "[1]]"} {
			add("json "+fmt.Sprintf("%q", b), b)
		}
	case "yaml", "yml":
		for i, b := range badYAML {
			add(fmt.Sprintf("bad %d", i), b)
			add(fmt.Sprintf("bad after %d", i), content+b)
		}
		add("empty", "")
	}
	if kind != "txt" {
		for i := 0; i < len(content); i++ {
			fs = append(fs, fault{name: fmt.Sprintf("torn at %d", i), content: content[:i], may: true})
		}
	}
	return fs
}

// openUnder counts the open descriptors of the process that refer to files below dir.
func openUnder(dir string) []string {
	ents, _ := os.ReadDir("/proc/self/fd")
	var out []string
	for _, e := range ents {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, dir) {
			out = append(out, strings.TrimPrefix(t, dir+"/"))
		}
	}
	sort.Strings(out)
	return out
}

// treeOf describes every file below dir, with content and modification time.
func treeOf(dir string) string {
	var b strings.Builder
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintf(&b, "%s %v\n", p, err)
			return nil
		}
		fmt.Fprintf(&b, "%s %v %d", p, fi.Mode(), fi.ModTime().UnixNano())
		switch {
		case fi.Mode().IsRegular():
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, " %q", c)
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			b.WriteString(" " + t)
		}
		b.WriteString("\n")
		return nil
	})
	return b.String()
}

type fchain struct {
	edges []fedge
}

func (c fchain) String() string {
	s := []string{"L"}
	for _, e := range c.edges {
		s = append(s, e.name, e.to)
	}
	return strings.Join(s, " ")
}

func (c fchain) kind() string {
	if len(c.edges) == 0 {
		return "L"
	}
	return c.edges[len(c.edges)-1].to
}

var chainDirs = []string{"", "a/", "a/b/", "c/", ""}

// files builds the set; the victim is the last file of the chain.
func (c fchain) files(first string, siblings int) (Files, string) {
	paths := []string{"main" + kindExt(first)}
	for i, e := range c.edges {
		n := fmt.Sprintf("step%d", i+1)
		if i == len(c.edges)-1 {
			n = "victim"
		}
		paths = append(paths, chainDirs[(i+1)%len(chainDirs)]+n+kindExt(e.to))
	}
	f := Files{}
	if siblings != 0 {
		for p, t := range goodFiles {
			f[p] = t
		}
	}
	kind := first
	for i, p := range paths {
		rel := func(q string) string {
			s, _ := filepath.Rel(filepath.Dir(p), q)
			return s
		}
		if i == len(c.edges) {
			f[p] = fbody(kind, nil, "", rel, siblings)
			break
		}
		f[p] = fbody(kind, &c.edges[i], rel(paths[i+1]), rel, siblings)
		kind = c.edges[i].to
	}
	return f, paths[len(paths)-1]
}

func setfsuid(id int) { _, _, _ = syscall.RawSyscall(syscall.SYS_SETFSUID, uintptr(id), 0, 0) }

func c17case(emit func(Case), first string, c fchain, siblings int, quick bool) {
	f, victim := c.files(first, siblings)
	label := fmt.Sprintf("entry %s, chain %s, siblings %d", first, c, siblings)
	kind := first
	if len(c.edges) > 0 {
		kind = c.kind()
	}
	emit(Case{Label: func() string { return label }, Run: func(r *Run) {
		// collected files would be closed behind our back
		defer debug.SetGCPercent(debug.SetGCPercent(-1))
		runtime.GC()
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		f.Write(r.Dir)
		_ = os.WriteFile(filepath.Join(r.Dir, "probe"), nil, 0o644)
		for p := r.Dir; strings.HasPrefix(p, scratchBase()+"/"); p = filepath.Dir(p) {
			_ = os.Chmod(p, 0o755)
		}
		entry := filepath.Join(r.Dir, "main"+kindExt(first))
		vp := filepath.Join(r.Dir, victim)
		good := f[victim]
		once := func(what string, u, v bool) (error, bool) {
			before := treeOf(r.Dir)
			r.Eval(1)
			_, err := raml.ParseFromPath(entry, parseOpts(u, v)...)
			if o := openUnder(r.Dir); len(o) > 0 {
				r.Fail(label+what+" leak", fmt.Sprintf("%s, %s: after the parse (%s) these files are still open: %v", label, what, okerr(err), o), f.String())
				return err, false
			}
			if treeOf(r.Dir) != before {
				r.Fail(label+what+" write", fmt.Sprintf("%s, %s: the parse changed files", label, what), f.String())
				return err, false
			}
			return err, true
		}
		for _, m := range []struct{ u, v bool }{{false, false}, {true, true}} {
			if err, ok := once("intact", m.u, m.v); !ok || err != nil {
				if err != nil {
					r.Fail(label+" intact", label+": the intact set is rejected: "+errText(err), f.String())
				}
				return
			}
		}
		r.Class("intact " + label)
		for _, ft := range faultsFor(kind, good, quick) {
			if ft.content == good && !ft.unread && ft.do == nil {
				continue
			}
			_ = os.RemoveAll(vp)
			var err error
			if ft.do != nil {
				err = ft.do(vp)
			} else {
				err = os.WriteFile(vp, []byte(ft.content), 0o644)
			}
			if err != nil {
				panic("harness: " + err.Error())
			}
			if ft.unread {
				_ = os.Chmod(vp, 0)
				setfsuid(65534)
				h, oerr := os.Open(vp)
				g, eerr := os.Open(filepath.Join(r.Dir, "probe"))
				setfsuid(0)
				_, _ = h.Close(), g.Close()
				if oerr == nil || eerr != nil {
					r.Note("permissions could not be taken away", 1)
					continue
				}
			}
			before := treeOf(r.Dir)
			r.Eval(1)
			if ft.unread {
				setfsuid(65534)
			}
			_, perr := raml.ParseFromPath(entry)
			if ft.unread {
				setfsuid(0)
			}
			what := "victim " + ft.name
			if o := openUnder(r.Dir); len(o) > 0 {
				r.Fail(label+what+" leak", fmt.Sprintf("%s, %s: after the parse (%s) these files are still open: %v", label, what, okerr(perr), o), f.String())
				return
			}
			if treeOf(r.Dir) != before {
				r.Fail(label+what+" write", fmt.Sprintf("%s, %s: the parse changed files", label, what), f.String())
				return
			}
			if !ft.may && !(len(c.edges) == 0 && ft.name == "header of another kind") {
				if perr == nil {
					r.Fail(label+what, fmt.Sprintf("%s: %s (%q): the parse succeeds", label, what, ft.content), f.String())
					return
				}
				if !strings.Contains(perr.Error(), filepath.Base(victim)) {
					r.Fail(label+what+" name", fmt.Sprintf("%s: %s: the error does not name the file: %s", label, what, perr), f.String())
					return
				}
			}
			if !ft.unread && len(c.edges) > 0 {
				// the same set with the entry given as text
				_, serr := raml.ParseFromString(f["main"+kindExt(first)], "main"+kindExt(first), r.Dir)
				r.Eval(1)
				if errText(serr) != errText(perr) {
					r.Fail(label+what+" text", fmt.Sprintf("%s: %s: from the path: %s; with the entry given as text: %s", label, what, errText(perr), errText(serr)), f.String())
					return
				}
				if o := openUnder(r.Dir); len(o) > 0 {
					r.Fail(label+what+" leak", fmt.Sprintf("%s, %s: after the parse from text (%s) these files are still open: %v", label, what, okerr(serr), o), f.String())
					return
				}
			}
			r.Class(okerr(perr) + " " + kind + " " + ft.name)
			_ = os.Chmod(vp, 0o644)
		}
		_ = os.RemoveAll(vp)
		_ = os.WriteFile(vp, []byte(good), 0o644)
		// several bad files at once: the parse fails and names one of them
		if siblings == 3 && len(c.edges) <= 2 {
			text := f.String()
			var gs []string
			for g := range goodFiles {
				if strings.Contains(text, strings.TrimPrefix(g, "good/")) && (strings.Contains(f["main"+kindExt(first)], g) || strings.HasSuffix(g, "lib.raml") && first == "L") {
					gs = append(gs, g)
				}
			}
			sort.Strings(gs)
			for _, g := range gs {
				for _, bad := range []string{"", "]"} {
					for _, both := range []bool{false, true} {
						_ = os.WriteFile(filepath.Join(r.Dir, g), []byte(bad), 0o644)
						names := []string{filepath.Base(g)}
						if both && len(c.edges) > 0 {
							_ = os.RemoveAll(vp)
							names = append(names, filepath.Base(victim))
						}
						_, err := raml.ParseFromPath(entry)
						r.Eval(1)
						what := fmt.Sprintf("%s made %q, victim missing %v", g, bad, both)
						if o := openUnder(r.Dir); len(o) > 0 {
							r.Fail(label+what+" leak", fmt.Sprintf("%s, %s: after the parse (%s) these files are still open: %v", label, what, okerr(err), o), text)
							return
						}
						named := false
						for _, n := range names {
							named = named || err != nil && strings.Contains(err.Error(), n)
						}
						if !named {
							r.Fail(label+what, fmt.Sprintf("%s: %s: %s", label, what, errText(err)), text)
							return
						}
						_ = os.WriteFile(filepath.Join(r.Dir, g), []byte(goodFiles[g]), 0o644)
						_ = os.WriteFile(vp, []byte(good), 0o644)
						r.Class("several " + okerr(err))
					}
				}
			}
		}
		if err, ok := once("repaired", true, true); ok && err != nil {
			r.Fail(label+" repaired", label+": after the repair the set is rejected: "+errText(err), f.String())
		}
	}})
}

func c17gen(tier string, emit func(Case)) {
	quick := tier != "thorough"
	edges := fedges()
	from := map[string][]fedge{}
	for _, e := range edges {
		from[e.from] = append(from[e.from], e)
	}
	max := 3
	if !quick {
		max = 4
	}
	var rec func(first, kind string, c []fedge)
	rec = func(first, kind string, c []fedge) {
		for sib := 0; sib < 4; sib++ {
			if quick && len(c) >= 3 && sib != 3 || len(c) >= 4 && sib != 3 {
				continue
			}
			c17case(emit, first, fchain{append([]fedge{}, c...)}, sib, quick)
		}
		if len(c) == max {
			return
		}
		for _, e := range from[kind] {
			if n := len(c); n > 0 && (kind == "yaml" || kind == "yml") {
				// an include within an included file only where that file was included as a whole
				last := c[n-1]
				if last.name == "inmap" || last.name == "inseq" || last.from == "yaml" || last.from == "yml" {
					continue
				}
			}
			if quick && len(c) == 2 && (e.name == "pattern" || e.name == "facetdef" || e.name == "named" || e.name == "exann" || e.name == "typed" || e.name == "value") {
				continue
			}
			if len(c) == 3 && (e.to == "yml" || e.name == "pattern" || e.name == "facetdef" || e.name == "named" || e.name == "typed") {
				continue
			}
			rec(first, e.to, append(c, e))
		}
	}
	rec("L", "L", nil)
	rec("D", "D", nil)
	for _, e := range from["N"] {
		c17case(emit, "N", fchain{[]fedge{e}}, 1, quick)
		c17case(emit, "N", fchain{[]fedge{e}}, 2, quick)
	}
	c17case(emit, "N", fchain{}, 1, quick)
}

func init() {
	register(&Check{ID: "C17", Level: "model_checking", Gen: c17gen,
		Rule: "exhaustive: every chain of references up to a depth (all reference kinds, with and without valid neighbours) x every fault of its last file, including every truncation",
		Assumptions: []string{
			"text files have no invalid content",
			"a truncation after the header line may leave a valid document: only leaks, writes and crashes are judged then",
		}})
}
