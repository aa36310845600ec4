package main

// C15: unwrapped models can be used, and separate parses run, concurrently.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"

	raml "github.com/acronis/go-raml/v2"
)

func init() {
	register(&Check{ID: "C15", Level: "model_checking",
		Rule: "every pair of operations (checking a value, converting) on the types of a shared unwrapped model, fresh for every execution, and every pair of parses of separate document sets: " +
			"every schedule of two threads over the statements of the library up to the preemption bound, each outcome compared with the one of the operation alone; " +
			"all pairs also run freely under the race detector, for the models of the whole corpus",
		Assumptions: []string{"scheduling points are the statements of the library's own packages; steps inside the standard library and dependencies are atomic", "data races inside one statement are left to the race detector"},
		Gen:         genC15})
}

// sharedModel is a small model with values worth checking.
type sharedModel struct {
	d     *DocSet
	names []string
}

func sharedModels() []sharedModel {
	var out []sharedModel
	one := func(t any, more ...KV) {
		out = append(out, sharedModel{types(append(M{{"T", t}}, more...)), []string{"T"}})
	}
	one(typed("string", M{{"minLength", 1}, {"maxLength", 2}, {"pattern", "^[ab]+$"}}))
	one(typed("string", M{{"enum", l("a", "ab")}, {"default", "a"}, {"description", "d"}, {"example", "a"}}))
	one(typed("integer", M{{"minimum", 1}, {"maximum", 5}, {"multipleOf", 2}, {"format", "int8"}}))
	one(typed("integer", M{{"enum", l(1, 2)}}))
	one(typed("number", M{{"minimum", 0.5}, {"maximum", 10}, {"multipleOf", 0.5}}))
	one(typed("number", M{{"enum", l(1.5, 2)}}))
	one(typed("boolean", M{{"enum", l(true)}}))
	one("datetime")
	one("date-only")
	one("time-only")
	one("datetime-only")
	one(typed("datetime", M{{"format", "rfc2616"}}))
	one(typed("file", M{{"minLength", 1}, {"maxLength", 3}, {"fileTypes", l("image/png")}}))
	one("any")
	one("nil")
	one(`{"type":"object","properties":{"a":{"type":"integer"}}}`)
	one(M{{"type", "array"}, {"items", typed("integer", M{{"maximum", 2}})}, {"uniqueItems", true}, {"maxItems", 2}})
	one(M{{"type", "array"}, {"items", M{{"properties", M{{"a", "integer"}}}}}, {"uniqueItems", true}})
	one(M{{"type", "object"}, {"properties", M{{"a", "integer"}, {"b?", typed("string", M{{"minLength", 2}})}, {"/^p/", "boolean"}, {"/q$/", "integer"}}}, {"minProperties", 1}, {"maxProperties", 2}})
	one(M{{"type", "object"}, {"properties", M{{"a?", "integer"}}}, {"additionalProperties", false}})
	one("string | integer[] | nil")
	one(M{{"properties", M{{"u", "U"}}}}, KV{"U", "O | P"}, KV{"O", M{{"properties", M{{"a", "integer"}}}}}, KV{"P", M{{"properties", M{{"b", "integer"}}}}})
	one(M{{"properties", M{{"v", typed("string", M{{"minLength", 2}})}, {"n?", "T"}, {"k?", "T[]"}}}})
	one(M{{"properties", M{{"n?", "U"}}}}, KV{"U", M{{"properties", M{{"t?", "T"}, {"x", "integer"}}}}})
	one(M{{"type", "P"}, {"level", 3}, {"properties", M{{"b", "string"}}}}, KV{"P", M{{"type", "object"}, {"facets", M{{"level", "integer"}}}, {"properties", M{{"a?", typed("integer", M{{"minimum", 1}})}}}}})
	one(M{{"type", "object"}, {"discriminator", "kind"}, {"discriminatorValue", "d"}, {"properties", M{{"kind", "string"}}}})
	rich := richTypes()
	for _, n := range []string{"Derived2", "Arr", "Multi"} {
		ts := closure(rich, n)
		out = append(out, sharedModel{richDoc(ts...), []string{n}})
	}
	out = append(out, sharedModel{types(M{{"A", M{{"properties", M{{"x?", "S"}}}}}, {"B", M{{"properties", M{{"y?", "S"}}}}}, {"S", typed("string", M{{"pattern", "^a"}, {"maxLength", 2}})}}), []string{"A", "B"}})
	return out
}

// useOp is an operation that only uses an unwrapped model.
type useOp struct {
	name string
	run  func(rm *raml.RAML, text bool) string
}

// useOps lists the operations on a model: values of both kinds for every named type, and its conversion.
func useOps(d *DocSet, names []string, perType int) []useOp {
	w := NewWorld(d)
	w.Verdict()
	var ops []useOp
	for _, n := range names {
		n := n
		t := typeOf(w, n)
		var yes, no []any
		for _, v := range dedupe(append(valuesFor(w, t, 3, 2), vals06()...)) {
			if w.Accepts(t, v) {
				yes = append(yes, v)
			} else {
				no = append(no, v)
			}
		}
		pickOf := func(vs []any, k int) []any {
			// the largest values reach most of the code
			for i := 0; i < len(vs); i++ {
				for j := i + 1; j < len(vs); j++ {
					if len(js(vs[j])) > len(js(vs[i])) {
						vs[i], vs[j] = vs[j], vs[i]
					}
				}
			}
			if len(vs) > k {
				vs = append(append([]any{}, vs[:k-1]...), vs[len(vs)-1])
			}
			return vs
		}
		for _, vs := range [][]any{pickOf(yes, perType), pickOf(no, perType)} {
			for _, v := range vs {
				v := v
				ops = append(ops, useOp{"check " + js(v) + " against " + n, func(rm *raml.RAML, text bool) string {
					err := LibType(rm, n).Validate(v)
					if text && err != nil {
						return err.Error()
					}
					return okerr(err)
				}})
			}
		}
		ops = append(ops, useOp{"convert " + n, func(rm *raml.RAML, _ bool) string {
			m, err := schemaOf(LibType(rm, n))
			if err != nil {
				return "error " + err.Error()
			}
			var sb strings.Builder
			for _, k := range sortedKeys(m) {
				sb.WriteString(k + " " + string(m[k]) + "\n")
			}
			return sb.String()
		}})
	}
	return ops
}

// parseSets are the document sets that are parsed concurrently.
func parseSets() []*DocSet {
	rich := richTypes()
	out := []*DocSet{
		types(M{{"A", M{{"properties", M{{"x?", "B[]"}, {"y", "integer | nil"}}}}}, {"B", M{{"type", "object"}, {"properties", M{{"n?", "A"}, {"s", typed("string", M{{"pattern", "^a"}})}}}}}}),
		types(M{{"A", typed("B", M{{"minLength", 2}})}, {"B", typed("string", M{{"maxLength", 3}, {"enum", l("aa", "b")}})}}),
		types(M{{"A", M{{"type", "Missing"}}}}),
		types(M{{"A", typed("integer", M{{"minimum", "x"}})}}),
		types(M{{"A", "B["}, {"B", "string"}}),
		types(M{{"A", typed("integer", M{{"maximum", 1}, {"example", 5}})}}),
		NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "l.raml"}}}, {"types", M{{"A", "l.A?"}, {"D", Inc("d.raml")}}}}).Lib("l.raml", M{{"types", M{{"A", "string[]"}}}}).DataType("d.raml", M{{"uses", M{{"l", "l.raml"}}}, {"properties", M{{"a", "l.A"}}}}),
		NewDocSet().Lib("main.raml", M{{"uses", M{{"l", "l.raml"}}}, {"types", M{{"A", "l.B"}}}}).Lib("l.raml", M{{"types", M{{"A", "string[]"}}}}),
		NewDocSet().DataType("main.raml", M{{"type", "object"}, {"properties", M{{"a", "string"}}}, {"example", M{{"a", "x"}}}}),
	}
	ts := closure(rich, "Derived")
	return append(out, richDoc(ts...))
}

// parseOutcome parses below a directory of its own and describes the result.
func parseOutcome(d *DocSet, dir string, text bool) string {
	rm, err := raml.ParseFromPath(filepath.Join(dir, d.Entry), raml.OptWithUnwrap(), raml.OptWithValidate())
	if err != nil {
		if text {
			return "rejected: " + strings.ReplaceAll(err.Error(), dir, "DIR")
		}
		return "rejected"
	}
	names, bs := allShapes(rm, dir, d)
	var sb strings.Builder
	for i, b := range bs {
		sb.WriteString(names[i] + ": " + descShape(b, 4) + "\n")
	}
	return sb.String()
}

// exploreSched runs every schedule of two bodies up to a preemption bound; build makes the bodies afresh.
// Two preemptions are explored where the number of points stays within limit2.
func exploreSched(r *Run, label string, bound, limit2 int, part, parts int, build func() [2]func() string) {
	solo := [2]string{}
	var points [2]int
	for t := 0; t < 2; t++ {
		b := build()
		o := runSched(schedule{first: t}, [2]func() string{b[0], b[1]})
		_ = o
		b = build()
		solo[t] = b[t]()
		points[t] = o.points[t]
	}
	r.Note("points", int64(points[0]+points[1]))
	run := func(sc schedule) (schedRun, bool) {
		o := runSched(sc, build())
		r.Eval(1)
		r.Note("schedules", 1)
		if o.released {
			r.Note("schedules_released", 1)
		}
		if o.stuck {
			r.Fail(shortLabel(label), label+": the operations never end under the schedule: "+sc.String(), "")
			return o, false
		}
		for t := 0; t < 2; t++ {
			if o.out[t] != solo[t] {
				r.Fail(shortLabel(label), fmt.Sprintf("%s: under the schedule %s operation %d gives a different outcome from the one alone: %s", label, sc, t+1, firstDiff(solo[t], o.out[t])), "")
				return o, false
			}
		}
		return o, true
	}
	for first := 0; first < 2; first++ {
		if part == 0 {
			if _, ok := run(schedule{first: first}); !ok {
				return
			}
		}
		for s := 1; s <= points[first]; s++ {
			if s%parts != part {
				continue
			}
			o, ok := run(schedule{first: first, at: []int{s}})
			if !ok {
				return
			}
			if bound < 2 || bound == 2 && points[0]*points[1] > limit2 {
				continue
			}
			// The second switch falls into the other thread, which runs from point s on; later ones find it finished.
			for s2 := s + 1; s2 < s+points[1-first] && s2 <= o.steps; s2++ {
				if _, ok := run(schedule{first: first, at: []int{s, s2}}); !ok {
					return
				}
			}
		}
	}
	r.Class(label)
}

func genC15(tier string, emit func(Case)) {
	thorough := tier == "thorough"
	if setYield != nil {
		perType := 2
		if thorough {
			perType = 3
		}
		for _, sm := range sharedModels() {
			sm := sm
			ops := useOps(sm.d, sm.names, perType)
			for i := range ops {
				for j := i; j < len(ops); j++ {
					a, b := ops[i], ops[j]
					bound, limit2 := 2, 3000
					if thorough {
						limit2 = 60000
					}
					parts := 1
					if thorough {
						parts = 8
					}
					for part := 0; part < parts; part++ {
						part := part
						label := a.name + " with " + b.name + " on\n" + sm.d.String()
						emit(Case{Label: func() string { return label }, Run: func(r *Run) {
							exploreSched(r, label, bound, limit2, part, parts, func() [2]func() string {
								rm, err := sm.d.Parse(r.Dir, true, false)
								if err != nil {
									panic("harness: " + err.Error())
								}
								return [2]func() string{func() string { return a.run(rm, true) }, func() string { return b.run(rm, true) }}
							})
						}})
						// two operations in one thread
						if part == 0 && i != j {
							label := a.name + " and " + b.name + " with " + a.name + " on\n" + sm.d.String()
							emit(Case{Label: func() string { return label }, Run: func(r *Run) {
								exploreSched(r, label, 1, 0, 0, 1, func() [2]func() string {
									rm, err := sm.d.Parse(r.Dir, true, false)
									if err != nil {
										panic("harness: " + err.Error())
									}
									return [2]func() string{func() string { return a.run(rm, true) + "\n" + b.run(rm, true) }, func() string { return a.run(rm, true) }}
								})
							}})
						}
					}
				}
			}
		}
		// separate parses
		sets := parseSets()
		for i := range sets {
			for j := range sets {
				if j < i || !thorough && i != j && (i+j)%2 == 0 {
					continue
				}
				a, b := sets[i], sets[j]
				parts := 8
				for part := 0; part < parts; part++ {
					part := part
					label := "parse\n" + a.String() + "with parse\n" + b.String()
					emit(Case{Label: func() string { return label }, Run: func(r *Run) {
						d1, d2 := filepath.Join(r.Dir, "p"), filepath.Join(r.Dir, "q")
						a.Files().Write(d1)
						b.Files().Write(d2)
						exploreSched(r, label, 1, 0, part, parts, func() [2]func() string {
							return [2]func() string{func() string { return parseOutcome(a, d1, true) }, func() string { return parseOutcome(b, d2, true) }}
						})
						_ = os.RemoveAll(d1)
						_ = os.RemoveAll(d2)
					}})
				}
			}
		}
		// a parse next to the use of another model
		for k, sm := range sharedModels() {
			sm := sm
			if !thorough && k%4 != 2 {
				continue
			}
			ops := useOps(sm.d, sm.names, 1)
			for _, a := range ops {
				for _, b := range sets[:3] {
					a, b := a, b
					label := a.name + " on\n" + sm.d.String() + "with parse\n" + b.String()
					emit(Case{Label: func() string { return label }, Run: func(r *Run) {
						d2 := filepath.Join(r.Dir, "q")
						b.Files().Write(d2)
						exploreSched(r, label, 1, 0, 0, 1, func() [2]func() string {
							rm, err := sm.d.Parse(filepath.Join(r.Dir, "m"), true, false)
							if err != nil {
								panic("harness: " + err.Error())
							}
							return [2]func() string{func() string { return a.run(rm, true) }, func() string { return parseOutcome(b, d2, true) }}
						})
						_ = os.RemoveAll(d2)
					}})
				}
			}
		}
	}
	// the race detector
	exe := os.Getenv("VH_RACE")
	if exe == "" {
		return
	}
	n := raceChunks(tier)
	for k := 0; k < n; k++ {
		k := k
		emit(Case{Label: func() string { return fmt.Sprintf("free runs under the race detector, part %d of %d", k, n) }, Run: func(r *Run) { runRace(r, exe, k, n) }})
	}
}

// raceCorpus lists the models that are used, and the sets that are parsed, under the race detector.
func raceCorpus(tier string, emit func(*DocSet, []string)) {
	if tier == "thorough" {
		genCorpus("quick", emit)
		return
	}
	rich := richTypes()
	emit(richDoc(rich...), namesOf(rich))
	for _, a := range rich {
		ts := closure(rich, a.K)
		emit(richDoc(ts...), namesOf(ts))
	}
	genMulti(tier, emit)
	for _, t := range memberTypes() {
		emit(types(M{{"P", M{{"properties", M{{"a?", "T"}, {"/^p/", "T"}}}}}, {"T", t}, {"C", typed("P", M{})}, {"D", "C[]"}}), []string{"P", "T", "C", "D"})
	}
	for _, t := range recTemplates("A", true) {
		emit(types(M{{"B", M{{"properties", M{{"b?", "A"}}}}}, {"A", t}}), []string{"A", "B"})
	}
}

func raceChunks(tier string) int {
	if tier == "thorough" {
		return 400
	}
	return 24
}

type raceReport struct {
	Done   bool   `json:"done"`
	Runs   int    `json:"runs"`
	Label  string `json:"label"`
	Detail string `json:"detail"`
	What   string `json:"what"`
}

// runRace executes one part in the binary that was built with the race detector.
func runRace(r *Run, exe string, k, n int) {
	dir := filepath.Join(r.Dir, "race")
	_ = os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	logp := filepath.Join(dir, "log")
	cmd := exec.Command(exe, "race", r.Tier, strconv.Itoa(k), strconv.Itoa(n), dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+logp)
	var errb tailBuffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	done := false
	sc := bufio.NewScanner(strings.NewReader(string(out)))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	logs := func() string {
		fs, _ := filepath.Glob(logp + ".*")
		s := ""
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			s += string(b)
		}
		if len(s) > 4000 {
			s = s[:4000]
		}
		return s
	}
	for sc.Scan() {
		var m raceReport
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		if m.Done {
			done = true
			r.Eval(m.Runs)
			r.Note("race_runs", int64(m.Runs))
			continue
		}
		r.Fail("race:"+shortLabel(m.Label), m.What+" while concurrent operations ran on\n"+m.Label, m.Detail+logs())
	}
	if !done {
		cur, _ := os.ReadFile(filepath.Join(dir, "current"))
		r.Fail("race:"+shortLabel(string(cur)), "the process died ("+fmt.Sprint(err)+") while concurrent operations ran on\n"+string(cur), errb.Head())
	}
	r.Class(fmt.Sprint("race part ", k))
}

// raceMain is the part that runs under the race detector.
func raceMain(tier string, k, n int, dir string) {
	enc := json.NewEncoder(os.Stdout)
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	runs, idx := 0, -1
	cur, _ := os.Create(filepath.Join(dir, "current"))
	together := func(label string, want []string, fs []func() string) {
		_ = cur.Truncate(0)
		_, _ = cur.WriteAt([]byte(label), 0)
		before := raceErrors()
		start := make(chan struct{})
		var wg sync.WaitGroup
		got := make([]string, len(fs))
		for i := range fs {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						got[i] = fmt.Sprint("panic: ", p)
					}
				}()
				<-start
				got[i] = fs[i]()
			}()
		}
		close(start)
		wg.Wait()
		runs++
		if raceErrors() != before {
			_ = enc.Encode(raceReport{Label: label, What: "a data race was reported"})
		}
		for i := range fs {
			if want != nil && got[i] != want[i] {
				_ = enc.Encode(raceReport{Label: label, What: "an operation gave a different outcome from the one alone: " + firstDiff(want[i], got[i])})
			}
		}
	}
	mine := func() bool { idx++; return idx%n == k }
	// every pair of operations on the small models
	for _, sm := range sharedModels() {
		ops := useOps(sm.d, sm.names, 3)
		for i := range ops {
			for j := i; j < len(ops); j++ {
				if !mine() {
					continue
				}
				a, b := ops[i], ops[j]
				for rep := 0; rep < 3; rep++ {
					solo, err := sm.d.Parse(dir, true, false)
					if err != nil {
						panic(err)
					}
					want := []string{a.run(solo, false), b.run(solo, false)}
					rm, _ := sm.d.Parse(dir, true, false)
					together(a.name+" with "+b.name+" on\n"+sm.d.String(), want, []func() string{func() string { return a.run(rm, false) }, func() string { return b.run(rm, false) }})
				}
			}
		}
	}
	// all operations on the models of the corpus
	raceCorpus(tier, func(d *DocSet, names []string) {
		if !mine() {
			return
		}
		all := func(rm *raml.RAML) string {
			var sb strings.Builder
			for _, n := range names {
				b := LibType(rm, n)
				if b == nil {
					continue
				}
				for _, v := range vals06() {
					sb.WriteString(okerr(b.Validate(v))[:1])
				}
				m, err := schemaOf(b)
				sb.WriteString(okerr(err))
				for _, f := range sortedKeys(m) {
					sb.Write(m[f])
				}
			}
			return sb.String()
		}
		solo, err := d.Parse(filepath.Join(dir, "s"), true, false)
		if err != nil {
			return
		}
		want := all(solo)
		rm, _ := d.Parse(filepath.Join(dir, "s"), true, false)
		f := func() string { return all(rm) }
		together("everything on\n"+d.String(), []string{want, want, want}, []func() string{f, f, f})
	})
	// separate parses
	var prev *DocSet
	pair := func(a, b *DocSet) {
		p, q := filepath.Join(dir, "p"), filepath.Join(dir, "q")
		a.Files().Write(p)
		b.Files().Write(q)
		want := []string{parseOutcome(a, p, false), parseOutcome(b, q, false)}
		together("parse\n"+a.String()+"with parse\n"+b.String(), want, []func() string{func() string { return parseOutcome(a, p, false) }, func() string { return parseOutcome(b, q, false) }})
	}
	sets := parseSets()
	for i := range sets {
		for _, b := range sets[i:] {
			if mine() {
				pair(sets[i], b)
			}
		}
	}
	raceCorpus(tier, func(d *DocSet, _ []string) {
		if prev != nil && mine() {
			pair(prev, d)
		}
		prev = d
	})
	_ = enc.Encode(raceReport{Done: true, Runs: runs})
}
