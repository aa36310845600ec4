package main

// C16: hooks run in registration order, can abort, and stay with their model.

import (
	"context"
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/acronis/go-stacktrace"
	orderedmap "github.com/wk8/go-ordered-map/v2"
	"gopkg.in/yaml.v3"

	raml "github.com/acronis/go-raml/v2"
)

// ---- part 1 and 2: the registry against a list model

type hookCall struct {
	hook   int
	rm     *raml.RAML
	params []any
}

// The hooks are distinct functions: hooks are identified by function.
var (
	hookLog  []hookCall
	hookPlan [4]func(ctx context.Context, rm *raml.RAML) error // what a hook does besides being recorded
)

func hookRun(i int, ctx context.Context, rm *raml.RAML, params []any) error {
	hookLog = append(hookLog, hookCall{i, rm, params})
	if hookPlan[i] != nil {
		return hookPlan[i](ctx, rm)
	}
	return nil
}

func hook0(ctx context.Context, rm *raml.RAML, p ...any) error { return hookRun(0, ctx, rm, p) }
func hook1(ctx context.Context, rm *raml.RAML, p ...any) error { return hookRun(1, ctx, rm, p) }
func hook2(ctx context.Context, rm *raml.RAML, p ...any) error { return hookRun(2, ctx, rm, p) }
func hook3(ctx context.Context, rm *raml.RAML, p ...any) error { return hookRun(3, ctx, rm, p) }

var theHooks = []raml.HookFunc{hook0, hook1, hook2, hook3}

const hookNil = 9 // a nil hook is skipped

func hookOf(i int) raml.HookFunc {
	if i == hookNil {
		return nil
	}
	return theHooks[i]
}

var hookPoints = []raml.HookKey{raml.HookBeforeValidateShapes, raml.HookBeforeUnwrapShape, raml.HookBeforeBaseShapeInherit}

type hookOp struct {
	model, point int
	op           string
	hook         int
}

func (o hookOp) String() string {
	if o.op == "clear" {
		return fmt.Sprintf("m%d.p%d.clear", o.model, o.point)
	}
	return fmt.Sprintf("m%d.p%d.%s(%d)", o.model, o.point, o.op, o.hook)
}

func opsString(ops []hookOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}

type hookWorld struct {
	models [2]*raml.RAML
	bases  [2]*raml.BaseShape
	parent [2]*raml.BaseShape
	lists  [2][3][]int
	shape  bool // operate through the type rather than the model
}

func newHookWorld(ctx context.Context, preset []int, through bool) *hookWorld {
	w := &hookWorld{shape: through}
	for m := range w.models {
		w.models[m] = raml.New(ctx)
		w.lists[m][0] = append([]int{}, preset...)
		b, _, err := w.models[m].MakeNewShape("T", "string", "main.raml", stacktrace.Position{Line: 1, Column: 1})
		p, _, err2 := w.models[m].MakeNewShape("P", "string", "main.raml", stacktrace.Position{Line: 2, Column: 1})
		if err != nil || err2 != nil {
			panic("harness: cannot make a type")
		}
		b.SetUnwrapped()
		w.bases[m], w.parent[m] = b, p
	}
	return w
}

func (w *hookWorld) apply(o hookOp) {
	w.applyReal(o)
	w.applyModel(o)
}

func (w *hookWorld) applyReal(o hookOp) {
	key, h := hookPoints[o.point], hookOf(o.hook)
	rm, b := w.models[o.model], w.bases[o.model]
	switch {
	case o.op == "append" && w.shape:
		b.AppendRAMLHook(key, h)
	case o.op == "append":
		rm.AppendHook(key, h)
	case o.op == "prepend" && w.shape:
		b.PrepenRAMLHook(key, h)
	case o.op == "prepend":
		rm.PrependHook(key, h)
	case o.op == "remove" && w.shape:
		b.RemoveRAMLHook(key, h)
	case o.op == "remove":
		rm.RemoveHook(key, h)
	case w.shape:
		b.ClearRAMLHooks(key)
	default:
		rm.ClearHooks(key)
	}
}

func (w *hookWorld) applyModel(o hookOp) {
	cur := w.lists[o.model][o.point]
	var next []int
	switch o.op {
	case "append":
		next = append(append(next, cur...), o.hook)
	case "prepend":
		next = append(append(next, o.hook), cur...)
	case "remove":
		done := false
		for _, h := range cur {
			if h == o.hook && !done {
				done = true
				continue
			}
			next = append(next, h)
		}
	}
	w.lists[o.model][o.point] = next
}

// trigger runs a hook point once and returns the recorded calls and the error of the guarded operation.
func (w *hookWorld) trigger(m, p int) ([]hookCall, error) {
	hookLog = nil
	var err error
	switch p {
	case 0:
		err = w.models[m].ValidateShapes()
	case 1:
		_, err = w.models[m].UnwrapShape(w.bases[m])
	case 2:
		_, err = w.bases[m].Inherit(w.parent[m])
	}
	return hookLog, err
}

func (w *hookWorld) wantParams(m, p int) []any {
	switch p {
	case 1:
		return []any{w.bases[m]}
	case 2:
		return []any{w.bases[m], w.parent[m]}
	}
	return nil
}

// expect checks the calls of one trigger against a list of hooks, of which those up to the first failing one run.
func (w *hookWorld) expect(calls []hookCall, err error, m, p int, list []int, fails func(int) error) string {
	var want []int
	var wantErr error
	for _, h := range list {
		if h == hookNil {
			continue
		}
		want = append(want, h)
		if fails != nil {
			if wantErr = fails(h); wantErr != nil {
				break
			}
		}
	}
	var got []int
	for _, c := range calls {
		got = append(got, c.hook)
		if c.rm != w.models[m] {
			return fmt.Sprintf("point %d of model %d: hook %d was not given its model", p, m, c.hook)
		}
		if fmt.Sprint(c.params...) != fmt.Sprint(w.wantParams(m, p)...) || len(c.params) != len(w.wantParams(m, p)) {
			return fmt.Sprintf("point %d of model %d: hook %d was given %d arguments that are not the documented %d", p, m, c.hook, len(c.params), len(w.wantParams(m, p)))
		}
		for i, q := range w.wantParams(m, p) {
			if c.params[i] != q {
				return fmt.Sprintf("point %d of model %d: argument %d of hook %d is not the documented one", p, m, i, c.hook)
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("point %d of model %d: hooks %v ran, registered are %v", p, m, got, want)
	}
	if (err != nil) != (wantErr != nil) || wantErr != nil && !strings.Contains(err.Error(), wantErr.Error()) {
		return fmt.Sprintf("point %d of model %d: the guarded operation returned %v, the hooks returned %v", p, m, err, wantErr)
	}
	return ""
}

func (w *hookWorld) check(r *Run, points int) string {
	for m := range w.models {
		for p := 0; p < points; p++ {
			calls, err := w.trigger(m, p)
			r.Eval(1)
			if s := w.expect(calls, err, m, p, w.lists[m][p], nil); s != "" {
				return s
			}
		}
	}
	return ""
}

// hookCtxs are the contexts models are created from; the caller's context may carry hooks already.
type hookCtx struct {
	name   string
	make   func() context.Context
	preset []int
}

func hookCtxs() []hookCtx {
	preset := func(list []int, spare int) func() context.Context {
		return func() context.Context {
			l := make([]raml.HookFunc, 0, len(list)+spare)
			for _, h := range list {
				l = append(l, hookOf(h))
			}
			return context.WithValue(context.Background(), hookPoints[0], l)
		}
	}
	return []hookCtx{
		{"plain", context.Background, nil},
		{"nil", func() context.Context { return nil }, nil},
		{"preset0", preset([]int{0}, 4), []int{0}},
		{"preset010", preset([]int{0, 1, 0}, 0), []int{0, 1, 0}},
		{"preset0nil1", preset([]int{0, hookNil, 1}, 3), []int{0, hookNil, 1}},
		{"empty list", preset(nil, 2), nil},
	}
}

func allHookOps(points int, hooks []int) []hookOp {
	var ops []hookOp
	for m := 0; m < 2; m++ {
		for p := 0; p < points; p++ {
			for _, k := range []string{"append", "prepend", "remove"} {
				for _, h := range hooks {
					ops = append(ops, hookOp{m, p, k, h})
				}
			}
			ops = append(ops, hookOp{m, p, "clear", 0})
		}
	}
	return ops
}

func hookSequences(emit func(Case), c hookCtx, through bool, points, depth int, hooks []int) {
	ops := allHookOps(points, hooks)
	for _, first := range ops {
		if first.model == 1 {
			continue // models are interchangeable
		}
		first := first
		for _, second := range ops {
			second := second
			label := fmt.Sprintf("registry: context %s, through types %v, first %v %v, depth %d", c.name, through, first, second, depth)
			emit(Case{Label: func() string { return label }, Run: func(r *Run) {
				seq := []hookOp{first, second}
				states := map[string]bool{}
				run := func() bool {
					hookPlan = [4]func(context.Context, *raml.RAML) error{}
					ctx := c.make()
					w := newHookWorld(ctx, c.preset, through)
					for _, o := range seq {
						w.apply(o)
					}
					if len(seq) <= 4 {
						if st := fmt.Sprint(w.lists); !states[st] {
							states[st] = true
							r.Class("registry " + st)
						}
					}
					s := w.check(r, points)
					if s == "" {
						// a model created later from the same context has what the context carries
						late := newHookWorld(ctx, c.preset, through)
						s = late.check(r, points)
						if s != "" {
							s = "a model created later from the same context: " + s
						}
					}
					if s != "" {
						r.Fail("registry "+s, fmt.Sprintf("[context %s, through types %v] after %s: %s", c.name, through, opsString(seq), s), "")
						return false
					}
					return true
				}
				var rec func(left int) bool
				rec = func(left int) bool {
					if !run() {
						return false
					}
					if left == 0 {
						return true
					}
					for _, o := range ops {
						seq = append(seq, o)
						ok := rec(left - 1)
						seq = seq[:len(seq)-1]
						if !ok {
							return false
						}
					}
					return true
				}
				rec(depth - 2)
				r.Class("registry")
			}})
		}
	}
}

// ---- part 2: hooks that fail or change the registration while they run

type hookBehaviour struct {
	name string
	fail bool
	ops  func(self int) []hookOp // applied to the registration when the hook runs, once
}

func hookBehaviours() []hookBehaviour {
	one := func(m, p int, op string, h int) func(int) []hookOp {
		return func(int) []hookOp { return []hookOp{{m, p, op, h}} }
	}
	rel := func(op string, d int) func(int) []hookOp {
		return func(self int) []hookOp { return []hookOp{{0, 0, op, (self + d) % 3}} }
	}
	return []hookBehaviour{
		{"ok", false, nil}, {"fail", true, nil},
		{"append 3", false, one(0, 0, "append", 3)}, {"prepend 3", false, one(0, 0, "prepend", 3)},
		{"remove self", false, rel("remove", 0)}, {"remove next", false, rel("remove", 1)}, {"remove previous", false, rel("remove", 2)},
		{"append self", false, rel("append", 0)}, {"clear", false, one(0, 0, "clear", 0)},
		{"clear then append 3", false, func(int) []hookOp { return []hookOp{{0, 0, "clear", 0}, {0, 0, "append", 3}} }},
		{"remove next then append 3", false, func(s int) []hookOp { return []hookOp{{0, 0, "remove", (s + 1) % 3}, {0, 0, "append", 3}} }},
		{"fail after append 3", true, one(0, 0, "append", 3)},
		{"append to another point", false, one(0, 1, "append", 3)}, {"append to another model", false, one(1, 0, "append", 3)},
	}
}

func hookReentrancy(tier string, emit func(Case)) {
	bs := hookBehaviours()
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(bs)
		}
		for code := 0; code < total; code++ {
			var plan []hookBehaviour
			c := code
			for i := 0; i < n; i++ {
				plan = append(plan, bs[c%len(bs)])
				c /= len(bs)
			}
			var names []string
			for _, p := range plan {
				names = append(names, p.name)
			}
			label := "running hooks: " + strings.Join(names, ", ")
			plan2 := plan
			emit(Case{Label: func() string { return label }, Run: func(r *Run) {
				for _, c := range hookCtxs() {
					if c.name == "preset010" || c.name == "preset0nil1" || c.name == "preset0" {
						continue
					}
					for _, spare := range []bool{false, true} {
						if s := hookReenter(r, c, plan2, spare); s != "" {
							r.Fail("reentrancy "+s, fmt.Sprintf("[context %s, spare %v] %s: %s", c.name, spare, label, s), "")
							return
						}
					}
				}
				r.Class("reentrancy")
			}})
		}
	}
}

func hookReenter(r *Run, c hookCtx, plan []hookBehaviour, spare bool) string {
	hookPlan = [4]func(context.Context, *raml.RAML) error{}
	ctx := c.make()
	var preset []int
	if spare {
		// the hooks come from the context, in a list with room, which both models see
		l := make([]raml.HookFunc, 0, 8)
		for i := range plan {
			l = append(l, hookOf(i))
			preset = append(preset, i)
		}
		ctx = context.WithValue(context.Background(), hookPoints[0], l)
	}
	w := newHookWorld(ctx, preset, false)
	if !spare {
		for i := range plan {
			w.apply(hookOp{0, 0, "append", i})
		}
	}
	failure := func(h int) error {
		if h < len(plan) && plan[h].fail {
			return fmt.Errorf("hook %d objects", h)
		}
		return nil
	}
	budget := 0
	for i := range plan {
		i := i
		hookPlan[i] = func(context.Context, *raml.RAML) error {
			if budget++; budget > 50 {
				return errors.New("runaway")
			}
			if plan[i].ops != nil {
				for _, o := range plan[i].ops(i) {
					w.apply(o) // on the model of the registration too: the expectations below use snapshots
				}
			}
			return failure(i)
		}
	}
	for round := 0; round < 3; round++ {
		for m := 0; m < 2; m++ {
			for p := 0; p < 2; p++ {
				snapshot := append([]int{}, w.lists[m][p]...)
				calls, err := w.trigger(m, p)
				r.Eval(1)
				if s := w.expect(calls, err, m, p, snapshot, failure); s != "" {
					return fmt.Sprintf("run %d: %s", round, s)
				}
			}
		}
	}
	return ""
}

// ---- part 3: the hook points of a parse

type hookEvent struct {
	point  string
	rm     *raml.RAML
	params []any
	// of the type at the time of the call
	typ       string
	shape     raml.Shape
	unwrapped bool
	shapes    int
}

var parsePoints = []raml.HookKey{
	raml.HookBeforeParseDataType, raml.HookBeforeRAMLMakeConcreteShapeYAML, raml.HookBeforeRAMLMakeNewShapeYAML,
	raml.HookBeforeFindAndMarkRecursion, raml.HookBeforeUnwrapShape, raml.HookBeforeValidateTypes, raml.HookBeforeValidateLibrary,
	raml.HookBeforeValidateDataType, raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions,
	raml.HookBeforeValidateShapes, raml.HookBeforeValidateObjectShape, raml.HookBeforeValidateShapeCommons,
	raml.HookBeforeValidateExamples, raml.HookBeforeValidateShapeFacets,
	raml.HookBeforeBaseShapeInherit, raml.HookBeforeBaseShapeInheritUnionSource, raml.HookBeforeBaseShapeInheritUnionTarget,
}

type recorder struct {
	events []*hookEvent
	// the invocation that fails, and from then on every invocation of that point with that subject
	point raml.HookKey
	nth   int
	seen  int
	hit   *hookEvent
	hitAt int
}

var errHook = errors.New("the-hook-objects")

func (c *recorder) hook(k raml.HookKey) raml.HookFunc {
	return func(_ context.Context, rm *raml.RAML, params ...any) error {
		e := &hookEvent{point: string(k), rm: rm, params: params, shapes: len(rm.GetShapes())}
		if len(params) > 0 {
			if b, ok := params[0].(*raml.BaseShape); ok {
				e.typ, e.shape, e.unwrapped = b.Type, b.Shape, b.IsUnwrapped()
			}
		}
		c.events = append(c.events, e)
		if c.hit != nil && c.hit.point == e.point && len(params) > 0 && len(c.hit.params) > 0 && params[0] == c.hit.params[0] {
			return errHook
		}
		if k == c.point && c.hit == nil {
			if c.seen == c.nth {
				c.hit, c.hitAt = e, len(c.events)-1
				return errHook
			}
			c.seen++
		}
		return nil
	}
}

// parse parses the set with recording hooks on every point; they come from the context or are appended to the model.
func (c *recorder) parse(d *DocSet, dir string, unwrap, validate, viaCtx bool) (*raml.RAML, error) {
	f := d.Files()
	f.Write(dir)
	ctx := context.Background()
	if viaCtx {
		for _, k := range parsePoints {
			ctx = context.WithValue(ctx, k, []raml.HookFunc{c.hook(k)})
		}
	}
	rm := raml.New(ctx)
	if !viaCtx {
		for _, k := range parsePoints {
			rm.AppendHook(k, c.hook(k))
		}
	}
	return rm, rm.ParseFromPath(filepath.Join(dir, "main.raml"), parseOpts(unwrap, validate)...)
}

func eventArgs(e *hookEvent) string {
	shape := func(i int) bool { b, ok := e.params[i].(*raml.BaseShape); return ok && b != nil }
	bad := func() string { return fmt.Sprintf("%d arguments of types %T", len(e.params), e.params) }
	switch raml.HookKey(e.point) {
	case raml.HookBeforeParseDataType:
		if len(e.params) != 1 {
			return bad()
		}
		if p, ok := e.params[0].(string); !ok || !filepath.IsAbs(p) {
			return bad()
		}
	case raml.HookBeforeRAMLMakeConcreteShapeYAML:
		if len(e.params) != 3 || !shape(0) {
			return bad()
		}
		if _, ok := e.params[1].(string); !ok {
			return bad()
		}
		if _, ok := e.params[2].([]*yaml.Node); !ok {
			return bad()
		}
	case raml.HookBeforeRAMLMakeNewShapeYAML:
		if len(e.params) != 1 {
			return bad()
		}
		if n, ok := e.params[0].(*yaml.Node); !ok || n == nil {
			return bad()
		}
	case raml.HookBeforeFindAndMarkRecursion, raml.HookBeforeUnwrapShape, raml.HookBeforeValidateShapeCommons,
		raml.HookBeforeValidateExamples, raml.HookBeforeValidateShapeFacets:
		if len(e.params) != 1 || !shape(0) {
			return bad()
		}
	case raml.HookBeforeValidateTypes:
		if len(e.params) != 2 {
			return bad()
		}
		if _, ok := e.params[0].(*orderedmap.OrderedMap[string, *raml.BaseShape]); !ok {
			return bad()
		}
	case raml.HookBeforeValidateLibrary:
		if len(e.params) != 2 {
			return bad()
		}
		if l, ok := e.params[0].(*raml.Library); !ok || l == nil {
			return bad()
		}
	case raml.HookBeforeValidateDataType:
		if len(e.params) != 2 {
			return bad()
		}
		if l, ok := e.params[0].(*raml.DataType); !ok || l == nil {
			return bad()
		}
	case raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions:
		if len(e.params) != 1 {
			return bad()
		}
		if _, ok := e.params[0].(map[int64]*raml.BaseShape); !ok {
			return bad()
		}
	case raml.HookBeforeValidateShapes:
		if len(e.params) != 0 {
			return bad()
		}
	case raml.HookBeforeValidateObjectShape:
		if len(e.params) != 1 {
			return bad()
		}
		if l, ok := e.params[0].(*raml.ObjectShape); !ok || l == nil {
			return bad()
		}
	case raml.HookBeforeBaseShapeInherit:
		if len(e.params) != 2 || !shape(0) || !shape(1) {
			return bad()
		}
	case raml.HookBeforeBaseShapeInheritUnionSource, raml.HookBeforeBaseShapeInheritUnionTarget:
		if len(e.params) != 2 || !shape(0) {
			return bad()
		}
		if u, ok := e.params[1].(*raml.UnionShape); !ok || u == nil {
			return bad()
		}
	}
	return ""
}

// modelFragments are the fragments of a model by path.
func modelFragments(rm *raml.RAML, d *DocSet, dir string) map[string]raml.Fragment {
	out := map[string]raml.Fragment{}
	for p := range d.Files() {
		abs := filepath.Join(dir, p)
		if f := rm.GetFragment(abs); f != nil {
			out[abs] = f
		}
	}
	return out
}

// coverage checks that the steps of a successful parse ran their hooks.
func (c *recorder) coverage(rm *raml.RAML, d *DocSet, dir string, unwrap, validate bool) string {
	count := func(k raml.HookKey, arg any) int {
		n := 0
		for _, e := range c.events {
			if e.point == string(k) && (arg == nil || len(e.params) > 0 && e.params[0] == arg) {
				n++
			}
		}
		return n
	}
	for _, e := range c.events {
		if e.rm != rm {
			return e.point + ": the hook was given another model"
		}
		if s := eventArgs(e); s != "" {
			return e.point + ": undocumented arguments: " + s
		}
	}
	var tops []*raml.BaseShape
	frags := modelFragments(rm, d, dir)
	for p, f := range frags {
		switch x := f.(type) {
		case *raml.Library:
			for q := x.Types.Oldest(); q != nil; q = q.Next() {
				tops = append(tops, q.Value)
			}
			for q := x.AnnotationTypes.Oldest(); q != nil; q = q.Next() {
				tops = append(tops, q.Value)
			}
			if validate {
				if n := count(raml.HookBeforeValidateLibrary, x); n != 1 {
					return fmt.Sprintf("validating library %s ran its hooks %d times", p, n)
				}
				if n := count(raml.HookBeforeValidateTypes, x.Types); n != 1 {
					return fmt.Sprintf("validating the types of library %s ran its hooks %d times", p, n)
				}
				if n := count(raml.HookBeforeValidateTypes, x.AnnotationTypes); n != 1 {
					return fmt.Sprintf("validating the annotation types of library %s ran its hooks %d times", p, n)
				}
			}
		case *raml.DataType:
			tops = append(tops, x.Shape)
			if validate {
				if n := count(raml.HookBeforeValidateDataType, x); n != 1 {
					return fmt.Sprintf("validating data type %s ran its hooks %d times", p, n)
				}
			}
		}
	}
	if validate {
		for _, k := range []raml.HookKey{raml.HookBeforeValidateShapes, raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions} {
			if n := count(k, nil); n != 1 {
				return fmt.Sprintf("%s ran its hooks %d times", k, n)
			}
		}
	} else {
		for _, k := range []raml.HookKey{raml.HookBeforeValidateShapes, raml.HookBeforeValidateFragments, raml.HookBeforeValidateDomainExtensions,
			raml.HookBeforeValidateLibrary, raml.HookBeforeValidateDataType, raml.HookBeforeValidateTypes} {
			if n := count(k, nil); n != 0 {
				return fmt.Sprintf("%s ran its hooks although nothing is validated", k)
			}
		}
	}
	if !unwrap && !validate {
		if count(raml.HookBeforeUnwrapShape, nil) != 0 || count(raml.HookBeforeFindAndMarkRecursion, nil) != 0 {
			return "unwrapping ran its hooks although nothing is unwrapped"
		}
	}
	for p, t := range d.Files() {
		for q, u := range d.Files() {
			if !strings.HasPrefix(u, hdrDT) {
				continue
			}
			// every reference to a data type file asks for it
			refs := 0
			for _, part := range strings.Split(t, "!include ")[1:] {
				end := strings.IndexAny(part, ",}] \n")
				if end < 0 {
					end = len(part)
				}
				if filepath.Join(filepath.Dir(p), part[:end]) == q {
					refs++
				}
			}
			if refs > 0 && count(raml.HookBeforeParseDataType, filepath.Join(dir, q)) < refs {
				return fmt.Sprintf("%d references to %s in %s ran the %s hook %d times", refs, q, p, raml.HookBeforeParseDataType, count(raml.HookBeforeParseDataType, filepath.Join(dir, q)))
			}
		}
	}
	concrete := map[any]bool{}
	for _, e := range c.events {
		if e.point == raml.HookBeforeRAMLMakeConcreteShapeYAML {
			concrete[first(e)] = true
		}
	}
	for _, b := range tops {
		if unwrap {
			break
		}
		for k := range Reach(b) {
			s, ok := k.(*raml.BaseShape)
			if !ok || s.Shape == nil {
				continue
			}
			if _, js := s.Shape.(*raml.JSONShape); !js && !concrete[any(s)] {
				return fmt.Sprintf("making %s (line %d) concrete ran no hook", s.Name, s.Line)
			}
		}
	}
	for _, b := range tops {
		made := 0
		for _, e := range c.events {
			if n, ok := first(e).(*yaml.Node); ok && e.point == raml.HookBeforeRAMLMakeNewShapeYAML && n.Line == b.Line && n.Column == b.Column {
				made++
			}
		}
		// the declaration of a data type fragment is not one node of its file
		if _, lib := frags[b.Location].(*raml.Library); made == 0 && lib {
			return fmt.Sprintf("the declaration of %s ran no %s hook", b.Name, raml.HookBeforeRAMLMakeNewShapeYAML)
		}
	}
	for _, b := range tops {
		if unwrap {
			if count(raml.HookBeforeUnwrapShape, b) == 0 {
				return fmt.Sprintf("unwrapping %s ran no hooks", b.Name)
			}
			if count(raml.HookBeforeFindAndMarkRecursion, b) == 0 {
				return fmt.Sprintf("marking recursion in %s ran no hooks", b.Name)
			}
		}
	}
	if unwrap && validate {
		visited := map[*raml.BaseShape]bool{}
		for _, b := range tops {
			if s := c.common(b, count, visited); s != "" {
				return s
			}
		}
	}
	return ""
}

func first(e *hookEvent) any {
	if len(e.params) == 0 {
		return nil
	}
	return e.params[0]
}

// common checks that the common validation of a type and its members ran its hooks.
func (c *recorder) common(b *raml.BaseShape, count func(raml.HookKey, any) int, visited map[*raml.BaseShape]bool) string {
	if visited[b] {
		return ""
	}
	visited[b] = true
	for _, k := range []raml.HookKey{raml.HookBeforeValidateShapeCommons, raml.HookBeforeValidateShapeFacets, raml.HookBeforeValidateExamples} {
		if count(k, b) == 0 {
			return fmt.Sprintf("%s of %s (line %d) ran no hooks", k, b.Name, b.Line)
		}
	}
	var kids []*raml.BaseShape
	switch t := b.Shape.(type) {
	case *raml.ObjectShape:
		if count(raml.HookBeforeValidateObjectShape, t) == 0 {
			return fmt.Sprintf("%s of %s (line %d) ran no hooks", raml.HookBeforeValidateObjectShape, b.Name, b.Line)
		}
		if t.Properties != nil {
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				kids = append(kids, p.Value.Base)
			}
		}
		if t.PatternProperties != nil {
			for p := t.PatternProperties.Oldest(); p != nil; p = p.Next() {
				kids = append(kids, p.Value.Base)
			}
		}
	case *raml.ArrayShape:
		if t.Items != nil {
			kids = append(kids, t.Items)
		}
	case *raml.UnionShape:
		kids = append(kids, t.AnyOf...)
	}
	for _, k := range kids {
		if s := c.common(k, count, visited); s != "" {
			return s
		}
	}
	return ""
}

func nodeInside(n, root *yaml.Node, depth int) bool {
	if depth > 40 {
		return false
	}
	for _, c := range root.Content {
		if c == n || nodeInside(n, c, depth+1) {
			return true
		}
	}
	return false
}

// aborted checks that the step whose hook objected had no further effect.
func (c *recorder) aborted(rm *raml.RAML) string {
	e := c.hit
	later := c.events[c.hitAt+1:]
	var next *hookEvent
	if len(later) > 0 {
		next = later[0]
	}
	nextIn := func(keys ...raml.HookKey) string {
		if next == nil {
			return ""
		}
		for _, k := range keys {
			if next.point == string(k) {
				return ""
			}
		}
		return fmt.Sprintf("%s objected, but the step went on to %s", e.point, next.point)
	}
	switch raml.HookKey(e.point) {
	case raml.HookBeforeParseDataType:
		path := e.params[0].(string)
		before := false
		for _, x := range c.events[:c.hitAt] {
			if x.point == e.point && x.params[0] == e.params[0] {
				before = true
			}
		}
		if rm.GetFragment(path) != nil && !before {
			return "the hook objected to reading " + filepath.Base(path) + ", but it was read"
		}
		if !before {
			for _, x := range later {
				if b, ok := first(x).(*raml.BaseShape); ok && b.Location == path {
					return "the hook objected to reading " + filepath.Base(path) + ", but its types were processed"
				}
			}
		}
	case raml.HookBeforeRAMLMakeNewShapeYAML:
		root := e.params[0].(*yaml.Node)
		for _, x := range later {
			if n, ok := first(x).(*yaml.Node); ok && nodeInside(n, root, 0) {
				return "the hook objected to a declaration, but the declarations inside it were processed"
			}
			if b, ok := first(x).(*raml.BaseShape); ok && x.point == string(raml.HookBeforeRAMLMakeConcreteShapeYAML) && b.Line == root.Line && b.Column == root.Column {
				return "the hook objected to a declaration, but its type was made"
			}
		}
		all := rm.GetShapes()
		for i := e.shapes; i < len(all); i++ {
			if all[i].Line == root.Line && all[i].Column == root.Column {
				return "the hook objected to a declaration, but its type is in the model"
			}
		}
	case raml.HookBeforeRAMLMakeConcreteShapeYAML:
		b := e.params[0].(*raml.BaseShape)
		if b.Type != e.typ || b.Shape != e.shape {
			return fmt.Sprintf("the hook objected to making %s concrete, but it became %q", b.Name, b.Type)
		}
	case raml.HookBeforeUnwrapShape:
		b := e.params[0].(*raml.BaseShape)
		if b.IsUnwrapped() != e.unwrapped {
			return fmt.Sprintf("the hook objected to unwrapping %s, but it is marked as unwrapped", b.Name)
		}
	case raml.HookBeforeFindAndMarkRecursion:
		b := e.params[0].(*raml.BaseShape)
		for _, x := range later {
			if x.point == e.point && first(x) != any(b) && len(c.events) > 0 && insideOf(b, first(x), 3) {
				return fmt.Sprintf("the hook objected to marking recursion in %s, but the members were visited right after", b.Name)
			}
			break
		}
	case raml.HookBeforeValidateShapes, raml.HookBeforeValidateDomainExtensions:
		return nextIn()
	case raml.HookBeforeValidateFragments:
		return nextIn(raml.HookBeforeValidateDomainExtensions)
	case raml.HookBeforeValidateLibrary, raml.HookBeforeValidateDataType:
		return nextIn(raml.HookBeforeValidateLibrary, raml.HookBeforeValidateDataType, raml.HookBeforeValidateDomainExtensions)
	case raml.HookBeforeValidateTypes:
		return nextIn(raml.HookBeforeValidateTypes, raml.HookBeforeValidateLibrary, raml.HookBeforeValidateDataType, raml.HookBeforeValidateDomainExtensions)
	case raml.HookBeforeValidateShapeCommons, raml.HookBeforeValidateShapeFacets, raml.HookBeforeValidateExamples, raml.HookBeforeValidateObjectShape:
		if next != nil {
			switch raml.HookKey(next.point) {
			case raml.HookBeforeValidateShapeFacets, raml.HookBeforeValidateExamples, raml.HookBeforeValidateObjectShape:
				return fmt.Sprintf("%s objected, but the step went on to %s", e.point, next.point)
			}
		}
	}
	return ""
}

func insideOf(b *raml.BaseShape, x any, depth int) bool {
	o, ok := x.(*raml.BaseShape)
	if !ok || depth == 0 {
		return false
	}
	var kids []*raml.BaseShape
	switch t := b.Shape.(type) {
	case *raml.ObjectShape:
		if t.Properties != nil {
			for p := t.Properties.Oldest(); p != nil; p = p.Next() {
				kids = append(kids, p.Value.Base)
			}
		}
	case *raml.ArrayShape:
		if t.Items != nil {
			kids = append(kids, t.Items)
		}
	case *raml.UnionShape:
		kids = append(kids, t.AnyOf...)
	}
	for _, k := range kids {
		if k == o {
			return true
		}
	}
	return false
}

func hasUnion(d *DocSet) bool {
	for _, c := range d.Files() {
		if strings.Contains(c, "|") || strings.Contains(c, "?\"") || strings.Contains(c, "? ") {
			return true
		}
	}
	return false
}

func c16doc(emit func(Case), d *DocSet, failEach bool) {
	emit(Case{Doc: d, Label: d.String, Run: func(r *Run) {
		for _, mode := range []struct{ u, v bool }{{false, false}, {true, false}, {false, true}, {true, true}} {
			for _, viaCtx := range []bool{false, true} {
				tag := fmt.Sprintf("[unwrap=%v validate=%v context=%v] ", mode.u, mode.v, viaCtx)
				plain, perr := d.Parse(r.Dir, mode.u, mode.v)
				c := &recorder{nth: -1}
				rm, err := c.parse(d, r.Dir, mode.u, mode.v, viaCtx)
				r.Eval(1)
				if errText(perr) != errText(err) {
					r.Fail(sigOf(d, tag+"outcome"), tag+"hooks that do nothing change the outcome: "+errText(perr)+" without, "+errText(err)+" with them", "")
					return
				}
				if err != nil {
					r.Class("rejected")
					continue
				}
				r.Class("accepted")
				if x, y := DumpModel(plain), DumpModel(rm); x != y {
					r.Fail(sigOf(d, tag+"dump"), tag+"hooks that do nothing change the model: "+diffAt(x, y), "")
					return
				}
				if s := c.coverage(rm, d, r.Dir, mode.u, mode.v); s != "" {
					r.Fail(sigOf(d, tag+s), tag+s, "")
					return
				}
				per := map[string]int{}
				for _, e := range c.events {
					per[e.point]++
				}
				for k, n := range per {
					r.Note("invocations of "+k, int64(n))
				}
				if !failEach || viaCtx {
					continue
				}
				for _, k := range parsePoints {
					n := per[string(k)]
					if quick := r.Tier != "thorough"; quick && n > 40 {
						n = 40
					}
					for i := 0; i < n; i++ {
						f := &recorder{point: k, nth: i}
						rm2, err2 := f.parse(d, r.Dir, mode.u, mode.v, viaCtx)
						r.Eval(1)
						at := fmt.Sprintf("%s%s hook objecting at its invocation %d: ", tag, k, i)
						if f.hit == nil {
							r.Fail(sigOf(d, tag+string(k)), at+"it is not invoked a second time around", "")
							return
						}
						swallow := strings.HasPrefix(string(k), "BaseShape.") && hasUnion(d)
						if err2 == nil && !swallow || err2 != nil && !strings.Contains(err2.Error(), errHook.Error()) {
							r.Fail(sigOf(d, tag+string(k)), at+"the parse returned "+errText(err2), "")
							return
						}
						if s := f.aborted(rm2); s != "" {
							r.Fail(sigOf(d, tag+string(k)+s), at+s, "")
							return
						}
					}
				}
			}
		}
	}})
}

// ---- part 4: direct calls of the exported guarded operations

func c16direct(emit func(Case), d *DocSet, names []string) {
	emit(Case{Label: func() string { return "direct calls\n" + d.String() }, Run: func(r *Run) {
		objecting := func(context.Context, *raml.RAML, ...any) error { return errHook }
		type call struct {
			key raml.HookKey
			f   func(rm *raml.RAML, b, o *raml.BaseShape) error
		}
		calls := []call{
			{raml.HookBeforeUnwrapShape, func(rm *raml.RAML, b, _ *raml.BaseShape) error { _, err := rm.UnwrapShape(b); return err }},
			{raml.HookBeforeFindAndMarkRecursion, func(rm *raml.RAML, b, _ *raml.BaseShape) error { _, err := rm.FindAndMarkRecursion(b); return err }},
			{raml.HookBeforeBaseShapeInherit, func(_ *raml.RAML, b, o *raml.BaseShape) error { _, err := b.Inherit(o); return err }},
			{raml.HookBeforeRAMLMakeConcreteShapeYAML, func(rm *raml.RAML, b, _ *raml.BaseShape) error {
				_, err := rm.MakeConcreteShapeYAML(b, "integer", nil)
				return err
			}},
			{raml.HookBeforeValidateShapes, func(rm *raml.RAML, _, _ *raml.BaseShape) error { return rm.ValidateShapes() }},
		}
		for _, unwrap := range []bool{false, true} {
			for _, cl := range calls {
				rm, err := d.Parse(r.Dir, unwrap, false)
				if err != nil {
					r.Class("rejected")
					continue
				}
				bs := typesOf(rm, names)
				rm.AppendHook(cl.key, objecting)
				for i, b := range bs {
					o := bs[(i+1)%len(bs)]
					before := DumpModel(rm)
					err := cl.f(rm, b, o)
					r.Eval(1)
					if err == nil || !strings.Contains(err.Error(), errHook.Error()) {
						r.Fail(sigOf(d, string(cl.key)+b.Name), fmt.Sprintf("[unwrap=%v] %s of %s: the hook objects, the operation returns %s", unwrap, cl.key, b.Name, errText(err)), "")
						return
					}
					if after := DumpModel(rm); after != before {
						r.Fail(sigOf(d, string(cl.key)+b.Name), fmt.Sprintf("[unwrap=%v] %s of %s: the hook objects, but the model changed: %s", unwrap, cl.key, b.Name, diffAt(before, after)), "")
						return
					}
				}
				// without the hook the operation works again
				rm.RemoveHook(cl.key, objecting)
				if cl.key == raml.HookBeforeUnwrapShape {
					for _, b := range bs {
						if _, err := rm.UnwrapShape(b); err != nil && strings.Contains(err.Error(), errHook.Error()) {
							r.Fail(sigOf(d, "after "+string(cl.key)), "after the hook was removed: "+err.Error(), "")
							return
						}
					}
				}
				r.Class("direct")
			}
		}
	}})
}

func c16gen(tier string, emit func(Case)) {
	quick := tier != "thorough"
	for i, c := range hookCtxs() {
		d := 5
		if i > 0 && quick {
			d = 4
		}
		hookSequences(emit, c, false, 2, d, []int{0, 1})
		hookSequences(emit, c, true, 2, 4, []int{0, 1})
		hookSequences(emit, c, i%2 == 1, 3, 3, []int{0, 1, hookNil})
	}
	hookReentrancy(tier, emit)

	// a type without a model
	emit(Case{Label: func() string { return "a type without a model" }, Run: func(r *Run) {
		hookPlan = [4]func(context.Context, *raml.RAML) error{}
		a, b := &raml.BaseShape{}, &raml.BaseShape{}
		a.RemoveRAMLHook("x", hook0)
		a.ClearRAMLHooks("x")
		a.AppendRAMLHook(raml.HookBeforeBaseShapeInherit, hook0)
		a.PrepenRAMLHook(raml.HookBeforeBaseShapeInherit, hook1)
		b.PrepenRAMLHook(raml.HookBeforeBaseShapeInherit, hook2)
		src := &raml.BaseShape{ShapeVisited: true}
		hookLog = nil
		_, _ = a.Inherit(src)
		_, _ = b.Inherit(src)
		r.Eval(1)
		var got []int
		for _, c := range hookLog {
			got = append(got, c.hook)
		}
		if fmt.Sprint(got) != "[1 0 2]" {
			r.Fail("no model", fmt.Sprintf("hooks %v ran for two types without a model, registered are [1 0] and [2]", got), "")
		}
	}})

	var pieces [][]string
	for _, n := range namesOf(richTypes()) {
		pieces = append(pieces, []string{n})
	}
	for _, p := range pieces {
		ts := closure(richTypes(), p...)
		d := richDoc(ts...)
		c16doc(emit, d, len(ts) <= 6 || !quick)
		c16direct(emit, d, namesOf(ts))
	}
	genMulti(tier, func(d *DocSet, names []string) { c16doc(emit, d, true) })
	if !quick {
		genCorpus(tier, func(d *DocSet, names []string) {
			c16doc(emit, d, false)
			c16direct(emit, d, names)
		})
	}
}

func init() {
	register(&Check{ID: "C16", Level: "model_checking", Gen: c16gen,
		Rule: "exhaustive: all registry operation sequences up to a depth against a list model, all combinations of hook behaviours up to three hooks, every invocation of every hook point of a corpus made to fail",
		Assumptions: []string{
			"hooks are identified by function, RemoveHook removes the first registration of the function",
			"an error of an inheritance hook while the members of a union are tried may be treated as a member that does not fit",
			"models created from the context handed to a running hook are not considered",
		}})
}
