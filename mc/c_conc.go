package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- T01 ----------

// stepCtx calls hook at every call of the context made by the code under
// test.
type stepCtx struct {
	query.QContext
	hook func()
}

func (c *stepCtx) ScopeVar(v query.QVar) query.QVar { c.hook(); return c.QContext.ScopeVar(v) }
func (c *stepCtx) AddVar(v query.QVar)              { c.hook(); c.QContext.AddVar(v) }
func (c *stepCtx) ScopeConst(k query.QConst) (query.QConst, bool) {
	c.hook()
	return c.QContext.ScopeConst(k)
}
func (c *stepCtx) AddScope(t string) { c.hook(); c.QContext.AddScope(t) }
func (c *stepCtx) PopScope() error   { c.hook(); return c.QContext.PopScope() }
func (c *stepCtx) SetScope(i int, v []query.FeatV) error {
	c.hook()
	return c.QContext.SetScope(i, v)
}
func (c *stepCtx) TopV() int             { c.hook(); return c.QContext.TopV() }
func (c *stepCtx) UpdateTopV(v int) bool { c.hook(); return c.QContext.UpdateTopV(v) }
func (c *stepCtx) CNFVar(v query.QVar, i, x int) int {
	c.hook()
	return c.QContext.CNFVar(v, i, x)
}
func (c *stepCtx) CNFVarExists(v query.QVar, i, x int) bool {
	c.hook()
	return c.QContext.CNFVarExists(v, i, x)
}
func (c *stepCtx) Dim() int            { c.hook(); return c.QContext.Dim() }
func (c *stepCtx) Nodes() []query.Node { c.hook(); return c.QContext.Nodes() }
func (c *stepCtx) Reset()              { c.hook(); c.QContext.Reset() }

// thread is a body run step by step.
type thread struct {
	n, stop int
	resume  chan struct{}
	yield   chan bool // true: finished
	fin     bool
	failed  string
}

func newThread(f func(hook func())) *thread {
	t := &thread{resume: make(chan struct{}), yield: make(chan bool)}
	go func() {
		<-t.resume
		defer func() {
			if e := recover(); e != nil {
				t.failed = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				if len(t.failed) > 1500 {
					t.failed = t.failed[:1500]
				}
			}
			t.yield <- true
		}()
		f(func() {
			t.n++
			if t.n == t.stop {
				t.yield <- false
				<-t.resume
			}
		})
	}()
	return t
}

// to runs the thread up to its k-th call (0: to its end).
func (t *thread) to(k int) {
	if t.fin {
		return
	}
	t.stop = k
	t.resume <- struct{}{}
	t.fin = <-t.yield
}

// body is one evaluation: a query on a model.
type body struct {
	name  string
	inner *form
	vars  []string
	d     int
	t     *tree
	m     model
	q     enc    // shared query
	solo  string // its formula when run alone
	calls int
}

func mkBody(d int, t *tree, layout int, inner *form, vars ...string) *body {
	b := coldBody(d, t, layout, inner, vars...)
	b.alone()
	return b
}

// coldBody is a body that has not been run yet.
func coldBody(d int, t *tree, layout int, inner *form, vars ...string) *body {
	b := &body{name: inner.String(), inner: inner, vars: vars, d: d, t: t, m: mkModel(d, t, layout)}
	b.q = b.build()
	return b
}

// alone finds the formula of the evaluation on its own.
func (b *body) alone() {
	n := 0
	res := b.run(func() { n++ }, false)
	if res.err != nil {
		Failf("%s alone on %s: %v", b.name, b.t, res.err)
	}
	b.solo = res.text
	b.calls = n
}

func (b *body) build() enc {
	whole := b.inner
	for i := len(b.vars) - 1; i >= 0; i-- {
		whole = with(b.vars[i], whole)
	}
	return whole.build()
}

type bodyRes struct {
	f    cnf.CNF
	ctx  query.QContext
	err  error
	text string
}

func (b *body) run(hook func(), shared bool) bodyRes {
	q := b.q
	if !shared {
		q = b.build()
	}
	ctx := query.BasicQContext(b.m)
	var c query.QContext = ctx
	if hook != nil {
		c = &stepCtx{ctx, hook}
	}
	f, err := q.Encoding(c)
	if err != nil {
		return bodyRes{err: err}
	}
	return bodyRes{f, ctx, nil, cnfText(f)}
}

func cnfText(f cnf.CNF) string {
	var sb strings.Builder
	s, c := f.Clauses()
	sb.WriteString(strconv.Itoa(f.TopV()))
	for _, cs := range [][]cnf.Clause{s, c} {
		sb.WriteByte('|')
		for _, cl := range cs {
			for _, l := range cl {
				sb.WriteString(strconv.Itoa(l))
				sb.WriteByte(' ')
			}
			sb.WriteByte(';')
		}
	}
	return sb.String()
}

// wrong says what is wrong with a result, "" if nothing: it has to be the
// formula of the evaluation alone or, failing that, to mean the same.
func (b *body) wrong(res bodyRes) string {
	if res.err != nil {
		return fmt.Sprintf("error %v", res.err)
	}
	if res.text == b.solo {
		return ""
	}
	w := newWorld(b.d, b.t)
	ins := w.insts
	s := satOf(res.f, maxi(res.ctx.TopV(), res.f.TopV()))
	ps := make([]pinner, len(b.vars))
	for i, v := range b.vars {
		ps[i] = mkPinner(res.ctx, query.QVar(v), b.d)
	}
	s = satOf(res.f, maxi(res.ctx.TopV(), res.f.TopV()))
	idx := make([]int, len(b.vars))
	for {
		var as []int
		for i, v := range b.vars {
			as = ps[i].pin(as, ins[idx[i]])
			w.env[v] = ins[idx[i]]
		}
		want, _ := w.can(b.inner)
		if got := s.solve(as...); got != want {
			return fmt.Sprintf("with %s the formula is satisfiable=%v, the meaning %v", envStr(w, b.vars), got, want)
		}
		if !inc(idx, len(ins)) {
			return ""
		}
	}
}

// bodiesOf returns every component form and every operator over a tree. The
// two variants use different constants and preferences.
func bodiesOf(d int, t *tree, layout, variant int) []*body {
	return bodiesBy(mkBody, d, t, layout, variant)
}

func bodiesBy(mkBody func(int, *tree, int, *form, ...string) *body, d int, t *tree, layout, variant int) []*body {
	full := make(inst, d)
	mixed := make(inst, d)
	for i := range full {
		full[i] = query.FeatV(1 + (i+variant)%2)
		mixed[i] = query.FeatV((i + 1 + variant) % 3)
	}
	pref := revs(d)
	if variant == 1 {
		pref = revs(d)
		for i := range pref {
			pref[i] = i
		}
	}
	var out []*body
	vs := []string{"x", "y", "w"}
	for _, kind := range allKinds {
		for _, fm := range argForms(kind) {
			a := make([]arg, len(fm))
			var used []string
			for i := range a {
				if fm[i] {
					a[i] = va(vs[i])
					used = append(used, vs[i])
				} else {
					a[i] = ca(mixed)
					if kind == kLEH {
						a[i] = ca(full)
					}
				}
			}
			f := &form{op: fAtom, kind: kind, args: a, pref: pref}
			out = append(out, mkBody(d, t, layout, f, used...))
		}
	}
	X := va("x")
	add := func(f *form, vars ...string) { out = append(out, mkBody(d, t, layout, f, vars...)) }
	add(not(atom(kSub, ca(mixed), X)), "x")
	add(or(not(atom(kDFS, X)), atom(kFull, X)), "x")
	add(and(not(triv(true)), triv(true)))
	add(and(not(triv(false)), triv(true)))
	add(not(or(triv(false), not(triv(true)))))
	add(forall("n", or(not(atom(kSub, ga("n"), X)), atom(kAllT, ga("n")))), "x")
	add(forall("n", with("z", and(atom(kSub, ga("n"), va("z")), atom(kLEL, X, va("z"))))), "x")
	add(forall("n", forall("o", or(atom(kCons, ga("n"), ga("o")), not(atom(kNode, X))))), "x")
	add(and(atom(kNode, X), and(atom(kAllF, X), not(atom(kSub, X, ca(mixed))))), "x")
	return out
}

func bodySchedules(r *Run, a, b *body, shared, two bool) {
	base := hstr(hstr(hstr(hstr(0, a.name), a.t.String()), b.name), b.t.String())
	run := func(i, j int) {
		var ra, rb bodyRes
		ta := newThread(func(h func()) { ra = a.run(h, shared) })
		tb := newThread(func(h func()) { rb = b.run(h, shared) })
		ta.to(i)
		tb.to(j)
		ta.to(0)
		tb.to(0)
		r.C["traces_validated_against_impl"]++
		r.C["transitions"] += int64(ta.n + tb.n)
		r.State(hint(hint(base, i), j))
		r.Eval(i > 0)
		what := func() string {
			return fmt.Sprintf("%s stopped at its context call %d of %d, %s at %d of %d (tree %s; 0: not stopped)", a.name, i, a.calls, b.name, j, b.calls, a.t)
		}
		for _, t := range []*thread{ta, tb} {
			if t.failed != "" {
				Failf("%s: %s", what(), t.failed)
			}
		}
		if m := a.wrong(ra); m != "" {
			Failf("%s: the first evaluation: %s", what(), m)
		}
		if m := b.wrong(rb); m != "" {
			Failf("%s: the second evaluation: %s", what(), m)
		}
	}
	for i := 0; i <= a.calls; i++ {
		run(i, 0)
		if i == 0 || !two {
			continue
		}
		for j := 1; j <= b.calls; j++ {
			run(i, j)
		}
	}
	r.Sample(func() string {
		return fmt.Sprintf("%s (%d calls) against %s (%d calls), two preemptions: %v", a.name, a.calls, b.name, b.calls, two)
	})
}

// optBody is an optimum computation with the in-process solver, steppable at
// solver calls and at context calls made between them.
func optBody(d int, t *tree, p prop, o order, phase string, steps bool) (func(hook func()) string, *optRef) {
	m := mkModel(d, t, 0)
	R := mkOptRef(newWorld(d, t), p, o)
	return func(hook func()) string {
		ctx := query.BasicQContext(m)
		var c query.QContext = ctx
		if !steps {
			c = &stepCtx{ctx, hook}
		}
		s := &hookSolver{&inproc{phase: phase}, hook}
		out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", c, s)
		switch {
		case err != nil:
			return "error " + err.Error()
		case out.Found != R.any():
			return fmt.Sprintf("Found=%v, an instance exists: %v", out.Found, R.any())
		case out.Found:
			return R.why(out.Value.Val)
		}
		return ""
	}, R
}

type hookSolver struct {
	s    compute.Solver
	hook func()
}

func (h *hookSolver) Step(q compute.Encodable, ctx query.QContext) error {
	h.hook()
	err := h.s.Step(q, ctx)
	h.hook()
	return err
}

func (h *hookSolver) Values(vs []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	h.hook()
	v, err := h.s.Values(vs, ctx)
	h.hook()
	return v, err
}

// interleavings calls f with every sequence of na zeros and nb ones.
func interleavings(na, nb int, f func([]int)) {
	var rec func(s []int, a, b int)
	rec = func(s []int, a, b int) {
		if a == 0 && b == 0 {
			f(s)
			return
		}
		if a > 0 {
			rec(append(s, 0), a-1, b)
		}
		if b > 0 {
			rec(append(s, 1), a, b-1)
		}
	}
	rec(nil, na, nb)
}

// ---------- phases of solver steps ----------

// hookQ is a raw formula whose encoding announces itself.
type hookQ struct {
	f    cnf.CNF
	hook func()
}

func (q hookQ) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if q.hook != nil {
		q.hook()
	}
	return q.f, nil
}

const stepPhases = 5

// runSteps performs two solver steps (and reading the values) in the given
// interleaving of their phases: up to the encoding; encoding, writing and
// starting the solver; solving; output and return; reading the values.
func runSteps(r *Run, fks [2]*fake, samePath bool, sched []int, want [2]inst, dim int) {
	dir := filepath.Join(r.tmp, "marks")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	mark := func(who, name string) string { return filepath.Join(dir, who+name) }
	who := []string{"a", "b"}
	st := func(i int) fakeStep {
		w := who[i]
		return fakeStep{Solve: []string{"false", "true"}[i], Started: mark(w, "started"), Wait: mark(w, "go"), Solved: mark(w, "solved"), Finish: mark(w, "finish")}
	}
	// the order in which the solvers start
	var order []int
	seen := [2]int{}
	for _, w := range sched {
		seen[w]++
		if seen[w] == 2 {
			order = append(order, w)
		}
	}
	if samePath {
		fks[0].script(st(order[0]), st(order[1]))
	} else {
		fks[0].script(st(0))
		fks[1].script(st(1))
	}
	type proc struct {
		th   *thread
		err  error
		vals []query.QConst
		verr error
	}
	var ps [2]*proc
	for i := 0; i < 2; i++ {
		i := i
		p := &proc{}
		ps[i] = p
		ctx := valCtx(dim, "x")
		var cs []cls
		if want[i] != nil {
			for _, l := range litsOf(ctx, "x", want[i]) {
				cs = append(cs, cls{l})
			}
		} else {
			l := litsOf(ctx, "x", make(inst, dim))
			for _, x := range l {
				cs = append(cs, cls{x})
			}
			cs = append(cs, cls{-l[0]})
		}
		f := cnf.FromClauses(cs)
		k := 0
		if samePath {
			k = 0
		} else {
			k = i
		}
		s := fks[k].solver()
		p.th = newThread(func(hook func()) {
			p.err = s.Step(hookQ{f, hook}, ctx)
			hook()
			p.vals, p.verr = s.Values([]query.QVar{"x"}, ctx)
		})
	}
	waitFile := func(p string) bool {
		for i := 0; i < 100000; i++ {
			if _, err := os.Stat(p); err == nil {
				return true
			}
			time.Sleep(100 * time.Microsecond)
		}
		return false
	}
	touch := func(p string) { os.WriteFile(p, nil, 0o644) }
	ph := [2]int{}
	for _, w := range sched {
		t := ps[w].th
		switch ph[w] {
		case 0:
			t.to(1) // at the encoding
		case 1:
			t.stop = 2
			t.resume <- struct{}{}
			for i := 0; ; i++ { // until the solver runs or the step is over
				if _, err := os.Stat(mark(who[w], "started")); err == nil {
					break
				}
				select {
				case t.fin = <-t.yield:
					Failf("schedule %v: the step of evaluation %s ended without a solver run: %v", sched, who[w], ps[w].err)
				case <-time.After(100 * time.Microsecond):
				}
				if i > 300000 {
					Failf("schedule %v: the solver of evaluation %s does not start", sched, who[w])
				}
			}
		case 2:
			touch(mark(who[w], "go"))
			// the solver may fail to read its formula and end
			for i := 0; ; i++ {
				if _, err := os.Stat(mark(who[w], "solved")); err == nil {
					break
				}
				select {
				case t.fin = <-t.yield:
					Failf("schedule %v: the step of evaluation %s failed: %v", sched, who[w], ps[w].err)
				case <-time.After(100 * time.Microsecond):
				}
				if i > 300000 {
					Failf("schedule %v: the solver of evaluation %s does not finish", sched, who[w])
				}
			}
		case 3:
			touch(mark(who[w], "finish"))
			t.fin = <-t.yield
		case 4:
			t.to(0)
		}
		ph[w]++
	}
	_ = waitFile
	r.C["traces_validated_against_impl"]++
	r.C["transitions"] += int64(len(sched))
	r.Eval(true)
	for i, p := range ps {
		what := fmt.Sprintf("schedule %v (same solver path: %v), evaluation %s of %s", sched, samePath, who[i], istr(want[i]))
		if p.th.failed != "" {
			Failf("%s: %s", what, p.th.failed)
		}
		if want[i] == nil {
			if !errors.Is(p.err, compute.UnsatError) {
				Failf("%s: unsatisfiable formula, step reports %v", what, p.err)
			}
			if p.verr == nil {
				Failf("%s: values %v after an unsatisfiable step", what, p.vals)
			}
			continue
		}
		if p.err != nil {
			Failf("%s: step reports %v", what, p.err)
		}
		if p.verr != nil || len(p.vals) != 1 || !ieq(p.vals[0].Val, want[i]) {
			Failf("%s: values %v (%v)", what, p.vals, p.verr)
		}
	}
	if left, _ := filepath.Glob(filepath.Join(os.TempDir(), "*tmp*cnf*")); len(left) > 0 {
		r.C["temporary_files_left"] += int64(len(left))
	}
}

func t01(r *Run) {
	t01points(r)
	th := r.Thorough()
	t1 := &tree{feat: 0, z: leafF, o: leafT}
	b1 := bodiesOf(1, t1, 0, 0)
	for i, a := range b1 {
		for j, b := range b1 {
			a, b := a, b
			i, j := i, j
			r.Case(func() string { return fmt.Sprintf("dimension 1: %s against %s", a.name, b.name) }, func() {
				bodySchedules(r, a, b, (i+j)%2 == 0, th || i <= j)
				if i == j {
					bodySchedules(r, a, b, true, true)
				}
			})
		}
	}
	// dimension 2, two different models, and the same model
	t2 := []*tree{
		{feat: 1, z: &tree{feat: 0, z: leafT, o: leafF}, o: leafF},
		{feat: 0, z: leafF, o: &tree{feat: 1, z: leafF, o: leafT}},
	}
	b2 := [][]*body{bodiesOf(2, t2[0], 0, 0), bodiesOf(2, t2[1], 2, 1)}
	for i, a := range b2[0] {
		for j := range b2[1] {
			for k := 0; k < 2; k++ {
				a, b := a, b2[k][j]
				i, j := i, j
				two := i == j || th && (i+j)%3 == 0
				if two && a.calls*b.calls > 40000 {
					two = th
				}
				r.Case(func() string {
					return fmt.Sprintf("dimension 2: %s on %s against %s on %s", a.name, a.t, b.name, b.t)
				}, func() { bodySchedules(r, a, b, k == 0, two) })
			}
		}
	}
	// one evaluation of dimension 1 inside one of dimension 2 and conversely
	for i, a := range b2[0] {
		for j, b := range b1 {
			if !th && (i+j)%4 != 0 {
				continue
			}
			a, b := a, b
			r.Case(func() string { return fmt.Sprintf("dimensions 2 and 1: %s against %s", a.name, b.name) }, func() {
				bodySchedules(r, a, b, false, false)
				bodySchedules(r, b, a, false, false)
			})
		}
	}
	// optimum computations: all schedules with two preemptions at solver calls,
	// and one preemption at every context call
	k := inst{Z, O}
	for pi, p := range propsOf(k) {
		for oi, o := range ordersOf(k, 2) {
			if !th && (pi+oi)%2 != 0 {
				continue
			}
			p, o := p, o
			pi, oi := pi, oi
			r.Case(func() string { return fmt.Sprintf("optimum of %s, %s", p.name, o.name) }, func() {
				p2 := propsOf(inst{O, O})[(pi+1)%9]
				o2 := ordersOf(inst{O, B}, 2)[(oi+2)%7]
				for _, steps := range []bool{true, false} {
					fa, _ := optBody(2, t2[0], p, o, "alt", steps)
					fb, _ := optBody(2, t2[1], p2, o2, "true", steps)
					na, nb := 0, 0
					fa(func() { na++ })
					fb(func() { nb++ })
					try := func(i, j int) {
						var ma, mb string
						ta := newThread(func(h func()) { ma = fa(h) })
						tb := newThread(func(h func()) { mb = fb(h) })
						ta.to(i)
						tb.to(j)
						ta.to(0)
						tb.to(0)
						r.C["traces_validated_against_impl"]++
						r.C["transitions"] += int64(ta.n + tb.n)
						r.Eval(true)
						if ta.failed+tb.failed+ma+mb != "" {
							Failf("stopped at %d of %d and %d of %d (solver calls only: %v), second computation %s, %s: %s%s first: %s second: %s", i, na, j, nb, steps, p2.name, o2.name, ta.failed, tb.failed, ma, mb)
						}
					}
					for i := 1; i <= na; i++ {
						if !steps && i%7 != 0 && !th {
							continue
						}
						try(i, 0)
						if !steps {
							continue
						}
						for j := 1; j <= nb; j++ {
							try(i, j)
						}
					}
				}
			})
		}
	}
	// solver steps
	var scheds [][]int
	interleavings(stepPhases, stepPhases, func(s []int) { scheds = append(scheds, append([]int{}, s...)) })
	wants := [][2]inst{{{Z, O}, {O, B}}, {{B, B}, nil}, {nil, {O, O}}, {nil, nil}}
	for wi, w := range wants {
		for _, same := range []bool{false, true} {
			for c := 0; c < 16; c++ {
				w, c, same := w, c, same
				wi := wi
				r.Case(func() string {
					return fmt.Sprintf("solver steps %s and %s, same path %v, part %d", istr(w[0]), istr(w[1]), same, c)
				}, func() {
					fks := [2]*fake{newFakeIn(filepath.Join(r.tmp, "sa")), newFakeIn(filepath.Join(r.tmp, "sb"))}
					for i, s := range scheds {
						if i%16 != c {
							continue
						}
						if !th && wi >= 2 && i%4 != 0 {
							continue
						}
						runSteps(r, fks, same, s, w, 2)
						r.Sample(func() string { return fmt.Sprintf("solver step phases %v", s) })
					}
				})
			}
		}
	}
	// optimum computations through solver processes: all interleavings of
	// their solver calls
	r.Case(func() string { return "optimum computations through the solver binary" }, func() {
		fks := [2]*fake{newFakeIn(filepath.Join(r.tmp, "oa")), newFakeIn(filepath.Join(r.tmp, "ob"))}
		fks[0].script(fakeStep{Solve: "false"})
		fks[1].script(fakeStep{Solve: "true"})
		p, o := propsOf(k)[0], ordersOf(k, 2)[0]
		p2, o2 := propsOf(inst{O, B})[2], ordersOf(inst{O, B}, 2)[2]
		R := []*optRef{mkOptRef(newWorld(2, t2[0]), p, o), mkOptRef(newWorld(2, t2[1]), p2, o2)}
		mk := func(i int, out *compute.OptOutput, err *error) func(h func()) {
			return func(h func()) {
				ctx := query.BasicQContext(mkModel(2, t2[i], 0))
				s := &preSolver{fks[i].solver(), h}
				if i == 0 {
					*out, *err = compute.ComputeOptim(fgOf(p), ogOf(o), "x", ctx, s)
				} else {
					*out, *err = compute.ComputeOptim(fgOf(p2), ogOf(o2), "x", ctx, s)
				}
			}
		}
		var out [2]compute.OptOutput
		var err [2]error
		n := [2]int{}
		for i := range n {
			mk(i, &out[i], &err[i])(func() { n[i]++ })
		}
		na, nb := n[0]+1, n[1]+1
		count := 0
		interleavings(na, nb, func(s []int) {
			count++
			if !th && count%5 != 1 {
				return
			}
			var ts [2]*thread
			for i := range ts {
				ts[i] = newThread(mk(i, &out[i], &err[i]))
			}
			at := [2]int{}
			for _, w := range s {
				at[w]++
				if at[w] == n[w]+1 {
					ts[w].to(0)
				} else {
					ts[w].to(at[w])
				}
			}
			for i := range ts {
				ts[i].to(0)
				if ts[i].failed != "" {
					Failf("schedule %v: %s", s, ts[i].failed)
				}
				checkOpt(func() string { return fmt.Sprintf("optimum %d in schedule %v", i, s) }, R[i], out[i], err[i])
			}
			r.C["traces_validated_against_impl"]++
			r.C["transitions"] += int64(len(s))
			r.Eval(true)
		})
	})
}

// preSolver stops before every call only.
type preSolver struct {
	s    compute.Solver
	hook func()
}

func (h *preSolver) Step(q compute.Encodable, ctx query.QContext) error {
	h.hook()
	return h.s.Step(q, ctx)
}

func (h *preSolver) Values(vs []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	h.hook()
	return h.s.Values(vs, ctx)
}

// ---------- race detector pass ----------

// raceMain runs every pair of bodies freely in parallel; the binary is built
// with the race detector, which reports accesses to shared memory that are not
// ordered: without such accesses every interleaving is equivalent to the one
// observed. Every evaluation is also run against another one of its kind as
// the first thing a process does, when nothing has been set up yet.
func raceMain(cold int) {
	runtime.GOMAXPROCS(runtime.NumCPU())
	t := []*tree{
		{feat: 1, z: &tree{feat: 0, z: leafT, o: leafF}, o: leafF},
		{feat: 0, z: leafF, o: &tree{feat: 1, z: leafF, o: leafT}},
	}
	t3 := &tree{feat: 2, z: leafF, o: &tree{feat: 0, z: leafT, o: leafF}}
	bad := ""
	n := 0
	par := func(what string, fs ...func() string) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		ms := make([]string, len(fs))
		for i, f := range fs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				ms[i] = f()
			}()
		}
		close(start)
		wg.Wait()
		n++
		for _, m := range ms {
			if m != "" && bad == "" {
				bad = what + ": " + m
			}
		}
	}
	end := func() {
		if bad != "" {
			fmt.Println("WRONG", bad)
			os.Exit(5)
		}
		fmt.Println("RACE-PASS", n)
		os.Exit(0)
	}
	cb := [][]*body{bodiesBy(coldBody, 2, t[0], 0, 0), bodiesBy(coldBody, 2, t[1], 2, 1), bodiesBy(coldBody, 3, t3, 1, 1)}
	if cold >= 0 {
		if cold < len(cb[0]) {
			as := []*body{cb[0][cold], cb[1][cold], cb[2][cold], cb[0][cold]}
			res := make([]bodyRes, len(as))
			var fs []func() string
			for i, a := range as {
				fs = append(fs, func() string { res[i] = a.run(nil, i == 3); return "" })
			}
			par("", fs...)
			for i, a := range as {
				a.alone()
				if m := a.wrong(res[i]); m != "" && bad == "" {
					bad = a.name + " in parallel with others of its kind, first in the process: " + m
				}
			}
		} else {
			k := inst{Z, O}
			ps, os_ := propsOf(k), ordersOf(k, 2)
			i := cold - len(cb[0])
			fa, _ := optBody(2, t[0], ps[i%len(ps)], os_[i%len(os_)], "alt", true)
			fb, _ := optBody(2, t[1], ps[i%len(ps)], os_[i%len(os_)], "true", true)
			nop := func() {}
			par("optimum", func() string { return fa(nop) }, func() string { return fb(nop) })
		}
		end()
	}
	cold = len(cb[0]) + len(ordersOf(inst{Z, O}, 2))
	outs := make([]string, cold)
	var wg sync.WaitGroup
	slots := make(chan struct{}, runtime.NumCPU())
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- struct{}{}
			defer func() { <-slots }()
			self, _ := os.Executable()
			out, err := exec.Command(self, "race", strconv.Itoa(i)).CombinedOutput()
			if err != nil {
				outs[i] = string(out) + err.Error()
			}
		}()
	}
	wg.Wait()
	for _, o := range outs {
		if o != "" {
			fmt.Println(o)
			os.Exit(5)
		}
	}
	n += cold
	bs := [][]*body{bodiesOf(2, t[0], 0, 0), bodiesOf(2, t[1], 2, 1)}
	for i, a := range bs[0] {
		for k := 0; k < 2; k++ {
			for j, b := range bs[k] {
				shared := (i+j)%2 == 0 || i == j
				var ra, rb bodyRes
				par("", func() string { ra = a.run(nil, shared); return "" }, func() string { rb = b.run(nil, shared); return "" })
				if m := a.wrong(ra) + b.wrong(rb); m != "" && bad == "" {
					bad = a.name + " and " + b.name + " in parallel: " + m
				}
			}
		}
	}
	k := inst{Z, O}
	ps, os_ := propsOf(k), ordersOf(k, 2)
	for i := range ps {
		for j := range os_ {
			fa, _ := optBody(2, t[0], ps[i], os_[j], "alt", true)
			fb, _ := optBody(2, t[1], ps[(i+1)%len(ps)], os_[(j+3)%len(os_)], "true", true)
			nop := func() {}
			par("optimum", func() string { return fa(nop) }, func() string { return fb(nop) })
		}
	}
	dir, _ := os.MkdirTemp("", "mc-race-")
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	fks := []*fake{newFakeIn(filepath.Join(dir, "a")), newFakeIn(filepath.Join(dir, "b"))}
	fks[0].script(fakeStep{Solve: "false"})
	fks[1].script(fakeStep{Solve: "true"})
	for i := 0; i < 6; i++ {
		mk := func(z int, want inst) func() string {
			return func() string {
				ctx := valCtx(2, "x")
				var cs []cls
				for _, l := range litsOf(ctx, "x", want) {
					cs = append(cs, cls{l})
				}
				s := fks[z].solver()
				ok, err := compute.AndCombinator{compute.QDTFAtom{Query: rawQ{cnf.FromClauses(cs)}}}.Sat(ctx, s)
				if !ok || err != nil {
					return fmt.Sprint("parallel step: ", ok, err)
				}
				v, err := s.Values([]query.QVar{"x"}, ctx)
				if err != nil || !ieq(v[0].Val, want) {
					return fmt.Sprint("parallel values: ", v, err)
				}
				return ""
			}
		}
		par("steps", mk(0, inst{Z, O}), mk(1, inst{O, B}), mk(0, inst{B, B}), mk(1, inst{O, O}))
	}
	os.RemoveAll(dir)
	end()
}

// racePass runs the binary built with the race detector beside this one.
func racePass(tier string) (string, error) {
	self, _ := os.Executable()
	bin := filepath.Join(filepath.Dir(self), "mc-race")
	if _, err := os.Stat(bin); err != nil {
		return "", fmt.Errorf("the race detector binary is missing: %v", err)
	}
	cmd := exec.Command(bin, "race")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	s := out.String()
	switch {
	case strings.Contains(s, "DATA RACE"), strings.Contains(s, "panic: "), strings.Contains(s, "WRONG "), strings.Contains(s, "concurrent map"):
		if len(s) > 3000 {
			s = s[:3000]
		}
		return "VIOLATION in the free-running pass: " + s, nil
	case err == nil && strings.Contains(s, "RACE-PASS"):
		return strings.TrimSpace(s[strings.Index(s, "RACE-PASS"):]) + " parallel runs under the race detector", nil
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return "", fmt.Errorf("race detector pass: %v: %s", err, s)
}

func init() {
	register(&checkDef{id: "T01", level: "model_checking", rule: "States are pairs of positions at which two evaluations are stopped, transitions their context calls, solver calls or statements, traces the schedules run; one evaluation is one schedule of two evaluations (at most two preemptions, at context calls, at solver calls or before the statements of the code under test; or one interleaving of the phases of two solver steps), both of whose results are compared with those of the evaluation alone (or, when they differ textually, with the definition). Non-trivial: schedules with at least one preemption. extra: free-running pairs under the race detector.", fn: t01, extra: racePass})
}
