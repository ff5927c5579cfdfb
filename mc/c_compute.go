package main

import (
	"errors"
	"fmt"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- in-process solver ----------

// inproc implements compute.Solver with the engine; phase selects which model
// is found first.
type inproc struct {
	phase string
	val   map[int]bool
	calls int
	hook  func(n int) error // called before each step, may fail it
}

func setPhase(s *satSolver, phase string) {
	for i := range s.phase {
		switch phase {
		case "true":
			s.phase[i] = 1
		case "alt":
			if i%2 == 0 {
				s.phase[i] = 1
			}
		}
	}
}

func (p *inproc) Step(q compute.Encodable, ctx query.QContext) error {
	p.calls++
	if p.hook != nil {
		if err := p.hook(p.calls); err != nil {
			return err
		}
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	n := maxi(ctx.TopV(), f.TopV())
	s := satOf(f, n)
	setPhase(s, p.phase)
	if !s.solve() {
		return compute.UnsatError
	}
	p.val = map[int]bool{}
	for i := 1; i <= n; i++ {
		p.val[i] = s.model(i)
	}
	return nil
}

func (p *inproc) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	var out []query.QConst
	for _, v := range vars {
		c := query.QConst{}
		for i := 0; i < ctx.Dim(); i++ {
			n := 0
			for _, x := range []query.FeatV{B, Z, O} {
				if p.val[ctx.CNFVar(ctx.ScopeVar(v), i, int(x))] {
					c.Val = append(c.Val, x)
					n++
				}
			}
			if n != 1 {
				return nil, fmt.Errorf("valuation gives feature %d of %s %d values", i, v, n)
			}
		}
		out = append(out, c)
	}
	return out, nil
}

// ---------- properties and orders ----------

type prop struct {
	name string
	f    func(v string) *form // over v, given k
}

type order struct {
	name string
	f    func(v string, c inst) *form // v strictly before c
}

func strict(a, b *form) *form { return and(a, not(b)) }

// srForm: v is a sufficient reason of c (as in the examples).
func srForm(v string, c inst) *form {
	return and(atom(kSub, va(v), ca(c)), and(
		or(not(atom(kAllT, ca(c))), atom(kAllT, va(v))),
		or(not(atom(kAllF, ca(c))), atom(kAllF, va(v)))))
}

func propsOf(k inst) []prop {
	return []prop{
		{"sufficient reason of " + istr(k), func(v string) *form { return srForm(v, k) }},
		{"redeclared sufficient reason of " + istr(k), func(v string) *form { return with(v, srForm(v, k)) }},
		{"feature set", func(v string) *form { return atom(kDFS, va(v)) }},
		{"node different from " + istr(k), func(v string) *form {
			return and(atom(kNode, va(v)), not(and(atom(kSub, va(v), ca(k)), atom(kSub, ca(k), va(v)))))
		}},
		{"counterfactual of " + istr(k), func(v string) *form {
			return and(atom(kFull, va(v)), and(or(not(atom(kAllT, ca(k))), atom(kAllF, va(v))), or(not(atom(kAllF, ca(k))), atom(kAllT, va(v)))))
		}},
		{"everything", func(v string) *form { return triv(true) }},
		{"nothing", func(v string) *form { return and(atom(kFull, va(v)), not(atom(kFull, va(v)))) }},
		{"below some positive instance", func(v string) *form {
			return with("w_"+v, and(atom(kSub, va(v), va("w_"+v)), and(atom(kFull, va("w_"+v)), atom(kAllT, va("w_"+v)))))
		}},
		{"consistent with every node above " + istr(k), func(v string) *form {
			return forall("n", or(not(atom(kSub, ga("n"), ca(k))), atom(kCons, va(v), ga("n"))))
		}},
	}
}

func ordersOf(k inst, dim int) []order {
	pr := seq(dim)
	rv := revs(dim)
	return []order{
		{"strict subsumption, minimal", func(v string, c inst) *form {
			return strict(atom(kSub, va(v), ca(c)), atom(kSub, ca(c), va(v)))
		}},
		{"strict subsumption, maximal", func(v string, c inst) *form {
			return strict(atom(kSub, ca(c), va(v)), atom(kSub, va(v), ca(c)))
		}},
		{"fewer defined features", func(v string, c inst) *form {
			return strict(atom(kLEL, va(v), ca(c)), atom(kLEL, ca(c), va(v)))
		}},
		{"more defined features", func(v string, c inst) *form {
			return strict(atom(kLEL, ca(c), va(v)), atom(kLEL, va(v), ca(c)))
		}},
		{"closer to a full instance", func(v string, c inst) *form {
			f := make(inst, dim)
			for i := range f {
				f[i] = k[i%len(k)]
				if f[i] == B {
					f[i] = O
				}
			}
			return strict(atom(kLEH, ca(f), va(v), ca(c)), atom(kLEH, ca(f), ca(c), va(v)))
		}},
		{"preferred features", func(v string, c inst) *form {
			return strict(heprA(pr, va(v), ca(c)), heprA(pr, ca(c), va(v)))
		}},
		{"preferred features, reversed", func(v string, c inst) *form {
			return strict(heprA(rv, ca(c), va(v)), heprA(rv, va(v), ca(c)))
		}},
		{"below a positive instance before not", func(v string, c inst) *form {
			u := "u_" + v
			return and(with(u, and(atom(kSub, va(v), va(u)), and(atom(kFull, va(u)), atom(kAllT, va(u))))), atom(kAllF, ca(c)))
		}},
		{"consistent with the nodes above " + istr(k) + " before not", func(v string, c inst) *form {
			return and(not(forall("n", or(not(atom(kSub, ga("n"), ca(k))), atom(kCons, ca(c), ga("n"))))),
				forall("n", or(not(atom(kSub, ga("n"), ca(k))), atom(kCons, va(v), ga("n")))))
		}},
	}
}

// optRef: the instances with the property, and the order among them.
type optRef struct {
	insts []inst
	has   []bool
	less  [][]bool // less[i][j]: i strictly before j
	chain []int    // length of the longest strictly improving chain starting at i
}

func mkOptRef(w *world, p prop, o order) *optRef {
	w = newWorld(w.dim, w.t)
	n := len(w.insts)
	R := &optRef{insts: w.insts, has: make([]bool, n), less: make([][]bool, n), chain: make([]int, n)}
	pf := p.f("x")
	for i, v := range w.insts {
		w.env["x"] = v
		// a redeclaration of the same variable is the same variable
		R.has[i], _ = w.can(pf)
	}
	for i, v := range w.insts {
		R.less[i] = make([]bool, n)
		if !R.has[i] {
			continue
		}
		w.env["x"] = v
		for j, u := range w.insts {
			R.less[i][j], _ = w.can(o.f("x", u))
		}
	}
	var rec func(j int) int
	done := make([]bool, n)
	rec = func(j int) int {
		if done[j] {
			return R.chain[j]
		}
		best := 0
		for i := range w.insts {
			if R.has[i] && R.less[i][j] {
				best = maxi(best, 1+rec(i))
			}
		}
		R.chain[j], done[j] = best, true
		return best
	}
	for j := range w.insts {
		rec(j)
	}
	return R
}

func (R *optRef) any() bool {
	for _, h := range R.has {
		if h {
			return true
		}
	}
	return false
}

func (R *optRef) longest() int {
	l := 0
	for i, h := range R.has {
		if h {
			l = maxi(l, R.chain[i])
		}
	}
	return l
}

// optimal says why v is not an optimum ("" if it is).
func (R *optRef) why(v inst) string {
	if len(v) == 0 || len(v) != len(R.insts[0]) {
		return fmt.Sprintf("the value %s has the wrong dimension", istr(v))
	}
	k := instIdx(v)
	if !R.has[k] {
		return istr(v) + " does not have the property"
	}
	for i := range R.insts {
		if R.has[i] && R.less[i][k] {
			return istr(R.insts[i]) + " has the property and precedes " + istr(v)
		}
	}
	return ""
}

func fgOf(p prop) compute.SVFormula {
	return func(v query.QVar) compute.Encodable { return p.f(string(v)).build() }
}

func ogOf(o order) compute.VCOrder {
	return func(v query.QVar, c query.QConst) compute.Encodable {
		val := append(inst{}, c.Val...)
		return named(o.f(string(v), val), val, c.ID).build()
	}
}

// named gives the constants made of val the ID of the constant it came from.
func named(f *form, val inst, id string) *form {
	if f == nil || id == "" || len(val) == 0 {
		return f
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i, a := range g.args {
		if !a.isVar && len(a.c.Val) > 0 && &a.c.Val[0] == &val[0] {
			g.args[i].c.ID = id
		}
	}
	g.a, g.b = named(f.a, val, id), named(f.b, val, id)
	return &g
}

// checkOpt checks a finished successful computation.
func checkOpt(what func() string, R *optRef, out compute.OptOutput, err error) {
	if err != nil {
		Failf("%s: unexpected error %v", what(), err)
	}
	if out.Found != R.any() {
		Failf("%s: Found=%v but an instance with the property exists: %v", what(), out.Found, R.any())
	}
	if out.Found {
		if y := R.why(out.Value.Val); y != "" {
			Failf("%s: returned %s: %s", what(), istr(out.Value.Val), y)
		}
	}
}

// ---------- K03 ----------

// failAfter encodes q and then fails, n-th time it is used.
type failAfter struct {
	q enc
	n *int
	k int
}

var errPlanted = errors.New("planted failure")

func (f failAfter) Encoding(ctx query.QContext) (c cnfT, err error) {
	*f.n++
	if *f.n >= f.k {
		return c, errPlanted
	}
	return f.q.Encoding(ctx)
}

type k03Op struct {
	name string
	run  func(what func() string, ctx query.QContext, s compute.Solver)
}

func k03Ops(r *Run, d int, t *tree) []k03Op {
	w := newWorld(d, t)
	ins := allInst(d)
	k := ins[len(ins)-2]
	full := make(inst, d)
	for i := range full {
		full[i] = query.FeatV(1 + i%2)
	}
	var ops []k03Op
	sat := func(name string, f *form, neg bool, outer []string) {
		// outer: variables declared outermost, whose values are read back
		wf := f
		for i := len(outer) - 1; i >= 0; i-- {
			wf = with(outer[i], wf)
		}
		want, _ := newWorld(d, t).can(wf)
		ops = append(ops, k03Op{name, func(what func() string, ctx query.QContext, s compute.Solver) {
			got, err := compute.QDTFAtom{Query: wf.build(), Negated: neg}.Sat(ctx, s)
			r.Eval(true)
			if err != nil || got != (want != neg) {
				Failf("%s: %s gives (%v, %v), by definition %v", what(), name, got, err, want != neg)
			}
			if want && len(outer) > 0 {
				var qs []query.QVar
				for _, o := range outer {
					qs = append(qs, query.QVar(o))
				}
				vs, err := s.Values(qs, ctx)
				if err != nil || len(vs) != len(outer) {
					Failf("%s: values after %s: %v %v", what(), name, vs, err)
				}
				ww := newWorld(d, t)
				for i, o := range outer {
					if len(vs[i].Val) != d {
						Failf("%s: value of %s after %s: %v", what(), o, name, vs[i])
					}
					ww.env[o] = vs[i].Val
				}
				if p, _ := ww.can(f); !p {
					Failf("%s: the values %v after %s do not satisfy it", what(), vs, name)
				}
			}
		}})
	}
	x, xy := []string{"x"}, []string{"x", "y"}
	sat("some full positive x above k", and(atom(kFull, va("x")), atom(kAllT, va("x"))), false, x)
	sat("x strictly below itself", and(atom(kLEL, va("x"), va("y")), and(atom(kSub, va("y"), va("x")), not(atom(kSub, va("x"), va("y"))))), false, xy)
	sat("node x not of class true, level of k", and(atom(kNode, va("x")), and(not(atom(kAllT, va("x"))), atom(kLEL, ca(k), va("x")))), true, x)
	sat("distance x,y", and(atom(kLEH, va("x"), ca(full), va("y")), and(not(atom(kLEH, va("x"), va("y"), ca(full))), heprA(seq(d), va("x"), va("y")))), false, xy)
	sat("every node has a full extension outside x", forall("g", with("y", and(atom(kSub, ga("g"), va("y")), and(atom(kFull, va("y")), or(not(atom(kLEL, va("y"), va("x"))), atom(kAllT, va("y"))))))), false, x)
	sat("x inside a guard", forall("g", with("x", and(atom(kSub, ga("g"), va("x")), not(atom(kNode, va("x")))))), true, nil)
	sat("unsatisfiable under a guard", forall("g", with("y", and(pinTo("y", ga("g")), and(atom(kFull, va("y")), not(atom(kFull, ga("g"))))))), false, nil)
	// failing ones
	fail := func(name string, mk func() enc) {
		ops = append(ops, k03Op{name, func(what func() string, ctx query.QContext, s compute.Solver) {
			got, err := compute.QDTFAtom{Query: mk(), Negated: true}.Sat(ctx, s)
			r.Eval(true)
			if err == nil {
				Failf("%s: the failing query %q gives %v and no error", what(), name, got)
			}
		}})
	}
	rawForm := func(q enc) *form { return &form{op: fRaw, raw: q} }
	fail("fails after declaring x", func() enc {
		n := 0
		return with("x", and(atom(kLEL, va("x"), ca(k)), rawForm(failAfter{triv(true).build(), &n, 1}))).build()
	})
	fail("fails inside two guards", func() enc {
		n := 0
		return forall("g", with("y", forall("h", with("x", and(atom(kSub, va("y"), va("x")), rawForm(failAfter{triv(true).build(), &n, 2})))))).build()
	})
	opt := func(p prop, o order) {
		R := mkOptRef(w, p, o)
		name := "optimum of " + p.name + ", " + o.name
		ops = append(ops, k03Op{name, func(what func() string, ctx query.QContext, s compute.Solver) {
			out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", ctx, s)
			r.Eval(true)
			checkOpt(func() string { return what() + ": " + name }, R, out, err)
		}})
	}
	ps, os := propsOf(k), ordersOf(k, d)
	opt(ps[0], os[0])
	opt(ps[7], os[2])
	ops = append(ops, k03Op{"failing optimum", func(what func() string, ctx query.QContext, s compute.Solver) {
		n := 0
		_, err := compute.ComputeOptim(fgOf(ps[2]), func(v query.QVar, c query.QConst) compute.Encodable {
			return failAfter{os[1].f(string(v), c.Val).build(), &n, 1}
		}, "x", ctx, s)
		r.Eval(true)
		if err == nil {
			Failf("%s: the failing optimum computation returns no error", what())
		}
	}})
	ops = append(ops, k03Op{"reset", func(what func() string, ctx query.QContext, s compute.Solver) { ctx.Reset() }})
	return ops
}

func k03(r *Run) {
	th := r.Thorough()
	type sc struct {
		d int
		t *tree
	}
	t2 := allTrees(2)
	scs := []sc{{1, allTrees(1)[3]}, {2, t2[40]}, {2, t2[11]}}
	if th {
		scs = append(scs, sc{2, t2[66]}, sc{3, allTrees(3)[4321]})
	}
	for si, s := range scs {
		ops := k03Ops(r, s.d, s.t)
		depth := 4
		if th && si == 0 {
			depth = 5
		}
		if s.d == 3 {
			depth = 3
		}
		for a := range ops {
			for b := range ops {
				a, b, s, si := a, b, s, si
				r.Case(func() string {
					return fmt.Sprintf("dim %d tree %s: histories starting with [%s] [%s]", s.d, s.t, ops[a].name, ops[b].name)
				}, func() {
					ops := k03Ops(r, s.d, s.t)
					var rec func(h []int)
					rec = func(h []int) {
						if len(h) == depth {
							ctx := query.BasicQContext(mkModel(s.d, s.t, si%nLayouts))
							sv := &inproc{phase: []string{"false", "true", "alt"}[(h[0]+h[len(h)-1])%3]}
							var done []string
							what := func() string {
								return fmt.Sprintf("dim %d tree %s after %v", s.d, s.t, done)
							}
							st := hint(hstr(0, s.t.String()), s.d)
							for _, k := range h {
								ops[k].run(what, ctx, sv)
								done = append(done, ops[k].name)
								r.C["transitions"]++
								st = hint(st, k)
								r.State(st)
							}
							r.C["traces_validated_against_impl"]++
							r.Sample(func() string { return what() })
							return
						}
						for k := range ops {
							rec(append(h, k))
						}
					}
					rec([]int{a, b})
				})
			}
		}
	}
	// long histories
	for a := range k03Ops(r, 2, t2[40]) {
		for b := range k03Ops(r, 2, t2[40]) {
			a, b := a, b
			r.Case(func() string { return fmt.Sprintf("long history %d %d", a, b) }, func() {
				ops := k03Ops(r, 2, t2[40])
				ctx := query.BasicQContext(mkModel(2, t2[40], 0))
				sv := &inproc{phase: "alt"}
				n := 140
				if r.Deep() {
					n = 700
				}
				var i int
				what := func() string { return fmt.Sprintf("step %d of the history by %d and %d", i, a, b) }
				for i = 0; i < n; i++ {
					k := (a + i*(b+1) + i/len(ops)) % len(ops)
					if ops[k].name == "reset" && i%3 > 0 {
						continue
					}
					ops[k].run(what, ctx, sv)
					r.C["transitions"]++
				}
				r.C["traces_validated_against_impl"]++
			})
		}
	}
	k03Pairs(r)
	// through the binary interface: pairs
	ops := k03Ops(r, 2, t2[40])
	for a := range ops {
		a := a
		r.Case(func() string { return "through a solver binary: histories starting with " + ops[a].name }, func() {
			for b := range ops {
				fk := newFake(r)
				fk.script(fakeStep{Solve: []string{"false", "true", "alt"}[(a+b)%3]})
				ctx := query.BasicQContext(mkModel(2, t2[40], 0))
				s := fk.solver()
				what := func() string { return fmt.Sprintf("binary, [%s] [%s] [%s]", ops[a].name, ops[b].name, ops[a].name) }
				for _, k := range []int{a, b, a} {
					ops[k].run(what, ctx, s)
					r.C["transitions"]++
				}
				r.C["traces_validated_against_impl"]++
			}
		})
	}
}

// k03Pairs: every component after every other one, and after itself, in one
// context that is not reset: first a query with both that fails, then three
// that succeed.
func k03Pairs(r *Run) {
	xy := []string{"x", "y"}
	for d := 1; d <= 2; d++ {
		ts := allTrees(d)
		t := ts[len(ts)/2]
		w := newWorld(d, t)
		cs := [][]inst{w.insts, w.insts, w.insts}
		if d == 2 {
			cs = [][]inst{{{B, B}, {O, B}, {Z, O}}, {{Z, O}, {O, O}}, {{Z, B}, {B, O}}}
		}
		var pool []*form
		for _, k := range []string{kNode, kAllT, kAllF, kDFS, kFull} {
			pool = append(pool, atomsOver(k, xy, nil, nil)...)
		}
		pool = append(pool, atomsOver(kSub, xy, nil, nil)...)
		pool = append(pool, atomsOver(kCons, xy, nil, nil)...)
		pool = append(pool, atomsOver(kLEL, xy, cs[0], nil)...)
		pool = append(pool, atomsOver(kLEH, xy, cs[1], nil)...)
		for _, p := range allPrefs(d, d) {
			if len(p) > 0 {
				pool = append(pool, atomsOver(kHEPR, xy, cs[2], p)...)
			}
		}
		pool = append(pool,
			forall("g", atom(kSub, ga("g"), va("x"))),
			forall("g", with("z", and(atom(kSub, ga("g"), va("z")), atom(kLEL, va("z"), va("y"))))),
			with("z", and(atom(kFull, va("z")), atom(kNode, va("x")))))
		m := mkModel(d, t, d)
		for _, a := range pool {
			for sh := 0; sh < 4; sh++ {
				a, sh := a, sh
				r.Case(func() string {
					return fmt.Sprintf("dim %d tree %s: one context, %s with partners %d/4", d, t, a, sh)
				}, func() {
					for i := sh; i < len(pool); i += 4 {
						b := pool[i]
						ctx := r.ctxOf(m)
						n := 0
						ff := with("x", with("y", and(a, &form{op: fRaw, raw: failAfter{b.build(), &n, 1}})))
						if _, err := ff.build().Encoding(ctx); err == nil {
							Failf("%s with a failing part on %s gives no error", ff, t)
						}
						done := fmt.Sprintf(" after [%s, failing]", a)
						fs := []*form{b, not(a), and(a, not(b))}
						if hasOp(a, fWith) && hasOp(b, fWith) {
							fs = fs[:2] // one variable in two parts
						}
						for _, f := range fs {
							r.checkFormIn(ctx, w, with("x", with("y", f)), f, xy, w.insts, done)
							done += fmt.Sprintf(" [%s]", f)
							r.C["transitions"]++
						}
						r.C["traces_validated_against_impl"]++
					}
				})
			}
		}
	}
}

func init() {
	register(&checkDef{id: "K03", level: "model_checking", rule: "States are histories of evaluations (satisfiable, unsatisfiable, failing, guarded, optimum, reset) on one context and solver; every history of the full depth is run and each answer, with the values read back, compared with brute force. One evaluation is one answer.", fn: k03})
}
