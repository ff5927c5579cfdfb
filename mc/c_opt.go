package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// chooser is a solver that, at every satisfiable step, can return every
// valuation of v: which one is a choice of the exploration.
type chooser struct {
	v      query.QVar
	prefix []int
	picks  []int // choices made
	opts   []int // number of options at each satisfiable step
	best   []int // instance returned at each satisfiable step
	cur    inst
	steps  int
	vals   int
	unsat  int // number of unsatisfiable answers
	after  int // calls after the first unsatisfiable answer
	max    int
	insts  []inst
	// faults: 1-based call indexes that fail
	failStep, failVals int
	stepErr, valsErr   error
	// prune: called before option 0 is taken beyond the prefix
	enter func(state int) bool
}

type pruned struct{}
type tooMany struct{ n int }

func (c *chooser) Step(q compute.Encodable, ctx query.QContext) error {
	c.steps++
	if c.unsat > 0 {
		c.after++
	}
	if c.steps > c.max {
		panic(tooMany{c.steps})
	}
	if c.steps == c.failStep {
		return c.stepErr
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	p := mkPinner(ctx, c.v, ctx.Dim())
	s := satOf(f, maxi(ctx.TopV(), f.TopV()))
	var can []int
	var as []int
	for i, v := range c.insts {
		as = p.pin(as[:0], v)
		if s.solve(as...) {
			can = append(can, i)
		}
	}
	if len(can) == 0 {
		if s.solve() {
			Failf("step %d is satisfiable, but not by an instance for %s", c.steps, c.v)
		}
		c.unsat++
		return compute.UnsatError
	}
	k := 0
	i := len(c.picks)
	if i < len(c.prefix) {
		k = c.prefix[i]
		if k >= len(can) {
			Failf("step %d: the satisfying instances differ between two identical runs", c.steps)
		}
	} else if c.enter != nil {
		st := -1
		if i > 0 {
			st = c.best[i-1]
		}
		if !c.enter(st) {
			panic(pruned{})
		}
	}
	c.picks = append(c.picks, k)
	c.opts = append(c.opts, len(can))
	c.best = append(c.best, can[k])
	c.cur = c.insts[can[k]]
	return nil
}

func (c *chooser) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	c.vals++
	if c.vals == c.failVals {
		if c.valsErr != nil {
			return nil, c.valsErr
		}
		return nil, errPlanted
	}
	var out []query.QConst
	for _, v := range vars {
		if v != c.v {
			return nil, fmt.Errorf("values of %q asked for", v)
		}
		out = append(out, query.QConst{Val: append(inst{}, c.cur...)})
	}
	return out, nil
}

// optV is the name of the variable that is optimised.
var optV query.QVar = "x"

type optRun struct {
	out   compute.OptOutput
	err   error
	c     *chooser
	loops bool
	cut   bool
}

// runOpt performs one computation with the given choices.
func runOpt(w *world, m model, p prop, o order, pre []int, setup func(*chooser) (compute.SVFormula, compute.VCOrder), dedupe map[int]bool) (res optRun) {
	c := &chooser{v: optV, prefix: pre, insts: w.insts, max: len(w.insts) + 3}
	fg, og := fgOf(p), ogOf(o)
	if setup != nil {
		f2, o2 := setup(c)
		if f2 != nil {
			fg = f2
		}
		if o2 != nil {
			og = o2
		}
	}
	if dedupe != nil {
		c.enter = func(st int) bool {
			if dedupe[st+1] {
				return false
			}
			dedupe[st+1] = true
			return true
		}
	}
	res.c = c
	defer func() {
		switch e := recover().(type) {
		case nil:
		case pruned:
			res.cut = true
		case tooMany:
			res.loops = true
		default:
			panic(e)
		}
	}()
	res.out, res.err = compute.ComputeOptim(fg, og, optV, query.BasicQContext(m), c)
	return
}

// exploreOpt runs every sequence of choices. With dedupe, the choices after a
// returned instance are explored once per instance.
func exploreOpt(r *Run, w *world, m model, p prop, o order, dedupe bool, limit int, each func(optRun)) {
	var seen map[int]bool
	if dedupe {
		seen = map[int]bool{}
	}
	base := hstr(hstr(hstr(hint(0, w.dim), w.t.String()), p.name), o.name)
	stack := [][]int{{}}
	n := 0
	for len(stack) > 0 {
		pre := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		res := runOpt(w, m, p, o, pre, nil, seen)
		n++
		r.C["traces_validated_against_impl"]++
		for _, b := range res.c.best {
			r.State(hint(base, b))
		}
		r.C["transitions"] += int64(res.c.steps)
		for i := len(pre); i < len(res.c.picks); i++ {
			for k := 1; k < res.c.opts[i]; k++ {
				stack = append(stack, append(append([]int{}, res.c.picks[:i]...), k))
			}
		}
		if res.cut {
			r.C["pruned_runs"]++
			continue
		}
		each(res)
		if limit > 0 && n >= limit {
			r.C["max_limited"]++
			return
		}
	}
}

// optSpace enumerates the computations of M05 and M06.
func optSpace(r *Run, f func(w *world, m model, p prop, o order, R *optRef, dedupe bool)) {
	th := r.Thorough()
	add := func(d int, t *tree, layout int, k inst, dedupe bool) {
		r.Case(func() string { return fmt.Sprintf("dim %d tree %s layout %d constant %s", d, t, layout, istr(k)) }, func() {
			w := newWorld(d, t)
			m := mkModel(d, t, layout)
			for _, p := range propsOf(k) {
				for _, o := range ordersOf(k, d) {
					f(w, m, p, o, mkOptRef(w, p, o), dedupe)
				}
			}
		})
	}
	for i, t := range allTrees(1) {
		for _, k := range allInst(1) {
			add(1, t, i%nLayouts, k, false)
		}
	}
	t2 := allTrees(2)
	for i, t := range t2 {
		for j, k := range allInst(2) {
			if th || (i+j)%3 == 0 {
				add(2, t, (i+j)%nLayouts, k, true)
			}
		}
	}
	// every sequence of choices, without merging
	for i, t := range t2 {
		if i%9 == 4 || th && i%3 == 1 {
			add(2, t, 0, allInst(2)[i%9], false)
		}
	}
	// other names for the variable
	for _, v := range []string{"y", "n", "v", "0", "12", "u_x", "w_x", "x x", "X", "\n", "%s", "é", strings.Repeat("long", 100), "Found", "x1"} {
		for _, i := range []int{11, 40, 66} {
			v, i := v, i
			r.Case(func() string { return fmt.Sprintf("variable called %q, tree %s", v, t2[i]) }, func() {
				optV = query.QVar(v)
				defer func() { optV = "x" }()
				w := newWorld(2, t2[i])
				m := mkModel(2, t2[i], i%nLayouts)
				for _, k := range []inst{{Z, O}, {B, O}, {B, B}} {
					for _, p := range propsOf(k) {
						for _, o := range ordersOf(k, 2) {
							f(w, m, p, o, mkOptRef(w, p, o), true)
						}
					}
				}
			})
		}
	}
	t3 := allTrees(3)
	step := 1370
	if th {
		step = 97
	}
	if r.Deep() {
		step = 11
	}
	for i := step / 2; i < len(t3); i += step {
		add(3, t3[i], i%nLayouts, allInst(3)[i%27], true)
	}
}

// walker is a solver that leads the computation through a list of instances:
// it answers a satisfiable step with the first one of the list, from the one
// after the last answer on, that satisfies the formula.
type walker struct {
	v     query.QVar
	list  []inst
	at    int // of the last answer
	steps int
	unsat int
	fail  int // 1-based call that fails
}

func (s *walker) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps > len(s.list)+5 {
		panic(tooMany{s.steps})
	}
	if s.steps == s.fail {
		return errPlanted
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	p := mkPinner(ctx, s.v, ctx.Dim())
	e := satOf(f, maxi(ctx.TopV(), f.TopV()))
	for k := 1; k <= len(s.list); k++ {
		if i := (s.at + k) % len(s.list); e.solve(p.pin(nil, s.list[i])...) {
			s.at = i
			return nil
		}
	}
	s.unsat++
	return compute.UnsatError
}

func (s *walker) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	if len(vars) != 1 || vars[0] != s.v {
		return nil, fmt.Errorf("values of %q asked for", vars)
	}
	return []query.QConst{{Val: append(inst{}, s.list[s.at]...)}}, nil
}

// lexQ: the full instance v is below c, both read as binary numbers.
type lexQ struct {
	v query.QVar
	c query.QConst
}

func (q lexQ) Encoding(ctx query.QContext) (cnfT, error) {
	v := ctx.ScopeVar(q.v)
	zero := func(i int) int { return ctx.CNFVar(v, i, int(query.ZERO)) }
	var out cnfT
	for i, f := range q.c.Val {
		// no one where c has its first difference from v
		if f == query.ONE {
			continue
		}
		c := cls{zero(i)}
		for j := 0; j < i; j++ {
			if q.c.Val[j] == query.ONE {
				c = append(c, zero(j))
			}
		}
		out = out.AppendSemantics(c)
	}
	c := cls{}
	for j, f := range q.c.Val {
		if f == query.ONE {
			c = append(c, zero(j))
		}
	}
	return out.AppendSemantics(c), nil
}

// longRuns: computations that take the longest way, with up to thousands of
// solver calls.
func longRuns(r *Run, check func(what string, s *walker, out compute.OptOutput, err error)) {
	one := func(name string, d int, list []inst, p prop, og compute.VCOrder, fails []int) {
		r.Case(func() string { return "long way: " + name }, func() {
			if fails == nil {
				fails = []int{0}
			}
			for _, fl := range fails {
				s := &walker{v: "x", list: list, at: len(list) - 1, fail: fl}
				var out compute.OptOutput
				var err error
				func() {
					defer func() {
						if e := recover(); e != nil {
							t, ok := e.(tooMany)
							if !ok {
								panic(e)
							}
							Failf("%s: no end after %d solver calls", name, t.n)
						}
					}()
					out, err = compute.ComputeOptim(fgOf(p), og, "x", query.BasicQContext(mkModel(d, leafT, 0)), s)
				}()
				r.C["transitions"] += int64(s.steps)
				r.C["traces_validated_against_impl"]++
				r.C["max_calls"] = max(r.C["max_calls"], int64(s.steps))
				r.Eval(true)
				check(name, s, out, err)
			}
		})
	}
	fails := func(n int) []int {
		if r.ID != "M07" {
			return nil
		}
		return []int{1, 2, n / 2, n - 1, n}
	}
	ds := []int{8, 11}
	if r.Deep() {
		ds = []int{8, 9, 10, 11, 12, 13}
	}
	for _, d := range ds {
		var list []inst
		for k := 1<<d - 1; k >= 0; k-- {
			v := make(inst, d)
			for i := range v {
				v[i] = Z
				if k>>(d-1-i)&1 == 1 {
					v[i] = O
				}
			}
			list = append(list, v)
		}
		one(fmt.Sprintf("binary numbers of %d digits", d), d, list, prop{"full", func(v string) *form { return atom(kFull, va(v)) }},
			func(v query.QVar, c query.QConst) compute.Encodable { return lexQ{v, c} }, fails(len(list)+1))
	}
	ds = []int{20, 66}
	if r.Deep() {
		ds = []int{20, 40, 66, 130}
	}
	for _, d := range ds {
		var up, down []inst
		for k := 0; k <= d; k++ {
			v := make(inst, d)
			for i := range v {
				if (i*7)%d < k || d%7 == 0 && i < k {
					v[i] = query.FeatV(1 + i%2)
				}
			}
			up = append(up, v)
		}
		for k := d; k >= 0; k-- {
			down = append(down, up[k])
		}
		for k, o := range ordersOf(up[d], d)[:4] {
			l := down
			if k%2 == 1 {
				l = up
			}
			one(fmt.Sprintf("%s in dimension %d", o.name, d), d, l, prop{"everything", func(v string) *form { return triv(true) }}, ogOf(o), fails(len(l)+1))
		}
	}
}

// binRuns: computations through solver processes of three preferences, the
// constants given to the order being those the solver returned.
func binRuns(r *Run, check func(desc func() string, R *optRef, calls int, out compute.OptOutput, err error)) {
	names := []query.QVar{"x", "n", "n", "_0", "u_x", "x\n"}
	one := func(d int, t *tree, i int, k inst) {
		r.Case(func() string {
			return fmt.Sprintf("through solver processes: dim %d tree %s constant %s", d, t, istr(k))
		}, func() {
			fk := newFake(r)
			m := mkModel(d, t, i%nLayouts)
			for pi, p := range propsOf(k) {
				for oi, o := range ordersOf(k, d) {
					R := mkOptRef(newWorld(d, t), p, o)
					v := names[(i+pi+oi)%len(names)]
					mode := []string{"false", "true", "alt"}[(i+pi+2*oi)%3]
					fk.script(fakeStep{Solve: mode})
					out, err := compute.ComputeOptim(fgOf(p), ogOf(o), v, query.BasicQContext(m), fk.solver())
					r.Eval(R.any())
					r.C["traces_validated_against_impl"]++
					check(func() string {
						return fmt.Sprintf("%s, %s, dim %d tree %s, variable %q, solver process prefers %s", p.name, o.name, d, t, v, mode)
					}, R, fk.calls(), out, err)
				}
			}
		})
	}
	t2 := allTrees(2)
	step := 9
	if r.Deep() {
		step = 2
	}
	for i := 4; i < len(t2); i += step {
		one(2, t2[i], i, allInst(2)[(i/step)%9])
	}
	t3 := allTrees(3)
	step = 700
	if r.Deep() {
		step = 151
	}
	for i := 300; i < len(t3); i += step {
		one(3, t3[i], i, allInst(3)[i%27])
	}
}

func m05(r *Run) {
	binRuns(r, func(desc func() string, R *optRef, calls int, out compute.OptOutput, err error) {
		checkOpt(desc, R, out, err)
	})
	longRuns(r, func(what string, s *walker, out compute.OptOutput, err error) {
		if err != nil || !out.Found || !ieq(out.Value.Val, s.list[len(s.list)-1]) {
			Failf("%s: found %v %s, error %v", what, out.Found, istr(out.Value.Val), err)
		}
	})
	optSpace(r, func(w *world, m model, p prop, o order, R *optRef, dedupe bool) {
		what := ""
		exploreOpt(r, w, m, p, o, dedupe, 0, func(x optRun) {
			r.Eval(R.any())
			desc := func() string {
				return fmt.Sprintf("%s, %s, dim %d tree %s, valuations %s", p.name, o.name, w.dim, w.t, picksStr(w, x.c))
			}
			if x.loops {
				Failf("%s: no end after %d solver calls", desc(), x.c.steps)
			}
			checkOpt(desc, R, x.out, x.err)
			if what == "" {
				what = desc()
			}
		})
		r.Sample(func() string { return what })
	})
}

func picksStr(w *world, c *chooser) string {
	s := ""
	for _, b := range c.best {
		s += istr(w.insts[b]) + " "
	}
	return s
}

func m06(r *Run) {
	binRuns(r, func(desc func() string, R *optRef, calls int, out compute.OptOutput, err error) {
		if err != nil {
			Failf("%s: unexpected error %v", desc(), err)
		}
		if out.Calls != calls {
			Failf("%s: reports %d calls and made %d", desc(), out.Calls, calls)
		}
		if calls > R.longest()+2 {
			Failf("%s: %d solver calls, the longest improving chain has %d steps", desc(), calls, R.longest())
		}
	})
	longRuns(r, func(what string, s *walker, out compute.OptOutput, err error) {
		if err != nil || out.Calls != s.steps || s.steps > len(s.list)+1 || s.unsat != 1 {
			Failf("%s: %d calls reported, %d made for %d instances, %d unsatisfiable answers, error %v", what, out.Calls, s.steps, len(s.list), s.unsat, err)
		}
	})
	optSpace(r, func(w *world, m model, p prop, o order, R *optRef, dedupe bool) {
		bound := R.longest() + 2
		exploreOpt(r, w, m, p, o, dedupe, 0, func(x optRun) {
			r.Eval(len(x.c.best) > 1)
			desc := func() string {
				return fmt.Sprintf("%s, %s, dim %d tree %s, valuations %s", p.name, o.name, w.dim, w.t, picksStr(w, x.c))
			}
			if x.loops {
				Failf("%s: no end after %d solver calls", desc(), x.c.steps)
			}
			if x.err != nil {
				Failf("%s: unexpected error %v", desc(), x.err)
			}
			if x.out.Calls != x.c.steps {
				Failf("%s: reports %d calls and made %d", desc(), x.out.Calls, x.c.steps)
			}
			if x.c.steps > bound {
				Failf("%s: %d solver calls, the longest improving chain has %d steps", desc(), x.c.steps, R.longest())
			}
			if x.c.unsat != 1 || x.c.after != 0 || x.c.steps != len(x.c.best)+1 {
				Failf("%s: %d solver calls, %d instances, %d unsatisfiable answers, %d calls after the first", desc(), x.c.steps, len(x.c.best), x.c.unsat, x.c.after)
			}
			r.C["max_calls"] = max(r.C["max_calls"], int64(x.c.steps))
			r.Sample(func() string { return desc() + fmt.Sprintf(": %d calls, at most %d", x.c.steps, bound) })
		})
	})
}

type countEnc struct {
	n   *int
	k   int
	in  compute.Encodable
	bad compute.Encodable
}

type errQ struct{ err error }

func (q errQ) Encoding(ctx query.QContext) (cnfT, error) { return cnfT{}, q.err }

func m07(r *Run) {
	longRuns(r, func(what string, s *walker, out compute.OptOutput, err error) {
		if s.steps != s.fail {
			Failf("%s: call %d of %d failed and %d calls were made", what, s.fail, len(s.list)+1, s.steps)
		}
		if err == nil || out.Found || errors.Is(err, compute.UnsatError) {
			Failf("%s: call %d failed; found %v, error %v", what, s.fail, out.Found, err)
		}
	})
	type fault struct {
		kind string
		k    int
	}
	th := r.Thorough()
	run := func(d int, t *tree, layout int, k inst, pi, oi int, dedupe bool) {
		w := newWorld(d, t)
		m := mkModel(d, t, layout)
		p, o := propsOf(k)[pi], ordersOf(k, d)[oi]
		done := map[string]bool{}
		exploreOpt(r, w, m, p, o, dedupe, 0, func(x optRun) {
			if x.loops || x.err != nil {
				return // M05's concern
			}
			n := x.c.steps
			var fs []fault
			for i := 1; i <= n; i++ {
				fs = append(fs, fault{"step", i}, fault{"crash", i}, fault{"fg", i})
				if i < n {
					fs = append(fs, fault{"values", i}, fault{"og", i}, fault{"ognil", i})
				}
			}
			for _, ft := range fs {
				// the choices after the failing point do not matter
				pre := x.c.picks
				if ft.k-1 < len(pre) {
					pre = pre[:ft.k-1]
					if ft.kind == "values" || ft.kind == "og" || ft.kind == "ognil" {
						pre = x.c.picks[:ft.k]
					}
				}
				key := fmt.Sprint(ft, pre)
				if done[key] {
					continue
				}
				done[key] = true
				res := runOpt(w, m, p, o, pre, func(c *chooser) (compute.SVFormula, compute.VCOrder) {
					cnt := 0
					switch ft.kind {
					case "step":
						c.failStep, c.stepErr = ft.k, errPlanted
					case "crash":
						c.failStep, c.stepErr = ft.k, errors.New("")
					case "values":
						c.failVals = ft.k
					case "fg":
						return func(v query.QVar) compute.Encodable {
							cnt++
							if cnt == ft.k {
								return errQ{errPlanted}
							}
							return p.f(string(v)).build()
						}, nil
					case "og", "ognil":
						return nil, func(v query.QVar, b query.QConst) compute.Encodable {
							cnt++
							if cnt == ft.k {
								if ft.kind == "ognil" {
									return nil
								}
								return errQ{errPlanted}
							}
							return o.f(string(v), append(inst{}, b.Val...)).build()
						}
					}
					return nil, nil
				}, nil)
				r.Eval(true)
				desc := func() string {
					return fmt.Sprintf("%s, %s, dim %d tree %s, valuations %s, failing: %s at call %d", p.name, o.name, d, t, picksStr(w, res.c), ft.kind, ft.k)
				}
				if res.loops {
					Failf("%s: no end after %d solver calls", desc(), res.c.steps)
				}
				if res.err == nil {
					Failf("%s: no error; Found=%v Value=%s", desc(), res.out.Found, istr(res.out.Value.Val))
				}
				if res.out.Found {
					Failf("%s: error %v and Found=true", desc(), res.err)
				}
				if errors.Is(res.err, compute.UnsatError) {
					Failf("%s: reported as unsatisfiable", desc())
				}
				r.Sample(func() string { return desc() + ": " + res.err.Error() })
			}
		})
	}
	// errors that read like an unsatisfiable step, of every origin
	for ti, t := range []*tree{allTrees(1)[3], allTrees(2)[40]} {
		for xi, text := range tellingTexts() {
			ti, t, text, xi := ti, t, text, xi
			r.Case(func() string { return fmt.Sprintf("errors reading %q, tree %s", text, t) }, func() {
				d := ti + 1
				w := newWorld(d, t)
				m := mkModel(d, t, 0)
				k := allInst(d)[1]
				for pi, p := range propsOf(k) {
					for oi, o := range ordersOf(k, d) {
						base := runOpt(w, m, p, o, nil, nil, nil)
						if base.err != nil || base.loops {
							return // M05's concern
						}
						n := base.c.steps
						for _, e := range []error{errors.New(text), fmt.Errorf("x: %w", errors.New(text)), textErr(text)} {
							for _, kind := range []string{"step", "values", "fg", "og"} {
								for at := 1; at <= n; at++ {
									if at == n && (kind == "values" || kind == "og") || d == 2 && !r.Deep() && (pi+oi+xi+at)%4 != 0 {
										continue
									}
									res := runOpt(w, m, p, o, nil, func(c *chooser) (compute.SVFormula, compute.VCOrder) {
										cnt := 0
										switch kind {
										case "step":
											c.failStep, c.stepErr = at, e
										case "values":
											c.failVals, c.valsErr = at, e
										case "fg":
											return func(v query.QVar) compute.Encodable {
												if cnt++; cnt == at {
													return errQ{e}
												}
												return p.f(string(v)).build()
											}, nil
										case "og":
											return nil, func(v query.QVar, b query.QConst) compute.Encodable {
												if cnt++; cnt == at {
													return errQ{e}
												}
												return o.f(string(v), append(inst{}, b.Val...)).build()
											}
										}
										return nil, nil
									}, nil)
									r.Eval(true)
									if res.loops || res.err == nil || res.out.Found || errors.Is(res.err, compute.UnsatError) {
										Failf("%s, %s, dim %d tree %s: %s fails at call %d with %q (%T): found %v, error %v", p.name, o.name, d, t, kind, at, text, e, res.out.Found, res.err)
									}
								}
							}
						}
					}
				}
			})
		}
	}
	t2 := allTrees(2)
	for d := 1; d <= 2; d++ {
		ts := allTrees(d)
		for i, t := range ts {
			for j, k := range allInst(d) {
				if d == 2 && (i+j)%9 != 0 && !(th && (i+j)%3 == 0) {
					continue
				}
				i, t, k, d := i, t, k, d
				r.Case(func() string { return fmt.Sprintf("dim %d tree %s constant %s", d, t, istr(k)) }, func() {
					for pi := range propsOf(k) {
						for oi := range ordersOf(k, d) {
							run(d, t, i%nLayouts, k, pi, oi, d == 2)
						}
					}
				})
			}
		}
	}
	for pi := 0; pi < 9; pi++ {
		pi := pi
		r.Case(func() string { return fmt.Sprintf("dim 2, all choices, property %d", pi) }, func() {
			for oi := 0; oi < 7; oi++ {
				run(2, t2[40], 0, inst{Z, O}, pi, oi, false)
			}
		})
	}
	// no temporary file can be created: with a solver that needs one there
	// must be an error, with one that does not the answer must at least be right
	for i, t := range t2 {
		if i%10 != 3 && !th {
			continue
		}
		t := t
		r.Case(func() string { return fmt.Sprintf("unusable temporary directory, tree %s", t) }, func() {
			fk := newFake(r)
			fk.script(fakeStep{Solve: "false"})
			bin := fk.solver()
			old := os.Getenv("TMPDIR")
			defer os.Setenv("TMPDIR", old)
			plain := filepath.Join(r.tmp, "plainfile")
			os.WriteFile(plain, nil, 0o644)
			for _, dir := range []string{filepath.Join(r.tmp, "missing"), plain} {
				os.Setenv("TMPDIR", dir)
				w := newWorld(2, t)
				m := mkModel(2, t, 0)
				for _, k := range allInst(2) {
					for _, p := range propsOf(k) {
						for _, o := range ordersOf(k, 2)[:2] {
							R := mkOptRef(w, p, o)
							desc := func() string { return fmt.Sprintf("TMPDIR=%s, %s, %s, tree %s", dir, p.name, o.name, t) }
							out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), bin)
							r.Eval(true)
							if err == nil || errors.Is(err, compute.UnsatError) {
								Failf("%s: no file can be created, result Found=%v error %v", desc(), out.Found, err)
							}
							if out.Found {
								Failf("%s: error %v and Found=true", desc(), err)
							}
							out, err = compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), &inproc{})
							r.Eval(true)
							if err == nil {
								checkOpt(desc, R, out, err)
							} else if out.Found {
								Failf("%s: error %v and Found=true", desc(), err)
							}
						}
					}
				}
			}
		})
	}
	// the solver process fails at each call
	for _, ti := range []int{11, 40, 66} {
		t := t2[ti]
		r.Case(func() string { return fmt.Sprintf("solver process failing, tree %s", t) }, func() {
			w := newWorld(2, t)
			m := mkModel(2, t, 0)
			fk := newFake(r)
			for _, k := range allInst(2)[:4] {
				for pi, p := range propsOf(k) {
					for oi, o := range ordersOf(k, 2)[:3] {
						if (pi+oi)%3 != ti%3 && !th {
							continue
						}
						ok := fakeStep{Solve: []string{"false", "true", "alt"}[(pi+oi)%3]}
						fk.script(ok)
						out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), fk.solver())
						if err != nil {
							return
						}
						n := out.Calls
						if n > 12 {
							n = 12
						}
						bads := []fakeStep{
							{Exit: 0, Stdout: "s SATISFIABLE\nv 1 0\n"}, {Exit: 1, Stderr: "x"}, {Exit: 30},
							{Signal: 9}, {Exit: 10, Stdout: "s SATISFIABLE\n"}, {Exit: 10, Stdout: "v 1 x\nv 0\n"},
							{Exit: 1, Stderr: compute.UnsatError.Error()}, {Exit: 2, Stderr: compute.UnsatError.Error() + ": no\n", Stdout: "s UNSATISFIABLE\n"},
						}
						for i := 0; i < n; i++ {
							for bi, b := range bads {
								var steps []fakeStep
								for j := 0; j < i; j++ {
									steps = append(steps, ok)
								}
								steps = append(steps, b, ok)
								fk.script(steps...)
								out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), fk.solver())
								r.Eval(true)
								desc := func() string {
									return fmt.Sprintf("%s, %s, tree %s, solver outcome %d at call %d", p.name, o.name, t, bi, i+1)
								}
								if err == nil || out.Found || errors.Is(err, compute.UnsatError) {
									Failf("%s: Found=%v value %s error %v", desc(), out.Found, istr(out.Value.Val), err)
								}
							}
						}
					}
				}
			}
			_ = w
		})
	}
}

func init() {
	register(&checkDef{id: "M05", level: "model_checking", rule: "Stateless exploration of the real optimisation loop (states: computation and current instance; transitions: solver calls; traces: runs): at every satisfiable solver call every satisfying instance is returned in turn (merged by current instance where said). One evaluation is one complete computation; its result is compared with the optimum by enumeration. Non-trivial: an instance with the property exists.", fn: m05})
	register(&checkDef{id: "M06", level: "model_checking", rule: "The same exploration as M05 with call counting. Non-trivial: at least one improvement.", fn: m06})
	register(&checkDef{id: "M07", level: "fault_enumeration", rule: "One evaluation is one computation with one failure (kind, call index) after one sequence of solver choices; all call indexes of all explored sequences. All are non-trivial.", fn: m07})
}
