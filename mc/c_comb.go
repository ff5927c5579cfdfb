package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- M04 ----------

// cnode is a combinator tree; ans of a leaf: 'T', 'F' (satisfiable or not),
// 'W' (unsatisfiable, error wraps the sentinel), 'E' (error).
type cnode struct {
	op   byte // 'a', 'o', or 0 for an atom
	ans  byte
	neg  bool
	kids []*cnode
}

func (c *cnode) String() string {
	if c.op == 0 {
		if c.neg {
			return "!" + string(c.ans)
		}
		return string(c.ans)
	}
	var s []string
	for _, k := range c.kids {
		s = append(s, k.String())
	}
	return map[byte]string{'a': "And", 'o': "Or"}[c.op] + "[" + strings.Join(s, " ") + "]"
}

type stubQ struct {
	id  int
	ans byte
	err error
}

func (q *stubQ) Encoding(ctx query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

type stubSolver struct{ calls []int }

func (s *stubSolver) Step(q compute.Encodable, ctx query.QContext) error {
	x := q.(*stubQ)
	s.calls = append(s.calls, x.id)
	switch x.ans {
	case 'T':
		return nil
	case 'F':
		return compute.UnsatError
	case 'W':
		return fmt.Errorf("wrapped: %w", compute.UnsatError)
	}
	return x.err
}

func (s *stubSolver) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return nil, nil
}

// build numbers the atoms in order.
func (c *cnode) build(n *int, errs *[]error) compute.QDTFCombinator {
	if c.op == 0 {
		e := fmt.Errorf("failure of atom %d", *n)
		*errs = append(*errs, e)
		q := &stubQ{id: *n, ans: c.ans, err: e}
		*n++
		return compute.QDTFAtom{Query: q, Negated: c.neg}
	}
	var ks []compute.QDTFCombinator
	for _, k := range c.kids {
		ks = append(ks, k.build(n, errs))
	}
	if c.op == 'a' {
		return compute.AndCombinator(ks)
	}
	return compute.OrCombinator(ks)
}

// ref returns the outcome ('T','F','E') and the failing atom; need collects the
// atoms a left-to-right evaluation cannot do without. n is the number of the
// next atom.
func (c *cnode) ref(n *int, live bool, need map[int]bool) (out byte, failing int) {
	if c.op == 0 {
		id := *n
		*n++
		if live {
			need[id] = true
		}
		switch {
		case c.ans == 'E':
			return 'E', id
		case (c.ans == 'T') != c.neg:
			return 'T', -1
		}
		return 'F', -1
	}
	stop := byte('F')
	out = 'T'
	if c.op == 'o' {
		stop, out = 'T', 'F'
	}
	failing = -1
	for _, k := range c.kids {
		o, f := k.ref(n, live, need)
		if !live {
			continue
		}
		if o == 'E' {
			out, failing, live = 'E', f, false
		} else if o == stop {
			out, live = stop, false
		}
	}
	return out, failing
}

// callQ is a query without identity, callSolver answers by the number of the
// call.
type callQ struct{ x int }

func (q *callQ) Encoding(ctx query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

type callSolver struct {
	ans []byte
	n   int
}

func (s *callSolver) Step(q compute.Encodable, ctx query.QContext) error {
	if s.n++; s.n > len(s.ans) {
		Failf("%d solver calls for %d atoms", s.n, len(s.ans))
	}
	return (&stubSolver{}).Step(&stubQ{ans: s.ans[s.n-1], err: errPlanted}, ctx)
}

func (s *callSolver) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return nil, nil
}

// errors of odd types
type (
	textErr   string
	emptyErr  struct{}
	nilErr    struct{}
	isNothing struct{}
)

func (e textErr) Error() string        { return string(e) }
func (emptyErr) Error() string         { return "" }
func (*nilErr) Error() string          { return compute.UnsatError.Error() }
func (isNothing) Error() string        { return "planted" }
func (isNothing) Is(target error) bool { return false }

func m04(r *Run) {
	ctx := query.BasicQContext(mkModel(1, leafT, 0))
	check := func(c *cnode) {
		var errs []error
		n := 0
		q := c.build(&n, &errs)
		n = 0
		need := map[int]bool{}
		want, failing := c.ref(&n, true, need)
		s := &stubSolver{}
		got, err := q.Sat(ctx, s)
		r.Eval(n > 1)
		switch want {
		case 'E':
			if err == nil {
				Failf("%s: answers %v although atom %d fails before the outcome is decided", c, got, failing)
			}
			if !errors.Is(err, errs[failing]) {
				Failf("%s: error %v instead of that of atom %d", c, err, failing)
			}
		default:
			if err != nil {
				Failf("%s: error %v, want %c", c, err, want)
			}
			if got != (want == 'T') {
				Failf("%s: answers %v, want %c", c, got, want)
			}
		}
		for i, id := range s.calls {
			if i > 0 && id <= s.calls[i-1] {
				Failf("%s: solver calls for atoms %v: not in order, once each", c, s.calls)
			}
			delete(need, id)
		}
		if len(need) > 0 {
			Failf("%s: only atoms %v were evaluated, which does not decide the outcome", c, s.calls)
		}
		r.C["max_atoms"] = max(r.C["max_atoms"], int64(n))
		r.Sample(func() string { return fmt.Sprintf("%s -> %c", c, want) })
	}
	lists := func(pool []*cnode, k int) [][]*cnode {
		out := [][]*cnode{{}}
		last := out
		for i := 0; i < k; i++ {
			var next [][]*cnode
			for _, l := range last {
				for _, p := range pool {
					next = append(next, append(append([]*cnode{}, l...), p))
				}
			}
			out = append(out, next...)
			last = next
		}
		return out
	}
	comb := func(ls [][]*cnode) []*cnode {
		var out []*cnode
		for _, l := range ls {
			out = append(out, &cnode{op: 'a', kids: l}, &cnode{op: 'o', kids: l})
		}
		return out
	}
	var leaves []*cnode
	for _, a := range []byte{'T', 'F', 'W', 'E'} {
		for _, n := range []bool{false, true} {
			leaves = append(leaves, &cnode{ans: a, neg: n})
		}
	}
	three := []*cnode{{ans: 'T'}, {ans: 'F'}, {ans: 'T', neg: true}, {ans: 'E'}}
	run := func(name string, cs []*cnode) {
		const chunk = 4000
		for i := 0; i < len(cs); i += chunk {
			i := i
			r.Case(func() string { return fmt.Sprintf("%s: %d.. (%s)", name, i, cs[i]) }, func() {
				for _, c := range cs[i:min(i+chunk, len(cs))] {
					check(c)
				}
			})
		}
	}
	run("atoms", leaves)
	d1 := comb(lists(leaves, 4))
	run("depth 1", d1)
	p2 := append(append([]*cnode{}, leaves...), comb(lists(leaves, 2))...)
	run("depth 2, two elements", comb(lists(p2, 2)))
	p3 := append(append([]*cnode{}, three...), comb(lists(three, 2))...)
	run("depth 2, three elements", comb(lists(p3, 3)))
	// depth 3, two elements, over atoms T, F, E
	tfe := three[:2]
	tfe = append(append([]*cnode{}, tfe...), three[3])
	q1 := append(append([]*cnode{}, tfe...), comb(lists(tfe, 2))...)
	q2 := comb(lists(q1, 2))
	for i, a := range q2 {
		i, a := i, a
		if !r.Thorough() && i%6 != 0 {
			continue
		}
		r.Case(func() string { return fmt.Sprintf("depth 3 starting with %s", a) }, func() {
			for _, b := range q2 {
				check(&cnode{op: 'a', kids: []*cnode{a, b}})
				check(&cnode{op: 'o', kids: []*cnode{a, b}})
			}
			for _, b := range q1 {
				check(&cnode{op: 'a', kids: []*cnode{b, a, b}})
				check(&cnode{op: 'o', kids: []*cnode{b, a, b}})
			}
		})
	}
	// long lists and deep nests
	r.Case(func() string { return "long lists and deep nests" }, func() {
		for n := 1; n <= 40; n++ {
			for at := 0; at < n; at++ {
				for _, op := range []byte{'a', 'o'} {
					for _, special := range leaves {
						neutral := &cnode{ans: 'T'}
						if op == 'o' {
							neutral = &cnode{ans: 'F'}
						}
						kids := make([]*cnode, n)
						for i := range kids {
							kids[i] = neutral
						}
						kids[at] = special
						check(&cnode{op: op, kids: kids})
					}
				}
			}
		}
		for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 65537} {
			for _, at := range []int{0, 1, 62, 63, 64, 127, 128, 255, 256, 999, 65535, 65536} {
				if at >= n {
					continue
				}
				for _, op := range []byte{'a', 'o'} {
					for _, special := range leaves {
						neutral := &cnode{ans: 'T'}
						if op == 'o' {
							neutral = &cnode{ans: 'F'}
						}
						kids := make([]*cnode, n)
						for i := range kids {
							kids[i] = neutral
						}
						kids[at] = special
						check(&cnode{op: op, kids: kids})
					}
				}
			}
		}
		for pat := 0; pat < 64; pat++ {
			for _, l := range leaves {
				c := l
				for d := 0; d < 300; d++ {
					if d > 12 && d%31 > 1 {
						continue
					}
					op := byte('a')
					if pat>>(d%6)&1 == 1 {
						op = 'o'
					}
					c = &cnode{op: op, kids: []*cnode{c}}
					check(c)
				}
			}
		}
	})
	// equal elements: the same query as an element of its own, several times
	equal := func(lists [][]int, depth int) {
		for _, l := range lists {
			for _, op := range []byte{'a', 'o'} {
				for neg := 0; neg < 4; neg++ {
					// atoms share their queries; the outcome is by call
					qs := []*callQ{{1}, {1}}
					if neg >= 2 {
						qs[1] = qs[0]
					}
					n := len(l)
					ans := make([]int, n)
					for {
						var ks []compute.QDTFCombinator
						ref := &cnode{op: op}
						for i, k := range l {
							a := compute.QDTFAtom{Query: qs[k], Negated: neg&1 == 1}
							leaf := &cnode{ans: "TFWE"[ans[i]], neg: neg&1 == 1}
							var c compute.QDTFCombinator = a
							for d := 0; d < depth; d++ {
								if (d+int(op))%2 == 0 {
									c = compute.AndCombinator{c}
								} else {
									c = compute.OrCombinator{c}
								}
							}
							ks = append(ks, c)
							ref.kids = append(ref.kids, leaf)
						}
						var q compute.QDTFCombinator = compute.AndCombinator(ks)
						if op == 'o' {
							q = compute.OrCombinator(ks)
						}
						k := 0
						need := map[int]bool{}
						want, _ := ref.ref(&k, true, need)
						s := &callSolver{}
						for _, a := range ans {
							s.ans = append(s.ans, "TFWE"[a])
						}
						got, err := q.Sat(ctx, s)
						r.Eval(true)
						what := fmt.Sprintf("%s with shared queries %v (depth %d)", ref, l, depth)
						if s.n != len(need) {
							Failf("%s: %d solver calls, want %d", what, s.n, len(need))
						}
						if (err != nil) != (want == 'E') || err == nil && got != (want == 'T') {
							Failf("%s: answers %v (%v), want %c", what, got, err, want)
						}
						if !inc(ans, 4) {
							break
						}
					}
				}
			}
		}
	}
	for n := 1; n <= 4; n++ {
		for depth := 0; depth <= 2; depth++ {
			n, depth := n, depth
			r.Case(func() string { return fmt.Sprintf("%d equal elements, depth %d", n, depth) }, func() {
				l := make([]int, n)
				for {
					equal([][]int{l}, depth)
					if !inc(l, 2) {
						break
					}
				}
			})
		}
	}
	// errors that read like answers
	r.Case(func() string { return "errors that read like answers" }, func() {
		var errs []error
		for _, t := range tellingTexts() {
			errs = append(errs, errors.New(t), fmt.Errorf("%s", t), fmt.Errorf("solver: %w", errors.New(t)), textErr(t))
		}
		errs = append(errs, emptyErr{}, (*nilErr)(nil), errors.Join(errors.New("a"), errors.New("b")), isNothing{})
		for _, e := range errs {
			for mask := 0; mask < 4; mask++ {
				for pos := 0; pos < 3; pos++ {
					for _, op := range []byte{'a', 'o'} {
						var ks []compute.QDTFCombinator
						for i := 0; i < 3; i++ {
							q := &stubQ{id: i, ans: 'T'}
							if op == 'o' {
								q.ans = 'F'
							}
							neg := false
							if i == pos {
								q.ans, q.err, neg = 'E', e, mask&1 == 1
							}
							var c compute.QDTFCombinator = compute.QDTFAtom{Query: q, Negated: neg}
							if mask&2 == 2 {
								c = compute.OrCombinator{compute.AndCombinator{c}}
							}
							ks = append(ks, c)
						}
						var q compute.QDTFCombinator = compute.AndCombinator(ks)
						if op == 'o' {
							q = compute.OrCombinator(ks)
						}
						s := &stubSolver{}
						got, err := q.Sat(ctx, s)
						r.Eval(true)
						if err == nil {
							Failf("element %d of three in %c (variant %d) fails with %q (%T); the answer is %v and no error", pos+1, op, mask, e, e, got)
						}
						if errors.Is(err, compute.UnsatError) {
							Failf("element %d of three in %c (variant %d) fails with %q (%T); the error says unsatisfiable", pos+1, op, mask, e, e)
						}
						if len(s.calls) != pos+1 {
							Failf("element %d of three in %c (variant %d) fails with %q: %d solver calls", pos+1, op, mask, e, len(s.calls))
						}
					}
				}
			}
		}
	})
	// the atom's query is the one evaluated, in the given context: real queries
	for ti, t := range allTrees(2) {
		if ti%6 != 1 && !r.Thorough() {
			continue
		}
		t := t
		ti := ti
		r.Case(func() string { return fmt.Sprintf("real queries on tree %s", t) }, func() {
			m := mkModel(2, t, ti%nLayouts)
			k := allInst(2)[ti%9]
			ps := propsOf(k)
			for i, p := range ps {
				for j, q := range ps {
					w1, _ := newWorld(2, t).can(with("x", p.f("x")))
					w2, _ := newWorld(2, t).can(with("y", q.f("y")))
					for mask := 0; mask < 4; mask++ {
						n1, n2 := mask&1 == 1, mask&2 == 2
						a := compute.QDTFAtom{Query: with("x", p.f("x")).build(), Negated: n1}
						b := compute.QDTFAtom{Query: with("y", q.f("y")).build(), Negated: n2}
						v1, v2 := w1 != n1, w2 != n2
						sv := &inproc{}
						ctx := query.BasicQContext(m)
						x, e1 := compute.AndCombinator{a, b}.Sat(ctx, sv)
						y, e2 := compute.OrCombinator{a, b}.Sat(ctx, sv)
						r.Eval(true)
						if e1 != nil || e2 != nil || x != (v1 && v2) || y != (v1 || v2) {
							Failf("tree %s, properties %d,%d negated %v,%v: and=%v or=%v (%v %v), atoms are %v %v", t, i, j, n1, n2, x, y, e1, e2, v1, v2)
						}
					}
				}
			}
		})
	}
}

// ---------- M08 ----------

func m08(r *Run) {
	th := r.Thorough()
	modes := []string{"false", "true", "alt"}
	run := func(d int, t *tree, layout int, ks []inst, ti int) {
		r.Case(func() string { return fmt.Sprintf("dim %d tree %s layout %d, constants %v", d, t, layout, istrs(ks)) }, func() {
			fk := newFake(r)
			m := mkModel(d, t, layout)
			for ki, k := range ks {
				mode := modes[(ti+ki)%3]
				fk.script(fakeStep{Solve: mode})
				s := fk.solver()
				fresh := func() query.QContext { return query.BasicQContext(m) }
				what := func(q string) func() string {
					return func() string {
						return fmt.Sprintf("%s, k=%s, dim %d tree %s, solver prefers %s", q, istr(k), d, t, mode)
					}
				}
				atomCheck := func(name string, f *form, outer []string, neg bool) {
					whole := f
					for i := len(outer) - 1; i >= 0; i-- {
						whole = with(outer[i], whole)
					}
					want, _ := newWorld(d, t).can(whole)
					ctx := fresh()
					got, err := compute.QDTFAtom{Query: whole.build(), Negated: neg}.Sat(ctx, s)
					r.Eval(true)
					if err != nil || got != (want != neg) {
						Failf("%s: answers %v (%v), by enumeration %v", what(name)(), got, err, want != neg)
					}
					if want && len(outer) > 0 {
						var qs []query.QVar
						for _, o := range outer {
							qs = append(qs, query.QVar(o))
						}
						vs, err := s.Values(qs, ctx)
						if err != nil || len(vs) != len(qs) {
							Failf("%s: values %v (%v)", what(name)(), vs, err)
						}
						w := newWorld(d, t)
						for i, o := range outer {
							if len(vs[i].Val) != d {
								Failf("%s: value %v", what(name)(), vs[i])
							}
							w.env[o] = vs[i].Val
						}
						if p, _ := w.can(f); !p {
							Failf("%s: the retrieved %v does not satisfy the query", what(name)(), vs)
						}
					}
				}
				X, Y, K := va("x"), va("y"), ca(k)
				x := []string{"x"}
				atomCheck("some positive completion", and(atom(kSub, K, X), and(atom(kFull, X), atom(kAllT, X))), x, false)
				atomCheck("all completions positive", and(atom(kSub, K, X), and(atom(kFull, X), atom(kAllF, X))), x, true)
				// the evaluation example
				atomCheck("k is a smallest feature set", or(not(atom(kDFS, K)), with("y", and(atom(kDFS, Y), and(atom(kLEL, Y, K), not(atom(kLEL, K, Y)))))), nil, true)
				atomCheck("some node strictly between k and a positive instance", and(atom(kNode, X), and(strict(atom(kSub, K, X), atom(kSub, X, K)), and(atom(kSub, X, Y), and(atom(kFull, Y), atom(kAllT, Y))))), []string{"x", "y"}, false)
				atomCheck("every node consistent with k has a positive full extension", forall("n", or(not(atom(kCons, ga("n"), K)), with("y", and(atom(kSub, ga("n"), va("y")), and(atom(kFull, va("y")), atom(kAllT, va("y"))))))), nil, false)
				optN := func(v query.QVar, pi, oi int) {
					p, o := propsOf(k)[pi], ordersOf(k, d)[oi]
					R := mkOptRef(newWorld(d, t), p, o)
					out, err := compute.ComputeOptim(fgOf(p), ogOf(o), v, fresh(), s)
					r.Eval(true)
					checkOpt(what("optimum of "+p.name+", "+o.name), R, out, err)
				}
				opt := func(pi, oi int) { optN("x", pi, oi) }
				opt(1, 0) // the computation example
				opt(0, 2)
				// the variable is called like the guard of the order
				optN("n", 2+ki%3, 8)
				opt(4, 4) // nearest counterfactual
				opt(2, 5+ki%2)
				r.Sample(func() string { return what("ten queries")() })
			}
		})
	}
	for d := 1; d <= 2; d++ {
		for i, t := range allTrees(d) {
			for l := 0; l < nLayouts; l++ {
				if !th && l != i%nLayouts {
					continue
				}
				run(d, t, l, allInst(d), i)
			}
		}
	}
	t3 := allTrees(3)
	step := 173
	if th {
		step = 19
	}
	for i := 1; i < len(t3); i += step {
		a := allInst(3)
		run(3, t3[i], i%nLayouts, []inst{a[i%27], a[(i*7+5)%27], a[(i*11+13)%27]}, i)
	}
	// the two worked examples
	r.Case(func() string { return "the examples" }, func() {
		L := func(b bool) *tree { return &tree{leaf: true, val: b} }
		N := func(f int, z, o *tree) *tree { return &tree{feat: f, z: z, o: o} }
		comp := N(0, N(1, N(2, L(true), L(true)), L(true)), N(2, L(false), N(1, L(true), L(false))))
		eval := N(0, N(1, N(2, L(false), L(false)), N(2, L(true), L(true))), N(2, N(1, L(false), L(true)), N(1, L(false), L(true))))
		fk := newFake(r)
		for _, mode := range modes {
			fk.script(fakeStep{Solve: mode})
			s := fk.solver()
			for _, k := range allInst(3) {
				p, o := propsOf(k)[1], ordersOf(k, 3)[0]
				out, err := compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(mkModel(3, comp, 0)), s)
				r.Eval(true)
				checkOpt(func() string { return "computation example for " + istr(k) }, mkOptRef(newWorld(3, comp), p, o), out, err)
				q := or(not(atom(kDFS, ca(k))), with("y", and(atom(kDFS, va("y")), and(atom(kLEL, va("y"), ca(k)), not(atom(kLEL, ca(k), va("y")))))))
				want, _ := newWorld(3, eval).can(q)
				got, err := compute.QDTFAtom{Query: q.build(), Negated: true}.Sat(query.BasicQContext(mkModel(3, eval, 0)), s)
				r.Eval(true)
				if err != nil || got == want {
					Failf("evaluation example for %s: %v %v", istr(k), got, err)
				}
			}
		}
	})
}

func init() {
	register(&checkDef{id: "M04", level: "exploration", rule: "One evaluation is one combinator tree over atoms with scripted outcomes (satisfiable, unsatisfiable with the bare and the wrapped sentinel, error; negated or not), compared with left-to-right three-valued evaluation, with the solver calls recorded. Non-trivial: at least two atoms.", fn: m04})
	register(&checkDef{id: "M08", level: "exploration", rule: "One evaluation is one query or optimum computation through a solver process, compared with enumeration; instances read back are checked too.", fn: m08})
}
