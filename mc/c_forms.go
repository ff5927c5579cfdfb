package main

import (
	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// ---------- S08: shared auxiliary variables ----------

// argForms returns all atoms of a kind over the given variables and constants.
func atomsOver(kind string, vars []string, cs []inst, pref []int) []*form {
	var pool []arg
	for _, v := range vars {
		pool = append(pool, va(v))
	}
	for _, c := range cs {
		pool = append(pool, ca(c))
	}
	n := arity(kind)
	idx := make([]int, n)
	var out []*form
	for {
		args := make([]arg, n)
		anyVar := false
		for i, k := range idx {
			args[i] = pool[k]
			anyVar = anyVar || pool[k].isVar
		}
		if anyVar {
			out = append(out, &form{op: fAtom, kind: kind, args: args, pref: pref})
		}
		if !inc(idx, len(pool)) {
			return out
		}
	}
}

func pairCombos(a, b *form) []*form {
	return []*form{and(a, b), and(a, not(b)), and(not(a), b), and(not(a), not(b)), or(a, b)}
}

func (r *Run) pairs(w *world, m model, vars []string, as, bs []*form, ins []inst, what string) {
	for _, a := range as {
		a := a
		for c := 0; c < 8; c++ { // split the partners for load balancing
			c := c
			r.Case(func() string { return fmt.Sprintf("%s: %s on tree %s with partners %d/8", what, a, w.t, c) }, func() {
				for i := c; i < len(bs); i += 8 {
					for _, f := range pairCombos(a, bs[i]) {
						r.checkForm(w, m, f, vars, ins)
					}
				}
			})
		}
	}
}

func s08(r *Run) {
	th := r.Thorough()
	xy := []string{"x", "y"}
	// tree components sharing "reaches": every pair on every small tree
	reach := func(v []string) []*form {
		var out []*form
		for _, k := range []string{kNode, kAllT, kAllF} {
			out = append(out, atomsOver(k, v, nil, nil)...)
		}
		return out
	}
	for d := 1; d <= 2; d++ {
		for _, t := range allTrees(d) {
			for l := 0; l < nLayouts; l++ {
				if !th && d == 2 && l%2 == 1 {
					continue
				}
				w := newWorld(d, t)
				r.pairs(w, mkModel(d, t, l), xy, reach(xy), reach(xy), w.insts, "reach")
			}
		}
	}
	for i, t := range allTrees(3) {
		if !th && i%11 != 0 {
			continue
		}
		w := newWorld(3, t)
		x := []string{"x"}
		r.pairs(w, mkModel(3, t, i%nLayouts), x, reach(x), reach(x), w.insts, "reach")
	}
	// all components with auxiliary variables, pairwise
	for d := 1; d <= 2; d++ {
		t := allTrees(d)[len(allTrees(d))/2]
		w := newWorld(d, t)
		var pool []*form
		cl, ch, cp := w.insts, w.insts, w.insts
		if d == 2 && !th {
			ch = []inst{{Z, Z}, {Z, O}, {O, O}, {O, B}}
			cp = []inst{{B, B}, {Z, B}, {B, O}, {O, Z}}
		}
		if d == 2 && th {
			ch = []inst{{Z, Z}, {Z, O}, {O, Z}, {O, O}, {O, B}}
		}
		pool = append(pool, atomsOver(kLEL, xy, cl, nil)...)
		pool = append(pool, atomsOver(kLEH, xy, ch, nil)...)
		for _, p := range allPrefs(d, d) {
			pool = append(pool, atomsOver(kHEPR, xy, cp, p)...)
		}
		pool = append(pool, reach(xy)...)
		r.pairs(w, mkModel(d, t, 0), xy, pool, pool, w.insts, "aux")
	}
	// three dimensions: LEH and HEPR forms of the same kind, one variable
	// fixed by a constant
	{
		w := newWorld(3, allTrees(3)[5000])
		m := mkModel(3, w.t, 0)
		cs := []inst{{Z, Z, Z}, {Z, O, O}, {O, O, Z}}
		as := atomsOver(kLEH, []string{"x"}, cs, nil)
		r.pairs(w, m, []string{"x"}, as, as, w.insts, "leh3")
		var hs []*form
		for _, p := range allPrefs(3, 3) {
			hs = append(hs, atomsOver(kHEPR, []string{"x"}, []inst{{Z, B, B}, {B, O, Z}}, p)...)
		}
		r.pairs(w, m, []string{"x"}, hs, hs, w.insts, "hepr3")
		// three variables
		xyz := []string{"x", "y", "z"}
		as = atomsOver(kLEH, xyz, nil, nil)
		w1 := newWorld(1, allTrees(1)[2])
		r.pairs(w1, mkModel(1, w1.t, 0), xyz, as, as, w1.insts, "leh xyz")
		if th {
			w2 := newWorld(2, allTrees(2)[20])
			r.pairs(w2, mkModel(2, w2.t, 0), xyz, as, as, w2.insts, "leh xyz")
		}
	}
	// preferences whose indexes have several digits
	feats := []int{0, 1, 2, 10, 11, 12}
	var prefs [][]int
	for _, p := range allPrefs(len(feats), 2) {
		q := []int{}
		for _, i := range p {
			q = append(q, feats[i])
		}
		if len(q) > 0 {
			prefs = append(prefs, q)
		}
	}
	prefs = append(prefs, []int{1, 1 + 10, 2}, []int{11, 1, 2}, []int{1, 2, 11}, []int{12, 1, 1 + 10}, []int{1, 12, 0}, []int{1, 1 + 10, 0}, []int{11, 10}, []int{1, 11, 10})
	s08Wide(r)
	w := newWorld(13, leafT)
	m := mkModel(13, leafT, 0)
	for i, p := range prefs {
		i, p := i, p
		for fm := 0; fm < 3; fm++ {
			fm := fm
			r.Case(func() string { return fmt.Sprintf("hepr preferences %v with every other one, form %d", p, fm) }, func() {
				for j, q := range prefs {
					if i == j {
						continue
					}
					ins := patternsOn(13, p, q)
					cst := ins[len(ins)/3]
					mk := func(p []int) *form {
						switch fm {
						case 0:
							return heprA(p, va("x"), va("y"))
						case 1:
							return heprA(p, va("x"), ca(cst))
						}
						return heprA(p, ca(cst), va("x"))
					}
					vs := xy
					if fm > 0 {
						vs = xy[:1]
					}
					for _, f := range pairCombos(mk(p), mk(q))[:4] {
						r.checkForm(w, m, f, vs, ins)
					}
				}
			})
		}
	}
}

// s08Wide: components over constants, and with preferences, that differ only
// at positions where the representation of long names and vectors changes.
func s08Wide(r *Run) {
	dims := []int{34, 66, 130}
	if r.Deep() {
		dims = append(dims, 258)
	}
	for _, d := range dims {
		d := d
		w := newWorld(d, leafT)
		m := mkModel(d, leafT, 0)
		full := func(f query.FeatV, flips ...int) inst {
			v := make(inst, d)
			for i := range v {
				v[i] = f
			}
			for _, p := range flips {
				v[p] = Z + O - f
			}
			return v
		}
		var cs []inst
		cs = append(cs, full(Z))
		for _, p := range edges(d) {
			cs = append(cs, full(Z, p))
		}
		far := full(O)
		form := func(k int, a inst) *form {
			switch k {
			case 0:
				return atom(kLEH, ca(a), va("x"), ca(far))
			case 1:
				return atom(kLEH, va("x"), ca(a), ca(far))
			}
			return atom(kLEH, va("x"), ca(far), ca(a))
		}
		for i, a := range cs {
			for j, b := range cs {
				i, j, a, b := i, j, a, b
				// all pairs in the smallest dimension, neighbours of the
				// first constant in the others
				if i == j || d > 34 && (i > 0 || d > 66 && j%3 != 2) && !(d <= 66 && r.Deep() && (i+j)%4 == 0) {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("leh dim %d: constants %s and %s", d, istr(a), istr(b)) }, func() {
					ins := []inst{a, b, far, full(Z, 0, d-1), full(O, 0), full(Z)}
					for k := 0; k < 9; k++ {
						if d > 34 && k%4 != 0 && !r.Deep() {
							continue
						}
						p, q := form(k/3, a), form(k%3, b)
						for _, f := range pairCombos(p, q)[:2] {
							r.checkForm(w, m, f, []string{"x"}, ins)
						}
					}
					if d > 130 { // the search takes minutes
						return
					}
					p := atom(kLEH, ca(a), va("x"), ca(b))
					q := atom(kLEH, ca(b), va("x"), ca(a))
					for _, f := range pairCombos(p, q)[:2] {
						r.checkForm(w, m, f, []string{"x"}, ins)
					}
				})
			}
		}
	}
	for _, d := range []int{66, 260} {
		d := d
		w := newWorld(d, leafT)
		m := mkModel(d, leafT, 0)
		ps := edges(d)
		// one feature each, and two in either order
		var prefs [][]int
		for _, p := range ps {
			prefs = append(prefs, []int{p})
			for _, q := range ps {
				if p != q && (d < 100 || (p+q)%3 == 0) {
					prefs = append(prefs, []int{p, q})
				}
			}
		}
		for i, p := range prefs {
			i, p := i, p
			r.Case(func() string { return fmt.Sprintf("hepr dim %d: preference %v with others", d, p) }, func() {
				for j, q := range prefs {
					if i == j || !r.Deep() && len(p)+len(q) > 2 && (i+j)%7 != 0 {
						continue
					}
					ins := patternsOn(d, p, q)
					cst := ins[(i+j)%len(ins)]
					mk := func(p []int) *form {
						if (i+j)%2 == 0 {
							return heprA(p, va("x"), ca(cst))
						}
						return heprA(p, ca(cst), va("x"))
					}
					for _, f := range pairCombos(mk(p), mk(q))[:2] {
						r.checkForm(w, m, f, []string{"x"}, ins)
					}
				}
			})
		}
		// one preference, constants that differ on it
		for i, p := range prefs {
			i, p := i, p
			if len(p) < 2 {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("hepr dim %d: constants of preference %v", d, p) }, func() {
				ins := patternsOn(d, p, p)
				for _, a := range ins {
					for _, b := range ins {
						for k := 0; k < 4; k++ {
							mk := func(c inst, o int) *form {
								if o == 0 {
									return heprA(p, va("x"), ca(c))
								}
								return heprA(p, ca(c), va("x"))
							}
							for _, f := range pairCombos(mk(a, k/2), mk(b, k%2))[:2] {
								if (i+k)%2 == 0 || r.Deep() {
									r.checkForm(w, m, f, []string{"x"}, ins)
								}
							}
						}
					}
				}
			})
		}
	}
}

// patternsOn returns the undefinedness patterns on the features of p and q.
func patternsOn(dim int, p, q []int) []inst {
	var fs []int
	on := map[int]bool{}
	for _, l := range [][]int{p, q} {
		for _, i := range l {
			if !on[i] {
				on[i] = true
				fs = append(fs, i)
			}
		}
	}
	var out []inst
	for m := 0; m < 1<<len(fs); m++ {
		v := make(inst, dim)
		for k, i := range fs {
			if m>>k&1 == 1 {
				v[i] = query.FeatV(1 + k%2)
			}
		}
		out = append(out, v)
	}
	return out
}

// ---------- S09: connectives ----------

// sized returns all formulas with exactly k connectives over the leaves.
func sized(leaves []*form, k int, memo map[int][]*form) []*form {
	if k == 0 {
		return leaves
	}
	if r, ok := memo[k]; ok {
		return r
	}
	var out []*form
	for _, a := range sized(leaves, k-1, memo) {
		out = append(out, not(a))
	}
	for i := 0; i < k; i++ {
		for _, a := range sized(leaves, i, memo) {
			for _, b := range sized(leaves, k-1-i, memo) {
				out = append(out, and(a, b), or(a, b))
			}
		}
	}
	memo[k] = out
	return out
}

func s09(r *Run) {
	th := r.Thorough()
	run := func(d int, t *tree, leaves []*form, kmax int, vars []string) {
		w := newWorld(d, t)
		m := mkModel(d, t, 1)
		memo := map[int][]*form{}
		for k := 0; k <= kmax; k++ {
			fs := sized(leaves, k, memo)
			const chunk = 40
			for i := 0; i < len(fs); i += chunk {
				i := i
				r.Case(func() string { return fmt.Sprintf("formulas %d.. of size %d, dim %d, tree %s", i, k, d, t) }, func() {
					for j := i; j < i+chunk && j < len(fs); j++ {
						r.checkForm(w, m, fs[j], vars, w.insts)
					}
				})
			}
		}
	}
	x, xy := []string{"x"}, []string{"x", "y"}
	t2 := allTrees(2)[40]
	c := inst{O, B}
	inner := func(n string) *form { // an inner variable whose existence depends on x
		return with(n, and(atom(kSub, va("x"), va(n)), and(atom(kFull, va(n)), atom(kAllT, va(n)))))
	}
	// every shape of up to 3 connectives over leaves of every kind: several
	// clauses, one clause, no clause, false, with consistency clauses
	l1 := []*form{atom(kSub, va("x"), ca(c)), atom(kFull, va("x")), triv(true), triv(false), atom(kLEL, va("x"), ca(c)), atom(kDFS, va("x"))}
	run(2, t2, l1, 3, x)
	l2 := []*form{atom(kSub, va("x"), va("y")), triv(false), atom(kLEL, va("y"), va("x")), atom(kNode, ca(inst{O, B}))}
	run(2, t2, l2, 2, xy)
	l3 := []*form{atom(kSub, ca(inst{O}), va("x")), atom(kCons, va("x"), va("y")), atom(kLEH, va("x"), va("y"), ca(inst{O})), triv(true), atom(kAllF, va("x"))}
	t1 := allTrees(1)[3]
	run(1, t1, l3, 3, xy)
	if th {
		run(1, t1, l3[:4], 4, xy)
		run(2, t2, l1[:4], 4, x)
		if r.Deep() {
			run(1, t1, l3, 4, xy)
			run(2, t2, l1, 4, x)
			run(2, t2, l2, 3, xy)
		}
	}
	// parts that declare variables
	w := newWorld(2, t2)
	m := mkModel(2, t2, 0)
	l4 := []*form{inner("u"), atom(kFull, va("x")), triv(false)}
	memo := map[int][]*form{}
	for k := 0; k <= 3; k++ {
		for i, f := range sized(l4, k, memo) {
			f := renameInner(f, new(int))
			if k == 3 && !th && i%2 == 1 {
				continue
			}
			r.Case(func() string { return f.String() }, func() { r.checkForm(w, m, f, x, w.insts) })
		}
	}
	// deep nests: every sequence of one-step contexts
	a := atom(kSub, va("x"), ca(c))
	b := atom(kLEL, ca(c), va("x"))
	ctxs := []func(*form) *form{
		not,
		func(f *form) *form { return and(f, b) },
		func(f *form) *form { return or(b, f) },
		func(f *form) *form { return or(f, not(a)) },
		func(f *form) *form { return and(triv(true), f) },
		func(f *form) *form { return or(f, triv(false)) },
	}
	depth := 5
	if th {
		depth = 6
	}
	if r.Deep() {
		depth = 7
	}
	idx := make([]int, depth)
	for {
		ix := append([]int{}, idx...)
		r.Case(func() string { return fmt.Sprintf("nest %v", ix) }, func() {
			f := a
			for _, k := range ix {
				f = ctxs[k](f)
			}
			r.checkForm(w, m, f, x, w.insts)
		})
		if !inc(idx, len(ctxs)) {
			break
		}
	}
	// and very deep ones
	ns := []int{8, 16, 24, 32, 40, 64, 65, 100, 128, 200, 256, 257}
	if th {
		ns = append(ns, 300, 513)
	}
	if r.Deep() {
		ns = append(ns, 1025, 2049)
	}
	for _, n := range ns {
		for s := 0; s < 216; s++ {
			n, s := n, s
			r.Case(func() string { return fmt.Sprintf("nest depth %d pattern %d", n, s) }, func() {
				f := a
				p := []int{s % 6, s / 6 % 6, s / 36}
				for i := 0; i < n; i++ {
					f = ctxs[p[i%3]](f)
				}
				r.checkForm(w, m, f, x, w.insts)
			})
		}
	}
	// wide ones: complete trees of connectives, lists leaning to either side
	lv := []*form{a, b, not(a), triv(true), triv(false), atom(kFull, va("x")), not(b), atom(kAllT, va("x"))}
	wide := []int{16, 31, 32, 33, 64, 100, 128, 129, 256, 300}
	if r.Deep() {
		wide = append(wide, 512, 1000, 1024, 2000)
	}
	for _, n := range wide {
		for op := 0; op < 4; op++ {
			for lean := 0; lean < 3; lean++ {
				n, op, lean := n, op, lean
				r.Case(func() string { return fmt.Sprintf("%d parts, connectives %d, shape %d", n, op, lean) }, func() {
					for s := 0; s < 2*len(lv); s++ {
						leaf := func(i int) *form {
							switch {
							case s < len(lv): // all neutral but one
								if i == n*(s+1)/(len(lv)+1) {
									return lv[s]
								}
								return triv(op != 1)
							}
							return lv[(i*(s-len(lv)+1)+i/3)%len(lv)]
						}
						join := func(x, y *form, d int) *form {
							if op == 0 || op == 2 && d%2 == 0 || op == 3 && d%3 > 0 {
								return and(x, y)
							}
							return or(x, y)
						}
						var build func(lo, hi, d int) *form
						build = func(lo, hi, d int) *form {
							if hi-lo == 1 {
								return leaf(lo)
							}
							mid := (lo + hi) / 2
							if lean == 1 {
								mid = lo + 1
							} else if lean == 2 {
								mid = hi - 1
							}
							return join(build(lo, mid, d+1), build(mid, hi, d+1), d)
						}
						r.checkForm(w, m, build(0, n, 0), x, w.insts)
					}
				})
			}
		}
	}
	// the connective as built by the caller once and used twice
	r.Case(func() string { return "one value used in several places" }, func() {
		for _, base := range []*form{not(a), or(a, b), and(a, not(b))} {
			q := base.build()
			shared := &form{op: fRaw, raw: q, a: base}
			for _, f := range []*form{and(shared, not(shared)), or(shared, not(shared)), not(or(shared, shared)), and(not(shared), not(shared))} {
				r.checkForm(w, m, f, x, w.insts)
			}
		}
	})
}

// renameInner gives every declaration its own variable name.
func renameInner(f *form, n *int) *form {
	if f == nil {
		return nil
	}
	g := *f
	if f.op == fWith {
		*n++
		g.name = fmt.Sprintf("%s%d", f.name, *n)
		g.a = substVar(f.a, f.name, g.name)
		return &g
	}
	g.a, g.b = renameInner(f.a, n), renameInner(f.b, n)
	return &g
}

func substVar(f *form, from, to string) *form {
	if f == nil {
		return nil
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i := range g.args {
		if g.args[i].isVar && string(g.args[i].v) == from {
			g.args[i] = va(to)
		}
	}
	g.a, g.b = substVar(f.a, from, to), substVar(f.b, from, to)
	return &g
}

// ---------- S10: guarded quantification ----------

func pinTo(y string, c arg) *form {
	return and(atom(kSub, va(y), c), atom(kSub, c, va(y)))
}

// s10Bodies: bodies with guard g over outer variable x (and constant k).
func s10Bodies(g string, k inst, dim int) []*form {
	G, X, K := ga(g), va("x"), ca(k)
	prefs := allPrefs(dim, dim)
	pr := prefs[len(prefs)-1]
	out := []*form{
		atom(kSub, G, X), atom(kSub, X, G), atom(kSub, G, K), atom(kCons, G, X), atom(kCons, X, G),
		atom(kFull, G), atom(kNode, G), atom(kAllT, G), atom(kAllF, G), atom(kDFS, G),
		atom(kLEL, G, X), atom(kLEL, X, G), atom(kLEL, G, K),
		atom(kLEH, G, X, X), atom(kLEH, X, G, K), atom(kLEH, X, K, G), atom(kLEH, G, K, X), atom(kLEH, G, X, K),
		atom(kLEH, X, X, G), atom(kLEH, X, G, X), atom(kLEH, G, G, X),
		heprA(pr, G, X), heprA(pr, X, G), heprA(pr, G, K),
		atom(kSub, X, K), triv(true), triv(false), atom(kNode, X), atom(kAllT, X),
	}
	// variables declared inside, tied to the guard
	Y := va("y")
	for _, a := range []*form{
		atom(kFull, Y), atom(kNode, Y), atom(kAllT, Y), atom(kAllF, Y), atom(kDFS, Y),
		atom(kSub, Y, X), atom(kCons, X, Y), atom(kLEL, Y, X), atom(kLEL, X, Y), atom(kLEL, Y, K), atom(kLEL, K, Y),
		heprA(pr, Y, X), heprA(pr, X, Y), heprA(pr, Y, K), heprA(pr, K, Y),
		atom(kLEH, Y, X, X), atom(kLEH, X, Y, X), atom(kLEH, X, X, Y), atom(kLEH, Y, K, X), atom(kLEH, K, Y, X),
		atom(kLEH, Y, Y, X), atom(kLEH, Y, K, K), atom(kLEH, K, Y, K), atom(kLEH, K, K, Y), atom(kLEH, X, Y, K),
		triv(true),
	} {
		out = append(out, with("y", and(pinTo("y", G), a)), with("y", and(pinTo("y", G), not(a))))
	}
	// not tied completely
	out = append(out,
		with("y", and(atom(kSub, G, Y), and(atom(kFull, Y), atom(kSub, X, Y)))),
		with("y", and(atom(kSub, G, Y), and(atom(kNode, Y), not(atom(kSub, Y, X))))),
		with("y", and(not(atom(kCons, G, Y)), atom(kLEL, Y, G))),
		or(atom(kSub, G, X), with("y", and(atom(kSub, Y, G), not(atom(kLEL, Y, X))))),
	)
	return out
}

func s10(r *Run) {
	th := r.Thorough()
	x := []string{"x"}
	wraps := []func(*form) *form{
		func(f *form) *form { return forall("g", f) },
		func(f *form) *form { return not(forall("g", f)) },
		func(f *form) *form { return forall("g", not(f)) },
	}
	each := func(d, layout int, t *tree, bodies []*form, ws []func(*form) *form, ins []inst) {
		if ins == nil {
			ins = allInst(d)
		}
		for bi := 0; bi < len(bodies); bi += 6 {
			bi := bi
			r.Case(func() string {
				return fmt.Sprintf("dim %d tree %s layout %d bodies %d.. (%s)", d, t, layout, bi, bodies[bi])
			}, func() {
				w := newWorld(d, t)
				m := mkModel(d, t, layout)
				for _, b := range bodies[bi:min(bi+6, len(bodies))] {
					for _, wr := range ws {
						r.checkForm(w, m, wr(b), x, ins)
					}
				}
			})
		}
	}
	for d := 1; d <= 2; d++ {
		for i, t := range allTrees(d) {
			k := allInst(d)[(i+1)%len(allInst(d))]
			for l := 0; l < nLayouts; l++ {
				if !th && l != i%nLayouts {
					continue
				}
				each(d, l, t, s10Bodies("g", k, d), wraps, nil)
			}
		}
	}
	k3 := inst{O, B, Z}
	step := 137
	if th {
		step = 13
	}
	if r.Deep() {
		step = 3
	}
	for i, t := range allTrees(3) {
		if i%step == 0 {
			each(3, i%nLayouts, t, s10Bodies("g", k3, 3), wraps, nil)
		}
	}
	// enough nodes for two-digit indexes
	for _, bt := range bigTrees(false)[:2] {
		ins := sparseInst(bt.dim, 1)
		if len(ins) > 12 {
			ins = append(append([]inst{}, ins[:6]...), nodeInsts(bt.t, bt.dim)[:8]...)
		}
		kk := make(inst, bt.dim)
		kk[1] = O
		var bs []*form
		for _, b := range s10Bodies("g", kk, 1) {
			// free inner variables make the brute-force reference too large here:
			// keep bodies without them, and those tied to the guard separately
			if b.op != fWith && !(b.op == fOr) {
				bs = append(bs, b)
			}
		}
		each(bt.dim, 0, bt.t, bs, wraps, ins)
	}
	// nested quantifiers over one tree, with variables at every level
	nestBodies := func(d int) []*form {
		G, H, X, Y, Zv := ga("g"), ga("h"), va("x"), va("y"), va("z")
		pr := seq(d)
		return []*form{
			atom(kSub, G, H), or(atom(kSub, G, H), atom(kSub, H, G)), atom(kCons, G, H), atom(kLEL, G, H), heprA(pr, G, H),
			atom(kLEH, X, G, H), atom(kLEH, G, H, X), or(not(atom(kSub, G, X)), atom(kSub, H, X)), or(not(atom(kSub, H, X)), atom(kSub, G, X)),
			with("z", and(pinTo("z", H), or(atom(kLEL, Zv, X), atom(kSub, G, Zv)))),
			with("z", and(pinTo("z", H), or(atom(kAllT, Zv), atom(kNode, Zv)))),
			with("z", and(atom(kSub, G, Zv), atom(kSub, H, Zv))),
			with("z", and(pinTo("z", G), or(heprA(pr, Zv, X), atom(kDFS, Zv)))),
			or(atom(kCons, Y, H), atom(kSub, H, X)),
			and(atom(kLEL, Y, G), or(atom(kSub, Y, X), not(atom(kCons, Y, H)))),
			with("z", and(pinTo("z", H), or(atom(kSub, Zv, Y), atom(kLEL, Y, Zv)))),
			with("z", and(pinTo("z", H), atom(kLEH, Y, Zv, X))),
		}
	}
	usesY := func(f *form) bool { return usesVar(f, "y") }
	nest := func(d, layout int, t *tree, some int) {
		bs := nestBodies(d)
		for bi, b := range bs {
			if some >= 0 && bi%3 != some {
				continue
			}
			bi, b := bi, b
			r.Case(func() string { return fmt.Sprintf("nested, dim %d tree %s layout %d body %d %s", d, t, layout, bi, b) }, func() {
				w := newWorld(d, t)
				m := mkModel(d, t, layout)
				var fs []*form
				if usesY(b) {
					fs = []*form{
						forall("g", with("y", and(pinTo("y", ga("g")), forall("h", b)))),
						forall("g", with("y", and(pinTo("y", ga("g")), not(forall("h", b))))),
						not(forall("g", with("y", or(not(pinTo("y", ga("g"))), forall("h", not(b)))))),
					}
				} else {
					fs = []*form{
						forall("g", forall("h", b)),
						forall("g", not(forall("h", b))),
						not(forall("g", forall("h", b))),
						not(forall("g", not(forall("h", b)))),
						and(forall("g", atom(kSub, ga("g"), va("x"))), forall("h", substGuard(b, "g", "h"))),
						or(forall("g", substGuard(b, "h", "g")), forall("h", not(substGuard(b, "g", "h")))),
					}
				}
				for _, f := range fs {
					r.checkForm(w, m, f, x, w.insts)
				}
			})
		}
	}
	for d := 1; d <= 2; d++ {
		for i, t := range allTrees(d) {
			s := -1
			if !th {
				s = i % 3
			}
			nest(d, i%nLayouts, t, s)
		}
	}
	// two-digit node indexes on both levels
	t3 := complete([]int{1, 0, 2}, make(inst, 3), parity)
	nest(3, 0, t3, -1)
	if th {
		for i := 0; i < 16430; i += 701 {
			nest(3, i%nLayouts, allTrees(3)[i], -1)
		}
	}
	// three levels
	for i, t := range allTrees(1) {
		t := t
		r.Case(func() string { return fmt.Sprintf("three levels on %s", t) }, func() {
			w := newWorld(1, t)
			m := mkModel(1, t, i%2)
			for _, b := range []*form{
				atom(kLEH, ga("g"), ga("h"), ga("k")),
				or(atom(kSub, ga("g"), ga("h")), or(atom(kSub, ga("h"), ga("k")), atom(kSub, ga("k"), va("x")))),
				with("z", and(pinTo("z", ga("k")), or(atom(kSub, va("z"), ga("g")), atom(kLEL, va("z"), va("x"))))),
			} {
				for n := 0; n < 16; n++ {
					neg := func(bit int, f *form) *form {
						if n>>bit&1 == 1 {
							return not(f)
						}
						return f
					}
					r.checkForm(w, m, neg(3, forall("g", neg(2, forall("h", neg(1, forall("k", neg(0, b))))))), x, w.insts)
				}
			}
		})
	}
	if r.Deep() {
		s10Gen(r, 6)
	} else if th {
		s10Gen(r, 5)
	} else {
		s10Gen(r, 4)
	}
	s10Large(r)
	// a tied variable on a tree with many nodes (reference evaluated directly)
	for bi, bt := range bigTrees(th)[:4] {
		if bt.dim > 6 {
			continue
		}
		bi, bt := bi, bt
		for ai, a := range []*form{
			atom(kLEL, va("y"), va("x")), atom(kAllT, va("y")), atom(kNode, va("y")), heprA([]int{2, 0}, va("y"), va("x")), atom(kDFS, va("y")),
			atom(kLEH, va("y"), va("x"), va("x")), atom(kLEL, va("x"), va("y")), atom(kSub, va("y"), va("x")),
		} {
			ai, a := ai, a
			r.Case(func() string { return fmt.Sprintf("tied variable, %s, %d %d", bt.name, bi, ai) }, func() {
				w := newWorld(bt.dim, bt.t)
				m := mkModel(bt.dim, bt.t, 0)
				ins := append(sparseInst(bt.dim, 1)[:20], nodeInsts(bt.t, bt.dim)...)
				for _, b := range []*form{or(a, atom(kSub, va("x"), ga("g"))), not(a), a} {
					// with y = g the body means b[y:=g]
					f := forall("g", with("y", and(pinTo("y", ga("g")), b)))
					g := forall("g", substArg(b, "y", ga("g")))
					r.checkFormRef(w, m, f, g, x, ins)
				}
			})
		}
	}
}

// genSpec enumerates the formulas with exactly k inner nodes (negation,
// conjunction, disjunction, variable declaration, quantifier) below a scope.
// Quantifiers get guards of their own; a variable's name is shared by
// declarations under different guards of the same depth.
type genScope struct {
	names []arg // innermost last, without x
	depth int   // of guards
	decl  int   // declarations in the innermost guard
}

func genLeaves(sc genScope) []*form {
	X := va("x")
	if len(sc.names) == 0 {
		return []*form{atom(kFull, X)}
	}
	in := sc.names[len(sc.names)-1]
	out := []*form{atom(kSub, in, X)}
	for _, o := range sc.names[:len(sc.names)-1] {
		out = append(out, atom(kSub, o, in))
	}
	if in.isVar {
		for i := len(sc.names) - 2; i >= 0; i-- {
			if o := sc.names[i]; !o.isVar {
				out = append(out, pinTo(string(in.v), o))
				break
			}
		}
	}
	return out
}

// genForms calls emit with each formula of k inner nodes; guard numbers start
// at ng and the next free one is passed along.
func genForms(sc genScope, k, ng int, noNot bool, emit func(f *form, ng int)) {
	if k == 0 {
		for _, l := range genLeaves(sc) {
			emit(l, ng)
		}
		return
	}
	if !noNot {
		genForms(sc, k-1, ng, true, func(f *form, n int) { emit(not(f), n) })
	}
	ext := func(a arg) []arg { return append(append([]arg{}, sc.names...), a) }
	y := fmt.Sprintf("y%d_%d", sc.depth, sc.decl)
	genForms(genScope{ext(va(y)), sc.depth, sc.decl + 1}, k-1, ng, false, func(f *form, n int) { emit(with(y, f), n) })
	g := fmt.Sprintf("g%d", ng)
	genForms(genScope{ext(ga(g)), sc.depth + 1, 0}, k-1, ng+1, false, func(f *form, n int) { emit(forall(g, f), n) })
	for i := 0; i < k; i++ {
		genForms(sc, i, ng, false, func(a *form, n int) {
			sc2 := sc
			sc2.decl += countDecl(a) // names of siblings' declarations stay apart
			genForms(sc2, k-1-i, n, false, func(b *form, n2 int) {
				emit(and(a, b), n2)
				if k <= 3 || i != 0 { // at the larger sizes or only with a compound left side
					emit(or(a, b), n2)
				}
			})
		})
	}
}

// countDecl counts the declarations of f outside of its quantifiers.
func countDecl(f *form) int {
	if f == nil || f.op == fAll {
		return 0
	}
	n := 0
	if f.op == fWith {
		n = 1
	}
	return n + countDecl(f.a) + countDecl(f.b)
}

func hasOp(f *form, op fop) bool {
	return f != nil && (f.op == op || hasOp(f.a, op) || hasOp(f.b, op))
}

// s10Gen: every formula shape up to a size.
func s10Gen(r *Run, kmax int) {
	trees := []*tree{{feat: 0, z: leafF, o: leafT}, leafT}
	for k := 1; k <= kmax; k++ {
		// inside of one quantifier, and at the top level
		for top := 0; top < 2; top++ {
			sc := genScope{}
			ng := 0
			if top == 1 {
				sc = genScope{names: []arg{ga("g")}, depth: 1}
			}
			var batch []*form
			flush := func() {
				fs := batch
				batch = nil
				if len(fs) == 0 {
					return
				}
				r.Case(func() string { return fmt.Sprintf("shapes of %d nodes from %s", k, fs[0]) }, func() {
					for ti, t := range trees {
						if ti > 0 && k > 3 {
							continue
						}
						w := newWorld(1, t)
						m := mkModel(1, t, 0)
						for _, f := range fs {
							r.checkForm(w, m, f, []string{"x"}, w.insts)
						}
					}
				})
			}
			genForms(sc, k, ng, false, func(f *form, _ int) {
				if top == 1 {
					f = forall("g", f)
				}
				if !hasOp(f, fAll) {
					return
				}
				batch = append(batch, f)
				if len(batch) == 256 {
					flush()
				}
			})
			flush()
		}
	}
}

// witness is a component that records the values of guards and the variables
// of each instantiation, and gives one clause that no other one gives.
type witness struct {
	guards []string
	v      query.QVar
	vals   [][]byte        // the guards' values
	lits   []int           // the literal of the clause
	names  map[string]bool // names of v
	tick   func()          // each instantiation is progress
}

func (p *witness) Encoding(ctx query.QContext) (cnfT, error) {
	if p.tick != nil {
		p.tick()
	}
	var val []byte
	for _, g := range p.guards {
		c, ok := ctx.ScopeConst(query.QConst{ID: g})
		if !ok {
			return cnfT{}, fmt.Errorf("guard %s is not bound", g)
		}
		for _, f := range c.Val {
			val = append(val, byte(f))
		}
	}
	p.vals = append(p.vals, val)
	ctx.AddVar(p.v)
	n := ctx.ScopeVar(p.v)
	p.names[string(n)] = true
	l := ctx.CNFVar(n, 0, 0)
	p.lits = append(p.lits, l)
	return cnfT{}.AppendSemantics(cls{l}), nil
}

// s10Large: trees with hundreds to a hundred thousand nodes. The body sees
// every node exactly, and has its own variable at each.
func s10Large(r *Run) {
	type tr struct {
		name  string
		dim   int
		t     *tree
		nests int
	}
	comp := func(d int) *tree { return complete(revs(d), make(inst, d), func(v inst) bool { return v[0] == O }) }
	trs := []tr{
		{"chain of 300", 300, chain(seq(300), 0x5555333355553333, true), 1},
		{"chain of 300, reversed", 301, chain(revs(300), ^uint(0), false), 1},
		{"chain of 40", 40, chain(revs(40), 0x5555333355553333, true), 2},
		{"complete of depth 6", 6, comp(6), 2},
		{"complete of depth 12", 12, comp(12), 1},
		{"complete of depth 16", 16, comp(16), 1},
		{"complete of depth 3", 3, comp(3), 3},
	}
	for _, x := range trs {
		for l := 0; l < nLayouts; l++ {
			x, l := x, l
			r.Case(func() string {
				return fmt.Sprintf("%d quantifiers over a large tree: %s, layout %d", x.nests, x.name, l)
			}, func() {
				m := mkModel(x.dim, x.t, l)
				p := &witness{v: "x", names: map[string]bool{}, tick: r.Tick}
				var q logop.LogOpQ = p
				for i := 0; i < x.nests; i++ {
					g := fmt.Sprint("g", i)
					p.guards = append([]string{g}, p.guards...)
					q = logop.ForAllGuarded{I: query.QConst{ID: g}, Q: q}
				}
				ctx := query.BasicQContext(m)
				F, err := q.Encoding(ctx)
				if err != nil {
					Failf("error %v", err)
				}
				want := map[string]bool{"": true}
				for i := 0; i < x.nests; i++ {
					next := map[string]bool{}
					for _, v := range nodeInsts(x.t, x.dim) {
						b := make([]byte, len(v))
						for i, f := range v {
							b[i] = byte(f)
						}
						for k := range want {
							next[k+string(b)] = true
						}
					}
					want = next
				}
				got := map[string]bool{}
				for _, v := range p.vals {
					if !want[string(v)] {
						Failf("the body is instantiated for %v, which is no node", v)
					}
					got[string(v)] = true
				}
				if len(got) != len(want) {
					Failf("the body is instantiated for %d of %d nodes", len(got), len(want))
				}
				if len(p.names) < len(want) {
					Failf("%d nodes have %d variables of their own", len(want), len(p.names))
				}
				have := map[int]bool{}
				for _, l := range p.lits {
					have[l] = true
				}
				if len(have) < len(want) {
					Failf("%d nodes require %d different literals", len(want), len(have))
				}
				s := satOf(F, maxi(ctx.TopV(), F.TopV()))
				if !s.solve() {
					Failf("the formula is not satisfiable")
				}
				step := 1 + len(p.lits)/500
				for i := 0; i < len(p.lits); i += step {
					if s.solve(-p.lits[i]) {
						Failf("the formula does not require what the body requires at its instantiation %d", i)
					}
				}
				if s.solve(-p.lits[len(p.lits)-1]) {
					Failf("the formula does not require what the body requires at its last instantiation")
				}
				r.Eval(true)
			})
		}
	}
}

func usesVar(f *form, v string) bool {
	if f == nil {
		return false
	}
	for _, a := range f.args {
		if a.isVar && string(a.v) == v {
			return true
		}
	}
	return usesVar(f.a, v) || usesVar(f.b, v)
}

func substArg(f *form, v string, to arg) *form {
	if f == nil {
		return nil
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i := range g.args {
		if g.args[i].isVar && string(g.args[i].v) == v {
			g.args[i] = to
		}
	}
	g.a, g.b = substArg(f.a, v, to), substArg(f.b, v, to)
	return &g
}

func substGuard(f *form, from, to string) *form {
	if f == nil {
		return nil
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i := range g.args {
		if !g.args[i].isVar && g.args[i].c.ID == from {
			g.args[i] = ga(to)
		}
	}
	g.a, g.b = substGuard(f.a, from, to), substGuard(f.b, from, to)
	return &g
}

// ---------- S11: the world of a declared variable ----------

func s11(r *Run) {
	T, F := triv(true), triv(false)
	type tc struct {
		f    *form
		vars []string
	}
	var cases []tc
	add := func(f *form, v ...string) { cases = append(cases, tc{f, v}) }
	X, Y := va("x"), va("y")
	add(with("x", T), "x")
	add(with("x", with("x", T)), "x")
	add(and(with("x", T), with("x", T)), "x")
	add(or(with("x", T), with("x", F)), "x")
	add(not(with("x", F)), "x")
	add(not(not(with("x", T))), "x")
	add(with("x", not(F)), "x")
	add(with("x", with("y", T)), "x", "y")
	add(and(with("x", T), with("y", T)), "x", "y")
	add(or(with("x", T), with("y", F)), "x", "y")
	add(or(with("x", atom(kSub, X, X)), with("y", T)), "x", "y")
	add(not(or(with("x", F), with("y", F))), "x", "y")
	add(with("x", and(with("y", T), with("x", T))), "x", "y")
	add(with("x", and(with("y", with("x", with("y", T))), T)), "x", "y")
	add(with("x", or(with("y", atom(kLEL, X, Y)), atom(kLEL, Y, X))), "x", "y")
	add(with("x", forall("g", with("v", T))), "x")
	add(with("x", forall("g", not(with("v", F)))), "x")
	add(with("x", not(forall("g", with("v", and(atom(kSub, va("v"), ga("g")), F))))), "x")
	add(forall("g", with("v", T)))
	add(and(forall("g", with("v", T)), with("x", T)), "x")
	add(and(with("x", T), forall("g", T)), "x")
	add(with("x", and(forall("g", with("v", T)), forall("h", with("v2", T)))), "x")
	add(with("x", or(atom(kFull, X), not(atom(kFull, X)))), "x")
	add(with("x", or(atom(kAllT, X), not(atom(kAllT, X)))), "x")
	add(with("x", or(atom(kNode, X), not(atom(kNode, X)))), "x")
	add(with("x", or(atom(kLEL, X, X), T)), "x")
	add(with("x", with("y", or(atom(kLEH, X, Y, X), not(atom(kLEH, X, Y, X))))), "x", "y")
	add(and(or(atom(kFull, X), T), with("x", T)), "x") // used before its declaration
	add(or(not(with("y", F)), with("x", atom(kCons, X, Y))), "x", "y")
	for d := 1; d <= 3; d++ {
		ts := allTrees(d)
		if d == 3 {
			ts = []*tree{ts[777], ts[9001]}
		} else if d == 2 {
			ts = []*tree{ts[0], ts[1], ts[10], ts[30], ts[60], ts[73]}
		}
		for _, t := range ts {
			for ci, c := range cases {
				if d*len(c.vars) > 4 || (d == 2 && len(c.vars) == 2 && t.leaf) {
					continue
				}
				d, t, c, ci := d, t, c, ci
				r.Case(func() string { return fmt.Sprintf("%d: %s dim %d tree %s", ci, c.f, d, t) }, func() {
					ctx := query.BasicQContext(mkModel(d, t, 0))
					E, err := c.f.build().Encoding(ctx)
					if err != nil {
						Failf("unexpected error %v", err)
					}
					var lits []int
					for _, v := range c.vars {
						p := mkPinner(ctx, query.QVar(v), d)
						for i := 0; i < d; i++ {
							lits = append(lits, p.id[i][0], p.id[i][1], p.id[i][2])
						}
					}
					s := satOf(E, maxi(ctx.TopV(), E.TopV()))
					as := make([]int, len(lits))
					for m := 0; m < 1<<len(lits); m++ {
						want := true
						for k, l := range lits {
							if m>>k&1 == 1 {
								as[k] = l
							} else {
								as[k] = -l
							}
						}
						for k := 0; k < len(lits); k += 3 {
							b := m >> k & 7
							want = want && (b == 1 || b == 2 || b == 4)
						}
						got := s.solve(as...)
						r.Eval(len(c.vars) > 0)
						if got != want {
							Failf("%s: assignment %v of the value literals %v: satisfiable=%v, exactly one value per feature=%v", c.f, as, c.vars, got, want)
						}
					}
					r.Sample(func() string {
						return fmt.Sprintf("%s dim %d tree %s: all %d assignments of %d value literals", c.f, d, t, 1<<len(lits), len(lits))
					})
				})
			}
		}
	}
	// every instance of larger dimensions stays possible, no feature has two
	// values or none
	dims := []int{4, 7, 12, 20, 66, 130, 258, 300, 514}
	if r.Thorough() {
		dims = append(dims, 1026, 1100, 4100)
	}
	if r.Deep() {
		dims = append(dims, 2050, 16400)
	}
	for _, d := range dims {
		d := d
		r.Case(func() string { return fmt.Sprintf("dimension %d", d) }, func() {
			for fi, f := range []*form{with("x", T), with("x", with("y", atom(kSub, X, Y))), with("y", not(with("x", F))), with("x", with("y", atom(kLEL, X, Y)))} {
				if fi == 3 && d > 66 {
					continue // the encoding of the order has a quadratic number of clauses
				}
				ctx := query.BasicQContext(mkModel(d, leafT, 0))
				E, err := f.build().Encoding(ctx)
				if err != nil {
					Failf("unexpected error %v", err)
				}
				s := satOf(E, maxi(ctx.TopV(), E.TopV()))
				p := mkPinner(ctx, "x", d)
				k := 2
				if d > 12 {
					k = 1
				}
				if d > 66 {
					k = 0
				}
				ins := sparseInst(d, k)
				if d > 24 {
					ins = append(ins, edgeLevels(d, false, []int{1, 64, 255, 256, 257})...)
				}
				for _, v := range ins {
					r.Eval(true)
					if !s.solve(p.pin(nil, v)...) {
						Failf("%s dim %d: instance %s is impossible", f, d, istr(v))
					}
				}
				for i := 0; i < d; i++ {
					for b := 0; b < 8; b++ {
						if b == 1 || b == 2 || b == 4 {
							continue
						}
						var as []int
						for x := 0; x < 3; x++ {
							l := p.id[i][x]
							if b>>x&1 == 0 {
								l = -l
							}
							as = append(as, l)
						}
						r.Eval(true)
						if s.solve(as...) {
							Failf("%s dim %d: feature %d can have the value set %03b", f, d, i, b)
						}
					}
				}
			}
		})
	}
}

const formRule = "One evaluation is one (formula, model, value of every outer variable): the CNF the code produces is checked for satisfiability under exactly these values and compared with the compositional meaning of the formula computed by brute force. Non-trivial: evaluations of formulas that are true for some and false for other enumerated values."

func init() {
	register(&checkDef{id: "S08", level: "exploration", rule: formRule + " Formulas: a&b, a&!b, !a&b, !a&!b, a|b for every ordered pair from the pool of components with auxiliary variables over the same variables and constants.", fn: s08})
	register(&checkDef{id: "S09", level: "exploration", rule: formRule + " Formulas: every tree of at most 3 connectives over pools of leaves, every nest of one-step contexts to depth 5, deep nests, parts with inner variables.", fn: s09})
	register(&checkDef{id: "S10", level: "exploration", rule: formRule + " Formulas: guarded quantifiers (plain, negated, nested, three levels) over bodies that use the guard and inner variables in every component.", fn: s10})
	register(&checkDef{id: "S11", level: "exploration", rule: "One evaluation is one assignment of all value literals of the declared variables (all 2^(3*dim*vars) of them for small dimensions): the encoding must be satisfiable exactly for those with one value per feature.", fn: s11})
}
