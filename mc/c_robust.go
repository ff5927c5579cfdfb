package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

// ---------- R01 ----------

// badUnit is a malformed query (for the model and the outer scope it comes
// with).
type badUnit struct {
	name  string
	q     enc
	m     model
	outer *outerScope
	key   bool // representative of its kind: nested deeper
	alt   bool // repeats a case on another model: nested once
}

type outerScope struct {
	target string
	val    inst
}

type wrap struct {
	name string
	f    func(q enc) enc
	top  bool // may leave the variable "z" declared at the outer level
}

func badWraps(d int) []wrap {
	full := make(inst, d)
	for i := range full {
		full[i] = O
	}
	var ws []wrap
	ws = append(ws, wrap{"Not", func(q enc) enc { return logop.Not{Q: q} }, false})
	partners := []struct {
		n string
		q enc
	}{
		{"T", trivQ(true)},
		{"F", trivQ(false)},
		{"p", atom(kSub, va("x"), ca(full)).build()},
	}
	for _, p := range partners {
		p := p
		ws = append(ws,
			wrap{"And[" + p.n + ",.]", func(q enc) enc { return logop.And{Q1: p.q, Q2: q} }, false},
			wrap{"And[.," + p.n + "]", func(q enc) enc { return logop.And{Q1: q, Q2: p.q} }, false},
			wrap{"Or[" + p.n + ",.]", func(q enc) enc { return logop.Or{Q1: p.q, Q2: q} }, false},
			wrap{"Or[.," + p.n + "]", func(q enc) enc { return logop.Or{Q1: q, Q2: p.q} }, false})
	}
	ws = append(ws,
		wrap{"With x", func(q enc) enc { return logop.WithVar{I: "x", Q: q} }, false},
		wrap{"With z", func(q enc) enc { return logop.WithVar{I: "z", Q: q} }, true},
		wrap{"All g", func(q enc) enc { return logop.ForAllGuarded{I: query.QConst{ID: "g"}, Q: q} }, false},
		wrap{"All h With z", func(q enc) enc {
			return logop.ForAllGuarded{I: query.QConst{ID: "h"}, Q: logop.WithVar{I: "z", Q: q}}
		}, false})
	return ws
}

// someArgs returns every argument list of the kind over variables and the
// constants given by the choice functions.
func argForms(kind string) [][]bool {
	n := arity(kind)
	var out [][]bool
	for m := 0; m < 1<<n; m++ {
		f := make([]bool, n)
		for i := range f {
			f[i] = m>>i&1 == 1
		}
		out = append(out, f)
	}
	return out
}

var allKinds = []string{kSub, kCons, kFull, kLEL, kNode, kAllT, kAllF, kDFS, kLEH, kHEPR}

// r01Alt returns the cases that are not about the model, on other models.
func r01Alt(d int) []badUnit {
	var us []badUnit
	alts := []struct {
		name string
		t    *tree
	}{
		{"one positive leaf", leafT}, {"one negative leaf", leafF},
		{"one node over two positive leaves", &tree{feat: d - 1, z: leafT, o: leafT}},
		{"one node over two negative leaves", &tree{feat: 0, z: leafF, o: leafF}},
		{"one node", &tree{feat: d - 1, z: leafT, o: leafF}},
		{"a chain of positive leaves", chainOf(d, true)},
	}
	for ai, a := range alts {
		for _, u := range r01Units(d, false, a.t, true) {
			if ai > 1 && strings.HasPrefix(u.name, "hepr") {
				continue
			}
			u.key, u.alt = false, true
			u.name += " on " + a.name
			us = append(us, u)
		}
	}
	return us
}

// chainOf decides feature after feature; all leaves have the value v.
func chainOf(d int, v bool) *tree {
	t := &tree{leaf: true, val: v}
	for i := d - 1; i >= 0; i-- {
		t = &tree{feat: i, z: t, o: &tree{leaf: true, val: v}}
	}
	return t
}

func r01Units(d int, th bool, t *tree, onlyGood bool) []badUnit {
	var us []badUnit
	add := func(u badUnit) { us = append(us, u) }
	full := make(inst, d)
	for i := range full {
		full[i] = O
	}
	mixed := append(inst{}, full...)
	mixed[0] = B
	good := mkModel(d, t, 0)
	vars := []string{"x", "y", "w"}
	mk := func(kind string, form []bool, cs []arg) []arg {
		a := make([]arg, len(form))
		for i := range a {
			if form[i] {
				a[i] = va(vars[i])
			} else {
				a[i] = cs[i]
			}
		}
		return a
	}
	same := func(c arg) []arg { return []arg{c, c, c} }
	pref := seq(d)

	// constants of the wrong length
	var lens []inst
	for _, l := range []int{0, 1, d - 1, d + 1, d + 2, 2 * d, 3 * d} {
		if l == d || l < 0 {
			continue
		}
		for p := 0; p < 4; p++ {
			v := make(inst, l)
			for i := range v {
				switch p {
				case 1:
					v[i] = O
				case 2:
					v[i] = query.FeatV((i + 1) % 3)
				case 3:
					v[i] = Z
				}
			}
			lens = append(lens, v)
			if l == 0 {
				break
			}
		}
	}
	lens = append(lens, nil)
	for _, kind := range allKinds {
		for _, form := range argForms(kind) {
			for pos := range form {
				if form[pos] {
					continue
				}
				for li, w := range lens {
					for _, other := range []inst{full, mixed, make(inst, d)} {
						if arity(kind) == 1 && !ieq(other, full) {
							continue
						}
						cs := same(ca(other))
						cs[pos] = ca(w)
						key := li == 1 && ieq(other, full)
						nm := fmt.Sprintf("%s%v with %s (%d features) as argument %d, others %s", kind, form, istr(w), len(w), pos, istr(other))
						add(bu(nm, mkAtom(kind, mk(kind, form, cs), pref), good, nil, key))
						if kind == kHEPR {
							add(bu(nm+", no preference", mkAtom(kind, mk(kind, form, cs), nil), good, nil, false))
							add(bu(nm+", one preference", mkAtom(kind, mk(kind, form, cs), []int{d - 1}), good, nil, false))
						}
						// the same through a scope; the literal part is right
						cs[pos] = cga("o", full)
						add(bu(nm+", by an outer scope", mkAtom(kind, mk(kind, form, cs), pref), good, &outerScope{"o", w}, key))
						cs[pos] = ga("o")
						add(bu(nm+", by an outer scope, no literal", mkAtom(kind, mk(kind, form, cs), pref), good, &outerScope{"o", w}, false))
					}
				}
				// a guard nobody sets
				cs := same(ca(full))
				cs[pos] = ga("nobody")
				add(bu(fmt.Sprintf("%s%v with an unbound guard as argument %d", kind, form, pos), mkAtom(kind, mk(kind, form, cs), pref), good, nil, false))
				// wrong twice
				cs = same(ca(lens[0]))
				add(bu(fmt.Sprintf("%s%v with only empty constants", kind, form), mkAtom(kind, mk(kind, form, cs), pref), good, nil, false))
				cs = same(ca(append(inst{}, append(full, O)...)))
				add(bu(fmt.Sprintf("%s%v with constants all one too long", kind, form), mkAtom(kind, mk(kind, form, cs), pref), good, nil, false))
			}
		}
	}

	// missing sub-queries
	ok := atom(kSub, va("x"), ca(full)).build()
	okp := trivQ(true)
	okn := trivQ(false)
	for _, p := range []enc{ok, okp, okn} {
		add(bu("And with a missing right part", logop.And{Q1: p}, good, nil, true))
		add(bu("And with a missing left part", logop.And{Q2: p}, good, nil, true))
		add(bu("Or with a missing right part", logop.Or{Q1: p}, good, nil, true))
		add(bu("Or with a missing left part", logop.Or{Q2: p}, good, nil, true))
	}
	add(bu("And with nothing", logop.And{}, good, nil, true))
	add(bu("Or with nothing", logop.Or{}, good, nil, true))
	add(bu("Not of nothing", logop.Not{}, good, nil, true))
	add(bu("WithVar of nothing", logop.WithVar{I: "u"}, good, nil, true))
	add(bu("WithVar x of nothing", logop.WithVar{I: "x"}, good, nil, true))
	add(bu("ForAllGuarded of nothing", logop.ForAllGuarded{I: query.QConst{ID: "k"}}, good, nil, true))

	// missing generators
	cs := []inst{full, mixed, make(inst, d)}
	for _, c := range cs {
		k := query.QConst{Val: c}
		n := func(s string, q enc) {
			add(bu(s+" without its generator, constant "+istr(c), q, good, nil, ieq(c, full)))
		}
		n("lel.VarConst", lel.VarConst{I1: "x", I2: k})
		n("lel.ConstVar", lel.ConstVar{I1: k, I2: "x"})
		n("leh.ConstConstVar", leh.ConstConstVar{I1: k, I2: k, I3: "x"})
		n("leh.ConstVarConst", leh.ConstVarConst{I1: k, I2: "x", I3: k})
		n("leh.ConstVarVar", leh.ConstVarVar{I1: k, I2: "x", I3: "y"})
		n("leh.VarConstConst", leh.VarConstConst{I1: "x", I2: k, I3: k})
		n("leh.VarConstVar", leh.VarConstVar{I1: "x", I2: k, I3: "y"})
		n("leh.VarConstVar (equality)", leh.VarConstVar{I1: "x", I2: k, I3: "y", HammingDistanceVarGen: gHD})
		n("leh.VarConstVar (distance)", leh.VarConstVar{I1: "x", I2: k, I3: "y", EqualFeatureVarGen: gEQ})
		n("leh.VarVarConst", leh.VarVarConst{I1: "x", I2: "y", I3: k})
		n("leh.VarVarConst (equality)", leh.VarVarConst{I1: "x", I2: "y", I3: k, HammingDistanceVarGen: gHD})
		n("leh.VarVarConst (distance)", leh.VarVarConst{I1: "x", I2: "y", I3: k, EqualFeatureVarGen: gEQ})
		for _, p := range [][]int{nil, {d - 1}, pref} {
			n(fmt.Sprint("hepr.VarConst ", p), hepr.VarConst{I1: "x", I2: k, Preference: p})
			n(fmt.Sprint("hepr.ConstVar ", p), hepr.ConstVar{I1: k, I2: "x", Preference: p})
		}
	}
	g := func(s string, q enc) { add(bu(s+" without its generator", q, good, nil, true)) }
	g("lel.VarVar", lel.VarVar{I1: "x", I2: "y"})
	g("isnode.Var", isnode.Var{I: "x"})
	g("allcomp.Var", allcomp.Var{I: "x", LeafValue: true})
	g("allcomp.Var", allcomp.Var{I: "x"})
	g("leh.VarVarVar", leh.VarVarVar{I1: "x", I2: "y", I3: "w"})
	g("leh.VarVarVar (equality)", leh.VarVarVar{I1: "x", I2: "y", I3: "w", HammingDistanceVarGen: gHD})
	g("leh.VarVarVar (distance)", leh.VarVarVar{I1: "x", I2: "y", I3: "w", EqualFeatureVarGen: gEQ})
	for _, p := range [][]int{nil, {d - 1}, pref} {
		g(fmt.Sprint("hepr.VarVar ", p), hepr.VarVar{I1: "x", I2: "y", Preference: p})
	}

	// invalid preferences: every list over -1..d+1 up to length 3 that is not
	// valid, and longer ones
	var prefs [][]int
	var rec func(p []int)
	maxLen := 3
	if th {
		maxLen = d + 1
	}
	rec = func(p []int) {
		seen := map[int]bool{}
		bad := false
		for _, i := range p {
			if i < 0 || i >= d || seen[i] {
				bad = true
			}
			seen[i] = true
		}
		if bad {
			prefs = append(prefs, append([]int{}, p...))
		}
		if len(p) == maxLen {
			return
		}
		for i := -1; i <= d+1; i++ {
			rec(append(p, i))
		}
	}
	rec(nil)
	// a repetition after every number of valid features, of each of them
	if d <= 6 {
		for n := 1; n <= d; n++ {
			for i := 0; i < n; i++ {
				if n+1 > maxLen {
					prefs = append(prefs, append(seq(n), i), append(append([]int{}, revs(d)[:n]...), revs(d)[i]))
				}
				if n < d && n+2 > maxLen {
					prefs = append(prefs, append(append(seq(n), i), revs(d)[:d-n]...))
				}
			}
			prefs = append(prefs, append(seq(n), -1), append(seq(n), d))
		}
	}
	prefs = append(prefs, append(seq(d), 0), append(seq(d), d), append([]int{1 << 40}, seq(d)...), []int{-1 << 40})
	for _, form := range argForms(kHEPR) {
		for _, c := range cs {
			if form[0] && form[1] && !ieq(c, full) {
				continue
			}
			for pi, p := range prefs {
				add(bu(fmt.Sprintf("hepr%v with preference %v, constants %s", form, p, istr(c)), mkAtom(kHEPR, mk(kHEPR, form, same(ca(c))), p), good, nil, pi == 0 && ieq(c, full)))
			}
		}
	}

	if onlyGood {
		return us
	}

	// empty models
	for _, kind := range []string{kNode, kAllT, kAllF, kDFS} {
		for _, form := range argForms(kind) {
			for _, c := range cs {
				if form[0] && !ieq(c, full) {
					continue
				}
				for i, nodes := range [][]query.Node{nil, {}} {
					add(bu(fmt.Sprintf("%s%v %s on an empty model (%d)", kind, form, istr(c), i), mkAtom(kind, mk(kind, form, same(ca(c))), nil), model{d, nodes}, nil, ieq(c, full)))
				}
			}
		}
	}
	for _, p := range []enc{ok, okp, okn} {
		add(bu("ForAllGuarded on an empty model", logop.ForAllGuarded{I: query.QConst{ID: "k"}, Q: p}, model{d, nil}, nil, true))
	}

	// malformed nodes: the node at the end of every decision path down to
	// depth d has a feature or child out of range
	for _, form := range []bool{true, false} {
		for depth := 0; depth < d; depth++ {
			for dirs := 0; dirs < 1<<depth; dirs++ {
				for what := 0; what < 8; what++ {
					for leaf := 0; leaf < 2; leaf++ {
						m, path, usedBoth := brokenModel(d, depth, dirs, what, leaf == 1)
						for _, kind := range []string{kNode, kAllT, kAllF, kDFS, "forall"} {
							nm := fmt.Sprintf("%s(variable: %v) on a model with %s at depth %d (path %b, leaves %v)", kind, form, brokenName(what), depth, dirs, leaf == 1)
							key := depth == d-1 && dirs == 0
							if kind == "forall" {
								if !form {
									continue
								}
								for i, p := range []enc{ok, okp, okn} {
									add(bu(nm, logop.ForAllGuarded{I: query.QConst{ID: "k"}, Q: p}, m, nil, key && i == 0))
								}
								continue
							}
							if form {
								add(bu(nm, mkAtom(kind, []arg{va("x")}, nil), m, nil, key))
								continue
							}
							// constants that have to look at the broken node
							for _, ud := range []bool{false, true} {
								c := append(inst{}, path...)
								if ud { // features below the path undefined
									for i := depth; i < d; i++ {
										c[i] = B
									}
								}
								switch kind {
								case kNode:
									// a decided node with the bad child is only read on
									// the way the constant goes
									if what >= 4 && (ud || (what%2 == 0) != (c[depth] == Z)) {
										continue
									}
									if ud && what < 4 {
										continue
									}
								case kAllT, kAllF:
									// side leaves never end the search: the path is
									// decided by the constant
									if what >= 4 && !ud && (what%2 == 0) != (c[depth] == Z) {
										continue
									}
									if ud && usedBoth {
										continue
									}
								}
								add(bu(nm+" constant "+istr(c), mkAtom(kind, []arg{ca(c)}, nil), m, nil, key && !ud))
							}
						}
					}
				}
			}
		}
	}
	return us
}

func brokenName(what int) string {
	return []string{"feature -1", "feature = dimension", "feature = 1000", "feature -1000",
		"zero child = length", "one child = length", "zero child = 1000", "one child = 1000"}[what]
}

// brokenModel is a chain deciding feature i at depth i, whose node at the
// given depth is malformed. path is a full instance that gets there and goes
// on to the broken child.
func brokenModel(d, depth, dirs, what int, leaf bool) (model, inst, bool) {
	var nodes []query.Node
	path := make(inst, d)
	for i := range path {
		path[i] = Z
	}
	for i := 0; i <= depth; i++ {
		// node 2i is the decision, 2i+1 its leaf beside the path
		n := query.Node{Feat: i, ZChild: 2*i + 2, OChild: 2*i + 1}
		if i < depth && dirs>>i&1 == 1 {
			path[i] = O
			n.ZChild, n.OChild = n.OChild, n.ZChild
		}
		nodes = append(nodes, n, query.Node{Value: leaf, ZChild: query.NoChild, OChild: query.NoChild})
	}
	nodes = append(nodes, query.Node{Value: leaf, ZChild: query.NoChild, OChild: query.NoChild})
	b := &nodes[2*depth]
	switch what {
	case 0:
		b.Feat = -1
	case 1:
		b.Feat = d
	case 2:
		b.Feat = 1000
	case 3:
		b.Feat = -1000
	case 4:
		b.ZChild = len(nodes)
	case 5:
		b.OChild = len(nodes)
	case 6:
		b.ZChild = 1000
	case 7:
		b.OChild = 1000
	}
	if what == 5 || what == 7 {
		path[depth] = O
	}
	return model{d, nodes}, path, false
}

func r01(r *Run) {
	th := r.Thorough()
	dims := []int{1, 2, 3}
	if th {
		dims = []int{1, 2, 3, 4}
	}
	scopeState := func(ctx query.QContext, vars []query.QVar) string {
		s := ""
		for _, v := range vars {
			s += fmt.Sprintf("%q ", ctx.ScopeVar(v))
		}
		for _, g := range []string{"g", "h", "k", "o", "out"} {
			c, ok := ctx.ScopeConst(query.QConst{ID: g})
			s += fmt.Sprint(ok, istr(c.Val), " ")
		}
		return s
	}
	for _, d := range dims {
		d := d
		units := append(r01Units(d, th, chain(seq(d), 1, true), false), r01Alt(d)...)
		ws := badWraps(d)
		r.C["max_malformed_queries_of_a_dimension"] = max(r.C["max_malformed_queries_of_a_dimension"], int64(len(units)))
		check := func(u badUnit, q enc, names func() string, leavesZ bool, deep int, fk *fake) {
			for _, outer := range []bool{false, true} {
				what := func() string {
					return fmt.Sprintf("%s around %s (dimension %d, outer quantifier: %v)", names(), u.name, d, outer || u.outer != nil)
				}
				fresh := func() query.QContext {
					ctx := query.BasicQContext(u.m)
					if outer {
						ctx.AddScope("out")
						ctx.SetScope(3, make(inst, d))
						ctx.AddVar("x")
					}
					if u.outer != nil {
						ctx.AddScope(u.outer.target)
						ctx.SetScope(1, u.outer.val)
						ctx.AddVar("y")
					}
					return ctx
				}
				ctx := fresh()
				vars := []query.QVar{"y", "w", "unknown"}
				if outer {
					vars = append(vars, "x")
				}
				if !leavesZ {
					vars = append(vars, "z")
				}
				before := scopeState(ctx, vars)
				F, err := q.Encoding(ctx)
				r.Eval(true)
				if err == nil {
					Failf("%s: no error (formula of %d variables)", what(), F.TopV())
				}
				if after := scopeState(ctx, vars); after != before {
					Failf("%s: the scopes are %s after the error, %s before", what(), after, before)
				}
				n := 0
				for ctx.PopScope() == nil {
					if n++; n > 20 {
						break
					}
				}
				wantN := 0
				if outer {
					wantN++
				}
				if u.outer != nil {
					wantN++
				}
				if n != wantN {
					Failf("%s: %d scopes are open after the error, %d before", what(), n, wantN)
				}
				solvers := []compute.Solver{&inproc{}}
				if fk != nil && !outer {
					solvers = append(solvers, fk.solver())
				}
				for si, s := range solvers {
					for _, neg := range []bool{false, true} {
						res, err := compute.QDTFAtom{Query: q, Negated: neg}.Sat(fresh(), s)
						if err == nil || errors.Is(err, compute.UnsatError) {
							Failf("%s: evaluation (negated: %v, solver %d) gives %v, error %v", what(), neg, si, res, err)
						}
					}
					if deep > 1 || outer || u.outer != nil {
						continue
					}
					tf := func(v query.QVar) compute.Encodable { return trivQ(true) }
					bad := func(v query.QVar) compute.Encodable { return q }
					for k, f := range []struct {
						fg compute.SVFormula
						og compute.VCOrder
					}{
						{bad, func(v query.QVar, c query.QConst) compute.Encodable { return trivQ(false) }},
						{tf, func(v query.QVar, c query.QConst) compute.Encodable { return q }},
					} {
						if si == 1 && k == 1 {
							continue // needs a solver that solves
						}
						if k == 1 && u.m.nodes == nil {
							continue
						}
						out, err := compute.ComputeOptim(f.fg, f.og, "v", fresh(), s)
						r.C["optimum_computations"]++
						if err == nil || errors.Is(err, compute.UnsatError) {
							Failf("%s: optimum computation (malformed %s) gives %v, error %v", what(), []string{"property", "order"}[k], out, err)
						}
					}
				}
			}
			r.Sample(func() string { return names() + " around " + u.name })
		}
		for ui, u := range units {
			u := u
			ui := ui
			r.Case(func() string { return fmt.Sprintf("dimension %d, %s", d, u.name) }, func() {
				var fk *fake
				if u.key {
					fk = newFake(r)
					fk.script(fakeStep{Exit: 10, Stdout: "s SATISFIABLE\nv 0\n"})
				}
				check(u, u.q, func() string { return "nothing" }, false, 0, fk)
				for i, w := range ws {
					w := w
					if u.alt && (i+ui)%4 != 0 && i > 0 {
						continue
					}
					q1 := w.f(u.q)
					check(u, q1, func() string { return w.name }, w.top, 1, fk)
					for j, w2 := range ws {
						w2 := w2
						if u.alt {
							break
						}
						if !u.key && !th && (i+j+ui)%5 != 0 {
							continue
						}
						q2 := w2.f(q1)
						check(u, q2, func() string { return w2.name + " " + w.name }, w.top || w2.top, 2, nil)
						if !u.key && !th {
							continue
						}
						for k, w3 := range ws {
							if (i+j+k+ui)%11 != 0 && !(th && u.key) || th && !u.key && (i+j*3+k+ui)%5 != 0 {
								continue
							}
							w3 := w3
							check(u, w3.f(q2), func() string { return w3.name + " " + w2.name + " " + w.name }, w.top || w2.top || w3.top, 3, nil)
						}
					}
				}
			})
		}
	}
	// no context
	for _, d := range dims {
		d := d
		r.Case(func() string { return fmt.Sprintf("no context, dimension %d", d) }, func() {
			full := make(inst, d)
			for i := range full {
				full[i] = O
			}
			ws := badWraps(d)
			var qs []enc
			var names []string
			for _, kind := range allKinds {
				for _, form := range argForms(kind) {
					for _, c := range []inst{full, make(inst, d)} {
						a := make([]arg, len(form))
						for i := range a {
							if form[i] {
								a[i] = va("x")
							} else {
								a[i] = ca(c)
							}
						}
						qs = append(qs, mkAtom(kind, a, seq(d)))
						names = append(names, fmt.Sprint(kind, form, istr(c)))
					}
				}
			}
			try := func(q enc, name string) {
				r.Eval(true)
				if _, err := q.Encoding(nil); err == nil {
					Failf("%s without a context: no error", name)
				}
				for _, neg := range []bool{false, true} {
					res, err := compute.QDTFAtom{Query: q, Negated: neg}.Sat(nil, &inproc{})
					if err == nil || errors.Is(err, compute.UnsatError) {
						Failf("%s without a context: answer %v, error %v", name, res, err)
					}
				}
			}
			for i, q := range qs {
				try(q, names[i])
				for _, w := range ws {
					try(w.f(q), w.name+" "+names[i])
					for _, w2 := range ws {
						try(w2.f(w.f(q)), w2.name+" "+w.name+" "+names[i])
					}
				}
				out, err := compute.ComputeOptim(
					func(v query.QVar) compute.Encodable { return q },
					func(v query.QVar, c query.QConst) compute.Encodable { return q }, "v", nil, &inproc{})
				if err == nil {
					Failf("optimum of %s without a context: %v", names[i], out)
				}
			}
			for _, w := range ws {
				try(w.f(trivQ(true)), w.name+" T")
				try(w.f(trivQ(false)), w.name+" F")
			}
		})
	}
	// invalid preferences over more features
	prefCase := func(d int, what string, gen func(func(p []int))) {
		r.Case(func() string { return fmt.Sprintf("invalid preferences over %d features: %s", d, what) }, func() {
			m := mkModel(d, &tree{leaf: true, val: true}, 0)
			cs := []inst{fill(d, O), fill(d, B), fill(d, B)}
			cs[2][0], cs[2][d-1] = Z, O
			forms := argForms(kHEPR)
			gen(func(p []int) {
				for _, form := range forms {
					for ci, c := range cs {
						if ci > 0 && !form[0] && !form[1] {
							continue
						}
						var a []arg
						for i := range form {
							if form[i] {
								a = append(a, ca(c))
							} else {
								a = append(a, va(fmt.Sprint("x", i)))
							}
						}
						_, err := mkAtom(kHEPR, a, p).Encoding(query.BasicQContext(m))
						r.Eval(true)
						if err == nil {
							Failf("hepr%v over %d features with the preference %v, constants %s: no error", form, d, p, istr(c))
						}
					}
				}
			})
		})
	}
	for d := 4; d <= 5; d++ {
		for first := -1; first <= d; first++ {
			d, first := d, first
			prefCase(d, fmt.Sprintf("every list of length %d at most that starts with %d", d+1, first), func(f func(p []int)) {
				var rec func(p []int)
				rec = func(p []int) {
					seen := map[int]bool{}
					bad := false
					for _, i := range p {
						bad = bad || i < 0 || i >= d || seen[i]
						seen[i] = true
					}
					if bad {
						f(append([]int{}, p...))
					}
					if len(p) == d+1 {
						return
					}
					for i := -1; i <= d; i++ {
						rec(append(p, i))
					}
				}
				rec([]int{first})
			})
		}
	}
	for _, d := range []int{6, 7, 8, 9, 16, 17, 31, 33, 64, 65, 70, 129, 257} {
		d := d
		prefCase(d, "one repetition or one feature out of range", func(f func(p []int)) {
			step := 1 + d/40
			for _, base := range [][]int{seq(d), revs(d)} {
				for n := 1; n <= d; n++ {
					if n > 3 && n < d-3 && n%step != 0 {
						continue
					}
					for i := 0; i < n; i += step {
						f(append(append([]int{}, base[:n]...), base[i]))
						if n < d {
							f(append(append(append([]int{}, base[:n]...), base[i]), base[n:]...))
						}
					}
					f(append(append([]int{}, base[:n]...), base[n-1]))
					for _, x := range []int{-1, d, d + 1, 256, 65536, -65536 + 1, 1 << 32, -1 << 62} {
						if x >= 0 && x < d {
							continue
						}
						f(append(append(append([]int{}, base[:n]...), x), base[n:]...))
					}
				}
			}
		})
	}
	// an error of a component of the user's own is passed on from any place
	own := errors.New("the user's own error")
	for d := 1; d <= 2; d++ {
		d := d
		r.Case(func() string { return fmt.Sprintf("own error, dimension %d", d) }, func() {
			ws := badWraps(d)
			for at := 1; at <= 4; at++ {
				for _, w := range ws {
					for _, w2 := range ws {
						for _, w3 := range ws {
							q := &failAt{n: at, err: own}
							ctx := query.BasicQContext(mkModel(d, chain(seq(d), 2, false), 1))
							_, err := w3.f(w2.f(w.f(q))).Encoding(ctx)
							r.Eval(true)
							if q.calls >= at && !errors.Is(err, own) {
								Failf("%s %s %s: error %v although encoding %d of the sub-query failed", w3.name, w2.name, w.name, err, at)
							}
							if q.calls < at && err != nil {
								Failf("%s %s %s: unexpected error %v", w3.name, w2.name, w.name, err)
							}
							if ctx.PopScope() == nil {
								Failf("%s %s %s: a scope is left open", w3.name, w2.name, w.name)
							}
						}
					}
				}
			}
		})
	}
}

// failAt fails at its n-th encoding.
type failAt struct {
	n, calls int
	err      error
}

func (f *failAt) Encoding(ctx query.QContext) (c cnf.CNF, err error) {
	f.calls++
	if f.calls == f.n {
		return c, f.err
	}
	return cnf.TrueCNF, nil
}

func init() {
	register(&checkDef{id: "R01", level: "exploration", rule: "One evaluation is one malformed query (component, malformed argument, nesting, with and without an outer quantifier): its encoding must fail without panicking and leave the scopes as they were; atom evaluation and optimum computation must return an error. All are non-trivial.", fn: r01})
}

// fill is the instance of d features with the value v at each.
func fill(d int, v query.FeatV) inst {
	out := make(inst, d)
	for i := range out {
		out[i] = v
	}
	return out
}

func bu(name string, q enc, m model, outer *outerScope, key bool) badUnit {
	return badUnit{name, q, m, outer, key, false}
}
