package main

import (
	"fmt"
	"math"

	"github.com/jtcaraball/goexpdt/cnf"
)

// listed is a formula with the clauses that it must have.
type listed struct {
	f      cnf.CNF
	sc, cc []cls
	tv     int // lower bound of its top variable
	how    string
}

func (l listed) check(r *Run, what func() string) {
	s, c := l.f.Clauses()
	r.Eval(true)
	if canon(s) != canon(l.sc) || canon(c) != canon(l.cc) {
		Failf("%s: %s has semantic clauses %.300s and consistency clauses %.300s, expected %.300s and %.300s", what(), l.how, fmt.Sprint(s), fmt.Sprint(c), fmt.Sprint(l.sc), fmt.Sprint(l.cc))
	}
	if m := maxi(maxAbs(s, c), l.tv); l.f.TopV() < m {
		Failf("%s: %s has top variable %d, required at least %d", what(), l.how, l.f.TopV(), m)
	}
}

func (l listed) add(sem bool, cs []cls, how string) listed {
	o := listed{tv: l.tv, how: l.how + how, sc: l.sc, cc: l.cc}
	if sem {
		o.f = l.f.AppendSemantics(cpClauses(cs)...)
		o.sc = append(l.sc[:len(l.sc):len(l.sc)], cs...)
	} else {
		o.f = l.f.AppendConsistency(cpClauses(cs)...)
		o.cc = append(l.cc[:len(l.cc):len(l.cc)], cs...)
	}
	return o
}

func (l listed) conj(g listed, how string) listed {
	return listed{
		f:  l.f.Conjunction(g.f),
		sc: append(l.sc[:len(l.sc):len(l.sc)], g.sc...),
		cc: append(l.cc[:len(l.cc):len(l.cc)], g.cc...),
		tv: l.tv, how: l.how + how,
	}
}

func fromList(sc []cls, how string) listed {
	return listed{f: cnf.FromClauses(cpClauses(sc)), sc: sc, tv: maxAbs(sc), how: how}
}

// n03Contents: the clauses of the parts, whatever they are: all pairs of small
// clauses and of clauses that are alike, in every kind.
func n03Contents(r *Run) {
	put := func(cs []cls, place []int) []cls {
		out := cpClauses(cs)
		for _, c := range out {
			for i, l := range c {
				if l < 0 {
					c[i] = -place[-l-1]
				} else {
					c[i] = place[l-1]
				}
			}
		}
		return out
	}
	small := clausesOver(2, 3)
	alike := clausesOver(6, 2)
	spaces := []struct {
		cs    []cls
		place []int
	}{
		{small, []int{1, 2}},
		{small, []int{1 << 31, 1<<32 + 1}},
		{small, []int{math.MaxInt, 7}},
		{alike, []int{1, 2, 11, 12, 111, 112}},
	}
	for _, sp := range spaces {
		cs := put(sp.cs, sp.place)
		for i := range cs {
			i, sp := i, sp
			r.Case(func() string {
				return fmt.Sprintf("clause %v with every other one over the variables %v", cs[i], sp.place)
			}, func() {
				for j := range cs {
					a, b, c := cs[i], cs[j], cs[(i*7+j)%len(cs)]
					what := func() string { return fmt.Sprintf("clauses a=%v b=%v c=%v", a, b, c) }
					fs := []listed{
						fromList([]cls{a}, "a"), fromList([]cls{b, c}, "b,c"),
						fromList(nil, "empty").add(false, []cls{b}, " with consistency b"),
						fromList([]cls{a}, "a").add(false, []cls{c, b}, " with consistency c,b"),
						{f: cnf.FalseCNF, sc: []cls{{}}, how: "false"},
						{f: cnf.TrueCNF, how: "true"},
					}
					for x, f := range fs {
						f.check(r, what)
						f.add(true, []cls{b}, " and b").check(r, what)
						f.add(false, []cls{b, a, b}, " with consistency b,a,b").check(r, what)
						for y, g := range fs {
							if (x+y+i+j)%2 == 0 || r.Thorough() {
								h := f.conj(g, " and ("+g.how+")")
								h.check(r, what)
								h.conj(f, " and ("+f.how+")").check(r, what)
							}
						}
					}
				}
			})
		}
	}
	// a large number at each position
	for _, n := range []int{1, 2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 129, 257, 1025} {
		n := n
		r.Case(func() string { return fmt.Sprintf("%d clauses, the top variable at each position", n) }, func() {
			for p := 0; p < n; p++ {
				for w := 1; w <= 4; w++ {
					var cs []cls
					for k := 0; k < n; k++ {
						c := cls{}
						for q := 0; q < w; q++ {
							c = append(c, 1+(k+q)%5)
						}
						cs = append(cs, c)
					}
					l := 1000 + p
					if p%2 == 0 {
						l = -l
					}
					cs[p][(p+w)%w] = l
					what := func() string { return fmt.Sprintf("%d clauses of %d literals, %d in clause %d", n, w, l, p) }
					fromList(cs, "the clauses").check(r, what)
					e := fromList([]cls{{3}}, "3")
					e.add(true, cs, " and the clauses").check(r, what)
					e.add(false, cs, " with the clauses").check(r, what)
					e.conj(fromList(cs, ""), " and the clauses").check(r, what)
				}
			}
		})
	}
}

// cnfChains grows formulas clause by clause and derives others from each one
// on the way: whatever arrays they share, every one of them keeps its clauses.
func cnfChains(r *Run) {
	n := 40
	if r.Thorough() {
		n = 150
	}
	if r.Deep() {
		n = 600
	}
	for _, by := range []int{1, 2, 3, 5} { // clauses added in each step
		for kind := 0; kind < 4; kind++ { // semantic, consistency, alternating, by conjunction
			for br := 0; br < 5; br++ { // how the others are derived
				by, kind, br := by, kind, br
				r.Case(func() string {
					return fmt.Sprintf("chain of %d steps of %d clauses, kind %d, branches %d", n, by, kind, br)
				}, func() {
					v := 0
					next := func() []cls {
						var cs []cls
						for k := 0; k < by; k++ {
							v++
							cs = append(cs, cls{v, -(v%7 + 1)})
						}
						return cs
					}
					step := func(l listed, i int) listed {
						switch {
						case kind == 0 || kind == 2 && i%2 == 0:
							return l.add(true, next(), "")
						case kind == 1 || kind == 2:
							return l.add(false, next(), "")
						}
						return l.conj(fromList(next(), "").add(false, next(), ""), "")
					}
					all := []listed{fromList(next(), "formula")}
					named := func(l listed, how string) listed { l.how = how; return l }
					for i := 0; i < n; i++ {
						last := all[0]
						for k := len(all) - 1; k > 0; k-- {
							if all[k].how[0] == 'c' {
								last = all[k]
								break
							}
						}
						if br == 1 || br == 3 { // before the chain goes on
							all = append(all, named(step(last, i), fmt.Sprintf("branch before step %d", i)))
						}
						all = append(all, named(step(last, i), fmt.Sprintf("chain step %d", i)))
						if br == 2 || br == 3 { // after it went on
							all = append(all, named(step(last, i), fmt.Sprintf("branch after step %d", i)))
						}
						r.C["transitions"]++
					}
					if br == 4 { // from all formulas, last first
						for k := len(all) - 1; k >= 0; k-- {
							all = append(all, named(step(all[k], k), fmt.Sprintf("late branch of %s", all[k].how)))
						}
					}
					if br == 3 { // negations share clauses too
						for k := range all {
							if k%3 == 0 {
								all[k].f.Negate(1 << 20)
								all[k].f.Conjunction(all[k].f).Negate()
							}
						}
					}
					for k := len(all) - 1; k >= 0; k -= maxi(1, len(all)/300) {
						all[k].check(r, func() string { return fmt.Sprintf("after %d formulas were derived", len(all)) })
					}
					r.C["traces_validated_against_impl"]++
				})
			}
		}
	}
}
