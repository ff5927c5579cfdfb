package main

import (
	"fmt"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// S01-S07: one component, every argument form, every way to bind constants and
// variables, both polarities, every value.

const nModes = 4

// aliasPatterns returns the ways in which the variable positions of mask can
// be filled with (possibly the same) variables.
func aliasPatterns(n, mask int) [][]int {
	var pos []int
	for i := 0; i < n; i++ {
		if mask>>(n-1-i)&1 == 1 {
			pos = append(pos, i)
		}
	}
	var out [][]int
	cur := make([]int, n)
	var rec func(k, used int)
	rec = func(k, used int) {
		if k == len(pos) {
			out = append(out, append([]int{}, cur...))
			return
		}
		for v := 0; v <= used && v < len(pos); v++ {
			cur[pos[k]] = v
			u := used
			if v == used {
				u++
			}
			rec(k+1, u)
		}
	}
	rec(0, 0)
	// the pattern with all variables different first
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var varNames = []string{"x", "y", "z"}

type atomSpec struct {
	kind   string
	dim    int
	t      *tree
	layout int
	prefs  [][]int
	ins    []inst
	modes  []int
	noCCC  bool
	masks  []int
	// fast: use the structural reference, which does not enumerate completions
	// (large dimensions; the self test compares the two on small ones)
	fast bool
}

func alternating(d int) inst {
	v := make(inst, d)
	for i := range v {
		v[i] = query.FeatV(2 - i%2)
	}
	return v
}

// edges returns the positions of a dimension around which representations
// change: machine word sizes, digits, and both ends.
func edges(d int) []int {
	var out []int
	for _, p := range []int{0, 1, 7, 8, 9, 10, 15, 16, 31, 32, 33, 62, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257} {
		if p < d-1 {
			out = append(out, p)
		}
	}
	return append(out, d-1)
}

// edgeInst returns the constant instances and those that differ from one of
// them in one of the positions.
func edgeInst(d int, pos []int) []inst {
	rep := func(f query.FeatV) inst {
		v := make(inst, d)
		for i := range v {
			v[i] = f
		}
		return v
	}
	out := []inst{rep(B), rep(Z), rep(O)}
	for _, p := range pos {
		for _, c := range [][2]query.FeatV{{B, Z}, {B, O}, {Z, B}, {Z, O}} {
			v := rep(c[0])
			v[p] = c[1]
			out = append(out, v)
		}
	}
	return out
}

// edgeLevels returns instances with the numbers of defined features (or, if
// full, of ones) around which representations change.
func edgeLevels(d int, full bool, ks []int) []inst {
	lo := B
	if full {
		lo = Z
	}
	var out []inst
	for _, k := range append(ks, d-1, d) {
		if k < 0 || k > d {
			continue
		}
		a, b := make(inst, d), make(inst, d)
		for i := range a {
			a[i], b[i] = lo, lo
			if i < k {
				a[i] = O
			}
			if i >= d-k {
				b[i] = O
			}
		}
		out = append(out, a)
		if k > 0 && k < d {
			out = append(out, b)
		}
	}
	return out
}

func (r *Run) atomSpace(sp atomSpec) {
	n := arity(sp.kind)
	prefs := sp.prefs
	if prefs == nil {
		prefs = [][]int{nil}
	}
	modes := sp.modes
	if modes == nil {
		modes = []int{0, 1, 2, 3}
	}
	for mask := 0; mask < 1<<n; mask++ {
		if sp.masks != nil {
			ok := false
			for _, m := range sp.masks {
				ok = ok || m == mask
			}
			if !ok {
				continue
			}
		}
		for _, al := range aliasPatterns(n, mask) {
			for _, mode := range modes {
				for _, pref := range prefs {
					for _, neg := range []bool{false, true} {
						mask, al, mode, pref, neg := mask, al, mode, pref, neg
						r.Case(func() string {
							return fmt.Sprintf("%s dim=%d tree=%s layout=%d form=%0*b vars=%v mode=%d pref=%v neg=%v",
								sp.kind, sp.dim, sp.t, sp.layout, n, mask, al, mode, pref, neg)
						}, func() { r.atomCase(sp, n, mask, al, mode, pref, neg) })
					}
				}
			}
		}
	}
}

func (r *Run) atomCase(sp atomSpec, n, mask int, al []int, mode int, pref []int, neg bool) {
	m := mkModel(sp.dim, sp.t, sp.layout)
	var cpos, vpos []int
	nv := 0
	for i := 0; i < n; i++ {
		if mask>>(n-1-i)&1 == 1 {
			vpos = append(vpos, i)
			if al[i]+1 > nv {
				nv = al[i] + 1
			}
		} else {
			cpos = append(cpos, i)
		}
	}
	vals := make([]inst, n)
	ci := make([]int, len(cpos))
	vi := make([]int, nv)
	assume := make([]int, 0, 64)
	var sawT, sawF bool
	evs := int64(0)
	for {
		for k, p := range cpos {
			vals[p] = sp.ins[ci[k]]
		}
		// ----- build the context and the component -----
		ctx := query.BasicQContext(m)
		args := make([]arg, n)
		for i := 0; i < nv; i++ {
			if mode != 2 {
				ctx.AddVar(query.QVar(varNames[i]))
			}
		}
		for k, p := range cpos {
			id := fmt.Sprintf("g%d", k)
			switch mode {
			case 0:
				args[p] = ca(vals[p])
			case 1:
				args[p] = ga(id)
				ctx.AddScope(id)
				_ = ctx.SetScope(k+7, vals[p])
			case 2:
				args[p] = cga(id, alternating(sp.dim)) // stale value: the scope's wins
				ctx.AddScope(id)
				_ = ctx.SetScope(k, vals[p])
			case 3:
				args[p] = cga("u"+id, vals[p]) // not bound by any scope
			}
		}
		if mode >= 2 {
			ctx.AddScope("other")
			_ = ctx.SetScope(12, make(inst, sp.dim))
			for i := 0; i < nv; i++ {
				ctx.AddVar(query.QVar(varNames[i]))
			}
			if mode == 3 {
				ctx.AddScope("later")
				_ = ctx.SetScope(3, make(inst, sp.dim))
			}
		}
		for _, p := range vpos {
			args[p] = va(varNames[al[p]])
		}
		var q enc = mkAtom(sp.kind, args, pref)
		if neg {
			q = logop.Not{Q: q}
		}
		F, err := q.Encoding(ctx)
		if err != nil {
			Failf("%s%v: unexpected error %v", sp.kind, args, err)
		}
		ps := make([]pinner, nv)
		for i := range ps {
			ps[i] = mkPinner(ctx, ctx.ScopeVar(query.QVar(varNames[i])), sp.dim)
		}
		s := satOf(F, maxi(ctx.TopV(), F.TopV()))
		// ----- every value of the variables -----
		for i := range vi {
			vi[i] = 0
		}
		for {
			assume = assume[:0]
			for i := range vi {
				assume = ps[i].pin(assume, sp.ins[vi[i]])
			}
			for _, p := range vpos {
				vals[p] = sp.ins[vi[al[p]]]
			}
			r.Tick()
			got := s.solve(assume...)
			var ref bool
			if sp.fast {
				ref = refFast(sp.kind, vals, pref, sp.t)
			} else {
				ref = refAtom(sp.kind, vals, pref, sp.t)
			}
			evs++
			sawT = sawT || ref
			sawF = sawF || !ref
			if got != (ref != neg) {
				Failf("neg=%v %s%v pref=%v at values %v: relation=%v but encoding satisfiable=%v",
					neg, sp.kind, args, pref, istrs(vals), ref, got)
			}
			if !inc(vi, len(sp.ins)) {
				break
			}
		}
		if !inc(ci, len(sp.ins)) {
			break
		}
	}
	r.Add("evaluations", evs)
	if sawT && sawF {
		r.Add("distinct_nontrivial", evs)
	}
	r.Sample(func() string {
		return fmt.Sprintf("%s dim=%d tree=%s layout=%d form=%0*b mode=%d neg=%v pref=%v: %d value combinations (both outcomes: %v)",
			sp.kind, sp.dim, sp.t, sp.layout, n, mask, mode, neg, pref, evs, sawT && sawF)
	})
}

func istrs(v []inst) []string {
	out := make([]string, len(v))
	for i, x := range v {
		out[i] = istr(x)
	}
	return out
}

// inc advances a mixed-radix counter; false when it wraps around.
func inc(idx []int, base int) bool {
	for k := range idx {
		idx[k]++
		if idx[k] < base {
			return true
		}
		idx[k] = 0
	}
	return false
}

const atomRule = "One evaluation is one (component form, way of binding, polarity, model, constants, values of the variables): the CNF the code produces is checked for satisfiability under exactly these values and compared with the definition. Non-trivial: evaluations of a component configuration whose relation is true for some and false for other of the enumerated values."

func init() {
	register(&checkDef{id: "S01", level: "exploration", rule: atomRule, fn: func(r *Run) {
		full, big := 3, []int{5, 11, 13}
		if r.Thorough() {
			full = 4
			big = []int{5, 6, 7, 11, 12, 13}
		}
		near := 1
		if r.Deep() {
			full, near = 5, 2
			big = []int{6, 7, 8, 11, 13, 17}
		}
		for d := 1; d <= full; d++ {
			for _, k := range []string{kSub, kCons, kFull} {
				r.atomSpace(atomSpec{kind: k, dim: d, ins: allInst(d)})
			}
		}
		if !r.Thorough() { // dimension 4: one binding mode
			for _, k := range []string{kSub, kCons, kFull} {
				r.atomSpace(atomSpec{kind: k, dim: 4, ins: allInst(4), modes: []int{0}})
			}
		}
		for _, d := range big {
			for _, k := range []string{kSub, kCons, kFull} {
				r.atomSpace(atomSpec{kind: k, dim: d, ins: sparseInst(d, near), modes: []int{0, 2}})
			}
		}
		// dimensions past machine word sizes
		huge := []int{66, 130}
		if r.Thorough() {
			huge = []int{33, 65, 66, 129, 130, 258}
		}
		if r.Deep() {
			huge = append(huge, 514, 1026)
		}
		for _, d := range huge {
			for _, k := range []string{kSub, kCons, kFull} {
				r.atomSpace(atomSpec{kind: k, dim: d, ins: edgeInst(d, edges(d)), modes: []int{0, 2}})
			}
		}
	}})
	register(&checkDef{id: "S02", level: "exploration", rule: atomRule, fn: func(r *Run) {
		for d := 1; d <= 3; d++ {
			r.atomSpace(atomSpec{kind: kLEL, dim: d, ins: allInst(d)})
		}
		r.atomSpace(atomSpec{kind: kLEL, dim: 4, ins: allInst(4), modes: []int{0, 2}})
		big := []int{7, 10, 12}
		if r.Thorough() {
			r.atomSpace(atomSpec{kind: kLEL, dim: 5, ins: allInst(5), modes: []int{0, 2}})
			r.atomSpace(atomSpec{kind: kLEL, dim: 6, ins: botPatterns(6)})
			big = []int{7, 8, 9, 10, 11, 12, 13}
		} else {
			r.atomSpace(atomSpec{kind: kLEL, dim: 5, ins: botPatterns(5)})
		}
		for _, d := range big {
			r.atomSpace(atomSpec{kind: kLEL, dim: d, ins: levelInst(d), modes: []int{0, 1}})
		}
		if r.Deep() {
			r.atomSpace(atomSpec{kind: kLEL, dim: 6, ins: allInst(6), modes: []int{0}})
			r.atomSpace(atomSpec{kind: kLEL, dim: 7, ins: botPatterns(7)})
			r.atomSpace(atomSpec{kind: kLEL, dim: 34, ins: levelInst(34), modes: []int{0}})
			r.atomSpace(atomSpec{kind: kLEL, dim: 67, ins: levelInst(67), modes: []int{1}})
		}
		r.atomSpace(atomSpec{kind: kLEL, dim: 66, ins: edgeLevels(66, false, []int{0, 1, 2, 31, 33, 64}), modes: []int{0}})
		if r.Thorough() {
			r.atomSpace(atomSpec{kind: kLEL, dim: 66, ins: levelInst(66), modes: []int{0}, masks: []int{0, 3}})
			r.atomSpace(atomSpec{kind: kLEL, dim: 130, ins: edgeLevels(130, false, []int{0, 1, 63, 64, 65, 127, 128}), modes: []int{0}})
			r.atomSpace(atomSpec{kind: kLEL, dim: 258, ins: edgeLevels(258, false, []int{0, 1, 255, 256}), modes: []int{0}, masks: []int{0, 3}})
			for _, d := range []int{300, 514, 1026, 65538} {
				r.atomSpace(atomSpec{kind: kLEL, dim: d, ins: edgeLevels(d, false, []int{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 32768, 65535, 65536}), modes: []int{0}, masks: []int{0}})
			}
		}
	}})
	treeCheck := func(kinds ...string) func(r *Run) {
		return func(r *Run) {
			for d := 1; d <= 2; d++ {
				for _, t := range allTrees(d) {
					for l := 0; l < nLayouts; l++ {
						for _, k := range kinds {
							r.atomSpace(atomSpec{kind: k, dim: d, t: t, layout: l, ins: allInst(d)})
						}
					}
				}
			}
			// features that no node tests
			for _, t := range allTrees(2) {
				t := remap(t, []int{2, 0})
				for _, k := range kinds {
					r.atomSpace(atomSpec{kind: k, dim: 3, t: t, layout: 1, ins: allInst(3), modes: []int{0, 2}})
				}
			}
			for i, t := range allTrees(3) {
				if r.Thorough() {
					for l := 0; l < nLayouts; l++ {
						for _, k := range kinds {
							md := []int{(i + l) % 4}
							if r.Deep() {
								md = nil
							}
							r.atomSpace(atomSpec{kind: k, dim: 3, t: t, layout: l, ins: allInst(3), modes: md})
						}
					}
					continue
				}
				for _, k := range kinds {
					r.atomSpace(atomSpec{kind: k, dim: 3, t: t, layout: i % nLayouts, ins: allInst(3), modes: []int{i / nLayouts % 4}})
				}
			}
			kmax := 3
			if r.Thorough() {
				kmax = 4
			}
			if r.Deep() {
				kmax = 5
			}
			for i, t := range treesUpTo(4, kmax) {
				for _, k := range kinds {
					r.atomSpace(atomSpec{kind: k, dim: 4, t: t, layout: i % nLayouts, ins: allInst(4), modes: []int{0}})
				}
			}
			for _, t := range bigTrees(r.Thorough()) {
				ins := append(sparseInst(t.dim, 1), nodeInsts(t.t, t.dim)...)
				if t.dim <= 5 {
					ins = allInst(t.dim)
				}
				for l := 0; l < nLayouts; l++ {
					for _, k := range kinds {
						r.atomSpace(atomSpec{kind: k, dim: t.dim, t: t.t, layout: l, ins: ins, modes: []int{0, 2}})
					}
				}
			}
			// features past machine word sizes, hundreds of nodes
			for i, t := range hugeTrees(r.Thorough()) {
				ins := append(edgeInst(t.dim, edges(t.dim)), nodeSample(t.t, t.dim, 24)...)
				for l := 0; l < nLayouts; l++ {
					if !r.Thorough() && l != i%nLayouts {
						continue
					}
					for _, k := range kinds {
						r.atomSpace(atomSpec{kind: k, dim: t.dim, t: t.t, layout: l, ins: ins, modes: []int{0}, fast: true})
					}
				}
			}
		}
	}
	tr := atomRule + " Trees: every read-once tree of dimension 1-3 (16430 of dimension 3), trees with few nodes of dimension 4, long chains and complete trees; four listing orders of the nodes."
	register(&checkDef{id: "S03", level: "exploration", rule: tr, fn: treeCheck(kNode)})
	register(&checkDef{id: "S04", level: "exploration", rule: tr, fn: treeCheck(kAllT, kAllF)})
	register(&checkDef{id: "S05", level: "exploration", rule: tr, fn: treeCheck(kDFS)})
	register(&checkDef{id: "S06", level: "exploration", rule: atomRule, fn: func(r *Run) {
		for d := 1; d <= 2; d++ {
			r.atomSpace(atomSpec{kind: kLEH, dim: d, ins: allInst(d)})
		}
		if r.Thorough() {
			r.atomSpace(atomSpec{kind: kLEH, dim: 3, ins: allInst(3)})
			r.atomSpace(atomSpec{kind: kLEH, dim: 4, ins: nearFull(4)})
			if r.Deep() {
				r.atomSpace(atomSpec{kind: kLEH, dim: 4, ins: allInst(4), modes: []int{0}})
				r.atomSpace(atomSpec{kind: kLEH, dim: 6, ins: fullOnly(6), modes: []int{0}})
				for _, d := range []int{8, 9, 10, 12, 13} {
					r.atomSpace(atomSpec{kind: kLEH, dim: d, ins: prefixFull(d), modes: []int{0, 2}})
				}
			}
			r.atomSpace(atomSpec{kind: kLEH, dim: 5, ins: fullOnly(5), modes: []int{0}})
			for _, d := range []int{7, 11} {
				r.atomSpace(atomSpec{kind: kLEH, dim: d, ins: prefixFull(d), modes: []int{0, 1}})
			}
			r.atomSpace(atomSpec{kind: kLEH, dim: 66, ins: edgeLevels(66, true, []int{0, 1, 32, 64}), modes: []int{0}})
			r.atomSpace(atomSpec{kind: kLEH, dim: 130, ins: edgeLevels(130, true, []int{0, 64, 128}), modes: []int{0}, masks: []int{0, 1, 2, 4, 7}})
			r.atomSpace(atomSpec{kind: kLEH, dim: 258, ins: edgeLevels(258, true, []int{0, 1, 255, 256}), modes: []int{0}, masks: []int{0, 7}})
			for _, d := range []int{260, 300, 514, 1026, 65538} {
				r.atomSpace(atomSpec{kind: kLEH, dim: d, ins: edgeLevels(d, true, []int{0, 1, 6, 128, 255, 256, 257, 511, 512, 1024, 32768, 65536}), modes: []int{0}, masks: []int{0}})
			}
			return
		}
		r.atomSpace(atomSpec{kind: kLEH, dim: 3, ins: allInst(3), modes: []int{0, 1}})
		r.atomSpace(atomSpec{kind: kLEH, dim: 4, ins: fullOnly(4), modes: []int{0}})
		r.atomSpace(atomSpec{kind: kLEH, dim: 11, ins: prefixFull(11), modes: []int{0}})
		r.atomSpace(atomSpec{kind: kLEH, dim: 66, ins: edgeLevels(66, true, []int{0, 1, 64}), modes: []int{0}})
	}})
	register(&checkDef{id: "S07", level: "exploration", rule: atomRule, fn: func(r *Run) {
		for d := 1; d <= 2; d++ {
			r.atomSpace(atomSpec{kind: kHEPR, dim: d, ins: allInst(d), prefs: allPrefs(d, d)})
		}
		md := []int{0, 2}
		if r.Thorough() {
			md = nil
		}
		r.atomSpace(atomSpec{kind: kHEPR, dim: 3, ins: allInst(3), prefs: allPrefs(3, 3), modes: md})
		if r.Thorough() {
			r.atomSpace(atomSpec{kind: kHEPR, dim: 4, ins: allInst(4), prefs: allPrefs(4, 4), modes: []int{0}})
			r.atomSpace(atomSpec{kind: kHEPR, dim: 5, ins: botPatterns(5), prefs: allPrefs(5, 5), modes: []int{0}})
			if r.Deep() {
				r.atomSpace(atomSpec{kind: kHEPR, dim: 4, ins: allInst(4), prefs: allPrefs(4, 4), modes: []int{1, 2, 3}})
				r.atomSpace(atomSpec{kind: kHEPR, dim: 5, ins: allInst(5), prefs: allPrefs(5, 5), modes: []int{0}, masks: []int{0, 1, 2}})
				r.atomSpace(atomSpec{kind: kHEPR, dim: 6, ins: botPatterns(6), prefs: allPrefs(6, 6), modes: []int{0}})
			}
		} else {
			r.atomSpace(atomSpec{kind: kHEPR, dim: 4, ins: botPatterns(4), prefs: allPrefs(4, 4), modes: []int{0}})
		}
		var big [][]int
		for _, p := range [][]int{{11, 1}, {1, 11}, {10, 9, 11}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0}} {
			big = append(big, p)
		}
		r.atomSpace(atomSpec{kind: kHEPR, dim: 12, ins: sparseInst(12, 1)[:60], prefs: big, modes: []int{0}})
		r.atomSpace(atomSpec{kind: kHEPR, dim: 12, ins: levelInst(12), prefs: big, modes: []int{0}})
		for _, d := range []int{66, 130, 258} {
			if d > 66 && !r.Thorough() {
				break
			}
			e := edges(d)
			r.atomSpace(atomSpec{kind: kHEPR, dim: d, ins: edgeInst(d, e[len(e)-4:]), prefs: [][]int{seq(d), revs(d), {d - 1, 1}, {1, d - 2, 0, d - 1}}, modes: []int{0}})
		}
	}})
}

// botPatterns: every set of undefined features, defined ones alternating.
func botPatterns(d int) []inst {
	var out []inst
	for m := 0; m < 1<<d; m++ {
		v := make(inst, d)
		for i := range v {
			if m>>i&1 == 1 {
				v[i] = query.FeatV(1 + (i+m)%2)
			}
		}
		out = append(out, v)
	}
	return out
}

// levelInst: every number of undefined features, at the front, back and spread.
func levelInst(d int) []inst {
	var out []inst
	for k := 0; k <= d; k++ {
		a, b, c := make(inst, d), make(inst, d), make(inst, d)
		for i := 0; i < k; i++ {
			a[i] = Z
			b[d-1-i] = O
			c[(i*5+3)%d] = query.FeatV(1 + i%2)
		}
		out = append(out, a, b)
		if d%5 != 0 {
			out = append(out, c)
		}
	}
	return out
}

func fullOnly(d int) []inst {
	var out []inst
	for _, v := range allInst(d) {
		if bots(v) == 0 {
			out = append(out, v)
		}
	}
	return out
}

func nearFull(d int) []inst {
	var out []inst
	for _, v := range allInst(d) {
		if bots(v) == 0 || bots(v) == 1 && hd(v, make(inst, d)) == d-1 && v[(d-1)%d] != O {
			out = append(out, v)
		}
	}
	return out
}

// prefixFull: full instances k ones first / last, and some with an undefined
// feature.
func prefixFull(d int) []inst {
	var out []inst
	for k := 0; k <= d; k += 1 {
		a := make(inst, d)
		for i := range a {
			a[i] = Z
			if i < k {
				a[i] = O
			}
		}
		out = append(out, a)
		if k > 0 && k < d && k%3 == 0 {
			b := make(inst, d)
			for i := range b {
				b[i] = a[d-1-i]
			}
			out = append(out, b)
		}
	}
	u := append(inst{}, out[1]...)
	u[d-1] = B
	w := append(inst{}, out[2]...)
	w[0] = B
	return append(out, u, w)
}

// allPrefs returns every duplicate-free sequence of at most k of d features.
func allPrefs(d, k int) [][]int {
	out := [][]int{{}}
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == k {
			return
		}
	next:
		for i := 0; i < d; i++ {
			for _, x := range p {
				if x == i {
					continue next
				}
			}
			q := append(append([]int{}, p...), i)
			out = append(out, q)
			rec(q)
		}
	}
	rec(nil)
	return out
}

func remap(t *tree, f []int) *tree {
	if t.leaf {
		return t
	}
	return &tree{feat: f[t.feat], z: remap(t.z, f), o: remap(t.o, f)}
}

type bigTree struct {
	name string
	dim  int
	t    *tree
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func revs(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = n - 1 - i
	}
	return out
}

func parity(v inst) bool {
	p := false
	for _, f := range v {
		if f == O {
			p = !p
		}
	}
	return p
}

// bigTrees: shapes outside the exhaustive small spaces.
func bigTrees(thorough bool) []bigTree {
	out := []bigTree{
		{"chain6", 6, chain(seq(6), 0b010101, true)},
		{"chain11", 11, chain(revs(11), 0b11100110010, false)},
		{"parity4", 4, complete(seq(4), make(inst, 4), parity)},
		{"maj5", 5, complete([]int{3, 1, 4, 0, 2}, make(inst, 5), func(v inst) bool { return bitsum(v) >= 3 })},
		{"chain12", 12, chain(seq(12), 0, true)},
	}
	if thorough {
		out = append(out,
			bigTree{"parity5", 5, complete(seq(5), make(inst, 5), parity)},
			bigTree{"maj6", 6, complete(revs(6), make(inst, 6), func(v inst) bool { return bitsum(v) >= 4 })},
			bigTree{"chain12b", 12, chain(revs(12), 0xfff, true)},
			bigTree{"chain13", 13, chain(seq(13), 0b1010011100101, false)},
		)
	}
	return out
}

// hugeTrees: features past machine word sizes, hundreds of nodes, the same
// features on many branches.
func hugeTrees(thorough bool) []bigTree {
	p8 := make([]int, 8)
	for i := range p8 {
		p8[i] = (i*3 + 2) % 8
	}
	out := []bigTree{
		{"chain66", 66, chain(seq(66), 0xa5a5a5a5a5a5a5a5, true)},
		{"complete8", 8, complete(p8, make(inst, 8), func(v inst) bool { return bitsum(v) >= 4 && v[3] == O })},
		{"spread140", 140, remap(complete(seq(6), make(inst, 6), parity), []int{3, 64, 128, 65, 139, 0})},
	}
	out = append(out, bigTree{"chain258", 258, chain(seq(258), 0xffff0000ffff0000, true)})
	if thorough {
		out = append(out,
			bigTree{"chain130", 130, chain(revs(130), 0x123456789abcdef, false)},
			bigTree{"complete9", 9, complete(revs(9), make(inst, 9), func(v inst) bool { return bitsum(v)%3 == 1 })},
			bigTree{"spread258", 258, remap(complete(seq(7), make(inst, 7), parity), []int{255, 256, 63, 64, 257, 0, 128})},
		)
	}
	return out
}

// nodeSample returns up to n of the tree's node instances and, for each, one
// with one more and one with one less feature.
func nodeSample(t *tree, dim, n int) []inst {
	ns := nodeInsts(t, dim)
	step := (len(ns) + n - 1) / n
	var out []inst
	for i := 0; i < len(ns); i += step {
		v := ns[i]
		out = append(out, v)
		a := append(inst{}, v...)
		for k := range a {
			if j := (k + i*7) % dim; a[j] == B {
				a[j] = O
				out = append(out, a)
				break
			}
		}
		b := append(inst{}, v...)
		for k := range b {
			if j := (k + i*5) % dim; b[j] != B {
				b[j] = B
				out = append(out, b)
				break
			}
		}
	}
	return out
}

func bitsum(v inst) int {
	n := 0
	for _, f := range v {
		if f == O {
			n++
		}
	}
	return n
}
