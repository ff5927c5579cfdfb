package main

import (
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

type enc interface {
	Encoding(ctx query.QContext) (cnf.CNF, error)
}

// ---------- generators, shared by all components as the README asks ----------

const gsep = "\x1e"

func gCount(v query.QVar) query.QVar { return "botc" + gsep + v }
func gReach(v query.QVar) query.QVar { return "reach" + gsep + v }
func gHD(a, b query.QVar) query.QVar {
	if a > b {
		a, b = b, a
	}
	return "hdist" + gsep + a + gsep + b
}
func gEQ(a, b query.QVar) query.QVar {
	if a > b {
		a, b = b, a
	}
	return "eqf" + gsep + a + gsep + b
}
func gFP(p, a, b query.QVar) query.QVar { return "fp" + gsep + p + gsep + a + gsep + b }

// ---------- atoms ----------

type arg struct {
	isVar bool
	v     query.QVar
	c     query.QConst
}

func va(v string) arg           { return arg{isVar: true, v: query.QVar(v)} }
func ca(c inst) arg             { return arg{c: query.QConst{Val: c}} }
func ga(id string) arg          { return arg{c: query.QConst{ID: id}} }
func cga(id string, c inst) arg { return arg{c: query.QConst{ID: id, Val: c}} }

func (a arg) String() string {
	if a.isVar {
		return string(a.v)
	}
	if a.c.ID != "" {
		return "$" + a.c.ID
	}
	return istr(a.c.Val)
}

const (
	kSub  = "sub"
	kCons = "cons"
	kFull = "full"
	kLEL  = "lel"
	kNode = "node"
	kAllT = "allpos"
	kAllF = "allneg"
	kDFS  = "dfs"
	kLEH  = "leh"
	kHEPR = "hepr"
)

func arity(kind string) int {
	switch kind {
	case kSub, kCons, kLEL, kHEPR:
		return 2
	case kLEH:
		return 3
	}
	return 1
}

// mkAtom builds the real component for the given argument forms.
func mkAtom(kind string, a []arg, pref []int) enc {
	gCount, gReach, gHD, gEQ, gFP := gens.funcs()
	m := 0
	for _, x := range a {
		m <<= 1
		if x.isVar {
			m |= 1
		}
	}
	switch kind {
	case kSub:
		switch m {
		case 0:
			return subsumption.ConstConst{I1: a[0].c, I2: a[1].c}
		case 1:
			return subsumption.ConstVar{I1: a[0].c, I2: a[1].v}
		case 2:
			return subsumption.VarConst{I1: a[0].v, I2: a[1].c}
		case 3:
			return subsumption.VarVar{I1: a[0].v, I2: a[1].v}
		}
	case kCons:
		switch m {
		case 0:
			return cons.ConstConst{I1: a[0].c, I2: a[1].c}
		case 1:
			return cons.ConstVar{I1: a[0].c, I2: a[1].v}
		case 2:
			return cons.VarConst{I1: a[0].v, I2: a[1].c}
		case 3:
			return cons.VarVar{I1: a[0].v, I2: a[1].v}
		}
	case kLEL:
		switch m {
		case 0:
			return lel.ConstConst{I1: a[0].c, I2: a[1].c}
		case 1:
			return lel.ConstVar{I1: a[0].c, I2: a[1].v, CountVarGen: gCount}
		case 2:
			return lel.VarConst{I1: a[0].v, I2: a[1].c, CountVarGen: gCount}
		case 3:
			return lel.VarVar{I1: a[0].v, I2: a[1].v, CountVarGen: gCount}
		}
	case kHEPR:
		switch m {
		case 0:
			return hepr.ConstConst{I1: a[0].c, I2: a[1].c, Preference: pref}
		case 1:
			return hepr.ConstVar{I1: a[0].c, I2: a[1].v, Preference: pref, FeaturePreferenceRankVarGen: gFP}
		case 2:
			return hepr.VarConst{I1: a[0].v, I2: a[1].c, Preference: pref, FeaturePreferenceRankVarGen: gFP}
		case 3:
			return hepr.VarVar{I1: a[0].v, I2: a[1].v, Preference: pref, FeaturePreferenceRankVarGen: gFP}
		}
	case kLEH:
		switch m {
		case 0:
			return leh.ConstConstConst{I1: a[0].c, I2: a[1].c, I3: a[2].c}
		case 1:
			return leh.ConstConstVar{I1: a[0].c, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: gHD}
		case 2:
			return leh.ConstVarConst{I1: a[0].c, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: gHD}
		case 3:
			return leh.ConstVarVar{I1: a[0].c, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: gHD}
		case 4:
			return leh.VarConstConst{I1: a[0].v, I2: a[1].c, I3: a[2].c, HammingDistanceVarGen: gHD}
		case 5:
			return leh.VarConstVar{I1: a[0].v, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: gHD, EqualFeatureVarGen: gEQ}
		case 6:
			return leh.VarVarConst{I1: a[0].v, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: gHD, EqualFeatureVarGen: gEQ}
		case 7:
			return leh.VarVarVar{I1: a[0].v, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: gHD, EqualFeatureVarGen: gEQ}
		}
	case kFull:
		if m == 1 {
			return full.Var{I: a[0].v}
		}
		return full.Const{I: a[0].c}
	case kNode:
		if m == 1 {
			return isnode.Var{I: a[0].v, ReachNodeVarGen: gReach}
		}
		return isnode.Const{I: a[0].c}
	case kAllT, kAllF:
		if m == 1 {
			return allcomp.Var{I: a[0].v, LeafValue: kind == kAllT, ReachNodeVarGen: gReach}
		}
		return allcomp.Const{I: a[0].c, LeafValue: kind == kAllT}
	case kDFS:
		if m == 1 {
			return dfs.Var{I: a[0].v}
		}
		return dfs.Const{I: a[0].c}
	}
	panic("mkAtom " + kind)
}

// refAtom is the definition of the component.
func refAtom(kind string, v []inst, pref []int, t *tree) bool {
	switch kind {
	case kSub:
		return refSub(v[0], v[1])
	case kCons:
		return refCons(v[0], v[1])
	case kLEL:
		return refLEL(v[0], v[1])
	case kHEPR:
		return refHEPR(v[0], v[1], pref)
	case kLEH:
		return refLEH(v[0], v[1], v[2])
	case kFull:
		return refFull(v[0])
	case kNode:
		return refNode(t, len(v[0]), v[0])
	case kAllT:
		return refAllComp(t, v[0], true)
	case kAllF:
		return refAllComp(t, v[0], false)
	case kDFS:
		return refDFS(t, v[0])
	}
	panic("refAtom " + kind)
}

// ---------- pinning ----------

// pinAll appends the three literals of every feature of the (scoped) variable.
func pinAll(out []int, ctx query.QContext, sv query.QVar, val inst) []int {
	for i, f := range val {
		for _, x := range []query.FeatV{B, Z, O} {
			l := ctx.CNFVar(sv, i, int(x))
			if x != f {
				l = -l
			}
			out = append(out, l)
		}
	}
	return out
}

// pinner holds the literal numbers of one variable after an encoding.
type pinner struct{ id [][3]int }

func mkPinner(ctx query.QContext, sv query.QVar, dim int) pinner {
	p := pinner{make([][3]int, dim)}
	for i := range p.id {
		for x := 0; x < 3; x++ {
			p.id[i][x] = ctx.CNFVar(sv, i, x)
		}
	}
	return p
}

func (p pinner) pin(out []int, val inst) []int {
	for i, f := range val {
		for x := 0; x < 3; x++ {
			if int(f) == x {
				out = append(out, p.id[i][x])
			} else {
				out = append(out, -p.id[i][x])
			}
		}
	}
	return out
}

// pinTrue only asserts the literals of the chosen values: the rest has to
// follow from the consistency clauses of the declaration.
func (p pinner) pinTrue(out []int, val inst) []int {
	for i, f := range val {
		out = append(out, p.id[i][int(f)])
	}
	return out
}

func satOf(f cnf.CNF, topv int) *satSolver {
	sc, cc := f.Clauses()
	return newSat(topv, sc, cc)
}

// ---------- formulas ----------

type fop int

const (
	fAtom fop = iota
	fNot
	fAnd
	fOr
	fWith
	fAll
	fTriv
	fRaw // an already built component whose meaning is that of a
)

type form struct {
	op   fop
	kind string
	args []arg
	pref []int
	a, b *form
	name string // variable of With, guard of All
	tv   bool   // truth of fTriv
	raw  enc
}

func atom(kind string, args ...arg) *form { return &form{op: fAtom, kind: kind, args: args} }
func heprA(pref []int, args ...arg) *form {
	return &form{op: fAtom, kind: kHEPR, args: args, pref: pref}
}
func not(a *form) *form              { return &form{op: fNot, a: a} }
func and(a, b *form) *form           { return &form{op: fAnd, a: a, b: b} }
func or(a, b *form) *form            { return &form{op: fOr, a: a, b: b} }
func with(v string, a *form) *form   { return &form{op: fWith, name: v, a: a} }
func forall(g string, a *form) *form { return &form{op: fAll, name: g, a: a} }
func triv(b bool) *form              { return &form{op: fTriv, tv: b} }

func (f *form) String() string {
	switch f.op {
	case fAtom:
		s := make([]string, len(f.args))
		for i, a := range f.args {
			s[i] = a.String()
		}
		p := ""
		if f.kind == kHEPR {
			p = fmt.Sprint(f.pref)
		}
		return f.kind + p + "(" + strings.Join(s, ",") + ")"
	case fNot:
		return "!" + f.a.String()
	case fAnd:
		return "(" + f.a.String() + " & " + f.b.String() + ")"
	case fOr:
		return "(" + f.a.String() + " | " + f.b.String() + ")"
	case fWith:
		return "some " + f.name + "." + f.a.String()
	case fAll:
		return "all $" + f.name + "." + f.a.String()
	case fRaw:
		return "#" + f.a.String()
	case fTriv:
		if f.tv {
			return "T"
		}
		return "F"
	}
	return "?"
}

type trivQ bool

func (t trivQ) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if t {
		return cnf.TrueCNF, nil
	}
	return cnf.FalseCNF, nil
}

func (f *form) build() enc {
	switch f.op {
	case fAtom:
		return mkAtom(f.kind, f.args, f.pref)
	case fNot:
		return logop.Not{Q: f.a.build()}
	case fAnd:
		return logop.And{Q1: f.a.build(), Q2: f.b.build()}
	case fOr:
		return logop.Or{Q1: f.a.build(), Q2: f.b.build()}
	case fWith:
		return logop.WithVar{I: query.QVar(f.name), Q: f.a.build()}
	case fAll:
		return logop.ForAllGuarded{I: query.QConst{ID: f.name, Val: guardVal}, Q: f.a.build()}
	case fTriv:
		return trivQ(f.tv)
	case fRaw:
		return f.raw
	}
	panic("build")
}

// world is what a formula is evaluated in.
type world struct {
	dim   int
	t     *tree
	nodes []inst
	insts []inst
	env   map[string]inst // variables and guards by name (guards "$g")
}

func newWorld(dim int, t *tree) *world {
	w := &world{dim: dim, t: t, env: map[string]inst{}}
	if dim <= 12 { // wide worlds have no variables declared inside of formulas
		w.insts = allInst(dim)
	}
	if t != nil {
		w.nodes = nodeInsts(t, dim)
	}
	return w
}

func (w *world) val(a arg) inst {
	if a.isVar {
		v, ok := w.env[string(a.v)]
		if !ok {
			panic("unbound " + string(a.v))
		}
		return v
	}
	if a.c.ID != "" {
		if v, ok := w.env["$"+a.c.ID]; ok {
			return v
		}
	}
	return a.c.Val
}

// can returns whether the formula can be made true and whether it can be made
// false by some choice of the variables declared inside of it (variables
// declared in different places are different variables; those declared under
// a guard are different for each node).
func (w *world) can(f *form) (p, n bool) {
	switch f.op {
	case fAtom:
		vs := make([]inst, len(f.args))
		for i, a := range f.args {
			vs[i] = w.val(a)
		}
		r := refAtom(f.kind, vs, f.pref, w.t)
		return r, !r
	case fTriv:
		return f.tv, !f.tv
	case fRaw:
		return w.can(f.a)
	case fNot:
		p, n = w.can(f.a)
		return n, p
	case fAnd, fOr:
		p1, n1 := w.can(f.a)
		p2, n2 := w.can(f.b)
		if f.op == fAnd {
			return p1 && p2, n1 || n2
		}
		return p1 || p2, n1 && n2
	case fWith:
		if _, ok := w.env[f.name]; ok { // declared again: the same variable
			return w.can(f.a)
		}
		for _, v := range w.insts {
			w.env[f.name] = v
			p1, n1 := w.can(f.a)
			p, n = p || p1, n || n1
			if p && n {
				break
			}
		}
		delete(w.env, f.name)
		return p, n
	case fAll:
		p = true
		old, had := w.env["$"+f.name]
		for _, v := range w.nodes {
			w.env["$"+f.name] = v
			p1, n1 := w.can(f.a)
			p, n = p && p1, n || n1
			if !p && n {
				break
			}
		}
		if had {
			w.env["$"+f.name] = old
		} else {
			delete(w.env, "$"+f.name)
		}
		return p, n
	}
	panic("can")
}

// checkForm compares the encoding of f, in which the variables vars are
// declared at the outside by the caller's With nodes, with its meaning for
// every value of vars. Returns the number of comparisons.
func (r *Run) checkForm(w *world, m model, f *form, vars []string, ins []inst) {
	r.checkFormRef(w, m, f, f, vars, ins)
}

// guardVal is the value that the constants of quantifiers have of their own,
// which means nothing.
var guardVal inst

// checkFormRef encodes f and compares with the meaning of ref.
func (r *Run) checkFormRef(w *world, m model, f, ref *form, vars []string, ins []inst) {
	whole := f
	for i := len(vars) - 1; i >= 0; i-- {
		whole = with(vars[i], whole)
	}
	r.checkFormIn(r.ctxOf(m), w, whole, ref, vars, ins, "")
}

// checkFormIn encodes a formula that declares the variables in the context and
// compares with the meaning of ref.
func (r *Run) checkFormIn(ctx query.QContext, w *world, whole, ref *form, vars []string, ins []inst, after string) {
	guardVal = nil
	if r.guardVals++; r.guardVals%2 == 0 {
		guardVal = make(inst, w.dim)
		guardVal[w.dim-1] = O
	}
	q := whole.build()
	guardVal = nil
	F, err := q.Encoding(ctx)
	if err != nil {
		Failf("%s on %s%s: unexpected error: %v", whole, w.t, after, err)
	}
	ps := make([]pinner, len(vars))
	for i, v := range vars {
		ps[i] = mkPinner(ctx, ctx.ScopeVar(query.QVar(v)), w.dim)
	}
	s := satOf(F, maxi(ctx.TopV(), F.TopV()))
	assume := make([]int, 0, 64)
	idx := make([]int, len(vars))
	seen := map[bool]bool{}
	evs := int64(0)
	for {
		assume = assume[:0]
		for i := range vars {
			assume = ps[i].pinTrue(assume, ins[idx[i]])
			w.env[vars[i]] = ins[idx[i]]
		}
		got := s.solve(assume...)
		want, _ := w.can(ref)
		r.C["evaluations"]++
		r.Tick()
		if want {
			r.C["sat_expected"]++
		} else {
			r.C["unsat_expected"]++
		}
		seen[want] = true
		evs++
		if got != want {
			Failf("%s on %s with %s%s: encoding satisfiable=%v, meaning=%v", whole, w.t, envStr(w, vars), after, got, want)
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(ins) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
	for _, v := range vars {
		delete(w.env, v)
	}
	if len(seen) == 2 {
		r.C["distinct_nontrivial"] += evs
	}
	r.Sample(func() string { return fmt.Sprintf("%s on tree %s: %d valuations", whole, w.t, evs) })
}

func envStr(w *world, vars []string) string {
	var s []string
	for _, v := range vars {
		s = append(s, v+"="+istr(w.env[v]))
	}
	return strings.Join(s, " ")
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
