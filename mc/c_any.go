package main

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- C01: any context, G01: any generators ----------

// ctxOf makes the context for a model: the package's own, or the one of the
// case (C01).
func (r *Run) ctxOf(m model) query.QContext {
	if r.newCtx != nil {
		return r.newCtx(m)
	}
	return query.BasicQContext(m)
}

// numbering hands out the numbers of a context of its own kind. next returns
// the number for a new variable; the largest one in use is top.
type ownCtx struct {
	m      model
	vars   map[string]int
	top    int
	free   []int
	mode   string
	scopes []ownScope
	level  map[query.QVar]int
	names  map[string]query.QVar
}

type ownScope struct {
	target string
	val    []query.FeatV
	idx    int
}

func newOwn(m model, mode string) *ownCtx {
	c := &ownCtx{m: m, mode: mode}
	c.names = map[string]query.QVar{}
	c.Reset()
	return c
}

func (c *ownCtx) Reset() {
	c.vars, c.level, c.scopes, c.free, c.top = map[string]int{}, map[query.QVar]int{}, nil, nil, 0
	if c.mode == "high" {
		c.top = 2500
	}
}

func (c *ownCtx) Dim() int { return c.m.Dim() }

// Nodes gives a new slice with every call.
func (c *ownCtx) Nodes() []query.Node {
	return append(make([]query.Node, 0, len(c.m.nodes)+3), c.m.nodes...)
}

func (c *ownCtx) TopV() int { return c.top }

func (c *ownCtx) UpdateTopV(v int) bool {
	if c.top > v {
		return false
	}
	c.top, c.free = v, nil
	return true
}

func vkey(v query.QVar, idx, val int) string {
	return strconv.Itoa(idx) + " " + strconv.Itoa(val) + " " + string(v)
}

func (c *ownCtx) CNFVar(v query.QVar, idx, val int) int {
	k := vkey(v, idx, val)
	if n, ok := c.vars[k]; ok {
		return n
	}
	n := c.top + 1
	switch c.mode {
	case "gaps":
		n = c.top + 1 + (len(c.vars)*7)%5*3
	case "blocks":
		// blocks of numbers, handed out from the largest to the smallest
		if len(c.free) == 0 {
			for i := 1; i <= 16; i++ {
				c.free = append(c.free, c.top+i)
			}
		}
		n = c.free[len(c.free)-1]
		c.free = c.free[:len(c.free)-1]
	case "shuffled":
		if len(c.free) == 0 {
			for i := 0; i < 23; i++ {
				c.free = append(c.free, c.top+1+i*7%23)
			}
			n = c.top + 23
			for i, x := range c.free {
				if x == n { // the largest one first
					c.free[i] = c.free[len(c.free)-1]
					c.free[len(c.free)-1] = n
				}
			}
		}
		n = c.free[len(c.free)-1]
		c.free = c.free[:len(c.free)-1]
	}
	c.vars[k] = n
	if n > c.top {
		c.top = n
	}
	return n
}

func (c *ownCtx) CNFVarExists(v query.QVar, idx, val int) bool {
	_, ok := c.vars[vkey(v, idx, val)]
	return ok
}

func (c *ownCtx) ScopeVar(v query.QVar) query.QVar {
	k := fmt.Sprintf("%d %s", len(v), v)
	for _, s := range c.scopes[:c.level[v]] {
		k += fmt.Sprintf("/%d %s %d", len(s.target), s.target, s.idx)
	}
	n, ok := c.names[k]
	if !ok {
		switch c.mode {
		case "blocks":
			n = query.QVar(k)
		default: // a name that says nothing
			n = query.QVar(strconv.Itoa(len(c.names)))
		}
		c.names[k] = n
	}
	return n
}

func (c *ownCtx) AddVar(v query.QVar) {
	if _, ok := c.level[v]; !ok && len(c.scopes) > 0 {
		c.level[v] = len(c.scopes)
	}
}

func (c *ownCtx) ScopeConst(k query.QConst) (query.QConst, bool) {
	for _, s := range c.scopes {
		if s.target == k.ID {
			return query.QConst{ID: k.ID, Val: append([]query.FeatV(nil), s.val...)}, true
		}
	}
	return k, false
}

func (c *ownCtx) AddScope(t string) { c.scopes = append(c.scopes, ownScope{target: t}) }

func (c *ownCtx) PopScope() error {
	if len(c.scopes) == 0 {
		return errors.New("no scope")
	}
	for v, l := range c.level {
		if l == len(c.scopes) {
			delete(c.level, v)
		}
	}
	c.scopes = c.scopes[:len(c.scopes)-1]
	return nil
}

func (c *ownCtx) SetScope(i int, v []query.FeatV) error {
	if len(c.scopes) == 0 {
		return errors.New("no scope")
	}
	s := &c.scopes[len(c.scopes)-1]
	s.idx, s.val = i, append([]query.FeatV(nil), v...)
	return nil
}

// copying is a model that hands out copies of its nodes.
type copying struct{ m model }

func (c copying) Dim() int { return c.m.dim }
func (c copying) Nodes() []query.Node {
	return append(make([]query.Node, 0, 2*len(c.m.nodes)), c.m.nodes...)
}

// wrapped hides the package's context behind the interface.
type wrapped struct{ query.QContext }

// doubled is the package's context with every number doubled: the odd ones are
// never given to a variable.
type doubled struct{ query.QContext }

func (d doubled) CNFVar(v query.QVar, i, x int) int { return 2 * d.QContext.CNFVar(v, i, x) }
func (d doubled) TopV() int                         { return 2 * d.QContext.TopV() }
func (d doubled) UpdateTopV(v int) bool             { return d.QContext.UpdateTopV((v + 1) / 2) }

var anyCtxs = []struct {
	name string
	mk   func(m model) query.QContext
}{
	{"copied nodes", func(m model) query.QContext { return query.BasicQContext(copying{m}) }},
	{"wrapped", func(m model) query.QContext { return wrapped{query.BasicQContext(m)} }},
	{"doubled", func(m model) query.QContext { return doubled{query.BasicQContext(m)} }},
	{"own", func(m model) query.QContext { return newOwn(m, "") }},
	{"gaps", func(m model) query.QContext { return newOwn(m, "gaps") }},
	{"high", func(m model) query.QContext { return newOwn(m, "high") }},
	{"blocks", func(m model) query.QContext { return newOwn(m, "blocks") }},
	{"shuffled", func(m model) query.QContext { return newOwn(m, "shuffled") }},
}

// generators of names for auxiliary variables
type genFamily struct {
	name         string
	count, reach func(v query.QVar) query.QVar
	hd, eq       func(a, b query.QVar) query.QVar
	fp           func(p, a, b query.QVar) query.QVar
	fresh        func(g *genFamily) // called before every component is made
}

func (g *genFamily) funcs() (count, reach func(v query.QVar) query.QVar, hd, eq func(a, b query.QVar) query.QVar, fp func(p, a, b query.QVar) query.QVar) {
	if g.count == nil && g.fresh == nil {
		return gCount, gReach, gHD, gEQ, gFP
	}
	if g.fresh != nil {
		g.fresh(g)
	}
	return g.count, g.reach, g.hd, g.eq, g.fp
}

var gens = &genFamily{} // in use; empty functions stand for the default

// sorted puts two names in order: distances and equalities have one name for
// both orders, as the fields of the components ask.
func sorted(a, b query.QVar, rev bool) (query.QVar, query.QVar) {
	if (a > b) != rev {
		return b, a
	}
	return a, b
}

// numbered gives numbers in the order of the calls and remembers them.
func numbered() genFamily {
	seen := map[string]query.QVar{}
	get := func(kind string, xs ...query.QVar) query.QVar {
		k := kind
		for _, x := range xs {
			k += fmt.Sprintf("|%d|%s", len(x), x)
		}
		n, ok := seen[k]
		if !ok {
			n = query.QVar(fmt.Sprint("#", len(seen)))
			seen[k] = n
		}
		return n
	}
	return genFamily{
		name:  "numbered",
		count: func(v query.QVar) query.QVar { return get("c", v) },
		reach: func(v query.QVar) query.QVar { return get("r", v) },
		hd: func(a, b query.QVar) query.QVar {
			a, b = sorted(a, b, false)
			return get("h", a, b)
		},
		eq: func(a, b query.QVar) query.QVar {
			a, b = sorted(a, b, false)
			return get("e", a, b)
		},
		fp: func(p, a, b query.QVar) query.QVar { return get("f", p, a, b) },
	}
}

// affixed puts one of five prefixes and one of five suffixes around the names.
func affixed(name string, pre, post [5]string, rev bool) genFamily {
	const s = gsep
	j := func(k int, xs ...query.QVar) query.QVar {
		n := query.QVar(pre[k])
		for i, x := range xs {
			if i > 0 {
				n += s
			}
			n += x
		}
		return n + query.QVar(post[k])
	}
	return genFamily{
		name:  name,
		count: func(v query.QVar) query.QVar { return j(0, v) },
		reach: func(v query.QVar) query.QVar { return j(1, v) },
		hd: func(a, b query.QVar) query.QVar {
			a, b = sorted(a, b, rev)
			return j(2, a, b)
		},
		eq: func(a, b query.QVar) query.QVar {
			a, b = sorted(a, b, rev)
			return j(3, a, b)
		},
		fp: func(p, a, b query.QVar) query.QVar {
			if rev {
				return j(4, b, p, a)
			}
			return j(4, p, a, b)
		},
	}
}

// genFamilies makes the families afresh: some remember what they were given.
func genFamilies() []genFamily {
	long := ""
	for i := 0; i < 5000; i++ {
		long += string(rune('a' + i%26))
	}
	no := [5]string{}
	ks := [5]string{"c" + gsep, "r" + gsep, "h" + gsep, "e" + gsep, "f" + gsep}
	sk := [5]string{gsep + "c", gsep + "r", gsep + "h", gsep + "e", gsep + "f"}
	app := func(p string, ks [5]string, s string) [5]string {
		for i := range ks {
			ks[i] = p + ks[i] + s
		}
		return ks
	}
	fs := []genFamily{
		numbered(),
		affixed("prefixes", ks, no, false),
		affixed("suffixes", no, sk, true),
		affixed("long prefixes", app(long, ks, ""), no, false),
		affixed("long prefixes that end alike", app("", ks, long), no, false),
		affixed("long suffixes", no, app(long, sk, ""), true),
		affixed("upper and lower case", [5]string{"k", "K", "kk", "kK", "Kk"}, [5]string{gsep, gsep, gsep, gsep, gsep}, false),
		affixed("white space", no, [5]string{gsep + " ", gsep + "  ", gsep + "\n", gsep + " \t", gsep + "\r\n"}, false),
		affixed("white space before", [5]string{" ", "  ", "\n", " \t", "\v"}, [5]string{gsep, gsep, gsep, gsep, gsep}, true),
		affixed("not UTF-8", [5]string{"\xff", "\xfe", "\xff\xff", "\xff\xfe", "\xc3"}, [5]string{gsep, gsep, gsep, gsep, gsep}, false),
		affixed("combining characters", [5]string{"\u00e9", "e\u0301", "\u212b", "\u00c5", "A\u030a"}, [5]string{gsep, gsep, gsep, gsep, gsep}, true),
		affixed("digits", [5]string{"1" + gsep, "01" + gsep, "-1" + gsep, "1.0" + gsep, "+1" + gsep}, no, false),
		affixed("zero bytes", [5]string{"\x00", "\x00\x00", "a\x00", "a\x00b", "a\x00c"}, [5]string{gsep, gsep, gsep, gsep, gsep}, false),
	}
	// names of its own for every component
	apart := genFamily{name: "names of its own for every component"}
	own := 0
	apart.fresh = func(g *genFamily) {
		own++
		n := fmt.Sprint("n", own)
		f := affixed("", app(n, ks, ""), no, own%2 == 0)
		g.count, g.reach, g.hd, g.eq, g.fp = f.count, f.reach, f.hd, f.eq, f.fp
	}
	return append(fs, apart)
}

// anyForms calls f with closed sets of formulas over x and y.
func (r *Run) anyForms(what string, each func(do func())) {
	x, xy := []string{"x"}, []string{"x", "y"}
	chk := func(d int, t *tree, fs []*form, vars []string, ins []inst, name string) {
		const chunk = 24
		for i := 0; i < len(fs); i += chunk {
			i := i
			r.Case(func() string { return fmt.Sprintf("%s: %s %d.. (%s), dim %d tree %s", what, name, i, fs[i], d, t) }, func() {
				each(func() {
					w, m := newWorld(d, t), mkModel(d, t, i/chunk%nLayouts)
					for _, f := range fs[i:min(i+chunk, len(fs))] {
						r.checkForm(w, m, f, vars, ins)
					}
				})
			})
		}
	}
	for d := 1; d <= 3; d++ {
		ts := allTrees(d)
		switch d {
		case 1:
			ts = []*tree{leafF, ts[2], ts[3]}
		case 2:
			ts = []*tree{leafT, ts[11], ts[40], ts[66]}
			if r.Deep() {
				ts = allTrees(2)
			}
		case 3:
			ts = []*tree{ts[4321], ts[9001]}
			if r.Deep() {
				t3 := allTrees(3)
				ts = []*tree{t3[77], t3[4321], t3[9001], t3[12000]}
			}
		}
		ins := allInst(d)
		k1, k2, k3 := ins[len(ins)-2], ins[1], ins[len(ins)/2]
		prefs := allPrefs(d, d)
		for ti, t := range ts {
			var atoms []*form
			for _, kind := range allKinds {
				if kind == kHEPR {
					for pi, p := range prefs {
						if pi%3 == 0 || pi == len(prefs)-1 {
							atoms = append(atoms, atomsOver(kind, xy, []inst{k1, k2}, p)...)
						}
					}
					continue
				}
				cs := []inst{k1, k2, k3}
				if kind == kLEH {
					cs = cs[:2]
				}
				atoms = append(atoms, atomsOver(kind, xy, cs, nil)...)
			}
			if d == 3 && ti > 0 && !r.Deep() {
				atoms = atoms[:0]
			}
			var one []*form
			for _, a := range atoms {
				one = append(one, a, not(a))
			}
			if d < 3 {
				chk(d, t, one, xy, ins, "component")
			} else {
				chk(d, t, one, xy, sparseInst(3, 1), "component")
			}
			// two components that share variables
			if d <= 2 {
				var two []*form
				for i, a := range atoms {
					for j := range atoms {
						if (j-i+len(atoms))%17 == 1 {
							two = append(two, pairCombos(a, atoms[j])[(i+j)%5])
						}
						if a.kind == atoms[j].kind {
							two = append(two, and(a, not(atoms[j])))
						}
					}
				}
				chk(d, t, two, xy, ins, "two components")
			}
			// quantifiers
			var qs []*form
			for _, b := range s10Bodies("g", k1, d) {
				qs = append(qs, forall("g", b), not(forall("g", b)), forall("g", not(b)))
			}
			for i, b := range s10Bodies("g", k1, d) {
				if i%3 == ti%3 && d < 3 {
					qs = append(qs, forall("h", or(atom(kSub, ga("h"), va("x")), forall("g", b))),
						not(forall("h", with("z", and(pinTo("z", ga("h")), forall("g", and(b, atom(kLEL, va("z"), ga("g")))))))))
				}
			}
			chk(d, t, qs, x, ins, "quantifiers")
		}
	}
}

func c01(r *Run) {
	for _, c := range anyCtxs {
		c := c
		with := func(do func()) {
			r.newCtx = c.mk
			defer func() { r.newCtx = nil }()
			do()
		}
		r.anyForms(c.name, with)
		// evaluations and optima one after the other
		t2 := allTrees(2)
		for _, t := range []*tree{t2[40], t2[11]} {
			t := t
			n := len(k03Ops(r, 2, t))
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					a, b := a, b
					r.Case(func() string {
						return fmt.Sprintf("%s: histories that start with evaluations %d, %d on tree %s", c.name, a, b, t)
					}, func() {
						with(func() {
							ops := k03Ops(r, 2, t)
							for z := -1; z < n; z++ {
								if z >= 0 && !r.Deep() && (a+b+z)%3 != 0 {
									continue
								}
								ctx := r.ctxOf(mkModel(2, t, a%nLayouts))
								var sv compute.Solver = &inproc{phase: "alt"}
								if z < 0 { // through the solver process
									fk := newFake(r)
									fk.script(fakeStep{Solve: []string{"false", "true", "alt"}[(a+b)%3]})
									sv = fk.solver()
								}
								var done []string
								what := func() string { return fmt.Sprintf("context %s after %v", c.name, done) }
								h := []int{a, b}
								if z >= 0 {
									h = append(h, z)
								}
								for _, k := range h {
									ops[k].run(what, ctx, sv)
									done = append(done, ops[k].name)
									r.C["transitions"]++
								}
								r.C["traces_validated_against_impl"]++
							}
						})
					})
				}
			}
		}
	}
}

func g01(r *Run) {
	for i := range genFamilies() {
		i := i
		with := func(do func()) {
			f := genFamilies()[i]
			gens = &f
			defer func() { gens = &genFamily{} }()
			do()
		}
		r.anyForms(genFamilies()[i].name, with)
	}
}

func init() {
	register(&checkDef{id: "C01", level: "model_checking", rule: "One evaluation is one (context, formula, model, value of every outer variable) or one answer of a history of evaluations on one of seven implementations of the context interface (own numbering with gaps, descending or shuffled numbers, high numbers, opaque scoped names, copies of all slices), compared with the brute-force meaning. Non-trivial: evaluations of formulas that are true for some and false for other values.", fn: c01})
	register(&checkDef{id: "G01", level: "exploration", rule: "One evaluation is one (family of name generators, formula, model, value of every outer variable), compared with the brute-force meaning. Non-trivial: evaluations of formulas that are true for some and false for other values.", fn: g01})
}
