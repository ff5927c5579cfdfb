package main

import (
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/query"
)

// ---------- K01: variable numbers ----------

type triple struct {
	v        query.QVar
	idx, val int
}

type vmRef struct {
	m   map[triple]int
	inv map[int]triple
	top int
}

func (m *vmRef) reset() { m.m, m.inv, m.top = map[triple]int{}, map[int]triple{}, 0 }

// lookup checks one CNFVar result and follows it.
func (m *vmRef) lookup(t triple, got int, what func() string) {
	if old, ok := m.m[t]; ok {
		if got != old {
			Failf("%s: %q has number %d, had %d before", what(), t, got, old)
		}
		return
	}
	if got < 1 || got <= m.top {
		Failf("%s: new triple %q gets number %d, top value was %d", what(), t, got, m.top)
	}
	if o, ok := m.inv[got]; ok {
		Failf("%s: %q and %q share number %d", what(), t, o, got)
	}
	m.m[t], m.inv[got] = got, t
	m.top = got
}

func k01(r *Run) {
	tr := []triple{{"a", 1, 12}, {"a", 11, 2}, {"a1", 1, 2}, {"a", 1, 2}, {"a", 2, 1}, {"a1", 12, 0}, {"", 0, 0}}
	type op struct {
		name string
		k    int
	}
	var ops []op
	for k := range tr {
		ops = append(ops, op{"var", k})
	}
	for k := 0; k < 3; k++ {
		ops = append(ops, op{"exists", k})
	}
	for _, d := range []int{-1, 0, 1, 3} {
		ops = append(ops, op{"raise", d})
	}
	ops = append(ops, op{"reset", 0}, op{"scope", 0})
	str := func(h []op) string {
		var s []string
		for _, o := range h {
			switch o.name {
			case "var", "exists":
				s = append(s, fmt.Sprintf("%s%q", o.name, tr[o.k]))
			case "raise":
				s = append(s, fmt.Sprintf("raise(top%+d)", o.k))
			default:
				s = append(s, o.name)
			}
		}
		return strings.Join(s, " ")
	}
	m := model{dim: 1}
	var ref vmRef
	runHist := func(h []op) {
		ctx := query.BasicQContext(m)
		ref.reset()
		what := func() string { return "after " + str(h) }
		for _, o := range h {
			r.C["transitions"]++
			switch o.name {
			case "var":
				t := tr[o.k]
				ref.lookup(t, ctx.CNFVar(t.v, t.idx, t.val), what)
			case "exists":
				t := tr[o.k]
				_, want := ref.m[t]
				if got := ctx.CNFVarExists(t.v, t.idx, t.val); got != want {
					Failf("%s: existence of %q is %v, want %v", what(), t, got, want)
				}
			case "raise":
				v := ref.top + o.k
				want := v >= ref.top
				if got := ctx.UpdateTopV(v); got != want {
					Failf("%s: raising the top value from %d to %d returns %v", what(), ref.top, v, got)
				}
				if want {
					ref.top = v
				}
			case "reset":
				ctx.Reset()
				ref.reset()
			case "scope": // does not concern the numbers
				ctx.AddScope("g")
				ctx.SetScope(1, inst{O})
			}
			if got := ctx.TopV(); got != ref.top {
				Failf("%s: TopV is %d, want %d", what(), got, ref.top)
			}
		}
		for _, t := range tr {
			_, want := ref.m[t]
			if got := ctx.CNFVarExists(t.v, t.idx, t.val); got != want {
				Failf("%s: existence of %q is %v, want %v", what(), t, got, want)
			}
		}
		for _, t := range tr {
			ref.lookup(t, ctx.CNFVar(t.v, t.idx, t.val), what)
		}
		r.C["traces_validated_against_impl"]++
		st := hint(1, ref.top)
		for _, t := range tr {
			st = hint(st, ref.m[t])
		}
		r.State(st)
		r.Eval(len(ref.m) > 0)
		r.Sample(func() string { return str(h) })
	}
	depth := 6
	if r.Thorough() {
		depth = 7
	}
	var rec func(h []op)
	rec = func(h []op) {
		if len(h) == depth {
			runHist(h)
			return
		}
		for _, o := range ops {
			rec(append(h, o))
		}
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			r.Case(func() string { return "histories starting with " + str([]op{a, b}) }, func() { rec([]op{a, b}) })
		}
	}
	// large numbers
	var jumps []op
	for k := 0; k < 3; k++ {
		jumps = append(jumps, op{"var", k})
	}
	jumps = append(jumps, op{"exists", 0})
	for _, d := range []int{1, 1<<15 - 2, 1 << 16, 1<<31 - 3, 1 << 32, 1 << 53, -1 << 31, -1 << 32} {
		jumps = append(jumps, op{"raise", d})
	}
	jumps = append(jumps, op{"reset", 0})
	jd := 5
	if r.Deep() {
		jd = 6
	}
	for _, a := range jumps {
		for _, b := range jumps {
			a, b := a, b
			r.Case(func() string { return "large numbers: histories starting with " + str([]op{a, b}) }, func() {
				idx := make([]int, jd-2)
				for {
					h := []op{a, b}
					for _, k := range idx {
						h = append(h, jumps[k])
					}
					runHist(h)
					if !inc(idx, len(jumps)) {
						break
					}
				}
			})
		}
	}
	// long histories: many triples, all distinct, looked up again in another
	// order, across raises
	names := []query.QVar{"a", "a1", "a11", "1", "", "a\x1f1", "a\x1f11", "b"}
	for pat := 0; pat < 12; pat++ {
		pat := pat
		r.Case(func() string { return fmt.Sprintf("long history %d", pat) }, func() {
			var ts []triple
			for _, n := range names {
				for i := 0; i < 130; i++ {
					for v := 0; v < 20; v++ {
						x, y := i, v
						switch pat % 4 {
						case 1:
							x, y = v, i
						case 2:
							x, y = i<<16, v<<(i%40)
						case 3:
							x, y = i*20+v, (i+v)%7
						}
						ts = append(ts, triple{n, x, y})
					}
				}
			}
			ctx := query.BasicQContext(m)
			ref.reset()
			step := []int{1, 7, 77, 12343}[pat/3%4]
			what := func() string { return fmt.Sprintf("long history %d", pat) }
			for rep := 0; rep < 2; rep++ {
				for k := range ts {
					t := ts[(k*step+rep)%len(ts)]
					_, want := ref.m[t]
					if ctx.CNFVarExists(t.v, t.idx, t.val) != want {
						Failf("%s: existence of %q is not %v", what(), t, want)
					}
					ref.lookup(t, ctx.CNFVar(t.v, t.idx, t.val), what)
					r.C["transitions"]++
					if k%1000 == 999 {
						ref.top += k % 5
						if !ctx.UpdateTopV(ref.top) {
							Failf("%s: raise to %d refused", what(), ref.top)
						}
					}
					if ctx.TopV() != ref.top {
						Failf("%s: TopV is %d, want %d", what(), ctx.TopV(), ref.top)
					}
				}
			}
			r.Eval(true)
		})
	}
	// many names
	for pat := 0; pat < 3; pat++ {
		pat := pat
		r.Case(func() string { return fmt.Sprintf("peculiar names %d", pat) }, func() {
			var ts []triple
			for _, n := range allNames() {
				for i := 0; i < 12; i++ {
					for v := 0; v < 3; v++ {
						ts = append(ts, triple{query.QVar(n), i * (1 + pat*10), v - pat})
					}
				}
			}
			ctx := query.BasicQContext(m)
			ref.reset()
			what := func() string { return "peculiar names" }
			for rep := 0; rep < 2; rep++ {
				for k := range ts {
					t := ts[(k*[]int{1, 7, 101}[pat])%len(ts)]
					_, want := ref.m[t]
					if ctx.CNFVarExists(t.v, t.idx, t.val) != want {
						Failf("existence of %.40q is not %v", t, want)
					}
					ref.lookup(t, ctx.CNFVar(t.v, t.idx, t.val), what)
					r.C["transitions"]++
				}
			}
			r.Eval(true)
		})
	}
}

// allNames lists the peculiar names, all different.
func allNames() []string {
	out := append([]string{}, peculiar...)
	for _, ab := range alike {
		out = append(out, ab[0], ab[1])
	}
	seen := map[string]bool{}
	k := 0
	for _, n := range out {
		if !seen[n] {
			seen[n] = true
			out[k] = n
			k++
		}
	}
	return out[:k]
}

// ---------- K02: scoper ----------

type scRef struct {
	scopes []scEntry
	vars   map[query.QVar]int // level of declaration; 0 = outside any scope
}

type scEntry struct {
	tgt string
	idx int
	val inst
	set bool
}

type scOp struct {
	kind string
	s    string
	idx  int
}

func (o scOp) String() string {
	switch o.kind {
	case "open":
		return fmt.Sprintf("open($%s:=#%d)", o.s, o.idx)
	case "bare":
		return fmt.Sprintf("open($%s)", o.s)
	case "set":
		return fmt.Sprintf("set(#%d)", o.idx)
	case "add":
		return "declare(" + o.s + ")"
	}
	return o.kind
}

func k02(r *Run) {
	tgts := []string{"g", "g1", "1g"}
	idxs := []int{0, 1, 11}
	vars := []query.QVar{"x", "x1"}
	var ops []scOp
	for _, t := range tgts {
		for _, i := range idxs {
			ops = append(ops, scOp{"open", t, i})
		}
	}
	for _, i := range idxs {
		ops = append(ops, scOp{"set", "", i})
	}
	ops = append(ops, scOp{"bare", "g", 0}, scOp{kind: "pop"}, scOp{kind: "reset"})
	for _, v := range vars {
		ops = append(ops, scOp{"add", string(v), 0})
	}
	vals := map[int]inst{0: {B, O}, 1: {Z, O}, 11: {O, B}}
	m := model{dim: 2}
	runHist := func(h []scOp) {
		ctx := query.BasicQContext(m)
		ref := scRef{vars: map[query.QVar]int{}}
		nameOf := map[string]string{} // name -> key
		life := map[query.QVar]map[string]string{}
		what := func() string { return fmt.Sprintf("after %v", h) }
		for _, o := range h {
			r.C["transitions"]++
			top := len(ref.scopes)
			switch o.kind {
			case "open", "bare":
				for _, s := range ref.scopes {
					if s.tgt == o.s { // same guard inside of itself: not used
						return
					}
				}
				ctx.AddScope(o.s)
				e := scEntry{tgt: o.s}
				if o.kind == "open" {
					if err := ctx.SetScope(o.idx, vals[o.idx]); err != nil {
						Failf("%s: setting an open scope fails: %v", what(), err)
					}
					e = scEntry{o.s, o.idx, vals[o.idx], true}
				}
				ref.scopes = append(ref.scopes, e)
			case "set":
				err := ctx.SetScope(o.idx, vals[o.idx])
				if (err == nil) != (top > 0) {
					Failf("%s: setting with %d open scopes returns %v", what(), top, err)
				}
				if top > 0 {
					e := &ref.scopes[top-1]
					e.idx, e.val, e.set = o.idx, vals[o.idx], true
				}
			case "pop":
				err := ctx.PopScope()
				if (err == nil) != (top > 0) {
					Failf("%s: closing with %d open scopes returns %v", what(), top, err)
				}
				if top > 0 {
					for v, l := range ref.vars {
						if l == top {
							delete(ref.vars, v)
							delete(life, v)
						}
					}
					ref.scopes = ref.scopes[:top-1]
				}
			case "reset":
				ctx.Reset()
				ref = scRef{vars: map[query.QVar]int{}}
				life = map[query.QVar]map[string]string{}
			case "add":
				v := query.QVar(o.s)
				if l, ok := ref.vars[v]; ok && l == 0 && top > 0 { // declared outside and again inside: not used
					return
				}
				ctx.AddVar(v)
				if _, ok := ref.vars[v]; !ok {
					ref.vars[v] = top
				}
			}
			// names
			for _, v := range vars {
				name := string(ctx.ScopeVar(v))
				if again := string(ctx.ScopeVar(v)); again != name {
					Failf("%s: the name of %s is %q and then %q", what(), v, name, again)
				}
				l := ref.vars[v]
				key := string(v)
				unset := false
				for _, s := range ref.scopes[:l] {
					unset = unset || !s.set
					key += fmt.Sprintf(" $%s#%d", s.tgt, s.idx)
				}
				if unset {
					continue
				}
				if l == 0 && name != string(v) {
					Failf("%s: %s belongs to no scope and is called %q", what(), v, name)
				}
				if k, ok := nameOf[name]; ok && k != key {
					Failf("%s: %q is the name of [%s] and of [%s]", what(), name, k, key)
				}
				nameOf[name] = key
				if life[v] == nil {
					life[v] = map[string]string{}
				}
				if n, ok := life[v][key]; ok && n != name {
					Failf("%s: [%s] is called %q and %q", what(), key, n, name)
				}
				life[v][key] = name
			}
			// constants
			for _, id := range []string{"g", "g1", "1g", "", "h"} {
				own := inst{O, O}
				got, ok := ctx.ScopeConst(query.QConst{ID: id, Val: own})
				var e *scEntry
				for k := range ref.scopes {
					if ref.scopes[k].tgt == id {
						e = &ref.scopes[k]
					}
				}
				want := own
				if e != nil {
					if !e.set { // no value yet: nothing or itself
						if len(got.Val) > 0 && !ieq(got.Val, own) {
							Failf("%s: constant $%s, whose scope has no value yet, reads as %s", what(), id, istr(got.Val))
						}
						continue
					}
					want = e.val
				}
				if ok != (e != nil) || !ieq(got.Val, want) || got.ID != id {
					Failf("%s: constant $%s reads as %s scoped=%v (id %q), want %s scoped=%v", what(), id, istr(got.Val), ok, got.ID, istr(want), e != nil)
				}
			}
			for k, v := range vals {
				if !ieq(v, map[int]inst{0: {B, O}, 1: {Z, O}, 11: {O, B}}[k]) {
					Failf("%s: a scope's value slice was changed", what())
				}
			}
		}
		r.C["traces_validated_against_impl"]++
		st := hint(2, len(ref.scopes))
		for _, s := range ref.scopes {
			st = hint(hstr(st, s.tgt), s.idx)
			if s.set {
				st++
			}
		}
		for _, v := range vars {
			if l, ok := ref.vars[v]; ok {
				st = hint(st, l)
			} else {
				st = hint(st, -1)
			}
		}
		r.State(st)
		r.Eval(len(nameOf) > 2)
		r.Sample(func() string { return fmt.Sprint(h) })
	}
	depth := 5
	if r.Thorough() {
		depth = 6
	}
	var rec func(h []scOp)
	rec = func(h []scOp) {
		if len(h) == depth {
			runHist(h)
			return
		}
		for _, o := range ops {
			rec(append(h, o))
		}
	}
	for _, a := range ops {
		for _, b := range ops {
			a, b := a, b
			r.Case(func() string { return fmt.Sprintf("histories starting with %v %v", a, b) }, func() { rec([]scOp{a, b}) })
		}
	}
	// deeper histories over a smaller alphabet (three nested scopes)
	var small []scOp
	for _, t := range tgts {
		small = append(small, scOp{"open", t, 1})
	}
	small = append(small, scOp{"set", "", 11}, scOp{kind: "pop"}, scOp{kind: "reset"}, scOp{"add", "x", 0}, scOp{"add", "x1", 0})
	d2 := 7
	if r.Thorough() {
		d2 = 9
	}
	var rec2 func(h []scOp)
	rec2 = func(h []scOp) {
		if len(h) == d2 {
			runHist(h)
			return
		}
		for _, o := range small {
			rec2(append(h, o))
		}
	}
	for _, a := range small {
		for _, b := range small {
			for _, c := range small {
				h := []scOp{a, b, c}
				r.Case(func() string { return fmt.Sprintf("deep histories starting with %v", h) }, func() { rec2(append([]scOp{}, h...)) })
			}
		}
	}
	// large indexes of one scope and of two nested ones, every pair of bindings
	var large []int
	for _, p := range []int{1 << 8, 1 << 10, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32} {
		large = append(large, p-1, p, p+1)
	}
	large = append(large, seq(33)...)
	large = append(large, 99, 100, 101, 110, 111, 999, 1000, 1001, 1010, 12345678, 1234567890)
	r.Case(func() string { return "bindings with large indexes" }, func() {
		ctx := query.BasicQContext(m)
		nameOf := map[string]string{}
		see := func(v query.QVar, key string) {
			n := string(ctx.ScopeVar(v))
			if k, ok := nameOf[n]; ok && k != key {
				Failf("%q is the name of [%s] and of [%s]", n, k, key)
			}
			nameOf[n] = key
			r.Eval(true)
		}
		for i := 0; i < 70000; i++ {
			large := large
			if i >= 300 && (i < 65200 || i > 65800) {
				large = nil
			}
			ctx.Reset()
			ctx.AddScope("g")
			ctx.SetScope(i, vals[0])
			ctx.AddVar("x")
			see("x", fmt.Sprintf("x $g#%d", i))
			ctx.AddScope("h")
			for _, j := range large {
				ctx.SetScope(j, vals[1])
				ctx.AddVar("y")
				see("y", fmt.Sprintf("y $g#%d $h#%d", i, j))
			}
		}
		for _, i := range large {
			ctx.Reset()
			ctx.AddScope("g")
			ctx.SetScope(i, vals[0])
			ctx.AddVar("x")
			see("x", fmt.Sprintf("x $g#%d", i))
			ctx.AddScope("h")
			for _, j := range large {
				ctx.SetScope(j, vals[1])
				ctx.AddVar("y")
				see("y", fmt.Sprintf("y $g#%d $h#%d", i, j))
			}
		}
	})
	// many scopes inside each other
	r.Case(func() string { return "scopes nested 300 deep" }, func() {
		ctx := query.BasicQContext(m)
		nameOf := map[string]string{}
		for l := 0; l < 300; l++ {
			g := fmt.Sprint("g", l)
			ctx.AddScope(g)
			ctx.SetScope(l%3, vals[0])
			ctx.AddVar(query.QVar(fmt.Sprint("x", l)))
			for _, j := range []int{0, 11, 1} {
				ctx.SetScope(j, vals[j])
				for k := 0; k <= l; k++ {
					n := string(ctx.ScopeVar(query.QVar(fmt.Sprint("x", k))))
					key := fmt.Sprint(k)
					if k == l {
						key += fmt.Sprint("#", j)
					} else {
						key += "#1"
					}
					if p, ok := nameOf[n]; ok && p != key {
						Failf("nested %d deep: %q is the name of variable [%s] and of [%s]", l+1, n, p, key)
					}
					nameOf[n] = key
					c, ok := ctx.ScopeConst(query.QConst{ID: fmt.Sprint("g", k)})
					want := vals[1]
					if k == l {
						want = vals[j]
					}
					if !ok || !ieq(c.Val, want) {
						Failf("nested %d deep: constant g%d reads as %s scoped=%v, want %s", l+1, k, istr(c.Val), ok, istr(want))
					}
				}
			}
			r.Eval(true)
		}
		for l := 299; l >= 0; l-- {
			if err := ctx.PopScope(); err != nil {
				Failf("closing scope %d of 300: %v", l, err)
			}
			if _, ok := ctx.ScopeConst(query.QConst{ID: fmt.Sprint("g", l)}); ok {
				Failf("constant g%d still bound after its scope was closed", l)
			}
			v := query.QVar(fmt.Sprint("x", l))
			if n := ctx.ScopeVar(v); n != v {
				Failf("variable %s is called %q after its scope was closed", v, n)
			}
		}
		if ctx.PopScope() == nil {
			Failf("closing a scope when none is open gives no error")
		}
	})
	// peculiar names of variables and guards
	for part := 0; part < 8; part++ {
		part := part
		r.Case(func() string { return fmt.Sprintf("peculiar names of variables and guards %d", part) }, func() {
			var ns []string
			for _, n := range allNames() {
				if !strings.ContainsAny(n, "\x1e\x1f") && (len(n) < 5000 || part == 0) {
					ns = append(ns, n)
				}
			}
			nameOf := map[string]string{}
			see := func(ctx query.QContext, v, key string) {
				n := string(ctx.ScopeVar(query.QVar(v)))
				if p, ok := nameOf[n]; ok && p != key {
					Failf("%.60q is the name of variable [%.60s] and of [%.60s]", n, p, key)
				}
				nameOf[n] = key
				if ctx.ScopeVar(query.QVar(v)) != query.QVar(n) {
					Failf("variable %.60q has two names", v)
				}
			}
			for i, g := range ns {
				if i%8 != part {
					continue
				}
				for j, v := range ns {
					ctx := query.BasicQContext(m)
					ctx.AddScope(g)
					for k := 0; k < 2; k++ {
						ctx.SetScope(k, vals[k])
						ctx.AddVar(query.QVar(v))
						see(ctx, v, fmt.Sprintf("%q in %q#%d", v, g, k))
						c, ok := ctx.ScopeConst(query.QConst{ID: g})
						if !ok || !ieq(c.Val, vals[k]) {
							Failf("constant %.60q reads as %s scoped=%v, want %s", g, istr(c.Val), ok, istr(vals[k]))
						}
						o := ns[(i+1+j)%len(ns)]
						if _, ok := ctx.ScopeConst(query.QConst{ID: o}); ok && o != g {
							Failf("constant %.60q is bound by the scope of %.60q", o, g)
						}
					}
					if (i+j)%5 != 0 && !r.Thorough() {
						continue
					}
					// a second one inside
					h := ns[(i*3+j*7+1)%len(ns)]
					if h == g {
						continue
					}
					w := ns[(i+j*5+2)%len(ns)]
					if w == v {
						w = "w" + w
					}
					ctx.AddScope(h)
					ctx.SetScope(11, vals[11])
					ctx.AddVar(query.QVar(w))
					see(ctx, w, fmt.Sprintf("%q in %q#1 %q#11", w, g, h))
					see(ctx, v, fmt.Sprintf("%q in %q#1", v, g))
					c, ok := ctx.ScopeConst(query.QConst{ID: h})
					if !ok || !ieq(c.Val, vals[11]) {
						Failf("constant %.60q inside %.60q reads as %s scoped=%v", h, g, istr(c.Val), ok)
					}
					if err := ctx.PopScope(); err != nil {
						Failf("closing the scope of %.60q: %v", h, err)
					}
					if n := ctx.ScopeVar(query.QVar(w)); n != query.QVar(w) {
						Failf("variable %.60q is called %.60q after its scope was closed", w, n)
					}
				}
				r.Eval(true)
			}
		})
	}
	// many bindings of one nest: all names different
	r.Case(func() string { return "all bindings of three scopes" }, func() {
		ctx := query.BasicQContext(m)
		nameOf := map[string]string{}
		ctx.AddScope("g")
		ctx.SetScope(0, vals[0])
		ctx.AddScope("g1")
		ctx.SetScope(0, vals[0])
		ctx.AddVar("x")
		ctx.AddScope("1g")
		for c := 0; c < 23; c++ {
			ctx.SetScope(c, vals[0])
			ctx.AddVar("x1")
			ctx.AddVar("x")
			for _, v := range vars {
				n := string(ctx.ScopeVar(v))
				key := string(v)
				if v == "x1" {
					key += fmt.Sprint(c)
				}
				if k, ok := nameOf[n]; ok && k != key {
					Failf("name %q stands for binding %s and %s", n, k, key)
				}
				nameOf[n] = key
			}
			r.Eval(true)
		}
		if len(nameOf) != 24 {
			Failf("%d names for 24 bindings", len(nameOf))
		}
	})
}

// ---------- K04: instance helpers ----------

func k04(r *Run) {
	maxd := 7
	if r.Thorough() {
		maxd = 10
	}
	if r.Deep() {
		maxd = 13
	}
	for d := 0; d <= maxd; d++ {
		d := d
		r.Case(func() string { return fmt.Sprintf("all instances of dimension %d", d) }, func() {
			seen := map[string]bool{}
			for _, v := range allInst(d) {
				for _, id := range []string{"", "c"} {
					own := append(inst{}, v...)
					c := query.QConst{ID: id, Val: own}
					r.Eval(d > 0)
					n := 0
					want := ""
					for _, f := range v {
						switch f {
						case query.BOT:
							n++
							want += "_"
						case query.ZERO:
							want += "0"
						case query.ONE:
							want += "1"
						}
					}
					if got := c.BotCount(); got != n {
						Failf("BotCount of %s is %d", istr(v), got)
					}
					if got := c.IsFull(); got != (n == 0) {
						Failf("IsFull of %s is %v", istr(v), got)
					}
					if got := c.AsString(); got != want {
						Failf("AsString of %s is %q", istr(v), got)
					}
					if !c.EqualValue(query.QConst{Val: append(inst{}, v...)}) {
						Failf("%s does not equal its copy", istr(v))
					}
					if !ieq(own, v) || c.ID != id {
						Failf("the helpers changed %s to %s", istr(v), istr(own))
					}
				}
				s := query.QConst{Val: v}.AsString()
				if seen[s] {
					Failf("two instances of dimension %d have the string %q", d, s)
				}
				seen[s] = true
			}
			r.Sample(func() string { return fmt.Sprintf("%d instances of dimension %d", len(seen), d) })
		})
	}
	dd := 4
	if r.Thorough() {
		dd = 6
	}
	if r.Deep() {
		dd = 8
	}
	for d1 := 0; d1 <= dd; d1++ {
		for d2 := 0; d2 <= dd; d2++ {
			d1, d2 := d1, d2
			r.Case(func() string { return fmt.Sprintf("all pairs of dimensions %d and %d", d1, d2) }, func() {
				for i, a := range allInst(d1) {
					for j, b := range allInst(d2) {
						want := d1 == d2 && i == j
						for _, id := range []string{"", "c"} {
							r.Eval(true)
							if got := (query.QConst{ID: id, Val: a}).EqualValue(query.QConst{Val: b}); got != want {
								Failf("EqualValue(%s,%s) is %v", istr(a), istr(b), got)
							}
						}
					}
				}
				// nil and empty values have the same (zero) features
				if d1 == 0 && d2 == 0 && !(query.QConst{}).EqualValue(query.QConst{Val: inst{}}) {
					Failf("two instances of dimension 0 are different")
				}
			})
		}
	}
	r.Case(func() string { return "AllBotConst" }, func() {
		for d := 0; d <= 300; d++ {
			r.Eval(true)
			c := query.AllBotConst(d)
			if len(c.Val) != d || c.BotCount() != d || c.ID != "" {
				Failf("AllBotConst(%d) is %+v", d, c)
			}
			for _, f := range c.Val {
				if f != query.BOT {
					Failf("AllBotConst(%d) is %s", d, istr(c.Val))
				}
			}
			if d > 0 { // own storage
				c.Val[0] = query.ONE
				if query.AllBotConst(d).Val[0] != query.BOT {
					Failf("AllBotConst(%d) shares its storage", d)
				}
			}
		}
	})
	r.Case(func() string { return "dimension validation" }, func() {
		lens := []int{0, 1, 2, 3, 4}
		var rec func(l []int)
		rec = func(l []int) {
			for d := 0; d <= 4; d++ {
				var cs []query.QConst
				want := true
				for k, n := range l {
					v := make(inst, n)
					for i := range v {
						v[i] = query.FeatV((i + k + d) % 3)
					}
					cs = append(cs, query.QConst{Val: v})
					want = want && n == d
				}
				r.Eval(len(l) > 0)
				if err := query.ValidateConstsDim(d, cs...); (err == nil) != want {
					Failf("validating constants of lengths %v for dimension %d returns %v", l, d, err)
				}
			}
			if len(l) < 4 {
				for _, n := range lens {
					rec(append(append([]int{}, l...), n))
				}
			}
		}
		rec(nil)
	})
}

func init() {
	register(&checkDef{id: "K01", level: "model_checking", rule: "States are those of the reference map (numbers by name and top value) at the end of a history; every history of operations of the full depth (hence every shorter one as a prefix) runs on the real context next to it and each step's result is compared. Non-trivial: at least one number handed out.", fn: k01})
	register(&checkDef{id: "K02", level: "model_checking", rule: "States are those of the reference scope stack at the end of a history; every history of operations of the full depth runs on the real context next to it; after every step all names and constants are compared. Non-trivial: more than two names seen.", fn: k02})
	register(&checkDef{id: "K04", level: "exploration", rule: "One evaluation is one instance, pair of instances or list of constants. Non-trivial: at least one feature.", fn: k04})
}
