package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- M09: descriptors, processes, goroutines ----------

type resources struct {
	fds  map[string]bool
	gors int
}

func openFDs() map[string]bool {
	out := map[string]bool{}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	names, _ := d.Readdirnames(-1)
	self := fmt.Sprint(d.Fd())
	d.Close()
	for _, n := range names {
		if n == self {
			continue
		}
		t, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil || strings.HasPrefix(t, "anon_inode:[event") {
			continue // of the runtime's poller
		}
		out[n+" -> "+t] = true
	}
	return out
}

func countResources() resources { return resources{openFDs(), runtime.NumGoroutine()} }

func (b resources) unchanged(what string) {
	for k := range openFDs() {
		if !b.fds[k] {
			Failf("%s: descriptor left open: %s", what, k)
		}
	}
	if pid, err := syscall.Wait4(-1, nil, syscall.WNOHANG, nil); err != syscall.ECHILD {
		Failf("%s: a child process was left (%d %v)", what, pid, err)
	}
	n := 0
	for i := 0; i < 200; i++ { // a goroutine that is about to end may take a moment
		if n = runtime.NumGoroutine(); n <= b.gors {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
	buf := make([]byte, 1<<16)
	Failf("%s: %d goroutines before, %d after\n%s", what, b.gors, n, buf[:runtime.Stack(buf, true)])
}

func m09(r *Run) {
	debug.SetGCPercent(-1) // or a collection could close what was left open
	leftovers(r, true)
}

// ---------- K05: the top value covers every formula ----------

func maxLit(F cnfT) int {
	m := 0
	sc, cc := F.Clauses()
	for _, cs := range [][]cls{sc, cc} {
		for _, c := range cs {
			for _, l := range c {
				m = maxi(m, maxi(l, -l))
			}
		}
	}
	return m
}

// k05 encodes sequences of formulas in one context. After each, the context's
// top value must cover the formula, a new name must get a number beyond all
// formulas so far, and the conjunction of the formulas must mean the
// conjunction of their meanings (nothing but named variables is shared).
func k05(r *Run) {
	th := r.Thorough()
	x, xy := []string{"x"}, []string{"x", "y"}
	run := func(w *world, m model, seq []*form, vars []string) {
		ctx := query.BasicQContext(m)
		F, err := with(vars[0], triv(true)).build().Encoding(ctx)
		for _, v := range vars[1:] {
			G, e := with(v, triv(true)).build().Encoding(ctx)
			if e != nil {
				err = e
			}
			F = F.Conjunction(G)
		}
		if err != nil {
			Failf("declaration: %v", err)
		}
		top := 0
		for i, f := range seq {
			G, err := f.build().Encoding(ctx)
			if err != nil {
				Failf("%s: unexpected error %v", f, err)
			}
			r.Eval(true)
			top = maxi(top, maxLit(G))
			if ctx.TopV() < top {
				Failf("after encoding %v (tree %s): the formula uses variable %d, the context's top value is %d", seq[:i+1], w.t, top, ctx.TopV())
			}
			if G.TopV() < maxLit(G) {
				Failf("%s: top value %d of the formula, variable %d in it", f, G.TopV(), maxLit(G))
			}
			n := ctx.CNFVar("fresh", i, 0)
			if n <= top {
				Failf("after encoding %v (tree %s): a new name gets %d, a formula uses %d", seq[:i+1], w.t, n, top)
			}
			F = F.Conjunction(G)
		}
		ps := make([]pinner, len(vars))
		for i, v := range vars {
			ps[i] = mkPinner(ctx, query.QVar(v), w.dim)
		}
		s := satOf(F, maxi(ctx.TopV(), F.TopV()))
		idx := make([]int, len(vars))
		as := make([]int, 0, 32)
		for {
			as = as[:0]
			for i := range vars {
				as = ps[i].pinTrue(as, w.insts[idx[i]])
				w.env[vars[i]] = w.insts[idx[i]]
			}
			want := true
			for _, f := range seq {
				p, _ := w.can(f)
				want = want && p
			}
			r.Eval(true)
			if got := s.solve(as...); got != want {
				Failf("conjunction of the formulas of %v, encoded one after the other, on tree %s with %s: satisfiable=%v, meaning=%v", seq, w.t, envStr(w, vars), got, want)
			}
			if !inc(idx, len(w.insts)) {
				break
			}
		}
		for _, v := range vars {
			delete(w.env, v)
		}
		r.Sample(func() string { return fmt.Sprintf("%v on tree %s", seq, w.t) })
	}
	pool := func(d int, vars []string, t *tree) []*form {
		k := allInst(d)[1]
		var at []*form
		for _, kd := range []string{kSub, kCons, kLEL, kHEPR, kLEH, kFull, kNode, kAllT, kDFS} {
			fs := atomsOver(kd, vars, []inst{k}, seq(d))
			step := 1
			if len(fs) > 6 {
				step = len(fs)/4 + 1
			}
			for i := 0; i < len(fs); i += step {
				at = append(at, fs[i])
			}
		}
		var out []*form
		for i, a := range at {
			b := at[(i*5+3)%len(at)]
			out = append(out, a, not(a), not(and(a, not(b))), or(not(a), not(or(b, a))))
			if i%3 == 0 {
				g := fmt.Sprintf("g%d", i)
				out = append(out, forall(g, or(a, not(atom(kSub, ga(g), va("x"))))), not(forall(g, not(and(a, atom(kLEL, ga(g), va("x")))))))
			}
		}
		return append(out, triv(false), not(triv(false)), not(not(not(at[0]))))
	}
	each := func(d int, t *tree, layout int, vars []string, third bool) {
		fs := pool(d, vars, t)
		for i := range fs {
			i := i
			r.Case(func() string { return fmt.Sprintf("dim %d tree %s: %s first", d, t, fs[i]) }, func() {
				w := newWorld(d, t)
				m := mkModel(d, t, layout)
				for j := range fs {
					run(w, m, []*form{fs[i], fs[j]}, vars)
					if third {
						run(w, m, []*form{fs[i], fs[j], fs[(i+7*j+3)%len(fs)]}, vars)
					}
				}
			})
		}
	}
	for i, t := range allTrees(1) {
		each(1, t, i%nLayouts, x, true)
	}
	each(1, allTrees(1)[3], 0, xy, th)
	step := 9
	if th {
		step = 2
	}
	for i, t := range allTrees(2) {
		if i%step == 4%step {
			each(2, t, i%nLayouts, x, th)
		}
	}
}

// ---------- I01: what the caller handed in stays as it is ----------

// keeper hands out slices with spare capacity and notices writes to them.
type keeper struct {
	now, was [][]query.FeatV
	ints     [][]int
	intsWas  [][]int
	nodes    []query.Node
	nodesWas []query.Node
}

func (k *keeper) inst(v inst) inst {
	b := make([]query.FeatV, len(v)+3)
	copy(b, v)
	for i := len(v); i < len(b); i++ {
		b[i] = query.FeatV(1 + i%2)
	}
	k.now = append(k.now, b)
	k.was = append(k.was, append([]query.FeatV{}, b...))
	return b[:len(v):len(b)]
}

func (k *keeper) pref(v []int) []int {
	b := make([]int, len(v)+3)
	copy(b, v)
	for i := len(v); i < len(b); i++ {
		b[i] = -77
	}
	k.ints = append(k.ints, b)
	k.intsWas = append(k.intsWas, append([]int{}, b...))
	return b[:len(v):len(b)]
}

func (k *keeper) model(dim int, t *tree, layout int) model {
	n := flatten(t, layout)
	b := make([]query.Node, len(n)+3)
	copy(b, n)
	for i := len(n); i < len(b); i++ {
		b[i] = query.Node{Feat: -9, ZChild: -9, OChild: -9}
	}
	k.nodes = b
	k.nodesWas = append([]query.Node{}, b...)
	return model{dim, b[:len(n):len(b)]}
}

func (k *keeper) form(f *form) *form {
	if f == nil {
		return nil
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i := range g.args {
		if !g.args[i].isVar && g.args[i].c.Val != nil {
			g.args[i].c.Val = k.inst(g.args[i].c.Val)
		}
	}
	if f.pref != nil {
		g.pref = k.pref(f.pref)
	}
	g.a, g.b = k.form(f.a), k.form(f.b)
	return &g
}

func (k *keeper) check(what string) {
	for i := range k.now {
		for j := range k.now[i] {
			if k.now[i][j] != k.was[i][j] {
				Failf("%s: a constant of the query was changed from %v to %v (the last three values lie behind its end)", what, k.was[i], k.now[i])
			}
		}
	}
	for i := range k.ints {
		for j := range k.ints[i] {
			if k.ints[i][j] != k.intsWas[i][j] {
				Failf("%s: a preference of the query was changed from %v to %v (the last three values lie behind its end)", what, k.intsWas[i], k.ints[i])
			}
		}
	}
	for i := range k.nodes {
		if k.nodes[i] != k.nodesWas[i] {
			Failf("%s: node %d of the model was changed from %+v to %+v", what, i, k.nodesWas[i], k.nodes[i])
		}
	}
}

// scribble overwrites everything handed in.
func (k *keeper) scribble() {
	for _, b := range k.now {
		for j := range b {
			b[j] = query.FeatV((int(b[j]) + 1) % 3)
		}
	}
	for _, b := range k.ints {
		for j := range b {
			b[j] = 0
		}
	}
	for i := range k.nodes {
		k.nodes[i].Value = !k.nodes[i].Value
		if !k.nodes[i].IsLeaf() {
			k.nodes[i].ZChild, k.nodes[i].OChild = k.nodes[i].OChild, k.nodes[i].ZChild
		}
	}
}

func i01(r *Run) {
	th := r.Thorough()
	one := func(d int, t *tree, layout int, f *form) {
		what := fmt.Sprintf("%s on tree %s", f, t)
		k := &keeper{}
		m := k.model(d, t, layout)
		q := k.form(f).build()
		enc := func() (cnfT, string) {
			ctx := query.BasicQContext(m)
			F, err := q.Encoding(ctx)
			if err != nil {
				Failf("%s: unexpected error %v", what, err)
			}
			return F, string(F.ToBytes())
		}
		r.Eval(true)
		F, text := enc()
		k.check(what)
		for i := 0; i < 3; i++ {
			if _, again := enc(); again != text {
				Failf("%s: encoded once more in a fresh context, the formula is another one", what)
			}
			k.check(what + ", encoded again")
		}
		// the other way round: the formula is the caller's to keep
		k.scribble()
		if string(F.ToBytes()) != text {
			Failf("%s: the formula changes when the query's constants or the model do afterwards", what)
		}
		r.Sample(func() string { return what })
	}
	batch := func(d int, t *tree, layout int, fs []*form) {
		for i := 0; i < len(fs); i += 40 {
			i := i
			r.Case(func() string {
				return fmt.Sprintf("dim %d tree %s layout %d formulas %d.. (%s)", d, t, layout, i, fs[i])
			}, func() {
				for _, f := range fs[i:min(i+40, len(fs))] {
					for _, v := range []string{"y", "x"} {
						f = with(v, f)
					}
					one(d, t, layout, f)
				}
			})
		}
	}
	kinds := []string{kSub, kCons, kLEL, kHEPR, kLEH, kFull, kNode, kAllT, kAllF, kDFS}
	for d := 1; d <= 3; d++ {
		ts := allTrees(d)
		for i, t := range ts {
			if d == 3 && i%1301 != 7 && !(th && i%97 == 7) || d == 2 && !th && i%5 != 0 {
				continue
			}
			all := allInst(d)
			cs := []inst{all[(i*7+1)%len(all)], all[(i*5+4)%len(all)], all[len(all)-1]}
			prefs := allPrefs(d, d)
			var fs []*form
			for _, kd := range kinds {
				pr := []int(nil)
				if kd == kHEPR {
					pr = prefs[(i+len(prefs)-1)%len(prefs)]
				}
				for _, a := range atomsOver(kd, []string{"x", "y"}, cs, pr) {
					fs = append(fs, a, not(a))
				}
				// constants only
				args := make([]arg, arity(kd))
				for n := 0; n < 9; n++ {
					for j := range args {
						args[j] = ca(cs[(n/(1+2*j)+j)%3])
					}
					c := &form{op: fAtom, kind: kd, args: append([]arg{}, args...), pref: pr}
					fs = append(fs, c, or(c, not(c)))
				}
			}
			for _, b := range s10Bodies("g", cs[0], d) {
				fs = append(fs, forall("g", substVar(b, "y", "u")), not(forall("g", renameInner(b, new(int)))))
			}
			batch(d, t, i%nLayouts, fs)
		}
	}
	// scope values: bound values stay as set
	for d := 1; d <= 2; d++ {
		for _, v := range allInst(d) {
			d, v := d, v
			r.Case(func() string { return fmt.Sprintf("scope value %s", istr(v)) }, func() {
				for _, t := range allTrees(d) {
					for _, kd := range kinds {
						k := &keeper{}
						m := k.model(d, t, 0)
						ctx := query.BasicQContext(m)
						ctx.AddScope("g")
						b := k.inst(v)
						if err := ctx.SetScope(0, b); err != nil {
							Failf("SetScope: %v", err)
						}
						args := make([]arg, arity(kd))
						for j := range args {
							args[j] = ga("g")
						}
						for _, mask := range []int{0, 1} {
							if mask == 1 {
								args[len(args)-1] = va("x")
							}
							if _, err := mkAtom(kd, args, seq(d)).Encoding(ctx); err != nil {
								Failf("%s: unexpected error %v", kd, err)
							}
						}
						if c, ok := ctx.ScopeConst(query.QConst{ID: "g"}); !ok || !ieq(c.Val, v) {
							Failf("%s with scope value %s: it reads %v afterwards", kd, istr(v), c)
						}
						r.Eval(true)
						k.check(fmt.Sprintf("%s with scope value %s", kd, istr(v)))
					}
				}
			})
		}
	}
	valuesKept(r)
	// optimisation: instances handed to the order, the result, and the model
	for ti, t := range allTrees(2) {
		if ti%4 != 0 && !th {
			continue
		}
		ti, t := ti, t
		r.Case(func() string { return fmt.Sprintf("optimum on tree %s", t) }, func() {
			k0 := allInst(2)[ti%9]
			for pi := range propsOf(k0) {
				for oi := range ordersOf(k0, 2) {
					for _, ph := range []string{"", "true"} {
						k := &keeper{}
						m := k.model(2, t, ti%nLayouts)
						c := k.inst(k0)
						p, o := propsOf(c)[pi], ordersOf(c, 2)[oi]
						var seen, was []inst
						og := func(v query.QVar, b query.QConst) compute.Encodable {
							seen = append(seen, b.Val)
							was = append(was, append(inst{}, b.Val...))
							return o.f(string(v), b.Val).build()
						}
						s := &inproc{phase: ph}
						ctx := query.BasicQContext(m)
						out, err := compute.ComputeOptim(fgOf(p), og, "x", ctx, s)
						what := fmt.Sprintf("optimum of %s under %s on tree %s", p.name, o.name, t)
						if err != nil {
							Failf("%s: %v", what, err)
						}
						r.Eval(true)
						k.check(what)
						val := append(inst{}, out.Value.Val...)
						again, err := compute.ComputeOptim(fgOf(p), og, "x", ctx, s)
						if err != nil {
							Failf("%s, again: %v", what, err)
						}
						k.check(what + ", again")
						for i := range again.Value.Val { // the caller's
							again.Value.Val[i] = (again.Value.Val[i] + 1) % 3
						}
						if !ieq(out.Value.Val, val) {
							Failf("%s: the result %s reads %s after another computation", what, istr(val), istr(out.Value.Val))
						}
						for i := range was {
							if i < len(was)-1 && !ieq(seen[i], was[i]) && !sameSlice(seen[i], again.Value.Val) {
								Failf("%s: instance %d handed to the order was %s and reads %s later", what, i+1, istr(was[i]), istr(seen[i]))
							}
						}
					}
				}
			}
		})
	}
}

// valuesKept: values handed out stay what they were, whatever is asked later,
// and what the caller does to them does not come back.
func valuesKept(r *Run) {
	type op struct {
		kind string // step, values, scribble
		k    int
	}
	vals := []map[query.QVar]inst{
		{"x": {Z, O}, "y": {B, B}}, {"x": {B, Z}, "y": {O, O}}, {"x": {O, O}, "y": {Z, B}},
	}
	asks := [][]query.QVar{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"x", "x"}}
	var ops []op
	for k := range vals {
		ops = append(ops, op{"step", k})
	}
	for k := range asks {
		ops = append(ops, op{"values", k})
	}
	ops = append(ops, op{"scribble", 0}, op{"append", 0}, op{"unsat", 0}, op{"failed step", 0})
	q := rawQ{cnf.FromClauses([]cls{{1, 2}})}
	run := func(fk *fake, h []op) {
		ctx := valCtx(2, "x", "y")
		var st []fakeStep
		for _, o := range h {
			switch o.kind {
			case "step":
				st = append(st, fakeStep{Exit: 10, Stdout: "s SATISFIABLE\n" + vline(append(litsOf(ctx, "y", vals[o.k]["y"]), litsOf(ctx, "x", vals[o.k]["x"])...))})
			case "unsat":
				st = append(st, fakeStep{Exit: 20, Stdout: "s UNSATISFIABLE\n"})
			case "failed step":
				st = append(st, fakeStep{Exit: 1})
			}
		}
		fk.script(st...)
		s := fk.solver()
		cur := -1
		var got, was []inst
		for i, o := range h {
			switch o.kind {
			case "step":
				if err := s.Step(q, ctx); err != nil {
					Failf("%v: %v", h[:i+1], err)
				}
				cur = o.k
			case "unsat", "failed step":
				if s.Step(q, ctx) == nil {
					Failf("%v: no error", h[:i+1])
				}
			case "values":
				vs, err := s.Values(asks[o.k], ctx)
				if cur < 0 {
					if err == nil {
						Failf("%v: values %v before any step", h[:i+1], vs)
					}
					break
				}
				if err != nil || len(vs) != len(asks[o.k]) {
					Failf("%v: values %v (%v)", h[:i+1], vs, err)
				}
				for j, v := range asks[o.k] {
					if !ieq(vs[j].Val, vals[cur][v]) {
						Failf("%v: the value of %s reads %s, want %s", h[:i+1], v, istr(vs[j].Val), istr(vals[cur][v]))
					}
					got = append(got, vs[j].Val)
					was = append(was, append(inst{}, vs[j].Val...))
				}
			case "scribble": // the caller's
				for k, g := range got {
					for j := range g {
						g[j] = (g[j] + 1 + query.FeatV(k+j)%2) % 3
					}
					was[k] = append(inst{}, g...)
				}
			case "append":
				for _, g := range got {
					g = append(g, O, Z)
					_ = append(g, B)
				}
			}
			for k := range got {
				if !ieq(got[k], was[k]) {
					Failf("%v: value %d handed out was %s and reads %s", h[:i+1], k+1, istr(was[k]), istr(got[k]))
				}
			}
		}
		r.Eval(len(got) > 0)
		r.Sample(func() string { return fmt.Sprint(h) })
	}
	depth := 4
	if r.Deep() {
		depth = 5
	}
	for a := range ops {
		for b := range ops {
			a, b := a, b
			if ops[a].kind != "step" && !(ops[a].kind == "values" && a%2 == 1) {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("values kept: histories starting with %v %v", ops[a], ops[b]) }, func() {
				fk := newFake(r)
				idx := make([]int, depth-2)
				for {
					h := []op{ops[a], ops[b]}
					reads := 0
					for _, k := range idx {
						h = append(h, ops[k])
					}
					for _, o := range h {
						if o.kind == "values" {
							reads++
						}
					}
					if reads > 0 {
						run(fk, h)
					}
					if !inc(idx, len(ops)) {
						break
					}
				}
			})
		}
	}
}

func sameSlice(a, b inst) bool { return len(a) > 0 && len(b) > 0 && &a[0] == &b[0] }

// ---------- E01: size of the encodings ----------

// countQ counts how often it is encoded.
type countQ struct {
	q enc
	n *int
}

func (c countQ) Encoding(ctx query.QContext) (cnfT, error) {
	*c.n++
	return c.q.Encoding(ctx)
}

func sizeOf(F cnfT) (clauses, lits int) {
	sc, cc := F.Clauses()
	for _, cs := range [][]cls{sc, cc} {
		clauses += len(cs)
		for _, c := range cs {
			lits += len(c)
		}
	}
	return
}

// e01: the size of a formula is polynomial in dimension, nodes and size of the
// query, with one encoding of a part per place where it occurs. The bounds are
// wide: they are about the kind of growth, not about constants.
func e01(r *Run) {
	th := r.Thorough()
	within := func(what string, F cnfT, ctx query.QContext, n int, deg int) {
		c, l := sizeOf(F)
		b := 40
		for i := 0; i < deg; i++ {
			b *= n
		}
		r.Eval(true)
		if c > b || l > 4*b || ctx.TopV() > b {
			Failf("%s: %d clauses, %d literals and %d variables for size %d; beyond 40*%d^%d", what, c, l, ctx.TopV(), n, n, deg)
		}
		r.Sample(func() string { return fmt.Sprintf("%s: %d clauses, %d literals, %d variables", what, c, l, ctx.TopV()) })
	}
	kinds := []string{kSub, kCons, kLEL, kHEPR, kLEH, kFull, kNode, kAllT, kAllF, kDFS}
	dims := []int{1, 2, 3, 5, 8, 12, 16, 20, 24, 28, 32, 40, 48, 64, 80}
	if th {
		dims = append(dims, 100, 130, 160)
	}
	for _, d := range dims {
		shapes := []bigTree{{"chain", d, chain(seq(d), 0x5a5a5a5a5a5a5a5a, true)}, {"reverse chain", d, chain(revs(d), 0, false)}, {"leaf", d, leafT}}
		if d <= 8 {
			shapes = append(shapes, bigTree{"complete", d, complete(seq(d), make(inst, d), parity)})
		} else {
			f := []int{d - 1, 0, d / 2, 3, 7}
			shapes = append(shapes, bigTree{"spread", d, remap(complete(seq(5), make(inst, 5), parity), f)})
		}
		for _, bt := range shapes {
			for _, kd := range kinds {
				d, bt, kd := d, bt, kd
				if bt.name != "leaf" && kd != kNode && kd != kAllT && kd != kAllF && kd != kDFS {
					continue
				}
				r.Case(func() string { return fmt.Sprintf("%s, dimension %d, %s", kd, d, bt.name) }, func() {
					m := mkModel(d, bt.t, 0)
					n := d + len(m.nodes) + 1
					cs := append(edgeLevels(d, true, []int{0, d / 2}), edgeLevels(d, false, []int{0, d / 2})...)
					if len(cs) > 5 {
						cs = cs[:5]
					}
					vars := []string{"x", "y", "z"}
					ar := arity(kd)
					for mask := 0; mask < 1<<ar; mask++ {
						for _, al := range aliasPatterns(ar, mask) {
							for ci := range cs {
								args := make([]arg, ar)
								for i := range args {
									if mask>>(ar-1-i)&1 == 1 {
										args[i] = va(vars[al[i]])
									} else {
										args[i] = ca(cs[(ci+i)%len(cs)])
									}
								}
								f := &form{op: fAtom, kind: kd, args: args, pref: revs(d)}
								deg := 2
								if kd == kDFS {
									deg = 3
								}
								for _, g := range []*form{f, not(f)} {
									ctx := query.BasicQContext(m)
									F, err := g.build().Encoding(ctx)
									if err != nil {
										Failf("%s: unexpected error %v", g, err)
									}
									within(fmt.Sprintf("%s form %0*b %v, dimension %d, %s", kd, ar, mask, g.op == fNot, d, bt.name), F, ctx, n, deg)
								}
							}
						}
					}
				})
			}
		}
	}
	// growth when the dimension (and the tree) doubles: no faster than the degree
	growth := func(what string, small, big [3]int, factor float64) {
		r.Eval(true)
		for i, part := range []string{"clauses", "literals", "variables"} {
			if small[i] >= 300 && float64(big[i]) > factor*1.25*float64(small[i]) {
				Failf("%s: from %d to %d %s; more than %g times", what, small[i], big[i], part, factor)
			}
		}
		r.Sample(func() string { return fmt.Sprintf("%s: from %v to %v", what, small, big) })
	}
	for _, kd := range kinds {
		deg, top := 2, []int{24, 48, 96, 192}
		if kd == kDFS {
			deg, top = 3, []int{10, 20, 40}
		}
		for ti := range top[:len(top)-1] {
			for _, shape := range []string{"leaf", "chain", "reverse chain"} {
				if shape != "leaf" && kd != kNode && kd != kAllT && kd != kAllF && kd != kDFS {
					continue
				}
				ar := arity(kd)
				for mask := 0; mask < 1<<ar; mask++ {
					kd, ar, mask, shape, d := kd, ar, mask, shape, top[ti]
					r.Case(func() string { return fmt.Sprintf("growth of %s %0*b, %s, from dimension %d", kd, ar, mask, shape, d) }, func() {
						size := func(d int, al []int, alt, neg bool) [3]int {
							t := leafT
							switch shape {
							case "chain":
								t = chain(seq(d), 0x5a5a5a5a5a5a5a5a, true)
							case "reverse chain":
								t = chain(revs(d), 0, false)
							}
							ctx := query.BasicQContext(mkModel(d, t, 0))
							args := make([]arg, ar)
							for i := range args {
								if mask>>(ar-1-i)&1 == 1 {
									args[i] = va([]string{"x", "y", "z"}[al[i]])
									continue
								}
								c := make(inst, d)
								for j := range c {
									if alt {
										c[j] = query.FeatV((j + i) % 3)
									} else {
										c[j] = query.FeatV((1 + i + j/(d/2)) % 3)
									}
								}
								args[i] = ca(c)
							}
							f := &form{op: fAtom, kind: kd, args: args, pref: revs(d)}
							if neg {
								f = not(f)
							}
							F, err := f.build().Encoding(ctx)
							if err != nil {
								Failf("%s: unexpected error %v", f, err)
							}
							c, l := sizeOf(F)
							return [3]int{c, l, ctx.TopV()}
						}
						for _, al := range aliasPatterns(ar, mask) {
							for k := 0; k < 4; k++ {
								growth(fmt.Sprintf("%s form %0*b %v, constants %d, negated %v, %s, dimension %d to %d", kd, ar, mask, al, k&1, k&2 != 0, shape, d, 2*d),
									size(d, al, k&1 == 0, k&2 != 0), size(2*d, al, k&1 == 0, k&2 != 0), float64(int(1)<<deg))
							}
						}
					})
				}
			}
		}
	}
	// connectives: every pattern of three one-step contexts, repeated
	c := inst{O, B, Z}
	m := mkModel(3, allTrees(3)[9000], 0)
	a, b := atom(kSub, va("x"), ca(c)), atom(kLEL, ca(c), va("x"))
	steps := []func(*form) *form{
		not,
		func(f *form) *form { return and(f, b) },
		func(f *form) *form { return and(not(a), f) },
		func(f *form) *form { return or(b, f) },
		func(f *form) *form { return or(f, not(a)) },
		func(f *form) *form { return and(triv(true), f) },
		func(f *form) *form { return or(f, triv(false)) },
		func(f *form) *form { return with("x", f) },
	}
	ns := len(steps)
	depths := []int{6, 12, 24, 48, 96}
	if th {
		depths = append(depths, 192, 384)
	}
	for s := 0; s < ns*ns*ns; s++ {
		s := s
		r.Case(func() string { return fmt.Sprintf("nest pattern %d", s) }, func() {
			p := []int{s % ns, s / ns % ns, s / ns / ns}
			var last [3]int
			for k, depth := range depths {
				n := 0
				leaf := &form{op: fRaw, raw: countQ{atom(kSub, ca(c), va("x")).build(), &n}, a: atom(kSub, ca(c), va("x"))}
				f := leaf
				for i := 0; i < depth; i++ {
					f = steps[p[i%3]](f)
				}
				ctx := query.BasicQContext(m)
				F, err := with("x", f).build().Encoding(ctx)
				if err != nil {
					Failf("nest %v of depth %d: %v", p, depth, err)
				}
				// parts may be skipped when the outcome is already clear
				if n > 1 {
					Failf("nest %v of depth %d: the innermost part occurs once and is encoded %d times", p, depth, n)
				}
				// the atoms here have at most 30 clauses each
				within(fmt.Sprintf("nest %v of depth %d", p, depth), F, ctx, (depth+1)*4, 2)
				nc, nl := sizeOf(F)
				now := [3]int{nc, nl, ctx.TopV()}
				if k > 0 && depth == 2*depths[k-1] {
					growth(fmt.Sprintf("nest %v of depth %d to %d", p, depth/2, depth), last, now, 2)
				}
				last = now
			}
		})
	}
	// a solver step encodes its query once, an optimum its parts once per call
	r.Case(func() string { return "encodings per solver call" }, func() {
		fk := newFake(r)
		for _, st := range []fakeStep{{Solve: "false"}, {Solve: "true"}, {Exit: 1}, {Signal: 9}, {Exit: 20}} {
			for _, f := range []*form{with("x", a), with("x", forall("g", or(a, b))), triv(true), not(triv(true))} {
				n := 0
				fk.script(st)
				q := countQ{f.build(), &n}
				s := fk.solver()
				for k := 1; k <= 2; k++ {
					s.Step(q, query.BasicQContext(m))
					r.Eval(true)
					if n != k {
						Failf("%d steps on %s (solver ending with %d, signal %d): the query is encoded %d times", k, f, st.Exit, st.Signal, n)
					}
				}
			}
		}
		for _, t := range []int{500, 9000, 9001, 16000} {
			m := mkModel(3, allTrees(3)[t], 0)
			for _, p := range propsOf(c) {
				for _, o := range ordersOf(c, 3) {
					np, no := 0, 0
					s := &inproc{}
					out, err := compute.ComputeOptim(
						func(v query.QVar) compute.Encodable { return countQ{p.f(string(v)).build(), &np} },
						func(v query.QVar, b query.QConst) compute.Encodable {
							return countQ{o.f(string(v), append(inst{}, b.Val...)).build(), &no}
						}, "x", query.BasicQContext(m), s)
					r.Eval(true)
					if err != nil {
						Failf("optimum of %s, %s: %v", p.name, o.name, err)
					}
					if np > s.calls || no > s.calls {
						Failf("optimum of %s, %s: %d solver calls, %d encodings of the property, %d of the order (found %v)", p.name, o.name, s.calls, np, no, out.Found)
					}
				}
			}
		}
	})
	// balanced trees of connectives
	for depth := 1; depth <= 9; depth++ {
		for kind := 0; kind < 4; kind++ {
			depth, kind := depth, kind
			r.Case(func() string { return fmt.Sprintf("balanced tree of depth %d, kind %d", depth, kind) }, func() {
				n := 0
				var mk func(d int) *form
				mk = func(d int) *form {
					if d == 0 {
						return &form{op: fRaw, raw: countQ{a.build(), &n}, a: a}
					}
					l, q := mk(d-1), mk(d-1)
					switch (kind + d) % 4 {
					case 0:
						return and(l, q)
					case 1:
						return or(not(l), q)
					case 2:
						return not(and(l, q))
					}
					return or(l, not(q))
				}
				ctx := query.BasicQContext(m)
				F, err := with("x", mk(depth)).build().Encoding(ctx)
				if err != nil {
					Failf("unexpected error %v", err)
				}
				if n > 1<<depth {
					Failf("%d parts, %d encodings of them", 1<<depth, n)
				}
				within(fmt.Sprintf("balanced tree of depth %d kind %d", depth, kind), F, ctx, 1<<depth+8, 1+depth/4)
			})
		}
	}
	// quantifiers: once per node, and per pair of nodes when nested
	for _, bt := range append(bigTrees(false), hugeTrees(false)[1]) {
		bt := bt
		r.Case(func() string { return "quantifiers over " + bt.name }, func() {
			m := mkModel(bt.dim, bt.t, 0)
			N := len(m.nodes)
			n := 0
			mk := func(f *form) *form { return &form{op: fRaw, raw: countQ{f.build(), &n}, a: f} }
			one := mk(or(atom(kLEL, ga("g"), va("x")), atom(kAllT, va("x"))))
			for _, f := range []*form{forall("g", one), not(forall("g", one)), forall("g", not(one)), and(forall("g", one), not(triv(false)))} {
				n = 0
				ctx := query.BasicQContext(m)
				F, err := with("x", f).build().Encoding(ctx)
				if err != nil {
					Failf("unexpected error %v", err)
				}
				if n > N {
					Failf("%s over %d nodes: %d encodings of the body", f, N, n)
				}
				within(fmt.Sprintf("quantifier over %d nodes, dimension %d", N, bt.dim), F, ctx, (N+1)*(bt.dim+1), 2)
			}
			if N > 80 {
				return
			}
			n = 0
			two := mk(or(atom(kSub, ga("g"), ga("h")), atom(kSub, ga("h"), va("x"))))
			ctx := query.BasicQContext(m)
			F, err := with("x", forall("g", forall("h", two))).build().Encoding(ctx)
			if err != nil {
				Failf("unexpected error %v", err)
			}
			if n > N*N {
				Failf("two quantifiers over %d nodes: %d encodings of the body", N, n)
			}
			within(fmt.Sprintf("two quantifiers over %d nodes, dimension %d", N, bt.dim), F, ctx, (N+1)*(N+1)*(bt.dim+1), 1)
		})
	}
}

// ---------- S12: names do not matter ----------

// rename replaces variables and guards.
func rename(f *form, vs, gs map[string]string) *form {
	if f == nil {
		return nil
	}
	g := *f
	g.args = append([]arg{}, f.args...)
	for i, a := range g.args {
		if a.isVar {
			if n, ok := vs[string(a.v)]; ok {
				g.args[i] = va(n)
			}
		} else if n, ok := gs[a.c.ID]; ok && a.c.ID != "" {
			g.args[i].c.ID = n
		}
	}
	if n, ok := vs[f.name]; ok && f.op == fWith {
		g.name = n
	}
	if n, ok := gs[f.name]; ok && f.op == fAll {
		g.name = n
	}
	g.a, g.b = rename(f.a, vs, gs), rename(f.b, vs, gs)
	return &g
}

// peculiar names, all different
var peculiar = []string{"x", "1", "_1", "01", "1_", "x1", "11", "-1", "_", "#", "x#0", "x,1", "a b", "\n", "\x00", "%d", "é", "X", "x/0/1", "vars", "c#0", "0", strings.Repeat("n", 3000), strings.Repeat("n", 3000) + "m", "x_1", "x-1", "x:1", "x.1", "x|1", "(x", "x)", "v x 1 0", "x\x1e", "x\x1d", "nil", "x\xff", "\u2028", "aB", "Ab", " x", "x ", "ǆ", "ß", "SS"}

// alike are pairs of names that share the value of a common hash function, or
// are made of the same characters, or become equal when cut.
var alike = [][2]string{
	{"costarring", "liquid"}, {"declinate", "macallums"}, {"creamwove", "quists"},
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"7mohtcOFVz", "c1E51sSEyx"},
	{"plumless", "buckeroo"}, {"Aa", "BB"}, {"ab", "ba"}, {"ad", "bc"}, {"abc", "cba"},
	{"aaaaaaaa1", "aaaaaaaa2"}, {strings.Repeat("a", 16) + "1", strings.Repeat("a", 16) + "2"},
	{strings.Repeat("b", 32) + "1", strings.Repeat("b", 32) + "2"},
	{strings.Repeat("c", 64) + "1", strings.Repeat("c", 64) + "2"},
	{strings.Repeat("d", 128) + "1", strings.Repeat("d", 128) + "2"},
	{strings.Repeat("e", 255) + "1", strings.Repeat("e", 255) + "2"},
	{strings.Repeat("f", 1024) + "1", strings.Repeat("f", 1024) + "2"},
	{strings.Repeat("g", 65536) + "1", strings.Repeat("g", 65536) + "2"},
	{"1" + strings.Repeat("h", 255), "2" + strings.Repeat("h", 255)},
	{"1" + strings.Repeat("k", 65536), "2" + strings.Repeat("k", 65536)},
	{strings.Repeat("i", 255), strings.Repeat("i", 511)}, {strings.Repeat("j", 300), strings.Repeat("j", 44)},
	{"a\x00b", "a\x00c"}, {"a\nb", "a\nc"}, {"a=b", "a=c"}, {"a;b", "a;c"}, {"{a}", "{b}"}, {"[a]", "a"}, {"'a'", "a"}, {"\"a\"", "a"}, {"`a`", "a"},
	{"x%d", "x%s"}, {"%!d", "%d"}, {"\\n", "\n"}, {"\\x00", "\x00"}, {"1e3", "1000"}, {"0x10", "16"}, {"1.0", "1"}, {"+1", "1"}, {"1_000", "1000"},
}

func s12(r *Run) {
	th := r.Thorough()
	names := peculiar
	templates := func(d int) []*form {
		X, Y, G, H, Zv := va("x"), va("y"), ga("g"), ga("h"), va("z")
		k := make(inst, d)
		k[d-1] = O
		pr := revs(d)
		return []*form{
			and(atom(kSub, X, Y), not(atom(kSub, Y, X))),
			and(atom(kLEL, X, Y), not(atom(kLEL, Y, X))),
			and(heprA(pr, X, Y), not(heprA(pr, Y, X))),
			and(not(atom(kCons, X, Y)), atom(kFull, X)),
			and(atom(kLEH, X, Y, ca(k)), not(atom(kLEH, Y, X, ca(k)))),
			and(atom(kNode, X), not(atom(kNode, Y))),
			and(atom(kAllT, X), not(atom(kAllT, Y))),
			and(atom(kDFS, X), not(atom(kDFS, Y))),
			forall("g", or(atom(kSub, G, X), not(atom(kSub, G, Y)))),
			forall("g", with("z", and(pinTo("z", G), or(atom(kLEL, Zv, X), atom(kAllT, Zv))))),
			forall("g", with("z", and(and(pinTo("z", G), atom(kLEL, X, Zv)), forall("h", or(not(atom(kSub, H, Zv)), atom(kSub, H, Y)))))),
			and(forall("g", with("z", and(pinTo("z", G), atom(kLEL, X, Zv)))), forall("h", with("z", and(pinTo("z", H), not(atom(kSub, Y, Zv)))))),
			not(forall("g", forall("h", or(atom(kSub, G, H), or(atom(kSub, H, G), atom(kCons, X, Y)))))),
		}
	}
	for i, ab := range alike {
		for sw := 0; sw < 2; sw++ {
			i, a, b := i, ab[sw], ab[1-sw]
			r.Case(func() string { return fmt.Sprintf("alike: %.20q and %.20q", a, b) }, func() {
				for ti, t := range []*tree{allTrees(1)[3], allTrees(2)[40]} {
					d := ti + 1
					w, m := newWorld(d, t), mkModel(d, t, i%nLayouts)
					for _, f := range templates(d) {
						for k, gs := range []map[string]string{{"g": a, "h": b}, {"g": b, "h": a}, {"g": "g", "h": "h"}, {"g": a, "h": a + "'"}} {
							if k > 0 && !hasOp(f, fAll) {
								break
							}
							ren := map[string]string{"x": a, "y": b, "z": "z"}
							if k == 2 { // the inner variable is like an outer one
								ren = map[string]string{"x": a, "y": "y", "z": b}
							}
							g := rename(f, ren, gs)
							r.checkForm(w, m, g, []string{ren["x"], ren["y"]}, w.insts)
						}
					}
				}
			})
		}
	}
	trees := []*tree{allTrees(1)[3], allTrees(2)[40], allTrees(2)[61]}
	dims := []int{1, 2, 2}
	for ti, t := range trees {
		if ti == 2 && !th {
			continue
		}
		d := dims[ti]
		for i, a := range names {
			for j, b := range names {
				if i == j || ti > 0 && !th && (i*7+j)%5 != 0 {
					continue
				}
				i, j, a, b, ti, t := i, j, a, b, ti, t
				r.Case(func() string { return fmt.Sprintf("names %.20q and %.20q, tree %s", a, b, t) }, func() {
					w := newWorld(d, t)
					m := mkModel(d, t, ti)
					third := names[(i+j+5)%len(names)]
					for third == a || third == b {
						third = names[(i*j+i+3)%len(names)]
						if third == a || third == b {
							third = "other"
						}
					}
					for k, f := range templates(d) {
						if (i+j+k)%2 == 1 && !th && ti > 0 {
							continue
						}
						// guards with the same names as the variables, exchanged, and others;
						// the first ones without quantifiers
						gss := []map[string]string{{"g": a, "h": b}, {"g": b, "h": a}, {"g": third, "h": third + "'"}, {"g": third, "h": a}, {"g": b, "h": third}}
						if !hasOp(f, fAll) {
							gss = gss[:1]
						}
						for gk, gs := range gss {
							if (k+gk)%3 != 0 && !th && ti > 0 {
								continue
							}
							g := rename(f, map[string]string{"x": a, "y": b, "z": third}, gs)
							r.checkForm(w, m, g, []string{a, b}, w.insts)
						}
					}
				})
			}
		}
	}
}

func init() {
	register(&checkDef{id: "S12", level: "exploration", rule: formRule + " Formulas: a set of templates, for every ordered pair of names from a list of names that look like numbers, separators, prefixes of each other, or the guards of the same formula.", fn: s12})
	register(&checkDef{id: "E01", level: "exploration", rule: "One evaluation is one query whose encoding is measured.", fn: e01})
	register(&checkDef{id: "M09", level: "fault_enumeration", rule: "One evaluation is one sequence of steps or one optimum computation with a given ending, after which the process has the descriptors, children and goroutines it had before.", fn: m09})
	register(&checkDef{id: "K05", level: "exploration", rule: "One evaluation is one formula encoded in a context with a history, or one valuation of the conjunction of all formulas of a history.", fn: k05})
	register(&checkDef{id: "I01", level: "exploration", rule: "One evaluation is one query encoded (or one optimum computed) with everything the caller handed in under observation.", fn: i01})
}
