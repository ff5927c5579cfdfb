package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// Schedules whose preemptions lie between any two statements of the code
// under test.

// pthread is a body run from point to point.
type pthread struct {
	n, stop int64
	gid     string
	resume  chan struct{}
	yield   chan bool // true: finished
	fin     bool
	failed  string
	sites   []int // if recorded
	record  bool
}

var (
	curThread atomic.Pointer[pthread]
	runFree   atomic.Bool // threads are no longer stopped
)

func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

// pointHook is called before every statement.
func pointHook(site int) {
	t := curThread.Load()
	if t == nil || runFree.Load() {
		return
	}
	n := atomic.AddInt64(&t.n, 1)
	if t.record {
		if t.gid == goid() {
			t.sites = append(t.sites, site)
		}
		return
	}
	if n != t.stop || t.gid != goid() { // other goroutines are not stopped
		return
	}
	t.yield <- false
	<-t.resume
}

func newPThread(f func()) *pthread {
	t := &pthread{resume: make(chan struct{}), yield: make(chan bool, 1)}
	go func() {
		<-t.resume
		t.gid = goid()
		defer func() {
			if e := recover(); e != nil {
				t.failed = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				if len(t.failed) > 1500 {
					t.failed = t.failed[:1500]
				}
			}
			t.yield <- true
		}()
		f()
	}()
	return t
}

// to runs the thread up to its k-th point (0: to its end). It returns false if
// the thread makes no progress because it waits for another one.
func (t *pthread) to(k int, patience time.Duration) bool {
	if t.fin {
		return true
	}
	atomic.StoreInt64(&t.stop, int64(k))
	curThread.Store(t)
	t.resume <- struct{}{}
	return t.wait(patience)
}

func (t *pthread) wait(patience time.Duration) bool {
	select {
	case t.fin = <-t.yield:
		curThread.Store(nil)
		return true
	case <-time.After(patience):
		return false
	}
}

// runPair runs a to its i-th point, b to its j-th (0: to its end), then a and
// b to their ends. When one waits for the other, which is stopped, both
// continue freely. It returns which one held what the other waited for (0: the
// schedule could be kept).
func runPair(fa, fb func(), i, j int, patience time.Duration) (holder int, failed string, steps int64) {
	ta, tb := newPThread(fa), newPThread(fb)
	ta.to(i, time.Minute)
	free := func(t *pthread) {
		if holder = 1; t == ta {
			holder = 2
		}
		runFree.Store(true)
		curThread.Store(nil)
		for _, x := range []*pthread{ta, tb} {
			if x == t || x.fin {
				continue
			}
			x.resume <- struct{}{}
		}
		for _, x := range []*pthread{ta, tb} {
			if x.fin {
				continue
			}
			select {
			case x.fin = <-x.yield:
			case <-time.After(2 * time.Minute):
				Failf("the evaluations wait for each other for ever")
			}
			if !x.fin { // it had already been about to stop
				x.resume <- struct{}{}
				select {
				case x.fin = <-x.yield:
				case <-time.After(2 * time.Minute):
					Failf("the evaluations wait for each other for ever")
				}
			}
		}
		runFree.Store(false)
	}
	switch {
	case !tb.to(j, patience):
		free(tb)
	case !ta.to(0, patience):
		free(ta)
	case !tb.to(0, time.Minute):
		free(tb)
	}
	if ta.failed != "" {
		failed += "the first evaluation: " + ta.failed
	}
	if tb.failed != "" {
		failed += "the second evaluation: " + tb.failed
	}
	return holder, failed, ta.n + tb.n
}

// pointsOf runs f alone and returns the statements at its points, and those
// of the points that are among the first k, or the last, at their statement.
func pointsOf(f func(), k int) (sites, points []int) {
	t := newPThread(f)
	t.record = true
	t.to(0, time.Minute)
	if t.failed != "" {
		Failf("alone: %s", t.failed)
	}
	seen, last := map[int]int{}, map[int]int{}
	for i, s := range t.sites {
		last[s] = i
	}
	var out []int
	for i, s := range t.sites {
		if seen[s]++; seen[s] <= k || last[s] == i {
			out = append(out, i+1)
		}
	}
	return t.sites, out
}

// work is something to be evaluated and judged.
type work struct {
	name  string
	run   func()
	wrong func() string
	fresh func() // before each schedule, if not nil
}

func bodyWork(b *body, shared bool) *work {
	var res bodyRes
	return &work{name: b.name + " on " + b.t.String(), run: func() { res = b.run(nil, shared) }, wrong: func() string { return b.wrong(res) }}
}

func optWork(d int, t *tree, p prop, o order, phase string) *work {
	f, _ := optBody(d, t, p, o, phase, true)
	bad := ""
	return &work{name: "optimum of " + p.name + ", " + o.name, run: func() { bad = f(func() {}) }, wrong: func() string { return bad }}
}

// pairSchedules explores the schedules of a and b: with one preemption of a at
// each of its points (every: all of them), and with two at the points that are
// among the first k of their statement.
func pairSchedules(r *Run, a, b *work, k int, every, two bool, patience time.Duration, part ...int) {
	fresh := func() {
		if a.fresh != nil {
			a.fresh()
		}
	}
	fresh()
	sa, ia := pointsOf(a.run, k)
	fresh()
	sb, ib := pointsOf(b.run, k)
	na, nb := len(sa), len(sb)
	// statements at which something is held that the other evaluation needs:
	// no use in stopping there again
	heldA, heldB := map[int]bool{}, map[int]bool{}
	base := hstr(hstr(hstr(1, a.name), b.name), "points")
	blocked := 0
	run := func(i, j int) {
		if blocked > 60 || heldA[sa[i-1]] || j > 0 && heldB[sb[j-1]] {
			return
		}
		fresh()
		holder, failed, steps := runPair(a.run, b.run, i, j, patience)
		r.C["traces_validated_against_impl"]++
		r.C["transitions"] += steps
		r.State(hint(hint(base, i), j))
		r.Eval(true)
		what := func() string {
			return fmt.Sprintf("%s stopped before statement %d of %d, %s before %d of %d (0: not stopped)", a.name, i, na, b.name, j, nb)
		}
		if failed != "" {
			Failf("%s: %s", what(), failed)
		}
		if m := a.wrong(); m != "" {
			Failf("%s: the first evaluation: %s", what(), m)
		}
		if m := b.wrong(); m != "" {
			Failf("%s: the second evaluation: %s", what(), m)
		}
		if holder != 0 {
			blocked++
			if holder == 1 {
				heldA[sa[i-1]] = true
			} else if j > 0 {
				heldB[sb[j-1]] = true
			}
			r.C["schedules_that_block"]++
		}
	}
	pts := ia
	if every {
		pts = nil
		for i := 1; i <= na; i++ {
			pts = append(pts, i)
		}
	}
	for n, i := range pts {
		if len(part) == 2 && n%part[1] != part[0] {
			continue
		}
		run(i, 0)
		if n%64 == 0 {
			r.Tick()
		}
	}
	if !two {
		return
	}
	for n, i := range ia {
		if len(part) == 2 && n%part[1] != part[0] {
			continue
		}
		for _, j := range ib {
			run(i, j)
		}
		r.Tick()
	}
	r.Sample(func() string {
		return fmt.Sprintf("%s (%d statements, %d points) against %s (%d statements, %d points)", a.name, na, len(ia), b.name, nb, len(ib))
	})
}

// coldMain runs one schedule as the first thing the process does, and judges
// its results afterwards.
func coldMain(args []string) {
	if !setPoint(pointHook) {
		os.Exit(7)
	}
	n := make([]int, 3)
	for i := range n {
		n[i], _ = strconv.Atoi(args[i])
	}
	a, b := coldPair(n[0])
	w, v := bodyWork(a, false), bodyWork(b, false)
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("WRONG", e)
			os.Exit(5)
		}
	}()
	_, failed, steps := runPair(w.run, v.run, n[1], n[2], 100*time.Millisecond)
	setPoint(nil)
	if failed == "" {
		a.alone()
		b.alone()
		if m := w.wrong(); m != "" {
			failed = "the first evaluation: " + m
		} else if m := v.wrong(); m != "" {
			failed = "the second evaluation: " + m
		}
	}
	if failed != "" {
		fmt.Println("WRONG", failed)
		os.Exit(5)
	}
	fmt.Println("FINE", steps)
	os.Exit(0)
}

var coldTrees = []*tree{
	{feat: 1, z: &tree{feat: 0, z: leafT, o: leafF}, o: leafF},
	{feat: 0, z: leafF, o: &tree{feat: 1, z: leafF, o: leafT}},
}

// coldPair is two evaluations of a kind that have not been run yet.
func coldPair(k int) (*body, *body) {
	return bodiesBy(coldBody, 2, coldTrees[0], 0, 0)[k], bodiesBy(coldBody, 2, coldTrees[1], 2, 1)[k]
}

func coldSchedules(r *Run, k int, firsts int) {
	a, b := coldPair(k)
	w, v := bodyWork(a, false), bodyWork(b, false)
	_, ia := pointsOf(w.run, firsts)
	_, ib := pointsOf(v.run, 1)
	self, _ := os.Executable()
	run := func(i, j int) {
		var out bytes.Buffer
		cmd := exec.Command(self, "cold", strconv.Itoa(k), strconv.Itoa(i), strconv.Itoa(j))
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		s := out.String()
		r.C["traces_validated_against_impl"]++
		r.Eval(true)
		what := fmt.Sprintf("first in a process, %s stopped before statement %d, the other of its kind at %d", a.name, i, j)
		switch {
		case strings.Contains(s, "FINE"):
			n, _ := strconv.Atoi(strings.TrimSpace(s[strings.Index(s, "FINE")+4:]))
			r.C["transitions"] += int64(n)
		case strings.Contains(s, "WRONG"), strings.Contains(s, "panic: "), strings.Contains(s, "concurrent map"):
			if len(s) > 1500 {
				s = s[:1500]
			}
			Failf("%s: %s", what, s)
		default:
			panic(fmt.Sprintf("cold run: %v: %.300s", err, s))
		}
	}
	for n, i := range ia {
		run(i, 0)
		if r.Deep() && len(ib) > 0 {
			run(i, ib[(n*7)%len(ib)])
		}
		r.Tick()
	}
}

// stepWork is one solver step and the reading of its values.
func stepWork(fk *fake, want inst) *work {
	ctx := valCtx(2, "x")
	var cs []cls
	for _, l := range litsOf(ctx, "x", want) {
		cs = append(cs, cls{l})
	}
	f := cnf.FromClauses(cs)
	var got []query.QConst
	var err error
	return &work{name: "a solver step for " + istr(want), run: func() {
		s := fk.solver()
		var ok bool
		ok, err = compute.AndCombinator{compute.QDTFAtom{Query: rawQ{f}}}.Sat(ctx, s)
		if err == nil && !ok {
			err = fmt.Errorf("not satisfiable")
		}
		if err == nil {
			got, err = s.Values([]query.QVar{"x"}, ctx)
		}
	}, wrong: func() string {
		if err != nil {
			return err.Error()
		}
		if len(got) != 1 || !ieq(got[0].Val, want) {
			return fmt.Sprintf("values %v", got)
		}
		return ""
	}}
}

// sharedFormulas explores the schedules of two operations on one formula.
func sharedFormulas(cas func(string, func()), r *Run) {
	bases := []struct {
		name string
		mk   func() cnf.CNF
	}{
		{"FromClauses", func() cnf.CNF { return cnf.FromClauses([]cls{{1, 2}, {3}}) }},
		{"FromClauses with space behind", func() cnf.CNF {
			l := make([]cls, 0, 8)
			return cnf.FromClauses(append(l, cls{1, 2}, cls{3}))
		}},
		{"extended", func() cnf.CNF {
			f := cnf.FromClauses([]cls{{1, 2}})
			for i := 3; i < 8; i++ {
				f = f.AppendSemantics(cls{i}).AppendConsistency(cls{-i, 1})
			}
			return f
		}},
		{"extended, and extended elsewhere", func() cnf.CNF {
			f := cnf.FromClauses([]cls{{1, 2}})
			for i := 3; i < 8; i++ {
				f = f.AppendSemantics(cls{i}).AppendConsistency(cls{-i, 1})
			}
			f.AppendSemantics(cls{77}).AppendConsistency(cls{-77})
			return f
		}},
		{"negated", func() cnf.CNF {
			return cnf.FromClauses([]cls{{1, 2}, {-3, 1}}).AppendConsistency(cls{4, 5}).Negate()
		}},
		{"conjunction", func() cnf.CNF {
			return cnf.FromClauses([]cls{{1, 2}}).Conjunction(cnf.FromClauses([]cls{{3}, {4, 5}}).AppendConsistency(cls{6}, cls{7}, cls{8}))
		}},
		{"TrueCNF", func() cnf.CNF { return cnf.TrueCNF }},
		{"FalseCNF", func() cnf.CNF { return cnf.FalseCNF }},
	}
	ops := []struct {
		name string
		mk   func(n int) func(f cnf.CNF) string
	}{
		{"AppendSemantics", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string {
				return cnfText(f.AppendSemantics(cls{n, n + 1}, cls{-n}).AppendSemantics(cls{n + 2}))
			}
		}},
		{"AppendConsistency", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string {
				return cnfText(f.AppendConsistency(cls{n, n + 1}, cls{-n}).AppendConsistency(cls{n + 2}))
			}
		}},
		{"Conjunction", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string {
				return cnfText(f.Conjunction(cnf.FromClauses([]cls{{n}}).AppendConsistency(cls{n + 1, 1})).Conjunction(f))
			}
		}},
		{"Negate", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string { return cnfText(f.Negate(n).AppendSemantics(cls{-n}).Negate()) }
		}},
		{"ToBytes", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string { return string(f.ToBytes()) }
		}},
		{"TriviallyTrue, TriviallyFalse and TopV", func(n int) func(cnf.CNF) string {
			return func(f cnf.CNF) string { return fmt.Sprint(f.TriviallyTrue(), f.TriviallyFalse(), f.TopV()) }
		}},
	}
	for _, b := range bases {
		for i := range ops {
			for j := range ops {
				b, p, q := b, ops[i], ops[j]
				cas(fmt.Sprintf("%s and %s of one formula: %s", p.name, q.name, b.name), func() {
					// a fresh formula each time: the first to extend it may
					// use the space behind it
					var base cnf.CNF
					opWork := func(name string, op func(cnf.CNF) string) *work {
						var got string
						want := op(b.mk())
						return &work{name: name, run: func() { got = op(base) }, fresh: func() { base = b.mk() }, wrong: func() string {
							if got != want {
								return fmt.Sprintf("result %s, alone %s", got, want)
							}
							return ""
						}}
					}
					one, two := opWork(p.name, p.mk(100)), opWork(q.name, q.mk(200))
					pairSchedules(r, one, two, 1<<30, true, true, 40*time.Millisecond)
				})
			}
		}
	}
}

func t01points(r *Run) {
	if !setPoint(pointHook) {
		return
	}
	setPoint(nil)
	cas := func(key string, f func()) {
		r.Case(func() string { return "statements: " + key }, func() {
			setPoint(pointHook)
			defer setPoint(nil)
			f()
		})
	}
	sharedFormulas(cas, r)
	const quick = 40 * time.Millisecond
	t1 := []*tree{{feat: 0, z: leafF, o: leafT}, {feat: 0, z: leafT, o: leafF}}
	bs := [][]*body{bodiesOf(1, t1[0], 0, 0), bodiesOf(1, t1[1], 1, 1)}
	for i, a := range bs[0] {
		for j := range bs[1] {
			i, j, a, b := i, j, a, bs[1][j]
			if i != j && !r.Deep() && (i+j)%3 != 0 {
				continue
			}
			parts := 1
			if i == j {
				parts = 8
			}
			for p := 0; p < parts; p++ {
				p := p
				cas(fmt.Sprintf("%s against %s, part %d", a.name, b.name, p), func() {
					k := 1
					if i == j && r.Deep() {
						k = 2
					}
					pairSchedules(r, bodyWork(a, false), bodyWork(b, false), k, r.Deep(), i == j || r.Deep(), quick, p, parts)
				})
			}
		}
		a := a
		for p := 0; p < 6; p++ {
			p := p
			cas(fmt.Sprintf("%s against itself, part %d", a.name, p), func() {
				pairSchedules(r, bodyWork(a, true), bodyWork(a, true), 1, true, r.Deep(), quick, p, 6)
			})
		}
	}
	b2 := [][]*body{bodiesOf(2, coldTrees[0], 0, 0), bodiesOf(2, coldTrees[1], 2, 1)}
	for i, a := range b2[0] {
		i, a := i, a
		for p := 0; p < 16; p++ {
			p := p
			cas(fmt.Sprintf("%s, dimension 2, part %d", a.name, p), func() {
				pairSchedules(r, bodyWork(a, false), bodyWork(b2[1][i], false), 1, r.Deep(), r.Deep(), quick, p, 16)
				pairSchedules(r, bodyWork(a, false), bodyWork(bs[0][i], false), 1, false, r.Deep(), quick, p, 16)
			})
		}
	}
	for k := range b2[0] {
		k := k
		cas(fmt.Sprintf("kind %d, first in the process", k), func() { coldSchedules(r, k, 1) })
	}
	c := inst{Z, O}
	for pi, p := range propsOf(c) {
		for oi, o := range ordersOf(c, 2) {
			if !r.Deep() && (pi+oi)%4 != 0 {
				continue
			}
			pi, oi, p, o := pi, oi, p, o
			cas(fmt.Sprintf("optimum of %s, %s", p.name, o.name), func() {
				p2, o2 := propsOf(inst{O, O})[(pi+1)%9], ordersOf(inst{O, B}, 2)[(oi+2)%7]
				pairSchedules(r, optWork(2, coldTrees[0], p, o, "alt"), optWork(2, coldTrees[1], p2, o2, "true"), 1, false, r.Deep(), time.Second)
			})
		}
	}
	for k, w := range [][2]inst{{{Z, O}, {O, B}}, {{B, B}, {O, O}}} {
		for _, same := range []bool{true, false} {
			k, w, same := k, w, same
			for p := 0; p < 16; p++ {
				p := p
				cas(fmt.Sprintf("solver steps %d, same solver %v, part %d", k, same, p), func() {
					fa := newFakeIn(filepath.Join(r.tmp, "pa"))
					fb := fa
					if !same {
						fb = newFakeIn(filepath.Join(r.tmp, "pb"))
					}
					fa.script(fakeStep{Solve: "true"})
					fb.script(fakeStep{Solve: "true"})
					pairSchedules(r, stepWork(fa, w[0]), stepWork(fb, w[1]), 1, false, k == 0 || r.Deep(), 10*time.Second, p, 16)
				})
			}
		}
	}
}
