package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// clausesOver: every sequence of at most l literals over v variables.
func clausesOver(v, l int) []cls {
	out := []cls{{}}
	last := out
	for i := 0; i < l; i++ {
		var next []cls
		for _, c := range last {
			for x := 1; x <= v; x++ {
				for _, s := range []int{1, -1} {
					next = append(next, append(append(cls{}, c...), s*x))
				}
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func evalClauses(cs []cls, as uint) bool {
	for _, c := range cs {
		ok := false
		for _, l := range c {
			v := l
			if v < 0 {
				v = -v
			}
			if (as>>(v-1)&1 == 1) == (l > 0) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func maxAbs(css ...[]cls) int {
	m := 0
	for _, cs := range css {
		for _, c := range cs {
			for _, l := range c {
				if l < 0 {
					l = -l
				}
				if l > m {
					m = l
				}
			}
		}
	}
	return m
}

func cpClauses(cs []cls) []cls {
	out := make([]cls, len(cs))
	for i, c := range cs {
		out[i] = append(cls{}, c...)
	}
	return out
}

// N01: reference by truth table.
func n01(r *Run) {
	// bound 0: none given; otherwise tv + bound - 3
	check := func(sc, cc []cls, nv int) {
		base := cnf.FromClauses(cpClauses(sc)).AppendConsistency(cpClauses(cc)...)
		tv := maxAbs(sc, cc)
		nv = min(nv, tv) // variables above tv are free for the negation
		for bound := 0; bound <= 8; bound += 2 {
			f := base
			lo := tv
			if bound > 0 {
				b := maxi(0, tv+bound-4)
				f = f.Negate(b)
				lo = maxi(lo, b)
			} else {
				f = f.Negate()
			}
			for rep := 1; rep <= 3; rep++ {
				s1, c1 := f.Clauses()
				top := maxAbs(s1, c1)
				if f.TopV() < top || f.TopV() < lo {
					Failf("negation %d of sc=%v cc=%v (bound %d): TopV=%d, largest variable %d, required at least %d", rep, sc, cc, lo, f.TopV(), top, lo)
				}
				for _, g := range [][]cls{s1, c1} {
					for _, c := range g {
						for _, l := range c {
							if l < 0 {
								l = -l
							}
							if l > tv && l <= lo && rep == 1 || l == 0 {
								Failf("negation of sc=%v cc=%v (bound %d) introduces variable %d: %v %v", sc, cc, lo, l, s1, c1)
							}
						}
					}
				}
				s := newSat(maxi(top, nv), s1, c1)
				as := make([]int, nv)
				for a := uint(0); a < 1<<nv; a++ {
					for i := range as {
						as[i] = i + 1
						if a>>i&1 == 0 {
							as[i] = -(i + 1)
						}
					}
					semT := evalClauses(sc, a)
					if rep%2 == 1 {
						semT = !semT
					}
					want := evalClauses(cc, a) && semT
					got := s.solve(as...)
					r.Eval(len(sc) > 0)
					if got != want {
						Failf("negated %d times, sc=%v cc=%v bound=%d, assignment %0*b: satisfiable=%v want %v; result %v %v", rep, sc, cc, lo, nv, a, got, want, s1, c1)
					}
				}
				if bound > 0 && rep == 1 {
					f = f.Negate(f.TopV() + bound)
				} else {
					f = f.Negate()
				}
			}
		}
		r.Sample(func() string {
			return fmt.Sprintf("semantic %v consistency %v: 5 bounds x 3 negations x %d assignments", sc, cc, 1<<nv)
		})
	}
	space := func(nv, cl, nsc, ncc int) {
		cs := clausesOver(nv, cl)
		var scs [][]cls
		var rec func(p []cls)
		rec = func(p []cls) {
			scs = append(scs, append([]cls{}, p...))
			if len(p) < nsc {
				for _, c := range cs {
					rec(append(p, c))
				}
			}
		}
		rec(nil)
		ccs := [][]cls{{}}
		for i, c := range cs {
			if ncc > 0 && (len(c) <= 1 || i%3 == 0) {
				ccs = append(ccs, []cls{c})
			}
		}
		for i := 0; i < len(scs); i += 30 {
			i := i
			r.Case(func() string {
				return fmt.Sprintf("vars=%d lits<=%d clauses<=%d: formulas from %v", nv, cl, nsc, scs[i])
			}, func() {
				for _, sc := range scs[i:min(i+30, len(scs))] {
					for _, cc := range ccs {
						check(sc, cc, nv)
					}
				}
			})
		}
	}
	space(1, 3, 3, 1)
	space(3, 2, 2, 1)
	space(2, 3, 2, 1)
	space(2, 1, 4, 1)
	space(2, 2, 3, 0)
	if r.Thorough() {
		space(3, 3, 2, 0)
		space(2, 3, 3, 0)
		space(3, 2, 3, 0)
	}
	if r.Deep() {
		space(3, 3, 3, 0)
		space(2, 2, 4, 1)
	}
	// the same with large variable numbers and bounds
	far := func(sc, cc []cls, place []int, bound int) {
		put := func(cs []cls) []cls {
			out := cpClauses(cs)
			for _, c := range out {
				for i, l := range c {
					if l < 0 {
						c[i] = -place[-l-1]
					} else {
						c[i] = place[l-1]
					}
				}
			}
			return out
		}
		fs, fc := put(sc), put(cc)
		f := cnf.FromClauses(put(sc)).AppendConsistency(put(cc)...)
		tv := maxAbs(fs, fc)
		// numbers beyond are free for the negation
		for len(place) > 0 && place[len(place)-1] > maxi(tv, bound) {
			place = place[:len(place)-1]
		}
		if len(place) == 2 && place[0] > maxi(tv, bound) {
			return
		}
		for rep := 1; rep <= 2; rep++ {
			lo := maxi(f.TopV(), bound)
			f = f.Negate(bound)
			s1, c1 := f.Clauses()
			if top := maxAbs(s1, c1); f.TopV() < top || f.TopV() < lo {
				Failf("negation %d of sc=%v cc=%v (bound %d): TopV=%d, largest variable %d", rep, fs, fc, bound, f.TopV(), top)
			}
			// compact numbering
			num := map[int]int{}
			for i, p := range place {
				num[p] = i + 1
			}
			compact := func(cs []cls) []cls {
				out := cpClauses(cs)
				for _, c := range out {
					for i, l := range c {
						k := maxi(l, -l)
						if _, ok := num[k]; !ok {
							if k <= tv || k <= bound {
								Failf("negation %d of sc=%v cc=%v (bound %d) uses variable %d: %v %v", rep, fs, fc, bound, k, s1, c1)
							}
							num[k] = len(num) + 1
						}
						if l < 0 {
							c[i] = -num[k]
						} else {
							c[i] = num[k]
						}
					}
				}
				return out
			}
			ks, kc := compact(s1), compact(c1)
			s := newSat(len(num), ks, kc)
			as := make([]int, len(place))
			for a := uint(0); a < 1<<len(place); a++ {
				for i := range as {
					as[i] = i + 1
					if a>>i&1 == 0 {
						as[i] = -(i + 1)
					}
				}
				want := evalClauses(cc, a) && evalClauses(sc, a) == (rep%2 == 0)
				r.Eval(len(sc) > 0)
				if got := s.solve(as...); got != want {
					Failf("negated %d times, sc=%v cc=%v bound=%d, assignment %0*b of %v: satisfiable=%v want %v; result %v %v", rep, fs, fc, bound, len(place), a, place, got, want, s1, c1)
				}
			}
		}
	}
	bigs := []int{1<<7 - 1, 1<<8 - 1, 1<<15 - 1, 1<<16 - 1, 1<<24 + 1, 1<<31 - 2, 1<<31 + 3, 1<<32 - 1, 1<<32 + 2, 1<<40 + 5, 1<<53 + 1, 1<<61 + 1}
	for bi, big := range bigs {
		bi, big := bi, big
		r.Case(func() string { return fmt.Sprintf("variable numbers around %d", big) }, func() {
			cs := clausesOver(2, 2)
			for i, a := range cs {
				for j, b := range cs {
					if (i+j+bi)%3 != 0 && !r.Thorough() {
						continue
					}
					for k, pl := range [][]int{{1, big}, {big, big + 1}, {big, 3}, {big + 3, big}, {2, 1}} {
						bound := []int{0, big + 2, 2*big + 1, big - 1}[(i+j+k)%4]
						far([]cls{a, b}, nil, pl, bound)
						far([]cls{a, b, a}, []cls{{1, -2}}, pl, bound)
						far([]cls{b}, []cls{a}, pl, big)
					}
				}
			}
		})
	}
	// clauses that are alike: numbers that are made of the same digits, or have
	// the same sums
	{
		cs := clausesOver(6, 2)[1:]
		place := []int{1, 2, 11, 12, 111, 112}
		if r.Deep() {
			cs = clausesOver(8, 2)[1:]
			place = []int{1, 2, 3, 11, 12, 21, 111, 112}
		}
		for i, a := range cs {
			i, a := i, a
			r.Case(func() string { return fmt.Sprintf("clause %v with every other one over the variables %v", a, place) }, func() {
				for j, b := range cs {
					far([]cls{a, b}, nil, place, []int{0, 113, 112}[(i+j)%3])
				}
			})
		}
	}
	// many clauses
	for _, n := range []int{5, 17, 64, 127, 128, 129, 255, 256, 257, 511, 1025, 4097, 16385, 65537} {
		for sh := 0; sh < 6; sh++ {
			n, sh := n, sh
			if n > 20000 && sh%5 > 0 && !r.Deep() {
				continue
			}
			r.Case(func() string { return fmt.Sprintf("%d clauses, shape %d", n, sh) }, func() {
				var sc []cls
				for i := 0; i < n; i++ {
					c := cls{}
					for j := 0; j < 4; j++ {
						l := (i*sh+j*(i/6+1))%6 + 1
						if (i>>j+j*sh+i/24)%3 == 0 || i < n-1 && j == 3 && sh%2 == 0 {
							l = -l
						}
						c = append(c, l)
					}
					if sh >= 4 && i < n-2 { // only the last ones can fail
						c = append(c, 1, -1)
					}
					sc = append(sc, c)
				}
				check(sc, nil, 6)
				check(sc, []cls{{1, 2}, {-3}}, 6)
			})
		}
	}
	// negation of formulas that are themselves results, with wider clauses
	for w := 1; w <= 6; w++ {
		for n := 0; n <= 4; n++ {
			w, n := w, n
			r.Case(func() string { return fmt.Sprintf("%d clauses of width %d", n, w) }, func() {
				for sh := 0; sh < 6; sh++ {
					var sc []cls
					for i := 0; i < n; i++ {
						c := cls{}
						for j := 0; j < w; j++ {
							l := (i*sh+j)%6 + 1
							if (i+j*sh)%3 == 0 {
								l = -l
							}
							c = append(c, l)
						}
						sc = append(sc, c)
					}
					check(sc, nil, 6)
					check(sc, []cls{{1, 2}, {-3}}, 6)
				}
			})
		}
	}
}

// ---------- histories over a pool of formulas: N02, N03 ----------

type snap struct {
	tv     int
	sc, cc []cls
}

func takeSnap(f cnf.CNF) snap {
	sc, cc := f.Clauses()
	return snap{f.TopV(), cpClauses(sc), cpClauses(cc)}
}

func eqClauses(a, b []cls) int {
	if len(a) != len(b) {
		return min(len(a), len(b))
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return i
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return i
			}
		}
	}
	return -1
}

func canon(cs []cls) string {
	out := make([]string, len(cs))
	for i, c := range cs {
		d := append(cls{}, c...)
		sort.Ints(d)
		out[i] = fmt.Sprint(d)
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

type cnfOp struct {
	name string
	a, b int
	arg  int
}

func (o cnfOp) String() string {
	switch o.name {
	case "conj":
		return fmt.Sprintf("#%d.Conjunction(#%d)", o.a, o.b)
	case "appS", "appC":
		return fmt.Sprintf("%s(#%d, payload %d)", o.name, o.a, o.arg)
	}
	return fmt.Sprintf("%s(#%d)", o.name, o.a)
}

// payloads are rebuilt for every run: caller-owned slices with spare capacity.
func mkPayload(k int) []cls {
	c1 := append(make(cls, 0, 8), 5, -6)
	c2 := append(make(cls, 0, 8), -7)
	switch k {
	case 0:
		return append(make([]cls, 0, 6), c1)
	case 1:
		return append(make([]cls, 0, 6), c2, c1)
	}
	return nil
}

type callerSlice struct {
	name string
	s    []cls // full capacity view
	was  []cls
}

func watch(name string, s []cls) callerSlice {
	full := s[:cap(s)]
	w := callerSlice{name: name, s: full}
	for _, c := range full {
		w.was = append(w.was, append(cls(nil), c[:cap(c)]...))
	}
	return w
}

// n02 explores every history of operations up to a depth; after each step the
// content of every formula derived so far and of every slice the caller passed
// must be as before. Reference: snapshots (deep copies).
func cnfHistories(r *Run, depth int, prop string) {
	bases := func() ([]cnf.CNF, []callerSlice) {
		p1 := append(make([]cls, 0, 5), append(make(cls, 0, 6), 1, 2), append(make(cls, 0, 6), -3, 1))
		p2 := append(make([]cls, 0, 4), append(make(cls, 0, 4), 2))
		p3 := append(make([]cls, 0, 8), append(make(cls, 0, 3), 3, 4))
		ws := []callerSlice{watch("p1", p1), watch("p2", p2), watch("p3", p3)}
		return []cnf.CNF{
			cnf.TrueCNF, cnf.FalseCNF,
			cnf.FromClauses(p1),
			cnf.FromClauses(p2).AppendConsistency(p3...),
		}, ws
	}
	opsFor := func(n int) []cnfOp {
		var out []cnfOp
		for a := 0; a < n; a++ {
			out = append(out, cnfOp{name: "neg", a: a}, cnfOp{name: "negb", a: a},
				cnfOp{name: "appS", a: a, arg: 0}, cnfOp{name: "appC", a: a, arg: 1},
				cnfOp{name: "bytes", a: a})
			if prop == "N03" {
				out = append(out, cnfOp{name: "appS", a: a, arg: 1}, cnfOp{name: "appS", a: a, arg: 2}, cnfOp{name: "appC", a: a, arg: 0})
			}
			for b := 0; b < n; b++ {
				out = append(out, cnfOp{name: "conj", a: a, b: b})
			}
			if prop == "N02" {
				out = append(out, cnfOp{name: "file", a: a})
			}
		}
		return out
	}
	filePath := filepath.Join(r.tmp, "history.cnf")
	trueS, falseS := takeSnap(cnf.TrueCNF), takeSnap(cnf.FalseCNF)
	runHist := func(hist []cnfOp) {
		pool, ws := bases()
		snaps := make([]snap, len(pool))
		for i := range pool {
			snaps[i] = takeSnap(pool[i])
		}
		for hi, op := range hist {
			r.C["transitions"]++
			last := hi == len(hist)-1
			var res cnf.CNF
			derived := true
			base := pool[op.a]
			bs := takeSnap(base)
			var os snap
			var pay []cls
			switch op.name {
			case "neg":
				res = base.Negate()
			case "negb":
				res = base.Negate(bs.tv + 4)
			case "appS", "appC":
				pay = mkPayload(op.arg)
				ws = append(ws, watch(fmt.Sprintf("payload of step %d", hi+1), pay))
				if op.name == "appS" {
					res = base.AppendSemantics(pay...)
				} else {
					res = base.AppendConsistency(pay...)
				}
			case "conj":
				os = takeSnap(pool[op.b])
				res = base.Conjunction(pool[op.b])
			case "bytes":
				base.ToBytes()
				base.TriviallyTrue()
				base.TriviallyFalse()
				base.TopV()
				base.Clauses()
				derived = false
			case "file":
				if err := base.ToFile(filePath); err != nil {
					Failf("history %v: ToFile: %v", hist, err)
				}
				derived = false
			}
			if last && prop == "N03" && derived && op.name != "neg" && op.name != "negb" {
				r.Eval(true)
				got := takeSnap(res)
				wantS, wantC := bs.sc, bs.cc
				switch op.name {
				case "appS":
					wantS = append(append([]cls{}, wantS...), pay...)
				case "appC":
					wantC = append(append([]cls{}, wantC...), pay...)
				case "conj":
					wantS = append(append([]cls{}, wantS...), os.sc...)
					wantC = append(append([]cls{}, wantC...), os.cc...)
				}
				if canon(got.sc) != canon(wantS) || canon(got.cc) != canon(wantC) {
					Failf("history %v: result semantic %v consistency %v, expected %v and %v", hist, got.sc, got.cc, wantS, wantC)
				}
				if m := maxAbs(got.sc, got.cc); got.tv < m || got.tv < bs.tv {
					Failf("history %v: TopV %d but largest variable is %d and the receiver's TopV is %d", hist, got.tv, m, bs.tv)
				}
			}
			if last && prop == "N02" {
				r.Eval(len(hist) > 1)
				// every formula unchanged?
				for i := range pool {
					now := takeSnap(pool[i])
					ks, kc := eqClauses(now.sc, snaps[i].sc), eqClauses(now.cc, snaps[i].cc)
					if ks < 0 && kc < 0 && now.tv == snaps[i].tv {
						continue
					}
					Failf("history %v: the last step changed formula #%d from %v to %v", hist, i, snaps[i], now)
				}
				if a, b := takeSnap(cnf.TrueCNF), takeSnap(cnf.FalseCNF); eqClauses(a.sc, trueS.sc) >= 0 || eqClauses(a.cc, trueS.cc) >= 0 || a.tv != trueS.tv || eqClauses(b.sc, falseS.sc) >= 0 || eqClauses(b.cc, falseS.cc) >= 0 || b.tv != falseS.tv {
					Failf("history %v: shared constants changed: TrueCNF=%v FalseCNF=%v", hist, a, b)
				}
				if len(cnf.NegClauses) != 1 || len(cnf.NegClauses[0]) != 0 {
					Failf("history %v: NegClauses changed to %v", hist, cnf.NegClauses)
				}
				for _, w := range ws {
					for k := range w.s {
						// visible part of each clause the caller passed, and what lies
						// behind it in the caller's arrays
						if eqClauses([]cls{w.s[k][:cap(w.s[k])]}, []cls{w.was[k]}) >= 0 {
							Failf("history %v: caller's slice %s[%d] changed from %v to %v", hist, w.name, k, w.was[k], w.s[k][:cap(w.s[k])])
						}
					}
				}
			}
			if derived {
				pool = append(pool, res)
			}
			snaps = snaps[:0]
			for i := range pool {
				snaps = append(snaps, takeSnap(pool[i]))
			}
		}
		st := uint64(0)
		for i := range pool {
			st = hstr(st, cnfText(pool[i]))
		}
		r.State(st)
		r.Sample(func() string { return fmt.Sprint(hist) })
	}
	var rec func(hist []cnfOp, n int)
	rec = func(hist []cnfOp, n int) {
		for _, op := range opsFor(n) {
			h := append(append([]cnfOp{}, hist...), op)
			if len(h) <= 2 {
				r.Case(func() string { return fmt.Sprint(h) }, func() { runHist(h); r.C["traces_validated_against_impl"]++ })
			} else {
				runHist(h)
				r.C["traces_validated_against_impl"]++
			}
			if len(h) < depth {
				m := n
				if op.name == "file" {
					// a file is written as the last step: what it changes is seen there
					continue
				}
				if op.name != "bytes" {
					m++
				}
				if len(h) == 2 {
					r.Case(func() string { return fmt.Sprintf("continuations of %v", h) }, func() { rec(h, m) })
				} else {
					rec(h, m)
				}
			}
		}
	}
	rec(nil, 4)
}

// ---------- N04 ----------

func parseDIMACS(b []byte) (vars, n int, cs []cls, err error) {
	head := false
	cur := cls{}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) == 0 || f[0] == "c" {
			continue
		}
		if f[0] == "p" {
			if head || len(f) != 4 || f[1] != "cnf" {
				return 0, 0, nil, fmt.Errorf("bad header %q", line)
			}
			head = true
			if vars, err = strconv.Atoi(f[2]); err != nil {
				return
			}
			if n, err = strconv.Atoi(f[3]); err != nil {
				return
			}
			continue
		}
		if !head {
			return 0, 0, nil, fmt.Errorf("clause before header: %q", line)
		}
		for _, w := range f {
			l, e := strconv.Atoi(w)
			if e != nil {
				return 0, 0, nil, e
			}
			if l == 0 {
				cs = append(cs, cur)
				cur = cls{}
			} else {
				cur = append(cur, l)
			}
		}
	}
	if !head {
		return 0, 0, nil, fmt.Errorf("no header")
	}
	if len(cur) > 0 {
		return 0, 0, nil, fmt.Errorf("last clause not terminated")
	}
	return
}

// dimacsMatches checks that text denotes exactly the clauses.
func dimacsMatches(b []byte, sc, cc []cls) error {
	v, n, cs, err := parseDIMACS(b)
	if err != nil {
		return err
	}
	all := append(append([]cls{}, sc...), cc...)
	if n != len(cs) {
		return fmt.Errorf("header announces %d clauses, %d found", n, len(cs))
	}
	if lines := bytes.Count(b, []byte("\n")); lines != len(cs)+1 {
		return fmt.Errorf("%d lines for %d clauses", lines, len(cs))
	}
	if m := maxAbs(cs); v < m {
		return fmt.Errorf("header announces %d variables, %d used", v, m)
	}
	if canon(cs) != canon(all) {
		return fmt.Errorf("clauses %v, formula has %v", cs, all)
	}
	return nil
}

func n04Formula(k int) (cnf.CNF, []cls, []cls) {
	mk := func(n, w, off int) []cls {
		var out []cls
		for i := 0; i < n; i++ {
			c := cls{}
			for j := 0; j < w; j++ {
				l := off + i*7 + j*3 + 1
				if (i+j)%2 == 1 {
					l = -l
				}
				c = append(c, l)
			}
			out = append(out, c)
		}
		return out
	}
	sizes := [][4]int{{0, 0, 0, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}, {1, 1, 1, 9}, {9, 1, 3, 0}, {10, 3, 2, 100}, {3, 99, 4, 1}, {100, 101, 1, 5}, {5, 5, 40, 99999}, {700, 300, 3, 12345678}, {1, 1, 3000, 1 << 30}, {4, 2, 2, 1 << 40}, {9000, 2500, 3, 1000}, {2, 1, 30000, 7}}
	z := sizes[k%len(sizes)]
	sc, cc := mk(z[0], z[2], z[3]), mk(z[1], z[2]+1, z[3]+1)
	if k%2 == 1 {
		sc, cc = cc, sc
	}
	return cnf.FromClauses(cpClauses(sc)).AppendConsistency(cpClauses(cc)...), sc, cc
}

// ofLength builds clauses whose text has n bytes.
func ofLength(shape string, n int) (sc, cc []cls) {
	width := map[string]int{"one wide clause": 1 << 30, "unit clauses": 1}[shape]
	if width == 0 {
		width = 3
	}
	lits, size := []int{99}, 5 // one clause of one literal
	head := func(l int) int { return len(fmt.Sprintf("p cnf 99 %d\n", (l+width-1)/width)) }
	for i := 1; ; i++ {
		l, d := 1+i%9, 2
		if i%5 == 2 {
			l, d = 10+i%89, 3
		}
		if i%width == 0 {
			d += 2
		}
		if head(len(lits)+1)+size+d > n {
			break
		}
		lits, size = append(lits, l), size+d
	}
	for i := 0; i < len(lits) && head(len(lits))+size < n; i++ {
		lits[i] = -lits[i]
		size++
	}
	for i := 0; i < len(lits); i += width {
		c := cls(lits[i:min(i+width, len(lits))])
		if width == 3 && i%2 == 1 {
			cc = append(cc, c)
		} else {
			sc = append(sc, c)
		}
	}
	return sc, cc
}

func n04(r *Run) {
	path := filepath.Join(r.tmp, "f.cnf")
	check := func(f cnf.CNF, sc, cc []cls, what string) {
		r.Eval(len(sc)+len(cc) > 0)
		b := f.ToBytes()
		if err := dimacsMatches(b, sc, cc); err != nil {
			Failf("%s: ToBytes: %v (%.200q)", what, err, b)
		}
		if err := f.ToFile(path); err != nil {
			Failf("%s: ToFile: unexpected error %v", what, err)
		}
		g, err := os.ReadFile(path)
		if err != nil {
			Failf("%s: file not readable: %v", what, err)
		}
		if err := dimacsMatches(g, sc, cc); err != nil {
			Failf("%s: ToFile: %v (%.200q)", what, err, g)
		}
		if !bytes.Equal(b, g) {
			Failf("%s: file %.200q differs from bytes %.200q", what, g, b)
		}
	}
	cs := clausesOver(2, 3)
	if r.Deep() {
		cs = clausesOver(3, 3)
	}
	for i, a := range cs {
		i, a := i, a
		r.Case(func() string { return fmt.Sprintf("all formulas with first clause %v", a) }, func() {
			for _, b := range cs {
				for m := 0; m < 8; m++ { // which of the three lists parts are present
					var sc, cc []cls
					if m&1 == 1 {
						sc = append(sc, a)
					}
					if m&2 == 2 {
						cc = append(cc, b)
					}
					if m&4 == 4 {
						sc = append(sc, b)
						cc = append(cc, a, cs[(i*5)%len(cs)])
					}
					f := cnf.FromClauses(cpClauses(sc)).AppendConsistency(cpClauses(cc)...)
					if i%5 == 1 { // previous content, longer
						os.WriteFile(path, bytes.Repeat([]byte("9 9 9 0\n"), 40), 0o644)
					} else if i%5 == 2 {
						os.Remove(path)
					}
					check(f, sc, cc, fmt.Sprintf("sc=%v cc=%v", sc, cc))
					// derived formulas
					g := f.Negate()
					s1, c1 := g.Clauses()
					check(g, cpClauses(s1), cpClauses(c1), fmt.Sprintf("negation of sc=%v cc=%v", sc, cc))
					g = f.Conjunction(g).Negate(20)
					s1, c1 = g.Clauses()
					check(g, cpClauses(s1), cpClauses(c1), fmt.Sprintf("derived from sc=%v cc=%v", sc, cc))
				}
			}
			r.Sample(func() string {
				return fmt.Sprintf("formulas with clauses %v and another one in every combination of kinds", a)
			})
		})
	}
	// clauses of the same digits
	place := []int{1, 2, 11, 12, 111, 112}
	alike := clausesOver(6, 2)
	for _, c := range alike {
		for i, l := range c {
			if l < 0 {
				c[i] = -place[-l-1]
			} else {
				c[i] = place[l-1]
			}
		}
	}
	for i, a := range alike {
		i, a := i, a
		r.Case(func() string { return fmt.Sprintf("clause %v with every other one over the variables %v", a, place) }, func() {
			for j, b := range alike {
				sc, cc := []cls{a}, []cls{b}
				if (i+j)%2 == 0 {
					sc, cc = []cls{a, b}, nil
				}
				check(cnf.FromClauses(cpClauses(sc)).AppendConsistency(cpClauses(cc)...), sc, cc, fmt.Sprintf("sc=%v cc=%v", sc, cc))
			}
		})
	}
	for k := 0; k < 28; k++ {
		k := k
		r.Case(func() string { return fmt.Sprintf("sized formula %d", k) }, func() {
			f, sc, cc := n04Formula(k)
			if k%3 == 0 {
				os.WriteFile(path, bytes.Repeat([]byte("x"), 400000), 0o644)
			}
			check(f, sc, cc, fmt.Sprintf("formula %d", k))
			check(f, sc, cc, fmt.Sprintf("formula %d, written again", k))
		})
	}
	// every length of text: buffers of any size are filled to the last byte,
	// and one more and one less
	limits := [][2]int{{20, 4200}, {8192 - 40, 8192 + 40}, {16384 - 40, 16384 + 40}, {32768 - 40, 32768 + 40}, {65536 - 40, 65536 + 40}, {131072 - 12, 131072 + 12}}
	if r.Deep() {
		limits[0][1] = 8200
	}
	for _, shape := range []string{"one wide clause", "clauses of three literals, half of them consistency clauses", "unit clauses"} {
		for _, lm := range limits {
			part := 256
			if lm[0] > 4200 {
				part = 10
			}
			for at := lm[0]; at < lm[1]; at += part {
				shape, lo, hi := shape, at, min(at+part, lm[1])
				r.Case(func() string { return fmt.Sprintf("%s, texts of %d to %d bytes", shape, lo, hi) }, func() {
					for n := lo; n < hi; n++ {
						sc, cc := ofLength(shape, n)
						f := cnf.FromClauses(cpClauses(sc)).AppendConsistency(cpClauses(cc)...)
						check(f, sc, cc, fmt.Sprintf("%s, %d bytes", shape, n))
						if n%64 == 0 {
							r.Tick()
						}
					}
				})
			}
		}
	}
	for _, f := range []cnf.CNF{cnf.TrueCNF, cnf.FalseCNF} {
		f := f
		r.Case(func() string { return "constants" }, func() {
			s, c := f.Clauses()
			check(f, s, c, "constant")
		})
	}
}

// ---------- N05 ----------

type rawQ struct{ f cnf.CNF }

func (q rawQ) Encoding(ctx query.QContext) (cnf.CNF, error) { return q.f, nil }

func n05(r *Run) {
	signal.Ignore(syscall.SIGXFSZ)
	var inf syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &inf)
	limited := func(n int, f func()) {
		l := inf
		l.Cur = uint64(n)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			panic(err)
		}
		defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &inf)
		f()
	}
	fk := newFake(r)
	path := filepath.Join(r.tmp, "w.cnf")
	for _, k := range []int{0, 1, 3, 4, 5, 6, 8} {
		k := k
		const chunk = 64
		// number of chunks fixed so that the case numbering does not depend on
		// the code under test
		for c := 0; c < 64; c++ {
			c := c
			r.Case(func() string { return fmt.Sprintf("formula %d, file size limits %d..", k, c*chunk) }, func() {
				f, _, _ := n04Formula(k)
				n := len(f.ToBytes())
				if c == 63 { // large enough limits
					for _, lim := range []int{n, n + 1, n + 1000} {
						var err error
						limited(lim, func() { err = f.ToFile(path) })
						r.Eval(false)
						if err != nil {
							Failf("formula %d: error %v although %d bytes may be written and it has %d", k, err, lim, n)
						}
					}
				}
				for lim := c * chunk; lim < (c+1)*chunk && lim < n; lim++ {
					var err error
					limited(lim, func() { err = f.ToFile(path) })
					r.Eval(true)
					if err == nil {
						Failf("formula %d of %d bytes: writing stops after %d bytes and no error is returned", k, n, lim)
					}
					r.Sample(func() string { return fmt.Sprintf("formula %d (%d bytes), write fails at byte %d: %v", k, n, lim, err) })
					if lim%4 == 0 || lim > n-3 {
						for _, code := range []int{10, 20} {
							fk.script(fakeStep{Exit: code, Stdout: "s SATISFIABLE\nv 1 0\n"})
							s := fk.solver()
							var err error
							limited(lim, func() { err = s.Step(rawQ{f}, query.BasicQContext(model{dim: 1})) })
							r.Eval(true)
							if err == nil || err == compute.UnsatError {
								Failf("formula %d of %d bytes: writing stops after %d bytes and Step returns %v (solver would answer %d)", k, n, lim, err, code)
							}
						}
					}
				}
			})
		}
	}
	// large formulas: limits around block sizes
	for _, k := range []int{9, 10, 12, 13} {
		k := k
		r.Case(func() string { return fmt.Sprintf("large formula %d", k) }, func() {
			f, _, _ := n04Formula(k)
			n := len(f.ToBytes())
			for _, lim := range []int{0, 1, 511, 512, 4095, 4096, 4097, 8192, 16384, 32768, 65536, n / 2, n - 2, n - 1} {
				if lim >= n {
					continue
				}
				var err error
				limited(lim, func() { err = f.ToFile(path) })
				r.Eval(true)
				if err == nil {
					Failf("formula %d of %d bytes: writing stops after %d bytes and no error is returned", k, n, lim)
				}
				for _, code := range []int{10, 20} {
					fk.script(fakeStep{Exit: code, Stdout: "s SATISFIABLE\nv 1 0\n"})
					s := fk.solver()
					var err error
					limited(lim, func() { err = s.Step(rawQ{f}, query.BasicQContext(model{dim: 1})) })
					r.Eval(true)
					if err == nil || err == compute.UnsatError {
						Failf("formula %d of %d bytes: writing stops after %d bytes and Step returns %v (solver would answer %d)", k, n, lim, err, code)
					}
				}
			}
		})
	}
	r.Case(func() string { return "creation failures and full device" }, func() {
		os.Mkdir(filepath.Join(r.tmp, "dir"), 0o755)
		os.WriteFile(filepath.Join(r.tmp, "plain"), nil, 0o644)
		for k := 0; k < 9; k++ {
			f, _, _ := n04Formula(k)
			for _, p := range []string{"/dev/full", filepath.Join(r.tmp, "dir"), filepath.Join(r.tmp, "none", "f"), filepath.Join(r.tmp, "plain", "f"), "", filepath.Join(r.tmp, strings.Repeat("n", 300))} {
				r.Eval(true)
				if err := f.ToFile(p); err == nil {
					Failf("formula %d written to %q without an error", k, p)
				}
			}
		}
	})
	r.Case(func() string { return "no temporary file can be created" }, func() {
		old := os.Getenv("TMPDIR")
		defer os.Setenv("TMPDIR", old)
		fk.script(fakeStep{Exit: 10, Stdout: "s SATISFIABLE\nv 1 0\n"}, fakeStep{Exit: 20})
		s := fk.solver()
		os.Setenv("TMPDIR", filepath.Join(r.tmp, "does-not-exist"))
		f, _, _ := n04Formula(3)
		for i := 0; i < 2; i++ {
			r.Eval(true)
			if err := s.Step(rawQ{f}, query.BasicQContext(model{dim: 1})); err == nil || err == compute.UnsatError {
				Failf("Step returns %v although no file could be created", err)
			}
		}
	})
}

// ---------- N06 ----------

// n06: what a formula says of itself, after every history of derivations.
func n06(r *Run) {
	const nv = 3
	judge := func(what func() string, f cnf.CNF) {
		sc, cc := f.Clauses()
		tt, tf := f.TriviallyTrue(), f.TriviallyFalse()
		r.Eval(tt || tf)
		r.C["transitions"]++
		empty := false
		for _, cs := range [][]cls{sc, cc} {
			for _, c := range cs {
				empty = empty || len(c) == 0
			}
		}
		if len(sc)+len(cc) == 0 && !tt {
			Failf("%s: no clause and not trivially true", what())
		}
		if empty && !tf {
			Failf("%s: an empty clause in %v %v and not trivially false", what(), sc, cc)
		}
		if tt || tf {
			top := maxi(maxAbs(sc, cc), nv)
			s := newSat(top, sc, cc)
			if tf && s.solve() {
				Failf("%s: trivially false but satisfiable: %v %v", what(), sc, cc)
			}
			if tt {
				as := make([]int, nv)
				for a := 0; a < 1<<nv; a++ {
					for i := range as {
						as[i] = i + 1
						if a>>i&1 == 0 {
							as[i] = -as[i]
						}
					}
					if !s.solve(as...) {
						Failf("%s: trivially true but not satisfied by %v: %v %v", what(), as, sc, cc)
					}
				}
			}
		}
		if f.TriviallyTrue() != tt || f.TriviallyFalse() != tf {
			Failf("%s: the answer changes when asked again", what())
		}
	}
	pay := [][]cls{nil, {{}}, {{1}}, {{-1}, {2, -3}}, {{1, -1}}, {{2}, {}}, {{}, {3}}}
	depth := 3
	if r.Deep() {
		depth = 4
	}
	for si := range pay {
		for ci := range pay {
			si, ci := si, ci
			r.Case(func() string { return fmt.Sprintf("histories from semantic %v, consistency %v", pay[si], pay[ci]) }, func() {
				var rec func(f cnf.CNF, hist []string)
				rec = func(f cnf.CNF, hist []string) {
					what := func() string {
						return fmt.Sprintf("FromClauses(%v).AppendConsistency(%v) %s", pay[si], pay[ci], strings.Join(hist, " "))
					}
					judge(what, f)
					r.State(hstr(hint(6, f.TopV()), fmt.Sprint(f.Clauses())))
					if len(hist) == depth {
						r.Sample(what)
						return
					}
					h := hist[:len(hist):len(hist)]
					rec(f.Negate(), append(h, "Negate()"))
					rec(f.Negate(9), append(h, "Negate(9)"))
					rec(f.Conjunction(cnf.TrueCNF), append(h, "Conjunction(TrueCNF)"))
					rec(f.Conjunction(cnf.FalseCNF), append(h, "Conjunction(FalseCNF)"))
					rec(cnf.TrueCNF.Conjunction(f), append(h, "TrueCNF.Conjunction"))
					rec(f.Conjunction(f), append(h, "with itself"))
					for _, p := range pay {
						rec(f.AppendSemantics(cpClauses(p)...), append(h, fmt.Sprintf("AppendSemantics(%v)", p)))
						rec(f.AppendConsistency(cpClauses(p)...), append(h, fmt.Sprintf("AppendConsistency(%v)", p)))
					}
				}
				rec(cnf.FromClauses(cpClauses(pay[si])).AppendConsistency(cpClauses(pay[ci])...), nil)
			})
		}
	}
	// many clauses before and behind the empty one
	for _, n := range []int{1, 7, 8, 63, 64, 65, 255, 256, 257, 4096} {
		n := n
		r.Case(func() string { return fmt.Sprintf("%d clauses", n) }, func() {
			var cs []cls
			for i := 0; i < n; i++ {
				cs = append(cs, cls{1 + i%3, -(1 + (i+1)%3)})
			}
			for at := 0; at <= n; at++ {
				if at > 70 && at < n-70 && at%255 > 2 {
					continue
				}
				with := append(append(append([]cls{}, cs[:at]...), cls{}), cs[at:]...)
				for k, f := range []cnf.CNF{
					cnf.FromClauses(with), cnf.CNF{}.AppendConsistency(with...), cnf.CNF{}.AppendSemantics(with...),
					cnf.FromClauses(cs).AppendConsistency(with...), cnf.FromClauses(with).AppendConsistency(cs...),
				} {
					judge(func() string { return fmt.Sprintf("%d clauses, an empty one at %d, made in way %d", n+1, at, k) }, f)
				}
			}
			judge(func() string { return fmt.Sprintf("%d clauses", n) }, cnf.FromClauses(cs))
			judge(func() string { return fmt.Sprintf("%d consistency clauses", n) }, cnf.CNF{}.AppendConsistency(cs...))
		})
	}
	r.Case(func() string { return "the shared constants" }, func() {
		judge(func() string { return "TrueCNF" }, cnf.TrueCNF)
		judge(func() string { return "FalseCNF" }, cnf.FalseCNF)
		judge(func() string { return "FromClauses(NegClauses)" }, cnf.FromClauses(cnf.NegClauses))
		if !cnf.TrueCNF.TriviallyTrue() || !cnf.FalseCNF.TriviallyFalse() {
			Failf("TrueCNF or FalseCNF is not trivial")
		}
	})
}

func init() {
	register(&checkDef{id: "N01", level: "exploration", rule: "One evaluation is one (formula, bound, number of negations, assignment of the original variables); formulas: every list of clauses (with repeated and opposite literals, empty clauses) within the stated sizes; compared with the truth table. Non-trivial: the formula has semantic clauses.", fn: n01})
	register(&checkDef{id: "N02", level: "model_checking", rule: "States are the contents of the pool of formulas after a history (sequence of operations on the growing pool); every history up to the depth is executed on the real package from scratch. Non-trivial: histories of at least two steps.", fn: func(r *Run) {
		d := 3
		if r.Thorough() {
			d = 4
		}
		cnfHistories(r, d, "N02")
		cnfChains(r)
	}})
	register(&checkDef{id: "N03", level: "model_checking", rule: "States are the contents of the pool of formulas after a history (sequence of operations on the growing pool); every history up to the depth is executed on the real package from scratch and its last result compared with the list model. Non-trivial: histories ending in an append or conjunction.", fn: func(r *Run) {
		d := 3
		if r.Thorough() {
			d = 4
		}
		cnfHistories(r, d, "N03")
		n03Contents(r)
		cnfChains(r)
	}})
	register(&checkDef{id: "N04", level: "exploration", rule: "One evaluation is one formula: both texts are parsed back and compared with the clauses. Non-trivial: the formula has clauses.", fn: n04})
	register(&checkDef{id: "N05", level: "fault_enumeration", rule: "One evaluation is one (formula, byte offset at which writing fails | creation failure): an error must be reported. Non-trivial: a fault is present.", fn: n05})
	register(&checkDef{id: "N06", level: "model_checking", rule: "States are the formulas after a history of derivations; every history up to the depth is executed on the real package, and what the formula says of itself compared with its clauses and with satisfiability under every assignment. Non-trivial: the formula says that it is trivial.", fn: n06})
}
