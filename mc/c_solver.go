package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- M01 ----------

// verdict classes of a step
func verdict(err error) string {
	switch {
	case err == nil:
		return "satisfiable"
	case errors.Is(err, compute.UnsatError):
		return "unsatisfiable"
	}
	return "error"
}

// valCtx is a context in which the value variables of x have fixed numbers.
func valCtx(dim int, names ...query.QVar) query.QContext {
	ctx := query.BasicQContext(mkModel(dim, leafT, 0))
	for _, n := range names {
		for i := 0; i < dim; i++ {
			for v := 0; v < 3; v++ {
				ctx.CNFVar(n, i, v)
			}
		}
	}
	return ctx
}

func litsOf(ctx query.QContext, n query.QVar, v inst) []int { return pinAll(nil, ctx, n, v) }

func vline(l []int) string {
	s := "v"
	for _, x := range l {
		s += " " + strconv.Itoa(x)
	}
	return s + " 0\n"
}

// tellingTexts are messages that look like an answer, for solvers and errors
// that have none.
func tellingTexts() []string {
	u := compute.UnsatError.Error()
	return []string{
		u, u + "\n", "error: " + u, u + ": timeout", "\n" + u + "\n", strings.ToUpper(u), " " + u + " ",
		"exit status 20", "exit status 10", "exit status 20\n", "signal: killed", "unsat", "UNSAT\n", "unsatisfiable",
		"s UNSATISFIABLE\n", "s SATISFIABLE\n", "SATISFIABLE", "s UNKNOWN\n", "10", "20\n", "nil", "<nil>", "EOF", "EOF\n", "false", "true",
		"v 1 0\n", "v 0\n", "timeout\n", "file already closed", "no such file or directory",
	}
}

func m01(r *Run) {
	before := inst{Z, O}
	now := inst{B, Z}
	type prior struct {
		name string
		st   []fakeStep
		held inst // valuation held afterwards
	}
	ref := valCtx(2, "x")
	sat := func(v inst) fakeStep {
		return fakeStep{Exit: 10, Stdout: "s SATISFIABLE\n" + vline(litsOf(ref, "x", v))}
	}
	priors := []prior{
		{"nothing", nil, nil},
		{"a satisfiable step", []fakeStep{sat(before)}, before},
		{"an unsatisfiable step", []fakeStep{{Exit: 20, Stdout: "s UNSATISFIABLE\n"}}, nil},
		{"a satisfiable and an unsatisfiable step", []fakeStep{sat(before), {Exit: 20}}, before},
		{"a satisfiable and a failed step", []fakeStep{sat(before), {Exit: 1}}, before},
	}
	q := rawQ{cnf.FromClauses([]cls{{1, 2, 3}})}
	held := func(desc func() string, s compute.Solver, ctx query.QContext, want inst) {
		v, err := s.Values([]query.QVar{"x"}, ctx)
		if want == nil {
			if err == nil {
				Failf("%s: values %v though no step was satisfiable", desc(), v)
			}
			return
		}
		if err != nil || len(v) != 1 || !ieq(v[0].Val, want) {
			Failf("%s: values %v (%v), want %s", desc(), v, err, istr(want))
		}
	}
	// outcome of one step after each prior
	one := func(fk *fake, p prior, st fakeStep, what string, forms []string) {
		want := "error"
		if st.Signal == 0 && st.Exit == 10 {
			want = "satisfiable"
		} else if st.Signal == 0 && st.Exit == 20 {
			want = "unsatisfiable"
		}
		for _, form := range forms {
			fk.script(append(append([]fakeStep{}, p.st...), st)...)
			s := fk.solver()
			ctx := valCtx(2, "x")
			for range p.st {
				s.Step(q, ctx)
			}
			desc := func() string { return fmt.Sprintf("%s, after %s, %s", what, p.name, form) }
			r.Eval(want == "error" || len(p.st) > 0)
			var res bool
			var err error
			switch form {
			case "step":
				err = s.Step(q, ctx)
				if got := verdict(err); got != want {
					Failf("%s: reported %s (%v), want %s", desc(), got, err, want)
				}
				if want == "unsatisfiable" && err != compute.UnsatError {
					Failf("%s: error %v is not the unsatisfiability sentinel", desc(), err)
				}
				if want == "satisfiable" {
					if strings.Contains(st.Stdout, "\nv ") {
						held(desc, s, ctx, now)
					}
				} else {
					held(desc, s, ctx, p.held)
				}
				continue
			case "atom":
				res, err = compute.QDTFAtom{Query: q}.Sat(ctx, s)
			case "negated atom":
				res, err = compute.QDTFAtom{Query: q, Negated: true}.Sat(ctx, s)
				res = !res
			case "or of negated atom":
				res, err = compute.OrCombinator{compute.AndCombinator{compute.QDTFAtom{Query: q, Negated: true}}}.Sat(ctx, s)
				res = !res
			}
			if want == "error" {
				if err == nil || errors.Is(err, compute.UnsatError) {
					Failf("%s: result %v, error %v", desc(), res, err)
				}
			} else if err != nil || res != (want == "satisfiable") {
				Failf("%s: truth of the query %v, error %v, want %s", desc(), res, err, want)
			}
		}
	}
	outs := []string{"", "s SATISFIABLE\n" + vline(litsOf(ref, "x", now)), "s UNSATISFIABLE\n", "c unknown\n"}
	for code := 0; code < 256; code++ {
		code := code
		r.Case(func() string { return fmt.Sprintf("exit status %d", code) }, func() {
			fk := newFake(r)
			special := code == 10 || code == 20
			for oi, o := range outs {
				for pi, p := range priors {
					if !r.Thorough() && !special && (oi+pi+code)%4 != 0 {
						continue
					}
					forms := []string{"step", "negated atom"}
					if special || (oi+pi)%5 == 0 {
						forms = []string{"step", "atom", "negated atom", "or of negated atom"}
					}
					stderr := ""
					if (oi+pi)%2 == 0 {
						stderr = "message\n"
					}
					one(fk, p, fakeStep{Exit: code, Stdout: o, Stderr: stderr}, fmt.Sprintf("exit status %d with output %d", code, oi), forms)
				}
			}
			r.Sample(func() string { return fmt.Sprintf("exit status %d", code) })
		})
	}
	for _, sg := range []int{9, 15, 6, 2, 1, 14, 13, 24, 11, 4, 8} {
		sg := sg
		r.Case(func() string { return fmt.Sprintf("death by signal %d", sg) }, func() {
			fk := newFake(r)
			for oi, o := range outs {
				for _, p := range priors {
					one(fk, p, fakeStep{Signal: sg, Stdout: o}, fmt.Sprintf("signal %d with output %d", sg, oi), []string{"step", "negated atom", "or of negated atom"})
				}
			}
		})
	}
	// what a failing solver says on its outputs does not matter
	for ti, text := range tellingTexts() {
		for _, st := range []fakeStep{{Exit: 0}, {Exit: 1}, {Exit: 2}, {Exit: 127}, {Exit: 255}, {Exit: 30}, {Signal: 9}, {Signal: 15}, {Exit: 10, Stdout: outs[1]}, {Exit: 20}} {
			ti, text, st := ti, text, st
			r.Case(func() string { return fmt.Sprintf("text %q, exit status %d signal %d", text, st.Exit, st.Signal) }, func() {
				fk := newFake(r)
				for part := 0; part < 3; part++ {
					e := st
					if part != 1 {
						e.Stderr = text
					}
					if part != 0 {
						if st.Exit == 10 && strings.HasPrefix(text, "v ") {
							continue // those are values then
						}
						e.Stdout = text
						if st.Exit == 10 {
							e.Stdout = strings.TrimRight(text, "\n") + "\n" + st.Stdout
							if !strings.HasPrefix(text, "s ") {
								e.Stdout = "c " + e.Stdout
							}
							if strings.Contains(strings.TrimRight(text, "\n"), "\n") {
								continue
							}
						}
					}
					one(fk, priors[(ti+part)%len(priors)], e, fmt.Sprintf("exit status %d, signal %d, saying %q (part %d)", st.Exit, st.Signal, text, part), []string{"step", "atom", "negated atom", "or of negated atom"})
				}
			})
		}
	}
	r.Case(func() string { return "solvers that cannot be started" }, func() {
		if s, err := compute.BinSolver(filepath.Join(r.tmp, "missing-solver")); err == nil {
			r.Eval(true)
			Failf("BinSolver on a missing path: %v and no error", s)
		}
		mk := func(kind string, i int) (string, func()) {
			p := filepath.Join(r.tmp, fmt.Sprintf("start%d-%s", i, kind))
			none := func() {}
			switch kind {
			case "removed":
				os.WriteFile(p, []byte("#!/bin/sh\nexit 10\n"), 0o755)
				return p, func() { os.Remove(p) }
			case "notexec":
				os.WriteFile(p, []byte("#!/bin/sh\nexit 10\n"), 0o644)
			case "directory":
				os.Mkdir(p, 0o755)
			case "badformat":
				os.WriteFile(p, []byte("\x7fELFnot really"), 0o755)
			case "nointerpreter":
				os.WriteFile(p, []byte("#!/nonexistent/interpreter\n"), 0o755)
			case "empty":
				os.WriteFile(p, nil, 0o755)
			}
			return p, none
		}
		i := 0
		for _, kind := range []string{"removed", "notexec", "directory", "badformat", "nointerpreter", "empty"} {
			for _, form := range []string{"step", "atom", "negated atom"} {
				i++
				p, breakIt := mk(kind, i)
				s, err := compute.BinSolver(p)
				if err != nil {
					continue // refused from the start
				}
				breakIt()
				ctx := valCtx(2, "x")
				for rep := 0; rep < 2; rep++ {
					r.Eval(true)
					switch form {
					case "step":
						err = s.Step(q, ctx)
					case "atom":
						_, err = compute.QDTFAtom{Query: q}.Sat(ctx, s)
					case "negated atom":
						_, err = compute.QDTFAtom{Query: q, Negated: true}.Sat(ctx, s)
					}
					if err == nil || errors.Is(err, compute.UnsatError) {
						Failf("solver path %s: %s returns %v", kind, form, err)
					}
				}
			}
		}
	})
	// the program that runs is the one the path named
	for _, named := range []int{10, 20, 1} {
		for _, other := range []int{10, 20, 1, 0} {
			named, other := named, other
			if named == other {
				continue
			}
			r.Case(func() string {
				return fmt.Sprintf("solver with status %d, a namesake in PATH with status %d", named, other)
			}, func() {
				base := filepath.Join(r.tmp, fmt.Sprintf("named%d-%d", named, other))
				here, path, away := filepath.Join(base, "here"), filepath.Join(base, "path"), filepath.Join(base, "away")
				for dir, code := range map[string]int{here: named, path: other, away: other} {
					os.MkdirAll(dir, 0o755)
					os.WriteFile(filepath.Join(dir, "slv"), []byte(fmt.Sprintf("#!/bin/sh\nexit %d\n", code)), 0o755)
				}
				oldW, _ := os.Getwd()
				oldP := os.Getenv("PATH")
				os.Setenv("PATH", path+":"+oldP)
				defer func() { os.Setenv("PATH", oldP); os.Chdir(oldW) }()
				want := map[int]string{10: "satisfiable", 20: "unsatisfiable"}[named]
				if want == "" {
					want = "error"
				}
				for _, p := range []string{"slv", "./slv", "../here/slv", filepath.Join(here, "slv")} {
					for _, move := range []bool{false, true} {
						os.Chdir(here)
						s, err := compute.BinSolver(p)
						if err != nil {
							Failf("BinSolver(%q) on an existing executable: %v", p, err)
						}
						if move {
							os.Chdir(away)
						}
						for rep := 0; rep < 2; rep++ {
							r.Eval(true)
							if got := verdict(s.Step(q, valCtx(2, "x"))); got != want {
								Failf("solver %q with exit status %d (another program of that name, in PATH or in the new working directory (moved: %v), has %d): reported %s, want %s", p, named, move, other, got, want)
							}
						}
					}
				}
				os.RemoveAll(base)
			})
		}
	}
	// the formula given to the solver, and the sequence of verdicts
	t2 := allTrees(2)
	for ti := 0; ti < len(t2); ti += 7 {
		t := t2[ti]
		ti := ti
		r.Case(func() string { return fmt.Sprintf("formula given to the solver, tree %s", t) }, func() {
			fk := newFake(r)
			m := mkModel(2, t, ti%nLayouts)
			k := allInst(2)[ti%9]
			var qs []enc
			for _, p := range propsOf(k) {
				qs = append(qs, with("x", p.f("x")).build())
			}
			qs = append(qs, trivQ(true), trivQ(false))
			ctx := query.BasicQContext(m)
			s := func() compute.Solver { fk.script(fakeStep{Exit: 10, Log: true}); return fk.solver() }()
			for qi, e := range qs {
				// what an encoding in the same context gives
				ref := query.BasicQContext(m)
				for j := 0; j <= qi; j++ {
					if f, err := qs[j].Encoding(ref); err != nil {
						Failf("unexpected error %v", err)
					} else if j == qi {
						sc, cc := f.Clauses()
						sc, cc = cpClauses(sc), cpClauses(cc)
						if err := s.Step(e, ctx); err != nil {
							Failf("step on query %d: %v", qi, err)
						}
						r.Eval(true)
						if err := dimacsMatches(fk.seen(), sc, cc); err != nil {
							Failf("query %d on tree %s: the solver was given something else than the formula: %v", qi, t, err)
						}
					}
				}
			}
			r.Sample(func() string { return fmt.Sprintf("%d formulas as seen by the solver, tree %s", len(qs), t) })
		})
	}
	// solvers that take their time, and that print a lot on both outputs
	slow := []int{1500, 12000}
	if r.Deep() {
		slow = append(slow, 35000, 65000, 125000)
	}
	endings := []fakeStep{sat(now), {Exit: 20, Stdout: "s UNSATISFIABLE\n"}, {Exit: 1}, {Signal: 9}}
	for _, ms := range slow {
		for _, e := range endings {
			e := e
			e.Sleep = ms
			r.Case(func() string { return fmt.Sprintf("an answer (%d, signal %d) after %d ms", e.Exit, e.Signal, ms) }, func() {
				one(newFake(r), priors[1], e, fmt.Sprintf("exit status %d, signal %d, after %d ms", e.Exit, e.Signal, ms), []string{"step"})
			})
		}
	}
	for _, n := range []int{3000, 70000, 1 << 20, 6 << 20} {
		for _, e := range endings {
			e := e
			e.Flood = n
			n := n
			r.Case(func() string { return fmt.Sprintf("%d bytes on both outputs (%d, signal %d)", n, e.Exit, e.Signal) }, func() {
				one(newFake(r), priors[1], e, fmt.Sprintf("exit status %d, signal %d, %d bytes on both outputs", e.Exit, e.Signal, n), []string{"step", "atom", "negated atom"})
			})
		}
	}
	// unusual directories for the solver and the temporary files
	for i, odd := range []string{"with blank", "quote's \"double\"", "$HOME `x` ;&|<>*?[a]~#!%\\", "-dash", "new\nline", "-v", "umläut \xff", strings.Repeat("long", 50)} {
		for part := 0; part < 4; part++ {
			i, odd, part := i, odd, part
			r.Case(func() string { return fmt.Sprintf("directory name %q, part %d", odd, part) }, func() {
				base := filepath.Join(r.tmp, fmt.Sprintf("odd%d-%d", i, part))
				sd, td := filepath.Join(base, "s"), filepath.Join(base, "t")
				if part != 1 {
					sd = filepath.Join(base, odd)
				}
				if part != 0 {
					td = filepath.Join(base, odd+"t")
				}
				os.MkdirAll(td, 0o755)
				oldT, oldW := os.Getenv("TMPDIR"), ""
				oldW, _ = os.Getwd()
				defer func() { os.Setenv("TMPDIR", oldT); os.Chdir(oldW); os.RemoveAll(base) }()
				fk := newFakeIn(sd)
				if part == 3 { // temporary directory relative to the working directory
					os.Chdir(base)
					td = odd + "t"
				}
				os.Setenv("TMPDIR", td)
				s := fk.solver()
				for _, f := range []cnf.CNF{cnf.FromClauses([]cls{{1, -2}, {-1}, {2, 3}}), cnf.FromClauses([]cls{{1}, {-1}})} {
					sc, cc := f.Clauses()
					want := "satisfiable"
					if len(sc) == 2 {
						want = "unsatisfiable"
					}
					fk.script(fakeStep{Solve: "false", Log: true})
					r.Eval(true)
					err := s.Step(rawQ{f}, valCtx(2))
					if got := verdict(err); got != want {
						Failf("solver in %q, temporary directory %q: formula %v is %s (%v)", sd, td, sc, got, err)
					}
					if err := dimacsMatches(fk.seen(), sc, cc); err != nil {
						Failf("solver in %q, temporary directory %q: not given the formula: %v", sd, td, err)
					}
				}
			})
		}
	}
	// many steps with one solver
	for start := 0; start < 6; start++ {
		start := start
		r.Case(func() string { return fmt.Sprintf("many steps, starting with outcome %d", start) }, func() {
			fk := newFake(r)
			kinds := []fakeStep{sat(now), sat(before), {Exit: 20}, {Exit: 0}, {Exit: 1}, {Signal: 9}}
			n := 300
			if r.Deep() {
				n = 3000
			}
			var st []fakeStep
			for i := 0; i < n; i++ {
				st = append(st, kinds[(start+i*(1+i/6)+i/36)%6])
			}
			fk.script(st...)
			s := fk.solver()
			ctx := valCtx(2, "x")
			var hold inst
			for i := 0; i < n; i++ {
				k := (start + i*(1+i/6) + i/36) % 6
				want := []string{"satisfiable", "satisfiable", "unsatisfiable", "error", "error", "error"}[k]
				got := verdict(s.Step(q, ctx))
				r.Eval(true)
				r.Tick()
				desc := func() string { return fmt.Sprintf("start %d, step %d", start, i+1) }
				if got != want {
					Failf("%s: %s, want %s", desc(), got, want)
				}
				if k == 0 {
					hold = now
				} else if k == 1 {
					hold = before
				}
				held(desc, s, ctx, hold)
			}
		})
	}
	// sequences of outcomes: each verdict is that of its own run
	kinds := []fakeStep{sat(now), sat(before), {Exit: 20}, {Exit: 0}, {Exit: 1}, {Signal: 9}}
	idx := make([]int, 4)
	for {
		h := append([]int{}, idx...)
		r.Case(func() string { return fmt.Sprintf("sequence of outcomes %v", h) }, func() {
			fk := newFake(r)
			var st []fakeStep
			for _, k := range h {
				st = append(st, kinds[k])
			}
			fk.script(st...)
			s := fk.solver()
			ctx := valCtx(2, "x")
			var hold inst
			for i, k := range h {
				want := []string{"satisfiable", "satisfiable", "unsatisfiable", "error", "error", "error"}[k]
				got := verdict(s.Step(q, ctx))
				r.Eval(true)
				desc := func() string { return fmt.Sprintf("outcomes %v, step %d", h, i+1) }
				if got != want {
					Failf("%s: %s, want %s", desc(), got, want)
				}
				if k == 0 {
					hold = now
				} else if k == 1 {
					hold = before
				}
				held(desc, s, ctx, hold)
			}
		})
		if !inc(idx, len(kinds)) {
			break
		}
	}
}

// ---------- M02 ----------

func iabs(a int) int { return maxi(a, -a) }

// oncePerVar keeps first of all keep, and of the rest one literal per variable.
func oncePerVar(l, keep []int) []int {
	seen := map[int]bool{}
	for _, k := range keep {
		seen[iabs(k)] = true
	}
	out := append([]int{}, keep...)
	for _, k := range l {
		if !seen[iabs(k)] {
			seen[iabs(k)] = true
			out = append([]int{k}, out...)
		}
	}
	return out
}

func m02(r *Run) {
	q := rawQ{cnf.FromClauses([]cls{{1, -1}})}
	ask := func(fk *fake, ctx query.QContext, out string, names ...query.QVar) ([]query.QConst, error) {
		fk.script(fakeStep{Exit: 10, Stdout: out})
		s := fk.solver()
		if err := s.Step(q, ctx); err != nil {
			Failf("output %.300q: step fails: %v", out, err)
		}
		return s.Values(names, ctx)
	}
	okc := func(fk *fake, ctx query.QContext, out string, names []query.QVar, want []inst) {
		r.Eval(true)
		got, err := ask(fk, ctx, out, names...)
		if err != nil || len(got) != len(want) {
			Failf("output %.300q: values %v, error %v", out, got, err)
		}
		for i := range want {
			if !ieq(got[i].Val, want[i]) {
				Failf("output %.300q: value of %s is %s, want %s", out, names[i], istr(got[i].Val), istr(want[i]))
			}
		}
		r.Sample(func() string { return fmt.Sprintf("%.120q -> %v", out, got) })
	}
	x := []query.QVar{"x"}
	// every instance, plain layout; two variables
	for d := 1; d <= 3; d++ {
		for vi, v := range allInst(d) {
			d, v, vi := d, v, vi
			r.Case(func() string { return fmt.Sprintf("instance %s", istr(v)) }, func() {
				fk := newFake(r)
				ctx := valCtx(d, "x", "y")
				for ui, u := range allInst(d) {
					if d == 3 && (ui+vi)%5 != 0 && !r.Thorough() {
						continue
					}
					out := "c comment\ns SATISFIABLE\n" + vline(append(litsOf(ctx, "x", v), litsOf(ctx, "y", u)...))
					names, want := []query.QVar{"x", "y"}, []inst{v, u}
					switch (ui + vi) % 3 {
					case 1:
						names, want = []query.QVar{"y", "x"}, []inst{u, v}
					case 2:
						names, want = []query.QVar{"y", "x", "y"}, []inst{u, v, u}
					}
					okc(fk, ctx, out, names, want)
				}
			})
		}
	}
	// every division of the literals of one feature and the 0 over lines, every
	// order of the literals
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, v := range allInst(1) {
		for pi, p := range perms {
			v, pi, p := v, pi, p
			r.Case(func() string { return fmt.Sprintf("instance %s, literal order %v, all line divisions", istr(v), p) }, func() {
				fk := newFake(r)
				ctx := valCtx(1, "x")
				l := litsOf(ctx, "x", v)
				toks := []string{strconv.Itoa(l[p[0]]), strconv.Itoa(l[p[1]]), strconv.Itoa(l[p[2]]), "0"}
				for cut := 0; cut < 8; cut++ {
					for sep := 0; sep < 3; sep++ {
						if !r.Thorough() && (cut+sep+pi)%2 == 1 {
							continue
						}
						o := "s SATISFIABLE\nv"
						for i, t := range toks {
							o += []string{" ", "  ", "\t"}[sep] + t
							if cut>>i&1 == 1 && i < 3 {
								o += "\nv"
							}
						}
						okc(fk, ctx, o+"\n", x, []inst{v})
					}
				}
			})
		}
	}
	// systematic layouts
	type layout struct {
		name string
		mk   func(l []int) string
	}
	per := func(n int, pre, sep, end, tail string) func([]int) string {
		return func(l []int) string {
			var o strings.Builder
			o.WriteString(pre)
			for i := 0; i < len(l); i += n {
				o.WriteString("v")
				for _, x := range l[i:min(i+n, len(l))] {
					o.WriteString(sep)
					o.WriteString(strconv.Itoa(x))
				}
				o.WriteString(end)
			}
			return o.String() + tail
		}
	}
	head := "c solver\nc\n\ns SATISFIABLE\n"
	var lays []layout
	for _, n := range []int{1, 2, 3, 5, 7, 100} {
		lays = append(lays, layout{fmt.Sprintf("%d per line", n), per(n, head, " ", "\n", "v 0\n")},
			layout{fmt.Sprintf("%d per line, statistics between", n), per(n, head, " ", "\nc value 3 -3\n\n", "v 0\nc end\n")},
			layout{fmt.Sprintf("%d per line, trailing blanks", n), per(n, head, " ", " \n", "v 0 \n")},
			layout{fmt.Sprintf("%d per line, CRLF", n), per(n, strings.ReplaceAll(head, "\n", "\r\n"), " ", "\r\n", "v 0\r\n")},
			layout{fmt.Sprintf("%d per line, no final line end", n), per(n, head, " ", "\n", "v 0")},
			layout{fmt.Sprintf("%d per line, values before status", n), per(n, "", " ", "\n", "v 0\ns SATISFIABLE\n")},
			layout{fmt.Sprintf("%d per line, wide blanks", n), per(n, head, "     ", "\n", "v     0\n")},
			layout{fmt.Sprintf("%d per line, bare value lines", n), per(n, head+"v\n", " ", "\nv\n", "v 0\n")},
			layout{fmt.Sprintf("%d per line, bare value lines with blank", n), per(n, head+"v \n", " ", "\n", "v \nv 0\n")},
			layout{fmt.Sprintf("%d per line, no terminator", n), per(n, head, " ", "\n", "")})
	}
	orders := []func(l []int) []int{
		func(l []int) []int { return l },
		func(l []int) []int {
			o := append([]int{}, l...)
			for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
				o[i], o[j] = o[j], o[i]
			}
			return o
		},
		func(l []int) []int {
			var o []int
			for s := 0; s < 7; s++ {
				for i := s; i < len(l); i += 7 {
					o = append(o, l[i])
				}
			}
			return o
		},
		func(l []int) []int { // positive literals first, by value
			o := append([]int{}, l...)
			sort.Slice(o, func(i, j int) bool { return o[i] > o[j] })
			return o
		},
	}
	for _, lay := range lays {
		lay := lay
		r.Case(func() string { return "layout: " + lay.name }, func() {
			fk := newFake(r)
			ctx := valCtx(3, "y", "x")
			for oi, ord := range orders {
				for vi, v := range []inst{{B, Z, O}, {O, O, B}, {Z, B, B}, {O, Z, Z}} {
					if (oi+vi)%2 == 1 && !r.Thorough() {
						continue
					}
					u := inst{O, B, Z}
					l := append(litsOf(ctx, "y", u), litsOf(ctx, "x", v)...)
					okc(fk, ctx, lay.mk(ord(l)), []query.QVar{"x", "y"}, []inst{v, u})
				}
			}
		})
	}
	// many variables: numbers with several digits that contain each other,
	// output beyond 64 KiB, one very long line
	for _, n := range []int{9, 40, 400, 9000, 30000, 200000} {
		for kind := 0; kind < 3; kind++ {
			n, kind := n, kind
			r.Case(func() string { return fmt.Sprintf("%d other variables, layout %d", n, kind) }, func() {
				fk := newFake(r)
				var ctx query.QContext
				ctx = query.BasicQContext(mkModel(12, leafT, 0))
				for i := 0; i < n/2; i++ {
					ctx.CNFVar("aux", i, 0)
				}
				v := make(inst, 12)
				for i := range v {
					v[i] = query.FeatV((i*i + kind) % 3)
				}
				lx := litsOf(ctx, "x", v)
				var l []int
				for i := 0; i < n/2; i++ {
					k := ctx.CNFVar("aux", i, 0)
					if i%3 != kind {
						k = -k
					}
					l = append(l, k)
				}
				l = append(l, lx...)
				top := ctx.TopV()
				for i := 0; i < n/2; i++ {
					k := top + 1 + i
					if i%2 == 0 {
						k = -k
					}
					l = append(l, k)
				}
				l = orders[(kind+n)%4](l)
				okc(fk, ctx, per([]int{13, 1, 1 << 20}[kind], head, " ", "\n", "v 0\n")(l), x, []inst{v})
			})
		}
	}
	// long lines that are not values, in all places
	for _, n := range []int{4095, 4096, 4097, 65535, 65536, 70000, 1<<20 + 3} {
		n := n
		r.Case(func() string { return fmt.Sprintf("comment of %d bytes", n) }, func() {
			fk := newFake(r)
			ctx := valCtx(3, "x")
			v := inst{O, B, Z}
			c := "c " + strings.Repeat("v 1 ", n/4) + strings.Repeat("-", n%4) + "\n"
			vl := vline(litsOf(ctx, "x", v))
			for _, out := range []string{c + head + vl, head + c + vl, head + vl + c, c + c + head + c + per(2, "", " ", "\n"+c, "v 0\n")(litsOf(ctx, "x", v))} {
				okc(fk, ctx, out, x, []inst{v})
			}
		})
	}
	// every byte of the values, of the status and of the ends of lines on every
	// side of the borders of read buffers
	v3 := inst{O, B, Z}
	for _, border := range []int{64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072} {
		for kind := 0; kind < 4; kind++ {
			border, kind := border, kind
			r.Case(func() string { return fmt.Sprintf("output across byte %d, kind %d", border, kind) }, func() {
				fk := newFake(r)
				ctx := query.BasicQContext(mkModel(3, leafT, 0))
				ctx.UpdateTopV(1230)
				lx := litsOf(ctx, "x", v3)
				body := []string{"s SATISFIABLE\n" + per(3, "", " ", "\n", "v 0\n")(lx),
					per(100, "", " ", "\n", "v 0\n")(lx) + "s SATISFIABLE\n",
					"s SATISFIABLE\r\n" + per(1, "", " ", "\r\n", "v 0\r\n")(lx),
					"s SATISFIABLE\n" + per(100, "", "  ", "\n", "v 0")(lx)}[kind]
				for k := 0; k <= len(body); k++ {
					if kind == 2 && k%2 == 1 && !r.Deep() {
						continue
					}
					pad := border - k
					var c string
					if pad >= 3 && kind%2 == 0 {
						c = "c " + strings.Repeat("7", pad-3) + "\n"
					} else {
						for len(c) < pad {
							n := min(pad-len(c), 80)
							if pad-len(c)-n < 2 {
								n = pad - len(c)
							}
							c += "c " + strings.Repeat("-", max(n-3, 0)) + "\n"
						}
					}
					okc(fk, ctx, c+body, x, []inst{v3})
				}
				r.Tick()
			})
		}
	}
	// output that comes in pieces
	for kind := 0; kind < 3; kind++ {
		kind := kind
		r.Case(func() string { return fmt.Sprintf("output in pieces, kind %d", kind) }, func() {
			fk := newFake(r)
			ctx := query.BasicQContext(mkModel(3, leafT, 0))
			ctx.UpdateTopV(1230)
			body := "c pieces\ns SATISFIABLE\n" + per([]int{3, 1, 100}[kind], "", " ", "\n", "v 0\n")(litsOf(ctx, "x", v3))
			for cut := -1; cut < len(body); cut++ {
				r.Eval(true)
				fk.script(fakeStep{Exit: 10, Stdout: body, Cut: cut})
				s := fk.solver()
				if err := s.Step(q, ctx); err != nil {
					Failf("output %q with a pause after %d bytes: step fails: %v", body, cut, err)
				}
				got, err := s.Values(x, ctx)
				if err != nil || len(got) != 1 || !ieq(got[0].Val, v3) {
					Failf("output %q with a pause after %d bytes: values %v, error %v", body, cut, got, err)
				}
			}
			r.Sample(func() string { return fmt.Sprintf("%q with a pause after each of its bytes", body) })
		})
	}
	// wide instances
	for _, d := range []int{10, 11, 33, 101, 255, 256, 257, 300, 1030} {
		d := d
		r.Case(func() string { return fmt.Sprintf("dimension %d", d) }, func() {
			fk := newFake(r)
			ctx := valCtx(d, "y", "x")
			for s := 0; s < 6; s++ {
				v, u := make(inst, d), make(inst, d)
				for i := range v {
					v[i] = query.FeatV((i/(s+1) + s) % 3)
					u[i] = query.FeatV((i*s + i/5) % 3)
				}
				okc(fk, ctx, per(9, head, " ", "\n", "v 0\n")(orders[s%4](append(litsOf(ctx, "x", v), litsOf(ctx, "y", u)...))), []query.QVar{"x", "y"}, []inst{v, u})
			}
		})
	}
	// large numbers
	for _, top := range []int{1<<15 - 4, 1<<16 - 4, 1<<24 - 4, 1<<31 - 4, 1<<31 + 4, 1<<32 - 4, 1<<32 + 4, 1<<33 + 7, 1<<53 - 4, 1<<53 + 4, 1 << 62, 999999999999999998, 9999999999 - 5} {
		top := top
		r.Case(func() string { return fmt.Sprintf("numbers from %d on", top) }, func() {
			fk := newFake(r)
			for kind := 0; kind < 3; kind++ {
				for _, v := range allInst(2) {
					ctx := query.BasicQContext(mkModel(2, leafT, 0))
					if kind == 1 { // y small, x large
						litsOf(ctx, "y", v)
					}
					ctx.UpdateTopV(top)
					lx := litsOf(ctx, "x", v)
					u := inst{v[1], O}
					ly := litsOf(ctx, "y", u)
					l := append(append([]int{}, ly...), lx...)
					if kind == 2 { // others that agree with these in their last 16 or 32 bits
						for _, k := range lx {
							for _, m := range []int{16, 32} {
								k := int(uint(iabs(k)) & (1<<m - 1))
								if k != 0 && k < top {
									l = append([]int{-k}, append(l, k-1, -(k+1))...)
								}
							}
						}
						for i := 0; i < len(l); i++ {
							if l[i] == 0 {
								l = append(l[:i], l[i+1:]...)
							}
						}
						l = oncePerVar(l, append(append([]int{}, lx...), ly...))
					}
					okc(fk, ctx, per([]int{1, 5, 100}[kind], head, " ", "\n", "v 0\n")(l), []query.QVar{"x", "y"}, []inst{v, u})
				}
			}
		})
	}
	// numbers below other names, scoped names
	r.Case(func() string { return "interleaved numbering" }, func() {
		fk := newFake(r)
		for s := 0; s < 6; s++ {
			ctx := query.BasicQContext(mkModel(3, leafT, 0))
			for i := 2; i >= 0; i-- {
				for _, k := range perms[s] {
					ctx.CNFVar("x", i, k)
					ctx.CNFVar("x1", i, k)
					ctx.CNFVar("x", k, i+3)
				}
			}
			for _, v := range allInst(3)[:9] {
				u := inst{v[2], v[1], O}
				okc(fk, ctx, head+vline(append(litsOf(ctx, "x1", u), litsOf(ctx, "x", v)...)), []query.QVar{"x", "x1"}, []inst{v, u})
			}
		}
	})
	// incomplete output: an error, or the right values if all that matters is
	// still there
	for _, v := range []inst{{B, Z, O}, {O, O, B}, {Z, B, Z}} {
		for _, n := range []int{1, 4, 100} {
			v, n := v, n
			r.Case(func() string { return fmt.Sprintf("incomplete output for %s, %d per line", istr(v), n) }, func() {
				fk := newFake(r)
				for oi, ord := range orders {
					ctx := valCtx(3, "y", "x")
					u := inst{O, B, Z}
					l := ord(append(litsOf(ctx, "y", u), litsOf(ctx, "x", v)...))
					pos := map[int]bool{}
					for i, f := range v {
						pos[ctx.CNFVar("x", i, int(f))] = true
					}
					try := func(ls []int, what string) {
						out := per(n, head, " ", "\n", "")(ls)
						have := 0
						for _, x := range ls {
							if pos[x] {
								have++
							}
						}
						got, err := ask(fk, ctx, out, "x")
						r.Eval(have < 3)
						if have < 3 && err == nil {
							Failf("%s: output %.300q leaves %d features of x open; values %v and no error", what, out, 3-have, got)
						}
						if err == nil && (len(got) != 1 || !ieq(got[0].Val, v)) {
							Failf("%s: output %.300q: values %v, want %s", what, out, got, istr(v))
						}
						if err != nil && len(ls) == len(l) {
							Failf("%s: output %.300q: error %v", what, out, err)
						}
					}
					for k := 0; k <= len(l); k++ {
						if k%2 == oi%2 || k > 12 || r.Thorough() {
							try(l[:k], "truncated")
						}
					}
					for k := range l {
						if pos[l[k]] {
							try(append(append([]int{}, l[:k]...), l[k+1:]...), "literal left out")
							neg := append([]int{}, l...)
							neg[k] = -neg[k]
							out := per(n, head, " ", "\n", "v 0\n")(neg)
							got, err := ask(fk, ctx, out, "x")
							r.Eval(true)
							if err == nil {
								Failf("all values of a feature false in %.300q: values %v and no error", out, got)
							}
						}
					}
				}
			})
		}
	}
	r.Case(func() string { return "other incomplete outputs" }, func() {
		fk := newFake(r)
		for _, out := range []string{"", "\n", "s SATISFIABLE\n", "c v 1 2 3 0\n", "s SATISFIABLE\nv 0\n", "v\n", "v \n", "v", "s SATISFIABLE\nv -1 -2 -3 -4 -5 -6 0\n", "v 1- 5 0\n", "v 0x1 5 0\n", "v 99999999999999999999 0\n"} {
			ctx := valCtx(2, "x")
			got, err := ask(fk, ctx, out, "x")
			r.Eval(true)
			if err == nil {
				Failf("output %q: values %v and no error", out, got)
			}
		}
		ctx := valCtx(2, "x")
		out := head + vline(litsOf(ctx, "x", inst{O, Z}))
		if got, err := ask(fk, ctx, out, "x", "unknown"); err == nil {
			Failf("a variable that is not in the formula: values %v and no error", got)
		}
		ctx = valCtx(2, "x")
		if got, err := ask(fk, ctx, out); err != nil || len(got) != 0 {
			Failf("no variable asked for: %v %v", got, err)
		}
		// repeated retrieval
		fk.script(fakeStep{Exit: 10, Stdout: out})
		s := fk.solver()
		if err := s.Step(q, ctx); err != nil {
			Failf("step: %v", err)
		}
		for i := 0; i < 3; i++ {
			got, err := s.Values(x, ctx)
			r.Eval(true)
			if err != nil || len(got) != 1 || !ieq(got[0].Val, inst{O, Z}) {
				Failf("retrieval %d: %v %v", i+1, got, err)
			}
			got[0].Val[0] = B // the caller's to change
		}
		// without any step
		if got, err := fk.solver().Values(x, valCtx(2, "x")); err == nil {
			Failf("values %v without a step", got)
		}
	})
}

// ---------- M03 ----------

func listing(dirs ...string) string {
	var out []string
	for _, d := range dirs {
		filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
			if err == nil {
				s := p
				if !i.IsDir() {
					s += fmt.Sprintf(" %d", i.Size())
				}
				out = append(out, s)
			}
			return nil
		})
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func m03(r *Run) { leftovers(r, false) }

// leftovers runs solver steps and optimum computations with every ending and
// compares before and after: the files in the temporary and the working
// directory, or (res) the descriptors, children and goroutines of the process.
func leftovers(r *Run, res bool) {
	t := allTrees(2)[40]
	m := mkModel(2, t, 0)
	k := inst{Z, O}
	p, o := propsOf(k)[2], ordersOf(k, 2)[0]
	// setup gives the step a directory of its own for temporary files with a
	// few files in it, and a working directory
	n := 0
	around := func(what string, fk *fake, f func()) {
		n++
		base := filepath.Join(r.tmp, fmt.Sprintf("tf%d", n))
		tmp, cwd := filepath.Join(base, "tmp"), filepath.Join(base, "cwd")
		os.MkdirAll(tmp, 0o755)
		os.MkdirAll(cwd, 0o755)
		os.WriteFile(filepath.Join(tmp, "tmp.cnf"), []byte("mine"), 0o644)
		os.WriteFile(filepath.Join(tmp, "tmp.cnf123"), []byte("mine"), 0o644)
		os.WriteFile(filepath.Join(cwd, "tmp.cnf"), []byte("mine"), 0o644)
		oldT := os.Getenv("TMPDIR")
		oldW, _ := os.Getwd()
		os.Setenv("TMPDIR", tmp)
		os.Chdir(cwd)
		before := listing(tmp, cwd)
		var rb resources
		if res {
			rb = countResources()
		}
		func() {
			defer func() { os.Setenv("TMPDIR", oldT); os.Chdir(oldW) }()
			f()
		}()
		r.Eval(true)
		if res {
			rb.unchanged(what)
			os.RemoveAll(base)
			r.Sample(func() string { return what })
			return
		}
		if after := listing(tmp, cwd); after != before {
			Failf("%s: files before:\n%s\nafter:\n%s", what, before, after)
		}
		for _, x := range []string{filepath.Join(tmp, "tmp.cnf"), filepath.Join(tmp, "tmp.cnf123"), filepath.Join(cwd, "tmp.cnf")} {
			if b, _ := os.ReadFile(x); string(b) != "mine" {
				Failf("%s: %s was changed", what, x)
			}
		}
		if l := listing(fk.dir); strings.Contains(l, "tmp") && !strings.Contains(fk.dir, "tmp") {
			Failf("%s: file left beside the solver: %s", what, l)
		}
		os.RemoveAll(base)
		r.Sample(func() string { return what })
	}
	sat := "s SATISFIABLE\n"
	outcomes := []fakeStep{{Exit: 10, Stdout: sat}, {Exit: 20}, {Exit: 0}, {Exit: 1, Stderr: "x"}, {Exit: 127}, {Exit: 255}, {Signal: 9}, {Signal: 15}, {Signal: 6}, {Solve: "false"}, {Exit: 10, Stdout: strings.Repeat("c x\n", 40000)}}
	for oi, oc := range outcomes {
		oi, oc := oi, oc
		r.Case(func() string { return fmt.Sprintf("solver outcome %d", oi) }, func() {
			fk := newFake(r)
			for qi, q := range []enc{trivQ(true), trivQ(false), with("x", p.f("x")).build(), rawQ{mustF(n04Formula(7))}} {
				for steps := 1; steps <= 3; steps++ {
					fk.script(oc)
					around(fmt.Sprintf("%d steps, outcome %d, query %d", steps, oi, qi), fk, func() {
						s := fk.solver()
						for i := 0; i < steps; i++ {
							ctx := query.BasicQContext(m)
							s.Step(q, ctx)
							s.Values([]query.QVar{"x"}, ctx)
						}
					})
				}
				fk.script(oc)
				around(fmt.Sprintf("atoms and combinators, outcome %d, query %d", oi, qi), fk, func() {
					a := compute.QDTFAtom{Query: q, Negated: qi%2 == 0}
					compute.OrCombinator{compute.AndCombinator{a, a}, a}.Sat(query.BasicQContext(m), fk.solver())
				})
			}
		})
		r.Case(func() string { return fmt.Sprintf("optimum, failing with outcome %d at each call", oi) }, func() {
			fk := newFake(r)
			for at := 0; at < 4; at++ {
				for pi := range propsOf(k) {
					var st []fakeStep
					for i := 0; i < at; i++ {
						st = append(st, fakeStep{Solve: "alt"})
					}
					if oc.Exit == 10 {
						// as the last outcome it would repeat for ever only if values could
						// be read, which they cannot
						st = append(st, oc, fakeStep{Exit: 1})
					} else {
						st = append(st, oc)
					}
					fk.script(st...)
					pp := propsOf(k)[pi]
					around(fmt.Sprintf("optimum of %s, outcome %d at call %d", pp.name, oi, at+1), fk, func() {
						compute.ComputeOptim(fgOf(pp), ogOf(o), "x", query.BasicQContext(m), fk.solver())
					})
				}
			}
		})
	}
	// every ending of the process with every kind of output, once and twice
	type ending struct{ exit, sig int }
	var ends []ending
	for _, e := range []int{10, 20, 0, 1, 2, 3, 30, 99, 124, 126, 127, 128, 134, 137, 139, 255} {
		ends = append(ends, ending{e, 0})
	}
	for _, g := range []int{1, 2, 6, 9, 11, 13, 14, 15} {
		ends = append(ends, ending{0, g})
	}
	outs := []string{"", sat, "s UNSATISFIABLE\n", "v 0\n", "v 1 2 3 0", "garbage", "\n", "s UNKNOWN\nc out of memory\n"}
	for ei, e := range ends {
		e := e
		if ei >= 10 && !r.Thorough() {
			continue
		}
		r.Case(func() string { return fmt.Sprintf("exit %d signal %d with every kind of output", e.exit, e.sig) }, func() {
			fk := newFake(r)
			for _, out := range outs {
				for _, serr := range []string{"", "error: x\n"} {
					for _, second := range []fakeStep{{Solve: "true"}, {Exit: 10}, {Exit: 20}, {Exit: 1}} {
						if !r.Deep() && (serr != "") != (second.Exit == 1) {
							continue
						}
						oc := fakeStep{Exit: e.exit, Signal: e.sig, Stdout: out, Stderr: serr}
						for _, st := range [][]fakeStep{{oc, second}, {second, oc}} {
							fk.script(st...)
							around(fmt.Sprintf("steps %+v", st), fk, func() {
								s := fk.solver()
								for range st {
									ctx := query.BasicQContext(m)
									s.Step(with("x", p.f("x")).build(), ctx)
									s.Values([]query.QVar{"x"}, ctx)
								}
							})
						}
					}
				}
			}
		})
	}
	r.Case(func() string { return "encoding errors" }, func() {
		fk := newFake(r)
		fk.script(fakeStep{Solve: "true"})
		around("step on a failing query", fk, func() {
			s := fk.solver()
			for i := 0; i < 3; i++ {
				s.Step(errQ{errPlanted}, query.BasicQContext(m))
				s.Step(with("x", not(atom(kSub, va("x"), ca(inst{O})))).build(), query.BasicQContext(m))
			}
		})
		for at := 1; at <= 3; at++ {
			at := at
			around(fmt.Sprintf("optimum, property failing at use %d", at), fk, func() {
				c := 0
				compute.ComputeOptim(func(v query.QVar) compute.Encodable {
					if c++; c >= at {
						return errQ{errPlanted}
					}
					return p.f(string(v)).build()
				}, ogOf(o), "x", query.BasicQContext(m), fk.solver())
			})
			around(fmt.Sprintf("optimum, order failing at use %d", at), fk, func() {
				c := 0
				compute.ComputeOptim(fgOf(p), func(v query.QVar, b query.QConst) compute.Encodable {
					if c++; c >= at {
						return errQ{errPlanted}
					}
					return o.f(string(v), b.Val).build()
				}, "x", query.BasicQContext(m), fk.solver())
			})
			around(fmt.Sprintf("optimum, in-process solver failing at call %d", at), fk, func() {
				compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), &inproc{hook: func(n int) error {
					if n == at {
						return errPlanted
					}
					return nil
				}})
			})
		}
	})
	r.Case(func() string { return "solver removed" }, func() {
		for _, f := range []string{"step", "optimum"} {
			fk := newFake(r)
			fk.script(fakeStep{Solve: "true"})
			s := fk.solver()
			os.Remove(fk.path)
			around("solver removed, "+f, fk, func() {
				if f == "step" {
					s.Step(trivQ(true), query.BasicQContext(m))
				} else {
					compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), s)
				}
			})
		}
	})
	r.Case(func() string { return "writing fails at some byte" }, func() {
		fk := newFake(r)
		fk.script(fakeStep{Solve: "true"})
		ignoreXFSZ()
		for _, lim := range []uint64{0, 1, 5, 20, 63, 64, 100, 300} {
			around(fmt.Sprintf("file size limit %d", lim), fk, func() {
				fileLimit(lim, func() {
					fk.solver().Step(with("x", p.f("x")).build(), query.BasicQContext(m))
				})
			})
			around(fmt.Sprintf("file size limit %d, optimum", lim), fk, func() {
				fileLimit(lim, func() {
					compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), fk.solver())
				})
			})
		}
	})
	r.Case(func() string { return "temporary directory missing" }, func() {
		fk := newFake(r)
		fk.script(fakeStep{Solve: "true"})
		around("temporary directory missing", fk, func() {
			os.Setenv("TMPDIR", filepath.Join(r.tmp, "not-there"))
			fk.solver().Step(trivQ(true), query.BasicQContext(m))
			compute.ComputeOptim(fgOf(p), ogOf(o), "x", query.BasicQContext(m), fk.solver())
			if _, err := os.Stat(filepath.Join(r.tmp, "not-there")); err == nil {
				Failf("a missing temporary directory was created and left")
			}
		})
	})
}

func mustF(f cnf.CNF, _, _ []cls) cnf.CNF { return f }

func ignoreXFSZ() { signalIgnore(syscall.SIGXFSZ) }

func fileLimit(n uint64, f func()) {
	var inf syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &inf)
	l := inf
	l.Cur = n
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &inf)
	f()
}

func init() {
	register(&checkDef{id: "M01", level: "fault_enumeration", rule: "One evaluation is one run of a step, atom or combinator against a scripted solver process (exit status x output x prior history x form of use), a start failure, a sequence of outcomes, or a formula as read by the solver process. Non-trivial: anything but a first step ending in 10 or 20.", fn: m01})
	register(&checkDef{id: "M02", level: "exploration", rule: "One evaluation is one solver output read back through Step and Values. Non-trivial: outputs with a value line that is complete and laid out as said, or incomplete.", fn: m02})
	register(&checkDef{id: "M03", level: "fault_enumeration", rule: "One evaluation is one ending of a step or optimum computation with the directories listed before and after. All are non-trivial.", fn: m03})
}
