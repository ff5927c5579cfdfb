package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// ---------- M10 ----------

// surround is what a solver process finds around it.
type surround struct {
	Env     []string `json:"env"`
	Dir     string   `json:"dir"`
	Args    []string `json:"args"`
	Stdin   []byte   `json:"stdin"`
	Formula string   `json:"formula"`
}

// caller is the state of this process that a step must not change.
type caller struct {
	env, dir string
	umask    int
	rlimits  string
}

func callerNow() caller {
	var c caller
	e := os.Environ()
	sort.Strings(e)
	c.env = strings.Join(e, "\x00")
	c.dir, _ = os.Getwd()
	c.umask = syscall.Umask(0)
	syscall.Umask(c.umask)
	for _, l := range []int{syscall.RLIMIT_CPU, syscall.RLIMIT_FSIZE, syscall.RLIMIT_NOFILE, syscall.RLIMIT_AS, syscall.RLIMIT_STACK, syscall.RLIMIT_CORE} {
		var v syscall.Rlimit
		syscall.Getrlimit(l, &v)
		c.rlimits += fmt.Sprint(v, " ")
	}
	return c
}

// streams replaces the standard streams of this process by files while f
// runs, and returns what f left unread and wrote.
func streams(dir, input string, f func()) (rest, out, errs string) {
	var saved [3]int
	var files [3]*os.File
	for i := range files {
		x, err := os.OpenFile(filepath.Join(dir, fmt.Sprint("stream", i)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			panic(err)
		}
		files[i] = x
	}
	files[0].WriteString(input)
	files[0].Seek(0, io.SeekStart)
	for i := range files {
		n, err := syscall.Dup(i)
		if err != nil {
			panic(err)
		}
		syscall.CloseOnExec(n)
		saved[i] = n
		if err := syscall.Dup2(int(files[i].Fd()), i); err != nil {
			panic(err)
		}
	}
	defer func() {
		for i := range saved {
			syscall.Dup2(saved[i], i)
			syscall.Close(saved[i])
		}
		b, _ := io.ReadAll(files[0])
		rest = string(b)
		for i, to := range []*string{nil, &out, &errs} {
			if to != nil {
				files[i].Seek(0, io.SeekStart)
				b, _ := io.ReadAll(files[i])
				*to = string(b)
			}
			files[i].Close()
		}
	}()
	f()
	return
}

func m10(r *Run) {
	base := r.tmp
	for _, d := range []string{"wd", "wd/tmp", "other dir", "other dir/tmp"} {
		os.MkdirAll(filepath.Join(base, d), 0o755)
	}
	home, _ := os.Getwd()
	oldTmp := os.Getenv("TMPDIR")
	envs := []struct {
		name string
		set  [][2]string
	}{
		{"as it is", nil},
		{"further variables", [][2]string{{"MC_A", "1"}, {"MC_B", ""}, {"MC_C", "a=b c"}, {"LC_ALL", "xx_YY"}}},
		{"an empty PATH", [][2]string{{"PATH", ""}}},
		{"a variable of many lines", [][2]string{{"MC_LINES", "a\nMC_X=b\n\tc"}, {"LD_LIBRARY_PATH", "/nowhere:."}}},
		{"a relative TMPDIR", [][2]string{{"TMPDIR", "tmp"}}},
		{"a relative TMPDIR, not clean", [][2]string{{"TMPDIR", "./tmp/../tmp/"}, {"MC_A", "2"}}},
	}
	outcomes := []string{"satisfiable", "unsatisfiable", "other status", "signal", "missing program", "encoding error"}
	fm := cnf.FromClauses([]cls{{1, 2}, {-3}}).AppendConsistency(cls{2, 3})
	text := string(fm.ToBytes())
	bad := errors.New("mc: no encoding")
	length := 3
	if r.Deep() {
		length = 4
	}
	idx := make([]int, length)
	for {
		h := append([]int{}, idx...)
		for _, e := range envs {
			for _, wd := range []string{"wd", "other dir"} {
				for via := 0; via < 2; via++ {
					via, e, wd := via, e, wd
					r.Case(func() string {
						return fmt.Sprintf("outcomes %v, environment: %s, directory %s, way %d", h, e.name, wd, via)
					}, func() {
						fk := newFakeIn(filepath.Join(base, "solver"))
						gone := newFakeIn(filepath.Join(base, "gone"))
						sv, sg := fk.solver(), gone.solver()
						os.Remove(gone.path)
						report := filepath.Join(base, "report")
						if err := os.Chdir(filepath.Join(base, wd)); err != nil {
							panic(err)
						}
						var unset []string
						restore := map[string]string{}
						for _, kv := range e.set {
							if old, ok := os.LookupEnv(kv[0]); ok {
								restore[kv[0]] = old
							} else {
								unset = append(unset, kv[0])
							}
							os.Setenv(kv[0], kv[1])
						}
						defer func() {
							os.Chdir(home)
							for _, k := range unset {
								os.Unsetenv(k)
							}
							for k, v := range restore {
								os.Setenv(k, v)
							}
							os.Setenv("TMPDIR", oldTmp)
						}()
						for k, o := range h {
							what := func() string {
								return fmt.Sprintf("environment: %s, directory %q, outcomes %v, step %d (%s)", e.name, wd, h, k+1, outcomes[o])
							}
							os.Remove(report)
							s := sv
							st := fakeStep{Report: report, Stdout: "s SATISFIABLE\nv -1 -2 3 0\n", Stderr: "note\n", Exit: 10}
							q := compute.Encodable(rawQ{fm})
							switch o {
							case 1:
								st.Exit = 20
							case 2:
								st.Exit = 1
							case 3:
								st.Signal = 9
							case 4:
								s = sg
							case 5:
								q = errQ{bad}
							}
							fk.script(st)
							before := callerNow()
							const input = "input of the caller\n"
							var err error
							rest, out, errs := streams(base, input, func() {
								ctx := query.BasicQContext(model{dim: 1})
								if via == 0 {
									err = s.Step(q, ctx)
								} else {
									var sat bool
									sat, err = compute.QDTFAtom{Query: q}.Sat(ctx, s)
									if err == nil && !sat {
										err = compute.UnsatError
									}
								}
								if err == nil {
									s.Values([]query.QVar{"x"}, ctx)
								}
							})
							r.Eval(true)
							if now := callerNow(); now != before {
								Failf("%s: the step changed the process: before %v, after %v", what(), before, now)
							}
							if rest != input {
								Failf("%s: of the caller's input only %q is left", what(), rest)
							}
							if out != "" || errs != "" {
								Failf("%s: written to the caller's output %q and error output %q", what(), out, errs)
							}
							want := []string{"satisfiable", "unsatisfiable", "error", "error", "error", "error"}[o]
							if got := verdict(err); got != want {
								Failf("%s: %s (%v), want %s", what(), got, err, want)
							}
							b, rerr := os.ReadFile(report)
							if o >= 4 {
								if rerr == nil {
									Failf("%s: the solver was run", what())
								}
								continue
							}
							var sr surround
							if rerr != nil || json.Unmarshal(b, &sr) != nil {
								Failf("%s: the solver was not run (%v)", what(), rerr)
							}
							have := map[string]bool{}
							for _, x := range sr.Env {
								have[x] = true
							}
							for _, x := range os.Environ() {
								if !have[x] && !strings.HasPrefix(x, "PWD=") {
									Failf("%s: the solver runs without the caller's %.80q", what(), x)
								}
							}
							if d, _ := os.Getwd(); d != sr.Dir {
								Failf("%s: the solver runs in %q, the caller in %q", what(), sr.Dir, d)
							}
							if len(sr.Stdin) != 0 {
								Failf("%s: the solver is given input %q", what(), sr.Stdin)
							}
							if len(sr.Args) != 1 {
								Failf("%s: the solver is given arguments %q", what(), sr.Args)
							}
							if err := dimacsMatches([]byte(sr.Formula), []cls{{1, 2}, {-3}}, []cls{{2, 3}}); err != nil {
								Failf("%s: the solver finds %.200q, not %q: %v", what(), sr.Formula, text, err)
							}
							r.Sample(func() string { return what() + ": solver and caller as required" })
						}
					})
				}
			}
		}
		if !inc(idx, len(outcomes)) {
			return
		}
	}
}

func init() {
	register(&checkDef{id: "M10", level: "fault_enumeration", rule: "One evaluation is one solver step in a history of outcomes, in one surrounding (environment, working directory); the solver process reports what it finds around it, and the state of the calling process and its standard streams are compared. All are non-trivial.", fn: m10})
}
