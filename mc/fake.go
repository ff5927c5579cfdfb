package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"github.com/jtcaraball/goexpdt/compute"
)

// The fake solver: this binary under the name "fakesolver". It reads the
// script beside its own path: a list of steps, one per call.

type fakeStep struct {
	Exit   int    `json:"exit"`
	Signal int    `json:"signal"`
	Stdout string `json:"stdout"`
	Stderr string `json:"stderr"`
	Solve  string `json:"solve"` // "false", "true", "alt": solve the formula with this phase
	Log    bool   `json:"log"`
	Sleep  int    `json:"sleep"`  // milliseconds, before anything is printed
	Flood  int    `json:"flood"`  // bytes of comments to both outputs, before and after
	Cut    int    `json:"cut"`    // a pause in printing after so many bytes; -1: after each
	Report string `json:"report"` // write a surround to this file
	Wait   string `json:"wait"`   // block until this file exists
	// announce the start by making a file; then, after solving, make a second
	// one and block until a third exists
	Started string `json:"started"`
	Solved  string `json:"solved"`
	Finish  string `json:"finish"`
}

type fake struct {
	dir  string
	path string
}

func newFake(r *Run) *fake { return newFakeIn(filepath.Join(r.tmp, "solver")) }

func newFakeIn(dir string) *fake {
	os.MkdirAll(dir, 0o755)
	self, _ := os.Executable()
	p := filepath.Join(dir, "fakesolver")
	os.Remove(p)
	if err := os.Symlink(self, p); err != nil {
		panic(err)
	}
	return &fake{dir, p}
}

// script sets the steps; the last one repeats.
func (f *fake) script(steps ...fakeStep) {
	b, _ := json.Marshal(steps)
	if err := os.WriteFile(filepath.Join(f.dir, "script"), b, 0o644); err != nil {
		panic(err)
	}
	os.Remove(filepath.Join(f.dir, "count"))
	os.Remove(filepath.Join(f.dir, "log"))
	os.Remove(filepath.Join(f.dir, "args"))
}

func (f *fake) solver() compute.Solver {
	s, err := compute.BinSolver(f.path)
	if err != nil {
		Failf("BinSolver on an existing executable: %v", err)
	}
	return s
}

func (f *fake) calls() int {
	b, err := os.ReadFile(filepath.Join(f.dir, "count"))
	if err != nil {
		return 0
	}
	return len(b)
}

// seen returns the content of the formula files given in the logged calls.
func (f *fake) seen() []byte {
	b, _ := os.ReadFile(filepath.Join(f.dir, "log"))
	return b
}

func fakeSolverMain() {
	dir := filepath.Dir(os.Args[0])
	die := func(m string) {
		fmt.Fprintln(os.Stderr, "fakesolver:", m)
		os.Exit(99)
	}
	var steps []fakeStep
	b, err := os.ReadFile(filepath.Join(dir, "script"))
	if err != nil {
		die(err.Error())
	}
	if err := json.Unmarshal(b, &steps); err != nil || len(steps) == 0 {
		die("bad script")
	}
	cf, err := os.OpenFile(filepath.Join(dir, "count"), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
	k := 0
	if err == nil {
		st, _ := cf.Stat()
		k = int(st.Size())
		cf.Write([]byte("x"))
		cf.Close()
	}
	if k >= len(steps) {
		k = len(steps) - 1
	}
	s := steps[k]
	if s.Log {
		form := []byte("(no formula file)")
		if len(os.Args) > 1 {
			if x, err := os.ReadFile(os.Args[len(os.Args)-1]); err == nil {
				form = x
			}
		}
		os.WriteFile(filepath.Join(dir, "log"), form, 0o644)
		a, _ := json.Marshal(os.Args[1:])
		os.WriteFile(filepath.Join(dir, "args"), a, 0o644)
	}
	if s.Report != "" {
		wd, _ := os.Getwd()
		in, _ := io.ReadAll(os.Stdin)
		form := "(none)"
		if len(os.Args) == 2 {
			if x, err := os.ReadFile(os.Args[1]); err == nil {
				form = string(x)
			}
		}
		j, _ := json.Marshal(surround{Env: os.Environ(), Dir: wd, Args: os.Args[1:], Stdin: in, Formula: form})
		os.WriteFile(s.Report, j, 0o644)
	}
	mark := func(p string) {
		if p != "" {
			os.WriteFile(p, nil, 0o644)
		}
	}
	await := func(p string) {
		for i := 0; p != "" && i < 300000; i++ {
			if _, err := os.Stat(p); err == nil {
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	mark(s.Started)
	await(s.Wait)
	time.Sleep(time.Duration(s.Sleep) * time.Millisecond)
	flood := func() {
		l := []byte("c " + string(bytes.Repeat([]byte("progress "), 14)) + "\n")
		for n := 0; n < s.Flood; n += len(l) {
			os.Stderr.Write(l)
			os.Stdout.Write(l)
		}
	}
	flood()
	if s.Solve != "" {
		form, err := os.ReadFile(os.Args[len(os.Args)-1])
		if err != nil {
			die(err.Error())
		}
		v, _, cs, err := parseDIMACS(form)
		if err != nil {
			die(err.Error())
		}
		sv := newSat(v, cs)
		for i := range sv.phase {
			switch s.Solve {
			case "true":
				sv.phase[i] = 1
			case "alt":
				if i%2 == 0 {
					sv.phase[i] = 1
				}
			}
		}
		sat := sv.solve()
		mark(s.Solved)
		await(s.Finish)
		if !sat {
			fmt.Print("c fake\ns UNSATISFIABLE\n")
			os.Exit(20)
		}
		var o bytes.Buffer
		o.WriteString("c fake\ns SATISFIABLE\nv")
		n := 0
		for i := 1; i <= v; i++ {
			l := strconv.Itoa(i)
			if !sv.model(i) {
				l = "-" + l
			}
			o.WriteString(" " + l)
			if n++; n%11 == 0 {
				o.WriteString("\nv")
			}
		}
		o.WriteString(" 0\n")
		os.Stdout.Write(o.Bytes())
		os.Exit(10)
	}
	mark(s.Solved)
	await(s.Finish)
	for s.Cut != 0 && len(s.Stdout) > 0 {
		n := min(max(s.Cut, 1), len(s.Stdout))
		os.Stdout.WriteString(s.Stdout[:n])
		s.Stdout = s.Stdout[n:]
		if s.Cut > 0 {
			s.Cut = 0
		}
		time.Sleep(300 * time.Microsecond)
	}
	os.Stdout.WriteString(s.Stdout)
	flood()
	os.Stderr.WriteString(s.Stderr)
	if s.Signal != 0 {
		// through a shell: the Go runtime has handlers of its own
		syscall.Exec("/bin/sh", []string{"sh", "-c", fmt.Sprintf("ulimit -c 0; kill -%d $$", s.Signal)}, os.Environ())
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	os.Exit(s.Exit)
}
