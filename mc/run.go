package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/jtcaraball/goexpdt/query"
)

// A check enumerates its cases deterministically through Run.Case. The parent
// process re-executes itself as shard processes that each run the cases whose
// index is theirs; a failing case is identified by its index and key.

type checkDef struct {
	id       string
	level    string // evidence level
	rule     string
	assume   []string
	fn       func(*Run)
	single   bool // one shard only
	maxprocs int  // GOMAXPROCS of a shard (default 1)
	extra    func(tier string) (string, error)
}

var checks = map[string]*checkDef{}

func register(c *checkDef) { checks[c.id] = c }

type Run struct {
	ID, Tier  string
	shard, n  int
	only      int64 // run only this case if >= 0
	upto      int64
	idx       int64
	C         map[string]int64
	samples   []string
	states    map[uint64]struct{}
	known     map[string]string
	newCtx    func(m model) query.QContext // nil for the package's own
	guardVals int
	deadline  time.Time
	cut       bool
	prog      []byte
	start     time.Time
	tmp       string
	curKey    func() string
	ticks     int
}

type failure struct{ msg string }

type caseResult struct {
	Idx int64  `json:"case"`
	Key string `json:"key"`
	Msg string `json:"what"`
}

type shardResult struct {
	Done      bool              `json:"done"`
	Violation *caseResult       `json:"violation,omitempty"`
	Counters  map[string]int64  `json:"counters"`
	Samples   []string          `json:"samples"`
	Known     map[string]string `json:"known"`
	Cut       bool              `json:"cut"`
	Cases     int64             `json:"cases"`
	Broken    string            `json:"broken,omitempty"`
}

// Thorough: the larger of the two spaces. Checks that explore it in a minute
// use it in the quick tier too and have a third one for the thorough tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" || promoted[r.ID] }

// Deep: the largest space.
func (r *Run) Deep() bool { return r.Tier == "thorough" }

var promoted = map[string]bool{}

func init() {
	for _, id := range strings.Fields("S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 N03 S11 S12 N01 N02 N04 N05 K03 K04 K05 I01 E01 M01 M02 M03 M04 M05 M06 M07 M08 M09") {
		promoted[id] = true
	}
}

// Tick notes progress within a case: the limits on time hold between two.
func (r *Run) Tick() {
	if r.ticks++; r.ticks&7 == 0 {
		atomic.AddInt64(&beat, 1)
	}
}

func (r *Run) Add(k string, n int64) { r.C[k] += n }

// Eval counts one evaluation of the property; nontrivial as the rule defines.
func (r *Run) Eval(nontrivial bool) {
	r.C["evaluations"]++
	r.Tick()
	if nontrivial {
		r.C["distinct_nontrivial"]++
	}
}

func (r *Run) Sample(f func() string) {
	if len(r.samples) < 6 && (r.C["evaluations"] >= r.C["__nexts"] || len(r.samples) == 0) {
		r.samples = append(r.samples, f())
		r.C["__nexts"] = r.C["evaluations"]*4 + 10
	}
}

func (r *Run) State(h uint64) bool {
	if _, ok := r.states[h]; ok {
		return false
	}
	r.states[h] = struct{}{}
	return true
}

// hstr and hint extend a hash (FNV-1a).
func hstr(h uint64, s string) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}

func hint(h uint64, x int) uint64 {
	if h == 0 {
		h = 14695981039346656037
	}
	for i := 0; i < 8; i++ {
		h = (h ^ uint64(x>>(8*i))&0xff) * 1099511628211
	}
	return h
}

// Known records that a listed finding was observed.
func (r *Run) Known(id, what string) {
	if _, ok := r.known[id]; !ok {
		b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
		if !strings.Contains(string(b), "\nknown: property="+r.ID+" "+id+":") {
			Failf("%s (not a listed finding)", what)
		}
		r.known[id] = what
	}
	r.C["known_finding_hits"]++
}

// Failf reports a violation of the property in the current case.
func Failf(format string, a ...any) {
	panic(failure{fmt.Sprintf(format, a...)})
}

type caseDone struct{}
type stopRun struct{}

// Case runs f if the case belongs to this shard.
func (r *Run) Case(key func() string, f func()) {
	i := r.idx
	r.idx++
	if r.only >= 0 {
		if i > r.only {
			panic(stopRun{})
		}
		if i != r.only {
			return
		}
	} else if int(i%int64(r.n)) != r.shard {
		return
	}
	if r.upto >= 0 && i > r.upto {
		panic(stopRun{})
	}
	if r.cut || (i>>3)%16 == 0 && time.Now().After(r.deadline) {
		r.cut = true
		panic(stopRun{})
	}
	if r.prog != nil {
		binary.LittleEndian.PutUint64(r.prog, uint64(i)+1)
		atomic.AddInt64(&beat, 1)
	}
	r.curKey = key
	r.guardVals = 0
	r.C["cases"]++
	c0 := cpuNow()
	defer func() {
		if d := int64((cpuNow() - c0) / time.Millisecond); d > 10000 && os.Getenv("MC_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "SLOW", d, key())
		}
		if d := int64((cpuNow() - c0) / time.Millisecond); d > r.C["max_case_ms"] {
			r.C["max_case_ms"] = d
		}
	}()
	func() {
		defer func() {
			e := recover()
			switch x := e.(type) {
			case nil:
			case failure:
				panic(caseResult{i, key(), x.msg})
			case caseResult, stopRun:
				panic(e)
			case caseDone:
			default:
				st := string(debug.Stack())
				// keep the frames below the panic
				if k := strings.Index(st, "panic("); k >= 0 {
					st = st[k:]
				}
				if len(st) > 1800 {
					st = st[:1800]
				}
				panic(caseResult{i, key(), fmt.Sprintf("panic: %v\n%s", e, st)})
			}
		}()
		f()
	}()
}

var beat int64

// ---------- child ----------

const (
	caseCPU  = 45 * time.Second
	caseWall = 200 * time.Second
	heapMax  = 3 << 30
)

func childMain(args []string) {
	// child ID TIER SHARD N ONLY UPTO OUT TMP
	id, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	only, _ := strconv.ParseInt(args[4], 10, 64)
	upto, _ := strconv.ParseInt(args[5], 10, 64)
	out, tmp := args[6], args[7]
	dl, _ := strconv.ParseInt(args[8], 10, 64)
	def := checks[id]
	mp := def.maxprocs
	if mp == 0 {
		mp = 1
	}
	runtime.GOMAXPROCS(mp)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	debug.SetMaxStack(512 << 20)
	r := &Run{ID: id, Tier: tier, shard: shard, n: n, only: only, upto: upto,
		C: map[string]int64{}, states: map[uint64]struct{}{}, known: map[string]string{},
		deadline: time.Unix(dl, 0), start: time.Now(), tmp: tmp}
	res := &shardResult{}
	write := func() {
		res.Counters, res.Samples, res.Known, res.Cut, res.Cases = r.C, r.samples, r.known, r.cut, r.idx
		b, _ := json.Marshal(res)
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	if f, err := os.OpenFile(out+".prog", os.O_RDWR|os.O_CREATE, 0o644); err == nil {
		f.Truncate(8)
		if m, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			r.prog = m
		}
		f.Close()
	} else {
		r.prog = make([]byte, 8)
	}
	go watchdog(out)
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case caseResult:
				res.Violation = &x
			case stopRun:
			case failure: // outside any case: an error of the harness itself
				res.Broken = x.msg
			default:
				res.Broken = fmt.Sprintf("harness panic: %v\n%s", x, debug.Stack())
			}
		}()
		def.fn(r)
	}()
	res.Done = true
	sb := new(bytes.Buffer)
	for h := range r.states {
		binary.Write(sb, binary.LittleEndian, h)
	}
	os.WriteFile(out+".states", sb.Bytes(), 0o644)
	write()
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watchdog(out string) {
	last := atomic.LoadInt64(&beat)
	t0, c0 := time.Now(), cpuNow()
	for {
		time.Sleep(500 * time.Millisecond)
		b := atomic.LoadInt64(&beat)
		if b != last || b == 0 {
			last, t0, c0 = b, time.Now(), cpuNow()
		}
		var ms runtime.MemStats
		if time.Since(t0) > 2*time.Second {
			runtime.ReadMemStats(&ms)
		}
		why := ""
		if ms.HeapAlloc > heapMax {
			why = "the case needs more than 3 GiB of memory"
		} else if cpuNow()-c0 > caseCPU {
			why = "the case does not terminate (45 s of processor time)"
		} else if time.Since(t0) > caseWall {
			why = "the case makes no progress (200 s)"
		}
		if why != "" {
			os.WriteFile(out+".dog", []byte(why), 0o644)
			os.Exit(97)
		}
	}
}

// ---------- parent ----------

type shardRun struct {
	res    *shardResult
	crash  string // non-empty: died; tail of stderr
	lastIx int64
	dog    string
	states []byte
}

func runShard(id, tier string, shard, n int, only, upto int64, deadline time.Time, dir string) shardRun {
	out := filepath.Join(dir, fmt.Sprintf("s%d.%d.json", shard, time.Now().UnixNano()))
	tmp := out + ".tmpdir"
	os.MkdirAll(tmp, 0o755)
	self, _ := os.Executable()
	cmd := exec.Command(self, "child", id, tier, strconv.Itoa(shard), strconv.Itoa(n),
		strconv.FormatInt(only, 10), strconv.FormatInt(upto, 10), out, tmp,
		strconv.FormatInt(deadline.Unix(), 10))
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr tailBuf
	cmd.Stdout = &stderr
	cmd.Stderr = &stderr
	if os.Getenv("MC_SLOW") != "" {
		cmd.Stderr = os.Stderr
	}
	runtime.LockOSThread()
	err := cmd.Run()
	runtime.UnlockOSThread()
	sr := shardRun{lastIx: -1}
	if b, e := os.ReadFile(out + ".prog"); e == nil && len(b) == 8 {
		sr.lastIx = int64(binary.LittleEndian.Uint64(b)) - 1
	}
	if b, e := os.ReadFile(out); e == nil {
		sr.res = &shardResult{}
		if json.Unmarshal(b, sr.res) != nil {
			sr.res = nil
		}
	}
	sr.states, _ = os.ReadFile(out + ".states")
	if b, e := os.ReadFile(out + ".dog"); e == nil {
		sr.dog = string(b)
	}
	if sr.res == nil || !sr.res.Done {
		sr.crash = fmt.Sprintf("process ended: %v\n%s", err, stderr.String())
		sr.res = nil
	}
	os.RemoveAll(tmp)
	return sr
}

type tailBuf struct{ head []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.head) < 4000 {
		k := 4000 - len(t.head)
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.head) }

func verifDir() string {
	if d := os.Getenv("MC_VERIF"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// asViolation turns the outcome of a shard into a failing case, if it is one.
func (s shardRun) asViolation() *caseResult {
	if s.res != nil {
		return s.res.Violation
	}
	if s.lastIx < 0 {
		return nil
	}
	msg := s.crash
	if s.dog != "" {
		msg = s.dog
	} else if !strings.Contains(msg, "goroutine ") && !strings.Contains(msg, "fatal error") &&
		!strings.Contains(msg, "signal") {
		return nil
	}
	return &caseResult{Idx: s.lastIx, Key: "(process died in this case)", Msg: msg}
}

func checkMain(id, tier string) int {
	def := checks[id]
	if def == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		return 2
	}
	t0 := time.Now()
	budget := 500 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	deadline := t0.Add(budget)
	vd := verifDir()
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if def.single {
		n = 1
	}
	results := make([]shardRun, n)
	ch := make(chan int)
	for i := 0; i < n; i++ {
		go func(i int) {
			results[i] = runShard(id, tier, i, n, -1, -1, deadline, dir)
			ch <- i
		}(i)
	}
	for i := 0; i < n; i++ {
		<-ch
	}
	// collect
	counters := map[string]int64{}
	var samples []string
	known := map[string]string{}
	states := map[uint64]struct{}{}
	cut := false
	var cands []struct {
		sh int
		c  *caseResult
	}
	var broken []string
	for i, s := range results {
		if v := s.asViolation(); v != nil {
			cands = append(cands, struct {
				sh int
				c  *caseResult
			}{i, v})
		}
		if s.res == nil {
			if s.asViolation() == nil {
				broken = append(broken, fmt.Sprintf("shard %d: %s", i, s.crash))
			}
			continue
		}
		if s.res.Broken != "" {
			broken = append(broken, s.res.Broken)
		}
		for k, v := range s.res.Counters {
			if strings.HasPrefix(k, "__") {
				continue
			}
			if strings.HasPrefix(k, "max_") {
				if v > counters[k] {
					counters[k] = v
				}
				continue
			}
			counters[k] += v
		}
		for _, x := range s.res.Samples {
			if len(samples) < 8 {
				samples = append(samples, x)
			}
		}
		for k, v := range s.res.Known {
			known[k] = v
		}
		cut = cut || s.res.Cut
		for j := 0; j+8 <= len(s.states); j += 8 {
			states[binary.LittleEndian.Uint64(s.states[j:])] = struct{}{}
		}
	}
	if len(states) > 0 {
		counters["states"] += int64(len(states))
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].c.Idx < cands[j].c.Idx })
	var confirmed *caseResult
	how := ""
	self, _ := os.Executable()
	prog := filepath.Base(self)
	unconfirmed := 0
	for _, c := range cands {
		tries := 5
		if results[c.sh].dog != "" {
			tries = 1
		}
		for k := 0; k < tries && confirmed == nil; k++ {
			s := runShard(id, tier, 0, 1, c.c.Idx, -1, time.Now().Add(240*time.Second), dir)
			if v := s.asViolation(); v != nil {
				confirmed = c.c
				if s.res != nil {
					confirmed = v
				}
				how = fmt.Sprintf("%s replay %s %s %d", prog, id, tier, c.c.Idx)
			}
		}
		if confirmed == nil {
			// the failure may need the cases before it
			s := runShard(id, tier, c.sh, n, -1, c.c.Idx, time.Now().Add(300*time.Second), dir)
			if v := s.asViolation(); v != nil && v.Idx == c.c.Idx {
				confirmed = v
				how = fmt.Sprintf("%s replay-shard %s %s %d/%d up to %d", prog, id, tier, c.sh, n, c.c.Idx)
			}
		}
		if confirmed != nil {
			break
		}
		unconfirmed++
		fmt.Fprintf(os.Stderr, "not reproduced: case %d %s: %s\n", c.c.Idx, c.c.Key, c.c.Msg)
	}
	var xmsg string
	if def.extra != nil && confirmed == nil && len(broken) == 0 {
		m, err := def.extra(tier)
		if err != nil {
			broken = append(broken, err.Error())
		}
		xmsg = m
		if strings.HasPrefix(m, "VIOLATION") {
			confirmed = &caseResult{Idx: -1, Key: "extra", Msg: m}
			how = "rerun the check"
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if confirmed != nil {
		viol = 1
	}
	cov := map[string]any{}
	for k, v := range counters {
		cov[k] = v
	}
	if len(samples) > 5 {
		samples = samples[:5]
	}
	if samples == nil {
		samples = []string{}
	}
	cov["samples"] = samples
	cov["rule"] = def.rule
	cov["exhaustive"] = !cut && confirmed == nil && len(broken) == 0
	cov["shards"] = n
	cov["unconfirmed_failures"] = unconfirmed
	if xmsg != "" {
		cov["extra"] = xmsg
	}
	for _, k := range []string{"evaluations", "distinct_nontrivial"} {
		if _, ok := cov[k]; !ok {
			cov[k] = 0
		}
	}
	if def.level == "model_checking" {
		for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
			if _, ok := cov[k]; !ok {
				cov[k] = 0
			}
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": def.level,
		"coverage": cov, "assumptions": def.assume,
		"wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if def.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(vd, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vd, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	kk := make([]string, 0, len(known))
	for k := range known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k])
	}
	if confirmed != nil {
		rd := filepath.Join(vd, "replays")
		os.MkdirAll(rd, 0o755)
		p := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", id, tier, confirmed.Idx))
		rb, _ := json.MarshalIndent(map[string]any{
			"property": id, "tier": tier, "case": confirmed.Idx, "key": confirmed.Key,
			"what": confirmed.Msg, "how": "MC_VERIF=/verif /verif/.build/" + how,
		}, "", " ")
		os.WriteFile(p, append(rb, '\n'), 0o644)
		fmt.Printf("case %d: %s\n  %s\n", confirmed.Idx, confirmed.Key, confirmed.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		return 1
	}
	if len(broken) > 0 {
		for _, m := range broken[:1] {
			fmt.Fprintln(os.Stderr, "CHECK-ERROR:", m)
		}
		return 3
	}
	fmt.Printf("ok %s (%s): cases=%d evaluations=%v nontrivial=%v states=%v transitions=%v exhaustive=%v unconfirmed=%d %.1fs\n",
		id, tier, counters["cases"], cov["evaluations"], cov["distinct_nontrivial"],
		cov["states"], cov["transitions"], cov["exhaustive"], unconfirmed, time.Since(t0).Seconds())
	return 0
}
