package main

// A small incremental CDCL engine (1-UIP learning, activity order, assumption
// literals). It is only used to tell whether one concrete CNF produced by the
// code under test has a model that agrees with one concrete, enumerated
// assignment of the query variables. Literals are DIMACS integers.

type satSolver struct {
	n       int // variables
	cls     [][]int32
	watches [][]int32 // lit index -> clause ids
	val     []int8    // var -> 0 unknown, 1 true, -1 false
	level   []int32
	reason  []int32
	act     []float64
	phase   []int8
	trail   []int32
	lim     []int32
	qhead   int
	inc     float64
	bad     bool // unsat at level 0
	seen    []bool
	heap    []int32
	hpos    []int32
}

func li(l int32) int { // literal index
	if l > 0 {
		return int(2 * l)
	}
	return int(-2*l + 1)
}

func newSat(n int, groups ...[]cls) *satSolver {
	s := &satSolver{inc: 1}
	s.grow(n)
	for _, g := range groups {
		for _, c := range g {
			s.add(c)
		}
	}
	return s
}

func (s *satSolver) grow(n int) {
	if n <= s.n && s.val != nil {
		return
	}
	old := s.n
	if s.val == nil {
		s.val = make([]int8, 1)
		s.level = make([]int32, 1)
		s.reason = make([]int32, 1)
		s.act = make([]float64, 1)
		s.phase = make([]int8, 1)
		s.seen = make([]bool, 1)
		s.hpos = make([]int32, 1)
		s.watches = make([][]int32, 2)
	}
	for v := old + 1; v <= n; v++ {
		s.val = append(s.val, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, -1)
		s.act = append(s.act, 0)
		s.phase = append(s.phase, -1)
		s.seen = append(s.seen, false)
		s.hpos = append(s.hpos, -1)
		s.watches = append(s.watches, nil, nil)
		s.n = v
		s.hpush(int32(v))
	}
}

func (s *satSolver) lv(l int32) int8 {
	if l > 0 {
		return s.val[l]
	}
	return -s.val[-l]
}

// add a clause; must be at level 0.
func (s *satSolver) add(c []int) {
	s.backtrack(0)
	if s.bad {
		return
	}
	out := make([]int32, 0, len(c))
outer:
	for _, x := range c {
		l := int32(x)
		v := l
		if v < 0 {
			v = -v
		}
		if int(v) > s.n {
			s.grow(int(v))
		}
		switch s.lv(l) {
		case 1:
			return
		case -1:
			continue
		}
		for _, o := range out {
			if o == l {
				continue outer
			}
			if o == -l {
				return
			}
		}
		out = append(out, l)
	}
	switch len(out) {
	case 0:
		s.bad = true
	case 1:
		s.enqueue(out[0], -1)
		if s.propagate() >= 0 {
			s.bad = true
		}
	default:
		s.attach(out)
	}
}

func (s *satSolver) attach(c []int32) int32 {
	id := int32(len(s.cls))
	s.cls = append(s.cls, c)
	s.watches[li(c[0])] = append(s.watches[li(c[0])], id)
	s.watches[li(c[1])] = append(s.watches[li(c[1])], id)
	return id
}

func (s *satSolver) enqueue(l int32, why int32) {
	v := l
	if v < 0 {
		v = -v
		s.val[v] = -1
	} else {
		s.val[v] = 1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = why
	s.trail = append(s.trail, l)
}

func (s *satSolver) propagate() int32 {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[li(-p)]
		j := 0
		for i := 0; i < len(ws); i++ {
			id := ws[i]
			c := s.cls[id]
			if c[0] == -p {
				c[0], c[1] = c[1], c[0]
			}
			if s.lv(c[0]) == 1 {
				ws[j] = id
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.lv(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watches[li(c[1])] = append(s.watches[li(c[1])], id)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = id
			j++
			if s.lv(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[li(-p)] = ws[:j]
				s.qhead = len(s.trail)
				return id
			}
			s.enqueue(c[0], id)
		}
		s.watches[li(-p)] = ws[:j]
	}
	return -1
}

func (s *satSolver) backtrack(l int) {
	if len(s.lim) <= l {
		return
	}
	for i := len(s.trail) - 1; i >= int(s.lim[l]); i-- {
		v := s.trail[i]
		if v < 0 {
			v = -v
		}
		s.phase[v] = s.val[v]
		s.val[v] = 0
		s.hpush(v)
	}
	s.trail = s.trail[:s.lim[l]]
	s.lim = s.lim[:l]
	s.qhead = len(s.trail)
}

func (s *satSolver) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.hup(int(s.hpos[v]))
	}
}

func (s *satSolver) analyze(confl int32) ([]int32, int) {
	learnt := []int32{0}
	cnt := 0
	var p int32
	idx := len(s.trail) - 1
	cur := int32(len(s.lim))
	for {
		for _, q := range s.cls[confl] {
			if q == p {
				continue
			}
			v := q
			if v < 0 {
				v = -v
			}
			if !s.seen[v] && s.level[v] > 0 {
				s.seen[v] = true
				s.bump(v)
				if s.level[v] >= cur {
					cnt++
				} else {
					learnt = append(learnt, q)
				}
			}
		}
		for {
			p = s.trail[idx]
			idx--
			v := p
			if v < 0 {
				v = -v
			}
			if s.seen[v] {
				break
			}
		}
		v := p
		if v < 0 {
			v = -v
		}
		s.seen[v] = false
		cnt--
		if cnt == 0 {
			break
		}
		confl = s.reason[v]
	}
	learnt[0] = -p
	bl := 0
	for i := 1; i < len(learnt); i++ {
		v := learnt[i]
		if v < 0 {
			v = -v
		}
		s.seen[v] = false
		if int(s.level[v]) > bl {
			bl = int(s.level[v])
			learnt[1], learnt[i] = learnt[i], learnt[1]
		}
	}
	s.inc /= 0.95
	return learnt, bl
}

// solve returns whether a model exists that agrees with the assumptions.
func (s *satSolver) solve(assume ...int) bool {
	if s.bad {
		return false
	}
	s.backtrack(0)
	for _, a := range assume {
		if a < 0 {
			a = -a
		}
		if a > s.n {
			s.grow(a)
		}
	}
	if s.propagate() >= 0 {
		s.bad = true
		return false
	}
	for {
		confl := s.propagate()
		if confl >= 0 {
			if len(s.lim) == 0 {
				s.bad = true
				return false
			}
			learnt, bl := s.analyze(confl)
			s.backtrack(bl)
			if len(learnt) == 1 {
				s.enqueue(learnt[0], -1)
			} else {
				id := s.attach(learnt)
				s.enqueue(learnt[0], id)
			}
			continue
		}
		var next int32
		for len(s.lim) < len(assume) {
			a := int32(assume[len(s.lim)])
			switch s.lv(a) {
			case 1:
				s.lim = append(s.lim, int32(len(s.trail)))
			case -1:
				s.backtrack(0)
				return false
			default:
				next = a
			}
			if next != 0 {
				break
			}
		}
		if next == 0 {
			for len(s.heap) > 0 {
				v := s.hpop()
				if s.val[v] == 0 {
					if s.phase[v] > 0 {
						next = v
					} else {
						next = -v
					}
					break
				}
			}
			if next == 0 {
				return true // model in s.val until next call
			}
		}
		s.lim = append(s.lim, int32(len(s.trail)))
		s.enqueue(next, -1)
	}
}

func (s *satSolver) model(v int) bool { return v <= s.n && s.val[v] == 1 }

// activity heap
func (s *satSolver) hless(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *satSolver) hpush(v int32) {
	if s.hpos[v] >= 0 {
		return
	}
	s.hpos[v] = int32(len(s.heap))
	s.heap = append(s.heap, v)
	s.hup(len(s.heap) - 1)
}
func (s *satSolver) hup(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !s.hless(s.heap[i], s.heap[p]) {
			break
		}
		s.hswap(i, p)
		i = p
	}
}
func (s *satSolver) hswap(i, j int) {
	s.heap[i], s.heap[j] = s.heap[j], s.heap[i]
	s.hpos[s.heap[i]] = int32(i)
	s.hpos[s.heap[j]] = int32(j)
}
func (s *satSolver) hpop() int32 {
	top := s.heap[0]
	last := len(s.heap) - 1
	s.hswap(0, last)
	s.heap = s.heap[:last]
	s.hpos[top] = -1
	i := 0
	for {
		l := 2*i + 1
		if l >= last {
			break
		}
		if l+1 < last && s.hless(s.heap[l+1], s.heap[l]) {
			l++
		}
		if !s.hless(s.heap[l], s.heap[i]) {
			break
		}
		s.hswap(i, l)
		i = l
	}
	return top
}
