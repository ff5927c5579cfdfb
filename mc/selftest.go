package main

import "fmt"

// selftest compares the engine with truth tables on every small formula and on
// pseudo-random larger ones, incrementally and with assumptions.
func selftest() {
	cs := clausesOver(3, 2)
	n := 0
	check := func(f []cls, nv int) {
		s := newSat(nv, f)
		for m := 0; m < 1<<(2*min(nv, 4)); m++ { // per var: free, free, true, false
			var as []int
			for v := 0; v < min(nv, 4); v++ {
				switch m >> (2 * v) & 3 {
				case 2:
					as = append(as, v+1)
				case 3:
					as = append(as, -v-1)
				}
			}
			want := false
			for a := uint(0); a < 1<<nv && !want; a++ {
				ok := evalClauses(f, a)
				for _, l := range as {
					if l > 0 && a>>(l-1)&1 == 0 || l < 0 && a>>(-l-1)&1 == 1 {
						ok = false
					}
				}
				want = ok
			}
			got := s.solve(as...)
			n++
			if got != want {
				panic(fmt.Sprint("selftest: ", f, as, got, want))
			}
			if got {
				var a uint
				for v := 1; v <= nv; v++ {
					if s.model(v) {
						a |= 1 << (v - 1)
					}
				}
				if !evalClauses(f, a) {
					panic(fmt.Sprint("selftest: bad model ", f, as))
				}
			}
		}
	}
	for _, a := range cs {
		for _, b := range cs {
			check([]cls{a, b}, 3)
		}
	}
	x := uint32(12345)
	rnd := func(k int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x % uint32(k))
	}
	for i := 0; i < 700; i++ {
		nv := 5 + rnd(7)
		var f []cls
		for j := 0; j < nv*4+rnd(nv); j++ {
			c := cls{}
			for k := 0; k < 1+rnd(3)+1; k++ {
				l := rnd(nv) + 1
				if rnd(2) == 0 {
					l = -l
				}
				c = append(c, l)
			}
			f = append(f, c)
		}
		check(f, nv)
	}
	// trees: counts and layouts
	for d, want := range map[int]int{1: 6, 2: 74, 3: 16430} {
		if got := len(allTrees(d)); got != want {
			panic(fmt.Sprint("selftest: trees ", d, got))
		}
	}
	for i, t := range allTrees(3) {
		if i%37 != 0 {
			continue
		}
		for l := 0; l < nLayouts; l++ {
			nodes := flatten(t, l)
			for _, v := range fullOnly(3) {
				k := 0
				for !nodes[k].IsLeaf() {
					if v[nodes[k].Feat] == O {
						k = nodes[k].OChild
					} else {
						k = nodes[k].ZChild
					}
				}
				if nodes[k].Value != t.eval(v) {
					panic("selftest: layout")
				}
			}
		}
	}
	for d := 1; d <= 3; d++ {
		for i, t := range allTrees(d) {
			if d == 3 && i%11 != 0 {
				continue
			}
			for _, v := range allInst(d) {
				for _, k := range []string{kAllT, kAllF, kDFS} {
					if refFast(k, []inst{v}, nil, t) != refAtom(k, []inst{v}, nil, t) {
						panic(fmt.Sprint("selftest: references differ ", k, t, istr(v)))
					}
				}
			}
		}
	}
	fmt.Println("selftest ok:", n, "engine comparisons")
}
