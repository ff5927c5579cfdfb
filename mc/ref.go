package main

import (
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
)

type cls = cnf.Clause
type cnfT = cnf.CNF
type inst = []query.FeatV

const (
	B = query.BOT
	Z = query.ZERO
	O = query.ONE
)

// ---------- instances ----------

// allInst returns the 3^dim partial instances.
func allInst(dim int) []inst {
	n := 1
	for i := 0; i < dim; i++ {
		n *= 3
	}
	out := make([]inst, n)
	for k := range out {
		v := make(inst, dim)
		x := k
		for i := range v {
			v[i] = query.FeatV(x % 3)
			x /= 3
		}
		out[k] = v
	}
	return out
}

func instIdx(v inst) int {
	k, m := 0, 1
	for _, f := range v {
		k += int(f) * m
		m *= 3
	}
	return k
}

// sparseInst returns the instances of a larger dimension that have at most k
// features outside the background value (background: undefined, or an
// alternating full instance), each deviating feature taking every other value.
func sparseInst(dim, k int) []inst {
	seen := map[string]bool{}
	var out []inst
	bgs := []inst{make(inst, dim), make(inst, dim), make(inst, dim), make(inst, dim)}
	for i := 0; i < dim; i++ {
		bgs[1][i] = Z
		bgs[2][i] = O
		bgs[3][i] = query.FeatV(1 + i%2)
	}
	var rec func(v inst, from, left int)
	rec = func(v inst, from, left int) {
		key := istr(v)
		if !seen[key] {
			seen[key] = true
			out = append(out, append(inst{}, v...))
		}
		if left == 0 {
			return
		}
		for i := from; i < dim; i++ {
			o := v[i]
			for _, f := range []query.FeatV{B, Z, O} {
				if f == o {
					continue
				}
				v[i] = f
				rec(v, i+1, left-1)
			}
			v[i] = o
		}
	}
	for _, b := range bgs {
		rec(b, 0, k)
	}
	return out
}

func istr(v inst) string {
	var sb strings.Builder
	for _, f := range v {
		switch f {
		case B:
			sb.WriteByte('_')
		case Z:
			sb.WriteByte('0')
		case O:
			sb.WriteByte('1')
		default:
			sb.WriteString(fmt.Sprintf("?%d", f))
		}
	}
	return sb.String()
}

func ieq(a, b inst) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------- decision trees ----------

type tree struct {
	leaf bool
	val  bool
	feat int
	z, o *tree
}

func (t *tree) String() string {
	if t.leaf {
		if t.val {
			return "T"
		}
		return "F"
	}
	return fmt.Sprintf("(%d %s %s)", t.feat, t.z, t.o)
}

func (t *tree) internals() int {
	if t.leaf {
		return 0
	}
	return 1 + t.z.internals() + t.o.internals()
}

func (t *tree) eval(v inst) bool {
	for !t.leaf {
		if v[t.feat] == O {
			t = t.o
		} else {
			t = t.z
		}
	}
	return t.val
}

var (
	leafT = &tree{leaf: true, val: true}
	leafF = &tree{leaf: true}
)

// treesOver returns all read-once trees over the features in mask with at most
// k internal nodes.
type treeGen struct{ memo map[[2]int][]*tree }

func newTreeGen() *treeGen { return &treeGen{memo: map[[2]int][]*tree{}} }

// exactly k internal nodes
func (g *treeGen) exact(mask, k int) []*tree {
	if k == 0 {
		return []*tree{leafF, leafT}
	}
	key := [2]int{mask, k}
	if r, ok := g.memo[key]; ok {
		return r
	}
	var out []*tree
	for f := 0; f < 16; f++ {
		if mask>>f&1 == 0 {
			continue
		}
		m := mask &^ (1 << f)
		for a := 0; a < k; a++ {
			zs := g.exact(m, a)
			if len(zs) == 0 {
				continue
			}
			for _, o := range g.exact(m, k-1-a) {
				for _, z := range zs {
					out = append(out, &tree{feat: f, z: z, o: o})
				}
			}
		}
	}
	g.memo[key] = out
	return out
}

func treesUpTo(dim, k int) []*tree {
	g := newTreeGen()
	var out []*tree
	for i := 0; i <= k; i++ {
		out = append(out, g.exact(1<<dim-1, i)...)
	}
	return out
}

func allTrees(dim int) []*tree { return treesUpTo(dim, 1<<dim-1) }

// chain returns the tree that tests the features of order one after the other;
// bit i of dirs tells on which side the chain continues, leaves alternate.
func chain(order []int, dirs uint, last bool) *tree {
	if len(order) == 0 {
		return &tree{leaf: true, val: last}
	}
	sub := chain(order[1:], dirs>>1, last)
	lf := &tree{leaf: true, val: (len(order)%2 == 0) == last}
	if dirs&1 == 1 {
		return &tree{feat: order[0], z: lf, o: sub}
	}
	return &tree{feat: order[0], z: sub, o: lf}
}

// complete tree over the features, leaf value given by f.
func complete(order []int, pre inst, f func(inst) bool) *tree {
	if len(order) == 0 {
		return &tree{leaf: true, val: f(pre)}
	}
	mk := func(v query.FeatV) *tree {
		p := append(inst{}, pre...)
		p[order[0]] = v
		return complete(order[1:], p, f)
	}
	return &tree{feat: order[0], z: mk(Z), o: mk(O)}
}

const nLayouts = 4

// flatten lays the tree out as the slice a Model returns. Layout 0: pre-order,
// 1: breadth-first, 2: root first and everything else reversed, 3: post-order
// behind the root with the one-children first, and unused fields of nodes (the
// Value of internal ones, Feat of leaves) set to arbitrary in-range values.
func flatten(t *tree, layout int) []query.Node {
	var order []*tree
	switch layout {
	case 0, 2:
		var rec func(*tree)
		rec = func(x *tree) {
			order = append(order, x)
			if !x.leaf {
				rec(x.z)
				rec(x.o)
			}
		}
		rec(t)
	case 1:
		q := []*tree{t}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			order = append(order, x)
			if !x.leaf {
				q = append(q, x.z, x.o)
			}
		}
	case 3:
		var rec func(*tree)
		rec = func(x *tree) {
			if !x.leaf {
				rec(x.o)
				rec(x.z)
			}
			if x != t {
				order = append(order, x)
			}
		}
		rec(t)
		order = append([]*tree{t}, order...)
	}
	if layout == 2 {
		for i, j := 1, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	// shared leaf objects: positions are by occurrence, so number afresh
	nodes := make([]query.Node, 0, len(order))
	// Resolve children by walking again in the same order.
	idx := occIndex(t, layout, len(order))
	for i, x := range order {
		if x.leaf {
			n := query.Node{Value: x.val, ZChild: query.NoChild, OChild: query.NoChild}
			if layout == 3 && t.feat >= 0 && !t.leaf {
				n.Feat = t.feat
				if i%2 == 1 { // means nothing for a leaf
					n.Feat = 1000003
				}
			}
			nodes = append(nodes, n)
			continue
		}
		n := query.Node{Feat: x.feat, ZChild: idx[i][0], OChild: idx[i][1]}
		if layout == 3 {
			n.Value = true
		}
		nodes = append(nodes, n)
	}
	return nodes
}

// occIndex returns, for each slot of the layout, the slots of its children.
func occIndex(t *tree, layout, n int) [][2]int {
	type occ struct {
		t    *tree
		z, o *occ
		slot int
	}
	var mk func(*tree) *occ
	mk = func(x *tree) *occ {
		e := &occ{t: x}
		if !x.leaf {
			e.z, e.o = mk(x.z), mk(x.o)
		}
		return e
	}
	root := mk(t)
	var order []*occ
	switch layout {
	case 0, 2:
		var rec func(*occ)
		rec = func(x *occ) {
			order = append(order, x)
			if x.z != nil {
				rec(x.z)
				rec(x.o)
			}
		}
		rec(root)
	case 1:
		q := []*occ{root}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			order = append(order, x)
			if x.z != nil {
				q = append(q, x.z, x.o)
			}
		}
	case 3:
		var rec func(*occ)
		rec = func(x *occ) {
			if x.z != nil {
				rec(x.o)
				rec(x.z)
			}
			if x != root {
				order = append(order, x)
			}
		}
		rec(root)
		order = append([]*occ{root}, order...)
	}
	if layout == 2 {
		for i, j := 1, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	for i, e := range order {
		e.slot = i
	}
	out := make([][2]int, n)
	for i, e := range order {
		if e.z != nil {
			out[i] = [2]int{e.z.slot, e.o.slot}
		} else {
			out[i] = [2]int{query.NoChild, query.NoChild}
		}
	}
	return out
}

// nodeInsts returns the instance of every node of the tree.
func nodeInsts(t *tree, dim int) []inst {
	var out []inst
	cur := make(inst, dim)
	var rec func(*tree)
	rec = func(x *tree) {
		out = append(out, append(inst{}, cur...))
		if x.leaf {
			return
		}
		cur[x.feat] = Z
		rec(x.z)
		cur[x.feat] = O
		rec(x.o)
		cur[x.feat] = B
	}
	rec(t)
	return out
}

// ---------- textbook definitions ----------

func refSub(a, b inst) bool {
	for i := range a {
		if a[i] != B && a[i] != b[i] {
			return false
		}
	}
	return true
}

func refCons(a, b inst) bool {
	for i := range a {
		if a[i] != B && b[i] != B && a[i] != b[i] {
			return false
		}
	}
	return true
}

func refFull(a inst) bool { return bots(a) == 0 }

func bots(a inst) int {
	n := 0
	for _, f := range a {
		if f == B {
			n++
		}
	}
	return n
}

func refLEL(a, b inst) bool { return bots(a) >= bots(b) }

func hd(a, b inst) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func refLEH(a, b, c inst) bool {
	return refFull(a) && refFull(b) && refFull(c) && hd(a, b) <= hd(a, c)
}

func refHEPR(a, b inst, pref []int) bool {
	for _, i := range pref {
		if (a[i] == B) != (b[i] == B) {
			return b[i] == B
		}
	}
	return true
}

func refNode(t *tree, dim int, v inst) bool {
	for _, n := range nodeInsts(t, dim) {
		if ieq(n, v) {
			return true
		}
	}
	return false
}

// completions calls f with every completion of v until f returns false.
func completions(v inst, f func(inst) bool) bool {
	c := append(inst{}, v...)
	var rec func(int) bool
	rec = func(i int) bool {
		if i == len(c) {
			return f(c)
		}
		if v[i] != B {
			return rec(i + 1)
		}
		for _, x := range []query.FeatV{Z, O} {
			c[i] = x
			if !rec(i + 1) {
				return false
			}
		}
		c[i] = B
		return true
	}
	return rec(0)
}

func refAllComp(t *tree, v inst, want bool) bool {
	return completions(v, func(c inst) bool { return t.eval(c) == want })
}

func refDFS(t *tree, v inst) bool {
	// every valuation of the defined features must determine the class
	w := append(inst{}, v...)
	var rec func(int) bool
	rec = func(i int) bool {
		if i == len(w) {
			return refAllComp(t, w, true) || refAllComp(t, w, false)
		}
		if v[i] == B {
			return rec(i + 1)
		}
		for _, x := range []query.FeatV{Z, O} {
			w[i] = x
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// refFast is refAtom without the enumeration of completions, for dimensions
// that have too many; the self test compares the two.
func refFast(kind string, v []inst, pref []int, t *tree) bool {
	switch kind {
	case kAllT, kAllF:
		var rec func(x *tree) bool
		rec = func(x *tree) bool {
			if x.leaf {
				return x.val == (kind == kAllT)
			}
			switch v[0][x.feat] {
			case O:
				return rec(x.o)
			case Z:
				return rec(x.z)
			}
			return rec(x.o) && rec(x.z)
		}
		return rec(t)
	case kDFS:
		// a witness against it: two instances with different classes that give
		// the defined features the same values
		asg := map[int]query.FeatV{}
		var first, second func(x *tree) bool
		var class bool
		walk := func(x *tree, shared bool, next func(*tree) bool) bool {
			if !shared {
				return next(x.z) || next(x.o)
			}
			if a, ok := asg[x.feat]; ok {
				if a == O {
					return next(x.o)
				}
				return next(x.z)
			}
			defer delete(asg, x.feat)
			asg[x.feat] = Z
			if next(x.z) {
				return true
			}
			asg[x.feat] = O
			return next(x.o)
		}
		second = func(x *tree) bool {
			if x.leaf {
				return x.val != class
			}
			return walk(x, v[0][x.feat] != B, second)
		}
		first = func(x *tree) bool {
			if x.leaf {
				if !x.val {
					return false // by symmetry
				}
				class = x.val
				return second(t)
			}
			return walk(x, v[0][x.feat] != B, first)
		}
		return !first(t)
	}
	return refAtom(kind, v, pref, t)
}

// ---------- model handed to the code under test ----------

type model struct {
	dim   int
	nodes []query.Node
}

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return m.nodes }

func mkModel(dim int, t *tree, layout int) model {
	if t == nil {
		return model{dim: dim}
	}
	return model{dim, flatten(t, layout)}
}
