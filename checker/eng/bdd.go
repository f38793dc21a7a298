// Package eng is the analysis engine of the checker: it turns the SSA form of
// a function (with its same-package callees inlined) into a guarded summary:
// for every result, store, map update, external call and panic the exact
// boolean condition under which it takes place, over canonical value terms.
// Loops are analysed once per body with a generic element; nothing is run.
package eng

// Bdd is a node of a reduced ordered binary decision diagram over atoms.
type Bdd int32

const (
	False Bdd = 0
	True  Bdd = 1
)

type bddNode struct {
	v      int32 // atom number (index in E.atoms); order of the diagram
	lo, hi Bdd
}

type bddKey struct {
	v      int32
	lo, hi Bdd
}
type iteKey struct{ f, g, h Bdd }

type bddMgr struct {
	work, limit int // steps done; when limit > 0 and passed, the analysis gives up
	nodes       []bddNode
	unique      map[bddKey]Bdd
	ite         map[iteKey]Bdd
}

func newBdd() *bddMgr {
	m := &bddMgr{unique: map[bddKey]Bdd{}, ite: map[iteKey]Bdd{}}
	m.nodes = append(m.nodes, bddNode{v: 1 << 30}, bddNode{v: 1 << 30})
	return m
}

func (m *bddMgr) mk(v int32, lo, hi Bdd) Bdd {
	if lo == hi {
		return lo
	}
	k := bddKey{v, lo, hi}
	if b, ok := m.unique[k]; ok {
		return b
	}
	m.tick()
	b := Bdd(len(m.nodes))
	m.nodes = append(m.nodes, bddNode{v, lo, hi})
	m.unique[k] = b
	return b
}

func (m *bddMgr) tick() {
	m.work++
	if m.limit > 0 && m.work > m.limit {
		m.limit = 0
		panic(Undecided{"analysis work limit exceeded"})
	}
}

func (m *bddMgr) v(b Bdd) int32 { return m.nodes[b].v }

func (m *bddMgr) cof(b Bdd, v int32) (lo, hi Bdd) {
	n := m.nodes[b]
	if n.v == v {
		return n.lo, n.hi
	}
	return b, b
}

func (m *bddMgr) Ite(f, g, h Bdd) Bdd {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := m.ite[k]; ok {
		return r
	}
	v := m.v(f)
	if w := m.v(g); w < v {
		v = w
	}
	if w := m.v(h); w < v {
		v = w
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, m.Ite(f0, g0, h0), m.Ite(f1, g1, h1))
	m.ite[k] = r
	return r
}

func (m *bddMgr) And(a, b Bdd) Bdd { return m.Ite(a, b, False) }
func (m *bddMgr) Or(a, b Bdd) Bdd  { return m.Ite(a, True, b) }
func (m *bddMgr) Not(a Bdd) Bdd    { return m.Ite(a, False, True) }
func (m *bddMgr) Xor(a, b Bdd) Bdd { return m.Ite(a, m.Not(b), b) }

// Constrain is the generalised cofactor f|c (c must not be False).
func (m *bddMgr) Constrain(f, c Bdd) Bdd {
	if c == False {
		return f
	}
	memo := map[[2]Bdd]Bdd{}
	return m.constrain(f, c, memo)
}

func (m *bddMgr) constrain(f, c Bdd, memo map[[2]Bdd]Bdd) Bdd {
	if c == True || f <= True {
		return f
	}
	k := [2]Bdd{f, c}
	if r, ok := memo[k]; ok {
		return r
	}
	v := m.v(f)
	if w := m.v(c); w < v {
		v = w
	}
	f0, f1 := m.cof(f, v)
	c0, c1 := m.cof(c, v)
	var r Bdd
	switch {
	case c0 == False:
		r = m.constrain(f1, c1, memo)
	case c1 == False:
		r = m.constrain(f0, c0, memo)
	default:
		r = m.mk(v, m.constrain(f0, c0, memo), m.constrain(f1, c1, memo))
	}
	memo[k] = r
	return r
}

// Support lists the atoms b depends on.
func (m *bddMgr) Support(b Bdd) []int32 {
	seen := map[Bdd]bool{}
	vs := map[int32]bool{}
	var walk func(Bdd)
	walk = func(x Bdd) {
		if x <= True || seen[x] {
			return
		}
		seen[x] = true
		n := m.nodes[x]
		vs[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(b)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sortInt32(out)
	return out
}

func sortInt32(a []int32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Map rebuilds b with every atom v replaced by f(v).
func (m *bddMgr) Map(b Bdd, f func(v int32) Bdd) Bdd {
	memo := map[Bdd]Bdd{False: False, True: True}
	var walk func(Bdd) Bdd
	walk = func(x Bdd) Bdd {
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		r := m.Ite(f(n.v), walk(n.hi), walk(n.lo))
		memo[x] = r
		return r
	}
	return walk(b)
}
