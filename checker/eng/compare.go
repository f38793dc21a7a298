package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Diff is one disagreement between two summaries.
type Diff struct {
	What string
	Pos  token.Pos
}

// comparer decides whether two terms/values mean the same. Terms are hash
// consed, so equal terms are identical; the rest is structural descent, with
// conditions compared as boolean functions modulo the theory.
type comparer struct {
	*Eng
	memo  map[[2]*Term]Bdd
	repr  map[*Term]*Term
	busy  map[[2]*Term]bool
	canon map[Bdd]Bdd
}

func newComparer(e *Eng) *comparer {
	return &comparer{Eng: e, memo: map[[2]*Term]Bdd{}, repr: map[*Term]*Term{}, busy: map[[2]*Term]bool{}, canon: map[Bdd]Bdd{}}
}

func (c *comparer) cond(b Bdd) Bdd {
	if b <= True || len(c.repr) == 0 {
		return b
	}
	if r, ok := c.canon[b]; ok {
		return r
	}
	hit := false
	c.eachAtom(b, func(t *Term) { hit = hit || c.repr[t] != nil })
	r := b
	if hit {
		r = c.Map(b, func(v int32) Bdd {
			if q := c.repr[c.atoms[v]]; q != nil {
				return c.Atom(q)
			}
			return c.mk(v, False, True)
		})
	}
	c.canon[b] = r
	return r
}

func (c *comparer) equivB(a, b Bdd) bool { return c.Equiv(c.cond(a), c.cond(b)) }

// eqTerm is the condition under which two terms are the same value.
func (c *comparer) eqTerm(a, b *Term) Bdd {
	if a == b {
		return True
	}
	k := [2]*Term{a, b}
	if r, ok := c.memo[k]; ok {
		return r
	}
	if c.busy[k] {
		return True
	}
	c.busy[k] = true
	r := c.eqTerm1(a, b)
	delete(c.busy, k)
	c.memo[k] = r
	return r
}

func (c *comparer) eqTerm1(a, b *Term) Bdd {
	if a.Op == "ite" || b.Op == "ite" {
		return c.eqVal(unfoldIte(a), unfoldIte(b))
	}
	if isConst(a) && a.C != nil && !isConst(b) {
		a, b = b, a
	}
	if isConst(b) && b.C != nil && !isConst(a) && a.Op != "iter" && a.Op != "mi" && a.Type != nil {
		if _, ok := a.Type.Underlying().(*types.Basic); ok && !isBool(a.Type) {
			// where they are known to be equal
			return c.Cond(c.Eq(a, b))
		}
	}
	if a.Op == "fn" && b.Op == "fn" && c.LitEq != nil {
		if f, ok := a.fn.(*ssa.Function); ok {
			if g, ok := b.fn.(*ssa.Function); ok && c.LitEq(f, g) {
				return True
			}
		}
		return False
	}
	if r := c.rewrapped(a, b); r != False {
		return r
	}
	if r := c.stores(a, b); r != False {
		return r
	}
	if r := c.noTurns(a, b); r != False {
		return r
	}
	if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Vals) != len(b.Vals) || len(a.Conds) != len(b.Conds) {
		return False
	}
	if len(a.Args)+len(a.Vals)+len(a.Conds) == 0 {
		return False
	}
	binder := false
	switch a.Op {
	case "exists", "first", "mu", "lout", "mapseq", "lambda", "less", "while", "sorted":
		binder = true
	}
	if a.Op == "mu" || a.Op == "lout" {
		return c.eqMu(a, b)
	}
	r := True
	for i := range a.Args {
		r = c.And(r, c.eqTerm(a.Args[i], b.Args[i]))
		if r == False {
			return False
		}
	}
	for i := range a.Vals {
		q := c.eqVal(a.Vals[i], b.Vals[i])
		if binder && !c.valid(q) {
			return False
		}
		r = c.And(r, q)
		if r == False {
			return False
		}
	}
	for i := range a.Conds {
		if !c.equivB(a.Conds[i], b.Conds[i]) {
			return False
		}
	}
	if binder && !c.valid(r) {
		return False
	}
	return r
}

// rewrapped: an interface value and what was asserted of it, put back into the
// interface.
func (c *comparer) rewrapped(a, b *Term) Bdd {
	if a.Op == "mkif" && b.Op != "mkif" {
		a, b = b, a
	}
	if b.Op != "mkif" || a.Op == "mkif" || len(b.Args) != 1 {
		return False
	}
	if t := b.Args[0]; t.Op == "assert" && t.Aux == b.Aux {
		return c.And(c.cond(c.eqTerm(t.Args[0], a)), c.Cond(c.TypeIs(a, b.Aux)))
	}
	return False
}

// stores: two elements set in either order; where they are the same one, both
// must have been given the same value.
func (c *comparer) stores(a, b *Term) Bdd {
	if a.Op != "updi" || b.Op != "updi" || a.Args[1] == b.Args[1] {
		return False
	}
	p, q := a.Args[0], b.Args[0]
	if p.Op != "updi" || q.Op != "updi" || p.Args[0] != q.Args[0] {
		return False
	}
	i, j := a.Args[1], b.Args[1]
	if q.Args[1] != i || p.Args[1] != j || q.Args[2] != a.Args[2] || p.Args[2] != b.Args[2] {
		return False
	}
	same := c.eqVal(One(a.Args[2]), One(b.Args[2]))
	x, y := a.Args[2], b.Args[2]
	if x.Op == "idx" && y.Op == "idx" && x.Args[0] == y.Args[0] {
		same = c.Or(same, c.Cond(c.Eq(x.Args[1], y.Args[1])))
	}
	return c.Or(c.Not(c.Cond(c.Eq(i, j))), same)
}

// noTurns: what a loop made, where it made no turns.
func (c *comparer) noTurns(a, b *Term) Bdd {
	if b.Op == "lout" && a.Op != "lout" {
		a, b = b, a
	}
	if a.Op != "lout" || b.Op == "lout" || len(a.Args) != 1 || len(a.Vals) == 0 {
		return False
	}
	return c.And(c.Not(c.Lt(c.Int(0), a.Args[0])), c.eqVal(a.Vals[0], One(b)))
}

func (c *comparer) eqMu(a, b *Term) Bdd {
	for i := range a.Args {
		if !c.valid(c.eqTerm(a.Args[i], b.Args[i])) {
			return False
		}
	}
	for i := range a.Vals {
		if !c.valid(c.eqVal(a.Vals[i], b.Vals[i])) {
			return False
		}
	}
	for i := range a.Conds {
		if !c.equivB(a.Conds[i], b.Conds[i]) {
			return False
		}
	}
	return True
}

func (c *comparer) valid(b Bdd) bool {
	if b == True {
		return true
	}
	return !c.Sat(c.Not(c.cond(b)))
}

func (c *comparer) validIn(b, ctx Bdd) bool {
	return b == True || !c.Sat(c.And(ctx, c.Not(c.cond(b))))
}

func unfoldIte(t *Term) Val {
	if t.Op != "ite" {
		return One(t)
	}
	var out Val
	for _, k := range t.Vals[0] {
		out = append(out, k)
	}
	return out
}

// eqVal is the condition under which two guarded values agree.
func (c *comparer) eqVal(a, b Val) Bdd {
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return True
		}
	}
	// disagreement: some pair of alternatives holds together and differs
	bad := False
	for _, p := range a {
		pc := c.cond(p.C)
		for _, q := range b {
			if p.T == q.T {
				continue
			}
			both := c.And(pc, c.cond(q.C))
			if both == False {
				continue
			}
			if both != True && !c.Sat(both) {
				continue
			}
			e := c.eqTerm(p.T, q.T)
			bad = c.Or(bad, c.And(both, c.Not(c.cond(e))))
		}
	}
	return c.Not(bad)
}

// why describes the first place where two terms differ.
func (c *comparer) why(a, b *Term, ctx Bdd) string {
	for depth := 0; depth < 40; depth++ {
		if a == b {
			return ""
		}
		if a.Op == "ite" || b.Op == "ite" {
			return c.whyVal(unfoldIte(a), unfoldIte(b), ctx)
		}
		if a.Op != b.Op || a.Aux != b.Aux || len(a.Args) != len(b.Args) || len(a.Vals) != len(b.Vals) || len(a.Conds) != len(b.Conds) {
			break
		}
		next := false
		for i := range a.Args {
			if !c.validIn(c.eqTerm(a.Args[i], b.Args[i]), ctx) {
				a, b = a.Args[i], b.Args[i]
				next = true
				break
			}
		}
		if next {
			continue
		}
		for i := range a.Vals {
			if q := c.eqVal(a.Vals[i], b.Vals[i]); !c.validIn(q, ctx) {
				return c.whyVal(a.Vals[i], b.Vals[i], ctx)
			}
		}
		for i := range a.Conds {
			if !c.equivB(a.Conds[i], b.Conds[i]) {
				return c.whyCond(a.Conds[i], b.Conds[i])
			}
		}
		break
	}
	return "is " + c.Show(a) + ", required " + c.Show(b)
}

func (c *comparer) whyCond(a, b Bdd) string {
	a, b = c.cond(a), c.cond(b)
	return "condition is [" + c.ShowCond(a) + "], required [" + c.ShowCond(b) + "]"
}

func (c *comparer) whyVal(a, b Val, ctx Bdd) string {
	for _, p := range a {
		for _, q := range b {
			if p.T == q.T {
				continue
			}
			both := c.And(ctx, c.And(c.cond(p.C), c.cond(q.C)))
			if both == False || !c.Sat(both) {
				continue
			}
			e := c.cond(c.eqTerm(p.T, q.T))
			if !c.Sat(c.And(both, c.Not(e))) {
				continue
			}
			s := c.why(p.T, q.T, both)
			if both != True {
				s += " [when " + c.ShowCond(both) + "]"
			}
			return s
		}
	}
	return ""
}

// unify finds atoms of a that mean the same as atoms of b.
func (c *comparer) unify(as, bs map[*Term]bool) {
	var la, lb []*Term
	for t := range as {
		if !bs[t] {
			la = append(la, t)
		}
	}
	for t := range bs {
		if !as[t] {
			lb = append(lb, t)
		}
	}
	byID := func(l []*Term) { sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID }) }
	byID(la)
	byID(lb)
	for _, t := range la {
		for _, u := range lb {
			if t.Op != u.Op || len(t.Args) != len(u.Args) {
				continue
			}
			same := c.valid(c.eqTerm(t, u))
			if !same && (t.Op == "eq" || t.Op == "seteq") {
				same = c.valid(c.And(c.eqTerm(t.Args[0], u.Args[1]), c.eqTerm(t.Args[1], u.Args[0])))
			}
			if same {
				c.repr[t] = u
				c.canon = map[Bdd]Bdd{}
				c.memo = map[[2]*Term]Bdd{}
				break
			}
		}
	}
}

func (s *Summary) collectAtoms(out map[*Term]bool) {
	e := s.E
	seenT := map[*Term]bool{}
	seenB := map[Bdd]bool{}
	var term func(t *Term)
	var cond func(b Bdd)
	val := func(v Val) {
		for _, k := range v {
			cond(k.C)
			term(k.T)
		}
	}
	cond = func(b Bdd) {
		if seenB[b] {
			return
		}
		seenB[b] = true
		e.eachAtom(b, func(t *Term) {
			out[t] = true
			term(t)
		})
	}
	term = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		for _, a := range t.Args {
			term(a)
		}
		for _, v := range t.Vals {
			val(v)
		}
		for _, b := range t.Conds {
			cond(b)
		}
	}
	for _, v := range s.Rets {
		val(v)
	}
	cond(s.RetPC)
	for a, v := range s.State {
		term(a)
		val(v)
	}
	for _, ef := range s.Effects {
		cond(ef.PC)
		for _, v := range ef.Args {
			val(v)
		}
		for _, l := range ef.Loops {
			term(l)
		}
	}
}

// MsgCap bounds the length of one message.
var MsgCap = 900

// Compare lists where summary a disagrees with the required summary b.
func Compare(a, b *Summary) (out []Diff) {
	e := a.E
	if a.Err != "" || b.Err != "" {
		m := a.Err
		if m == "" {
			m = "reference: " + b.Err
		}
		return []Diff{{"not analysable: " + m, a.Fn.Pos()}}
	}
	e.limit = e.work + WorkLimit
	w0 := e.work
	defer func() {
		e.limit = 0
		stat("compare", a.Fn.String(), e.work-w0)
		if r := recover(); r != nil {
			u, ok := r.(Undecided)
			if !ok {
				panic(r)
			}
			out = []Diff{{"not comparable: " + u.Msg, a.Fn.Pos()}}
		}
		for i := range out {
			if r := []rune(out[i].What); len(r) > MsgCap {
				out[i].What = string(r[:MsgCap]) + "…"
			}
		}
	}()
	c := newComparer(e)
	as, bs := map[*Term]bool{}, map[*Term]bool{}
	a.collectAtoms(as)
	b.collectAtoms(bs)
	c.unify(as, bs)
	if len(a.Rets) != len(b.Rets) && a.RetPC != False && b.RetPC != False {
		return append(out, Diff{"different number of results", a.Fn.Pos()})
	}
	if !c.equivB(a.RetPC, b.RetPC) {
		out = append(out, Diff{"returns normally: " + c.whyCond(a.RetPC, b.RetPC), a.Fn.Pos()})
	}
	ret := c.And(c.cond(a.RetPC), c.cond(b.RetPC))
	if a.RetPC != False && b.RetPC != False {
		for i := range a.Rets {
			eq := c.cond(c.eqVal(a.Rets[i], b.Rets[i]))
			if c.Sat(c.And(ret, c.Not(eq))) {
				out = append(out, Diff{fmt.Sprintf("result %d: %s", i, c.whyVal(a.Rets[i], b.Rets[i], ret)), a.Fn.Pos()})
			}
		}
	}
	// final memory
	addrs := map[*Term]bool{}
	for t := range a.State {
		addrs[t] = true
	}
	for t := range b.State {
		addrs[t] = true
	}
	var order []*Term
	for t := range addrs {
		order = append(order, t)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	type pend struct {
		addr *Term
		v    Val
		inA  bool
	}
	var pa, pb []pend
	for _, t := range order {
		va, oka := a.State[t]
		vb, okb := b.State[t]
		if oka && okb {
			eq := c.cond(c.eqVal(va, vb))
			if c.Sat(c.And(ret, c.Not(eq))) {
				out = append(out, Diff{fmt.Sprintf("final value of %s: %s", e.Show(t), c.whyVal(va, vb, ret)), a.Fn.Pos()})
			}
			continue
		}
		s, v := a, va
		if okb {
			s, v = b, vb
		}
		def := s.unchanged(t)
		changed := False
		for _, k := range v {
			if !def[k.T] {
				changed = c.Or(changed, k.C)
			}
		}
		if !c.Sat(c.And(ret, c.cond(changed))) {
			continue
		}
		if oka {
			pa = append(pa, pend{t, v, true})
		} else {
			pb = append(pb, pend{t, v, false})
		}
	}
	used := map[int]bool{}
	for _, p := range pa {
		ok := false
		for j, q := range pb {
			if !used[j] && c.valid(c.eqTerm(p.addr, q.addr)) && !c.Sat(c.And(ret, c.Not(c.cond(c.eqVal(p.v, q.v))))) {
				used[j] = true
				ok = true
				break
			}
		}
		if !ok {
			out = append(out, Diff{"writes " + e.Show(p.addr) + " := " + e.ShowVal(p.v) + ", which is not required", a.Fn.Pos()})
		}
	}
	for j, q := range pb {
		if !used[j] {
			out = append(out, Diff{"does not write " + e.Show(q.addr) + " := " + e.ShowVal(q.v), a.Fn.Pos()})
		}
	}
	out = append(out, c.effects(a, b)...)
	return out
}

func (c *comparer) effects(a, b *Summary) []Diff {
	key := func(e *Effect) string { return fmt.Sprintf("%s|%s|%d|%d", e.Kind, e.Name, len(e.Args), len(e.Loops)) }
	ga, gb := map[string][]*Effect{}, map[string][]*Effect{}
	for _, e := range a.Effects {
		ga[key(e)] = append(ga[key(e)], e)
	}
	for _, e := range b.Effects {
		gb[key(e)] = append(gb[key(e)], e)
	}
	eq := func(p, q *Effect) Bdd {
		r := True
		for i := range p.Loops {
			if !c.valid(c.eqTerm(p.Loops[i], q.Loops[i])) {
				return False
			}
		}
		for i := range p.Args {
			r = c.And(r, c.cond(c.eqVal(p.Args[i], q.Args[i])))
			if r == False {
				return False
			}
		}
		return r
	}
	var out []Diff
	side := func(xs, ys map[string][]*Effect, missing bool) {
		for _, k := range sortedKeys(xs) {
			for _, p := range xs[k] {
				cov := False
				for _, q := range ys[k] {
					cov = c.Or(cov, c.And(c.cond(q.PC), eq(p, q)))
				}
				un := c.And(c.cond(p.PC), c.Not(cov))
				if !c.Sat(un) {
					continue
				}
				d := c.showEffect(p)
				if len(ys[k]) == 1 {
					q := ys[k][0]
					for i := range p.Args {
						if !c.valid(c.eqVal(p.Args[i], q.Args[i])) {
							if missing {
								d += "; argument " + fmt.Sprint(i) + ": " + c.whyVal(q.Args[i], p.Args[i], True)
							} else {
								d += "; argument " + fmt.Sprint(i) + ": " + c.whyVal(p.Args[i], q.Args[i], True)
							}
						}
					}
				}
				if missing {
					out = append(out, Diff{"required effect missing: " + d + " [when " + c.ShowCond(un) + "]", a.Fn.Pos()})
				} else {
					out = append(out, Diff{"effect not allowed: " + d + " [when " + c.ShowCond(un) + "]", p.Pos})
				}
			}
		}
	}
	side(ga, gb, false)
	side(gb, ga, true)
	return out
}

func (c *comparer) showEffect(p *Effect) string {
	var as []string
	for _, v := range p.Args {
		as = append(as, c.ShowVal(v))
	}
	r := p.Kind + " " + p.Name + "(" + strings.Join(as, ", ") + ")"
	for _, l := range p.Loops {
		r += " for each of " + c.Show(l)
	}
	return r
}
