package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value expression.
type Term struct {
	ID    int
	Op    string
	Aux   string
	Args  []*Term
	Vals  []Val // embedded guarded values (object contents)
	Conds []Bdd // embedded conditions (quantified loop conditions)
	Type  types.Type
	C     constant.Value
	syms  []int // loop placeholder symbols occurring inside
	alloc bool  // an allocation site occurs inside
	fn    interface{}
	str   string
}

// Case is one guarded alternative of a value.
type Case struct {
	C Bdd
	T *Term
}

// Val is a value: a set of alternatives with disjoint conditions.
type Val []Case

// Eng owns terms, atoms and conditions.
type Eng struct {
	*bddMgr
	terms   map[string]*Term
	nterm   int
	atoms   []*Term
	atomIx  map[*Term]int32
	satMemo map[Bdd]bool
	facts   map[*Term]Bdd
	nsym    int

	// StripPath is removed from package paths in names.
	StripPath []string
	TTrue     *Term
	TFalse    *Term
	ops       int
	blindMemo map[*Term]uint64
	blindBdd  map[Bdd]uint64
	showN     int
	// counts: functions that never return a negative number
	counts map[string]bool
	lits   map[*ssa.Function]string
	// LitEq decides whether two functions that are values do the same
	LitEq func(a, b *ssa.Function) bool
}

func NewEng() *Eng {
	e := &Eng{bddMgr: newBdd(), terms: map[string]*Term{}, atomIx: map[*Term]int32{}, satMemo: map[Bdd]bool{}, facts: map[*Term]Bdd{}, counts: map[string]bool{}, blindMemo: map[*Term]uint64{}, blindBdd: map[Bdd]uint64{}}
	e.TTrue = e.Const(constant.MakeBool(true), types.Typ[types.Bool])
	e.TFalse = e.Const(constant.MakeBool(false), types.Typ[types.Bool])
	return e
}

func (e *Eng) raw(op, aux string, args []*Term, vals []Val, conds []Bdd, typ types.Type) *Term {
	e.tick()
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	for _, v := range vals {
		sb.WriteByte(';')
		for _, c := range v {
			fmt.Fprintf(&sb, "%d:%d,", c.C, c.T.ID)
		}
	}
	for _, c := range conds {
		fmt.Fprintf(&sb, "?%d", c)
	}
	k := sb.String()
	if t, ok := e.terms[k]; ok {
		return t
	}
	e.nterm++
	t := &Term{ID: e.nterm, Op: op, Aux: aux, Args: args, Vals: vals, Conds: conds, Type: typ}
	if op == "sym" {
		n, _ := strconv.Atoi(aux)
		t.syms = []int{n}
	}
	if op == "alloc" {
		t.alloc = true
	}
	add := func(s *Term) {
		t.syms = unionInts(t.syms, s.syms)
		if s.alloc {
			t.alloc = true
		}
	}
	for _, a := range args {
		add(a)
	}
	for _, v := range vals {
		for _, c := range v {
			add(c.T)
			e.eachAtom(c.C, add)
		}
	}
	for _, c := range conds {
		e.eachAtom(c, add)
	}
	e.terms[k] = t
	return t
}

func (e *Eng) eachAtom(b Bdd, f func(*Term)) {
	if b <= True {
		return
	}
	for _, v := range e.Support(b) {
		f(e.atoms[v])
	}
}

func unionInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func hasSym(a []int, set map[int]bool) bool {
	for _, x := range a {
		if set[x] {
			return true
		}
	}
	return false
}

func (e *Eng) NewSym(name string) *Term {
	// name keys the symbol so that repeated passes reuse it
	k := "symname|" + name
	if t, ok := e.terms[k]; ok {
		return t
	}
	e.nsym++
	t := e.raw("sym", strconv.Itoa(e.nsym), nil, nil, nil, nil)
	e.terms[k] = t
	return t
}

func (e *Eng) Const(c constant.Value, typ types.Type) *Term {
	aux := ""
	if c == nil {
		aux = "nil"
	} else {
		aux = c.Kind().String() + ":" + c.ExactString()
		if c.Kind() == constant.Int {
			aux = "i:" + c.ExactString()
		}
	}
	t := e.raw("const", aux, nil, nil, nil, typ)
	if t.C == nil {
		t.C = c
	}
	return t
}

func (e *Eng) Int(n int64) *Term  { return e.Const(constant.MakeInt64(n), types.Typ[types.Int]) }
func (e *Eng) Str(s string) *Term { return e.Const(constant.MakeString(s), types.Typ[types.String]) }
func (e *Eng) Nil() *Term         { return e.raw("const", "nil", nil, nil, nil, nil) }
func (e *Eng) Leaf(op, aux string, typ types.Type, args ...*Term) *Term {
	return e.raw(op, aux, args, nil, nil, typ)
}

func isConst(t *Term) bool { return t.Op == "const" }
func intConst(t *Term) (int64, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func strConst(t *Term) (string, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// ---- guarded values ----

func One(t *Term) Val { return Val{{True, t}} }

func (e *Eng) norm(v Val) Val {
	if len(v) == 1 {
		return v
	}
	m := map[*Term]Bdd{}
	var order []*Term
	for _, c := range v {
		if c.C == False {
			continue
		}
		if b, ok := m[c.T]; ok {
			m[c.T] = e.Or(b, c.C)
		} else {
			m[c.T] = c.C
			order = append(order, c.T)
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	out := make(Val, 0, len(order))
	for _, t := range order {
		out = append(out, Case{m[t], t})
	}
	return out
}

// Bool makes the value of a condition.
func (e *Eng) Bool(b Bdd) Val {
	switch b {
	case True:
		return One(e.TTrue)
	case False:
		return One(e.TFalse)
	}
	return e.norm(Val{{b, e.TTrue}, {e.Not(b), e.TFalse}})
}

// Cond reads a boolean value as a condition.
func (e *Eng) Cond(v Val) Bdd {
	r := False
	for _, c := range v {
		switch c.T {
		case e.TTrue:
			r = e.Or(r, c.C)
		case e.TFalse:
		default:
			r = e.Or(r, e.And(c.C, e.Atom(c.T)))
		}
	}
	return r
}

func (e *Eng) Atom(t *Term) Bdd {
	if t == e.TTrue {
		return True
	}
	if t == e.TFalse {
		return False
	}
	ix, ok := e.atomIx[t]
	if !ok {
		ix = int32(len(e.atoms))
		e.atoms = append(e.atoms, t)
		e.atomIx[t] = ix
	}
	return e.mk(ix, False, True)
}

const maxCases = 40

// Apply applies a leaf operation to guarded arguments; alternatives that are
// infeasible under asm are dropped.
func (e *Eng) Apply(asm Bdd, f func(a []*Term) Val, args ...Val) Val {
	n := 1
	for _, a := range args {
		n *= len(a)
		if n > 4096 {
			break
		}
	}
	if n == 1 {
		ts := make([]*Term, len(args))
		c := True
		for i, a := range args {
			ts[i] = a[0].T
			c = e.And(c, a[0].C)
		}
		r := f(ts)
		if c == True {
			return r
		}
		out := make(Val, len(r))
		for i, x := range r {
			out[i] = Case{e.And(c, x.C), x.T}
		}
		return out
	}
	if n > 512 {
		// fold the widest arguments into opaque leaves
		nargs := append([]Val(nil), args...)
		for i, a := range nargs {
			if len(a) > 4 {
				nargs[i] = One(e.Fold(a))
			}
		}
		args = nargs
	}
	var out Val
	ts := make([]*Term, len(args))
	var rec func(i int, c Bdd)
	rec = func(i int, c Bdd) {
		if i == len(args) {
			if c != True && !e.Sat(e.And(asm, c)) {
				return
			}
			r := f(append([]*Term(nil), ts...))
			for _, x := range r {
				if cc := e.And(c, x.C); cc != False {
					out = append(out, Case{cc, x.T})
				}
			}
			return
		}
		for _, k := range args[i] {
			cc := e.And(c, k.C)
			if cc == False {
				continue
			}
			ts[i] = k.T
			rec(i+1, cc)
		}
	}
	rec(0, True)
	out = e.norm(out)
	if len(out) > maxCases {
		return One(e.Fold(out))
	}
	return out
}

// Fold packs a guarded value into one leaf.
func (e *Eng) Fold(v Val) *Term {
	if len(v) == 1 && v[0].C == True {
		return v[0].T
	}
	var typ types.Type
	if len(v) > 0 {
		typ = v[0].T.Type
	}
	return e.raw("ite", "", nil, []Val{v}, nil, typ)
}

// Prune drops the alternatives of v that cannot occur under asm.
func (e *Eng) Prune(asm Bdd, v Val) Val {
	if len(v) <= 1 {
		return v
	}
	out := make(Val, 0, len(v))
	for _, c := range v {
		if e.Sat(e.And(asm, c.C)) {
			out = append(out, c)
		}
	}
	if len(out) == 1 {
		return One(out[0].T)
	}
	return out
}

// ---- arithmetic normal form ----

type lin struct {
	c  int64
	ts map[*Term]int64
}

func (e *Eng) toLin(t *Term) (lin, bool) {
	l := lin{ts: map[*Term]int64{}}
	if n, ok := intConst(t); ok {
		l.c = n
		return l, true
	}
	if t.Op == "const" {
		return l, false
	}
	if t.Op == "lin" {
		parts := strings.Split(t.Aux, ",")
		l.c, _ = strconv.ParseInt(parts[0], 10, 64)
		for i, a := range t.Args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.ts[a] = k
		}
		return l, true
	}
	l.ts[t] = 1
	return l, true
}

func (l lin) addMul(o lin, k int64) lin {
	r := lin{c: l.c + k*o.c, ts: map[*Term]int64{}}
	for t, c := range l.ts {
		r.ts[t] = c
	}
	for t, c := range o.ts {
		r.ts[t] += k * c
		if r.ts[t] == 0 {
			delete(r.ts, t)
		}
	}
	return r
}

func (l lin) sorted() []*Term {
	out := make([]*Term, 0, len(l.ts))
	for t := range l.ts {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func (e *Eng) fromLin(l lin, typ types.Type) *Term {
	if len(l.ts) == 0 {
		return e.Const(constant.MakeInt64(l.c), typ)
	}
	ts := l.sorted()
	if len(ts) == 1 && l.c == 0 && l.ts[ts[0]] == 1 {
		return ts[0]
	}
	aux := []string{strconv.FormatInt(l.c, 10)}
	for _, t := range ts {
		aux = append(aux, strconv.FormatInt(l.ts[t], 10))
	}
	return e.raw("lin", strings.Join(aux, ","), ts, nil, nil, typ)
}

// Add returns a + k*b + c in normal form.
func (e *Eng) Add(a *Term, k int64, b *Term, c int64) *Term {
	la, ok1 := e.toLin(a)
	lb, ok2 := e.toLin(b)
	if !ok1 || !ok2 {
		return e.raw("sum", fmt.Sprint(k, ",", c), []*Term{a, b}, nil, nil, a.Type)
	}
	r := la.addMul(lb, k)
	r.c += c
	return e.fromLin(r, a.Type)
}

// ltz is the condition l < 0.
func (e *Eng) ltz(l lin) Bdd {
	if len(l.ts) == 0 {
		if l.c < 0 {
			return True
		}
		return False
	}
	ts := l.sorted()
	for _, t := range ts {
		// the first witness comes before the end
		if k := l.ts[t]; (k == 1 || k == -1) && (t.Op == "first" || t.Op == "iter") && len(t.Args) > 0 {
			if n, ok := e.toLin(t.Args[0]); ok {
				d := l.addMul(lin{ts: map[*Term]int64{t: 1}}, -k).addMul(n, k)
				if len(d.ts) == 0 {
					if k == -1 && d.c >= -1 {
						return False
					}
					if k == 1 && d.c <= 0 {
						return True
					}
				}
			}
		}
	}
	if l.ts[ts[0]] < 0 {
		// l<0 with leading coefficient negative: -l > 0, i.e. !(-l-1 < 0)
		n := lin{}.addMul(l, -1)
		n.c--
		return e.Not(e.ltzPos(n))
	}
	return e.ltzPos(l)
}

func (e *Eng) ltzPos(l lin) Bdd {
	ts := l.sorted()
	if len(ts) == 1 && l.ts[ts[0]] == 1 && e.nonNeg(ts[0]) {
		// t + c < 0 with t >= 0
		if l.c >= 0 {
			return False
		}
		if l.c == -1 {
			return e.Cond(e.Eq(ts[0], e.Int(0)))
		}
	}
	return e.Atom(e.raw("ltz", "", []*Term{e.fromLin(l, types.Typ[types.Int])}, nil, nil, types.Typ[types.Bool]))
}

func (e *Eng) nonNeg(t *Term) bool {
	switch t.Op {
	case "len", "iter", "first", "cap":
		return true
	case "call":
		return e.counts[t.Aux] && isInt(t.Type)
	case "lout":
		_, ok := e.counter(t)
		return ok
	}
	return false
}

// counter: a sum from 0 of a counted loop whose turns never take anything
// away, and the condition that some turn adds something.
func (e *Eng) counter(t *Term) (Bdd, bool) {
	if t.Op != "lout" || t.Aux != "acc" || len(t.Args) != 1 || len(t.Vals) != 2 || !isInt(t.Type) {
		return False, false
	}
	some := False
	for _, c := range t.Vals[1] {
		l, ok := e.toLin(c.T)
		if !ok || l.c < 0 || len(l.ts) != 1 {
			return False, false
		}
		for b, k := range l.ts {
			if k != 1 || b.Op != "bv" {
				return False, false
			}
		}
		if l.c > 0 {
			some = e.Or(some, c.C)
		}
	}
	return e.exists(t.Args[0], some), true
}

// exists: an iteration of a counted loop for which c holds.
func (e *Eng) exists(N *Term, c Bdd) Bdd {
	if n, ok := intConst(N); c == False || ok && n <= 0 {
		return False
	}
	if c == True {
		return e.Not(e.eq(N, e.Int(0)))
	}
	return e.Atom(e.raw("exists", "", []*Term{N}, nil, []Bdd{c}, types.Typ[types.Bool]))
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// Eq is the condition a == b as a value.
func (e *Eng) Eq(a, b *Term) Val { return e.Bool(e.eq(a, b)) }

func unwrapIf(t *Term) *Term {
	for t.Op == "mkif" {
		t = t.Args[0]
	}
	return t
}

func (e *Eng) eq(a, b *Term) Bdd {
	if a == b {
		return True
	}
	if a.Op == "mkif" && b.Op == "mkif" {
		if a.Aux != b.Aux {
			return False
		}
		return e.eq(a.Args[0], b.Args[0])
	}
	if isConst(a) && !isConst(b) {
		a, b = b, a
	}
	if isConst(b) && b.C == nil { // nil
		switch a.Op {
		case "mkif", "alloc", "closure", "fn", "&fld", "&idx", "obj":
			return False
		case "seq", "empty":
			if len(a.Args) == 0 {
				return True
			}
			return False
		case "app":
			return False
		case "fmterr":
			return False
		case "const":
			return False
		case "lookup":
			if a.Aux != "" {
				return False
			}
		}
		return e.Atom(e.raw("isnil", "", []*Term{a}, nil, nil, types.Typ[types.Bool]))
	}
	if isConst(a) && isConst(b) {
		if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() {
			if constant.Compare(a.C, token.EQL, b.C) {
				return True
			}
		}
		return False
	}
	if isBool(a.Type) && isBool(b.Type) {
		return e.Not(e.Xor(e.Cond(One(a)), e.Cond(One(b))))
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return False
	}
	if (a.Op == "alloc") != (b.Op == "alloc") {
		o := b
		if b.Op == "alloc" {
			o = a
		}
		switch o.Op {
		case "sym", "mu", "lout", "ite":
		default:
			return False
		}
	}
	// conversions that preserve equality
	if a.Op == "conv" && b.Op == "conv" && a.Aux == b.Aux && a.Args[0].Type != nil && b.Args[0].Type != nil && types.Identical(a.Args[0].Type, b.Args[0].Type) {
		return e.eq(a.Args[0], b.Args[0])
	}
	if isInt(a.Type) || isInt(b.Type) {
		la, ok1 := e.toLin(a)
		lb, ok2 := e.toLin(b)
		if ok1 && ok2 {
			d := la.addMul(lb, -1)
			if len(d.ts) == 0 {
				if d.c == 0 {
					return True
				}
				return False
			}
			ts := d.sorted()
			if d.ts[ts[0]] < 0 {
				d = lin{}.addMul(d, -1)
			}
			if len(ts) == 1 && d.ts[ts[0]] == 1 {
				t := ts[0]
				if e.nonNeg(t) && d.c > 0 {
					return False
				}
				if d.c == 0 {
					if some, ok := e.counter(t); ok {
						return e.Not(some)
					}
				}
				if t.Op == "len" && d.c == 0 && isString(t.Args[0].Type) {
					return e.eq(t.Args[0], e.Str(""))
				}
				return e.Atom(e.raw("eq", "", []*Term{t, e.Int(-d.c)}, nil, nil, types.Typ[types.Bool]))
			}
			return e.Atom(e.raw("eqz", "", []*Term{e.fromLin(d, types.Typ[types.Int])}, nil, nil, types.Typ[types.Bool]))
		}
	}
	if s, ok := strConst(b); ok && a.Op == "cat" {
		if r, ok := catEqConst(e, a, s); ok {
			return r
		}
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Vals) == len(b.Vals) {
		r := True
		for i := range a.Vals {
			r = e.And(r, e.Cond(e.Apply(True, func(ts []*Term) Val { return e.Eq(ts[0], ts[1]) }, a.Vals[i], b.Vals[i])))
		}
		return r
	}
	if typ := a.Type; typ != nil || b.Type != nil {
		if typ == nil {
			typ = b.Type
		}
		if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
			r := True
			for i := 0; i < st.NumFields(); i++ {
				n, t := st.Field(i).Name(), st.Field(i).Type()
				r = e.And(r, e.Cond(e.Apply(True, func(ts []*Term) Val { return e.Eq(ts[0], ts[1]) }, e.Fld(a, n, t), e.Fld(b, n, t))))
			}
			return r
		}
	}
	if !isConst(b) && a.ID > b.ID {
		a, b = b, a
	}
	return e.Atom(e.raw("eq", "", []*Term{a, b}, nil, nil, types.Typ[types.Bool]))
}

func catEqConst(e *Eng, a *Term, s string) (Bdd, bool) {
	// prefix/suffix constants that already differ decide the comparison
	if p, ok := strConst(a.Args[0]); ok && !strings.HasPrefix(s, p) {
		return False, true
	}
	if p, ok := strConst(a.Args[len(a.Args)-1]); ok && !strings.HasSuffix(s, p) {
		return False, true
	}
	return False, false
}

// Lt is a < b.
func (e *Eng) Lt(a, b *Term) Bdd {
	if a.C != nil && b.C != nil && a.C.Kind() == b.C.Kind() {
		if constant.Compare(a.C, token.LSS, b.C) {
			return True
		}
		return False
	}
	if a == b {
		return False
	}
	if isInt(a.Type) || isInt(b.Type) {
		la, ok1 := e.toLin(a)
		lb, ok2 := e.toLin(b)
		if ok1 && ok2 {
			return e.ltz(la.addMul(lb, -1))
		}
	}
	return e.Atom(e.raw("lt", "", []*Term{a, b}, nil, nil, types.Typ[types.Bool]))
}

// Cat concatenates strings.
func (e *Eng) Cat(parts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "cat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if s, ok := strConst(t); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := strConst(out[n-1]); ok {
					out[n-1] = e.Str(p + s)
					return
				}
			}
			t = e.Str(s)
		}
		out = append(out, t)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return e.Str("")
	case 1:
		return out[0]
	}
	return e.raw("cat", "", out, nil, nil, types.Typ[types.String])
}

// ---- feasibility of a condition (constants and intervals) ----

type theory struct {
	eqc  map[*Term]*Term
	nec  map[*Term]map[*Term]bool
	lo   map[*Term]int64
	hi   map[*Term]int64
	typ  map[*Term]string
	ntyp map[*Term]map[string]bool
	isn  map[*Term]bool
	nnil map[*Term]bool
}

func (e *Eng) Sat(b Bdd) bool {
	if b == True {
		return true
	}
	if b == False {
		return false
	}
	if r, ok := e.satMemo[b]; ok {
		return r
	}
	var lits []lit
	with := b
	if len(e.facts) > 0 {
		done := map[Bdd]bool{}
		e.eachAtom(b, func(t *Term) {
			if f, ok := e.facts[t]; ok && !done[f] {
				done[f] = true
				with = e.And(with, f)
			}
		})
		if with == False {
			e.satMemo[b] = false
			return false
		}
	}
	r := e.satRec(with, lits, new(int))
	e.satMemo[b] = r
	return r
}

// fact records what holds wherever it is talked about: the condition that made
// a loop end, of the values it ended with.
func (e *Eng) fact(f Bdd) {
	if f <= True {
		return
	}
	e.eachAtom(f, func(t *Term) {
		if o, ok := e.facts[t]; ok {
			e.facts[t] = e.And(o, f)
		} else {
			e.facts[t] = f
		}
	})
}

type lit struct {
	t   *Term
	pos bool
}

func (e *Eng) satRec(b Bdd, lits []lit, budget *int) bool {
	*budget++
	if *budget > 4000 {
		return true
	}
	if b == False {
		return false
	}
	if b == True {
		return true
	}
	n := e.nodes[b]
	t := e.atoms[n.v]
	for _, pos := range []bool{true, false} {
		nb := n.lo
		if pos {
			nb = n.hi
		}
		if nb == False {
			continue
		}
		nl := append(lits[:len(lits):len(lits)], lit{t, pos})
		if !e.consistent(nl) {
			continue
		}
		if e.satRec(nb, nl, budget) {
			return true
		}
	}
	return false
}

func (e *Eng) consistent(lits []lit) bool {
	last := lits[len(lits)-1]
	switch last.t.Op {
	case "eq", "eqz", "ltz", "typeis", "isnil", "lt", "in", "exists":
	default:
		return true
	}
	th := theory{eqc: map[*Term]*Term{}, nec: map[*Term]map[*Term]bool{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, typ: map[*Term]string{}, ntyp: map[*Term]map[string]bool{}, isn: map[*Term]bool{}, nnil: map[*Term]bool{}}
	bound := func(t *Term, lo, hi *int64) {
		if lo != nil {
			if v, ok := th.lo[t]; !ok || *lo > v {
				th.lo[t] = *lo
			}
		}
		if hi != nil {
			if v, ok := th.hi[t]; !ok || *hi < v {
				th.hi[t] = *hi
			}
		}
	}
	seen := map[*Term]bool{}
	for _, l := range lits {
		t := l.t
		switch t.Op {
		case "eq":
			a, b := t.Args[0], t.Args[1]
			if l.pos && (a.Op == "seq" && len(a.Args) == 0 || b.Op == "seq" && len(b.Args) == 0) {
				x, zero := a, int64(0)
				if a.Op == "seq" {
					x = b
				}
				n := e.lenLeaf(x)
				seen[n] = true
				bound(n, nil, &zero)
			}
			if !isConst(b) {
				continue
			}
			seen[a] = true
			if l.pos {
				if o, ok := th.eqc[a]; ok && o != b {
					return false
				}
				th.eqc[a] = b
				if n, ok := intConst(b); ok {
					bound(a, &n, &n)
				}
			} else {
				if th.nec[a] == nil {
					th.nec[a] = map[*Term]bool{}
				}
				th.nec[a][b] = true
			}
		case "ltz":
			ln, _ := e.toLin(t.Args[0])
			ts := ln.sorted()
			if len(ts) == 1 && ln.ts[ts[0]] == 1 {
				seen[ts[0]] = true
				if l.pos {
					h := -ln.c - 1
					bound(ts[0], nil, &h)
				} else {
					lo := -ln.c
					bound(ts[0], &lo, nil)
				}
			} else if len(ts) > 1 {
				// same linear part with different constants
				c := ln.c
				base := lin{ts: ln.ts}
				bt := e.fromLin(base, types.Typ[types.Int])
				seen[bt] = true
				if l.pos {
					h := -c - 1
					bound(bt, nil, &h)
				} else {
					lo := -c
					bound(bt, &lo, nil)
				}
			}
		case "eqz":
			ln, _ := e.toLin(t.Args[0])
			bt := e.fromLin(lin{ts: ln.ts}, types.Typ[types.Int])
			seen[bt] = true
			n := -ln.c
			if l.pos {
				bound(bt, &n, &n)
			} else {
				if th.nec[bt] == nil {
					th.nec[bt] = map[*Term]bool{}
				}
				th.nec[bt][e.Int(n)] = true
			}
		case "typeis":
			a := t.Args[0]
			if l.pos {
				if o, ok := th.typ[a]; ok && o != t.Aux && !strings.HasPrefix(o, "i:") && !strings.HasPrefix(t.Aux, "i:") {
					return false
				}
				th.typ[a] = t.Aux
				if th.isn[a] {
					return false
				}
				th.nnil[a] = true
			}
		case "isnil":
			if l.pos {
				if th.nnil[t.Args[0]] {
					return false
				}
				th.isn[t.Args[0]] = true
			} else {
				th.nnil[t.Args[0]] = true
			}
			if th.isn[t.Args[0]] && th.nnil[t.Args[0]] {
				return false
			}
			if x := t.Args[0]; l.pos && x.Type != nil {
				switch x.Type.Underlying().(type) {
				case *types.Slice, *types.Map:
					n, zero := e.lenLeaf(x), int64(0)
					seen[n] = true
					bound(n, nil, &zero)
				}
			}
		case "exists":
			if l.pos {
				// among none there is none
				if ln, ok := e.toLin(t.Args[0]); ok && len(ln.ts) > 0 {
					lo := 1 - ln.c
					bt := e.fromLin(lin{ts: ln.ts}, types.Typ[types.Int])
					seen[bt] = true
					bound(bt, &lo, nil)
				}
			}
		case "lt":
			if !l.pos && isString(t.Args[0].Type) {
				// one is less, or the other, or they are equal
				less, eq := false, false
				for _, m := range lits {
					if m.pos || len(m.t.Args) != 2 {
						continue
					}
					rev := m.t.Args[0] == t.Args[1] && m.t.Args[1] == t.Args[0]
					switch m.t.Op {
					case "lt":
						less = less || rev
					case "eq":
						eq = eq || rev || m.t.Args[0] == t.Args[0] && m.t.Args[1] == t.Args[1]
					}
				}
				if less && eq {
					return false
				}
			}
			if l.pos {
				for _, m := range lits {
					if m.pos && m.t.Op == "lt" && m.t.Args[0] == t.Args[1] && m.t.Args[1] == t.Args[0] {
						return false
					}
					if m.pos && m.t.Op == "eq" && (m.t.Args[0] == t.Args[1] && m.t.Args[1] == t.Args[0] || m.t.Args[1] == t.Args[1] && m.t.Args[0] == t.Args[0]) {
						return false
					}
				}
			}
		}
	}
	for t := range seen {
		lo, hasLo := th.lo[t]
		hi, hasHi := th.hi[t]
		if e.nonNeg(t) && (!hasLo || lo < 0) {
			lo, hasLo = 0, true
		}
		if hasLo && hasHi && lo > hi {
			return false
		}
		if c, ok := th.eqc[t]; ok {
			if th.nec[t][c] {
				return false
			}
			if n, ok := intConst(c); ok {
				if hasLo && n < lo || hasHi && n > hi {
					return false
				}
			}
		}
		if hasLo && hasHi && hi-lo < 8 && isIntish(t) {
			all := true
			for v := lo; v <= hi; v++ {
				if !th.nec[t][e.Int(v)] {
					all = false
					break
				}
			}
			if all {
				return false
			}
		}
	}
	return true
}

func isIntish(t *Term) bool { return isInt(t.Type) || t.Op == "lin" || t.Op == "len" || t.Op == "iter" }

// Equiv reports whether two conditions agree on everything feasible.
func (e *Eng) Equiv(a, b Bdd) bool {
	if a == b {
		return true
	}
	return !e.Sat(e.Xor(a, b))
}

// Implies reports whether a implies b on everything feasible.
func (e *Eng) Implies(a, b Bdd) bool { return !e.Sat(e.And(a, e.Not(b))) }
