package eng

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is something a function does that is visible outside it.
type Effect struct {
	Kind  string // "call", "panic", "write", "exit", …
	Name  string
	Args  []Val
	PC    Bdd
	Loops []*Term
	Pos   token.Pos
	In    *ssa.Function
	inst  []*int // the loops themselves, outermost first
}

type state struct {
	pc  Bdd
	mem map[*Term]Val
}

func (s *state) clone() *state {
	m := make(map[*Term]Val, len(s.mem)+4)
	for k, v := range s.mem {
		m[k] = v
	}
	return &state{s.pc, m}
}

type retEdge struct {
	st   *state
	vals []Val
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	pc   Bdd
	ins  ssa.Instruction
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	tup    map[ssa.Value][]Val
	path   string
	rets   []retEdge
	dies   []Bdd
	loops  *loopInfo
	defers []deferred
	parent *frame
}

// Exec analyses one root function.
type Exec struct {
	*Eng
	P        *Prog
	ctx      Bdd
	effects  []*Effect
	depth    int // loop nesting
	stack    []*ssa.Function
	Inline   func(fn *ssa.Function) bool
	Known    func(fn *ssa.Function) bool // the name means the same in both programs
	allocLvl map[*Term]int
	down     bool // the loop counted last counts down
	root     *ssa.Function
	fmtSt    *state // where a value is formatted
	fmtPath  string
	fmtN     int
	steps    int
	Budget   int
	Notes    []string
	lenOf    map[*Term]Val
	InlineN  map[*ssa.Function]int
	snapLvl  int // only objects made at this loop depth or deeper are snapshot
	// GlobalInit: read globals as their initial values
	NoGlobals bool
}

type Undecided struct{ Msg string }

func (x *Exec) fail(format string, a ...interface{}) { panic(Undecided{fmt.Sprintf(format, a...)}) }

// ---- loops ----

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	head  map[*ssa.BasicBlock]*loop
	inner map[*ssa.BasicBlock]*loop
}

func findLoops(fn *ssa.Function) (*loopInfo, error) {
	li := &loopInfo{head: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] { // retreating edge
				if !s.Dominates(b) {
					return nil, fmt.Errorf("irreducible control flow in %s", fn)
				}
				l := li.head[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.head[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range w.Preds {
						if seen[p] && !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	for _, l := range li.head {
		for _, m := range li.head {
			if m != l && m.blocks[l.head] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	for _, b := range li.rpo {
		for _, l := range li.head {
			if l.blocks[b] && (li.inner[b] == nil || len(l.blocks) < len(li.inner[b].blocks)) {
				li.inner[b] = l
			}
		}
	}
	return li, nil
}

type edge struct {
	from *ssa.BasicBlock
	idx  int // successor index
}

type edgeState struct {
	e  edge
	st *state
}

// ---- values ----

func (x *Exec) val(f *frame, v ssa.Value) Val {
	if r, ok := f.env[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		name := x.FnName(v)
		if v.Parent() != nil {
			name = "func#" + x.litHash(v) // a function literal is what it does
		}
		t := x.raw("fn", name, nil, nil, nil, v.Type())
		t.fn = v
		return One(t)
	case *ssa.Global:
		t := x.raw("global", x.strip(v.Pkg.Pkg.Path())+"."+v.Name(), nil, nil, nil, v.Type())
		t.fn = v
		return One(t)
	case *ssa.Builtin:
		return One(x.raw("builtin", v.Name(), nil, nil, nil, nil))
	}
	x.fail("no value for %s (%T) in %s", v.Name(), v, f.fn)
	return nil
}

func isCode(s string) bool {
	return len(s) > 200 && strings.Contains(s, "\npackage ") && strings.Contains(s, "\nfunc ") && !strings.Contains(s, "{{")
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Slice:
			return One(x.Seq(nil, c.Type()))
		case *types.Struct, *types.Array:
			return x.Zero(c.Type())
		}
		if tp, ok := c.Type().(*types.TypeParam); ok {
			_ = tp
		}
		return One(x.Nil())
	}
	v := c.Value
	if v.Kind() == constant.String && isCode(constant.StringVal(v)) {
		// a source text written verbatim: it is analysed as the code it is
		v = constant.MakeString("«code»")
	}
	if isBool(c.Type()) {
		return x.Bool(x.b2(constant.BoolVal(v)))
	}
	if isInt(c.Type()) {
		v = constant.ToInt(v)
	}
	return One(x.Const(v, c.Type()))
}

// FnName is the canonical name of a function.
func (e *Eng) FnName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return e.strip(s)
}

// litHash stands for the text of a function literal.
func (e *Eng) litHash(fn *ssa.Function) string {
	if h, ok := e.lits[fn]; ok {
		return h
	}
	var b strings.Builder
	var dump func(f *ssa.Function)
	dump = func(f *ssa.Function) {
		fmt.Fprintln(&b, e.TypeName(f.Signature))
		for _, p := range f.Params {
			fmt.Fprintln(&b, p.Name())
		}
		for _, v := range f.FreeVars {
			fmt.Fprintln(&b, v.Name())
		}
		for _, bl := range f.Blocks {
			fmt.Fprintln(&b, bl.Index, bl.Succs)
			for _, ins := range bl.Instrs {
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					fmt.Fprint(&b, v.Name(), " ", e.TypeName(v.Type()), " = ")
				}
				fmt.Fprintln(&b, ins)
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && g.Parent() != nil && g != f {
						dump(g)
					}
				}
			}
		}
	}
	dump(fn)
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(strings.ReplaceAll(b.String(), fn.Name(), "func"))))[:16]
	if e.lits == nil {
		e.lits = map[*ssa.Function]string{}
	}
	e.lits[fn] = h
	return h
}

// ---- memory ----

func addrRoot(a *Term) *Term {
	for {
		switch a.Op {
		case "&fld", "&idx", "content", "fld", "idx", "slice", "live":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isPrefix(p, a *Term) bool {
	for {
		if a == p {
			return true
		}
		switch a.Op {
		case "&fld", "&idx":
			a = a.Args[0]
		default:
			return false
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) loadLeaf(st *state, a *Term, typ types.Type) Val {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.Op {
	case "&fld":
		p := a.Args[0]
		if v, ok := st.mem[p]; ok {
			return x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], a.Aux, typ) }, v)
		}
		pt := types.Type(nil)
		if a.Args[0].Type != nil {
			pt = derefType(a.Args[0].Type)
		}
		base := x.loadDefault(st, p, pt)
		return x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], a.Aux, typ) }, base)
	case "&idx":
		s, i := a.Args[0], a.Args[1]
		var c Val
		if isPtr(s) {
			// pointer to array
			arr := derefType(s.Type).Underlying().(*types.Array)
			if _, isc := intConst(i); isc && s.Op == "alloc" {
				if v, ok := st.mem[s]; ok {
					return x.Apply(True, func(t []*Term) Val { return x.Idx(t[0], i, typ) }, v)
				}
				return x.Zero(typ)
			}
			c = x.loadLeaf(st, s, arr)
		} else {
			c = x.content(st, s)
		}
		return x.Apply(True, func(t []*Term) Val { return x.Idx(t[0], i, typ) }, c)
	}
	return x.loadDefault(st, a, typ)
}

func isPtr(t *Term) bool {
	if t.Type == nil {
		return false
	}
	_, ok := t.Type.Underlying().(*types.Pointer)
	return ok
}

// loadDefault composes the value at an address from its parts.
func (x *Exec) loadDefault(st *state, a *Term, typ types.Type) Val {
	if v, ok := st.mem[a]; ok {
		return v
	}
	if typ == nil && a.Type != nil {
		typ = derefType(a.Type)
	}
	var parts bool
	for k := range st.mem {
		if k != a && (k.Op == "&fld" || k.Op == "&idx") && isPrefix(a, k) {
			parts = true
			break
		}
	}
	if parts && typ != nil {
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			vals := make([]Val, u.NumFields())
			for i := range vals {
				fa := x.fldAddr(a, u.Field(i).Name(), u.Field(i).Type())
				vals[i] = x.loadField(st, a, fa, u.Field(i).Name(), u.Field(i).Type())
			}
			return One(x.raw("struct", x.TypeName(typ), nil, vals, nil, typ))
		case *types.Array:
			var el []Val
			for i := int64(0); i < u.Len(); i++ {
				ia := x.idxAddr(a, x.Int(i), u.Elem())
				if v, ok := st.mem[ia]; ok {
					el = append(el, v)
				} else {
					el = append(el, x.loadDefault(st, ia, u.Elem()))
				}
			}
			return x.Apply(True, func(t []*Term) Val { return One(x.Seq(t, typ)) }, el...)
		}
	}
	if v, ok := st.mem[x.contentAddr(a)]; ok && a.Op != "&fld" && a.Op != "&idx" {
		return v
	}
	switch a.Op {
	case "alloc":
		if typ != nil {
			return x.Zero(typ)
		}
	case "&fld", "&idx":
		return x.loadLeaf2(st, a, typ)
	case "global":
		if g, ok := a.fn.(*ssa.Global); ok && !x.NoGlobals {
			if v, ok := x.P.GlobalInit(x, g); ok {
				return v
			}
		}
		return One(x.raw("gval", a.Aux, nil, nil, nil, typ))
	}
	t := x.raw("deref", "", []*Term{a}, nil, nil, typ)
	if typ != nil && isBool(typ) {
		return x.Bool(x.Atom(t))
	}
	if a.Op == "obj" && len(a.Vals) == 1 {
		return a.Vals[0]
	}
	return One(t)
}

func (x *Exec) loadLeaf2(st *state, a *Term, typ types.Type) Val {
	if a.Op == "&fld" {
		base := x.loadDefault(st, a.Args[0], nil)
		return x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], a.Aux, typ) }, base)
	}
	s, i := a.Args[0], a.Args[1]
	var c Val
	if isPtr(s) {
		c = x.loadDefault(st, s, nil)
	} else {
		c = x.content(st, s)
	}
	return x.Apply(True, func(t []*Term) Val { return x.Idx(t[0], i, typ) }, c)
}

func (x *Exec) loadField(st *state, a, fa *Term, name string, typ types.Type) Val {
	if v, ok := st.mem[fa]; ok {
		return v
	}
	for k := range st.mem {
		if k != fa && isPrefix(fa, k) {
			return x.loadDefault(st, fa, typ)
		}
	}
	if v, ok := st.mem[x.contentAddr(a)]; ok && a.Op != "&fld" && a.Op != "&idx" {
		return x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], name, typ) }, v)
	}
	var base *Term
	switch a.Op {
	case "alloc":
		return x.Zero(typ)
	case "&fld", "&idx":
		v := x.loadLeaf2(st, a, nil)
		return x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], name, typ) }, v)
	default:
		base = x.raw("deref", "", []*Term{a}, nil, nil, nil)
	}
	return x.Fld(base, name, typ)
}

func (x *Exec) fldAddr(p *Term, name string, typ types.Type) *Term {
	return x.raw("&fld", name, []*Term{p}, nil, nil, types.NewPointer(typ))
}
func (x *Exec) idxAddr(p, i *Term, typ types.Type) *Term {
	return x.raw("&idx", "", []*Term{p, i}, nil, nil, types.NewPointer(typ))
}

// content is the current content of a slice, map or opaque object.
func (x *Exec) content(st *state, o *Term) Val {
	o = unwrapIf(o)
	if o.Op == "slice" {
		c := x.content(st, o.Args[0])
		if len(c) == 1 && c[0].T == o.Args[0] {
			return One(o)
		}
		return x.Apply(True, func(t []*Term) Val { return One(x.SliceOf(t[0], o.Args[1], o.Args[2], o.Type)) }, c)
	}
	if v, ok := st.mem[x.contentAddr(o)]; ok {
		return v
	}
	if o.Op == "alloc" && strings.HasPrefix(o.Aux, "map:") {
		return One(x.raw("empty", "", nil, nil, nil, o.Type))
	}
	if o.Op == "alloc" && isBuf(o.Type) {
		return x.bufContent(st, o)
	}
	return One(o)
}

func (x *Exec) contentAddr(o *Term) *Term {
	return x.raw("content", "", []*Term{unwrapIf(o)}, nil, nil, nil)
}

func (x *Exec) load(st *state, a Val, typ types.Type) Val {
	asm := x.And(x.ctx, st.pc)
	r := x.Apply(asm, func(t []*Term) Val { return x.loadLeaf(st, t[0], typ) }, a)
	return x.Prune(asm, r)
}

func (x *Exec) storeLeaf(st *state, a *Term, v Val, cond Bdd, typ types.Type) {
	if cond != True {
		old := x.loadLeaf(st, a, typ)
		v = x.merge2(cond, v, old)
	}
	if a.Op == "&idx" {
		s, i := a.Args[0], a.Args[1]
		_, isc := intConst(i)
		if isPtr(s) {
			if !isc || s.Op != "alloc" {
				arr := derefType(s.Type)
				old := x.loadLeaf(st, s, arr)
				nv := x.Apply(True, func(t []*Term) Val {
					return One(x.updI(t[0], i, t[1], arr))
				}, old, v)
				x.clearSub(st, s)
				st.mem[s] = nv
				return
			}
			if old, ok := st.mem[s]; ok { // whole array stored earlier
				arr := derefType(s.Type)
				nv := x.Apply(True, func(t []*Term) Val {
					return One(x.updI(t[0], i, t[1], arr))
				}, old, v)
				st.mem[s] = nv
				return
			}
		} else {
			old := x.content(st, s)
			nv := x.Apply(True, func(t []*Term) Val {
				c := t[0]
				if n, ok := intConst(i); ok && c.Op == "seq" && n >= 0 && n < int64(len(c.Args)) {
					el := append([]*Term(nil), c.Args...)
					el[n] = t[1]
					return One(x.Seq(el, c.Type))
				}
				return One(x.updI(c, i, t[1], s.Type))
			}, old, v)
			st.mem[x.contentAddr(s)] = nv
			return
		}
	}
	if a.Op == "&fld" && x.inElem(a.Args[0]) {
		// part of a slice element: an update of the slice
		p := a.Args[0]
		pt := derefType(p.Type)
		old := x.loadLeaf(st, p, pt)
		nv := x.Apply(True, func(t []*Term) Val { return One(x.UpdF(t[0], a.Aux, v)) }, old)
		x.storeLeaf(st, p, nv, True, pt)
		return
	}
	if a.Op == "&fld" {
		p := a.Args[0]
		if pv, ok := st.mem[p]; ok {
			// split the whole value into fields
			pt := derefType(p.Type)
			if u, ok := pt.Underlying().(*types.Struct); ok {
				delete(st.mem, p)
				for i := 0; i < u.NumFields(); i++ {
					fl := u.Field(i)
					fa := x.fldAddr(p, fl.Name(), fl.Type())
					st.mem[fa] = x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], fl.Name(), fl.Type()) }, pv)
				}
			}
		}
	}
	x.clearSub(st, a)
	st.mem[a] = v
}

// inElem: the address lies inside an element of a slice (or of an array that
// is not tracked element by element).
func (x *Exec) inElem(a *Term) bool {
	switch a.Op {
	case "&fld":
		return x.inElem(a.Args[0])
	case "&idx":
		if isPtr(a.Args[0]) {
			if _, isc := intConst(a.Args[1]); isc && a.Args[0].Op == "alloc" {
				return false
			}
		}
		return true
	}
	return false
}

// UpdF is a struct value with one field replaced.
func (e *Eng) UpdF(t *Term, name string, v Val) *Term {
	switch t.Op {
	case "struct":
		if i := fieldIndex(t.Type, name); i >= 0 && i < len(t.Vals) {
			vals := append([]Val(nil), t.Vals...)
			vals[i] = v
			return e.raw("struct", t.Aux, nil, vals, nil, t.Type)
		}
	case "updf":
		if t.Aux == name {
			return e.UpdF(t.Args[0], name, v)
		}
		if name < t.Aux {
			return e.raw("updf", t.Aux, []*Term{e.UpdF(t.Args[0], name, v)}, t.Vals, nil, t.Type)
		}
	}
	return e.raw("updf", name, []*Term{t}, []Val{v}, nil, t.Type)
}

func (e *Eng) updI(c, i, v *Term, typ types.Type) *Term {
	if c.Op == "updi" && c.Args[1] == i {
		return e.updI(c.Args[0], i, v, typ)
	}
	return e.raw("updi", "", []*Term{c, i, v}, nil, nil, typ)
}

func (x *Exec) clearSub(st *state, a *Term) {
	for k := range st.mem {
		if k != a && (k.Op == "&fld" || k.Op == "&idx") && isPrefix(a, k) {
			delete(st.mem, k)
		}
	}
}

func (x *Exec) merge2(c Bdd, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	var out Val
	n := x.Not(c)
	for _, k := range a {
		if b := x.And(c, k.C); b != False {
			out = append(out, Case{b, k.T})
		}
	}
	for _, k := range b {
		if b := x.And(n, k.C); b != False {
			out = append(out, Case{b, k.T})
		}
	}
	out = x.norm(out)
	if len(out) == 1 {
		return One(out[0].T)
	}
	if len(out) > maxCases {
		return One(x.Fold(out))
	}
	return out
}

func (x *Exec) store(st *state, a, v Val, typ types.Type) {
	asm := x.And(x.ctx, st.pc)
	a = x.Prune(asm, a)
	v = x.Prune(asm, v)
	for _, c := range a {
		if x.holds(st, asm, c, v, typ) {
			continue
		}
		x.storeLeaf(st, c.T, v, c.C, typ)
	}
}

// holds: the element already has the constant value that is stored.
func (x *Exec) holds(st *state, asm Bdd, c Case, v Val, typ types.Type) bool {
	if c.T.Op != "&idx" || isPtr(c.T.Args[0]) || len(v) != 1 || !isConst(v[0].T) || v[0].T.C == nil {
		return false
	}
	old := x.loadLeaf(st, c.T, typ)
	here := x.And(asm, c.C)
	return x.Implies(here, x.Cond(x.Apply(here, func(t []*Term) Val { return x.Eq(t[0], t[1]) }, old, v)))
}

// merge joins states that reach the same block.
func (x *Exec) merge(ss []*state) *state {
	if len(ss) == 1 {
		return ss[0].clone()
	}
	total := False
	for _, s := range ss {
		total = x.Or(total, s.pc)
	}
	out := &state{pc: total, mem: map[*Term]Val{}}
	keys := map[*Term]bool{}
	for _, s := range ss {
		for k := range s.mem {
			keys[k] = true
		}
	}
	ordered := make([]*Term, 0, len(keys))
	for k := range keys {
		ordered = append(ordered, k)
	}
	sort.Slice(ordered, func(i, j int) bool { return ordered[i].ID < ordered[j].ID })
	for _, k := range ordered {
		if k.Op == "live" {
			out.mem[k] = One(x.TTrue)
			continue
		}
		var vs []Val
		var ps []*state
		same := true
		part := False
		for _, s := range ss {
			v, ok := s.mem[k]
			if !ok {
				if !x.isLive(s, k) {
					continue // not allocated on this path
				}
				v = x.missing(s, k)
			}
			vs = append(vs, v)
			ps = append(ps, s)
			part = x.Or(part, s.pc)
			if !sameVal(vs[0], v) {
				same = false
			}
		}
		if same {
			out.mem[k] = vs[0]
			continue
		}
		out.mem[k] = x.phi(part, ps, vs)
	}
	// an address must not coexist with a part of itself
	for _, k := range ordered {
		if k.Op != "&fld" && k.Op != "&idx" {
			continue
		}
		if p := k.Args[0]; p != nil {
			if _, ok := out.mem[p]; ok && (k.Op == "&fld" || isPtr(p)) {
				// drop the whole value, keep parts
				whole := out.mem[p]
				pt := derefType(p.Type)
				if u, ok := pt.Underlying().(*types.Struct); ok {
					delete(out.mem, p)
					for i := 0; i < u.NumFields(); i++ {
						fl := u.Field(i)
						fa := x.fldAddr(p, fl.Name(), fl.Type())
						if _, ok := out.mem[fa]; !ok {
							out.mem[fa] = x.Apply(True, func(t []*Term) Val { return x.Fld(t[0], fl.Name(), fl.Type()) }, whole)
						}
					}
				}
			}
		}
	}
	return out
}

// isLive: the object an address belongs to exists in this state.
func (x *Exec) isLive(s *state, k *Term) bool {
	r := addrRoot(k)
	if r.Op != "alloc" && r.Op != "mkslice" {
		return true
	}
	if strings.HasPrefix(r.Aux, "opq:") || strings.HasPrefix(r.Aux, "buf:") {
		_, ok := s.mem[x.contentAddr(r)]
		return ok
	}
	_, ok := s.mem[x.liveKey(r)]
	return ok
}

func (x *Exec) liveKey(a *Term) *Term { return x.raw("live", "", []*Term{a}, nil, nil, nil) }

func (x *Exec) missing(s *state, k *Term) Val {
	if k.Op == "content" {
		return x.content(s, k.Args[0])
	}
	var typ types.Type
	if k.Type != nil {
		if p, ok := k.Type.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
		}
	}
	return x.loadLeaf(s, k, typ)
}

func sameVal(a, b Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// phi selects vs[i] when control comes through ss[i].
func (x *Exec) phi(total Bdd, ss []*state, vs []Val) Val {
	var out Val
	for i, s := range ss {
		c := x.Constrain(s.pc, total)
		for _, k := range vs[i] {
			if b := x.And(c, k.C); b != False {
				out = append(out, Case{b, k.T})
			}
		}
	}
	out = x.norm(out)
	if len(out) == 1 {
		return One(out[0].T)
	}
	for i := range out {
		out[i].C = x.Constrain(out[i].C, total)
	}
	out = x.norm(out)
	if len(out) == 1 {
		return One(out[0].T)
	}
	if len(out) > maxCases {
		return One(x.Fold(out))
	}
	return out
}

// ---- running a function ----

func (x *Exec) callFn(fn *ssa.Function, args, free []Val, st *state, path string) (res []Val, out *state) {
	li := x.P.loops(x, fn)
	f := &frame{fn: fn, env: map[ssa.Value]Val{}, tup: map[ssa.Value][]Val{}, path: path, loops: li}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[p] = free[i]
		}
	}
	x.stack = append(x.stack, fn)
	x.InlineN[fn]++
	saved := x.ctx
	x.ctx = x.And(x.ctx, st.pc)
	in := st.clone()
	in.pc = True
	edges := map[edge]*state{}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range li.rpo {
		all[b] = true
	}
	x.region(f, li.rpo, nil, edges, in)
	x.ctx = saved
	x.stack = x.stack[:len(x.stack)-1]
	if len(f.rets) == 0 {
		s := st.clone()
		s.pc = False
		nr := fn.Signature.Results().Len()
		for i := 0; i < nr; i++ {
			res = append(res, One(x.raw("never", "", nil, nil, nil, nil)))
		}
		return res, s
	}
	var ss []*state
	for _, r := range f.rets {
		ss = append(ss, r.st)
	}
	m := x.merge(ss)
	nr := fn.Signature.Results().Len()
	for i := 0; i < nr; i++ {
		var vs []Val
		for _, r := range f.rets {
			vs = append(vs, r.vals[i])
		}
		res = append(res, x.phi(m.pc, ss, vs))
	}
	m.pc = x.And(st.pc, m.pc)
	return res, m
}

// region runs the blocks (in reverse post order) of one loop body or function
// body. lp is the loop being run (nil for a function body).
func (x *Exec) region(f *frame, blocks []*ssa.BasicBlock, lp *loop, edges map[edge]*state, entry *state) {
	li := f.loops
	for bi, b := range blocks {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		if li.inner[b] != lp {
			// block of an inner loop: run the loop at its header
			l := li.head[b]
			if l == nil || l.parent != lp {
				continue
			}
			var in []edgeState
			for _, p := range b.Preds {
				if l.blocks[p] {
					continue
				}
				for si, s := range p.Succs {
					if s == b {
						if st, ok := edges[edge{p, si}]; ok {
							if !inEdges(in, edge{p, si}) {
								in = append(in, edgeState{edge{p, si}, st})
							}
						}
					}
				}
			}
			if len(in) == 0 && b != f.fn.Blocks[0] {
				continue
			}
			x.execLoop(f, l, in, edges, blocks)
			continue
		}
		var st *state
		if bi == 0 && entry != nil {
			st = entry
		} else if lp != nil && b == lp.head {
			x.fail("loop header reached twice")
		} else {
			var ss []*state
			var es []edge
			for _, p := range b.Preds {
				for si, s := range p.Succs {
					if s != b {
						continue
					}
					dup := false
					for _, q := range es {
						if q == (edge{p, si}) {
							dup = true
						}
					}
					if e, ok := edges[edge{p, si}]; ok && !dup {
						ss = append(ss, e)
						es = append(es, edge{p, si})
					}
				}
			}
			if len(ss) == 0 {
				continue
			}
			st = x.merge(ss)
			if !x.Sat(x.And(x.ctx, st.pc)) {
				continue
			}
			x.phis(f, b, es, ss, st.pc)
		}
		x.block(f, b, st, edges)
	}
}

func inEdges(in []edgeState, e edge) bool {
	for _, i := range in {
		if i.e == e {
			return true
		}
	}
	return false
}

// predIndex finds the position of an edge among b's predecessors.
func predIndex(b *ssa.BasicBlock, e edge) int {
	n := 0
	for k := 0; k < e.idx; k++ {
		if e.from.Succs[k] == b {
			n++
		}
	}
	for i, p := range b.Preds {
		if p == e.from {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return -1
}

func (x *Exec) phis(f *frame, b *ssa.BasicBlock, es []edge, ss []*state, total Bdd) {
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var us []upd
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for i := range es {
			v := x.val(f, p.Edges[predIndex(b, es[i])])
			vs = append(vs, x.Prune(x.And(x.ctx, ss[i].pc), v))
		}
		us = append(us, upd{p, x.phi(total, ss, vs)})
	}
	for _, u := range us {
		f.env[u.p] = u.v
	}
}

func (x *Exec) step() {
	x.steps++
	if x.steps > x.Budget {
		x.fail("analysis budget exceeded in %s", x.root)
	}
}

func (x *Exec) block(f *frame, b *ssa.BasicBlock, st *state, edges map[edge]*state) {
	for _, ins := range b.Instrs {
		x.step()
		if st.pc == False {
			return
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.Cond(x.Prune(x.And(x.ctx, st.pc), x.val(f, ins.Cond)))
			t, e := st, st.clone()
			t.pc, e.pc = x.And(st.pc, c), x.And(st.pc, x.Not(c))
			if t.pc != False && x.Sat(x.And(x.ctx, t.pc)) {
				edges[edge{b, 0}] = t
			}
			if e.pc != False && x.Sat(x.And(x.ctx, e.pc)) {
				edges[edge{b, 1}] = e
			}
			return
		case *ssa.Jump:
			edges[edge{b, 0}] = st
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range ins.Results {
				vs = append(vs, x.Prune(x.And(x.ctx, st.pc), x.val(f, r)))
			}
			f.rets = append(f.rets, retEdge{st, vs})
			return
		case *ssa.Panic:
			x.effect(f, st, "panic", "", ins.Pos(), x.snapAll(st, []Val{x.val(f, ins.X)}))
			f.dies = append(f.dies, st.pc)
			return
		default:
			st = x.instr(f, ins, st)
		}
	}
}

func (x *Exec) effect(f *frame, st *state, kind, name string, pos token.Pos, args []Val) {
	asm := x.And(x.ctx, st.pc)
	if !x.Sat(asm) {
		return
	}
	x.effects = append(x.effects, &Effect{Kind: kind, Name: name, Args: args, PC: asm, Pos: pos, In: f.fn})
}

// ---- loops ----

type phiRec struct {
	phi   *ssa.Phi
	addr  *Term
	sym   *Term
	init  Val
	next  Val
	typ   types.Type
	fixed bool
	// forced: a flag the loop tests before every iteration, taken to say "go on"
	// inside the loop; leaving is decided where the flag gets its value.
	forced, keep bool
	// as: what it is at the head of every iteration, in terms of the others
	as Val
	// pre: the list this is a beginning of; sym is then the length
	pre    Val
	elem   types.Type // the list's type
	notPre bool
}

// prefixes finds a list every iteration takes elements off the end of: it is a
// beginning of the list there was before the loop, and only its length varies.
func (x *Exec) prefixes(recs []*phiRec, key string) bool {
	for i, r := range recs {
		if r.phi == nil || r.fixed || r.forced || r.as != nil || r.pre != nil || r.notPre || r.typ == nil || len(r.next) != 1 || len(r.init) != 1 {
			continue
		}
		if _, ok := r.typ.Underlying().(*types.Slice); !ok {
			continue
		}
		t := r.next[0].T
		if t.Op != "slice" || t.Args[0] != r.sym || t.Args[1].Op != "none" || t.Args[2].Op == "none" {
			continue
		}
		l, n := x.Len(r.sym), x.Len(r.init[0].T)
		if len(l) != 1 || len(n) != 1 {
			continue
		}
		h, ok := x.toLin(t.Args[2])
		if !ok || len(h.ts) != 1 || h.ts[l[0].T] != 1 || h.c >= 0 {
			continue
		}
		r.pre, r.init = r.init, n
		r.elem, r.typ = r.typ, types.Typ[types.Int]
		r.sym = x.NewSym(fmt.Sprintf("%s/len%d", key, i))
		r.sym.Type = r.typ
		return true
	}
	return false
}

// prefixLen is the length of what becomes of a beginning of a list.
func (x *Exec) prefixLen(r *phiRec) bool {
	var out Val
	base := r.pre[0].T
	if base.Op == "slice" && base.Args[1].Op == "none" {
		base = base.Args[0]
	}
	for _, c := range r.next {
		switch {
		case c.T == base:
			n := x.Len(c.T)
			out = append(out, Case{c.C, n[0].T})
		case c.T.Op == "slice" && c.T.Args[0] == base && c.T.Args[1].Op == "none":
			out = append(out, Case{c.C, c.T.Args[2]})
		default:
			return false
		}
	}
	r.next = x.norm(out)
	return true
}

func (x *Exec) execLoop(f *frame, l *loop, in []edgeState, edges map[edge]*state, blocks []*ssa.BasicBlock) {
	var ss []*state
	var es []edge
	for _, i := range in {
		ss = append(ss, i.st)
		es = append(es, i.e)
	}
	x.loopFrom(f, l, ss, es, edges, blocks)
}

func (x *Exec) loopFrom(f *frame, l *loop, ss []*state, es []edge, edges map[edge]*state, blocks []*ssa.BasicBlock) {
	s0 := x.merge(ss)
	if !x.Sat(x.And(x.ctx, s0.pc)) {
		return
	}
	if x.unroll(f, l, s0, es, ss, edges, blocks) {
		return
	}
	key := fmt.Sprintf("%s/L%d", f.path, l.head.Index)
	var recs []*phiRec
	rotated := false
	var rotEdge edge
	var latchExit *state
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for i := range es {
			vs = append(vs, x.Prune(x.And(x.ctx, ss[i].pc), x.val(f, p.Edges[predIndex(l.head, es[i])])))
		}
		r := &phiRec{phi: p, init: x.phi(s0.pc, ss, vs), typ: p.Type()}
		r.sym = x.NewSym(fmt.Sprintf("%s/phi%d", key, len(recs)))
		r.sym.Type = p.Type()
		recs = append(recs, r)
	}
	savedCtx := x.ctx
	x.ctx = x.And(x.ctx, s0.pc)
	x.depth++
	myDepth := x.depth
	markE, markR, markD := len(x.effects), len(f.rets), len(f.dies)
	var backs []*state
	var backE []edge
	var ed map[edge]*state
	symset := map[int]bool{}
	fixedAddr := map[*Term]bool{}
	for pass := 0; ; pass++ {
		if pass > 20 {
			x.fail("loop in %s does not stabilise", f.fn)
		}
		x.effects = x.effects[:markE]
		f.rets = f.rets[:markR]
		f.dies = f.dies[:markD]
		st := s0.clone()
		st.pc = True
		symset = map[int]bool{}
		for _, r := range recs {
			if r.fixed {
				if r.phi != nil {
					f.env[r.phi] = r.init
					if r.pre != nil {
						f.env[r.phi] = r.pre
					}
				}
				continue
			}
			if r.forced {
				if r.phi != nil {
					f.env[r.phi] = x.Bool(boolBdd(r.keep))
				} else {
					st.mem[r.addr] = x.Bool(boolBdd(r.keep))
				}
				continue
			}
			if r.as != nil {
				f.env[r.phi] = r.as
				if r.pre != nil {
					f.env[r.phi] = One(x.SliceOf(r.pre[0].T, x.None(), x.Fold(r.as), r.elem))
				}
				continue
			}
			symset[r.sym.syms[0]] = true
			v := One(r.sym)
			if isBool(r.typ) {
				v = x.Bool(x.Atom(r.sym))
			}
			if r.pre != nil {
				v = One(x.SliceOf(r.pre[0].T, x.None(), r.sym, r.elem))
			}
			if r.phi != nil {
				f.env[r.phi] = v
			} else {
				x.clearSub(st, r.addr)
				st.mem[r.addr] = v
			}
		}
		ed = map[edge]*state{}
		// the header's own block, then the rest
		x.runLoopBody(f, l, st, ed, blocks)
		backs, backE = nil, nil
		for _, p := range l.head.Preds {
			if !l.blocks[p] {
				continue
			}
			for si, s := range p.Succs {
				if s == l.head {
					e := edge{p, si}
					dup := false
					for _, q := range backE {
						dup = dup || q == e
					}
					if bs, ok := ed[e]; ok && !dup {
						backs = append(backs, bs)
						backE = append(backE, e)
					}
				}
			}
		}
		if len(backs) == 0 {
			// the body never repeats: phis have their initial values
			ch := false
			for _, r := range recs {
				if !r.fixed {
					r.fixed, r.forced = true, false
					ch = true
				}
			}
			if ch {
				continue
			}
			break
		}
		mb := x.merge(backs)
		changed := false
		for _, r := range recs {
			if r.phi != nil {
				var vs []Val
				for i := range backE {
					vs = append(vs, x.Prune(x.And(x.ctx, backs[i].pc), x.val(f, r.phi.Edges[predIndex(l.head, backE[i])])))
				}
				r.next = x.phi(mb.pc, backs, vs)
				if r.pre != nil && !r.fixed && r.as == nil && !x.prefixLen(r) {
					// not a beginning after all
					r.init, r.typ, r.pre, r.notPre = r.pre, r.elem, nil, true
					r.sym = x.NewSym(r.sym.Aux + "'")
					r.sym.Type = r.typ
					changed = true
					continue
				}
			} else {
				if v, ok := mb.mem[r.addr]; ok {
					r.next = v
				} else {
					r.next = x.missing(mb, r.addr)
				}
			}
			if !r.fixed && !r.forced && r.as == nil && x.invariant(r, symset) {
				r.fixed = true
				changed = true
				if r.addr != nil {
					fixedAddr[r.addr] = true
				}
			}
		}
		have := map[*Term]bool{}
		for _, r := range recs {
			if r.addr != nil {
				have[r.addr] = true
			}
		}
		var add []*Term
		for a, v := range mb.mem {
			if have[a] || hasSym(a.syms, symset) {
				continue
			}
			if x.localToLoop(a, myDepth) {
				continue
			}
			var old Val
			if o, ok := s0.mem[a]; ok {
				old = o
			} else {
				old = x.missing(s0, a)
			}
			if sameVal(old, v) {
				continue
			}
			add = append(add, a)
		}
		sort.Slice(add, func(i, j int) bool { return add[i].ID < add[j].ID })
		for _, a := range add {
			var typ types.Type
			if a.Op != "content" && a.Type != nil {
				typ = derefType(a.Type)
			} else if a.Op == "content" {
				typ = types.Typ[types.String]
				if o := a.Args[0].Type; o != nil {
					if _, ok := o.Underlying().(*types.Slice); ok {
						typ = o
					}
				}
			}
			var old Val
			if o, ok := s0.mem[a]; ok {
				old = o
			} else {
				old = x.missing(s0, a)
			}
			r := &phiRec{addr: a, init: old, typ: typ}
			r.sym = x.NewSym(fmt.Sprintf("%s/mem%d", key, a.ID))
			if h := r.hint(x); h != "" {
				if _, ok := x.blindMemo[r.sym]; !ok {
					x.blindMemo[r.sym] = fnvs(fnvs(77, h), x.typeTag(typ))
				}
			}
			r.sym.Type = typ
			recs = append(recs, r)
			changed = true
		}
		if changed {
			for _, r := range recs {
				r.as = nil
			}
			continue
		}
		if !rotated && x.prefixes(recs, key) {
			continue
		}
		if !rotated && x.derive(recs, mb.pc) {
			continue
		}
		if !rotated {
			if r, e, keep := x.flag(f, l, recs); r != nil {
				on := x.Cond(r.init)
				if !keep {
					on = x.Not(on)
				}
				if !x.Implies(x.ctx, on) {
					// the flag may be off from the start: then there is no iteration
					if !x.Sat(x.And(x.ctx, on)) {
						break
					}
					x.effects, f.rets, f.dies = x.effects[:markE], f.rets[:markR], f.dies[:markD]
					x.ctx = savedCtx
					x.depth--
					off := s0.clone()
					off.pc = x.And(s0.pc, x.Not(on))
					var ns []*state
					for _, s := range ss {
						s = s.clone()
						s.pc = x.And(s.pc, on)
						ns = append(ns, s)
					}
					init := map[*ssa.Phi]Val{}
					for _, q := range recs {
						if q.phi != nil {
							init[q.phi] = q.init
							if q.pre != nil {
								init[q.phi] = q.pre
							}
						}
					}
					x.loopFrom(f, l, ns, es, edges, blocks)
					for p, v := range init {
						if cur, ok := f.env[p]; ok && cur != nil {
							f.env[p] = x.merge2(off.pc, v, cur)
						} else {
							f.env[p] = v
						}
					}
					if o, ok := edges[e]; ok {
						off = x.merge([]*state{off, o})
					}
					edges[e] = off
					return
				}
				c := x.Cond(r.next)
				if !keep {
					c = x.Not(c)
				}
				if x.Sat(x.And(x.And(x.ctx, mb.pc), c)) {
					rotated, rotEdge = true, e
					for _, q := range recs {
						q.fixed, q.as = false, nil
					}
					r.forced, r.keep = true, keep
					continue
				}
			}
			break
		}
		// the flag decides at the end of an iteration
		var fl *phiRec
		for _, r := range recs {
			if r.forced {
				fl = r
			}
		}
		c := x.Cond(fl.next)
		if !fl.keep {
			c = x.Not(c)
		}
		latchExit = mb.clone()
		latchExit.pc = x.And(mb.pc, x.Not(c))
		phiNext := map[*ssa.Phi]Val{}
		for _, r := range recs {
			if r.phi != nil {
				phiNext[r.phi] = r.next
				if r.pre != nil {
					phiNext[r.phi] = One(x.SliceOf(r.pre[0].T, x.None(), x.Fold(r.next), r.elem))
				}
			}
		}
		var nb []*state
		var ne []edge
		for i, b := range backs {
			b = b.clone()
			b.pc = x.And(b.pc, c)
			if x.Sat(x.And(x.ctx, b.pc)) {
				nb, ne = append(nb, b), append(ne, backE[i])
			}
		}
		backs, backE = nb, ne
		mb = x.merge(backs)
		for _, r := range recs {
			if r.phi != nil {
				var vs []Val
				for i := range backE {
					vs = append(vs, x.Prune(x.And(x.ctx, backs[i].pc), x.val(f, r.phi.Edges[predIndex(l.head, backE[i])])))
				}
				r.next = x.phi(mb.pc, backs, vs)
				if r.pre != nil && !x.prefixLen(r) {
					x.fail("loop in %s does not stabilise", f.fn)
				}
			} else if v, ok := mb.mem[r.addr]; ok {
				r.next = v
			} else {
				r.next = x.missing(mb, r.addr)
			}
		}
		if x.Sat(x.And(x.ctx, latchExit.pc)) {
			for p, v := range phiNext {
				if cur, ok := f.env[p]; ok {
					f.env[p] = x.merge2(latchExit.pc, v, cur)
				}
			}
		} else {
			latchExit = nil
		}
		for i, r := range recs {
			if r == fl {
				recs = append(recs[:i:i], recs[i+1:]...)
				break
			}
		}
		break
	}
	if latchExit != nil {
		if o, ok := ed[rotEdge]; ok {
			latchExit = x.merge([]*state{o, latchExit})
		}
		ed[rotEdge] = latchExit
	}
	if len(backs) > 0 {
		// objects made by an iteration are known by their content from here on
		mb := x.merge(backs)
		for _, r := range recs {
			if !r.fixed && r.as == nil && !isBool(r.typ) {
				x.snapLvl = myDepth
				r.next = x.snap(mb, r.next)
				x.snapLvl = 0
				// what it is where there is no next iteration does not matter
				var live Val
				for _, c := range r.next {
					if c.C = x.And(c.C, mb.pc); c.C != False {
						live = append(live, c)
					}
				}
				if len(live) == 1 {
					live[0].C = True
				}
				r.next = live
			}
		}
	}
	x.ctx = savedCtx
	x.depth--
	vhead := l.head
	if rotated {
		// the first test that is still a test
		for {
			var next *ssa.BasicBlock
			n := 0
			for si, s := range vhead.Succs {
				if _, ok := ed[edge{vhead, si}]; ok && (edge{vhead, si}) != rotEdge {
					n++
					next = s
				}
			}
			if n != 1 || next == l.head || !l.blocks[next] || len(next.Preds) != 1 {
				break
			}
			vhead = next
			if vhead == rotEdge.from {
				continue
			}
			if !pureBlock(vhead) {
				break
			}
		}
	}
	x.finishLoop(f, l, s0, recs, symset, backs, ed, edges, markE, markR, markD, myDepth, savedCtx, vhead, rotEdge)
}

func boolBdd(b bool) Bdd {
	if b {
		return True
	}
	return False
}

// pureBlock: nothing but computing a condition.
func pureBlock(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field:
		case *ssa.Call:
			if bi, ok := ins.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// flag finds a loop-carried boolean that the loop tests before each iteration
// and that holds on entry.
func (x *Exec) flag(f *frame, l *loop, recs []*phiRec) (*phiRec, edge, bool) {
	b := l.head
	var target *ssa.BasicBlock
	var from *ssa.BasicBlock
	for {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !pureBlock(b) {
			return nil, edge{}, false
		}
		out := -1
		for i, s := range b.Succs {
			if !l.blocks[s] {
				if out >= 0 {
					return nil, edge{}, false
				}
				out = i
			}
		}
		if out < 0 {
			return nil, edge{}, false
		}
		if target == nil {
			target, from = b.Succs[out], b
		} else {
			if b.Succs[out] != target {
				return nil, edge{}, false
			}
			for _, ins := range target.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if p.Edges[predIndex(target, edge{from, out0(l, from)})] != p.Edges[predIndex(target, edge{b, out})] {
					return nil, edge{}, false
				}
			}
		}
		for _, r := range recs {
			if r.fixed || r.as != nil {
				continue
			}
			if r.phi != nil {
				if ifi.Cond != ssa.Value(r.phi) {
					continue
				}
			} else {
				ld, ok := ifi.Cond.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || !isBool(r.typ) {
					continue
				}
				if _, ok := ld.X.(*ssa.Alloc); !ok {
					continue
				}
				if v := f.env[ld.X]; len(v) != 1 || v[0].T != r.addr {
					continue
				}
			}
			keep := out == 1
			return r, edge{b, out}, keep
		}
		b = b.Succs[1-out]
		if b == l.head || len(b.Preds) != 1 {
			return nil, edge{}, false
		}
	}
}

func out0(l *loop, b *ssa.BasicBlock) int {
	for i, s := range b.Succs {
		if !l.blocks[s] {
			return i
		}
	}
	return -1
}

// derive finds a variable that is a function of the others at the head of
// every iteration: it is so when the loop is entered, and again after every
// iteration.
func (x *Exec) derive(recs []*phiRec, back Bdd) bool {
	asm := x.And(x.ctx, back)
	prune := func(v Val) Val {
		if len(v) == 1 {
			return v
		}
		return x.Prune(asm, v)
	}
	for _, r := range recs {
		if r.phi == nil || r.fixed || r.forced || r.as != nil {
			continue
		}
		next := prune(r.next)
		if _, ok := x.steady(r); ok {
			continue
		}
		before, init, after := map[*Term]Val{}, map[*Term]Val{}, map[*Term]Val{}
		others := map[int]bool{}
		for _, q := range recs {
			if q == r || q.fixed || q.forced || q.as != nil || isBool(q.typ) {
				continue
			}
			others[q.sym.syms[0]] = true
			n := prune(q.next)
			init[q.sym], after[q.sym] = q.init, n
			if len(n) != 1 {
				continue
			}
			t := n[0].T
			if step, ok := x.steady(q); ok {
				before[q.sym] = One(x.Add(q.sym, 1, x.Int(-step), 0))
			} else if t.Op != "sym" && hasSym(t.syms, map[int]bool{q.sym.syms[0]: true}) {
				before[t] = One(q.sym)
			}
		}
		if len(before) == 0 {
			continue
		}
		g := x.newSubst(before).val(next)
		if valDepends(x.Eng, g, map[int]bool{r.sym.syms[0]: true}) || !valDepends(x.Eng, g, others) {
			continue
		}
		same := func(a, b Val, asm Bdd) bool {
			if isBool(r.typ) {
				ca, cb := x.Cond(a), x.Cond(b)
				return x.Implies(x.And(asm, ca), cb) && x.Implies(x.And(asm, cb), ca)
			}
			return sameVal(a, b)
		}
		if !same(x.newSubst(init).val(g), r.init, x.ctx) || !same(x.newSubst(after).val(g), next, asm) {
			continue
		}
		r.as = g
		return true
	}
	return false
}

// unroll runs a loop whose test is decided every time around, if it ends soon.
func (x *Exec) unroll(f *frame, l *loop, s0 *state, es []edge, ss []*state, edges map[edge]*state, blocks []*ssa.BasicBlock) bool {
	const most = 12
	if _, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); !ok || out0(l, l.head) < 0 {
		return false
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for i := range es {
			vs = append(vs, x.Prune(x.And(x.ctx, ss[i].pc), x.val(f, p.Edges[predIndex(l.head, es[i])])))
		}
		phis = append(phis, p)
		vals = append(vals, x.phi(s0.pc, ss, vs))
	}
	if len(phis) == 0 {
		return false
	}
	markE, markR, markD := len(x.effects), len(f.rets), len(f.dies)
	path := f.path
	savedEnv := map[ssa.Value]Val{}
	undo := func() bool {
		x.effects, f.rets, f.dies = x.effects[:markE], f.rets[:markR], f.dies[:markD]
		f.path = path
		for b := range l.blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					if o, ok := savedEnv[v]; ok {
						f.env[v] = o
					} else {
						delete(f.env, v)
					}
					delete(f.tup, v)
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if o, ok := f.env[v]; ok {
					savedEnv[v] = o
				}
			}
		}
	}
	type snap struct {
		pc  Bdd
		env map[ssa.Value]Val
		tup map[ssa.Value][]Val
	}
	var snaps []snap
	outs := map[edge][]*state{}
	st := s0.clone()
	for it := 0; ; it++ {
		f.path = fmt.Sprintf("%s/u%d.%d", path, l.head.Index, it)
		for i, p := range phis {
			f.env[p] = vals[i]
		}
		// the test
		me, md := len(x.effects), len(f.dies)
		trial := map[edge]*state{}
		x.block(f, l.head, st.clone(), trial)
		x.effects, f.dies = x.effects[:me], f.dies[:md]
		if len(trial) != 1 {
			return undo()
		}
		ed := map[edge]*state{}
		x.runLoopBody(f, l, st, ed, blocks)
		pc := False
		for e, s := range ed {
			if !l.blocks[e.from.Succs[e.idx]] {
				outs[e] = append(outs[e], s)
				pc = x.Or(pc, s.pc)
			}
		}
		if pc != False {
			sn := snap{pc, map[ssa.Value]Val{}, map[ssa.Value][]Val{}}
			for b := range l.blocks {
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						if o, ok := f.env[v]; ok {
							sn.env[v] = o
						}
						if o, ok := f.tup[v]; ok {
							sn.tup[v] = o
						}
					}
				}
			}
			snaps = append(snaps, sn)
		}
		var bs []*state
		var be []edge
		for _, p := range l.head.Preds {
			if !l.blocks[p] {
				continue
			}
			for si, s := range p.Succs {
				if s == l.head {
					dup := false
					for _, q := range be {
						dup = dup || q == (edge{p, si})
					}
					if b, ok := ed[edge{p, si}]; ok && !dup {
						bs, be = append(bs, b), append(be, edge{p, si})
					}
				}
			}
		}
		if len(bs) == 0 {
			break
		}
		if it+1 > most {
			return undo()
		}
		st = x.merge(bs)
		if !x.Sat(x.And(x.ctx, st.pc)) {
			break
		}
		var next []Val
		for _, p := range phis {
			var vs []Val
			for i := range be {
				vs = append(vs, x.Prune(x.And(x.ctx, bs[i].pc), x.val(f, p.Edges[predIndex(l.head, be[i])])))
			}
			next = append(next, x.phi(st.pc, bs, vs))
		}
		vals = next
	}
	f.path = path
	for e, ss := range outs {
		edges[e] = x.merge(ss)
	}
	for i := len(snaps) - 2; i >= 0; i-- {
		for v, o := range snaps[i].env {
			if c, ok := f.env[v]; ok && c != nil && o != nil {
				f.env[v] = x.merge2(snaps[i].pc, o, c)
			} else {
				f.env[v] = o
			}
		}
		for v, o := range snaps[i].tup {
			c, ok := f.tup[v]
			if !ok {
				f.tup[v] = o
				continue
			}
			n := make([]Val, len(o))
			for j := range o {
				if o[j] == nil || c[j] == nil {
					n[j] = o[j]
					if n[j] == nil {
						n[j] = c[j]
					}
					continue
				}
				n[j] = x.merge2(snaps[i].pc, o[j], c[j])
			}
			f.tup[v] = n
		}
	}
	return true
}

func (x *Exec) invariant(r *phiRec, symset map[int]bool) bool {
	if isBool(r.typ) {
		b := x.Cond(r.next)
		if b == x.Atom(r.sym) {
			return true
		}
		return sameVal(r.next, r.init)
	}
	if len(r.next) == 1 && r.next[0].C == True && r.next[0].T == r.sym {
		return true
	}
	return sameVal(r.next, r.init) && !valHasSym(r.next, symset)
}

func valHasSym(v Val, set map[int]bool) bool {
	for _, c := range v {
		if hasSym(c.T.syms, set) {
			return true
		}
	}
	return false
}

func (x *Exec) localToLoop(a *Term, depth int) bool {
	r := addrRoot(a)
	if lvl, ok := x.allocLvl[r]; ok && lvl >= depth {
		return true
	}
	return false
}

func (x *Exec) runLoopBody(f *frame, l *loop, st *state, ed map[edge]*state, blocks []*ssa.BasicBlock) {
	// order: header first, as blocks are in RPO the header precedes its body
	li := f.loops
	var body []*ssa.BasicBlock
	for _, b := range blocks {
		if l.blocks[b] {
			body = append(body, b)
		}
	}
	_ = li
	x.region(f, body, l, ed, st)
}

func (x *Exec) finishLoop(f *frame, l *loop, s0 *state, recs []*phiRec, symset map[int]bool, backs []*state, ed map[edge]*state, edges map[edge]*state, markE, markR, markD, depth int, ctx Bdd, vhead *ssa.BasicBlock, rotEdge edge) {
	// exit edges
	type exit struct {
		e  edge
		st *state
	}
	var exits []exit
	for e, s := range ed {
		if !l.blocks[e.from.Succs[e.idx]] {
			exits = append(exits, exit{e, s})
		}
	}
	sort.Slice(exits, func(i, j int) bool {
		if exits[i].e.from.Index != exits[j].e.from.Index {
			return exits[i].e.from.Index < exits[j].e.from.Index
		}
		return exits[i].e.idx < exits[j].e.idx
	})
	rets := append([]retEdge(nil), f.rets[markR:]...)
	dies := append([]Bdd(nil), f.dies[markD:]...)
	f.rets = f.rets[:markR]
	f.dies = f.dies[:markD]
	if len(backs) == 0 {
		// straight-line: nothing repeats
		for _, ex := range exits {
			s := ex.st
			s.pc = x.And(s0.pc, s.pc)
			edges[ex.e] = s
		}
		for _, r := range rets {
			r.st.pc = x.And(s0.pc, r.st.pc)
			f.rets = append(f.rets, r)
		}
		for _, d := range dies {
			f.dies = append(f.dies, x.And(s0.pc, d))
		}
		return
	}
	var live []*phiRec
	for _, r := range recs {
		if !r.fixed && r.as == nil {
			live = append(live, r)
		}
	}
	// the counting symbol, if any
	headExit := -1
	var stay Bdd = True
	for i, ex := range exits {
		if ex.e.from == vhead && ex.e != rotEdge {
			headExit = i
			stay = x.Not(ex.st.pc)
		}
	}
	inl := map[*Term]Val{}  // meaning inside an iteration
	outl := map[*Term]Val{} // meaning after the loop ran to its end
	var iter, N *Term
	var ind *phiRec
	if headExit >= 0 {
		ind, iter, N = x.counted(l, live, symset, stay, depth, inl, outl)
	}
	counted := iter != nil
	leave := False
	if !counted {
		// an iteration is followed by another one unless it leaves
		for _, ex := range exits {
			leave = x.Or(leave, ex.st.pc)
		}
		for _, r := range rets {
			leave = x.Or(leave, r.st.pc)
		}
		for _, d := range dies {
			leave = x.Or(leave, d)
		}
		stay = x.Not(leave)
	}
	// remaining symbols
	var rest []*phiRec
	for _, r := range live {
		if r == ind {
			continue
		}
		if step, ok := x.steady(r); ok && counted {
			// counts along with the iterations
			inl[r.sym] = One(x.Add(r.init[0].T, step, iter, 0))
			outl[r.sym] = One(x.Add(r.init[0].T, step, N, 0))
			continue
		}
		rest = append(rest, r)
	}
	// canonical recurrence terms for the rest
	pre := x.newSubst(inl)
	for _, r := range rest {
		r.next = pre.val(r.next)
	}
	pstay := pre.bdd(stay)
	if counted {
		rest = x.settled(rest, N, iter, inl, outl)
		re := x.newSubst(inl)
		for _, r := range rest {
			r.next = re.val(r.next)
		}
	}
	rest, cells := x.cells(rest, &pstay, symset, depth)
	shifted := append(x.fromZero(rest, &pstay, symset), cells...)
	x.recurrences(rest, counted, N, iter, depth, pstay, inl, outl, symset)
	for _, sh := range shifted {
		inl[sh.sym] = x.newSubst(inl).val(sh.as)
		outl[sh.sym] = x.newSubst(outl).val(sh.as)
	}
	in := x.newSubst(inl)
	// conditions under which an iteration leaves
	A := False
	var brkC Bdd = False
	nonHead := False
	for i, ex := range exits {
		if i == headExit {
			continue
		}
		nonHead = x.Or(nonHead, ex.st.pc)
	}
	for _, r := range rets {
		nonHead = x.Or(nonHead, r.st.pc)
	}
	for _, d := range dies {
		nonHead = x.Or(nonHead, d)
	}
	brkC = in.bdd(nonHead)
	var first *Term
	renamed := false
	brk := map[*Term]Val{}
	if nonHead != False || !counted {
		if counted {
			n, c := x.widen(N, iter, x.assume(brkC, in.bdd(stay)))
			first = x.raw("first", "", []*Term{n}, nil, []Bdd{c}, types.Typ[types.Int])
			if x.down {
				// whether there is a witness does not depend on the direction
				n, c = x.widen(N, iter, x.replaceIter(x.assume(brkC, in.bdd(stay)), iter, x.Add(N, -1, iter, -1)))
			}
			A = x.exists(n, c)
			// at the breaking iteration
			for s, v := range inl {
				var nv Val
				for _, c := range v {
					for _, k := range x.SubstT(c.T, map[*Term]Val{iter: One(first)}) {
						nv = append(nv, Case{x.And(c.C, k.C), k.T})
					}
				}
				brk[s] = x.atBreak(x.norm(nv), first)
			}
		} else {
			// an object made by the iteration that leaves is not one of an earlier
			// iteration
			ren := func(st *state) {
				for a := range st.mem {
					if r := addrRoot(a); r.Op == "alloc" && x.localToLoop(a, depth) && outl[r] == nil {
						n := x.raw("alloc", r.Aux+"'", nil, nil, nil, r.Type)
						x.allocLvl[n] = depth - 1
						outl[r] = One(n)
						renamed = true
					}
				}
			}
			for _, ex := range exits {
				ren(ex.st)
			}
			for _, r := range rets {
				ren(r.st)
			}
			for s, v := range outl {
				brk[s] = v
			}
			sub := x.newSubst(outl)
			A = x.assume(sub.bdd(nonHead), sub.bdd(leave))
			x.fact(sub.bdd(leave))
		}
	}
	// effects inside the loop
	var lkey *Term
	if counted {
		lkey = N
	} else {
		lkey = x.raw("while", "", nil, nil, []Bdd{in.bdd(stay)}, nil)
	}
	outS := x.newSubst(outl)
	brkS := x.newSubst(brk)
	// what holds in the iteration that leaves, where it is a conjunction
	var lits []int32
	var signs []bool
	if counted && first != nil {
		c := x.replaceIter(x.assume(brkC, in.bdd(stay)), iter, first)
		for c > True {
			n := x.nodes[c]
			switch {
			case n.lo == False:
				lits, signs, c = append(lits, n.v), append(signs, true), n.hi
			case n.hi == False:
				lits, signs, c = append(lits, n.v), append(signs, false), n.lo
			default:
				c = True
			}
		}
	}
	atBrk := func(v Val) Val {
		v = brkS.val(v)
		if len(lits) == 0 {
			return v
		}
		out := make(Val, len(v))
		for i, c := range v {
			for j, l := range lits {
				c.C = x.restrictAtom(c.C, l, signs[j])
			}
			out[i] = c
		}
		return x.norm(out)
	}
	relBrk := func(c Bdd) Bdd {
		if !counted {
			return x.assume(brkS.bdd(c), brkS.bdd(leave))
		}
		c = x.assume(in.bdd(c), in.bdd(stay))
		if c == x.assume(brkC, in.bdd(stay)) {
			return A // what the first witness fulfils
		}
		return x.And(A, x.replaceIter(c, iter, first))
	}
	inst := new(int)
	var leaving []*Effect
	gone := nonHead
	if !counted {
		gone = leave
	}
	for _, ef := range x.effects[markE:] {
		if gone != False && ef.PC != False && x.Implies(ef.PC, gone) {
			// only in the iteration that leaves the loop: happens at most once
			for i := range ef.Args {
				ef.Args[i] = atBrk(ef.Args[i])
			}
			ef.PC = relBrk(ef.PC)
			for i := range ef.Loops {
				if hasSym(ef.Loops[i].syms, symset) {
					ef.Loops[i] = x.Fold(brkS.term(ef.Loops[i]))
				}
			}
			continue
		}
		if !counted && gone != False {
			if last := x.And(ef.PC, gone); last != False {
				// in the iteration that leaves, too
				le := *ef
				le.Args = nil
				for _, a := range ef.Args {
					le.Args = append(le.Args, atBrk(a))
				}
				le.PC = relBrk(last)
				le.Loops = nil
				for _, lt := range ef.Loops {
					if hasSym(lt.syms, symset) {
						lt = x.Fold(brkS.term(lt))
					}
					le.Loops = append(le.Loops, lt)
				}
				le.inst = append([]*int(nil), ef.inst...)
				leaving = append(leaving, &le)
			}
			ef.PC = x.And(ef.PC, x.Not(gone))
		}
		for i := range ef.Args {
			ef.Args[i] = in.val(ef.Args[i])
		}
		ef.PC = in.bdd(ef.PC)
		ef.Loops = append([]*Term{lkey}, ef.Loops...)
		ef.inst = append([]*int{inst}, ef.inst...)
		for i := 1; i < len(ef.Loops); i++ {
			if hasSym(ef.Loops[i].syms, symset) {
				v := in.term(ef.Loops[i])
				ef.Loops[i] = x.Fold(v)
			}
		}
	}
	x.effects = append(x.effects, leaving...)
	// loop-variant memory written by an iteration
	mb := x.merge(backs)
	variant := map[*Term]Val{}
	for a, v := range mb.mem {
		if hasSym(a.syms, symset) || x.localToLoop(a, depth) {
			na := x.Fold(in.term(a))
			variant[na] = in.val(v)
		}
	}
	convMem := func(m map[*Term]Val, s *substT) map[*Term]Val {
		o := make(map[*Term]Val, len(m))
		for a, v := range variant {
			o[a] = v
		}
		for a, v := range m {
			if hasSym(a.syms, symset) || x.localToLoop(a, depth) {
				na := x.Fold(in.term(a))
				if renamed {
					o[x.Fold(s.term(a))] = s.val(v)
				}
				if s == outS {
					if _, ok := o[na]; ok {
						continue
					}
				}
				o[na] = in.val(v)
				continue
			}
			if s == brkS {
				o[a] = atBrk(v)
			} else {
				o[a] = s.val(v)
			}
		}
		return o
	}
	nA := x.Not(A)
	// values defined in the loop and used after it
	useOut := headExit >= 0
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			conv := func(old Val) Val {
				if old == nil {
					return nil
				}
				if !renamed && !valDepends(x.Eng, old, symset) {
					return old
				}
				var a, c Val
				if useOut {
					a = outS.val(old)
				}
				if nonHead != False {
					c = atBrk(old)
				}
				switch {
				case a == nil:
					return c
				case c == nil:
					return a
				}
				return x.merge2(A, c, a)
			}
			if old, ok := f.env[v]; ok {
				f.env[v] = conv(old)
			}
			if old, ok := f.tup[v]; ok {
				nt := make([]Val, len(old))
				for i := range old {
					nt[i] = conv(old[i])
				}
				f.tup[v] = nt
			}
		}
	}
	for i, ex := range exits {
		s := ex.st
		n := &state{}
		if i == headExit {
			n.mem = convMem(s.mem, outS)
			n.pc = nA
		} else {
			n.mem = convMem(s.mem, brkS)
			n.pc = relBrk(s.pc)
		}
		n.pc = x.And(s0.pc, n.pc)
		edges[ex.e] = n
	}
	for _, r := range rets {
		n := &state{mem: convMem(r.st.mem, brkS)}
		n.pc = relBrk(r.st.pc)
		n.pc = x.And(s0.pc, n.pc)
		var vs []Val
		for _, v := range r.vals {
			vs = append(vs, atBrk(v))
		}
		f.rets = append(f.rets, retEdge{n, vs})
	}
	if len(dies) > 0 {
		all := False
		for _, d := range dies {
			all = x.Or(all, d)
		}
		f.dies = append(f.dies, x.And(s0.pc, relBrk(all)))
	}
}

func valDepends(e *Eng, v Val, set map[int]bool) bool {
	for _, c := range v {
		if hasSym(c.T.syms, set) {
			return true
		}
		dep := false
		e.eachAtom(c.C, func(t *Term) { dep = dep || hasSym(t.syms, set) })
		if dep {
			return true
		}
	}
	return false
}

func (x *Exec) replaceIter(b Bdd, iter, first *Term) Bdd {
	return x.newSubst(map[*Term]Val{iter: One(first)}).bdd(b)
}

// assume simplifies b where the literal c holds.
func (x *Exec) assume(b, c Bdd) Bdd {
	if c <= True {
		return b
	}
	n := x.nodes[c]
	if n.lo == False && n.hi == True {
		return x.restrictAtom(b, n.v, true)
	}
	if n.lo == True && n.hi == False {
		return x.restrictAtom(b, n.v, false)
	}
	return b
}

// widen finds the longest loop with the same witnesses of c: a loop that ends
// before the last element because nothing is to be found there runs over all.
func (x *Exec) widen(N, iter *Term, c Bdd) (*Term, Bdd) {
	for i := 0; i < 2 && c > True; i++ {
		l, ok := x.toLin(N)
		if !ok || l.c >= 0 || len(l.ts) == 0 || iter.Op != "iter" {
			break
		}
		if x.replaceIter(c, iter, N) != False {
			break
		}
		n := x.Add(N, 0, x.Int(0), 1)
		it := x.raw("iter", iter.Aux, []*Term{n}, nil, nil, iter.Type)
		c = x.replaceIter(c, iter, it)
		N, iter = n, it
	}
	return N, c
}

func (x *Exec) atBreak(v Val, first *Term) Val {
	var out Val
	for _, c := range v {
		t := c.T
		if t.Op == "mu" {
			t = x.raw("atbrk", "", []*Term{t, first}, nil, nil, t.Type)
		}
		out = append(out, Case{c.C, t})
	}
	return x.norm(out)
}

// counted recognises a loop that runs an index over 0..N or a range loop.
func (x *Exec) counted(l *loop, live []*phiRec, symset map[int]bool, stay Bdd, depth int, inl, outl map[*Term]Val) (*phiRec, *Term, *Term) {
	x.down = false
	if stay <= True {
		return nil, nil, nil
	}
	n := x.nodes[stay]
	if n.lo > True || n.hi > True {
		return nil, nil, nil
	}
	at := x.atoms[n.v]
	pos := n.hi == True
	if at.Op == "sym" && at.Aux != "" && pos {
		// range over map or string
		if r, ok := x.P.rangeSyms[at]; ok {
			N := x.raw("rng", r.kind, []*Term{r.over}, nil, nil, types.Typ[types.Int])
			it := x.raw("iter", fmt.Sprint("#", depth), []*Term{N}, nil, nil, types.Typ[types.Int])
			inl[at] = One(x.TTrue)
			outl[at] = One(x.TFalse)
			symset[at.syms[0]] = true
			k := r.key
			inl[k] = One(x.raw("rkey", r.kind, []*Term{it}, nil, nil, k.Type))
			outl[k] = One(x.raw("norkey", "", []*Term{N}, nil, nil, k.Type))
			symset[k.syms[0]] = true
			return nil, it, N
		}
		return nil, nil, nil
	}
	var lf lin
	switch at.Op {
	case "ltz":
		q, ok := x.toLin(at.Args[0])
		if !ok {
			return nil, nil, nil
		}
		lf = q
		if !pos {
			lf = lin{}.addMul(q, -1)
			lf.c--
		}
	case "eq", "eqz":
		if pos {
			return nil, nil, nil
		}
		a, _ := x.toLin(at.Args[0])
		if at.Op == "eq" {
			b, ok := x.toLin(at.Args[1])
			if !ok {
				return nil, nil, nil
			}
			a = a.addMul(b, -1)
		}
		lf = a // a != 0; orientation fixed below
	default:
		return nil, nil, nil
	}
	var ind *phiRec
	for t := range lf.ts {
		for _, r := range live {
			if r.sym == t {
				if ind != nil {
					return nil, nil, nil
				}
				ind = r
			}
		}
	}
	if ind == nil {
		return nil, nil, nil
	}
	if len(ind.next) != 1 || len(ind.init) != 1 {
		return nil, nil, nil
	}
	nl, ok := x.toLin(ind.next[0].T)
	if !ok || len(nl.ts) != 1 || nl.ts[ind.sym] != 1 {
		return nil, nil, nil
	}
	step := nl.c
	k := lf.ts[ind.sym]
	if at.Op == "eq" || at.Op == "eqz" {
		// i != B with step 1 counts up to B
		if k == -step {
			lf = lin{}.addMul(lf, -1)
			k = -k
		}
	}
	if !(step == 1 && k == 1 || step == -1 && k == -1) {
		return nil, nil, nil
	}
	r := lin{c: lf.c, ts: map[*Term]int64{}}
	for t, c := range lf.ts {
		if t == ind.sym {
			continue
		}
		if hasSym(t.syms, symset) {
			return nil, nil, nil
		}
		r.ts[t] = c
	}
	il, ok := x.toLin(ind.init[0].T)
	if !ok {
		return nil, nil, nil
	}
	// k*phi + r < 0; phi = init + step*I; so I < -(r + k*init) =: N
	nb := lin{}.addMul(r, -1).addMul(il, -k)
	N := x.fromLin(nb, types.Typ[types.Int])
	it := x.raw("iter", fmt.Sprint("#", depth), []*Term{N}, nil, nil, types.Typ[types.Int])
	x.down = step == -1
	inl[ind.sym] = One(x.Add(ind.init[0].T, step, it, 0))
	outl[ind.sym] = One(x.Add(ind.init[0].T, step, N, 0))
	return ind, it, N
}

// steady: an integer that every iteration changes by the same constant.
func (x *Exec) steady(r *phiRec) (int64, bool) {
	if r.typ == nil || len(r.next) != 1 || len(r.init) != 1 {
		return 0, false
	}
	if b, ok := r.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	l, ok := x.toLin(r.next[0].T)
	if !ok || len(l.ts) != 1 || l.ts[r.sym] != 1 || l.c == 0 {
		return 0, false
	}
	if _, ok := x.toLin(r.init[0].T); !ok {
		return 0, false
	}
	return l.c, true
}

// settled: what every iteration sets to the same value. It has its first value
// in the first iteration only.
func (x *Exec) settled(rs []*phiRec, N, iter *Term, inl, outl map[*Term]Val) (rest []*phiRec) {
	syms := map[int]bool{}
	for _, r := range rs {
		syms[r.sym.syms[0]] = true
	}
	for _, r := range rs {
		if r.typ == nil || r.keep || r.forced || valDepends(x.Eng, r.next, syms) || x.mentions(r.next, iter) {
			rest = append(rest, r)
			continue
		}
		basic := false
		if _, ok := r.typ.Underlying().(*types.Basic); ok {
			basic = true
		}
		if !basic {
			rest = append(rest, r)
			continue
		}
		start := x.Cond(x.Eq(iter, x.Int(0)))
		inl[r.sym] = x.merge2(start, r.init, r.next)
		outl[r.sym] = x.merge2(x.Lt(x.Int(0), N), r.next, r.init)
	}
	return rest
}

func (x *Exec) mentions(v Val, it *Term) bool {
	seen := map[*Term]bool{}
	var val func(v Val) bool
	var cond func(b Bdd) bool
	var term func(t *Term) bool
	cond = func(b Bdd) (r bool) {
		x.eachAtom(b, func(t *Term) { r = r || term(t) })
		return
	}
	val = func(v Val) bool {
		for _, c := range v {
			if cond(c.C) || term(c.T) {
				return true
			}
		}
		return false
	}
	term = func(t *Term) bool {
		if t == it {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if term(a) {
				return true
			}
		}
		for _, v := range t.Vals {
			if val(v) {
				return true
			}
		}
		for _, c := range t.Conds {
			if cond(c) {
				return true
			}
		}
		return false
	}
	return val(v)
}

// cells: a list of which the loop only changes one and the same element stands
// for that element.
func (x *Exec) cells(rs []*phiRec, stay *Bdd, symset map[int]bool, depth int) ([]*phiRec, []shift) {
	all := map[int]bool{}
	for _, r := range rs {
		all[r.sym.syms[0]] = true
	}
next:
	for _, r := range rs {
		if r.typ == nil || r.keep || r.forced {
			continue
		}
		sl, ok := r.typ.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		var at *Term
		for _, c := range r.next {
			switch {
			case c.T == r.sym:
			case c.T.Op == "updi" && c.T.Args[0] == r.sym && (at == nil || at == c.T.Args[1]) && !hasSym(c.T.Args[1].syms, all):
				at = c.T.Args[1]
			default:
				continue next
			}
		}
		if at == nil || x.mentionsIter(at, symset, depth) {
			continue
		}
		el := x.Idx(r.sym, at, sl.Elem())
		if len(el) != 1 || el[0].C != True {
			continue
		}
		var init Val
		for _, c := range r.init {
			for _, k := range x.Idx(c.T, at, sl.Elem()) {
				init = append(init, Case{x.And(c.C, k.C), k.T})
			}
		}
		z := x.NewSym(r.sym.Aux + "/c")
		z.Type = sl.Elem()
		m := map[*Term]Val{el[0].T: One(z)}
		if isBool(sl.Elem()) {
			continue
		}
		sub := x.newSubst(m)
		cell := &phiRec{sym: z, init: x.norm(init), typ: sl.Elem(), addr: r.addr}
		for _, c := range r.next {
			t := z
			if c.T != r.sym {
				t = c.T.Args[2]
			}
			for _, k := range sub.term(t) {
				cell.next = append(cell.next, Case{x.And(sub.bdd(c.C), k.C), k.T})
			}
		}
		cell.next = x.norm(cell.next)
		self := map[int]bool{r.sym.syms[0]: true}
		if valDepends(x.Eng, cell.next, self) {
			continue
		}
		ok = true
		var nexts []Val
		for _, q := range rs {
			var n Val
			if q != r {
				n = sub.val(q.next)
				ok = ok && !valDepends(x.Eng, n, self)
			}
			nexts = append(nexts, n)
		}
		st := sub.bdd(*stay)
		x.eachAtom(st, func(t *Term) { ok = ok && !hasSym(t.syms, self) })
		if !ok {
			continue
		}
		*stay = st
		var nrs []*phiRec
		for i, q := range rs {
			if q != r {
				q.next = nexts[i]
				nrs = append(nrs, q)
			}
		}
		symset[z.syms[0]] = true
		var as Val
		for _, c := range r.init {
			as = append(as, Case{c.C, x.updI(c.T, at, z, r.typ)})
		}
		rest, more := x.cells(append(nrs, cell), stay, symset, depth)
		return rest, append(more, shift{r.sym, as})
	}
	return rs, nil
}

// mentionsIter: t is not the same in every iteration.
func (x *Exec) mentionsIter(t *Term, symset map[int]bool, depth int) bool {
	if hasSym(t.syms, symset) {
		return true
	}
	level := fmt.Sprint("#", depth)
	found := false
	seen := map[*Term]bool{}
	var term func(t *Term)
	term = func(t *Term) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t.Op == "iter" && t.Aux == level {
			found = true
			return
		}
		for _, a := range t.Args {
			term(a)
		}
	}
	term(t)
	return found
}

type shift struct {
	sym *Term
	as  Val
}

// fromZero makes sums that start at some value start at 0.
func (x *Exec) fromZero(rs []*phiRec, stay *Bdd, symset map[int]bool) (out []shift) {
	m := map[*Term]Val{}
	for _, r := range rs {
		if r.typ == nil || len(r.init) != 1 || r.keep || r.forced {
			continue
		}
		if b, ok := r.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		init := r.init[0].T
		if n, ok := intConst(init); ok && n == 0 {
			continue
		}
		if _, ok := x.toLin(init); !ok || !x.adds(r) {
			continue
		}
		z := x.NewSym(r.sym.Aux + "/z")
		z.Type = r.sym.Type
		symset[z.syms[0]] = true
		as := One(x.Add(init, 1, z, 0))
		m[r.sym] = as
		out = append(out, shift{r.sym, as})
		for i := range r.next {
			r.next[i].T = x.Add(r.next[i].T, -1, init, 0)
		}
		r.sym = z
		r.init = One(x.Int(0))
	}
	if len(m) == 0 {
		return nil
	}
	s := x.newSubst(m)
	for _, r := range rs {
		r.next = s.val(r.next)
	}
	*stay = s.bdd(*stay)
	return out
}

// adds: every iteration adds to r something that does not depend on r.
func (x *Exec) adds(r *phiRec) bool {
	self := map[int]bool{r.sym.syms[0]: true}
	grows := false
	for _, c := range r.next {
		l, ok := x.toLin(c.T)
		if !ok || l.ts[r.sym] != 1 {
			return false
		}
		for t := range l.ts {
			if t != r.sym && hasSym(t.syms, self) {
				return false
			}
		}
		grows = grows || len(l.ts) > 1 || l.c != 0
	}
	return grows
}

// hint tells recurrences apart by the memory they stand for.
func (r *phiRec) hint(x *Exec) string {
	if r.addr == nil {
		return ""
	}
	switch addrRoot(r.addr).Op {
	case "alloc", "mkslice", "sym":
		// a local variable: where it lives says nothing
		if r.addr.Op == "&fld" {
			return r.addr.Aux
		}
		return ""
	}
	return fmt.Sprintf("%016x", x.blind(r.addr))
}

// recurrences gives the remaining loop-carried values a canonical meaning.
func (x *Exec) recurrences(rs []*phiRec, counted bool, N, iter *Term, depth int, stay Bdd, inl, outl map[*Term]Val, symset map[int]bool) {
	if len(rs) == 0 {
		return
	}
	syms := map[int]*phiRec{}
	for _, r := range rs {
		syms[r.sym.syms[0]] = r
	}
	deps := func(v Val) []int {
		var out []int
		for _, c := range v {
			out = unionInts(out, c.T.syms)
			x.eachAtom(c.C, func(t *Term) { out = unionInts(out, t.syms) })
		}
		return out
	}
	stayDeps := []int{}
	if !counted {
		x.eachAtom(stay, func(t *Term) { stayDeps = unionInts(stayDeps, t.syms) })
	}
	// closed forms first
	for _, r := range rs {
		if counted {
			if x.closedForm(r, syms, deps, N, iter, inl, outl) {
				continue
			}
		}
	}
	lbl := map[int]string{}
	for id, r := range syms {
		nm := ""
		if r.typ != nil {
			nm = x.TypeName(r.typ)
		}
		lbl[id] = nm + "|" + r.hint(x) + "|" + x.blindVal(r.init)
	}
	for _, r := range rs {
		if _, done := outl[r.sym]; done {
			if _, d2 := inl[r.sym]; d2 {
				continue
			}
		}
		// closure
		need := map[int]bool{r.sym.syms[0]: true}
		work := []int{r.sym.syms[0]}
		if !counted {
			for _, d := range stayDeps {
				if syms[d] != nil && !need[d] {
					need[d] = true
					work = append(work, d)
				}
			}
		}
		for len(work) > 0 {
			w := work[len(work)-1]
			work = work[:len(work)-1]
			for _, d := range deps(syms[w].next) {
				if syms[d] != nil && !need[d] {
					need[d] = true
					work = append(work, d)
				}
			}
		}
		self := r.sym.syms[0]
		var ids []int
		for id := range need {
			if id != self {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool {
			if lbl[ids[i]] != lbl[ids[j]] {
				return lbl[ids[i]] < lbl[ids[j]]
			}
			a, b := x.blindVal(syms[ids[i]].next), x.blindVal(syms[ids[j]].next)
			if a != b {
				return a < b
			}
			return ids[i] < ids[j]
		})
		ids = append([]int{self}, ids...)
		empty := x.accum(r, syms, ids, stayDeps, deps)
		bm := map[*Term]Val{}
		for i, id := range ids {
			b := x.raw("bv", fmt.Sprintf("%d.%d:%s", depth, i, x.typeTag(syms[id].typ)), nil, nil, nil, syms[id].typ)
			if isBool(syms[id].typ) {
				bm[syms[id].sym] = x.Bool(x.Atom(b))
			} else {
				bm[syms[id].sym] = One(b)
			}
		}
		sb := x.newSubst(bm)
		var vals []Val
		for _, id := range ids {
			vals = append(vals, syms[id].init, sb.val(syms[id].next))
		}
		aux := ""
		if empty != nil {
			vals[0] = One(empty)
			aux = "acc"
		}
		var args []*Term
		if counted {
			args = []*Term{N}
		}
		mu := x.raw("mu", aux, args, vals, nil, r.typ)
		var conds []Bdd
		if !counted {
			conds = []Bdd{sb.bdd(stay)}
		}
		lo := x.raw("lout", aux, args, vals, conds, r.typ)
		wrap := func(t *Term) Val {
			if empty != nil {
				return x.Apply(True, func(a []*Term) Val {
					if a[0] == empty {
						return One(t)
					}
					if isString(r.typ) {
						return One(x.Cat(a[0], t))
					}
					if isInt(r.typ) {
						return One(x.Add(a[0], 1, t, 0))
					}
					return One(x.AppendSlice(a[0], t, r.typ))
				}, r.init)
			}
			if isBool(r.typ) {
				return x.Bool(x.Atom(t))
			}
			return One(t)
		}
		if _, ok := inl[r.sym]; !ok {
			inl[r.sym] = wrap(mu)
		}
		if _, ok := outl[r.sym]; !ok {
			outl[r.sym] = wrap(lo)
		}
	}
}

// accum: r only ever gets longer, and what is added does not depend on what is
// there already. The result is the value it could as well have started from.
func (x *Exec) accum(r *phiRec, syms map[int]*phiRec, ids, stayDeps []int, deps func(Val) []int) *Term {
	if r.typ == nil {
		return nil
	}
	var empty *Term
	if isString(r.typ) {
		empty = x.Str("")
	} else if _, ok := r.typ.Underlying().(*types.Slice); ok {
		empty = x.Seq(nil, r.typ)
	} else if isInt(r.typ) {
		empty = x.Int(0)
	} else {
		return nil
	}
	self := map[int]bool{r.sym.syms[0]: true}
	has := func(ds []int) bool { return hasSym(ds, self) }
	if has(stayDeps) {
		return nil
	}
	for _, id := range ids[1:] {
		if has(deps(syms[id].next)) {
			return nil
		}
	}
	grows := false
	for _, c := range r.next {
		bad := false
		x.eachAtom(c.C, func(t *Term) { bad = bad || has(t.syms) })
		if bad {
			return nil
		}
		t := c.T
		if isInt(r.typ) {
			if !x.adds(r) {
				return nil
			}
			grows = true
			continue
		}
		for t != r.sym {
			switch t.Op {
			case "app", "apps", "cat":
			default:
				return nil
			}
			for _, a := range t.Args[1:] {
				if has(a.syms) {
					return nil
				}
			}
			grows = true
			t = t.Args[0]
		}
	}
	if !grows {
		return nil
	}
	return empty
}

func (e *Eng) typeTag(t types.Type) string {
	if t == nil {
		return ""
	}
	return e.TypeName(t)
}

// blind is a fingerprint of a term that ignores which symbol is which.
func (e *Eng) blind(t *Term) uint64 {
	if h, ok := e.blindMemo[t]; ok {
		return h
	}
	h := fnvs(14695981039346656037, t.Op)
	if t.Op == "sym" {
		h = fnvs(h, e.typeTag(t.Type))
	} else if t.Op == "alloc" {
		h = fnvs(h, e.typeTag(t.Type))
	} else {
		h = fnvs(h, t.Aux)
	}
	for _, a := range t.Args {
		h = fnvu(h, e.blind(a))
	}
	for _, v := range t.Vals {
		h = fnvu(h, e.blindV(v))
	}
	for _, c := range t.Conds {
		h = fnvu(h, e.blindC(c))
	}
	e.blindMemo[t] = h
	return h
}

func (e *Eng) blindV(v Val) uint64 {
	var s uint64 // order of cases is not significant
	for _, c := range v {
		s += fnvu(e.blindC(c.C), e.blind(c.T)) * 31
	}
	return fnvu(7, s)
}

func (e *Eng) blindC(b Bdd) uint64 {
	if b <= True {
		return uint64(b) + 3
	}
	if h, ok := e.blindBdd[b]; ok {
		return h
	}
	// the set of atoms: a fingerprint that does not depend on their order
	var s uint64
	e.eachAtom(b, func(t *Term) { s += e.blind(t) * 0x9e3779b97f4a7c15 })
	e.blindBdd[b] = s
	return s
}

func (e *Eng) blindVal(v Val) string { return fmt.Sprintf("%016x", e.blindV(v)) }

func fnvs(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}

func fnvu(h, u uint64) uint64 {
	for i := 0; i < 8; i++ {
		h = (h ^ (u & 0xff)) * 1099511628211
		u >>= 8
	}
	return h
}

func valKey(v Val) string {
	var sb strings.Builder
	for _, c := range v {
		fmt.Fprintf(&sb, "%d:%d;", c.C, c.T.ID)
	}
	return sb.String()
}

// closedForm recognises flags (exists/forall) and element-wise construction.
func (x *Exec) closedForm(r *phiRec, syms map[int]*phiRec, deps func(Val) []int, N, iter *Term, inl, outl map[*Term]Val) bool {
	self := r.sym.syms[0]
	for _, d := range deps(r.next) {
		if d != self && syms[d] != nil {
			return false
		}
	}
	if isBool(r.typ) {
		a := x.Atom(r.sym)
		nx := x.Cond(r.next)
		v := x.v(a)
		n1 := x.restrictAtom(nx, v, true)
		n0 := x.restrictAtom(nx, v, false)
		for _, b := range []Bdd{n1, n0} {
			bad := false
			x.eachAtom(b, func(t *Term) {
				if t != r.sym && hasSym(t.syms, map[int]bool{self: true}) {
					bad = true
				}
			})
			if bad {
				return false
			}
		}
		in := x.Cond(r.init)
		ex := func(c Bdd) Bdd {
			if x.down {
				c = x.replaceIter(c, iter, x.Add(N, -1, iter, -1))
			}
			n, c := x.widen(N, iter, c)
			return x.exists(n, c)
		}
		switch {
		case n1 == True:
			outl[r.sym] = x.Bool(x.Or(in, ex(n0)))
		case n0 == False:
			outl[r.sym] = x.Bool(x.And(in, x.Not(ex(x.Not(n1)))))
		default:
			return false
		}
		return false // in-loop meaning still needs a recurrence
	}
	if len(r.init) != 1 {
		return false
	}
	in := r.init[0].T
	var body *Term
	if body = x.eachElem(r, in, N, iter); body != nil {
		lvl := 0
		maxLvl(body, &lvl)
		bv := x.raw("mi", fmt.Sprint(lvl+1), nil, nil, nil, types.Typ[types.Int])
		bb := x.Fold(x.SubstT(body, map[*Term]Val{iter: One(bv)}))
		ms := x.mapseq(N, bb, bv, r.typ)
		if ms.Op != "mapseq" && ms != in {
			ms = x.raw("copyof", "", []*Term{ms}, nil, nil, r.typ)
		}
		outl[r.sym] = One(ms)
		return false
	}
	if len(r.next) != 1 {
		return false
	}
	t := r.next[0].T
	grow, set := false, false
	switch {
	case t.Op == "app" && t.Args[0] == r.sym && len(t.Args) == 2:
		body, grow = t.Args[1], true
	case t.Op == "updm" && t.Args[0] == r.sym && t.Args[2] == x.TTrue && !x.down:
		body, set = t.Args[1], true
	default:
		return false
	}
	if hasSym(body.syms, map[int]bool{self: true}) {
		return false
	}
	lvl := 0
	maxLvl(body, &lvl)
	bv := x.raw("mi", fmt.Sprint(lvl+1), nil, nil, nil, types.Typ[types.Int])
	bb := x.Fold(x.SubstT(body, map[*Term]Val{iter: One(bv)}))
	ms := x.mapseq(N, bb, bv, r.typ)
	switch {
	case set:
		ms = x.setAdd(in, ms, r.typ)
	case grow:
		ms = x.AppendSlice(in, ms, r.typ)
	}
	outl[r.sym] = One(ms)
	return false
}

// eachElem: iteration i changes element i only, and does so for all elements.
func (x *Exec) eachElem(r *phiRec, in, N, iter *Term) *Term {
	if r.typ == nil || x.down {
		return nil
	}
	sl, ok := r.typ.Underlying().(*types.Slice)
	if !ok || len(r.next) == 0 {
		return nil
	}
	self := map[int]bool{r.sym.syms[0]: true}
	old := x.Idx(r.sym, iter, sl.Elem())
	was := x.Idx(in, iter, sl.Elem())
	if len(old) != 1 || isBool(sl.Elem()) {
		return nil
	}
	if n := x.Len(in); len(n) != 1 || n[0].T != N {
		return nil
	}
	sub := x.newSubst(map[*Term]Val{old[0].T: was})
	var el Val
	set := false
	for _, c := range r.next {
		v := was
		switch {
		case c.T == r.sym:
		case c.T.Op == "updi" && c.T.Args[0] == r.sym && c.T.Args[1] == iter:
			v = sub.term(c.T.Args[2])
			set = true
		default:
			return nil
		}
		for _, k := range v {
			el = append(el, Case{x.And(sub.bdd(c.C), k.C), k.T})
		}
	}
	el = x.norm(el)
	if !set || valDepends(x.Eng, el, self) {
		return nil
	}
	return x.Fold(el)
}

// mapseq is the sequence of bb for bv from 0 to N.
func (e *Eng) mapseq(N, bb, bv *Term, typ types.Type) *Term {
	if bb.Op == "idx" && bb.Args[1] == bv && bb.Args[0].Type != nil {
		if _, ok := bb.Args[0].Type.Underlying().(*types.Slice); ok && e.lenLeaf(bb.Args[0]) == N {
			return bb.Args[0]
		}
	}
	return e.raw("mapseq", "", []*Term{N, bb, bv}, nil, nil, typ)
}

func maxLvl(t *Term, m *int) {
	if t.Op == "mi" {
		var n int
		fmt.Sscan(t.Aux, &n)
		if n > *m {
			*m = n
		}
	}
	for _, a := range t.Args {
		maxLvl(a, m)
	}
	for _, v := range t.Vals {
		for _, c := range v {
			maxLvl(c.T, m)
		}
	}
}

func (x *Exec) restrictAtom(b Bdd, v int32, pos bool) Bdd {
	return x.Map(b, func(w int32) Bdd {
		if w == v {
			return x.b2(pos)
		}
		return x.mk(w, False, True)
	})
}
