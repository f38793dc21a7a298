package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rangeSym struct {
	over *Term
	kind string
	key  *Term
}

func (x *Exec) typeAux(t types.Type) string {
	if types.IsInterface(t) {
		return "i:" + x.TypeName(t)
	}
	return x.TypeName(t)
}

func (x *Exec) set(f *frame, v ssa.Value, r Val) { f.env[v] = r }

func (x *Exec) instr(f *frame, ins ssa.Instruction, st *state) *state {
	asm := x.And(x.ctx, st.pc)
	get := func(v ssa.Value) Val { return x.Prune(asm, x.val(f, v)) }
	switch ins := ins.(type) {
	case *ssa.Alloc:
		a := x.newAlloc(f, ins, "", ins.Type())
		x.clearSub(st, a)
		delete(st.mem, a)
		delete(st.mem, x.contentAddr(a))
		st.mem[x.liveKey(a)] = One(x.TTrue)
		x.set(f, ins, One(a))
	case *ssa.MakeMap:
		a := x.newAlloc(f, ins, "map:", ins.Type())
		delete(st.mem, x.contentAddr(a))
		st.mem[x.liveKey(a)] = One(x.TTrue)
		x.set(f, ins, One(a))
	case *ssa.MakeChan:
		x.set(f, ins, One(x.newAlloc(f, ins, "chan:", ins.Type())))
	case *ssa.MakeSlice:
		r := x.Apply(asm, func(t []*Term) Val {
			if n, ok := intConst(t[0]); ok && n == 0 {
				return One(x.Seq(nil, ins.Type()))
			}
			a := x.newAlloc(f, ins, "slc:", ins.Type())
			m := x.raw("mkslice", a.Aux, []*Term{t[0], a}, nil, nil, ins.Type())
			x.allocLvl[m] = x.depth
			delete(st.mem, x.contentAddr(m))
			st.mem[x.liveKey(m)] = One(x.TTrue)
			return One(m)
		}, get(ins.Len))
		x.set(f, ins, r)
	case *ssa.MakeInterface:
		aux := x.TypeName(ins.X.Type())
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			return One(x.raw("mkif", aux, t, nil, nil, ins.X.Type()))
		}, get(ins.X)))
	case *ssa.ChangeInterface:
		x.set(f, ins, get(ins.X))
	case *ssa.ChangeType:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return One(x.retype(t[0], ins.Type())) }, get(ins.X)))
	case *ssa.Convert:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			return One(x.Conv(t[0], x.TypeName(ins.Type()), ins.Type()))
		}, get(ins.X)))
	case *ssa.MultiConvert:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			return One(x.Conv(t[0], x.TypeName(ins.Type()), ins.Type()))
		}, get(ins.X)))
	case *ssa.FieldAddr:
		stt := derefType(ins.X.Type()).Underlying().(*types.Struct)
		fl := stt.Field(ins.Field)
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			p := t[0]
			if p.Type == nil {
				p = x.withType(p, ins.X.Type())
			}
			return One(x.fldAddr(p, fl.Name(), fl.Type()))
		}, get(ins.X)))
	case *ssa.Field:
		stt := ins.X.Type().Underlying().(*types.Struct)
		fl := stt.Field(ins.Field)
		x.set(f, ins, x.Prune(asm, x.Apply(asm, func(t []*Term) Val { return x.Fld(t[0], fl.Name(), fl.Type()) }, get(ins.X))))
	case *ssa.IndexAddr:
		et := derefType(ins.Type())
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			s := t[0]
			if s.Op == "slice" && s.Args[1].Op == "none" {
				s = s.Args[0]
			} else if s.Op == "slice" && !isConst(s.Args[0]) {
				return One(x.idxAddr(s.Args[0], x.Add(t[1], 1, s.Args[1], 0), et))
			}
			return One(x.idxAddr(s, t[1], et))
		}, get(ins.X), get(ins.Index)))
	case *ssa.Index:
		x.set(f, ins, x.Prune(asm, x.Apply(asm, func(t []*Term) Val { return x.Idx(t[0], t[1], ins.Type()) }, get(ins.X), get(ins.Index))))
	case *ssa.Lookup:
		x.lookup(f, ins, st, asm)
	case *ssa.Slice:
		x.slice(f, ins, st, asm)
	case *ssa.UnOp:
		x.unop(f, ins, st, asm)
	case *ssa.BinOp:
		x.set(f, ins, x.binop(ins, get(ins.X), get(ins.Y), asm))
	case *ssa.TypeAssert:
		aux := x.typeAux(ins.AssertedType)
		v := get(ins.X)
		if ins.CommaOk {
			ok := x.Apply(asm, func(t []*Term) Val { return x.TypeIs(t[0], aux) }, v)
			okc := x.Cond(ok)
			vv := x.Apply(x.And(asm, okc), func(t []*Term) Val { return x.Assert(t[0], aux, ins.AssertedType) }, v)
			z := x.Zero(ins.AssertedType)
			f.tup[ins] = []Val{x.merge2(okc, vv, z), ok}
		} else {
			x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return x.Assert(t[0], aux, ins.AssertedType) }, v))
		}
	case *ssa.Extract:
		if t, ok := f.tup[ins.Tuple]; ok {
			x.set(f, ins, x.Prune(asm, t[ins.Index]))
		} else {
			v := get(ins.Tuple)
			x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return x.ext(t[0], ins.Index, ins.Type()) }, v))
		}
	case *ssa.Range:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			return x.content(st, t[0])
		}, get(ins.X)))
	case *ssa.Next:
		x.next(f, ins, st, asm)
	case *ssa.Store:
		x.store(st, get(ins.Addr), get(ins.Val), ins.Val.Type())
	case *ssa.MapUpdate:
		m, k, v := get(ins.Map), get(ins.Key), get(ins.Value)
		for _, c := range m {
			old := x.content(st, c.T)
			nv := x.Apply(asm, func(t []*Term) Val {
				return One(x.mapUpd(t[0], t[1], t[2], ins.Map.Type()))
			}, old, k, v)
			st.mem[x.contentAddr(c.T)] = x.merge2(c.C, nv, old)
		}
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		var b []Val
		for _, v := range ins.Bindings {
			b = append(b, get(v))
		}
		t := x.raw("closure", fmt.Sprintf("%s/%d", x.FnName(fn), ins.Pos()), nil, b, nil, ins.Type())
		t.fn = fn
		x.set(f, ins, One(t))
	case *ssa.Call:
		return x.call(f, ins, &ins.Call, st)
	case *ssa.Defer:
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, get(a))
		}
		d := deferred{call: &ins.Call, args: args, pc: st.pc, ins: ins}
		if ins.Call.IsInvoke() || ins.Call.StaticCallee() == nil {
			d.fn = get(ins.Call.Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			fn := d.call.StaticCallee()
			name := "defer"
			if fn != nil {
				name = x.FnName(fn)
			} else if d.call.IsInvoke() {
				name = d.call.Method.Name()
			}
			n := st.clone()
			n.pc = x.And(st.pc, d.pc)
			x.effect(f, n, "call", name, d.ins.Pos(), x.snapAll(st, d.args))
		}
	case *ssa.Go:
		x.effect(f, st, "go", "", ins.Pos(), nil)
	case *ssa.Send:
		x.effect(f, st, "send", "", ins.Pos(), []Val{get(ins.Chan), get(ins.X)})
	case *ssa.Select:
		x.effect(f, st, "select", "", ins.Pos(), nil)
		x.set(f, ins, One(x.raw("select", fmt.Sprint(ins.Pos()), nil, nil, nil, nil)))
	default:
		x.fail("unsupported instruction %T in %s", ins, f.fn)
	}
	return st
}

func (x *Exec) mapUpd(m, k, v *Term, typ types.Type) *Term {
	if m.Op == "updm" {
		if m.Args[1] == k {
			return x.mapUpd(m.Args[0], k, v, typ)
		}
		// canonical order of independent updates
		if x.eq(m.Args[1], k) == False && k.ID < m.Args[1].ID {
			return x.raw("updm", "", []*Term{x.mapUpd(m.Args[0], k, v, typ), m.Args[1], m.Args[2]}, nil, nil, typ)
		}
	}
	return x.raw("updm", "", []*Term{m, k, v}, nil, nil, typ)
}

func (x *Exec) newAlloc(f *frame, ins ssa.Instruction, kind string, typ types.Type) *Term {
	b := ins.Block()
	n := 0
	for i, j := range b.Instrs {
		if j == ins {
			n = i
		}
	}
	t := x.raw("alloc", fmt.Sprintf("%s%s/%d.%d:%s", kind, f.path, b.Index, n, x.typeTag(typ)), nil, nil, nil, typ)
	x.allocLvl[t] = x.depth
	return t
}

func (x *Exec) withType(t *Term, typ types.Type) *Term {
	if t.Type == nil {
		t.Type = typ
	}
	return t
}

func (x *Exec) retype(t *Term, typ types.Type) *Term {
	switch t.Op {
	case "const":
		if t.C != nil {
			return t
		}
	}
	return t
}

func (x *Exec) ext(t *Term, i int, typ types.Type) Val {
	if t.Op == "tuple" && i < len(t.Args) {
		return One(t.Args[i])
	}
	e := x.raw("ext", fmt.Sprint(i), []*Term{t}, nil, nil, typ)
	if isBool(typ) {
		return x.Bool(x.Atom(e))
	}
	return One(e)
}

func (x *Exec) lookup(f *frame, ins *ssa.Lookup, st *state, asm Bdd) {
	m := x.Prune(asm, x.val(f, ins.X))
	k := x.Prune(asm, x.val(f, ins.Index))
	if isString(ins.X.Type()) {
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return x.Idx(t[0], t[1], ins.Type()) }, m, k))
		return
	}
	elem := ins.X.Type().Underlying().(*types.Map).Elem()
	var mc Val
	for _, c := range m {
		for _, d := range x.content(st, c.T) {
			if b := x.And(c.C, d.C); b != False {
				mc = append(mc, Case{b, d.T})
			}
		}
	}
	mc = x.norm(mc)
	v := x.Prune(asm, x.Apply(asm, func(t []*Term) Val { return x.Lookup(t[0], t[1], elem) }, mc, k))
	if !isBool(elem) && x.P.trueOnly(ins.X) {
		// present means not nil
		v = x.norm(x.Apply(asm, func(t []*Term) Val {
			if t[0].Op == "lookup" && t[0].Aux == "" {
				h := x.Cond(x.Has(t[0].Args[0], t[0].Args[1]))
				return Val{{h, x.raw("lookup", "set", t[0].Args, nil, nil, elem)}, {x.Not(h), x.Nil()}}
			}
			return One(t[0])
		}, v))
		v = x.Prune(asm, v)
	}
	if ins.CommaOk {
		ok := x.Apply(asm, func(t []*Term) Val { return x.Has(t[0], t[1]) }, mc, k)
		f.tup[ins] = []Val{v, ok}
		return
	}
	if isBool(elem) && x.P.trueOnly(ins.X) {
		v = x.Apply(asm, func(t []*Term) Val { return x.Has(t[0], t[1]) }, mc, k)
	}
	x.set(f, ins, v)
}

func (x *Exec) slice(f *frame, ins *ssa.Slice, st *state, asm Bdd) {
	base := x.Prune(asm, x.val(f, ins.X))
	bound := func(v ssa.Value) Val {
		if v == nil {
			return One(x.None())
		}
		return x.Prune(asm, x.val(f, v))
	}
	lo, hi := bound(ins.Low), bound(ins.High)
	if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		// slicing an array variable: a literal
		arr := p.Elem().Underlying().(*types.Array)
		var out Val
		for _, c := range base {
			var v Val
			if c.T.Op == "alloc" {
				var el []Val
				if whole, ok := st.mem[c.T]; ok {
					v = whole
				} else {
					for i := int64(0); i < arr.Len(); i++ {
						ia := x.idxAddr(c.T, x.Int(i), arr.Elem())
						if e, ok := st.mem[ia]; ok {
							el = append(el, e)
						} else {
							el = append(el, x.loadDefault(st, ia, arr.Elem()))
						}
					}
					v = x.Apply(asm, func(t []*Term) Val { return One(x.Seq(t, ins.Type())) }, el...)
					if len(el) == 0 {
						v = One(x.Seq(nil, ins.Type()))
					}
				}
			} else {
				v = x.loadDefault(st, c.T, arr)
			}
			for _, d := range v {
				if b := x.And(c.C, d.C); b != False {
					out = append(out, Case{b, d.T})
				}
			}
		}
		base = x.norm(out)
	}
	x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return One(x.SliceOf(t[0], t[1], t[2], ins.Type())) }, base, lo, hi))
}

func (x *Exec) unop(f *frame, ins *ssa.UnOp, st *state, asm Bdd) {
	v := x.Prune(asm, x.val(f, ins.X))
	switch ins.Op {
	case token.MUL:
		x.set(f, ins, x.load(st, v, ins.Type()))
	case token.NOT:
		x.set(f, ins, x.Bool(x.Not(x.Cond(v))))
	case token.SUB:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val {
			if t[0].C != nil {
				return One(x.Const(constant.UnaryOp(token.SUB, t[0].C, 0), ins.Type()))
			}
			if isInt(ins.Type()) {
				return One(x.Add(x.Const(constant.MakeInt64(0), ins.Type()), -1, t[0], 0))
			}
			return One(x.raw("neg", "", t, nil, nil, ins.Type()))
		}, v))
	case token.ARROW:
		x.set(f, ins, One(x.raw("recv", fmt.Sprint(ins.Pos()), nil, nil, nil, ins.Type())))
	default:
		x.set(f, ins, x.Apply(asm, func(t []*Term) Val { return One(x.raw("unop", ins.Op.String(), t, nil, nil, ins.Type())) }, v))
	}
}

func (x *Exec) binop(ins *ssa.BinOp, a, b Val, asm Bdd) Val {
	typ := ins.X.Type()
	switch ins.Op {
	case token.EQL, token.NEQ:
		var c Bdd
		if isBool(typ) {
			c = x.Not(x.Xor(x.Cond(a), x.Cond(b)))
		} else {
			if isNilConst(ins.Y) && x.P.nilIffEmpty(ins.X) {
				// the same as a test of the length
				c = x.Cond(x.Apply(asm, func(t []*Term) Val {
					return x.Apply(asm, func(n []*Term) Val { return x.Eq(n[0], x.Int(0)) }, x.Len(t[0]))
				}, a))
			} else {
				c = x.Cond(x.Apply(asm, func(t []*Term) Val { return x.Eq(t[0], t[1]) }, a, b))
			}
		}
		if ins.Op == token.NEQ {
			c = x.Not(c)
		}
		return x.Bool(c)
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		c := x.Cond(x.Apply(asm, func(t []*Term) Val {
			p, q := t[0], t[1]
			if ins.Op == token.GTR || ins.Op == token.LEQ {
				p, q = q, p
			}
			r := x.Lt(p, q)
			if ins.Op == token.LEQ || ins.Op == token.GEQ {
				r = x.Not(r)
			}
			return x.Bool(r)
		}, a, b))
		return x.Bool(c)
	}
	rt := ins.Type()
	return x.Apply(asm, func(t []*Term) Val {
		p, q := t[0], t[1]
		if isString(rt) && ins.Op == token.ADD {
			return One(x.Cat(p, q))
		}
		if p.C != nil && q.C != nil && isInt(rt) {
			switch ins.Op {
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				return One(x.Const(constant.BinaryOp(p.C, ins.Op, q.C), rt))
			case token.QUO:
				if constant.Sign(q.C) != 0 {
					return One(x.Const(constant.BinaryOp(p.C, token.QUO_ASSIGN, q.C), rt))
				}
			case token.REM:
				if constant.Sign(q.C) != 0 {
					return One(x.Const(constant.BinaryOp(p.C, token.REM, q.C), rt))
				}
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(q.C); ok && n < 64 {
					return One(x.Const(constant.Shift(p.C, ins.Op, uint(n)), rt))
				}
			}
		}
		if isInt(rt) {
			switch ins.Op {
			case token.ADD:
				return One(x.Add(p, 1, q, 0))
			case token.SUB:
				return One(x.Add(p, -1, q, 0))
			case token.MUL:
				if n, ok := intConst(p); ok {
					p, q = q, p
					_ = n
				}
				if n, ok := intConst(q); ok {
					l, ok := x.toLin(p)
					if ok {
						return One(x.fromLin(lin{}.addMul(l, n), rt))
					}
				}
				if p.ID > q.ID {
					p, q = q, p
				}
			case token.AND, token.OR, token.XOR:
				if p.ID > q.ID {
					p, q = q, p
				}
			}
		}
		return One(x.raw("bin", ins.Op.String(), []*Term{p, q}, nil, nil, rt))
	}, a, b)
}

func (x *Exec) next(f *frame, ins *ssa.Next, st *state, asm Bdd) {
	over := x.val(f, ins.Iter)
	m := over[0].T
	if len(over) > 1 {
		m = x.Fold(over)
	}
	id := fmt.Sprintf("%s/next%d.%p", f.path, ins.Block().Index, ins)
	ok := x.NewSym(id + "ok")
	ok.Type = types.Typ[types.Bool]
	key := x.NewSym(id + "key")
	kind := "map"
	rg := ins.Iter.(*ssa.Range)
	var kt, vt types.Type
	if ins.IsString {
		kind = "str"
		kt, vt = types.Typ[types.Int], types.Typ[types.Rune]
	} else {
		mt := rg.X.Type().Underlying().(*types.Map)
		kt, vt = mt.Key(), mt.Elem()
	}
	key.Type = kt
	x.P.rangeSyms[ok] = &rangeSym{over: m, kind: kind, key: key}
	var v Val
	if kind == "map" {
		v = x.Lookup(m, key, vt)
	} else {
		v = One(x.raw("runeat", "", []*Term{m, key}, nil, nil, vt))
	}
	f.tup[ins] = []Val{x.Bool(x.Atom(ok)), One(key), v}
}

// ---- snapshots: what an argument looks like when it leaves ----

func (x *Exec) snapAll(st *state, vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = x.snap(st, v)
	}
	return out
}

func (x *Exec) snap(st *state, v Val) Val { return x.snapD(st, v, newSnapCtx()) }

func (x *Exec) snapD(st *state, v Val, busy *snapCtx) Val {
	asm := x.And(x.ctx, st.pc)
	var out Val
	for _, c := range v {
		sub := st
		if c.C != True && c.T.alloc {
			b := x.And(asm, c.C)
			if b == False || !x.Sat(b) {
				continue
			}
			sub = &state{pc: x.And(st.pc, c.C), mem: st.mem}
		}
		for _, k := range x.snapLeaf(sub, c.T, busy) {
			if b := x.And(c.C, k.C); b != False {
				if b == True || x.Sat(x.And(asm, b)) {
					out = append(out, Case{b, k.T})
				}
			}
		}
	}
	return x.norm(out)
}

func isBuf(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := p.Elem().String()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

type snapKey struct {
	t  *Term
	pc Bdd
}

// snapCtx is one snapshot under way.
type snapCtx struct {
	busy map[*Term]bool
	memo map[snapKey]Val
	hits map[*Term]bool // cycles met
}

func newSnapCtx() *snapCtx {
	return &snapCtx{busy: map[*Term]bool{}, memo: map[snapKey]Val{}, hits: map[*Term]bool{}}
}

func (x *Exec) snapLeaf(st *state, t *Term, busy *snapCtx) Val {
	if t.Op == "const" || t.Op == "fn" {
		return One(t)
	}
	k := snapKey{t, st.pc}
	if v, ok := busy.memo[k]; ok && !busy.busy[t] {
		return v
	}
	x.step()
	hits := busy.hits
	busy.hits = map[*Term]bool{}
	v := x.snapLeaf1(st, t, busy)
	if !busy.busy[t] {
		delete(busy.hits, t)
	}
	if len(busy.hits) == 0 {
		busy.memo[k] = v
	}
	for h := range hits {
		busy.hits[h] = true
	}
	return v
}

func (x *Exec) snapLeaf1(st *state, t *Term, busy *snapCtx) Val {
	if busy.busy[t] {
		busy.hits[t] = true
		return One(x.raw("self", "", nil, nil, nil, t.Type))
	}
	if x.snapLvl > 0 {
		switch t.Op {
		case "alloc", "mkslice":
			if x.allocLvl[t] < x.snapLvl {
				return One(t)
			}
		case "closure":
			return One(t)
		}
		if !t.alloc {
			return One(t)
		}
	}
	switch t.Op {
	case "const", "param", "fn", "sym", "mu", "lout", "gval":
		if t.Op == "const" || t.Op == "fn" {
			return One(t)
		}
	case "global":
		return One(t)
	case "alloc":
		busy.busy[t] = true
		defer delete(busy.busy, t)
		if strings.HasPrefix(t.Aux, "map:") {
			return x.snapD(st, x.Prune(x.And(x.ctx, st.pc), x.content(st, t)), busy)
		}
		if strings.HasPrefix(t.Aux, "chan:") {
			return One(t)
		}
		if isBuf(t.Type) {
			return One(x.raw("obj", x.TypeName(t.Type), nil, []Val{x.snapD(st, x.bufContent(st, t), busy)}, nil, t.Type))
		}
		if v, ok := st.mem[x.contentAddr(t)]; ok { // opaque object
			v = x.snapD(st, x.Prune(x.And(x.ctx, st.pc), v), busy)
			if structPtr(t.Type) {
				if u := x.partFields(st, t, busy); u != nil {
					v = x.Apply(True, func(a []*Term) Val {
						r := a[0]
						for _, n := range sortedKeys(u) {
							r = x.UpdF(r, n, u[n])
						}
						return One(r)
					}, v)
				}
			}
			if strings.HasPrefix(t.Aux, "opq:") {
				asIs := true
				for _, c := range v {
					asIs = asIs && c.T.Op == "call"
				}
				if asIs {
					return v
				}
			}
			return One(x.raw("obj", x.objName(t.Type), nil, []Val{v}, nil, t.Type))
		}
		v := x.loadDefault(st, t, derefType(t.Type))
		v = x.snapD(st, x.Prune(x.And(x.ctx, st.pc), v), busy)
		return One(x.raw("obj", x.objName(t.Type), nil, []Val{v}, nil, t.Type))
	case "closure":
		busy.busy[t] = true
		defer delete(busy.busy, t)
		return One(x.closureSummary(st, t))
	case "mkslice":
		busy.busy[t] = true
		defer delete(busy.busy, t)
		c := x.content(st, t)
		if len(c) == 1 && c[0].T == t {
			return One(x.raw("zeros", "", []*Term{t.Args[0]}, nil, nil, t.Type))
		}
		return x.snapD(st, c, busy)
	case "ite":
		return x.snapD(st, t.Vals[0], busy)
	}
	if strings.HasPrefix(t.Op, "&") && !t.alloc {
		return One(t)
	}
	if _, ok := st.mem[x.contentAddr(t)]; ok && t.Op != "mkif" {
		busy.busy[t] = true
		c := x.content(st, t)
		r := x.snapD(st, c, busy)
		delete(busy.busy, t)
		if t.Type != nil {
			switch t.Type.Underlying().(type) {
			case *types.Slice, *types.Map:
				return r
			}
		}
		if len(r) == 1 && r[0].T.Op == "self" {
			return One(t)
		}
		return One(x.raw("at", "", []*Term{t}, []Val{r}, nil, t.Type))
	}
	if !x.hasMutable(st, t) {
		return One(t)
	}
	busy.busy[t] = true
	defer delete(busy.busy, t)
	vals := make([]Val, len(t.Vals))
	for i, v := range t.Vals {
		vals[i] = x.snapD(st, v, busy)
	}
	if len(vals) == 0 {
		vals = nil
	}
	if len(t.Args) == 0 {
		return x.mk_(t.Op, t.Aux, nil, vals, t.Conds, t.Type)
	}
	args := make([]Val, len(t.Args))
	for i, a := range t.Args {
		args[i] = x.snapLeaf(st, a, busy)
	}
	return x.Apply(True, func(a []*Term) Val { return x.mk_(t.Op, t.Aux, a, vals, t.Conds, t.Type) }, args...)
}

// partFields: the fields of *p that have their own entry in memory.
func (x *Exec) partFields(st *state, p *Term, busy *snapCtx) map[string]Val {
	u := derefType(p.Type).Underlying().(*types.Struct)
	var m map[string]Val
	for i := 0; i < u.NumFields(); i++ {
		fl := u.Field(i)
		fa := x.fldAddr(p, fl.Name(), fl.Type())
		_, ok := st.mem[fa]
		if !ok {
			for k := range st.mem {
				if k != fa && (k.Op == "&fld" || k.Op == "&idx") && isPrefix(fa, k) {
					ok = true
					break
				}
			}
		}
		if ok {
			if m == nil {
				m = map[string]Val{}
			}
			m[fl.Name()] = x.snapD(st, x.loadField(st, p, fa, fl.Name(), fl.Type()), busy)
		}
	}
	return m
}

func (x *Exec) objName(t types.Type) string {
	if t == nil {
		return ""
	}
	return x.TypeName(t)
}

// hasMutable: t mentions an allocation, or an object whose content changed.
func (x *Exec) hasMutable(st *state, t *Term) bool {
	if t.alloc {
		return true
	}
	switch t.Op {
	case "mkif", "seq", "struct", "app", "apps", "updm", "updi", "updf", "ite", "copyof":
		for _, a := range t.Args {
			if _, ok := st.mem[x.contentAddr(a)]; ok || x.hasMutable(st, a) || a.Op == "closure" {
				return true
			}
		}
		for _, v := range t.Vals {
			for _, c := range v {
				if _, ok := st.mem[x.contentAddr(c.T)]; ok || x.hasMutable(st, c.T) || c.T.Op == "closure" {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) bufContent(st *state, b *Term) Val {
	if v, ok := st.mem[x.contentAddr(b)]; ok {
		return v
	}
	if b.Op == "alloc" {
		return One(x.Str(""))
	}
	return One(x.raw("bufold", "", []*Term{b}, nil, nil, types.Typ[types.String]))
}
