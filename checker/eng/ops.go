package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// mk is the smart constructor used for every operation, so that substitution
// re-simplifies. typ is the static type of the result.
func (e *Eng) mk_(op, aux string, args []*Term, vals []Val, conds []Bdd, typ types.Type) Val {
	switch op {
	case "lin":
		parts := strings.Split(aux, ",")
		c, _ := strconv.ParseInt(parts[0], 10, 64)
		r := lin{c: c, ts: map[*Term]int64{}}
		for i, a := range args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l, ok := e.toLin(a)
			if !ok {
				return One(e.raw(op, aux, args, vals, conds, typ))
			}
			r = r.addMul(l, k)
		}
		return One(e.fromLin(r, typ))
	case "ltz":
		l, ok := e.toLin(args[0])
		if ok {
			return e.Bool(e.ltz(l))
		}
	case "munion":
		return One(e.setUnion(args[0], args[1], typ))
	case "setof":
		return One(e.setAdd(e.raw("empty", "", nil, nil, nil, typ), args[0], typ))
	case "eqz":
		return e.Eq(args[0], e.Int(0))
	case "eq":
		return e.Eq(args[0], args[1])
	case "seteq":
		return e.SetEq(args[0], args[1])
	case "isnil":
		return e.Eq(args[0], e.Nil())
	case "lt":
		return e.Bool(e.Lt(args[0], args[1]))
	case "cat":
		return One(e.Cat(args...))
	case "fld":
		return e.Fld(args[0], aux, typ)
	case "idx":
		return e.Idx(args[0], args[1], typ)
	case "len":
		return e.Len(args[0])
	case "slice":
		return One(e.SliceOf(args[0], args[1], args[2], typ))
	case "app":
		return One(e.Append(args[0], args[1:], typ))
	case "apps":
		return One(e.AppendSlice(args[0], args[1], typ))
	case "updi":
		return One(e.updI(args[0], args[1], args[2], typ))
	case "updf":
		return One(e.UpdF(args[0], aux, vals[0]))
	case "lookup":
		v := e.Lookup(args[0], args[1], typ)
		if aux != "" { // known to be there
			v = append(Val(nil), v...)
			for i, c := range v {
				if c.T.Op == "lookup" {
					v[i].T = e.raw("lookup", aux, c.T.Args, nil, nil, typ)
				}
			}
		}
		return v
	case "has":
		return e.Has(args[0], args[1])
	case "typeis":
		return e.TypeIs(args[0], aux)
	case "assert":
		return e.Assert(args[0], aux, typ)
	case "conv":
		return One(e.Conv(args[0], aux, typ))
	case "deref":
		if len(args) == 1 && args[0].Op == "obj" && len(args[0].Vals) == 1 {
			return args[0].Vals[0]
		}
	case "exists":
		if n, ok := intConst(args[0]); conds[0] == False || ok && n <= 0 {
			return e.Bool(False)
		}
	case "ite":
		if len(vals) == 1 {
			return vals[0]
		}
	}
	return One(e.raw(op, aux, args, vals, conds, typ))
}

func fieldIndex(typ types.Type, name string) int {
	if typ == nil {
		return -1
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// Fld selects a field of a struct value (or through a pointer value).
func (e *Eng) Fld(t *Term, name string, typ types.Type) Val {
	switch t.Op {
	case "struct":
		if i := fieldIndex(t.Type, name); i >= 0 && i < len(t.Vals) {
			return t.Vals[i]
		}
	case "zero":
		return e.Zero(typ)
	case "deref":
		return e.Fld(t.Args[0], name, typ)
	case "updf":
		if t.Aux == name {
			return t.Vals[0]
		}
		return e.Fld(t.Args[0], name, typ)
	case "obj":
		if len(t.Vals) == 1 && len(t.Vals[0]) == 1 && t.Vals[0][0].T.Op == "struct" {
			return e.Fld(t.Vals[0][0].T, name, typ)
		}
	}
	return One(e.raw("fld", name, []*Term{t}, nil, nil, typ))
}

// Zero is the zero value of a type.
func (e *Eng) Zero(typ types.Type) Val {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return One(e.TFalse)
		case u.Info()&types.IsString != 0:
			return One(e.Const(constant.MakeString(""), typ))
		case u.Info()&types.IsNumeric != 0:
			return One(e.Const(constant.MakeInt64(0), typ))
		}
		return One(e.Nil())
	case *types.Struct:
		vals := make([]Val, u.NumFields())
		for i := range vals {
			vals[i] = e.Zero(u.Field(i).Type())
		}
		return One(e.raw("struct", e.TypeName(typ), nil, vals, nil, typ))
	case *types.Slice:
		return One(e.Seq(nil, typ))
	case *types.Array:
		return One(e.raw("zero", e.TypeName(typ), nil, nil, nil, typ))
	}
	return One(e.Nil())
}

// Seq is a slice value with known elements.
func (e *Eng) Seq(el []*Term, typ types.Type) *Term { return e.raw("seq", "", el, nil, nil, typ) }

func elemType(typ types.Type) types.Type {
	if typ == nil {
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return nil
}

const maxTable = 80

// Idx is element i of a slice, array or string value.
func (e *Eng) Idx(x, i *Term, typ types.Type) Val {
	n, isc := intConst(i)
	switch x.Op {
	case "const":
		if s, ok := strConst(x); ok && isc && n >= 0 && n < int64(len(s)) {
			return One(e.Const(constant.MakeInt64(int64(s[n])), typ))
		}
	case "seq":
		if isc {
			if n >= 0 && n < int64(len(x.Args)) {
				return One(x.Args[n])
			}
		} else if len(x.Args) > 0 && len(x.Args) <= maxTable && allConstish(x.Args) && i.Op != "iter" {
			var out Val
			for k, a := range x.Args {
				out = append(out, Case{e.eq(i, e.Int(int64(k))), a})
			}
			rest := True
			for _, c := range out {
				rest = e.And(rest, e.Not(c.C))
			}
			_ = rest // out of range panics; fold into the last element
			return e.norm(out)
		}
	case "app":
		if x.Args[0].Op == "seq" && isc && n < int64(len(x.Args[0].Args)) {
			return One(x.Args[0].Args[n])
		}
		// last element of an append
		if e.Add(e.lenLeaf(x.Args[0]), 0, e.Int(0), 0) != nil {
			for k, a := range x.Args[1:] {
				if e.Add(e.lenLeaf(x.Args[0]), 0, e.Int(0), int64(k)) == i {
					return One(a)
				}
			}
		}
	case "apps":
		if y := x.Args[0]; y.Op == "seq" && isc {
			if n < int64(len(y.Args)) {
				return One(y.Args[n])
			}
			return e.Idx(x.Args[1], e.Int(n-int64(len(y.Args))), typ)
		}
	case "copyof":
		return e.Idx(x.Args[0], i, typ)
	case "slice":
		if lo := x.Args[1]; lo.Op != "none" && x.Args[0].Op != "strbytes" {
			return e.Idx(x.Args[0], e.Add(i, 1, lo, 0), typ)
		} else if lo.Op == "none" {
			return e.Idx(x.Args[0], i, typ)
		}
	case "updi":
		if x.Args[1] == i {
			return One(x.Args[2])
		}
		if isc && isConst(x.Args[1]) {
			return e.Idx(x.Args[0], i, typ)
		}
	case "zeros", "mkslice":
		if typ != nil {
			return e.Zero(typ)
		}
	case "zero":
		if typ != nil {
			return e.Zero(typ)
		}
	case "mapseq":
		return e.SubstT(x.Args[1], map[*Term]Val{e.iterOf(x): One(i)})
	}
	return One(e.raw("idx", "", []*Term{x, i}, nil, nil, typ))
}

func (e *Eng) lenLeaf(x *Term) *Term {
	v := e.Len(x)
	if len(v) == 1 {
		return v[0].T
	}
	return e.Fold(v)
}

// iterOf is the bound index of a mapseq term.
func (e *Eng) iterOf(x *Term) *Term { return x.Args[2] }

func allConstish(ts []*Term) bool {
	for _, t := range ts {
		switch t.Op {
		case "const", "fn", "gaddr":
		case "struct":
			for _, v := range t.Vals {
				if len(v) != 1 || !isConst(v[0].T) && v[0].T.Op != "fn" && v[0].T.Op != "gval" {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// Len of a string, slice, array or map value.
func (e *Eng) Len(x *Term) Val {
	it := types.Typ[types.Int]
	if s, ok := strConst(x); ok {
		return One(e.Int(int64(len(s))))
	}
	switch x.Op {
	case "seq":
		return One(e.Int(int64(len(x.Args))))
	case "mkslice":
		return One(x.Args[0])
	case "mapseq":
		return One(x.Args[0])
	case "app":
		l := e.Len(x.Args[0])
		if len(l) == 1 {
			return One(e.Add(l[0].T, 0, e.Int(0), int64(len(x.Args)-1)))
		}
	case "apps":
		a, b := e.Len(x.Args[0]), e.Len(x.Args[1])
		if len(a) == 1 && len(b) == 1 {
			return One(e.Add(a[0].T, 1, b[0].T, 0))
		}
	case "updi", "sorted", "elems", "copyof":
		return e.Len(x.Args[0])
	case "empty":
		return One(e.Int(0))
	case "slice":
		if x.Args[2].Op != "none" {
			if x.Args[1].Op == "none" {
				return One(x.Args[2])
			}
			return One(e.Add(x.Args[2], -1, x.Args[1], 0))
		}
		if x.Args[1].Op != "none" {
			l := e.Len(x.Args[0])
			if len(l) == 1 {
				return One(e.Add(l[0].T, -1, x.Args[1], 0))
			}
		}
	case "const":
		if x.C == nil {
			return One(e.Int(0))
		}
	}
	if x.Type != nil {
		t := x.Type.Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return One(e.Int(a.Len()))
		}
	}
	return One(e.raw("len", "", []*Term{x}, nil, nil, it))
}

// None marks an absent slice bound.
func (e *Eng) None() *Term { return e.raw("none", "", nil, nil, nil, nil) }

func (e *Eng) SliceOf(x, lo, hi *Term, typ types.Type) *Term {
	if n, ok := intConst(lo); ok && n == 0 {
		lo = e.None()
	}
	if hi.Op != "none" {
		if l := e.Len(x); len(l) == 1 && l[0].T == hi {
			hi = e.None()
		}
	}
	if lo.Op == "none" && hi.Op == "none" {
		return x
	}
	if x.Op == "slice" {
		// x[a:b][c:d] = x[a+c : a+d]
		a := x.Args[1]
		off := func(t *Term) *Term {
			if a.Op == "none" {
				return t
			}
			return e.Add(t, 1, a, 0)
		}
		nlo, nhi := a, x.Args[2]
		if lo.Op != "none" {
			nlo = off(lo)
		}
		if hi.Op != "none" {
			nhi = off(hi)
		}
		return e.SliceOf(x.Args[0], nlo, nhi, typ)
	}
	if s, ok := strConst(x); ok {
		l, okl := int64(0), lo.Op == "none"
		h, okh := int64(len(s)), hi.Op == "none"
		if !okl {
			l, okl = intConst(lo)
		}
		if !okh {
			h, okh = intConst(hi)
		}
		if okl && okh && l >= 0 && h >= l && h <= int64(len(s)) {
			return e.Const(constant.MakeString(s[l:h]), typ)
		}
	}
	if x.Op == "seq" {
		l, okl := int64(0), lo.Op == "none"
		h, okh := int64(len(x.Args)), hi.Op == "none"
		if !okl {
			l, okl = intConst(lo)
		}
		if !okh {
			h, okh = intConst(hi)
		}
		if okl && okh && l >= 0 && h >= l && h <= int64(len(x.Args)) {
			return e.Seq(x.Args[l:h], typ)
		}
	}
	return e.raw("slice", "", []*Term{x, lo, hi}, nil, nil, typ)
}

// Append adds known elements.
func (e *Eng) Append(s *Term, el []*Term, typ types.Type) *Term {
	if len(el) == 0 {
		return s
	}
	switch s.Op {
	case "seq":
		return e.Seq(append(append([]*Term(nil), s.Args...), el...), typ)
	case "app":
		return e.raw("app", "", append(append([]*Term(nil), s.Args...), el...), nil, nil, typ)
	}
	return e.raw("app", "", append([]*Term{s}, el...), nil, nil, typ)
}

// AppendSlice concatenates two slices.
func (e *Eng) AppendSlice(s, t *Term, typ types.Type) *Term {
	if t.Op == "seq" {
		return e.Append(s, t.Args, typ)
	}
	switch t.Op {
	case "app":
		return e.Append(e.AppendSlice(s, t.Args[0], typ), t.Args[1:], typ)
	case "apps":
		return e.AppendSlice(e.AppendSlice(s, t.Args[0], typ), t.Args[1], typ)
	case "copyof":
		return e.AppendSlice(s, t.Args[0], typ)
	}
	if s.Op == "seq" && len(s.Args) == 0 {
		if t.Op == "mapseq" || t.Aux == "acc" {
			return t
		}
		return e.raw("copyof", "", []*Term{t}, nil, nil, typ)
	}
	return e.raw("apps", "", []*Term{s, t}, nil, nil, typ)
}

// Lookup reads a map content.
func (e *Eng) Lookup(m, k *Term, typ types.Type) Val {
	switch m.Op {
	case "empty":
		return e.Zero(typ)
	case "updm":
		eq := e.eq(m.Args[1], k)
		if eq == True {
			return One(m.Args[2])
		}
		if eq == False {
			return e.Lookup(m.Args[0], k, typ)
		}
		if e.constMap(m) {
			out := Val{{eq, m.Args[2]}}
			for _, c := range e.Lookup(m.Args[0], k, typ) {
				out = append(out, Case{e.And(e.Not(eq), c.C), c.T})
			}
			return e.norm(out)
		}
	case "delm":
		eq := e.eq(m.Args[1], k)
		if eq == True {
			return e.Zero(typ)
		}
		if eq == False {
			return e.Lookup(m.Args[0], k, typ)
		}
	case "const":
		return e.Zero(typ)
	}
	t := e.raw("lookup", "", []*Term{m, k}, nil, nil, typ)
	if isBool(typ) {
		return e.Bool(e.Atom(t))
	}
	return One(t)
}

// Has tells whether a key is present.
func (e *Eng) Has(m, k *Term) Val {
	switch m.Op {
	case "empty":
		return e.Bool(False)
	case "updm":
		eq := e.eq(m.Args[1], k)
		if eq == True {
			return e.Bool(True)
		}
		if eq == False {
			return e.Has(m.Args[0], k)
		}
		if m.Args[2] == e.TTrue || e.constMap(m) {
			return e.Bool(e.Or(eq, e.Cond(e.Has(m.Args[0], k))))
		}
	case "delm":
		eq := e.eq(m.Args[1], k)
		if eq == True {
			return e.Bool(False)
		}
		if eq == False {
			return e.Has(m.Args[0], k)
		}
	case "munion":
		return e.Bool(e.Or(e.Cond(e.Has(m.Args[0], k)), e.Cond(e.Has(m.Args[1], k))))
	case "const":
		return e.Bool(False)
	}
	return e.Bool(e.Atom(e.raw("has", "", []*Term{m, k}, nil, nil, types.Typ[types.Bool])))
}

// setAdd: the elements of a sequence are added to a set.
func (e *Eng) setAdd(m, s *Term, typ types.Type) *Term {
	tr := e.TTrue
	switch {
	case s.Op == "seq":
		for _, k := range s.Args {
			m = e.setIns(m, k, tr, typ)
		}
		return m
	case isConst(s): // nil
		return m
	case s.Op == "elems":
		return e.setUnion(m, s.Args[0], typ)
	case s.Op == "sorted":
		return e.setAdd(m, s.Args[0], typ)
	case s.Op == "app":
		m = e.setAdd(m, s.Args[0], typ)
		for _, k := range s.Args[1:] {
			m = e.setIns(m, k, tr, typ)
		}
		return m
	case s.Op == "apps":
		return e.setAdd(e.setAdd(m, s.Args[0], typ), s.Args[1], typ)
	}
	return e.setUnion(m, e.raw("setof", "", []*Term{s}, nil, nil, typ), typ)
}

// setIns adds one element: below are the united sets, above the single
// elements in canonical order.
func (e *Eng) setIns(m, k, tr *Term, typ types.Type) *Term {
	if m.Op == "updm" && m.Args[2] == tr {
		if m.Args[1] == k {
			return m
		}
		if k.ID < m.Args[1].ID {
			return e.raw("updm", "", []*Term{e.setIns(m.Args[0], k, tr, typ), m.Args[1], tr}, nil, nil, typ)
		}
	}
	return e.raw("updm", "", []*Term{m, k, tr}, nil, nil, typ)
}

func (e *Eng) setUnion(a, b *Term, typ types.Type) *Term {
	tr := e.TTrue
	if b.Op == "empty" || a == b {
		return a
	}
	if a.Op == "empty" {
		return b
	}
	if a.Op == "updm" && a.Args[2] == tr {
		return e.setIns(e.setUnion(a.Args[0], b, typ), a.Args[1], tr, typ)
	}
	if b.Op == "updm" && b.Args[2] == tr {
		return e.setIns(e.setUnion(a, b.Args[0], typ), b.Args[1], tr, typ)
	}
	if b.Op == "munion" {
		return e.setUnion(e.setUnion(a, b.Args[0], typ), b.Args[1], typ)
	}
	if a.Op == "munion" {
		if a.Args[1] == b {
			return a
		}
		if b.ID < a.Args[1].ID {
			return e.raw("munion", "", []*Term{e.setUnion(a.Args[0], b, typ), a.Args[1]}, nil, nil, typ)
		}
	} else if b.ID < a.ID {
		a, b = b, a
	}
	return e.raw("munion", "", []*Term{a, b}, nil, nil, typ)
}

func (e *Eng) setDel(m, k *Term, typ types.Type) *Term {
	switch m.Op {
	case "empty":
		return m
	case "updm":
		switch eq := e.eq(m.Args[1], k); eq {
		case True:
			return e.setDel(m.Args[0], k, typ)
		case False:
			return e.setIns(e.setDel(m.Args[0], k, typ), m.Args[1], m.Args[2], typ)
		}
	case "munion":
		return e.setUnion(e.setDel(m.Args[0], k, typ), e.setDel(m.Args[1], k, typ), typ)
	case "delm":
		if m.Args[1] == k {
			return m
		}
		if k.ID < m.Args[1].ID {
			return e.raw("delm", "", []*Term{e.setDel(m.Args[0], k, typ), m.Args[1]}, nil, nil, typ)
		}
	}
	return e.raw("delm", "", []*Term{m, k}, nil, nil, typ)
}

// constMap: a chain of updates with constant keys from the empty map.
func (e *Eng) constMap(m *Term) bool {
	n := 0
	for m.Op == "updm" {
		if !isConst(unwrapIf(m.Args[1])) && m.Args[1].Op != "struct" {
			return false
		}
		n++
		if n > 200 {
			return false
		}
		m = m.Args[0]
	}
	return m.Op == "empty"
}

func (e *Eng) TypeIs(x *Term, aux string) Val {
	switch x.Op {
	case "mkif":
		if !strings.HasPrefix(aux, "i:") {
			return e.Bool(e.b2(x.Aux == aux))
		}
	case "const":
		if x.C == nil {
			return e.Bool(False)
		}
	}
	return e.Bool(e.Atom(e.raw("typeis", aux, []*Term{x}, nil, nil, types.Typ[types.Bool])))
}

func (e *Eng) b2(b bool) Bdd {
	if b {
		return True
	}
	return False
}

func (e *Eng) Assert(x *Term, aux string, typ types.Type) Val {
	if x.Op == "mkif" && x.Aux == aux {
		return One(x.Args[0])
	}
	if strings.HasPrefix(aux, "i:") {
		return One(x)
	}
	return One(e.raw("assert", aux, []*Term{x}, nil, nil, typ))
}

// Conv converts between representations; conversions that keep the value are
// transparent.
func (e *Eng) Conv(x *Term, aux string, typ types.Type) *Term {
	from := x.Type
	if from != nil && typ != nil {
		fu, tu := from.Underlying(), typ.Underlying()
		fb, ok1 := fu.(*types.Basic)
		tb, ok2 := tu.(*types.Basic)
		if ok1 && ok2 {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if x.C != nil {
					return e.Const(x.C, typ)
				}
				if widening(fb.Kind(), tb.Kind()) {
					return x
				}
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				if x.C != nil {
					return e.Const(x.C, typ)
				}
				return x
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				if n, ok := intConst(x); ok {
					return e.Const(constant.MakeString(string(rune(n))), typ)
				}
				aux = "string(rune)"
			}
		}
		if ok1 && fb.Info()&types.IsString != 0 {
			if sl, ok := tu.(*types.Slice); ok {
				k := "bytes"
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					k = "runes"
				}
				if s, ok := strConst(x); ok && len(s) <= maxTable {
					var el []*Term
					if k == "bytes" {
						for i := 0; i < len(s); i++ {
							el = append(el, e.Const(constant.MakeInt64(int64(s[i])), sl.Elem()))
						}
					} else {
						for _, r := range s {
							el = append(el, e.Const(constant.MakeInt64(int64(r)), sl.Elem()))
						}
					}
					return e.Seq(el, typ)
				}
				if x.Op == "conv" && x.Aux == "str("+k+")" {
					return e.raw("copyof", "", []*Term{x.Args[0]}, nil, nil, typ)
				}
				return e.raw("conv", k, []*Term{x}, nil, nil, typ)
			}
		}
		if ok2 && tb.Info()&types.IsString != 0 {
			if sl, ok := fu.(*types.Slice); ok {
				k := "bytes"
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					k = "runes"
				}
				if x.Op == "conv" && x.Aux == k {
					return x.Args[0]
				}
				if x.Op == "seq" {
					var sb strings.Builder
					ok := true
					for _, a := range x.Args {
						n, isc := intConst(a)
						if !isc {
							ok = false
							break
						}
						if k == "bytes" {
							sb.WriteByte(byte(n))
						} else {
							sb.WriteRune(rune(n))
						}
					}
					if ok {
						return e.Const(constant.MakeString(sb.String()), typ)
					}
					if len(x.Args) == 1 && k == "runes" {
						return e.raw("conv", "string(rune)", []*Term{x.Args[0]}, nil, nil, typ)
					}
				}
				return e.raw("conv", "str("+k+")", []*Term{x}, nil, nil, typ)
			}
		}
		if types.Identical(fu, tu) {
			return x
		}
	}
	return e.raw("conv", aux, []*Term{x}, nil, nil, typ)
}

func widening(f, t types.BasicKind) bool {
	if f == t {
		return true
	}
	size := map[types.BasicKind]int{types.Int8: 1, types.Uint8: 1, types.Int16: 2, types.Uint16: 2, types.Int32: 4, types.Uint32: 4, types.Int: 8, types.Uint: 8, types.Int64: 8, types.Uint64: 8, types.Uintptr: 8, types.UntypedInt: 8, types.UntypedRune: 4}
	unsigned := map[types.BasicKind]bool{types.Uint8: true, types.Uint16: true, types.Uint32: true, types.Uint: true, types.Uint64: true, types.Uintptr: true}
	if size[t] > size[f] {
		return unsigned[f] || !unsigned[t]
	}
	// same size: int -> int64 etc. keeps the value
	return size[t] == size[f] && unsigned[t] == unsigned[f]
}

// ---- substitution ----

type substT struct {
	e    *Eng
	m    map[*Term]Val
	syms map[int]bool
	memo map[*Term]Val
	bm   map[Bdd]Bdd
	any  bool // map contains non-symbol keys: always descend
}

func (e *Eng) newSubst(m map[*Term]Val) *substT {
	s := &substT{e: e, m: m, syms: map[int]bool{}, memo: map[*Term]Val{}, bm: map[Bdd]Bdd{}}
	for t := range m {
		if t.Op == "sym" {
			s.syms[t.syms[0]] = true
		} else {
			s.any = true
		}
	}
	return s
}

// SubstT replaces leaves of t.
func (e *Eng) SubstT(t *Term, m map[*Term]Val) Val { return e.newSubst(m).term(t) }

func (s *substT) term(t *Term) Val {
	if r, ok := s.m[t]; ok {
		return r
	}
	if !s.any && !hasSym(t.syms, s.syms) {
		return One(t)
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	if len(t.Args) == 0 && len(t.Vals) == 0 && len(t.Conds) == 0 {
		return One(t)
	}
	e := s.e
	vals := make([]Val, len(t.Vals))
	for i, v := range t.Vals {
		vals[i] = s.val(v)
	}
	conds := make([]Bdd, len(t.Conds))
	for i, c := range t.Conds {
		conds[i] = s.bdd(c)
	}
	if len(t.Vals) == 0 {
		vals = nil
	}
	if len(t.Conds) == 0 {
		conds = nil
	}
	args := make([]Val, len(t.Args))
	for i, a := range t.Args {
		args[i] = s.term(a)
	}
	var r Val
	if len(args) == 0 {
		r = e.mk_(t.Op, t.Aux, nil, vals, conds, t.Type)
	} else {
		r = e.Apply(True, func(a []*Term) Val {
			return e.mk_(t.Op, t.Aux, a, vals, conds, t.Type)
		}, args...)
	}
	s.memo[t] = r
	return r
}

func (s *substT) bdd(b Bdd) Bdd {
	if b <= True {
		return b
	}
	if r, ok := s.bm[b]; ok {
		return r
	}
	e := s.e
	n := e.nodes[b]
	at := e.atoms[n.v]
	var c Bdd
	if !s.any && !hasSym(at.syms, s.syms) {
		c = e.mk(n.v, False, True)
	} else {
		c = e.Cond(s.term(at))
	}
	r := e.Ite(c, s.bdd(n.hi), s.bdd(n.lo))
	s.bm[b] = r
	return r
}

func (s *substT) val(v Val) Val {
	ch := false
	for _, c := range v {
		if s.any || hasSym(c.T.syms, s.syms) || s.bdd(c.C) != c.C {
			ch = true
			break
		}
	}
	if !ch {
		return v
	}
	var out Val
	for _, c := range v {
		b := s.bdd(c.C)
		if b == False {
			continue
		}
		for _, x := range s.term(c.T) {
			if bb := s.e.And(b, x.C); bb != False {
				out = append(out, Case{bb, x.T})
			}
		}
	}
	return s.e.norm(out)
}

// ---- names and printing ----

func (e *Eng) strip(path string) string {
	for _, p := range e.StripPath {
		path = strings.Replace(path, p, "", 1)
	}
	return path
}

func (e *Eng) qual(p *types.Package) string { return e.strip(p.Path()) }

// TypeName is the canonical name of a type.
func (e *Eng) TypeName(t types.Type) string { return types.TypeString(t, e.qual) }

func (e *Eng) Show(t *Term) string { e.showN = 300; return e.show(t, 12) }

func (e *Eng) show(t *Term, d int) string {
	e.showN--
	if d <= 0 || e.showN < 0 {
		return "…"
	}
	args := func(ts []*Term) string {
		var p []string
		for _, a := range ts {
			p = append(p, e.show(a, d-1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const":
		if t.C == nil {
			return "nil"
		}
		if t.C.Kind() == constant.String {
			s := constant.StringVal(t.C)
			if len(s) > 60 {
				r := 60
				for !utf8.RuneStart(s[r]) {
					r--
				}
				s = s[:r] + "…"
			}
			return strconv.Quote(s)
		}
		return t.C.ExactString()
	case "param":
		return "p" + t.Aux
	case "fld":
		return e.show(t.Args[0], d-1) + "." + t.Aux
	case "idx":
		return e.show(t.Args[0], d-1) + "[" + e.show(t.Args[1], d-1) + "]"
	case "lookup":
		return e.show(t.Args[0], d-1) + "[" + e.show(t.Args[1], d-1) + "]"
	case "has":
		return e.show(t.Args[1], d-1) + " in " + e.show(t.Args[0], d-1)
	case "len":
		return "len(" + e.show(t.Args[0], d-1) + ")"
	case "iter":
		return "each" + t.Aux + "[0.." + e.show(t.Args[0], d-1) + ")"
	case "eq":
		return e.show(t.Args[0], d-1) + "==" + e.show(t.Args[1], d-1)
	case "lt":
		return e.show(t.Args[0], d-1) + "<" + e.show(t.Args[1], d-1)
	case "ltz":
		return e.show(t.Args[0], d-1) + "<0"
	case "isnil":
		return e.show(t.Args[0], d-1) + "==nil"
	case "cat":
		var p []string
		for _, a := range t.Args {
			p = append(p, e.show(a, d-1))
		}
		return "(" + strings.Join(p, "+") + ")"
	case "lin":
		parts := strings.Split(t.Aux, ",")
		var p []string
		for i, a := range t.Args {
			s := e.show(a, d-1)
			switch parts[i+1] {
			case "1":
			case "-1":
				s = "-" + s
			default:
				s = parts[i+1] + "*" + s
			}
			p = append(p, s)
		}
		if parts[0] != "0" {
			p = append(p, parts[0])
		}
		return "(" + strings.Join(p, "+") + ")"
	case "call":
		return t.Aux + "(" + args(t.Args) + ")"
	case "ext":
		return e.show(t.Args[0], d-1) + "#" + t.Aux
	case "mkif":
		return e.show(t.Args[0], d-1)
	case "seq":
		return "[" + args(t.Args) + "]"
	case "typeis":
		return e.show(t.Args[0], d-1) + " is " + t.Aux
	case "assert":
		return e.show(t.Args[0], d-1) + ".(" + t.Aux + ")"
	}
	s := t.Op
	if t.Aux != "" {
		s += "<" + t.Aux + ">"
	}
	if len(t.Args) > 0 {
		s += "(" + args(t.Args) + ")"
	}
	if len(t.Vals) > 0 {
		var p []string
		for i, v := range t.Vals {
			nm := ""
			if t.Op == "struct" && t.Type != nil {
				if st, ok := t.Type.Underlying().(*types.Struct); ok && i < st.NumFields() {
					nm = st.Field(i).Name() + ":"
				}
			}
			p = append(p, nm+e.showVal(v, d-1))
		}
		s += "{" + strings.Join(p, "; ") + "}"
	}
	for _, c := range t.Conds {
		s += "?(" + e.showCond(c, d-1) + ")"
	}
	return s
}

func (e *Eng) ShowVal(v Val) string { e.showN = 300; return e.showVal(v, 12) }

func (e *Eng) showVal(v Val, d int) string {
	if d <= 0 {
		return "…"
	}
	if len(v) == 1 && v[0].C == True {
		return e.show(v[0].T, d)
	}
	var p []string
	for _, c := range v {
		p = append(p, e.showCond(c.C, d-1)+" => "+e.show(c.T, d))
	}
	return "{" + strings.Join(p, " | ") + "}"
}

func (e *Eng) ShowCond(b Bdd) string { e.showN = 3000; return e.showCond(b, 30) }

func (e *Eng) showCond(b Bdd, d int) string {
	if b == True {
		return "always"
	}
	if b == False {
		return "never"
	}
	if d <= 0 {
		return "…"
	}
	// enumerate cubes
	var cubes []string
	var walk func(Bdd, []string)
	walk = func(x Bdd, acc []string) {
		if len(cubes) > 6 || e.showN < 0 {
			return
		}
		if x == False {
			return
		}
		if x == True {
			cubes = append(cubes, strings.Join(acc, " && "))
			return
		}
		n := e.nodes[x]
		a := e.show(e.atoms[n.v], d-1)
		walk(n.hi, append(acc[:len(acc):len(acc)], a))
		walk(n.lo, append(acc[:len(acc):len(acc)], "!("+a+")"))
	}
	walk(b, nil)
	if len(cubes) > 6 {
		cubes = append(cubes[:6], "…")
	}
	return strings.Join(cubes, " || ")
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = fmt.Sprint

// SetEq compares two sets.
func (e *Eng) SetEq(a, b *Term) Val {
	if a == b {
		return e.Bool(True)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return e.Bool(e.Atom(e.raw("seteq", "", []*Term{a, b}, nil, nil, types.Typ[types.Bool])))
}
