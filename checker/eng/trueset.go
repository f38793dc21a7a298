package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// place names the unexported field or variable a map is kept in.
func mapPlace(v ssa.Value) string {
	var a ssa.Value
	switch u := v.(type) {
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return ""
		}
		a = u.X
	case *ssa.Field:
		return fieldPlace(u.X.Type(), u.Field)
	default:
		return ""
	}
	return addrPlace(a)
}

func addrPlace(a ssa.Value) string {
	switch u := a.(type) {
	case *ssa.FieldAddr:
		return fieldPlace(u.X.Type().Underlying().(*types.Pointer).Elem(), u.Field)
	case *ssa.Global:
		if o := u.Object(); o != nil && !o.Exported() {
			return u.String()
		}
	}
	return ""
}

func fieldPlace(t types.Type, i int) string {
	n, ok := types.Unalias(t).(*types.Named)
	s, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 || s.Field(i).Exported() || n.TypeArgs().Len() > 0 {
		return ""
	}
	return fmt.Sprint(n.String(), ".", s.Field(i).Name())
}

// flagMap: a map in which an absent key can be told from one that is there,
// if false or nil is never put into it.
func flagMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	switch m.Elem().Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature:
		return true
	}
	return isBool(m.Elem())
}

// notZero: v is true, or not nil.
func (p *Prog) notZero(v ssa.Value) bool { return p.notZeroD(v, 6) }

func (p *Prog) notZeroD(v ssa.Value, d int) bool {
	if d == 0 {
		return false
	}
	switch u := v.(type) {
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !p.notZeroD(e, d-1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		calls, ok := p.directCalls(u.Parent())
		if !ok || len(calls) == 0 {
			return false
		}
		for i, q := range u.Parent().Params {
			if q != u {
				continue
			}
			for _, c := range calls {
				if i >= len(c.Args) || !p.notZeroD(c.Args[i], d-1) {
					return false
				}
			}
			return true
		}
	case *ssa.Const:
		return u.Value != nil && u.Value.Kind() == constant.Bool && constant.BoolVal(u.Value)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Function:
		return true
	case *ssa.Call:
		if sc := u.Call.StaticCallee(); sc != nil {
			return p.ModRef(sc, &u.Call).Fresh
		}
	}
	return false
}

// directCalls lists the calls of fn, a function that is not exported and not used as a value.
func (p *Prog) directCalls(fn *ssa.Function) ([]*ssa.CallCommon, bool) {
	if p.calls == nil {
		p.calls, p.valued = map[*ssa.Function][]*ssa.CallCommon{}, map[*ssa.Function]bool{}
		var ops []*ssa.Value
		for g := range ssautil.AllFunctions(p.SSA) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					c, _ := ins.(ssa.CallInstruction)
					if c != nil {
						if f := c.Common().StaticCallee(); f != nil {
							p.calls[f] = append(p.calls[f], c.Common())
						}
					}
					for _, o := range ins.Operands(ops[:0]) {
						if f, ok := (*o).(*ssa.Function); ok && (c == nil || o != &c.Common().Value) {
							p.valued[f] = true
						}
					}
				}
			}
		}
	}
	if fn.Object() == nil || fn.Object().Exported() || p.valued[fn] {
		return nil, false
	}
	return p.calls[fn], true
}

// trueOnly: v is a map that only ever holds true, or pointers that are not nil,
// so that a key is present exactly if its value is not the zero value.
func (p *Prog) trueOnly(v ssa.Value) bool {
	if !flagMap(v.Type()) {
		return false
	}
	k := mapPlace(v)
	if k == "" {
		_, ok := v.(*ssa.MakeMap)
		return ok && p.trueMap(v, "")
	}
	if p.mixed == nil {
		p.mixed = map[string]bool{}
		for fn := range ssautil.AllFunctions(p.SSA) {
			if fn.Pkg == nil || !p.Module(fn.Pkg.Pkg.Path()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					p.scanPlace(ins)
				}
			}
		}
	}
	return !p.mixed[k]
}

func (p *Prog) scanPlace(ins ssa.Instruction) {
	taint := func(k string) {
		if k != "" {
			p.mixed[k] = true
		}
	}
	if st, ok := ins.(*ssa.Store); ok && flagMap(st.Val.Type()) {
		if k := addrPlace(st.Addr); k != "" && !p.trueMap(st.Val, k) {
			taint(k)
		}
	}
	v, ok := ins.(ssa.Value)
	if !ok {
		return
	}
	if pt, ok := v.Type().Underlying().(*types.Pointer); ok && flagMap(pt.Elem()) {
		// an address of the place that is not only loaded from or stored to
		if k := addrPlace(v); k != "" {
			for _, r := range *v.Referrers() {
				switch u := r.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if u.Addr != v {
						taint(k)
					}
				default:
					taint(k)
				}
			}
		}
		return
	}
	if !flagMap(v.Type()) {
		return
	}
	if k := mapPlace(v); k != "" && !p.trueMap(v, k) {
		taint(k)
	}
}

// trueMap: nothing but true is put into the map v; it is kept in place k only.
func (p *Prog) trueMap(v ssa.Value, k string) bool {
	switch u := v.(type) {
	case *ssa.MakeMap:
	case *ssa.Const:
		return true
	default:
		if mapPlace(u) != k {
			return false
		}
	}
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			if u.Map != v || !p.notZero(u.Value) {
				return false
			}
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Store:
			if k == "" || addrPlace(u.Addr) != k {
				return false
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "delete" && b.Name() != "clear" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// countFn: fn returns what it counted, never a negative number.
func (p *Prog) countFn(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	busy := map[ssa.Value]bool{}
	var nn func(v ssa.Value) bool
	nn = func(v ssa.Value) bool {
		if busy[v] {
			return true
		}
		busy[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil || v.Value.Kind() != constant.Int {
				return false
			}
			return constant.Sign(v.Value) >= 0
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !nn(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			return v.Op == token.ADD && nn(v.X) && nn(v.Y)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				return b.Name() == "len" || b.Name() == "cap"
			}
		}
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 || !nn(r.Results[0]) {
				return false
			}
		}
	}
	return true
}
