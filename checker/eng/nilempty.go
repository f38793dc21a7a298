package eng

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// nilIffEmpty: the slice v is nil exactly if it is empty, since it is only
// ever nil or the result of append.
func (p *Prog) nilIffEmpty(v ssa.Value) bool {
	if _, ok := v.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	return p.nilEmpty(v, map[any]bool{})
}

func (p *Prog) nilEmpty(v ssa.Value, busy map[any]bool) bool {
	if busy[v] {
		return true
	}
	busy[v] = true
	switch u := v.(type) {
	case *ssa.Const:
		return u.Value == nil
	case *ssa.ChangeType:
		return p.nilEmpty(u.X, busy)
	case *ssa.Phi:
		for _, e := range u.Edges {
			if !p.nilEmpty(e, busy) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		// a literal with elements
		pt, ok := u.X.Type().Underlying().(*types.Pointer)
		if !ok || u.Low != nil || u.High != nil {
			return false
		}
		a, ok := pt.Elem().Underlying().(*types.Array)
		return ok && a.Len() > 0
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "append" && p.nilEmpty(u.Call.Args[0], busy)
		}
		return p.nilResult(u, 0, busy)
	case *ssa.Extract:
		c, ok := u.Tuple.(*ssa.Call)
		return ok && p.nilResult(c, u.Index, busy)
	case *ssa.UnOp:
		if u.Op != token.MUL {
			return false
		}
		k := addrPlace(u.X)
		return k != "" && p.nilPlace(k, busy)
	case *ssa.Field:
		k := fieldPlace(u.X.Type(), u.Field)
		return k != "" && p.nilPlace(k, busy)
	}
	return false
}

func (p *Prog) nilResult(c *ssa.Call, i int, busy map[any]bool) bool {
	fn := c.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || fn.Pkg == nil || !p.Module(fn.Pkg.Pkg.Path()) {
		return false
	}
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !p.nilEmpty(r.Results[i], busy) {
			return false
		}
	}
	return true
}

// nilPlace: every slice put into the unexported field or variable is nil exactly if empty.
func (p *Prog) nilPlace(k string, busy map[any]bool) bool {
	if busy[k] {
		return true
	}
	busy[k] = true
	if p.places == nil {
		p.places, p.leaks = map[string][]ssa.Value{}, map[string]bool{}
		for fn := range ssautil.AllFunctions(p.SSA) {
			if fn.Pkg == nil || !p.Module(fn.Pkg.Pkg.Path()) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if k := addrPlace(st.Addr); k != "" {
							p.places[k] = append(p.places[k], st.Val)
						}
					}
					v, ok := ins.(ssa.Value)
					if !ok {
						continue
					}
					if k := addrPlace(v); k != "" {
						for _, r := range *v.Referrers() {
							switch u := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
								continue
							case *ssa.Store:
								if u.Addr == v {
									continue
								}
							}
							p.leaks[k] = true
						}
					}
				}
			}
		}
	}
	if p.leaks[k] {
		return false
	}
	for _, v := range p.places[k] {
		if !p.nilEmpty(v, busy) {
			return false
		}
	}
	return true
}
