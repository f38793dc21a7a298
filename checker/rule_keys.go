package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// The rule "one-key": symbols of different kinds are looked up in common
// maps by one text each. The texts of two kinds have to differ whatever the
// grammar says. Names of rules and tokens differ in their first letter. A
// string literal can be any text: it is only told apart from the others when
// its quotes, or something else that is not in the grammar, are part of it.

func ruleKeys(r *run) {
	astPkg, symPkg := r.cur.SSA[load.ModPath+"/ast"], r.cur.SSA[load.ModPath+"/symbols"]
	if astPkg == nil || symPkg == nil {
		return
	}
	id := method(astPkg, "StringLit", "ID")
	if id == nil {
		return
	}
	bare := stripsQuotes(id, map[*ssa.Function]bool{}) && !concats(id)
	pos := r.cur.Pos(id.Pos())
	check := func(key, what string) {
		r.obl++
		if bare {
			r.report("one-key|StringLit/"+key, pos, "the key of a string literal is its text without the quotes, which can be %s", what)
		}
	}
	check("NT", "the name of a rule")
	check("TokID", "the name of a token")
	if f := symPkg.Func("Init"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				if ok && k.Value != nil && k.Value.Kind() == constant.String {
					s := constant.StringVal(k.Value)
					check(s, "the reserved symbol "+s)
				}
			}
		}
	}
	if p := r.cur.SSA[load.ModPath+"/frstflw"]; p != nil {
		if c := p.Const("Empty"); c != nil && c.Value.Value.Kind() == constant.String {
			s := constant.StringVal(c.Value.Value)
			check(s, "the mark of the empty string, "+s)
		}
	}
}

func method(p *ssa.Package, typ, name string) *ssa.Function {
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(t.Type()))
	sel := ms.Lookup(p.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

// stripsQuotes: the text is a slice from its second character.
func stripsQuotes(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Slice:
				if k, ok := i.Low.(*ssa.Const); ok && k.Value != nil && k.Int64() == 1 && i.High != nil {
					return true
				}
			case *ssa.Call:
				if c := i.Common().StaticCallee(); c != nil && c.Pkg == f.Pkg && stripsQuotes(c, seen) {
					return true
				}
			}
		}
	}
	return false
}

func concats(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.BinOp:
				if i.Op == token.ADD {
					return true
				}
			case *ssa.Call:
				if c := i.Common().StaticCallee(); c != nil && c.Pkg != nil && c.Pkg != f.Pkg {
					switch c.Pkg.Pkg.Path() {
					case "fmt", "strings", "strconv":
						return true
					}
				}
			}
		}
	}
	return false
}
