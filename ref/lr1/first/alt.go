package first

import "github.com/goccmack/gogll/v3/ast"

// firstTerms_alt1: Min drops the empty mark, and nothing when there is none.
func (this *First) firstTerms_alt1(alt *ast.SyntaxAlternate) (first FirstSet) {
	for _, t := range alt.Symbols {
		switch term := t.(type) {
		case *ast.TokID:
			first, _ = first.Add(term.ID())
			return
		case *ast.NT:
			f := this.symbol[term.ID()]
			first, _ = first.Add(f.Min("ℇ")...)
			if !f.Contain("ℇ") {
				return
			}
		case *ast.StringLit:
			first, _ = first.Add(string(term.Value()))
			return
		default:
			panic("Invalid")
		}
	}
	first, _ = first.Add("ℇ")
	return
}

// firstTerms_alt2 uses Min only where the mark occurs.
func (this *First) firstTerms_alt2(alt *ast.SyntaxAlternate) (first FirstSet) {
	for _, t := range alt.Symbols {
		switch term := t.(type) {
		case *ast.TokID:
			first, _ = first.Add(term.ID())
			return
		case *ast.NT:
			f := this.symbol[term.ID()]
			if !f.Contain("ℇ") {
				first, _ = first.Add(f...)
				return
			}
			first, _ = first.Add(f.Min("ℇ")...)
		case *ast.StringLit:
			first, _ = first.Add(string(term.Value()))
			return
		default:
			panic("Invalid")
		}
	}
	first, _ = first.Add("ℇ")
	return
}
