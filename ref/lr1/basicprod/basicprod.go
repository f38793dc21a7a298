package basicprod

import (
	"fmt"
	"strings"

	"github.com/goccmack/gogll/v3/ast"
)

type Production struct {
	Alternate int
	Head      string
	Body      *ast.SyntaxAlternate
}

func Get(rules []*ast.SyntaxRule) (prods []*Production) {
	prods = append(prods,
		&Production{
			Head: augmentedStart(rules),
			Body: &ast.SyntaxAlternate{
				Symbols: []ast.SyntaxSymbol{rules[0].Head},
			},
		})
	for _, r := range rules {
		for i, alt := range r.Alternates {
			prods = append(prods,
				&Production{
					Alternate: i,
					Head:      r.Head.ID(),
					Body:      alt,
				})
		}
	}
	return prods
}

// augmentedStart returns the name of the augmented start rule, which is
// different from the names of all rules.
func augmentedStart(rules []*ast.SyntaxRule) string {
	head := "G0"
	for i := 0; i < len(rules); i++ {
		if rules[i].Head.ID() == head {
			head += "0"
			i = -1
		}
	}
	return head
}

func (p *Production) String() string {
	return fmt.Sprintf("%s : %s ;",
		p.Head,
		strings.Join(p.Body.GetSymbols(), " "))
}
