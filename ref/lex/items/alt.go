package items

import (
	"sort"

	"github.com/goccmack/gogll/v3/ast"
)

// New_alt1 is New: i < sets.Len() is implied by changed, because the set that
// was added has a larger number than i.
func New_alt1(g *ast.GoGLL) *Sets {
	s0 := set0(g)
	s0.No = 0
	sets := new(Sets).add(s0)
	for i := 0; i < sets.Len(); i++ {
		for _, newSet := range sets.Set(i).nextSets() {
			if oldSet := sets.GetExisting(newSet); oldSet == nil {
				newSet.No = len(sets.sets)
				sets.add(newSet)
			} else {
				sets.Set(i).changeToSetNo(newSet, oldSet)
			}
		}
	}
	for _, s := range sets.sets {
		sort.Sort(s)
	}
	return sets
}
