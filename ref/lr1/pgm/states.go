package pgm

import (
	"github.com/goccmack/gogll/v3/lr1/first"
	"github.com/goccmack/gogll/v3/lr1/items"
	"github.com/goccmack/gogll/v3/lr1/states"
	"github.com/goccmack/gogll/v3/lr1/symbolsuccessors"
)

func States(symbols []string, lr0items *items.Items, first *first.First) *states.States {
	s := &states.States{
		List: make([]*states.State, 0, 64),
	}
	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
	// The numbers of the states of which the transitions must be generated
	todo := []int{0}
	for len(todo) > 0 {
		si := todo[0]
		todo = todo[1:]
		st_trans := make([]states.Transition, 0, 4)
		for _, trans := range s.List[si].Next().List() {
			merged := false
			for _, snum := range symSuccessors[trans.Sym] {
				if weaklyCompatibleStates(s.List[snum], trans.State) {
					merged = true
					if mergeStates(s.List[snum], trans.State) {
						// the new context must reach the successors of the state
						todo = append(todo, snum)
					}
					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
					break
				}
			}
			if !merged {
				st_trans = append(st_trans, trans)
				s.List = append(s.List, trans.State)
				trans.State.Number = len(s.List) - 1
				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
				todo = append(todo, trans.State.Number)
			}
		}
		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
	}
	// s.GenActions()
	return s
}

/*
Merge the context of that into this. Return true iff this has new context.
*/
func mergeStates(this *states.State, that *states.State) bool {
	if !mergeCfgGrpSet(this.Nucleus, that.Nucleus) {
		return false
	}
	this.NonNucleus = states.NewConfigGroupSet()
	this.Closure()
	return true
}

func weaklyCompatibleStates(this *states.State, that *states.State) bool {
	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
}

func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (changed bool) {
	for _, cfGrp := range this.List() {
		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
			cfGrp.ContextSet.Add(diffContext.List...)
			changed = true
		}
	}
	return
}

func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
	if !this.CoreEqual(that) {
		return false
	}
	for i := 0; i < len(this.List())-1; i++ {
		for j := i + 1; j < len(this.List()); j++ {
			thisI, thisJ := this.List()[i], this.List()[j]
			thatI, thatJ := that.GetGroup(thisI), that.GetGroup(thisJ)
			if (contextsIntersect(thisI, thatJ) || contextsIntersect(thisJ, thatI)) &&
				!contextsIntersect(thisI, thisJ) && !contextsIntersect(thatI, thatJ) {
				return false
			}
		}
	}
	return true
}

func contextsIntersect(this *states.ConfigGroup, that *states.ConfigGroup) bool {
	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
}
