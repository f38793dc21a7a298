package pgm

import (
	"github.com/goccmack/gogll/v3/lr1/first"
	"github.com/goccmack/gogll/v3/lr1/items"
	"github.com/goccmack/gogll/v3/lr1/states"
	"github.com/goccmack/gogll/v3/lr1/symbolsuccessors"
)

// States_alt1 keeps the work list and moves an index over it.
func States_alt1(symbols []string, lr0items *items.Items, first *first.First) *states.States {
	s := &states.States{
		List: make([]*states.State, 0, 64),
	}
	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
	todo := []int{0}
	for next := 0; next < len(todo); next++ {
		si := todo[next]
		st_trans := make([]states.Transition, 0, 4)
		for _, trans := range s.List[si].Next().List() {
			merged := false
			for _, snum := range symSuccessors[trans.Sym] {
				if weaklyCompatibleStates(s.List[snum], trans.State) {
					merged = true
					if mergeStates(s.List[snum], trans.State) {
						todo = append(todo, snum)
					}
					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
					break
				}
			}
			if !merged {
				st_trans = append(st_trans, trans)
				s.List = append(s.List, trans.State)
				trans.State.Number = len(s.List) - 1
				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
				todo = append(todo, trans.State.Number)
			}
		}
		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
	}
	return s
}

// States_alt2: state numbers are not less than 0.
func States_alt2(symbols []string, lr0items *items.Items, first *first.First) *states.States {
	s := &states.States{
		List: make([]*states.State, 0, 64),
	}
	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
	todo := []int{0}
	for len(todo) > 0 {
		si := todo[0]
		todo = todo[1:]
		st_trans := make([]states.Transition, 0, 4)
		for _, trans := range s.List[si].Next().List() {
			if snum := find_alt1(s, symSuccessors[trans.Sym], trans.State); snum >= 0 {
				if mergeStates(s.List[snum], trans.State) {
					todo = append(todo, snum)
				}
				st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
			} else {
				st_trans = append(st_trans, trans)
				s.List = append(s.List, trans.State)
				trans.State.Number = len(s.List) - 1
				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
				todo = append(todo, trans.State.Number)
			}
		}
		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
	}
	return s
}

// States_alt3: state numbers are not -1.
func States_alt3(symbols []string, lr0items *items.Items, first *first.First) *states.States {
	s := &states.States{
		List: make([]*states.State, 0, 64),
	}
	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
	todo := []int{0}
	for len(todo) > 0 {
		si := todo[0]
		todo = todo[1:]
		st_trans := make([]states.Transition, 0, 4)
		for _, trans := range s.List[si].Next().List() {
			if snum := find_alt1(s, symSuccessors[trans.Sym], trans.State); snum != -1 {
				if mergeStates(s.List[snum], trans.State) {
					todo = append(todo, snum)
				}
				st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
			} else {
				st_trans = append(st_trans, trans)
				s.List = append(s.List, trans.State)
				trans.State.Number = len(s.List) - 1
				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
				todo = append(todo, trans.State.Number)
			}
		}
		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
	}
	return s
}

func find_alt1(s *states.States, nums []int, state *states.State) int {
	for _, snum := range nums {
		if weaklyCompatibleStates(s.List[snum], state) {
			return snum
		}
	}
	return -1
}
