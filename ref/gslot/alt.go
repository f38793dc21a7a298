package gslot

import "github.com/goccmack/gogll/v3/symbols"

// genSlotsOfAlternate_alt1: the empty alternate needs no special case, one
// position exists in it.
func (gs *GSlot) genSlotsOfAlternate_alt1(nt string, altI int, symbls ...symbols.Symbol) {
	for pos := 0; pos <= len(symbls); pos++ {
		gs.genSlot(nt, altI, pos, symbls...)
	}
}
