package frstflw

import "github.com/goccmack/goutil/stringset"

// initFollowSets_alt1: the start symbol is one of the nonterminals.
func (ff *FF) initFollowSets_alt1() {
	ff.followSets = make(map[string]*stringset.StringSet)
	for _, nt := range ff.g.NonTerminals.Elements() {
		ff.followSets[nt] = stringset.New()
	}
	ff.followSets[ff.g.StartSymbol()].Add("$")
}

// initFollowSets_alt2 replaces the set of the start symbol.
func (ff *FF) initFollowSets_alt2() {
	ff.followSets = make(map[string]*stringset.StringSet)
	for _, nt := range ff.g.NonTerminals.Elements() {
		ff.followSets[nt] = stringset.New()
	}
	ff.followSets[ff.g.StartSymbol()] = stringset.New("$")
}
