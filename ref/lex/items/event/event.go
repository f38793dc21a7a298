/*
Copyright 2020 Marius Ackerman

Licensed under the Apache License, Version 2.0 (the "License");
you may not use this file except in compliance with the License.
You may obtain a copy of the License at

  http://www.apache.org/licenses/LICENSE-2.0

Unless required by applicable law or agreed to in writing, software
distributed under the License is distributed on an "AS IS" BASIS,
WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
See the License for the specific language governing permissions and
limitations under the License.
*/

/*
Package event implements the events that cause transitions between FSA states.

* Unicode classes: number, letter, upcase, lowcase, space
* Ranges: any, anyof, not
* CharLit
*/
package event

import (
	"fmt"
	"os"
	"sort"
	"unicode"

	"github.com/goccmack/gogll/v3/ast"
	"github.com/goccmack/gogll/v3/lex/item"
	"github.com/goccmack/gogll/v3/util/runeset"
)

// TriState has range: {True, False, Undefined}
type TriState int

const (
	// Undefined is a TriState value
	Undefined TriState = iota
	// False is a TriState value
	False
	// True is a TriState value
	True
)

type eventPair struct {
	a, b ast.LexBase
}

// GetOrdered returns the set of unique transition events for items, ordered
// by the event precedence: The first event that matches a character is the
// event for that character.
func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
	events = split(getEvents(items...))
	incompatibleEvents := []eventPair{}
	for i := 0; i < len(events)-1; i++ {
		for j := i + 1; j < len(events); j++ {
			if Subset(events[i], events[j]) == Undefined &&
				Subset(events[j], events[i]) == Undefined {
				incompatibleEvents = append(incompatibleEvents,
					eventPair{events[i], events[j]})
			}
		}
	}
	if len(incompatibleEvents) > 0 {
		fail(items, incompatibleEvents)
	}
	return sortEvents(events)
}

// Subset returns True if a is a subset of b, False if a is not a subset of b,
// and Undefined if the subset relationship is not defined between a and b.
//
// a must be an event returned by GetOrdered: the characters that are excluded
// by a Not are matched by preceding events.
func Subset(a, b ast.LexBase) TriState {
	switch a1 := a.(type) {
	case *ast.Any:
		_, ok := b.(*ast.Any)
		return toTriState(ok)

	case *ast.AnyOf:
		for _, r := range a1.Set.Elements() {
			if !matches(b, r) {
				return False
			}
		}
		return True

	case *ast.CharLiteral:
		return toTriState(matches(b, a1.Char()))

	case *ast.Not:
		switch b.(type) {
		case *ast.Any, *ast.Not:
			return True
		case *ast.CharLiteral:
			return False
		default:
			return Undefined
		}

	case *ast.UnicodeClass, *ast.UnicodeSet:
		switch b.(type) {
		case *ast.Any, *ast.Not:
			return True
		case *ast.AnyOf:
			return Undefined
		case *ast.CharLiteral:
			return False
		default:
			return toTriState(classSubset(a, b))
		}

	default:
		panic("Invalid")
	}
}

// matches returns true iff r is one of the characters of event
func matches(event ast.LexBase, r rune) bool {
	switch e := event.(type) {
	case *ast.Any:
		return true
	case *ast.AnyOf:
		return e.Set.Contains(r)
	case *ast.CharLiteral:
		return e.Char() == r
	case *ast.Not:
		return !e.Set.Contains(r)
	case *ast.UnicodeClass:
		return unicodeClassContains(e, r)
	case *ast.UnicodeSet:
		return e.ContainsRune(r)
	default:
		panic("Invalid")
	}
}

// classSubsets contains the results of classSubset by the strings of the classes
var classSubsets = map[[2]string]bool{}

// classSubset returns true iff every character of the UnicodeClass or
// UnicodeSet, a, is in b.
func classSubset(a, b ast.LexBase) bool {
	key := [2]string{a.String(), b.String()}
	subset, exist := classSubsets[key]
	if !exist {
		subset = true
		for r := rune(0); r <= unicode.MaxRune && subset; r++ {
			subset = !matches(a, r) || matches(b, r)
		}
		classSubsets[key] = subset
	}
	return subset
}

// overlaps contains the results of overlap by the strings of the classes
var overlaps = map[[2]string][]rune{}

// overlap returns the characters that are in both a and b, which are
// UnicodeClasses or UnicodeSets, if neither is a subset of the other.
func overlap(a, b ast.LexBase) []rune {
	if classSubset(a, b) || classSubset(b, a) {
		return nil
	}
	key := [2]string{a.String(), b.String()}
	common, exist := overlaps[key]
	if !exist {
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if matches(a, r) && matches(b, r) {
				common = append(common, r)
			}
		}
		overlaps[key] = common
	}
	return common
}

func contains(events []ast.LexBase, event ast.LexBase) bool {
	for _, ev := range events {
		if ev.Equal(event) {
			return true
		}
	}
	return false
}

func getEvents(items ...*item.Item) (events []ast.LexBase) {
	for _, item := range items {
		event := item.Symbol()
		if event != nil {
			if !contains(events, event.(ast.LexBase)) {
				events = append(events, event.(ast.LexBase))
			}
		}
	}
	return
}

// split replaces the AnyOf events by disjoint AnyOf events. The characters of
// each are matched by the same events. All the characters mentioned in a Not
// event, which are matched by another event, and all the characters of two
// classes or sets, which overlap in part, are in one of them.
func split(events []ast.LexBase) (disjoint []ast.LexBase) {
	mentioned, literals := runeset.New(), runeset.New()
	for i, event := range events {
		switch e := event.(type) {
		case *ast.AnyOf:
			add(mentioned, e.Set)
		case *ast.Not:
			add(mentioned, e.Set)
		case *ast.CharLiteral:
			literals.Add(e.Char())
		case *ast.UnicodeClass, *ast.UnicodeSet:
			for _, event1 := range events[:i] {
				if isClass(event1) {
					for _, r := range overlap(event1, event) {
						mentioned.Add(r)
					}
				}
			}
		}
	}
	groups, keys := map[string]*runeset.RuneSet{}, []string{}
	for _, r := range mentioned.Elements() {
		key := matching(events, r)
		if literals.Contains(r) || key == "" {
			continue
		}
		if groups[key] == nil {
			groups[key] = runeset.New()
			keys = append(keys, key)
		}
		groups[key].Add(r)
	}
	for _, event := range events {
		if _, ok := event.(*ast.AnyOf); !ok {
			disjoint = append(disjoint, event)
		}
	}
	for _, key := range keys {
		disjoint = append(disjoint, getAnyOf(events, groups[key]))
	}
	return
}

func isClass(event ast.LexBase) bool {
	switch event.(type) {
	case *ast.UnicodeClass, *ast.UnicodeSet:
		return true
	}
	return false
}

func add(rs, rs1 *runeset.RuneSet) {
	for _, r := range rs1.Elements() {
		rs.Add(r)
	}
}

// getAnyOf returns the AnyOf of events with set if there is one, or a new one
func getAnyOf(events []ast.LexBase, set *runeset.RuneSet) *ast.AnyOf {
	for _, event := range events {
		if e, ok := event.(*ast.AnyOf); ok && e.Set.Equal(set) {
			return e
		}
	}
	return ast.NewAnyOf(set)
}

// matching lists the events that match r
func matching(events []ast.LexBase, r rune) (key string) {
	for i, event := range events {
		if matches(event, r) {
			key += fmt.Sprintf("%d,", i)
		}
	}
	return
}

// sort events from most to least specific class
func sortEvents(events []ast.LexBase) (sorted []ast.LexBase) {
	sort.Slice(events, func(i, j int) bool {
		if ri, rj := rank(events[i]), rank(events[j]); ri != rj {
			return ri < rj
		}
		if ci, ok := events[i].(*ast.CharLiteral); ok {
			return ci.Char() < events[j].(*ast.CharLiteral).Char()
		}
		return events[i].String() < events[j].String()
	})
	for len(events) > 0 {
		i := mostSpecific(events)
		sorted = append(sorted, events[i])
		events = append(events[:i], events[i+1:]...)
	}
	return
}

func rank(event ast.LexBase) int {
	switch event.(type) {
	case *ast.CharLiteral:
		return 0
	case *ast.AnyOf:
		return 1
	case *ast.UnicodeClass:
		return 2
	case *ast.UnicodeSet:
		return 3
	case *ast.Not:
		return 4
	}
	return 5
}

// mostSpecific returns the index of the first event without a proper subset in events
func mostSpecific(events []ast.LexBase) int {
	for i, event := range events {
		specific := true
		for _, e := range events {
			if Subset(e, event) == True && Subset(event, e) != True {
				specific = false
			}
		}
		if specific {
			return i
		}
	}
	panic("Invalid")
}

func toTriState(b bool) TriState {
	if b {
		return True
	}
	return False
}

func unicodeClassContains(c *ast.UnicodeClass, r rune) bool {
	switch c.Type {
	case ast.Letter:
		return unicode.IsLetter(r)
	case ast.Upcase:
		return unicode.IsUpper(r)
	case ast.Lowcase:
		return unicode.IsLower(r)
	case ast.Number:
		return unicode.IsNumber(r)
	case ast.Space:
		return unicode.IsSpace(r)
	default:
		panic("Invalid")
	}
}

func fail(items []*item.Item, incomatibleEvents []eventPair) {
	fmt.Println("Error in lexer events")
	fmt.Println("  Set:")
	for _, item := range items {
		fmt.Println("    ", item)
	}
	fmt.Println("  Incompatible events:")
	for _, ee := range incomatibleEvents {
		fmt.Println("    ", ee.a, " ", ee.b)
	}
	os.Exit(1)
}
