package main

import "verif/checker/load"

func (r *run) rule(name string) {
	f := rules[name]
	if f == nil {
		r.report("rule|"+name, "", "unknown rule %s", name)
		return
	}
	r.ruled = append(r.ruled, name)
	f(r)
}

var rules = map[string]func(r *run){
	"errors":       ruleErrors,
	"order-free":   ruleOrderFree,
	"below":        ruleBelow,
	"checks-first": ruleOrder,
	"one-key":      ruleKeys,
	"own-grammar":  ruleGrammar,
}

// instRules judge generated code.
var instRules = map[string]func(r *run, repo *load.Repo, pkgs []string){
	"no-shared-state": ruleState,
}

var ruleTexts = map[string]string{
	"rust-templates":       "the Rust templates are instantiated at a schematic grammar that reaches every branch; the result equals that of the reference as Rust tokens (comments and white space aside) or, failing that, function by function as optimised LLVM IR of rustc.",
	"rust-no-shared-state": "in the instantiated Rust code no static can change after start-up (static mut, cells, locks, atomics, thread_local), nothing is unsafe, and neither environment, clock nor random numbers are used.",
	"errors":               "the error of every call that creates, writes, renders, formats or reads something is followed along every path of its function, and where it is returned through the callers: before it is lost it has to be tested, and the failing branch has to print and end with a failure.",
	"order-free":           "every loop over a map, over the elements of a set, or over a list collected from one and not sorted since by a total comparison, may only have effects that are the same in every order; no call reads the time, the process or a random source.",
	"below":                "the path handed to every file operation is traced to its parts, through calls, fields and variables: the output directory joined with constant names.",
	"checks-first":         "on every path from the start of the tool to a call that creates, changes or removes a file, the parse, the ambiguity check, the reading of the abstract grammar and the reference check come first.",
	"own-grammar":          "the tables of the tool's own front end (terminals, rules, positions, alternates, first and follow sets, token names, suppressed tokens), the entries of its parser and its lexer's automaton are derived a second time from the text of gogll.md; the tables and entries in the source equal the derived ones, and the two automata are equivalent (product construction over the classes of characters that some test tells apart).",
	"one-key":              "the texts under which symbols of different kinds (rules, tokens, string literals, reserved marks) are looked up are compared: no text may stand for two kinds.",
	"no-shared-state":      "in the instantiated code, no function stores to a package-level variable or to memory reachable from one (or captured at start-up), changes what a caller handed to an exported function, uses the environment, clock or random numbers of the process, or starts a goroutine.",
}
