#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, note))
def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}, None, None))
    NA.append({"property": id, "reason": reason})
EFF = "effect-summary dataflow analysis over gated SSA, compared with a reviewed reference model"
TPL = EFF + "; code templates instantiated at a schematic grammar and analysed as Go"
NOTE = "Decides, for every input of the listed functions, that results, stores, calls, exits and panics under every path condition are those of the reviewed model in ref/. Trusts the model, the SSA builder and the stated models of library calls. "

prop("C01", "The grammar front end implements the published grammar of the tool",
 "Every input file is tokenised and parsed exactly as the tool's own published grammar prescribes: a file is accepted if and only if it is a sentence of that grammar. All derivations of an accepted file are represented in the forest that the rest of the tool reads.",
 ["inputs"], "all grammar files",
 "The 23 tests run the tool on about a dozen fixed grammars; they exercise a fraction of the 5,000 transitions and 400 parser positions.",
 ["parser/parser.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "lexer/lexer.go", "gogll.md"],
 [("parse loop over grammar positions", "parser/parser.go parse"), ("selection and follow tables", "parser/parser.go first, followSets"), ("position tables", "parser/slot/slot.go"), ("lexer DFA", "lexer/lexer.go nextState, accept")],
 EFF + "; parser tables and lexer automaton derived independently from the published grammar text", NOTE + "Position tables, first and follow sets, entry code and lexer automaton of the front end are also derived from the text of gogll.md alone and compared with the source, the automata by a product construction.")
prop("C02", "The abstract grammar is the grammar the user wrote",
 "For every accepted grammar file the internal grammar holds the same rules, alternates, symbols, brackets, character sets and suppressed-token marks, in the same order and with the same text as the file. Reading the parse forest never drops, merges or duplicates an element, and every element knows its place in the file.",
 ["inputs"], "all accepted grammar files",
 "Tests compile a few small grammars; deep nesting, mixed brackets, character classes and long alternations occur in none of them.",
 ["ast/build.go", "ast/ast.go", "ast/lex.go", "ast/syntax.go", "parser/bsr/bsr.go", "token/token.go"],
 [("tree construction", "ast/build.go"), ("literals and escapes", "ast/lex.go"), ("forest access", "parser/bsr/bsr.go")],
 EFF, NOTE)
prop("C03", "Invalid grammars are rejected before anything is generated",
 "A grammar file that does not parse, is ambiguous, defines a rule twice or refers to an undefined rule or token makes the tool print the reason and end with a non-zero status. In that case no output file has been written.",
 ["inputs"], "all rejected grammar files",
 "No test feeds the tool an invalid grammar and looks at the exit status and the files left behind.",
 ["main.go", "sc/sc.go", "parser/parser.go", "parser/bsr/bsr.go", "ast/build.go"],
 [("pipeline order", "main.go main"), ("reference check", "sc/sc.go"), ("ambiguity check", "parser/bsr/bsr.go"), ("duplicate rules", "ast/build.go")],
 EFF + "; ordering of checks before writes on every path", NOTE)
prop("C04", "Every grammar symbol has one identity in all generated parts",
 "Each terminal and non-terminal gets exactly one number and one name, and the lexer, token, parser and table generators all use the same one. Distinct symbols never share a number, and a suppressed token stays suppressed everywhere.",
 ["inputs"], "all accepted grammars",
 "Tests use grammars with few symbols, whose numbering happens to agree in any order.",
 ["symbols/symbols.go", "gen/golang/gll/symbols/symbols.go", "ast/ast.go"],
 [("numbering", "symbols/symbols.go Init"), ("emitted symbol table", "gen/golang/gll/symbols/symbols.go")],
 TPL + "; key analysis of the maps that name terminals", NOTE + "A further rule needs no model: all maps that number or name terminals must be keyed by one injective function of the symbol; five known collisions are listed in known-findings.txt.")
prop("C05", "First and follow sets are exact",
 "For every grammar, the computed first set of a symbol or string holds exactly the terminals that can begin a sentence derived from it, plus the empty marker if and only if it derives the empty string. The follow set of a non-terminal holds exactly the terminals that can come after it in a sentential form, including the end marker for the start symbol.",
 ["inputs"], "all accepted grammars, in particular nullable, recursive and mutually recursive ones",
 "Tests reach a handful of grammars with shallow nullability.",
 ["frstflw/frstflw.go"], [("fixed points", "frstflw/frstflw.go genFirstSets, genFollow")], EFF, NOTE)
prop("C06", "The set of grammar positions is complete and consistent",
 "For every rule alternate of length n there are exactly n+1 positions, each with its own label, head, alternate number, offset and symbols, in the generator and in the emitted tables. Looking a position up by label or by rule, alternate and offset returns that same position.",
 ["inputs"], "all accepted grammars",
 "Tests use only alternates of a few symbols and never query the tables directly.",
 ["gslot/gslot.go", "gen/golang/gll/slots/slots.go"], [("position enumeration", "gslot/gslot.go genSlots"), ("emitted tables", "gen/golang/gll/slots/slots.go template")], TPL, NOTE)
prop("C07", "Generated parser code follows the grammar alternate by alternate",
 "For every alternate of every rule the generated parser contains one entry that handles its symbols in order: terminals are consumed and recorded, non-terminals are called with the position to return to, the empty alternate is recorded as empty, and the end returns to the caller. The look-ahead tables emitted for each position and rule are the first and follow sets of what remains.",
 ["inputs"], "all accepted grammars",
 "Tests compile about ten grammars; a wrong label or set for other shapes of alternate compiles and passes.",
 ["gen/golang/gll/codex.go", "gen/golang/gll/testselect.go", "gen/golang/gll/parser.go"],
 [("alternate code", "gen/golang/gll/codex.go"), ("look-ahead tables", "gen/golang/gll/testselect.go")], TPL, NOTE)
prop("C08", "The generated parser explores every derivation once and stops",
 "For every grammar and input the generated parser processes each pending combination of grammar position, call context and input position, resumes every caller for every distinct extent of a returned rule, and never processes one combination twice. It accepts if and only if the start symbol spans the complete input, and otherwise returns at least one error.",
 ["inputs", "histories"], "all grammars and all inputs; all orders in which callers and returns are registered",
 "Tests parse short inputs on small grammars, where most call contexts have one caller and return once.",
 ["gen/golang/gll/parser.go"], [("descriptor, call and return handling", "gen/golang/gll/parser.go template: parse, ntAdd, call, rtn, dscAdd")], TPL, NOTE)
prop("C09", "The parse forest answers queries about exactly the derivations found",
 "The parse forest returned by a generated parser contains every recorded derivation step, indexed by rule, extent and pivot, and its queries return the children, extents, alternates and text of exactly those steps. It is reported ambiguous if and only if some symbol or string has more than one derivation over the same extent that is part of a parse.",
 ["inputs", "histories"], "all grammars, inputs and sequences of queries",
 "Two tests query a forest; ambiguity is probed on one or two grammars.",
 ["gen/golang/gll/bsr/bsr.go", "parser/bsr/bsr.go"], [("forest store and queries", "gen/golang/gll/bsr/bsr.go template")], TPL, NOTE)
prop("C10", "The shared packed forest exported to users mirrors the parse forest",
 "Exporting a parse as a shared packed forest yields one symbol node per rule and extent, one packed node per alternate and pivot, and one intermediate node per prefix and extent, connected as in the parse. Drawing it lists every node and edge once.",
 ["inputs"], "all grammars and all ambiguous or unambiguous inputs",
 "No stable test exports a shared packed forest.",
 ["gen/golang/gll/sppf/sppf.go", "gen/golang/gll/bsr/bsr.go", "sppf/sppf.go", "parser/bsr/bsr.go"], [("export", "bsr template ToSPPF, mkIN, mkPN, mkSN"), ("drawing", "sppf template")], TPL, NOTE)
prop("C11", "The lexer automaton recognises exactly the token definitions",
 "For every set of token rules and string literals the constructed automaton accepts a string in a state of a token if and only if the string matches the token's regular expression. Every state is reached by some input, overlapping character classes lead to the union of what each allows, and no rule is lost when states are merged.",
 ["inputs"], "all sets of token rules: nesting of optional, repeated, grouped and alternate expressions, and overlapping character classes",
 "Tests build automata for a dozen token rules and check a few strings each.",
 ["lex/items/items.go", "lex/item/item.go", "lex/item/pos/pos.go", "lex/items/event/event.go", "util/runeset/runeset.go", "ast/lex.go"],
 [("subset construction", "lex/items/items.go"), ("moves inside expressions", "lex/item/item.go"), ("overlap of events", "lex/items/event/event.go")], EFF, NOTE)
prop("C12", "Generated lexers split every input into longest tokens with one end mark",
 "A generated lexer covers the input from left to right with tokens that are longest matches of the automaton, yields an error token for text no rule matches, drops suppressed tokens and white space, and ends with exactly one end-of-input token at the end of the input. In a markdown file only the text inside code fences is read, and positions still refer to the original file.",
 ["inputs"], "all inputs, including empty ones, ones ending inside a token, and markdown with unbalanced fences",
 "Tests lex about ten short strings.",
 ["gen/golang/lexer/lexer.go", "lexer/lexer.go"], [("scanner", "gen/golang/lexer/lexer.go template: New, scan, loadMd")], TPL, NOTE)
prop("C13", "Each automaton transition is emitted as the character test it stands for",
 "For every character literal, character set, exclusion, class and unicode property in a token rule, the generated lexer tests a character for exactly that set, whatever needs escaping. Each automaton state is emitted with the token it accepts, where a string literal takes precedence over every token rule matching the same text, and the choice among several token rules is fixed by their names.",
 ["inputs"], "all characters, escapes, classes and properties a rule can contain, and all sets of simultaneously matching rules",
 "Tests use plain ASCII letters and a few escapes; priority conflicts occur in one of them.",
 ["gen/golang/lexer/lexer.go", "gen/golang/utils/utils.go", "lex/items/items.go"], [("conditions", "gen/golang/lexer/lexer.go getCondition"), ("accepting token", "lex/items/items.go Accept"), ("escaping", "gen/golang/utils/utils.go")], EFF, NOTE)
prop("C14", "Generated tokens report their type, text and suppression as declared",
 "The generated token module declares one type per terminal in the numbering used by the lexer and parser, and converting between a type and its name is lossless. A token's text is exactly the input it spans, its escape-stripped text replaces each escape by the character it denotes, and it is suppressed if and only if its rule says so.",
 ["inputs"], "all grammars and all tokens",
 "Tests read literals without escapes and no token positions beyond the first line.",
 ["gen/golang/token/token.go", "token/token.go", "symbols/symbols.go"], [("token module", "gen/golang/token/token.go template"), ("type list", "gen/golang/token/token.go getTypes")], TPL, NOTE)
prop("C15", "The LR(1) automaton is the one the grammar defines",
 "For every grammar the LR(1) generator builds the closure and transitions of every reachable state with exact look-ahead, starting from the augmented start rule. States are merged only when the merge cannot introduce a conflict, and after merging every transition still leads to the state for its items.",
 ["inputs"], "all grammars accepted by the LR(1) back end",
 "One test calls the first-set code; no stable test builds LR(1) states.",
 ["lr1/states/state.go", "lr1/states/configgroupset.go", "lr1/states/contextset.go", "lr1/items/item.go", "lr1/first/first.go", "lr1/pgm/states.go", "lr1/knuth/states.go", "lr1/basicprod/basicprod.go"],
 [("closure and successor", "lr1/states/state.go"), ("merging", "lr1/pgm/states.go"), ("first sets", "lr1/first/first.go")], EFF, NOTE)
prop("C16", "LR(1) conflicts are always recorded and reported",
 "Whenever two actions compete for the same state and look-ahead the conflict is recorded, counted and written to the conflict report, shift wins over reduce and the earlier rule over the later one. Without the option to resolve conflicts automatically a grammar with conflicts makes the tool say so and stop.",
 ["inputs"], "all grammars with competing actions",
 "No stable test runs the LR(1) back end on a grammar with conflicts.",
 ["lr1/action/action.go", "lr1/action/conflict.go", "lr1/gen.go"], [("conflict resolution", "lr1/action/action.go"), ("report", "lr1/gen.go")], EFF, NOTE)
prop("C17", "Generated LR(1) parsers encode the automaton and run it faithfully",
 "The emitted action, goto and production tables hold exactly the actions, successor states and rule lengths of the automaton, row by row. The generated parser shifts, reduces with the right number of attributes and the right goto, accepts only at the end, and on an error reports the offending token and every token that was expected.",
 ["inputs"], "all grammars accepted by the LR(1) back end and all inputs",
 "No stable test generates or runs an LR(1) parser.",
 ["gen/golang/lr1/parser/actionrow.go", "gen/golang/lr1/parser/gotorow.go", "gen/golang/lr1/parser/productionstable.go", "gen/golang/lr1/parser/parser.go", "gen/golang/lr1/ast/ast.go", "gen/golang/lr1/parser/errors.go"],
 [("tables", "gen/golang/lr1/parser"), ("driver", "gen/golang/lr1/parser/parser.go template"), ("reduction stubs", "gen/golang/lr1/ast/ast.go")], TPL, NOTE)
prop("C20", "Command-line options select exactly the documented behaviour",
 "Each documented option has the documented default and effect: output directory, target language, parser kind, conflict handling and diagnostics. A missing or contradictory argument prints the usage and stops with a non-zero status, and exactly the generators for the chosen language and parser kind run.",
 ["configurations"], "all combinations of options and file names",
 "The tests use two or three fixed command lines.",
 ["cfg/cfg.go", "main.go"], [("options", "cfg/cfg.go"), ("dispatch", "main.go main")], EFF, NOTE)
prop("C21", "The Rust back end is generated from the same facts as the Go back end",
 "For every grammar the Rust generators emit the same symbols, positions, look-ahead sets, automaton states, tests and tables as the grammar defines, with Rust spelling. Choosing the target language never changes the language that is recognised.",
 ["inputs", "configurations"], "all accepted grammars",
 "No stable test generates Rust.",
 ["gen/rust/gll/parser/alternates.go", "gen/rust/gll/parser/testselect.go", "gen/rust/gll/slot/slot.go", "gen/rust/gll/symbols/symbols.go", "gen/rust/lexer/lexer.go", "gen/rust/token/token.go", "gen/rust/lr1/parser/actiontable.go", "gen/rust/lr1/parser/gototable.go"],
 [("data handed to the Rust templates", "gen/rust")], EFF + "; Rust templates instantiated and compared as tokens and canonical LLVM IR", NOTE + "The Rust templates are instantiated at a schematic grammar and compared with the reviewed ones as token sequences, or function by function in the LLVM IR that rustc makes of them. The template of Rust parse errors, which the tool does not use, is left out.")
prop("C23", "Diagnostic listings show what was computed",
 "The optional listings of symbols, first and follow sets, grammar positions, lexer states, LR(1) states and conflicts contain every element the tool computed, and nothing else. Asking for them does not change the generated code.",
 ["inputs", "configurations"], "all accepted grammars with diagnostics on",
 "No stable test reads a listing.",
 ["gen/slots/slots.go", "gen/symbols/symbols.go", "gen/lexfsa/lexfsa.go", "gen/firstfollow/firstfollow.go", "lr1/gen.go"], [("listings", "gen/slots, gen/symbols, gen/lexfsa, gen/firstfollow, lr1/gen.go")], EFF, NOTE)
prop("C24", "Reported positions and expected tokens are right",
 "Line and column numbers of tokens, grammar elements and errors are those of the first character in the original file, counting from one. Parse errors are ordered by how far the input was read and name the token found and every token that would have been accepted there.",
 ["inputs"], "all inputs, including tabs, line breaks and positions at the end",
 "No stable test inspects an error or a position beyond line one.",
 ["gen/golang/lexer/lexer.go", "gen/golang/token/token.go", "gen/golang/gll/parser.go", "lexer/lexer.go", "token/token.go", "parser/parser.go", "ast/build.go"],
 [("line and column", "lexer and token templates GetLineColumn"), ("parse errors", "parser template parseError, sortParseErrors")], TPL, NOTE)
exec(open(os.path.join(here, "tools", "more.py")).read()) if os.path.exists(os.path.join(here, "tools", "more.py")) else None
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [
    {"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": t, "level": "other", "level_note": n.strip()}
    for p, t, n in P if t], "not_applicable": NA}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
