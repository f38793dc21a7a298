RULE = "call-graph and control-flow analysis over SSA of the type-checked program"
prop("C18", "A failed step is reported and never taken for success",
 "When reading the grammar or rendering or writing any output file fails, the tool prints the reason and ends with a non-zero status instead of carrying on with a missing or incomplete file. Generated code that cannot be formatted is at least reported.",
 ["inputs", "fault_sequences"], "every call that can fail to create, write, render, format or read something, on every path to and from it",
 "No test makes a write, a render or a read fail; a dropped error leaves a stale or missing file and a status of success.",
 ["main.go", "cfg/cfg.go", "gen/golang/golang.go", "gen/golang/gll/parser.go", "gen/golang/lexer/lexer.go", "gen/golang/token/token.go", "gen/golang/sppf/sppf.go", "gen/golang/gll/bsr/bsr.go", "gen/golang/lr1/parser/parser.go", "gen/rust/lexer/lexer.go", "gen/rust/gll/parser/parser.go", "gen/firstfollow/firstfollow.go", "gen/symbols/symbols.go"],
 [("file writes", "Gen functions below gen/"), ("error exits", "failError, failTemplateError, fail helpers"), ("reading the grammar", "lexer.NewFile, main.go")],
 "typestate of error values along all control-flow paths (" + RULE + ")",
 "Every error result of a library call that creates, writes, renders, formats or reads is tracked along every path until it is tested; on the failing branch the path must print and end non-zero, panic, or hand the error to callers that are judged the same way. Buffered writers must be flushed, recover() must end in failure, and the exit status must be non-zero modulo 256. Trusts the list of packages whose errors count. ")
prop("C19", "Generation is reproducible",
 "Two runs of the tool on the same grammar with the same options write byte-identical files. No output depends on the time, the machine, the process, or the order in which a map or a set hands out its elements.",
 ["inputs", "schedules"], "all grammars and options; every iteration order of every map and set",
 "Each test runs the generator once per grammar and never compares two runs; small sets often come out in one order anyway.",
 ["gslot/gslot.go", "symbols/symbols.go", "frstflw/frstflw.go", "lex/items/items.go", "lex/items/event/event.go", "util/runeset/runeset.go", "lr1/states/contextset.go", "lr1/states/configgroupset.go", "gen/golang/gll/testselect.go", "gen/rust/gll/parser/testselect.go", "gen/firstfollow/firstfollow.go", "gen/symbols/symbols.go", "ast/ast.go"],
 [("sorted positions", "gslot/gslot.go Slots"), ("sorted symbols", "symbols/symbols.go Init"), ("sorted events", "lex/items/event/event.go sortEvents"), ("sorted sets", "util/runeset Elements, lr1/states ContextSet.Add")],
 "order-dependence (taint) analysis of loops and lists over maps and sets (" + RULE + ")",
 "Every loop over a map, a set's elements, or a list collected from one and not yet sorted by a total comparison may only have effects that commute. Time, random numbers, machine, process, environment, addresses and goroutines must not reach the output. Output order of the tool's own parse (its forest is a set) is left to C08 and C09. Trusts that stringset.ElementsSorted sorts. ")
prop("C22", "Parses do not influence each other",
 "A lexer or parser created by generated code behaves the same whatever was lexed or parsed before or at the same time in the same process. All state of a parse lives in the values it creates; the tables that all parses share are never written after start-up.",
 ["histories", "schedules"], "all sequences and interleavings of uses of the generated packages",
 "Tests parse one input after another in one goroutine and rarely twice with one parser.",
 ["gen/golang/gll/parser.go", "gen/golang/gll/bsr/bsr.go", "gen/golang/gll/slots/slots.go", "gen/golang/gll/symbols/symbols.go", "gen/golang/sppf/sppf.go", "gen/golang/lexer/lexer.go", "gen/golang/token/token.go", "gen/golang/lr1/parser/parser.go"],
 [("parser state", "gen/golang/gll/parser.go template: newParser"), ("shared tables", "slot, symbols, token and parser tables of the templates")],
 "effect and escape analysis of package-level state in the instantiated code templates (" + RULE + ")",
 "Generated code is instantiated at a schematic grammar; no function reachable by users may store to a package-level variable or to memory reachable from one, start a goroutine, or hand out shared memory that is then changed. In the Rust templates a lint forbids mutable or interior-mutable statics, thread locals, unsafe code, environment and clock. ")
prop("C25", "The tool touches only its own files in the output directory",
 "Every file the tool creates, changes or removes lies in the output directory the user chose (the grammar's directory by default), or is the profile the user asked for, under a name fixed by the tool. No text from the grammar becomes part of a path.",
 ["inputs", "configurations"], "all grammars, file names and option combinations",
 "Tests use well-behaved grammars in one place and do not look at what else was written.",
 ["main.go", "cfg/cfg.go", "gen/golang/golang.go", "gen/golang/gll/parser.go", "gen/rust/rust.go", "gen/firstfollow/firstfollow.go", "lex/items/items.go"],
 [("output directory", "cfg/cfg.go BaseDir"), ("paths", "path.Join and filepath.Join below gen/")],
 "data-flow analysis of every path handed to a file operation (" + RULE + ")",
 "Every path argument of every file operation reachable from the command is traced to its parts: the base directory followed by constants without dot-dot. Trusts path.Join; symbolic links are out of scope. ")
na("C26", "A generated parser accepts exactly the language of its grammar",
 "For every context-free grammar and every input, a generated parser accepts the input if and only if the grammar derives it, and its forest holds all derivations.",
 ["inputs", "programs"], "all grammars and inputs",
 "No finite set of grammars and inputs decides it.",
 ["gen/golang/gll/parser.go", "gen/golang/gll/codex.go", "frstflw/frstflw.go", "gslot/gslot.go"],
 [("the composition of C05 to C13", "generator and templates")],
 "Equivalence of the language of the emitted program with that of the grammar is an inductive argument over runs of the emitted parser; static analysis decides the obligations it rests on (C05 to C13: sets, positions, code shape, scheduling, forest, lexer), not the induction that combines them.")
na("C27", "Parsing takes at most cubic time and memory",
 "A generated parser needs time and memory at most cubic in the length of the input, and linear for LL(1) grammars.",
 ["inputs"], "all grammars and inputs",
 "Tests parse short inputs.",
 ["gen/golang/gll/parser.go", "gen/golang/gll/bsr/bsr.go"],
 [("descriptor and call sets", "parser template"), ("forest indexes", "bsr template")],
 "A bound on run time quantifies over the sizes of runtime sets and the costs of map operations, which no static argument in reach can bound; that no descriptor is processed twice is part of C08.")
na("C28", "Generated code always compiles",
 "For every accepted grammar the generated packages compile without errors.",
 ["inputs", "programs"], "all accepted grammars",
 "Tests compile the output for about a dozen grammars.",
 ["gen/golang", "gen/rust", "gen/golang/gll/utils"],
 [("identifiers made from grammar text", "gslot Label, symbols"), ("code templates", "gen/")],
 "Identifiers in the output are formed from the user's names at run time, and whether two of them coincide depends on the grammar's text (it can: see DESIGN.md). The code templates are type-checked at a schematic grammar as a by-product of C06 to C17, which shows compilation for names that do not collide only.")
na("C29", "The generator ends on every grammar",
 "The tool ends after finitely many steps on every input file.",
 ["inputs"], "all input files",
 "Tests use a dozen small grammars.",
 ["frstflw/frstflw.go", "lex/items/items.go", "lr1/states/states.go", "gen/golang/gll/parser.go"],
 [("fixed points", "frstflw, lex/items, lr1/states, lr1/items")],
 "Every loop of interest is a fixed point over runtime sets; its end needs a ranking argument over the finite universe of items, which the analyses here do not make. That each loop computes the intended fixed point, stopping condition included, is part of C05, C11 and C15.")
