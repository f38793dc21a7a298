// Package props says which obligations decide which property.
package props

// Cmp is a set of functions of one package whose effects are compared with
// the reviewed reference. Only and Except are regular expressions on the
// canonical function name.
type Cmp struct {
	Pkg, Only, Except string
}

// Inst is a set of functions of code instantiated from templates.
type Inst struct {
	Kind      string // GLL or LR1
	Templates []string
	Pkgs      []Cmp
	Rules     []string // for generated code
	RulePkgs  []string
}

// Prop is one property.
type Prop struct {
	ID    string
	Cmp   []Cmp
	Inst  []Inst
	Rules []string
	Rust  bool // compare what the Rust templates produce

	RustState bool // the Rust code keeps no state between parses
}

const (
	tToken   = "gen/golang/token#Token"
	tLexer   = "gen/golang/lexer#lexer"
	tSymbols = "gen/golang/gll/symbols#symbols"
	tSlots   = "gen/golang/gll/slots#Slot"
	tSPPF    = "gen/golang/gll/sppf#sppf"
	tBSR     = "gen/golang/gll/bsr#bsr"
	tMain    = "gen/golang/gll#Parser Main Template"
	tAlt     = "gen/golang/gll#Alternate"
	tTS      = "gen/golang/gll#Test Select"
	lp       = "gen/golang/lr1/parser#"
)

const sppfFns = `ToSPPF|bldSPPF`

var (
	allGLL  = []string{tToken, tLexer, tSymbols, tSlots, tSPPF, tBSR, tMain, tAlt, tTS}
	pkgsGLL = []string{"g/token", "g/lexer", "g/parser", "g/parser/bsr", "g/parser/slot", "g/parser/symbols", "g/sppf"}
	allLR1  = []string{lp + "parser productions table", lp + "parser action table", lp + "parser action row", lp + "parser", lp + "parser goto table", lp + "parser goto table row", lp + "parser errors", lp + "action", "gen/golang/lr1/ast#AST"}
	pkgsLR1 = []string{"k/parser", "k/errors", "k/ast"}
)

// All lists the properties.
var All = []Prop{
	{ID: "C01", // the grammar front end
		Cmp: []Cmp{
			{Pkg: "parser"}, {Pkg: "parser/slot"}, {Pkg: "parser/symbols"}, {Pkg: "lexer"}, {Pkg: "token"},
			{Pkg: "parser/bsr", Except: sppfFns}, {Pkg: "", Except: `package variables`},
		}, Rules: []string{"own-grammar"}},
	{ID: "C02", // AST
		Cmp: []Cmp{{Pkg: "ast"}, {Pkg: "parser/bsr", Except: sppfFns}, {Pkg: "token"}, {Pkg: "util/runeset"}, {Pkg: "lexer", Only: `GetLineColumn|GetString`}}},
	{ID: "C03", // rejected grammars
		Cmp: []Cmp{{Pkg: "", Except: `package variables`}, {Pkg: "sc"},
			{Pkg: "parser"}, {Pkg: "parser/bsr", Except: sppfFns},
			{Pkg: "ast", Only: `fail|add|lexRule|syntaxRule|StringLit|^ast\.Build|getPosition|GetStringLiterals|Rule|\.ID$|Symbol|TokID|NT|Alternate`},
			{Pkg: "lexer", Only: `New|scan|GetLineColumn|addToken`},
			{Pkg: "lex/items", Only: `Accept|acceptItems`}, {Pkg: "gen/golang/gll", Only: `FollowConditions`}},
		Rules: []string{"checks-first"}},
	{ID: "C04", // symbol identity
		Cmp: []Cmp{{Pkg: "symbols"}, {Pkg: "gen/golang/gll/symbols"},
			{Pkg: "ast", Only: `GetStringLiterals|GetSymbols|nonTerminals|terminals|Terminals|getLexRuleIDs|StringLit|\.ID$|addLexRule|Suppress`},
			{Pkg: "gen/golang/token"}, {Pkg: "gen/golang/lexer", Only: `getAccept|getTransitions|getLexerData|Gen$|^gen/golang/lexer\.get`}, {Pkg: "gen/golang/gll/slots"},
			{Pkg: "lex/items", Only: `Accept|acceptItems`}, {Pkg: "gen/golang/lr1/parser", Only: `Row|Table|get|Tok|prod`},
			{Pkg: "gen/rust/token"}, {Pkg: "gen/rust/gll/symbols"}, {Pkg: "gen/golang/gll", Only: `testSelect|FollowConditions|getConditions|TestSelect`}},
		Rules: []string{"one-key"},
		Inst:  []Inst{{Kind: "GLL", Templates: []string{tSymbols, tToken, tSlots}, Pkgs: []Cmp{{Pkg: "g/parser/symbols"}, {Pkg: "g/token"}, {Pkg: "g/parser/slot"}}}}},
	{ID: "C05", Cmp: []Cmp{{Pkg: "frstflw"}, {Pkg: "ast", Only: `GetSymbols|StartSymbol|Empty|GetSyntaxRule|erminals|^ast\.package variables`}}},
	{ID: "C06",
		Cmp:  []Cmp{{Pkg: "gslot"}, {Pkg: "gen/golang/gll/slots"}, {Pkg: "gen/rust/gll/slot"}, {Pkg: "ast", Only: `GetSymbols|\.ID$|Empty`}, {Pkg: "symbols", Only: `GetSymbols|GoString|GetNonTerminals|ToType`}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tSlots}, Pkgs: []Cmp{{Pkg: "g/parser/slot"}}}}},
	{ID: "C07",
		Cmp: []Cmp{{Pkg: "gen/golang/gll"}, {Pkg: "gslot"}, {Pkg: "frstflw"}, {Pkg: "symbols", Only: `ToType|TypeString|GetSymbols|FromASTString|GetNonTerminals|String$|Literal$`}, {Pkg: "ast", Only: `GetSymbols|Empty|StartSymbol`}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tAlt, tTS}, Pkgs: []Cmp{{Pkg: "g/parser"}}},
			{Kind: "GLL", Templates: []string{tMain}, Pkgs: []Cmp{{Pkg: "g/parser", Only: `follow|testSelect`}}}}},
	{ID: "C08",
		Cmp: []Cmp{{Pkg: "gen/golang/gll"}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tMain, tBSR, tSlots, tAlt, tTS}, Pkgs: []Cmp{{Pkg: "g/parser", Except: `Dump`},
			{Pkg: "g/parser/bsr", Only: `Set\)\.(Contain|Add|AddEmpty|insert)|bsr\.New`}, {Pkg: "g/parser/slot"}}}}},
	{ID: "C09",
		Cmp:  []Cmp{{Pkg: "gen/golang/gll/bsr"}, {Pkg: "parser/bsr", Except: sppfFns}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tBSR, tSlots, tLexer, tToken}, Pkgs: []Cmp{{Pkg: "g/parser/bsr", Except: sppfFns}, {Pkg: "g/parser/slot"}, {Pkg: "g/lexer", Only: `GetString`}, {Pkg: "g/token", Only: `Literal|ext$`}}}}},
	{ID: "C10",
		Cmp:  []Cmp{{Pkg: "gen/golang/gll/sppf"}, {Pkg: "sppf"}, {Pkg: "parser/bsr", Only: sppfFns}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tBSR, tSPPF}, Pkgs: []Cmp{{Pkg: "g/sppf"}, {Pkg: "g/parser/bsr", Only: sppfFns + `|BSR\)\.(Alternate|Get|Left|Right|Pivot)|getNTBSRs|getStringBSRs|getString|GetAll`}}}}},
	{ID: "C11",
		Cmp: []Cmp{{Pkg: "lex/item"}, {Pkg: "lex/item/pos"}, {Pkg: "lex/items"}, {Pkg: "lex/items/event"}, {Pkg: "util/runeset"},
			{Pkg: "ast", Only: `Equal|LexBracket|CharLit|StringLit|Any|Not|UnicodeClass|RegExp|regexp|Lex`}}},
	{ID: "C12",
		Inst: []Inst{{Kind: "GLL", Templates: []string{tLexer, tToken}, Pkgs: []Cmp{{Pkg: "g/lexer", Except: `GetLineColumn`}, {Pkg: "g/token", Only: `New|Suppress|ext$|xtent`}}}},
		Cmp:  []Cmp{{Pkg: "lexer", Except: `GetLineColumn`}, {Pkg: "gen/golang/lexer"}, {Pkg: "gen/golang/token", Only: `get|Gen`}}},
	{ID: "C13",
		Cmp: []Cmp{{Pkg: "gen/golang/lexer"}, {Pkg: "gen/golang/utils"}, {Pkg: "lex/items", Only: `Accept|acceptItems|Less|Swap|Len`},
			{Pkg: "lex/items/event"}, {Pkg: "util/runeset"}, {Pkg: "symbols", Only: `ToType|TypeString`},
			{Pkg: "ast", Only: `CharLit|Any|AnyOf|Not|UnicodeClass|UnicodeSet|\.Literal|CharLiteral`}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tLexer}, Pkgs: []Cmp{{Pkg: "g/lexer"}}}}},
	{ID: "C14",
		Cmp:  []Cmp{{Pkg: "gen/golang/token"}, {Pkg: "token"}, {Pkg: "symbols"}, {Pkg: "ast", Only: `lexRule|Suppress`}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tToken}, Pkgs: []Cmp{{Pkg: "g/token"}}}}},
	{ID: "C15",
		Cmp: []Cmp{{Pkg: "lr1/basicprod"}, {Pkg: "lr1/first"}, {Pkg: "lr1/items"}, {Pkg: "lr1/knuth"}, {Pkg: "lr1/pgm"}, {Pkg: "lr1/states"}, {Pkg: "lr1/symbolsuccessors"}, {Pkg: "ast", Only: `GetSymbols|StartSymbol|Empty`}, {Pkg: "symbols", Only: `NonTerminal|TerminalSymbols|^symbols\.Init`}, {Pkg: "lr1", Only: `Gen$|tates`}}},
	{ID: "C16",
		Cmp: []Cmp{{Pkg: "lr1/action"}, {Pkg: "lr1"}, {Pkg: "cfg"}, {Pkg: "lr1/items"}, {Pkg: "lr1/states"}}},
	{ID: "C17",
		Cmp: []Cmp{{Pkg: "gen/golang/lr1"}, {Pkg: "gen/golang/lr1/ast"}, {Pkg: "gen/golang/lr1/parser"}, {Pkg: "lr1/action"}, {Pkg: "lr1/basicprod"}, {Pkg: "lr1/states", Only: `ransition|Next|Action`}, {Pkg: "symbols"}},
		Inst: []Inst{{Kind: "LR1", Templates: allLR1,
			Pkgs: []Cmp{{Pkg: "k/parser"}, {Pkg: "k/errors"}, {Pkg: "k/ast"}}}}},
	{ID: "C20", Cmp: []Cmp{{Pkg: "cfg"}, {Pkg: ""}, {Pkg: "lr1", Only: `handleConflicts|Gen$`},
		{Pkg: "gen/golang/gll", Only: `\.Gen$`}, {Pkg: "gen/rust/gll", Only: `\.Gen$`}, {Pkg: "gen/golang/lr1", Only: `\.Gen$`}, {Pkg: "gen/rust/lr1", Only: `\.Gen$`},
		{Pkg: "gen/golang/lr1/ast", Only: `\.Gen$`}, {Pkg: "gen/rust/lr1/ast", Only: `\.Gen$`},
		{Pkg: "gen/golang/lexer", Only: `\.Gen$`}, {Pkg: "gen/golang/token", Only: `\.Gen$`}, {Pkg: "gen/rust/lexer", Only: `\.Gen$`}, {Pkg: "gen/rust/token", Only: `\.Gen$`},
		{Pkg: "gen/slots", Only: `\.Gen$`}, {Pkg: "gen/symbols", Only: `\.Gen$`}, {Pkg: "gen/lexfsa", Only: `\.Gen$`}, {Pkg: "gen/firstfollow", Only: `\.Gen$`}}},
	{ID: "C21", Rust: true,
		Cmp: []Cmp{{Pkg: "gen/rust/gll"}, {Pkg: "gen/rust/gll/parser"}, {Pkg: "gen/rust/gll/slot"}, {Pkg: "gen/rust/gll/symbols"}, {Pkg: "gen/rust/gll/bsr"}, {Pkg: "gen/rust/lexer"}, {Pkg: "gen/rust/token"},
			{Pkg: "gen/rust/lr1"}, {Pkg: "gen/rust/lr1/ast"}, {Pkg: "gen/rust/lr1/parser"}}},
	{ID: "C23",
		Cmp: []Cmp{{Pkg: "gen/slots"}, {Pkg: "gen/symbols"}, {Pkg: "gen/lexfsa"}, {Pkg: "gen/firstfollow"}, {Pkg: "lr1", Only: `writeConflicts|statesString|Gen$|onflict|tates|removeOldFiles`},
			{Pkg: "", Except: `package variables`}, {Pkg: "gslot", Only: `String$`}, {Pkg: "lex/items", Only: `String$`}, {Pkg: "lex/item", Only: `String$`},
			{Pkg: "lr1/states", Only: `String$`}, {Pkg: "lr1/action", Only: `String$`}, {Pkg: "lr1/items", Only: `String$`},
			{Pkg: "lex/item/pos", Only: `String$`}, {Pkg: "util/runeset", Only: `String$`}, {Pkg: "ast", Only: `GetSymbols|String$`}, {Pkg: "frstflw", Only: `FirstOfSymbol|Follow$`}}},
	{ID: "C24", // positions
		Cmp: []Cmp{{Pkg: "lexer", Only: `GetLineColumn|GetString|New|loadMd|scan`}, {Pkg: "token", Only: `GetLineColumn|ext$|New`}, {Pkg: "sc"}, {Pkg: "parser", Only: `parseError|sortParseErrors|Error\)|ParseErrors|ntAdd|parser\)\.parse$|endErrors`}, {Pkg: "ast", Only: `Lext|getPosition|fail|LineColumn`},
			{Pkg: "parser/bsr", Only: `LineColumn`}, {Pkg: "gen/golang/gll", Only: `getFirst|FollowData|FollowConditions|TSData`}},
		Inst: []Inst{{Kind: "GLL", Templates: []string{tLexer, tToken, tMain, tBSR, tAlt, tTS}, Pkgs: []Cmp{{Pkg: "g/lexer", Only: `GetLineColumn|GetString|New|loadMd|scan`}, {Pkg: "g/token", Only: `GetLineColumn|ext$|New`},
			{Pkg: "g/parser", Only: `parseError|sortParseErrors|Error\)|ParseErrors|ntAdd|parser\)\.parse$|endErrors`}, {Pkg: "g/parser/bsr", Only: `LineColumn`}}}}},
	{ID: "C18", Rules: []string{"errors"}},
	{ID: "C19", Rules: []string{"order-free"}},
	{ID: "C22", RustState: true, Inst: []Inst{
		{Kind: "GLL", Templates: allGLL, Rules: []string{"no-shared-state"}, RulePkgs: pkgsGLL},
		{Kind: "LR1", Templates: allLR1, Rules: []string{"no-shared-state"}, RulePkgs: pkgsLR1}}},
	{ID: "C25", Rules: []string{"below"}},
}

// Get finds a property.
func Get(id string) *Prop {
	for i := range All {
		if All[i].ID == id {
			return &All[i]
		}
	}
	return nil
}
