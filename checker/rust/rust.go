// Package rust instantiates the Rust code templates at a schematic grammar and
// compares the result with that of the reference: as Rust tokens, and where
// these differ as the compiler's intermediate representation.
package rust

import (
	"fmt"
	"go/constant"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
	"verif/checker/tmpl"
)

type m = map[string]interface{}
type l = []interface{}

// Unit is one generated file.
type Unit struct {
	Pkg, Name, File string
	data            interface{}
}

func k(s string) string { return "gen/rust/" + s }

// Crate is a set of generated files that form one crate.
type Crate struct {
	Name, Lib string
	Units     []Unit
}

// Crates lists what the generators write.
func Crates() []Crate {
	lib := "#[macro_use] pub extern crate lazy_static;\n"
	tok := Unit{k("token"), "Rust token", "token/mod.rs", tokenData()}
	lex := Unit{k("lexer"), "Rust lexer", "lexer/mod.rs", lexerData()}
	return []Crate{
		{"gll", lib + "pub mod lexer; pub mod parser; pub mod token;\n", []Unit{tok, lex,
			{k("gll/parser"), "Rust parser", "parser/mod.rs", parserData()},
			{k("gll/slot"), "Rust Slot", "parser/slot/mod.rs", slotData()},
			{k("gll/symbols"), "Rust symbols", "parser/symbols/mod.rs", symbolsData()},
			{k("gll/bsr"), "", "parser/bsr/mod.rs", nil},
		}},
		{"lr1", lib + "pub mod ast; pub mod lexer; pub mod parser; pub mod token;\n", []Unit{tok, lex,
			{k("lr1/ast"), "AST", "ast/mod.rs", astData()},
			{k("lr1/parser"), "parser", "parser/mod.rs", m{"NumProductions": 5, "NumStates": 3, "NumTerminals": 6, "Package": "pkg"}},
			{k("lr1/parser"), "parser productions table", "parser/productions_table/mod.rs", prodData()},
			{k("lr1/parser"), "parser action table", "parser/action_table/mod.rs", actionData()},
			{k("lr1/parser"), "parser goto table", "parser/goto_table/mod.rs", gotoData()},
		}},
	}
}

// the schematic grammar: Start : t0 Start A2 | empty ; A2 : t1 | A2 t0 t1 ;
var terms = []string{"a a", "b{}", "c\\\"", "dd"}

type alt struct {
	nt   string
	no   int
	syms []string // "T0" or an NT
}

var alts = []alt{
	{"A2", 0, []string{"T1"}},
	{"A2", 1, []string{"A2", "T0", "T2"}},
	{"Start", 0, []string{"T0", "Start", "A2"}},
	{"Start", 1, nil},
}

func label(nt string, a, pos int) string { return fmt.Sprintf("%s%dR%d", nt, a, pos) }

func tokenData() interface{} {
	names := []string{"Error", "EOF", "T_0", "T_1", "T_2", "T_3"}
	lits := append([]string{"Error", "$"}, terms...)
	var types, strs l
	for i, n := range names {
		types = append(types, m{"Name": n, "Comment": lits[i], "Suppress": i == 5})
		strs = append(strs, n)
	}
	return m{"Types": types, "TypeToString": strs}
}

func lexerData() interface{} {
	c := func(cond string, next int) m { return m{"Condition": cond, "NextState": next} }
	return m{"Tick": "`",
		"Accept": l{"Error", "T_0", "T_1", "T_2"},
		"Transitions": l{
			l{c("c == 'a'", 1), c("c.is_alphabetic()", 2), c(`c == '\''`, 3)},
			l{c(`not(c, &['\n', 'x'])`, 1)},
			l{c("any(c, &['y', 'z'])", 3), c("c.is_numeric()", 2)},
			l{},
		}}
}

func symLit(s string) string {
	if s[0] == 'T' {
		return "T(T::" + s + ")"
	}
	return "NT(NT::" + s + ")"
}

func slotData() interface{} {
	var slots l
	var as l
	nts := map[string]l{}
	for _, a := range alts {
		var syms l
		for _, s := range a.syms {
			syms = append(syms, symLit(s))
		}
		for p := 0; p <= len(a.syms); p++ {
			slots = append(slots, m{"Label": label(a.nt, a.no, p), "NT": a.nt, "Alt": a.no, "Pos": p, "Symbols": syms, "Comment": "comment"})
		}
		nts[a.nt] = append(nts[a.nt], label(a.nt, a.no, 0))
	}
	for _, nt := range []string{"A2", "Start"} {
		as = append(as, m{"NT": nt, "Labels": nts[nt]})
	}
	return m{"Slots": slots, "Alts": as}
}

func parserData() interface{} {
	var as, ts, fs l
	for _, a := range alts {
		d := m{"NT": a.nt, "AltLabel": label(a.nt, a.no, 0), "Comment": "comment", "Empty": len(a.syms) == 0}
		var slots l
		for i, s := range a.syms {
			slots = append(slots, m{"AltLabel": label(a.nt, a.no, 0), "PreLabel": label(a.nt, a.no, i), "PostLabel": label(a.nt, a.no, i+1),
				"Comment": "comment", "Head": a.nt, "IsNT": s[0] != 'T'})
		}
		d["Slots"] = slots
		if len(slots) > 0 {
			d["LastSlot"] = slots[len(slots)-1]
		}
		as = append(as, d)
		for p := 0; p <= len(a.syms); p++ {
			ts = append(ts, m{"Comment": "comment", "Label": label(a.nt, a.no, p), "Symbols": l{
				m{"TokenType": fmt.Sprintf("T_%d", p%3), "Comment": "comment"}, m{"TokenType": "EOF", "Comment": "comment"}}})
		}
	}
	fs = l{m{"Comment": "A2", "Label": "A2", "Symbols": l{m{"TokenType": "T_0", "Comment": "x"}, m{"TokenType": "T_1", "Comment": "x"}}},
		m{"Comment": "Start", "Label": "Start", "Symbols": l{m{"TokenType": "EOF", "Comment": "x"}}}}
	return m{"StartSymbol": "Start", "Alternates": as, "TestSelect": ts, "Follow": fs, "Package": "pkg"}
}

func symbolsData() interface{} {
	var esc, ts l
	for _, t := range terms {
		ts = append(ts, t)
		esc = append(esc, strings.NewReplacer("{", "{{", "}", "}}").Replace(t))
	}
	return m{"NonTerminals": l{"A2", "Start"}, "Terminals": ts, "EscapedTerminals": esc}
}

func astData() interface{} {
	var ps l
	for i, a := range alts {
		ps = append(ps, m{"Comment": "comment", "ID": fmt.Sprintf("f_%d", i), "Params": l{}, "ReturnType": a.nt})
	}
	return m{"Package": "pkg", "Types": l{"A2", "Start"}, "BasicProds": ps}
}

func prodData() interface{} {
	var ps l
	for i, a := range alts {
		ps = append(ps, m{"String": fmt.Sprintf("\"P%d \\\" ;\"", i), "Id": a.nt, "NTType": i % 2, "NumSymbols": len(a.syms),
			"ReduceFuncID": fmt.Sprintf("f_%d", i), "ReduceFunc": "x", "ReduceFuncParams": "x"})
	}
	return m{"Package": "pkg", "NumProductions": len(alts), "ProdTab": ps}
}

func actionData() interface{} {
	a := func(t, act string) m { return m{"Token": t, "Action": act} }
	return m{"Package": "pkg", "NumRows": 3, "Rows": l{
		m{"CanRecover": false, "NumActions": 2, "Actions": l{a("T_0", "Shift(2),\t\t// c\n\t\t"), a("T_1", "Reduce(1),\t\t// c\n\t\t")}},
		m{"CanRecover": true, "NumActions": 1, "Actions": l{a("EOF", "Accept,\t\t// c\n\t\t")}},
		m{"CanRecover": false, "NumActions": 0, "Actions": l{}},
	}}
}

func gotoData() interface{} {
	e := func(nt, s string) m { return m{"NT": nt, "State": s} }
	return m{"NumStates": 2, "NumNTSymbols": 2, "States": l{
		m{"Entries": l{e("A2", "Some(1)"), e("Start", "None")}},
		m{"Entries": l{e("A2", "None"), e("Start", "Some(2)")}},
	}}
}

// constSource is the constant Rust source a package writes verbatim.
func constSource(r *load.Repo, pkg string) (string, error) {
	sp := r.SSA[load.ModPath+"/"+pkg]
	if sp == nil {
		return "", fmt.Errorf("package %s does not exist", pkg)
	}
	found := map[string]bool{}
	for _, mem := range sp.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						if s := constant.StringVal(c.Value); strings.Contains(s, "pub struct ") {
							found[s] = true
						}
					}
				}
			}
		}
	}
	if len(found) != 1 {
		return "", fmt.Errorf("%d constant sources written by %s", len(found), pkg)
	}
	for s := range found {
		return s, nil
	}
	return "", nil
}

// Source renders one unit from the templates of r.
func (u Unit) Source(r, ref *load.Repo) (string, error) {
	if u.Name == "" {
		return constSource(r, u.Pkg)
	}
	text, err := tmpl.Get(r, ref, u.Pkg, u.Name)
	if err != nil {
		return "", err
	}
	return tmpl.Render(text, u.data)
}

// Tokens splits Rust source into tokens; comments and white space are no tokens.
func Tokens(src string) (out []string) {
	rs := []rune(src)
	ident := func(c rune) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c > 127
	}
	at := func(i int) rune {
		if i < len(rs) {
			return rs[i]
		}
		return 0
	}
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && at(i+1) == '/':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case c == '/' && at(i+1) == '*':
			depth := 1
			for i += 2; i < len(rs) && depth > 0; {
				switch {
				case rs[i] == '/' && at(i+1) == '*':
					depth++
					i += 2
				case rs[i] == '*' && at(i+1) == '/':
					depth--
					i += 2
				default:
					i++
				}
			}
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				j = len(rs) - 1
			}
			out = append(out, string(rs[i:j+1]))
			i = j + 1
		case c == '\'':
			j := i + 1
			switch {
			case at(j) == '\\':
				for j += 2; j < len(rs) && rs[j] != '\''; j++ {
				}
				j++
			case at(j+1) == '\'':
				j += 2
			default: // a lifetime
				for j < len(rs) && ident(rs[j]) {
					j++
				}
			}
			if j > len(rs) {
				j = len(rs)
			}
			out = append(out, string(rs[i:j]))
			i = j
		case ident(c):
			j := i
			for j < len(rs) && ident(rs[j]) {
				j++
			}
			out = append(out, string(rs[i:j]))
			i = j
		default: // joined punctuation matters
			s := string(c)
			if i > 0 && len(out) > 0 && !ident(rs[i-1]) && rs[i-1] != ' ' && rs[i-1] != '\n' && rs[i-1] != '\t' && strings.ContainsRune("=<>&|-+!:.", c) && strings.ContainsRune("=<>&|-+!:.", rs[i-1]) {
				s = "~" + s
			}
			out = append(out, s)
			i++
		}
	}
	return
}

// Diff describes where two token lists part; empty when they are equal.
func Diff(a, b []string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i == len(a) && i == len(b) {
		return ""
	}
	w := func(x []string) string {
		lo, hi := i-6, i+8
		if lo < 0 {
			lo = 0
		}
		if hi > len(x) {
			hi = len(x)
		}
		if lo > hi {
			return ""
		}
		return strings.ReplaceAll(strings.Join(x[lo:hi], " "), "~", "")
	}
	return fmt.Sprintf("`%s`, reference `%s`", w(a), w(b))
}

const shim = `#[macro_export]
macro_rules! lazy_static {
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $(#[$a])* $v static $n: std::sync::LazyLock<$t> = std::sync::LazyLock::new(|| $e);
        $crate::lazy_static! { $($rest)* }
    };
    () => {};
}
`

// Compile translates a crate to LLVM IR and returns its functions and
// constants, with the names of the compiler's own making normalised.
// The functions of a crate are inlined into one another or kept apart.
func Compile(c Crate, src map[string]string, inline bool) (map[string]string, error) {
	dir, err := os.MkdirTemp("", "verif-rust")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	write := func(f, s string) {
		f = filepath.Join(dir, f)
		os.MkdirAll(filepath.Dir(f), 0o755)
		if e := os.WriteFile(f, []byte(s), 0o644); e != nil && err == nil {
			err = e
		}
	}
	write("lazy.rs", shim)
	write("lib.rs", c.Lib)
	for f, s := range src {
		write(f, s)
	}
	if err != nil {
		return nil, err
	}
	run := func(args ...string) error {
		cmd := exec.Command("rustc", args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "RUSTC_BOOTSTRAP=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			msg := string(out)
			if i := strings.Index(msg, "error"); i > 0 {
				msg = msg[i:]
			}
			if len(msg) > 600 {
				msg = msg[:600]
			}
			return fmt.Errorf("rustc: %v: %s", err, msg)
		}
		return nil
	}
	if err := run("--edition", "2021", "--crate-type", "rlib", "--crate-name", "lazy_static", "lazy.rs", "-o", "liblazy_static.rlib"); err != nil {
		return nil, err
	}
	mode := []string{"-C", "opt-level=3", "-C", "llvm-args=-inline-threshold=5000"}
	if !inline {
		mode = []string{"-C", "opt-level=1", "-Zinline-mir=no", "-C", "no-prepopulate-passes", "-C", "passes=always-inline,function(sroa,early-cse,instsimplify,simplifycfg,adce)"}
	}
	if err := run(append(mode, "--edition", "2018", "--crate-type", "rlib", "--crate-name", "g", "-C", "codegen-units=1", "-C", "panic=abort",
		"-Zlocation-detail=none", "-Zfewer-names=yes", "--cap-lints", "allow",
		"--extern", "lazy_static=liblazy_static.rlib", "--emit=llvm-ir", "lib.rs", "-o", "lib.ll")...); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(filepath.Join(dir, "lib.ll"))
	if err != nil {
		return nil, err
	}
	return split(string(b)), nil
}

var (
	hashRE   = regexp.MustCompile(`17h[0-9a-f]{16}E`)
	numRE    = regexp.MustCompile(`[#!]\d+`)
	tailRE   = regexp.MustCompile(`, ![a-z.]+ !\d+`)
	symRE    = regexp.MustCompile(`@("[^"]*"|[-\w$.]+)`)
	defineRE = regexp.MustCompile(`(?m)^define ([^@\n]*)@("[^"]*"|[-\w$.]+)\(`)
)

// split returns the externally visible definitions of a module, each with the
// bodies of the internal ones it reaches, by name.
func split(ll string) map[string]string {
	ll = hashRE.ReplaceAllString(ll, "E")
	type def struct {
		text string
		ext  bool
	}
	defs := map[string]*def{}
	lines := strings.Split(ll, "\n")
	for i := 0; i < len(lines); i++ {
		ln := lines[i]
		if mm := defineRE.FindStringSubmatch(ln); mm != nil {
			var body []string
			for ; i < len(lines); i++ {
				body = append(body, tailRE.ReplaceAllString(lines[i], ""))
				if lines[i] == "}" {
					break
				}
			}
			name := mm[2]
			t := strings.Join(body, "\n")
			defs[name] = &def{canon(numRE.ReplaceAllString(t, "")), !strings.Contains(mm[1], "internal") && !strings.Contains(mm[1], "private")}
		} else if strings.HasPrefix(ln, "@") {
			if mm := symRE.FindStringSubmatch(ln); mm != nil {
				defs[mm[1]] = &def{numRE.ReplaceAllString(tailRE.ReplaceAllString(ln, ""), ""), !strings.Contains(ln, "internal ") && !strings.Contains(ln, "private ")}
			}
		}
	}
	out := map[string]string{}
	for n, d := range defs {
		if !d.ext {
			continue
		}
		// internal names in the order of their first use
		ren := map[string]string{}
		var queue []string
		sub := func(text string) string {
			return symRE.ReplaceAllStringFunc(text, func(s string) string {
				x := s[1:]
				y, ok := defs[x]
				if !ok || y.ext {
					return s
				}
				if ren[x] == "" {
					ren[x] = fmt.Sprintf("@int%d", len(ren))
					queue = append(queue, x)
				}
				return ren[x]
			})
		}
		var all []string
		all = append(all, sub(d.text))
		for len(queue) > 0 {
			x := queue[0]
			queue = queue[1:]
			all = append(all, sub(defs[x].text))
		}
		out[n] = strings.Join(all, "\n")
	}
	return out
}

var fnRE = regexp.MustCompile(`((?:pub )?fn )(\w+)`)

// Inline marks the functions of a that b does not have for inlining.
func Inline(a, b map[string]string) map[string]string {
	has := map[string]bool{}
	for _, s := range b {
		for _, mm := range fnRE.FindAllStringSubmatch(s, -1) {
			has[mm[2]] = true
		}
	}
	out := map[string]string{}
	for f, s := range a {
		out[f] = fnRE.ReplaceAllStringFunc(s, func(x string) string {
			if has[fnRE.FindStringSubmatch(x)[2]] {
				return x
			}
			return "#[inline(always)] " + x
		})
	}
	return out
}

// Differ lists the visible definitions that are not the same in a and b.
func Differ(a, b map[string]string) (out []string) {
	for n, t := range a {
		if b[n] != t {
			out = append(out, n)
		}
	}
	for n := range b {
		if _, ok := a[n]; !ok {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}

// Shared lists what in Rust code outlives a parse and can change.
func Shared(ts []string) (out []string) {
	at := func(i int) string {
		if i >= 0 && i < len(ts) {
			return ts[i]
		}
		return ""
	}
	cell := func(t string) bool {
		switch t {
		case "Mutex", "RwLock", "RefCell", "Cell", "UnsafeCell", "OnceCell", "OnceLock", "SyncUnsafeCell", "DashMap":
			return true
		}
		return strings.HasPrefix(t, "Atomic")
	}
	for i, t := range ts {
		switch {
		case t == "static" && at(i+1) == "mut":
			out = append(out, "the mutable static "+at(i+2))
		case t == "static":
			name := at(i + 1)
			if name == "ref" {
				name = at(i + 2)
			}
			depth := 0
		typ:
			for j := i + 1; j < len(ts); j++ {
				switch ts[j] {
				case "(", "[", "{":
					depth++
				case ")", "]", "}":
					depth--
				}
				if depth < 0 || depth == 0 && (ts[j] == ";" || ts[j] == "=") {
					break typ
				}
				if cell(ts[j]) {
					out = append(out, "the static "+name+" with a "+ts[j])
					break typ
				}
			}
		case t == "unsafe":
			out = append(out, "unsafe code")
		case t == "thread_local":
			out = append(out, "a variable of the thread")
		case (t == "env" || t == "time") && at(i-1) == "~:" && at(i-3) == "std", t == "SystemTime", t == "Instant", t == "thread_rng", t == "RandomState":
			out = append(out, "a use of "+t)
		}
	}
	return out
}
