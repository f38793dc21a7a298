package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// The rule "own-grammar": the tool's own front end is derived a second time
// from the text of the published grammar: positions, alternates, first and
// follow sets, the entries of the parser, the token names, and an automaton
// for the token rules. Every table and every entry in the source has to agree
// with what is derived, and the two automata have to be equivalent.
//
// A table that is not written as a literal in the tree is read from the
// reference; that the tree's table has the same content is decided by the
// comparison of effects.
func ruleGrammar(r *run) {
	text, err := os.ReadFile(filepath.Join(r.cur.Dir, "gogll.md"))
	if err != nil {
		r.report("own-grammar|gogll.md", "gogll.md", "the published grammar cannot be read: %v", err)
		return
	}
	g, err := readGrammar(string(text))
	if err != nil {
		r.report("own-grammar|gogll.md", "gogll.md", "the published grammar cannot be read: %v", err)
		return
	}
	g.r = r
	g.sets()
	g.symbolTables()
	g.slotTables()
	g.setTables()
	g.entries()
	g.automaton()
}

type bnfSym struct {
	name string
	kind byte // n, t or s
}

type bnf struct {
	r      *run
	nts    []string // in the order of the file
	alts   map[string][][]bnfSym
	toks   []string // token rules in the order of the file
	lex    map[string]*lexNode
	supp   map[string]bool
	terms  []string // sorted
	lits   map[string]bool
	sorted []string // sorted names of rules
	first  map[string]map[string]bool
	null   map[string]bool
	follow map[string]map[string]bool
}

// lexNode is a token expression: a set of characters, a sequence, alternates,
// or a repetition.
type lexNode struct {
	op   string // set, seq, alt, opt, star, plus
	kids []*lexNode
	set  func(rune) bool
	mark []rune
}

// ---- reading the grammar ----

type lexeme struct {
	kind byte // i identifier, s string, c character, p punctuation
	text string
}

func readGrammar(text string) (*bnf, error) {
	var code strings.Builder
	for i, part := range strings.Split(text, "```") {
		if i%2 == 1 {
			code.WriteString(part)
			code.WriteString("\n")
		}
	}
	var ls []lexeme
	rs := []rune(code.String())
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("string not closed")
			}
			ls = append(ls, lexeme{'s', string(rs[i+1 : j])})
			i = j + 1
		case c == '\'':
			j := i + 2
			if i+1 < len(rs) && rs[i+1] == '\\' {
				j++
			}
			if j >= len(rs) || rs[j] != '\'' {
				return nil, fmt.Errorf("character not closed")
			}
			ls = append(ls, lexeme{'c', string(rs[i+1 : j])})
			i = j + 1
		case unicode.IsLetter(c):
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsNumber(rs[j]) || rs[j] == '_') {
				j++
			}
			ls = append(ls, lexeme{'i', string(rs[i:j])})
			i = j
		default:
			ls = append(ls, lexeme{'p', string(c)})
			i++
		}
	}
	g := &bnf{alts: map[string][][]bnfSym{}, lex: map[string]*lexNode{}, supp: map[string]bool{}, lits: map[string]bool{}}
	at := 0
	peek := func() lexeme {
		if at < len(ls) {
			return ls[at]
		}
		return lexeme{}
	}
	next := func() lexeme { l := peek(); at++; return l }
	want := func(s string) error {
		if l := next(); l.kind != 'p' || l.text != s {
			return fmt.Errorf("%q where %q is expected", l.text, s)
		}
		return nil
	}
	if l := next(); l.text != "package" {
		return nil, fmt.Errorf("no package")
	}
	next()
	for at < len(ls) {
		l := next()
		supp := false
		if l.kind == 'p' && l.text == "!" {
			supp = true
			l = next()
		}
		if l.kind != 'i' {
			return nil, fmt.Errorf("%q where a rule is expected", l.text)
		}
		if err := want(":"); err != nil {
			return nil, err
		}
		if !unicode.IsUpper([]rune(l.text)[0]) {
			n, err := readLex(peek, next, ";")
			if err != nil {
				return nil, fmt.Errorf("%s: %v", l.text, err)
			}
			if g.lex[l.text] != nil {
				return nil, fmt.Errorf("%s is defined twice", l.text)
			}
			g.toks = append(g.toks, l.text)
			g.lex[l.text] = n
			g.supp[l.text] = supp
			next()
			continue
		}
		if _, ok := g.alts[l.text]; ok {
			return nil, fmt.Errorf("%s is defined twice", l.text)
		}
		g.nts = append(g.nts, l.text)
		alt := []bnfSym{}
		var alts [][]bnfSym
	rule:
		for {
			s := next()
			switch {
			case s.kind == 'p' && (s.text == "|" || s.text == ";"):
				alts = append(alts, alt)
				alt = []bnfSym{}
				if s.text == ";" {
					break rule
				}
			case s.kind == 's':
				alt = append(alt, bnfSym{s.text, 's'})
				g.lits[s.text] = true
			case s.kind == 'i' && s.text == "empty":
			case s.kind == 'i' && unicode.IsUpper([]rune(s.text)[0]):
				alt = append(alt, bnfSym{s.text, 'n'})
			case s.kind == 'i':
				alt = append(alt, bnfSym{s.text, 't'})
			default:
				return nil, fmt.Errorf("%s: %q is not a symbol", l.text, s.text)
			}
		}
		g.alts[l.text] = alts
	}
	for _, as := range g.alts {
		for _, a := range as {
			for _, s := range a {
				if s.kind == 'n' && g.alts[s.name] == nil || s.kind == 't' && g.lex[s.name] == nil {
					return nil, fmt.Errorf("%s is not defined", s.name)
				}
			}
		}
	}
	if len(g.nts) == 0 {
		return nil, fmt.Errorf("no rules")
	}
	all := map[string]bool{}
	for s := range g.lits {
		all[s] = true
	}
	for s := range g.lex {
		all[s] = true
	}
	for s := range all {
		g.terms = append(g.terms, s)
	}
	sort.Strings(g.terms)
	g.sorted = append(g.sorted, g.nts...)
	sort.Strings(g.sorted)
	return g, nil
}

func unescape(s string) []rune {
	var out []rune
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' || i+1 == len(rs) {
			out = append(out, rs[i])
			continue
		}
		i++
		switch rs[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		default:
			out = append(out, rs[i])
		}
	}
	return out
}

func oneOf(rs []rune) func(rune) bool {
	return func(r rune) bool {
		for _, q := range rs {
			if q == r {
				return true
			}
		}
		return false
	}
}

func readLex(peek, next func() lexeme, end string) (*lexNode, error) {
	alt := &lexNode{op: "alt"}
	seq := &lexNode{op: "seq"}
	for {
		l := peek()
		if l.kind == 0 {
			return nil, fmt.Errorf("expression not closed")
		}
		if l.kind == 'p' && l.text == end {
			alt.kids = append(alt.kids, seq)
			return alt, nil
		}
		next()
		set := func(f func(rune) bool, mark ...rune) {
			seq.kids = append(seq.kids, &lexNode{op: "set", set: f, mark: mark})
		}
		switch {
		case l.kind == 'p' && l.text == "|":
			alt.kids = append(alt.kids, seq)
			seq = &lexNode{op: "seq"}
		case l.kind == 'c':
			rs := unescape(l.text)
			set(oneOf(rs), rs...)
		case l.kind == 'p' && l.text == ".":
			set(func(rune) bool { return true })
		case l.kind == 'i' && (l.text == "any" || l.text == "not"):
			s := next()
			if s.kind != 's' {
				return nil, fmt.Errorf("no string after %s", l.text)
			}
			rs := unescape(s.text)
			f := oneOf(rs)
			if l.text == "not" {
				set(func(r rune) bool { return !f(r) }, rs...)
			} else {
				set(f, rs...)
			}
		case l.kind == 'i' && l.text == "letter":
			set(unicode.IsLetter)
		case l.kind == 'i' && l.text == "upcase":
			set(unicode.IsUpper)
		case l.kind == 'i' && l.text == "lowcase":
			set(unicode.IsLower)
		case l.kind == 'i' && l.text == "number":
			set(unicode.IsNumber)
		case l.kind == 'p' && strings.Contains("([{<", l.text):
			i := strings.Index("([{<", l.text)
			n, err := readLex(peek, next, string(")]}>"[i]))
			if err != nil {
				return nil, err
			}
			next()
			seq.kids = append(seq.kids, &lexNode{op: []string{"seq", "opt", "star", "plus"}[i], kids: []*lexNode{n}})
		default:
			return nil, fmt.Errorf("%q in a token expression", l.text)
		}
	}
}

// ---- first and follow ----

func (g *bnf) sets() {
	g.first, g.null, g.follow = map[string]map[string]bool{}, map[string]bool{}, map[string]map[string]bool{}
	for _, n := range g.nts {
		g.first[n], g.follow[n] = map[string]bool{}, map[string]bool{}
	}
	g.follow[g.nts[0]]["$"] = true
	for again := true; again; {
		again = false
		add := func(to, from map[string]bool) {
			for s := range from {
				if !to[s] {
					to[s] = true
					again = true
				}
			}
		}
		for _, n := range g.nts {
			for _, a := range g.alts[n] {
				f, e := g.firstOf(a)
				add(g.first[n], f)
				if e && !g.null[n] {
					g.null[n] = true
					again = true
				}
				for i, s := range a {
					if s.kind != 'n' {
						continue
					}
					f, e := g.firstOf(a[i+1:])
					add(g.follow[s.name], f)
					if e {
						add(g.follow[s.name], g.follow[n])
					}
				}
			}
		}
	}
}

func (g *bnf) firstOf(a []bnfSym) (map[string]bool, bool) {
	out := map[string]bool{}
	for _, s := range a {
		if s.kind != 'n' {
			out[s.name] = true
			return out, false
		}
		for t := range g.first[s.name] {
			out[t] = true
		}
		if !g.null[s.name] {
			return out, false
		}
	}
	return out, true
}

// ---- the tables in the source ----

// values looks for a package variable that is a literal.
func (g *bnf) value(pkg, name string) (ast.Expr, string) {
	for _, root := range []string{g.r.cur.Dir, filepath.Join(g.r.verif, "ref")} {
		fs := token.NewFileSet()
		files, _ := filepath.Glob(filepath.Join(root, pkg, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			af, err := parser.ParseFile(fs, f, nil, 0)
			if err != nil {
				continue
			}
			for _, d := range af.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if n.Name == name && i < len(vs.Values) && literalOnly(vs.Values[i]) {
							return vs.Values[i], g.place(root, fs, vs.Values[i])
						}
					}
				}
			}
		}
	}
	return nil, ""
}

func (g *bnf) place(root string, fs *token.FileSet, n ast.Node) string {
	p := fs.Position(n.Pos())
	rel, _ := filepath.Rel(root, p.Filename)
	return fmt.Sprintf("%s:%d", rel, p.Line)
}

// literalOnly: made of literals, names and functions only.
func literalOnly(e ast.Expr) bool {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return false
	}
	good := true
	ast.Inspect(cl, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr, *ast.IndexExpr, *ast.SliceExpr:
			_ = n
			good = false
		}
		return good
	})
	return good && len(cl.Elts) > 0
}

// norm is the text of an expression without packages, types and names of
// fields.
func norm(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return e.Sel.Name
	case *ast.BasicLit:
		if e.Kind == token.STRING || e.Kind == token.CHAR {
			v := constant.MakeFromLiteral(e.Value, e.Kind, 0)
			if v.Kind() == constant.String {
				return strconv.Quote(constant.StringVal(v))
			}
			return v.ExactString()
		}
		return e.Value
	case *ast.KeyValueExpr:
		return norm(e.Key) + ":" + norm(e.Value)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return norm(e.X)
		}
		return e.Op.String() + norm(e.X)
	case *ast.ParenExpr:
		return norm(e.X)
	case *ast.CompositeLit:
		var ss []string
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok {
					switch id.Name {
					case "NT", "Alt", "Pos", "Symbols", "Label":
						x = kv.Value
					}
				}
			}
			ss = append(ss, norm(x))
		}
		return "{" + strings.Join(ss, ",") + "}"
	}
	return "?"
}

func (g *bnf) elems(pkg, name string) ([]string, string) {
	e, pos := g.value(pkg, name)
	if e == nil {
		g.r.report("own-grammar|"+pkg+"."+name, pkg, "there is no table %s.%s", pkg, name)
		return nil, ""
	}
	var out []string
	for _, x := range e.(*ast.CompositeLit).Elts {
		out = append(out, norm(x))
	}
	return out, pos
}

// same compares a table with what was derived for it. Maps have no order.
func (g *bnf) same(pkg, name string, want []string, isMap bool) {
	got, pos := g.elems(pkg, name)
	if got == nil {
		return
	}
	g.r.obl += len(want)
	key := "own-grammar|" + pkg + "." + name
	if isMap {
		got, want = append([]string{}, got...), append([]string{}, want...)
		sort.Strings(got)
		sort.Strings(want)
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			g.r.report(key, pos, "the entry %s, which follows from the published grammar, is missing", want[i])
		case i >= len(want):
			g.r.report(key, pos, "the entry %s does not follow from the published grammar", got[i])
		case got[i] != want[i]:
			g.r.report(key, pos, "the entry %s does not agree with the published grammar, from which %s follows", got[i], want[i])
		default:
			continue
		}
		return
	}
}

func (g *bnf) t(s string) string {
	return "T_" + strconv.Itoa(sort.SearchStrings(g.terms, s))
}

func (g *bnf) symbolTables() {
	var ids, types, ts, nts, strNT, supp, s2t, id2t []string
	for i, s := range []string{"Error", "$"} {
		ids = append(ids, strconv.Quote(s))
		types = append(types, strconv.Quote([]string{"Error", "EOF"}[i]))
		supp = append(supp, "false")
		s2t = append(s2t, strconv.Quote([]string{"Error", "EOF"}[i])+":"+[]string{"Error", "EOF"}[i])
		id2t = append(id2t, fmt.Sprintf("%q:%d", s, i))
	}
	for i, s := range g.terms {
		q := strconv.Quote(g.shown(s))
		ts = append(ts, q)
		ids = append(ids, q)
		types = append(types, strconv.Quote(g.t(s)))
		supp = append(supp, strconv.FormatBool(g.supp[s]))
		s2t = append(s2t, strconv.Quote(g.t(s))+":"+g.t(s))
		id2t = append(id2t, fmt.Sprintf("%s:%d", q, i+2))
	}
	for _, n := range g.sorted {
		nts = append(nts, strconv.Quote(n))
		strNT = append(strNT, strconv.Quote(n)+":NT_"+n)
	}
	g.same("parser/symbols", "ntToString", nts, false)
	g.same("parser/symbols", "tToString", ts, false)
	g.same("parser/symbols", "stringNT", strNT, true)
	g.same("token", "TypeToID", ids, false)
	g.same("token", "TypeToString", types, false)
	g.same("token", "StringToType", s2t, true)
	g.same("token", "IDToType", id2t, true)
	g.same("token", "Suppress", supp, false)
	var consts []string
	for _, n := range g.sorted {
		consts = append(consts, "NT_"+n)
	}
	g.consts("parser/symbols", "NT", consts)
	consts = nil
	for _, s := range g.terms {
		consts = append(consts, g.t(s))
	}
	g.consts("parser/symbols", "T", consts)
	g.consts("token", "Type", append([]string{"Error", "EOF"}, consts...))
	consts = nil
	g.positions(func(n string, a, p int) { consts = append(consts, label(n, a, p)) })
	g.consts("parser/slot", "Label", consts)
}

// shown is the text of a terminal as the tables show it.
func (g *bnf) shown(s string) string {
	if g.lits[s] {
		return string(unescape(s))
	}
	return s
}

// consts: the constants of a type are numbered in the derived order.
func (g *bnf) consts(pkg, typ string, want []string) {
	p := g.r.cur.SSA[load.ModPath+"/"+pkg]
	key := "own-grammar|" + pkg + "." + typ
	if p == nil {
		g.r.report(key, pkg, "there is no package %s", pkg)
		return
	}
	got := map[int64]string{}
	num := map[string]int64{}
	scope := p.Pkg.Scope()
	for _, n := range scope.Names() {
		c := p.Const(n)
		if c == nil || !strings.HasSuffix(c.Type().String(), "/"+pkg+"."+typ) {
			continue
		}
		v, _ := constant.Int64Val(c.Value.Value)
		num[n] = v
		got[v] = n
	}
	for i, w := range want {
		g.r.obl++
		if v, ok := num[w]; !ok || v != int64(i) {
			g.r.report(key, pkg, "the published grammar gives %s.%s the number %d", pkg, w, i)
			return
		}
	}
}

func label(n string, a, p int) string { return fmt.Sprintf("%s%dR%d", n, a, p) }

func (g *bnf) positions(f func(n string, a, p int)) {
	for _, n := range g.sorted {
		for a, alt := range g.alts[n] {
			for p := 0; p <= len(alt); p++ {
				f(n, a, p)
			}
		}
	}
}

func (g *bnf) slotTables() {
	var slots, index, alts []string
	g.positions(func(n string, a, p int) {
		var ss []string
		for _, s := range g.alts[n][a] {
			if s.kind == 'n' {
				ss = append(ss, "NT_"+s.name)
			} else {
				ss = append(ss, g.t(s.name))
			}
		}
		l := label(n, a, p)
		slots = append(slots, fmt.Sprintf("%s:{NT_%s,%d,%d,{%s},%s}", l, n, a, p, strings.Join(ss, ","), l))
		index = append(index, fmt.Sprintf("{NT_%s,%d,%d}:%s", n, a, p, l))
	})
	for _, n := range g.sorted {
		var ls []string
		for a := range g.alts[n] {
			ls = append(ls, label(n, a, 0))
		}
		alts = append(alts, fmt.Sprintf("NT_%s:{%s}", n, strings.Join(ls, ",")))
	}
	g.same("parser/slot", "slots", slots, true)
	g.same("parser/slot", "slotIndex", index, true)
	g.same("parser/slot", "alternates", alts, true)
}

func (g *bnf) set(m map[string]bool) string {
	var es []string
	for s := range m {
		if s == "$" {
			es = append(es, `EOF:"$"`)
			continue
		}
		es = append(es, g.t(s)+":"+strconv.Quote(g.shown(s)))
	}
	sort.Strings(es)
	return "{" + strings.Join(es, ",") + "}"
}

func (g *bnf) setTables() {
	var first, follow []string
	g.positions(func(n string, a, p int) {
		f, e := g.firstOf(g.alts[n][a][p:])
		if e {
			for t := range g.follow[n] {
				f[t] = true
			}
		}
		first = append(first, g.set(f))
	})
	for _, n := range g.sorted {
		follow = append(follow, g.set(g.follow[n]))
	}
	for name, want := range map[string][]string{"first": first, "followSets": follow} {
		e, pos := g.value("parser", name)
		key := "own-grammar|parser." + name
		if e == nil {
			g.r.report(key, "parser", "there is no table parser.%s", name)
			continue
		}
		var got []string
		for _, x := range e.(*ast.CompositeLit).Elts {
			cl, ok := x.(*ast.CompositeLit)
			if !ok {
				got = append(got, "?")
				continue
			}
			var es []string
			for _, y := range cl.Elts {
				es = append(es, norm(y))
			}
			sort.Strings(es)
			got = append(got, "{"+strings.Join(es, ",")+"}")
		}
		g.r.obl += len(want)
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				have := "nothing"
				if i < len(got) {
					have = got[i]
				}
				what := fmt.Sprintf("position %d", i)
				if name == "followSets" {
					what = g.sorted[i]
				}
				g.r.report(key, pos, "the set of %s is %s, the published grammar gives %s", what, have, want[i])
				break
			}
		}
		if len(got) > len(want) {
			g.r.report(key, pos, "there are %d sets, the published grammar gives %d", len(got), len(want))
		}
	}
}

// ---- the entries of the parser ----

func (g *bnf) entries() {
	want := map[string]string{}
	g.positions(func(n string, a, p int) {
		alt := g.alts[n][a]
		if p > 0 && alt[p-1].kind != 'n' {
			return
		}
		l := func(p int) string { return "slot." + label(n, a, p) }
		var b strings.Builder
		i := p
		if len(alt) == 0 {
			fmt.Fprintf(&b, "p.bsrSet.AddEmpty(%s, p.cI)\n", l(0))
		}
		for ; i < len(alt); i++ {
			if i > 0 {
				fmt.Fprintf(&b, "if !p.testSelect(%[1]s) {\np.parseError(%[1]s, p.cI, first[%[1]s])\nbreak\n}\n", l(i))
			}
			if alt[i].kind == 'n' {
				fmt.Fprintf(&b, "p.call(%s, cU, p.cI)\n", l(i+1))
				want[label(n, a, p)] = b.String()
				return
			}
			fmt.Fprintf(&b, "p.bsrSet.Add(%s, cU, p.cI, p.cI+1)\np.cI++\n", l(i+1))
		}
		fmt.Fprintf(&b, "if p.follow(symbols.NT_%[1]s) {\np.rtn(symbols.NT_%[1]s, cU, p.cI)\n} else {\np.parseError(%[2]s, p.cI, followSets[symbols.NT_%[1]s])\n}\n", n, l(0))
		want[label(n, a, p)] = b.String()
	})
	var diff, where string
	for _, root := range []string{g.r.cur.Dir, filepath.Join(g.r.verif, "ref")} {
		diff = ""
		got, pos := g.readEntries(root)
		where = pos
		var names []string
		for l := range want {
			names = append(names, l)
		}
		sort.Strings(names)
		for _, l := range names {
			if got[l] != want[l] {
				diff = fmt.Sprintf("the entry %s is %q, from the published grammar follows %q", l, got[l], want[l])
				break
			}
		}
		for l := range got {
			if _, ok := want[l]; !ok {
				diff = fmt.Sprintf("the entry %s does not follow from the published grammar", l)
			}
		}
		if diff == "" {
			break
		}
	}
	g.r.obl += len(want)
	if diff != "" {
		g.r.report("own-grammar|parser.parse", where, "%s", diff)
	}
}

func (g *bnf) readEntries(root string) (map[string]string, string) {
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(root, "parser", "*.go"))
	out := map[string]string{}
	pos := "parser"
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			cc, ok := n.(*ast.CaseClause)
			if !ok {
				return true
			}
			for _, e := range cc.List {
				se, ok := e.(*ast.SelectorExpr)
				if !ok {
					continue
				}
				if id, ok := se.X.(*ast.Ident); !ok || id.Name != "slot" {
					continue
				}
				var b bytes.Buffer
				for _, s := range cc.Body {
					var one bytes.Buffer
					printer.Fprint(&one, token.NewFileSet(), s)
					for _, line := range strings.Split(one.String(), "\n") {
						if line = strings.TrimSpace(line); line != "" {
							b.WriteString(line + "\n")
						}
					}
				}
				if pos == "parser" {
					pos = g.place(root, fs, cc)
				}
				out[se.Sel.Name] = b.String()
			}
			return true
		})
	}
	return out, pos
}

// ---- the automaton of the lexer ----

// nfa is the expressions of all terminals, one start.
type nfa struct {
	eps  [][]int
	sets [][]nfaEdge
	end  map[int]string // token accepted
}

type nfaEdge struct {
	set func(rune) bool
	to  int
}

func (a *nfa) state() int {
	a.eps = append(a.eps, nil)
	a.sets = append(a.sets, nil)
	return len(a.eps) - 1
}

func (a *nfa) add(n *lexNode, from int) int {
	switch n.op {
	case "set":
		to := a.state()
		a.sets[from] = append(a.sets[from], nfaEdge{n.set, to})
		return to
	case "seq":
		for _, k := range n.kids {
			from = a.add(k, from)
		}
		return from
	case "alt":
		to := a.state()
		for _, k := range n.kids {
			s := a.state()
			a.eps[from] = append(a.eps[from], s)
			e := a.add(k, s)
			a.eps[e] = append(a.eps[e], to)
		}
		return to
	}
	// a repetition: in, body, out
	in, out := a.state(), a.state()
	a.eps[from] = append(a.eps[from], in)
	e := a.add(n.kids[0], in)
	a.eps[e] = append(a.eps[e], out)
	if n.op != "plus" {
		a.eps[from] = append(a.eps[from], out)
	}
	if n.op != "opt" {
		a.eps[e] = append(a.eps[e], in)
	}
	return out
}

func (a *nfa) close(set map[int]bool) {
	var todo []int
	for s := range set {
		todo = append(todo, s)
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, t := range a.eps[s] {
			if !set[t] {
				set[t] = true
				todo = append(todo, t)
			}
		}
	}
}

func setKey(set map[int]bool) string {
	var is []int
	for i := range set {
		is = append(is, i)
	}
	sort.Ints(is)
	return fmt.Sprint(is)
}

func (g *bnf) accepted(a *nfa, set map[int]bool) string {
	best := ""
	for s := range set {
		if t := a.end[s]; t != "" {
			if best == "" || g.lits[t] && !g.lits[best] || g.lits[t] == g.lits[best] && t > best {
				best = t
			}
		}
	}
	if best == "" {
		return "Error"
	}
	return g.t(best)
}

func (g *bnf) automaton() {
	a := &nfa{end: map[int]string{}}
	start := a.state()
	marks := map[rune]bool{}
	var walk func(n *lexNode)
	walk = func(n *lexNode) {
		for _, r := range n.mark {
			marks[r] = true
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, t := range g.terms {
		n := g.lex[t]
		if g.lits[t] {
			n = &lexNode{op: "seq"}
			for _, r := range unescape(t) {
				n.kids = append(n.kids, &lexNode{op: "set", set: oneOf([]rune{r}), mark: []rune{r}})
			}
		}
		walk(n)
		s := a.state()
		a.eps[start] = append(a.eps[start], s)
		a.end[a.add(n, s)] = t
	}
	rows, accept, pos, bad := g.lexTables(marks)
	if bad != "" {
		g.r.report("own-grammar|lexer.nextState", pos, "%s", bad)
		return
	}
	// one character stands for all that no test in either automaton tells apart
	var reps []rune
	for r := range marks {
		reps = append(reps, r)
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	seen := map[string]bool{}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if marks[r] {
			continue
		}
		k := fmt.Sprint(unicode.IsLetter(r), unicode.IsUpper(r), unicode.IsLower(r), unicode.IsNumber(r))
		if !seen[k] {
			seen[k] = true
			reps = append(reps, r)
		}
	}
	type pair struct {
		set  map[int]bool
		row  int
		text string
	}
	s0 := map[int]bool{start: true}
	a.close(s0)
	todo := []pair{{s0, 0, ""}}
	done := map[string]bool{setKey(s0) + " 0": true}
	reached := map[int]bool{}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		g.r.obl++
		reached[p.row] = true
		if p.text != "" {
			if want, got := g.accepted(a, p.set), accept[p.row]; want != got {
				g.r.report("own-grammar|lexer.accept", pos, "after %q the lexer has the token %s, the published grammar says %s", p.text, got, want)
				return
			}
		}
		for _, c := range reps {
			n := map[int]bool{}
			for s := range p.set {
				for _, e := range a.sets[s] {
					if e.set(c) {
						n[e.to] = true
					}
				}
			}
			a.close(n)
			row := rows[p.row](c)
			if len(n) == 0 && row < 0 {
				continue
			}
			if (len(n) == 0) != (row < 0) || row >= len(rows) {
				what := "goes on"
				if row < 0 {
					what = "ends"
				}
				g.r.report("own-grammar|lexer.nextState", pos, "after %q, before %q, the lexer %s in state S%d, which the published grammar does not say", p.text, string(c), what, p.row)
				return
			}
			k := setKey(n) + " " + strconv.Itoa(row)
			if !done[k] {
				done[k] = true
				todo = append(todo, pair{n, row, p.text + string(c)})
			}
		}
	}
	if len(reached) != len(rows) {
		g.r.report("own-grammar|lexer.nextState", pos, "%d of the %d states of the lexer are reached by no text", len(rows)-len(reached), len(rows))
	}
}

// lexTables reads the automaton of the tool's own lexer.
func (g *bnf) lexTables(marks map[rune]bool) (rows []func(rune) int, accept []string, pos, bad string) {
	e, apos := g.value("lexer", "accept")
	if e == nil {
		return nil, nil, "lexer", "there is no table lexer.accept"
	}
	for _, x := range e.(*ast.CompositeLit).Elts {
		accept = append(accept, norm(x))
	}
	pos = apos
	for _, root := range []string{g.r.cur.Dir, filepath.Join(g.r.verif, "ref")} {
		rows, bad = g.readRows(root, marks)
		if bad == "" && len(rows) == len(accept) {
			return rows, accept, pos, ""
		}
	}
	if bad == "" {
		bad = "the tables accept and nextState have different lengths"
	}
	return nil, nil, pos, bad
}

func (g *bnf) readRows(root string, marks map[rune]bool) (rows []func(rune) int, bad string) {
	fs := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(root, "lexer", "*.go"))
	var lit *ast.CompositeLit
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			return nil, err.Error()
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if vs, ok := n.(*ast.ValueSpec); ok && len(vs.Names) == 1 && vs.Names[0].Name == "nextState" && len(vs.Values) == 1 {
				lit, _ = vs.Values[0].(*ast.CompositeLit)
			}
			return true
		})
	}
	if lit == nil {
		return nil, "the table nextState is not a list"
	}
	for _, x := range lit.Elts {
		fl, ok := x.(*ast.FuncLit)
		if !ok || len(fl.Type.Params.List) != 1 || len(fl.Type.Params.List[0].Names) != 1 {
			return nil, "an entry of nextState is not a function"
		}
		row, why := readRow(fl, marks)
		if why != "" {
			return nil, why
		}
		rows = append(rows, row)
	}
	return rows, ""
}

// readRow understands a list of tests, each with the state it leads to.
func readRow(fl *ast.FuncLit, marks map[rune]bool) (func(rune) int, string) {
	arg := fl.Type.Params.List[0].Names[0].Name
	type arm struct {
		test func(rune) bool
		to   int
	}
	var arms []arm
	target := func(ss []ast.Stmt) (int, bool) {
		if len(ss) != 1 {
			return 0, false
		}
		rs, ok := ss[0].(*ast.ReturnStmt)
		if !ok || len(rs.Results) != 1 {
			return 0, false
		}
		t := norm(rs.Results[0])
		if t == "nullState" {
			return -1, true
		}
		n, err := strconv.Atoi(t)
		return n, err == nil
	}
	for _, s := range fl.Body.List {
		switch s := s.(type) {
		case *ast.ReturnStmt:
			to, ok := target([]ast.Stmt{s})
			if !ok {
				return nil, "a result of nextState is not a state"
			}
			arms = append(arms, arm{func(rune) bool { return true }, to})
		case *ast.SwitchStmt:
			if s.Tag != nil || s.Init != nil {
				return nil, "a function of nextState is not a list of tests"
			}
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				to, ok := target(cc.Body)
				if !ok || cc.List == nil {
					return nil, "a case of nextState does not lead to a state"
				}
				for _, e := range cc.List {
					f := readTest(e, arg, marks)
					if f == nil {
						return nil, "a test of nextState is not understood"
					}
					arms = append(arms, arm{f, to})
				}
			}
		default:
			return nil, "a function of nextState is not a list of tests"
		}
	}
	return func(r rune) int {
		for _, a := range arms {
			if a.test(r) {
				return a.to
			}
		}
		return -1
	}, ""
}

// sameRow: two function literals are lists of tests that lead every character
// to the same state.
func sameRow(a, b *ssa.Function) bool {
	x, ok1 := a.Syntax().(*ast.FuncLit)
	y, ok2 := b.Syntax().(*ast.FuncLit)
	if !ok1 || !ok2 || len(a.Params) != 1 {
		return false
	}
	if k, ok := a.Params[0].Type().Underlying().(*types.Basic); !ok || k.Kind() != types.Int32 || a.Params[0].Name() == "_" || b.Params[0].Name() == "_" {
		return false
	}
	marks := map[rune]bool{}
	f, bad1 := readRow(x, marks)
	g, bad2 := readRow(y, marks)
	if bad1 != "" || bad2 != "" {
		return false
	}
	for r := rune(-1); r <= unicode.MaxRune+1; r++ {
		if f(r) != g(r) {
			return false
		}
	}
	return true
}

func readTest(e ast.Expr, arg string, marks map[rune]bool) func(rune) bool {
	char := func(e ast.Expr) (rune, bool) {
		bl, ok := e.(*ast.BasicLit)
		if !ok || bl.Kind != token.CHAR {
			return 0, false
		}
		v, ok := constant.Int64Val(constant.MakeFromLiteral(bl.Value, bl.Kind, 0))
		marks[rune(v)] = true
		return rune(v), ok
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return readTest(e.X, arg, marks)
	case *ast.BinaryExpr:
		switch e.Op {
		case token.EQL:
			x, y := e.X, e.Y
			if id, ok := y.(*ast.Ident); ok && id.Name == arg {
				x, y = y, x
			}
			if id, ok := x.(*ast.Ident); !ok || id.Name != arg {
				return nil
			}
			if c, ok := char(y); ok {
				return func(r rune) bool { return r == c }
			}
		case token.LOR, token.LAND:
			f, g := readTest(e.X, arg, marks), readTest(e.Y, arg, marks)
			if f == nil || g == nil {
				return nil
			}
			if e.Op == token.LOR {
				return func(r rune) bool { return f(r) || g(r) }
			}
			return func(r rune) bool { return f(r) && g(r) }
		}
	case *ast.CallExpr:
		if len(e.Args) == 0 {
			return nil
		}
		if id, ok := e.Args[0].(*ast.Ident); !ok || id.Name != arg {
			return nil
		}
		switch fun := e.Fun.(type) {
		case *ast.SelectorExpr:
			switch norm(fun.X) + "." + fun.Sel.Name {
			case "unicode.IsLetter":
				return unicode.IsLetter
			case "unicode.IsUpper":
				return unicode.IsUpper
			case "unicode.IsLower":
				return unicode.IsLower
			case "unicode.IsNumber":
				return unicode.IsNumber
			}
		case *ast.Ident:
			if fun.Name != "any" && fun.Name != "not" || len(e.Args) != 2 {
				return nil
			}
			cl, ok := e.Args[1].(*ast.CompositeLit)
			if !ok {
				return nil
			}
			var rs []rune
			for _, x := range cl.Elts {
				c, ok := char(x)
				if !ok {
					return nil
				}
				rs = append(rs, c)
			}
			f := oneOf(rs)
			if fun.Name == "not" {
				return func(r rune) bool { return !f(r) }
			}
			return f
		}
	}
	return nil
}
