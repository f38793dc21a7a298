// Package tmpl finds the code templates of the generators in their SSA form
// and instantiates them at a schematic grammar, so that the code they stand
// for can be analysed like any other package.
package tmpl

import (
	"bytes"
	"embed"
	"fmt"
	"go/constant"
	"go/format"
	"go/types"
	"sort"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

//go:embed alt
var alts embed.FS

// Template is one template text of a generator package.
type Template struct {
	Pkg, Name, Fn, Text string
}

// Find lists the constant texts a package hands to (*text/template.Template).Parse.
func Find(r *load.Repo, pkg string) ([]Template, error) {
	sp := r.SSA[load.ModPath+"/"+pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s does not exist", pkg)
	}
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok {
			add(f)
		}
	}
	// methods
	seen := map[*ssa.Function]bool{}
	for _, f := range fns {
		seen[f] = true
	}
	for _, m := range sp.Members {
		if t, ok := m.(*ssa.Type); ok {
			for _, mm := range methods(r.Prog, t) {
				if !seen[mm] && mm.Pkg == sp {
					seen[mm] = true
					add(mm)
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	f := &finder{fns: fns}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().RelString(nil) != "(*text/template.Template).Parse" {
					continue
				}
				for _, e := range f.envs(fn, 3) {
					text, ok := f.str(c.Call.Args[1], e)
					if !ok {
						return nil, fmt.Errorf("%s: the template text is not a constant", r.Pos(c.Pos()))
					}
					name := ""
					if nc, ok := c.Call.Args[0].(*ssa.Call); ok && len(nc.Call.Args) > 0 {
						name, _ = f.str(nc.Call.Args[len(nc.Call.Args)-1], e)
					}
					f.out = append(f.out, Template{pkg, name, e.name, text})
				}
			}
		}
	}
	return f.out, nil
}

func recvTypes(t *ssa.Type) []types.Type {
	if types.IsInterface(t.Type()) {
		return nil
	}
	return []types.Type{t.Type(), types.NewPointer(t.Type())}
}

func methods(p *ssa.Program, t *ssa.Type) (out []*ssa.Function) {
	for _, ty := range recvTypes(t) {
		ms := p.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if m := p.MethodValue(ms.At(i)); m != nil {
				out = append(out, m)
			}
		}
	}
	return
}

type env struct {
	name string
	args map[*ssa.Parameter]ssa.Value
	up   *env
}

type finder struct {
	fns []*ssa.Function
	out []Template
}

// envs lists the ways fn is entered: once if its parameters do not matter or
// it is never called in the package, else per call site.
func (f *finder) envs(fn *ssa.Function, depth int) (out []*env) {
	if len(fn.Params) > 0 && depth > 0 {
		for _, g := range f.fns {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						for _, up := range f.envs(g, depth-1) {
							e := &env{name: g.Name(), args: map[*ssa.Parameter]ssa.Value{}, up: up}
							isStr := false
							for i, p := range fn.Params {
								e.args[p] = c.Common().Args[i]
								if p.Type().String() == "string" {
									isStr = true
								}
							}
							if !isStr {
								e.name = fn.Name()
							}
							out = append(out, e)
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		return []*env{{name: fn.Name()}}
	}
	// calls that agree are one
	return out
}

func (f *finder) str(v ssa.Value, e *env) (string, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value), true
		}
	case *ssa.Parameter:
		if e != nil {
			if a := e.args[v]; a != nil {
				return f.str(a, e.up)
			}
		}
	case *ssa.BinOp:
		a, ok1 := f.str(v.X, e)
		b, ok2 := f.str(v.Y, e)
		return a + b, ok1 && ok2
	case *ssa.Convert:
		return f.str(v.X, e)
	case *ssa.ChangeType:
		return f.str(v.X, e)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok {
			var val ssa.Value
			n := 0
			for _, fn := range f.fns {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
							val = s.Val
							n++
						}
					}
				}
			}
			if n == 1 {
				return f.str(val, nil)
			}
		}
	}
	return "", false
}

// Code returns the constant Go source a package writes verbatim (converted
// from a string constant to bytes) that declares package decl.
func Code(r *load.Repo, pkg, decl string) (string, error) {
	sp := r.SSA[load.ModPath+"/"+pkg]
	if sp == nil {
		return "", fmt.Errorf("package %s does not exist", pkg)
	}
	found := map[string]bool{}
	for _, m := range sp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						s := constant.StringVal(c.Value)
						if strings.HasPrefix(strings.TrimSpace(s), "package "+decl) && !strings.Contains(s, "{{") {
							found[s] = true
						}
					}
				}
			}
		}
	}
	if len(found) != 1 {
		return "", fmt.Errorf("%d constant sources of package %s written by %s", len(found), decl, pkg)
	}
	for s := range found {
		return s, nil
	}
	return "", nil
}

// Get returns the text of the template called name of pkg, as named in the
// reference; a renamed template is found by elimination or by its function.
func Get(r, ref *load.Repo, pkg, name string) (string, error) {
	rt, err := Find(ref, pkg)
	if err != nil {
		return "", err
	}
	ct, err := Find(r, pkg)
	if err != nil {
		return "", err
	}
	rt, ct = uniq(rt), uniq(ct)
	var want *Template
	for i := range rt {
		if rt[i].Name == name {
			want = &rt[i]
		}
	}
	if want == nil {
		return "", fmt.Errorf("reference has no template %q in %s", name, pkg)
	}
	var byName, byFn, rest []Template
	for _, t := range ct {
		if t.Name == name {
			byName = append(byName, t)
		}
		if t.Fn == want.Fn {
			byFn = append(byFn, t)
		}
		known := false
		for _, x := range rt {
			if x.Name == t.Name && x.Name != name {
				known = true
			}
		}
		if !known {
			rest = append(rest, t)
		}
	}
	for _, l := range [][]Template{byName, byFn, rest} {
		if len(l) == 1 {
			return l[0].Text, nil
		}
	}
	return "", fmt.Errorf("no template of %s corresponds to %q (%d found)", pkg, name, len(ct))
}

func uniq(l []Template) (out []Template) {
	seen := map[string]bool{}
	for _, t := range l {
		if k := t.Name + "\x00" + t.Text; !seen[k] {
			seen[k] = true
			out = append(out, t)
		}
	}
	return
}

// Render instantiates a template.
func Render(text string, data interface{}) (string, error) {
	t, err := template.New("t").Parse(text)
	if err != nil {
		return "", err
	}
	t.Option("missingkey=error")
	var b bytes.Buffer
	if err := t.Execute(&b, data); err != nil {
		return "", err
	}
	return b.String(), nil
}

type m = map[string]interface{}
type l = []interface{}

// Set names the templates to take from the analysed tree; the others come
// from the reference, so that a difference is attributed to its template.
type Set map[string]bool

// Has reports membership.
func (s Set) Has(pkg, name string) bool { return s[pkg+"#"+name] }

// Builder assembles packages.
type Builder struct {
	R, Ref *load.Repo
	Set    Set
	err    error
	Used   []string
}

func (b *Builder) get(pkg, name string) string {
	from := b.Ref
	if b.Set.Has(pkg, name) {
		from = b.R
		b.Used = append(b.Used, pkg+"#"+name)
	}
	s, err := Get(from, b.Ref, pkg, name)
	if err != nil && b.err == nil {
		b.err = fmt.Errorf("template %q of %s: %v", name, pkg, err)
	}
	return s
}

func (b *Builder) render(pkg, name string, data interface{}) string {
	text := b.get(pkg, name)
	if b.err != nil {
		return ""
	}
	s, err := Render(text, data)
	if err != nil && b.err == nil {
		b.err = fmt.Errorf("template %q of %s: %v", name, pkg, err)
	}
	return s
}

// Root is the import path under which instantiated packages are filed.
const Root = load.ModPath + "/zz_inst/"

func (b *Builder) actionFile() string {
	from := b.Ref
	if b.Set.Has("gen/golang/lr1/parser", "action") {
		from = b.R
		b.Used = append(b.Used, "gen/golang/lr1/parser#action")
	}
	s, err := Code(from, "gen/golang/lr1/parser", "parser")
	if err != nil && b.err == nil {
		b.err = err
	}
	return s
}

func (b *Builder) add(path, file, src string) {
	if b.err != nil {
		return
	}
	if f, err := format.Source([]byte(src)); err == nil {
		src = string(f) // as the generator does; merges repeated imports
	}
	files := map[string]string{file: src}
	if b.R == b.Ref { // further forms of the reference's functions
		if t, err := alts.ReadFile("alt/" + strings.ReplaceAll(path, "/", "_") + ".go.txt"); err == nil {
			files["zz_alt.go"] = string(t)
		}
	}
	if _, err := b.R.AddPackage(Root+path, files, Import); err != nil {
		b.err = fmt.Errorf("code instantiated for package %s: %v", path, err)
	}
}

// Import maps the import paths of instantiated code.
func Import(p string) string {
	if strings.HasPrefix(p, "g/") || strings.HasPrefix(p, "k/") {
		return Root + p
	}
	return p
}

// The schematic grammar: every branch of every template occurs in it.
//
//	S : "a" S A | empty ;   A : id | A "a" A ;
type slotD struct {
	l   string
	nt  string
	alt int
	pos int
	sym []string
}

var slotTab = []slotD{
	{"A0R0", "A", 0, 0, []string{"T_2"}},
	{"A0R1", "A", 0, 1, []string{"T_2"}},
	{"A1R0", "A", 1, 0, []string{"NT_A", "T_1", "NT_A"}},
	{"A1R1", "A", 1, 1, []string{"NT_A", "T_1", "NT_A"}},
	{"A1R2", "A", 1, 2, []string{"NT_A", "T_1", "NT_A"}},
	{"A1R3", "A", 1, 3, []string{"NT_A", "T_1", "NT_A"}},
	{"S0R0", "S", 0, 0, []string{"T_1", "NT_S", "NT_A"}},
	{"S0R1", "S", 0, 1, []string{"T_1", "NT_S", "NT_A"}},
	{"S0R2", "S", 0, 2, []string{"T_1", "NT_S", "NT_A"}},
	{"S0R3", "S", 0, 3, []string{"T_1", "NT_S", "NT_A"}},
	{"S1R0", "S", 1, 0, nil},
}

func (b *Builder) tokens() {
	b.add("g/token", "token.go", b.render("gen/golang/token", "Token", m{
		"Types": l{
			m{"Name": "Error", "Comment": "Error", "Suppress": false},
			m{"Name": "EOF", "Comment": "$", "Suppress": false},
			m{"Name": "T_0", "Comment": "#", "Suppress": true},
			m{"Name": "T_1", "Comment": "a", "Suppress": false},
			m{"Name": "T_2", "Comment": "id", "Suppress": false},
		},
		"TypeToString": []string{"Error", "EOF", "T_0", "T_1", "T_2"},
	}))
}

func (b *Builder) lexer() {
	b.add("g/lexer", "lexer.go", b.render("gen/golang/lexer", "lexer", m{
		"Package": "g", "Tick": "`",
		"Accept": []string{"Error", "T_1", "T_2", "T_0"},
		"Transitions": l{
			l{m{"Condition": "r == 'a'", "NextState": 1}, m{"Condition": "unicode.IsLetter(r)", "NextState": 2}, m{"Condition": "r == '#'", "NextState": 3}},
			l{},
			l{m{"Condition": "any(r, []rune{'b','c'})", "NextState": 2}, m{"Condition": "unicode.In(r, _Lu) && !unicode.In(r, _Nd)", "NextState": 1}},
			l{m{"Condition": "not(r, []rune{'\\n'})", "NextState": 3}, m{"Condition": "true", "NextState": 1}},
		},
	}))
}

func (b *Builder) gllTables() {
	b.add("g/parser/symbols", "symbols.go", b.render("gen/golang/gll/symbols", "symbols", m{
		"NonTerminals": []string{"A", "S"},
		"Terminals":    []string{"#", "a", "id"},
	}))
	var ss l
	for _, s := range slotTab {
		ss = append(ss, m{"Label": s.l, "NT": s.nt, "Alt": s.alt, "Pos": s.pos, "Symbols": s.sym})
	}
	b.add("g/parser/slot", "slot.go", b.render("gen/golang/gll/slots", "Slot", m{
		"Package": "g", "Slots": ss,
		"Alts": l{m{"NT": "S", "Labels": "S0R0,S1R0"}, m{"NT": "A", "Labels": "A0R0,A1R0"}},
	}))
	b.add("g/sppf", "sppf.go", b.render("gen/golang/gll/sppf", "sppf", "g"))
	b.add("g/parser/bsr", "bsr.go", b.render("gen/golang/gll/bsr", "bsr", "g"))
}

func (b *Builder) gllParser() {
	code := ""
	alt := func(nt, label string, empty bool, slots ...m) {
		d := m{"NT": nt, "AltLabel": label, "AltComment": nt + " comment", "Empty": empty, "Slots": slots, "LastSlot": nil}
		if len(slots) > 0 {
			d["LastSlot"] = slots[len(slots)-1]
		}
		code += b.render("gen/golang/gll", "Alternate", d)
	}
	sl := func(al, pre, post, head string, nt bool) m {
		return m{"AltLabel": al, "PreLabel": pre, "PostLabel": post, "Comment": post, "IsNT": nt, "Head": head}
	}
	alt("S", "S0R0", false, sl("S0R0", "S0R0", "S0R1", "S", false), sl("S0R0", "S0R1", "S0R2", "S", true), sl("S0R0", "S0R2", "S0R3", "S", true))
	alt("S", "S1R0", true)
	alt("A", "A0R0", false, sl("A0R0", "A0R0", "A0R1", "A", false))
	alt("A", "A1R0", false, sl("A1R0", "A1R0", "A1R1", "A", true), sl("A1R0", "A1R1", "A1R2", "A", false), sl("A1R0", "A1R2", "A1R3", "A", true))
	sy := func(ts ...string) (out l) {
		for i := 0; i < len(ts); i += 2 {
			out = append(out, m{"TokType": ts[i], "Label": ts[i+1]})
		}
		return
	}
	var tsd l
	for i, s := range slotTab {
		d := sy("T_1", "a", "T_2", "id")
		switch i % 3 {
		case 0:
			d = sy("T_2", "id")
		case 1:
			d = sy("EOF", "$", "T_1", "a")
		}
		tsd = append(tsd, m{"Label": s.l, "Symbols": d})
	}
	ts := b.render("gen/golang/gll", "Test Select", m{
		"TestSelect": tsd,
		"Follow":     l{m{"Label": "A", "Symbols": sy("EOF", "$", "T_1", "a", "T_2", "id")}, m{"Label": "S", "Symbols": sy("EOF", "$", "T_2", "id")}},
	})
	b.add("g/parser", "parser.go", b.render("gen/golang/gll", "Parser Main Template", m{
		"Package": "g", "StartSymbol": "S", "TestSelect": ts, "CodeX": code,
	}))
}

func (b *Builder) lr1() {
	b.add("k/token", "token.go", b.render("gen/golang/token", "Token", m{
		"Types": l{
			m{"Name": "Error", "Comment": "Error", "Suppress": false},
			m{"Name": "EOF", "Comment": "$", "Suppress": false},
			m{"Name": "T_0", "Comment": "a", "Suppress": true},
			m{"Name": "T_1", "Comment": "id", "Suppress": false},
		},
		"TypeToString": []string{"Error", "EOF", "T_0", "T_1"},
	}))
	b.add("k/lexer", "lexer.go", b.render("gen/golang/lexer", "lexer", m{
		"Package": "k", "Tick": "`",
		"Accept":      []string{"Error", "T_1"},
		"Transitions": l{l{m{"Condition": "r == 'a'", "NextState": 1}}, l{m{"Condition": "true", "NextState": 1}}},
	}))
	b.add("k/errors", "errors.go", b.render("gen/golang/lr1/parser", "parser errors", "k/token"))
	p := func(n int) (out l) {
		for i := 0; i < n; i++ {
			out = append(out, m{"ID": fmt.Sprintf("p%d", i), "Type": "X"})
		}
		return
	}
	b.add("k/ast", "ast.go", b.render("gen/golang/lr1/ast", "AST", m{
		"Package": "k", "Types": []string{"S", "A"},
		"BasicProds": l{
			m{"Comment": "S : A ;", "ID": "S0", "Params": p(1), "ReturnType": "S"},
			m{"Comment": "A : a A id ;", "ID": "A0", "Params": p(3), "ReturnType": "A"},
			m{"Comment": "A : empty ;", "ID": "A1", "Params": p(0), "ReturnType": "A"},
		},
	}))
	if b.err != nil {
		return
	}
	files := map[string]string{
		"productionstable.go": b.render("gen/golang/lr1/parser", "parser productions table", m{"Package": "k", "ProdTab": l{
			m{"String": "`S1 : S`", "Id": "S1", "NTType": -1, "NumSymbols": 1, "ReduceFunc": "ast.S0(X[0])"},
			m{"String": "`S : A`", "Id": "S", "NTType": 1, "NumSymbols": 1, "ReduceFunc": "ast.S0(X[0])"},
			m{"String": "`A : a A id`", "Id": "A", "NTType": 0, "NumSymbols": 3, "ReduceFunc": "ast.A0(X[0],X[1],X[2])"},
		}}),
		"parser.go": b.render("gen/golang/lr1/parser", "parser", m{"Package": "k", "NumProductions": 3, "NumStates": 2, "NumTerminals": 4}),
		"action.go": b.actionFile(),
	}
	row := func(rec bool, as ...string) string {
		var d l
		for i := 0; i < len(as); i += 2 {
			d = append(d, m{"Token": as[i], "Action": as[i+1]})
		}
		return b.render("gen/golang/lr1/parser", "parser action row", m{"CanRecover": rec, "Actions": d})
	}
	files["actiontable.go"] = b.render("gen/golang/lr1/parser", "parser action table", m{"Package": "k", "Rows": []string{
		row(false, "EOF", "accept(true),\t\t/* $ */", "T_0", "shift(1),\t\t/* a */"), row(true, "T_1", "reduce(2),\t\t/* id, reduce: A */")}})
	grow := func(n ...int) string {
		var d l
		for i, x := range n {
			d = append(d, m{"NT": fmt.Sprint("N", i), "State": x})
		}
		return b.render("gen/golang/lr1/parser", "parser goto table row", d)
	}
	files["gototable.go"] = b.render("gen/golang/lr1/parser", "parser goto table", m{"NumNTSymbols": 2, "Rows": []string{grow(1, -1), grow(-1, 0)}})
	if b.err != nil {
		return
	}
	if _, err := b.R.AddPackage(Root+"k/parser", files, Import); err != nil {
		b.err = fmt.Errorf("code instantiated for package k/parser: %v", err)
	}
}

// GLL instantiates the packages of a generated GLL parser.
func (b *Builder) GLL() error {
	b.tokens()
	b.lexer()
	b.gllTables()
	b.gllParser()
	return b.err
}

// LR1 instantiates the packages of a generated LR(1) parser.
func (b *Builder) LR1() error {
	b.lr1()
	return b.err
}
