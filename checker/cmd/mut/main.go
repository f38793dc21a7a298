// mut is a development tool: it measures how the comparison reacts to
// automatic mutations (must be reported) and automatic behaviour-preserving
// rewrites (must stay quiet). It is not part of any check.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

type mutant struct {
	file string
	off  int
	end  int
	text string
	desc string
	line int
}

func main() {
	dir := flag.String("dir", "/repo", "")
	mode := flag.String("mode", "mut", "mut or ref")
	workers := flag.Int("j", 8, "")
	only := flag.String("only", "", "description filter")
	show := flag.Bool("show", false, "show first diff of detected")
	flag.Parse()
	if os.Getenv("FULL") != "" {
		eng.MsgCap = 1 << 20
	}
	var ms []mutant
	for _, p := range flag.Args() {
		fs, _ := filepath.Glob(filepath.Join(*dir, p, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, _ := os.ReadFile(f)
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				panic(err)
			}
			if *mode == "mut" {
				ms = append(ms, mutations(fset, af, f, src)...)
			} else {
				ms = append(ms, rewrites(fset, af, f, src)...)
			}
		}
	}
	if *only != "" {
		var k []mutant
		for _, m := range ms {
			if strings.Contains(fmt.Sprintf("%s:%d %s", m.file, m.line, m.desc), *only) {
				k = append(k, m)
			}
		}
		ms = k
	}
	var mu sync.Mutex
	var bad, good, invalid int
	ch := make(chan mutant)
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &worker{}
			for m := range ch {
				diffs, err := w.judge(*dir, m)
				mu.Lock()
				switch {
				case err != nil:
					invalid++
				case len(diffs) > 0:
					good++
				default:
					bad++
				}
				rel := strings.TrimPrefix(m.file, *dir+"/")
				if err == nil {
					if *mode == "mut" && len(diffs) == 0 {
						fmt.Printf("SURVIVED %s:%d %s\n", rel, m.line, m.desc)
					}
					if *mode == "ref" && len(diffs) > 0 {
						fmt.Printf("ALARM %s:%d %s\n    %s\n", rel, m.line, m.desc, diffs[0])
					}
					if *mode == "mut" && len(diffs) > 0 && *show {
						fmt.Printf("ok %s:%d %s\n    %s\n", rel, m.line, m.desc, diffs[0])
					}
				} else if *show || *mode == "ref" && !strings.Contains(err.Error(), "declared and not used") {
					fmt.Printf("INVALID %s:%d %s: %.200s\n", rel, m.line, m.desc, err)
				}
				mu.Unlock()
			}
		}()
	}
	t0 := time.Now()
	for _, m := range ms {
		ch <- m
	}
	close(ch)
	wg.Wait()
	fmt.Printf("%s: reported %d, quiet %d, invalid %d, %v\n", *mode, good, bad, invalid, time.Since(t0).Round(time.Second))
}

type worker struct {
	repo *load.Repo
	n    int
}

func (w *worker) judge(dir string, m mutant) (out []string, err error) {
	if w.repo == nil {
		w.repo, err = load.Load(dir, token.NewFileSet())
		if err != nil {
			panic(err)
		}
	}
	w.n++
	src, _ := os.ReadFile(m.file)
	n := append([]byte(nil), src[:m.off]...)
	n = append(n, m.text...)
	n = append(n, src[m.end:]...)
	rel, _ := filepath.Rel(dir, filepath.Dir(m.file))
	path := load.ModPath
	if rel != "." {
		path += "/" + rel
	}
	files := map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(filepath.Dir(m.file), "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		if f == m.file {
			b = n
		}
		files[filepath.Base(f)] = string(b)
	}
	prefix := fmt.Sprintf("mut%d/", w.n)
	sp, err := w.repo.AddPackage(prefix+path, files, nil)
	if err != nil {
		return nil, err
	}
	delete(w.repo.SSA, prefix+path)
	pkgs := map[string]*ssa.Package{}
	for k, v := range w.repo.SSA {
		pkgs[k] = v
	}
	pkgs[path] = sp
	e := eng.NewEng()
	e.StripPath = []string{prefix, load.ModPath + "/"}
	mod := func(s string) bool { return module(strings.TrimPrefix(s, prefix)) }
	mt := eng.NewMatcher(e, eng.NewSide(e, w.repo.Prog, pkgs, mod), eng.NewSide(e, w.repo.Prog, w.repo.SSA, module))
	defer func() {
		if r := recover(); r != nil {
			out = []string{fmt.Sprintf("PANIC %v", r)}
		}
	}()
	for _, r := range mt.ComparePackage(path) {
		if len(r.Diffs) > 0 {
			out = append(out, r.Name+": "+r.Diffs[0].What)
		}
	}
	return out, nil
}

func module(s string) bool { return strings.HasPrefix(s, "github.com/goccmack/") }

func mutations(fset *token.FileSet, f *ast.File, name string, src []byte) (ms []mutant) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(from, to token.Pos, txt, desc string) {
		ms = append(ms, mutant{name, off(from), off(to), txt, desc, fset.Position(from).Line})
	}
	ops := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR, token.LAND: token.LOR, token.LOR: token.LAND, token.ADD: token.SUB, token.SUB: token.ADD}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR || n.Tok == token.CONST
		case *ast.BinaryExpr:
			if o, ok := ops[n.Op]; ok {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o.String(), "op "+text(n))
			}
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, "", "drop ! "+text(n))
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate if "+text(n.Cond))
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n.Pos(), n.End(), "("+n.Value+"+1)", "int "+n.Value)
			}
			if n.Kind == token.CHAR {
				add(n.Pos(), n.End(), "("+n.Value+"+1)", "char "+n.Value)
			}
			if n.Kind == token.STRING && len(n.Value) > 2 && len(n.Value) < 100 && n.Value[0] == '"' {
				add(n.Pos(), n.End(), n.Value[:1]+"Z"+n.Value[1:], "string "+n.Value)
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				stmt(s, text, add)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				stmt(s, text, add)
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true->false")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false->true")
			}
		case *ast.CallExpr:
			if len(n.Args) >= 2 {
				a, b := n.Args[0], n.Args[1]
				add(a.Pos(), b.End(), text(b)+", "+text(a), "swap args "+text(n))
			}
		}
		return true
	})
	return
}

func stmt(s ast.Stmt, text func(ast.Node) string, add func(a, b token.Pos, t, d string)) {
	short := text(s)
	if i := strings.IndexByte(short, '\n'); i >= 0 {
		short = short[:i]
	}
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		add(s.Pos(), s.End(), "", "delete "+short)
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "delete "+short)
		}
	case *ast.BranchStmt:
		add(s.Pos(), s.End(), "", "delete "+short)
		if s.Label == nil && s.Tok == token.CONTINUE {
			add(s.Pos(), s.End(), "break", "continue->break")
		}
		if s.Label == nil && s.Tok == token.BREAK {
			add(s.Pos(), s.End(), "continue", "break->continue")
		}
	case *ast.IfStmt:
		add(s.Pos(), s.End(), "", "delete "+short)
	case *ast.ForStmt, *ast.RangeStmt:
		add(s.Pos(), s.End(), "", "delete "+short)
	}
}

// rewrites are edits that keep the behaviour.
func rewrites(fset *token.FileSet, f *ast.File, name string, src []byte) (ms []mutant) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(from, to token.Pos, txt, desc string) {
		ms = append(ms, mutant{name, off(from), off(to), txt, desc, fset.Position(from).Line})
	}
	tmp := 0
	hasBranch := func(b ast.Node) bool {
		r := false
		ast.Inspect(b, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt:
				r = true
			case *ast.FuncLit:
				return false
			}
			return true
		})
		return r
	}
	assigns := func(b ast.Node, id string) bool {
		r := false
		ast.Inspect(b, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if i, ok := l.(*ast.Ident); ok && i.Name == id {
						r = true
					}
				}
			case *ast.UnaryExpr:
				if i, ok := n.X.(*ast.Ident); ok && n.Op == token.AND && i.Name == id {
					r = true
				}
			}
			return true
		})
		return r
	}
	var block func(list []ast.Stmt)
	block = func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.RangeStmt:
				// range -> index loop over a copy of the slice header
				if s.Tok == token.DEFINE && s.Key != nil {
					k := s.Key.(*ast.Ident).Name
					tmp++
					sl := fmt.Sprintf("vsl%d", tmp)
					ix := k
					if k == "_" {
						ix = fmt.Sprintf("vix%d", tmp)
					}
					t := fmt.Sprintf("%s := %s[:]\nfor %s := 0; %s < len(%s); %s++ {\n", sl, text(s.X), ix, ix, sl, ix)
					if s.Value != nil && s.Value.(*ast.Ident).Name != "_" {
						t += fmt.Sprintf("%s := %s[%s]\n", s.Value.(*ast.Ident).Name, sl, ix)
					}
					t += text(s.Body)[1:]
					add(s.Pos(), s.End(), t, "range->index")
				}
				// body into a local function
				if s.Tok == token.DEFINE && !hasBranch(s.Body) {
					tmp++
					fn := fmt.Sprintf("vfn%d", tmp)
					add(s.Body.Pos(), s.Body.End(), "{\n"+fn+" := func() "+text(s.Body)+"\n"+fn+"()\n}", "body->closure")
				}
			case *ast.ForStmt:
				if s.Init != nil && s.Cond != nil && s.Post != nil && !hasBranch(s.Body) {
					b := text(s.Body)
					add(s.Pos(), s.End(), "{\n"+text(s.Init)+"\nfor "+text(s.Cond)+" {\n"+b[1:len(b)-1]+"\n"+text(s.Post)+"\n}\n}", "for->while")
				}
				if s.Cond != nil && s.Init == nil && s.Post == nil {
					b := text(s.Body)
					add(s.Pos(), s.End(), "for {\nif !("+text(s.Cond)+") {\nbreak\n}\n"+b[1:], "while->break")
				}
			case *ast.IfStmt:
				if s.Else != nil {
					if eb, ok := s.Else.(*ast.BlockStmt); ok {
						init := ""
						if s.Init != nil {
							init = text(s.Init) + "; "
						}
						add(s.Pos(), s.End(), "if "+init+"!("+text(s.Cond)+") "+text(eb)+" else "+text(s.Body), "invert if")
					}
				} else if i < len(list)-1 && s.Init == nil && len(s.Body.List) > 0 {
					if r, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); ok && r != nil {
						// early return -> else
						last := list[len(list)-1]
						if _, ok := last.(*ast.ReturnStmt); ok {
							rest := string(src[off(list[i+1].Pos()):off(last.End())])
							add(s.Pos(), last.End(), "if "+text(s.Cond)+" "+text(s.Body)+" else {\n"+rest+"\n}", "early return->else")
						}
					}
				}
				if s.Init == nil {
					tmp++
					v := fmt.Sprintf("vc%d", tmp)
					add(s.Pos(), s.Cond.End(), v+" := "+text(s.Cond)+"\nif "+v, "temp cond")
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND && s.Else == nil {
						add(s.Pos(), s.End(), "if "+text(b.X)+" {\nif "+text(b.Y)+" "+text(s.Body)+"\n}", "split &&")
					}
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LOR && s.Else == nil {
						if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); ok {
							add(s.Pos(), s.End(), "if "+text(b.X)+" "+text(s.Body)+"\nif "+text(b.Y)+" "+text(s.Body), "split ||")
						}
					}
				}
			case *ast.SwitchStmt:
				if s.Init == nil && s.Tag != nil && !hasBranchBreak(s.Body) {
					tmp++
					v := fmt.Sprintf("vsw%d", tmp)
					t := v + " := " + text(s.Tag) + "\n"
					var def string
					first := true
					ok := true
					for _, c := range s.Body.List {
						cc := c.(*ast.CaseClause)
						body := ""
						if len(cc.Body) > 0 {
							body = string(src[off(cc.Body[0].Pos()):off(cc.Body[len(cc.Body)-1].End())])
						}
						if cc.List == nil {
							def = body
							continue
						}
						var cs []string
						for _, e := range cc.List {
							cs = append(cs, v+" == "+text(e))
						}
						if !first {
							t += " else "
						}
						first = false
						t += "if " + strings.Join(cs, " || ") + " {\n" + body + "\n}"
					}
					if def != "" && !first {
						t += " else {\n" + def + "\n}"
					}
					if ok && !first {
						add(s.Pos(), s.End(), t, "switch->if")
					}
				}
			case *ast.AssignStmt:
				if len(s.Lhs) == 1 && len(s.Rhs) == 1 && s.Tok == token.ADD_ASSIGN {
					add(s.Pos(), s.End(), text(s.Lhs[0])+" = "+text(s.Lhs[0])+" + "+text(s.Rhs[0]), "+= -> =")
				}
				if len(s.Rhs) == 1 && s.Tok == token.ASSIGN && len(s.Lhs) == 1 {
					tmp++
					v := fmt.Sprintf("vt%d", tmp)
					add(s.Pos(), s.End(), v+" := "+text(s.Rhs[0])+"\n"+text(s.Lhs[0])+" = "+v, "temp assign")
				}
				if s.Tok == token.DEFINE && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
					if call, ok := s.Rhs[0].(*ast.CompositeLit); ok {
						_ = call
					}
				}
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					tmp++
					v := fmt.Sprintf("vr%d", tmp)
					add(s.Pos(), s.End(), v+" := "+text(s.Results[0])+"\nreturn "+v, "temp return")
				}
			case *ast.ExprStmt:
				if c, ok := s.X.(*ast.CallExpr); ok && len(c.Args) >= 1 && !c.Ellipsis.IsValid() {
					t := ""
					var as []string
					for _, a := range c.Args {
						if _, ok := a.(*ast.FuncLit); ok {
							as = append(as, text(a))
							continue
						}
						tmp++
						v := fmt.Sprintf("va%d", tmp)
						t += v + " := " + text(a) + "\n"
						as = append(as, v)
					}
					add(s.Pos(), s.End(), t+text(c.Fun)+"("+strings.Join(as, ", ")+")", "temp args")
				}
			}
			if i+1 < len(list) {
				a, b := s, list[i+1]
				if independent(a, b) {
					add(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap stmts")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			block(n.List)
		case *ast.CaseClause:
			block(n.Body)
		}
		return true
	})
	_ = assigns
	_ = bytes.NewReader
	_ = format.Source
	return
}

func hasBranchBreak(b ast.Node) bool {
	r := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BranchStmt:
			r = true
		case *ast.FuncLit:
			return false
		default:
			_ = n
		}
		return true
	})
	return r
}

// independent: two simple statements over disjoint plain variables without calls.
func independent(a, b ast.Stmt) bool {
	ra, wa, oka := rw(a)
	rb, wb, okb := rw(b)
	if !oka || !okb {
		return false
	}
	for v := range wa {
		if rb[v] || wb[v] {
			return false
		}
	}
	for v := range wb {
		if ra[v] {
			return false
		}
	}
	return true
}

func rw(s ast.Stmt) (r, w map[string]bool, ok bool) {
	r, w = map[string]bool{}, map[string]bool{}
	a, isA := s.(*ast.AssignStmt)
	if !isA || (a.Tok != token.DEFINE && a.Tok != token.ASSIGN) {
		return nil, nil, false
	}
	for _, l := range a.Lhs {
		id, isI := l.(*ast.Ident)
		if !isI {
			return nil, nil, false
		}
		w[id.Name] = true
	}
	ok = true
	for _, x := range a.Rhs {
		ast.Inspect(x, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				r[n.Name] = true
			case *ast.CallExpr, *ast.FuncLit, *ast.StarExpr:
				ok = false
			}
			return true
		})
	}
	return
}
