package eng

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Side is one of the two programs of a comparison.
type Side struct {
	P    *Prog
	Fns  map[string]*ssa.Function   // by canonical name
	Alts map[string][]*ssa.Function // further forms of a function (reference only)
	Pkgs map[string]*ssa.Package
}

// Functions lists the declared functions and methods of a package.
func Functions(p *ssa.Program, pk *ssa.Package) []*ssa.Function {
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && f.Synthetic == "" && !seen[f] && len(f.Blocks) > 0 && f.Pkg == pk {
			seen[f] = true
			fns = append(fns, f)
		}
	}
	for _, m := range pk.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if types.IsInterface(m.Type()) {
				continue
			}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := p.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	return fns
}

// Matcher compares two programs function by function.
type Matcher struct {
	E         *Eng
	Cur, Ref  *Side
	dissolve  map[string]bool
	level     map[string]int // dissolved function: number of steps from a function that differs by itself
	first     map[string]Diff
	LitSyn    func(a, b *ssa.Function) bool // a further way to see that two function literals are equal
	lits      map[[2]*ssa.Function]int      // 1: different, 2: equal
	memo      map[string]*FnResult
	Budget    int
	usersOf   [2]map[string][]string
	callersOf map[*ssa.Function]map[string]bool
	Log       func(format string, a ...interface{})
}

// FnResult is the verdict on one function.
type FnResult struct {
	Name  string
	Level string // how equality was established
	Diffs []Diff
	Steps int
}

func NewMatcher(e *Eng, cur, ref *Side) *Matcher {
	m := &Matcher{E: e, Cur: cur, Ref: ref, dissolve: map[string]bool{}, level: map[string]int{}, first: map[string]Diff{}, memo: map[string]*FnResult{}}
	m.lits = map[[2]*ssa.Function]int{}
	e.LitEq = m.litEq
	cur.P.MRHook = func(fn *ssa.Function) *ModRef {
		if r := m.refOf(fn); r != nil && sameSig(e, fn, r) {
			return ref.P.ModRef(r, nil)
		}
		return nil
	}
	return m
}

// litEq: a function of the one program that is a value does what one of the
// other does.
func (m *Matcher) litEq(a, b *ssa.Function) bool {
	if a.Prog == m.Ref.P.SSA {
		a, b = b, a
	}
	if a.Prog != m.Cur.P.SSA || b.Prog != m.Ref.P.SSA || !m.own(a) || !m.own(b) || !sameSig(m.E, a, b) || len(a.FreeVars)+len(b.FreeVars) > 0 || m.lits[[2]*ssa.Function{a, b}] == 1 {
		return false
	}
	k := [2]*ssa.Function{a, b}
	if m.lits[k] == 0 {
		m.lits[k] = 1 // not while it is being decided
		if m.LitSyn != nil && m.LitSyn(a, b) {
			m.lits[k] = 2
			return true
		}
		inl := func(f *ssa.Function) bool { return m.own(f) && !m.known(f) }
		x := Summarize(m.E, m.Cur.P, a, Options{Inline: inl, Known: m.byName, Budget: m.Budget})
		y := Summarize(m.E, m.Ref.P, b, Options{Inline: inl, Known: m.byName, Budget: m.Budget})
		if len(Compare(x, y)) == 0 {
			m.lits[k] = 2
		}
	}
	return m.lits[k] == 2
}

func sameSig(e *Eng, a, b *ssa.Function) bool {
	return e.TypeName(a.Signature) == e.TypeName(b.Signature) && len(a.Params) == len(b.Params)
}

func (m *Matcher) refOf(fn *ssa.Function) *ssa.Function {
	if fn.Parent() != nil || fn.Pkg == nil {
		return nil
	}
	return m.Ref.Fns[m.E.FnName(fn)]
}

// known: a function of both programs whose contract is the same by name.
func (m *Matcher) known(fn *ssa.Function) bool {
	n := m.E.FnName(fn)
	a, b := m.Cur.Fns[n], m.Ref.Fns[n]
	return a != nil && b != nil && !m.dissolve[n] && sameSig(m.E, a, b)
}

// byName: a function of both programs with one signature.
func (m *Matcher) byName(fn *ssa.Function) bool {
	n := m.E.FnName(fn)
	a, b := m.Cur.Fns[n], m.Ref.Fns[n]
	return a != nil && b != nil && sameSig(m.E, a, b)
}

func (m *Matcher) own(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	return m.Cur.Pkgs[p] != nil || m.Ref.Pkgs[p] != nil
}

// Compare decides one function.
func (m *Matcher) Compare(name string) *FnResult {
	if r, ok := m.memo[name]; ok {
		return r
	}
	cf, rf := m.Cur.Fns[name], m.Ref.Fns[name]
	r := &FnResult{Name: name}
	m.memo[name] = r
	if cf == nil {
		r.Diffs = []Diff{{What: "the function no longer exists"}}
		return r
	}
	if !sameSig(m.E, cf, rf) {
		r.Diffs = []Diff{{What: "its signature changed", Pos: cf.Pos()}}
		return r
	}
	modes := []struct {
		n   string
		inl func(root *ssa.Function) func(*ssa.Function) bool
	}{
		{"modular", func(root *ssa.Function) func(*ssa.Function) bool {
			return func(f *ssa.Function) bool { return m.own(f) && !m.known(f) }
		}},
		{"callees of one", func(root *ssa.Function) func(*ssa.Function) bool {
			d := m.oneSided(cf, rf)
			if len(d) == 0 {
				return nil
			}
			return func(f *ssa.Function) bool { return m.own(f) && (!m.known(f) || d[m.E.FnName(f)]) }
		}},
		{"simple callees", func(root *ssa.Function) func(*ssa.Function) bool {
			d := m.oneSided(cf, rf)
			return func(f *ssa.Function) bool {
				return m.own(f) && (!m.known(f) || d[m.E.FnName(f)] || m.simple(f))
			}
		}},
		{"package", func(root *ssa.Function) func(*ssa.Function) bool {
			return func(f *ssa.Function) bool { return m.own(f) && (f.Pkg == root.Pkg || !m.known(f)) }
		}},
	}
	refs := append([]*ssa.Function{rf}, m.Ref.Alts[name]...)
	w0 := m.E.work
	for i, md := range modes {
		if i > 0 && m.E.work-w0 > 200000 {
			break // inlining the whole package would be too much
		}
		if md.inl(cf) == nil {
			continue
		}
		a := Summarize(m.E, m.Cur.P, cf, Options{Inline: md.inl(cf), Known: m.byName, Budget: m.Budget})
		if dbg := os.Getenv("CKDUMP"); dbg != "" && strings.HasSuffix(name, dbg) {
			fmt.Fprintf(os.Stderr, "=== CUR %s %s\n%s\n", name, md.n, a)
			fmt.Fprintf(os.Stderr, "=== REF\n%s\n", Summarize(m.E, m.Ref.P, rf, Options{Inline: md.inl(rf), Known: m.byName, Budget: m.Budget}))
		}
		var d []Diff
		for j, f := range refs {
			b := Summarize(m.E, m.Ref.P, f, Options{Inline: md.inl(f), Known: m.byName, Budget: m.Budget})
			e := Compare(a, b)
			if j == 0 || len(e) == 0 {
				d = e
			}
			if len(e) == 0 || len(d) > 0 && strings.HasPrefix(d[0].What, "not analysable") {
				break
			}
		}
		r.Steps += a.Steps
		if len(d) == 0 {
			r.Level = md.n
			r.Diffs = nil
			return r
		}
		if r.Diffs == nil || notAnalysable(r) {
			r.Diffs = d
		}
		if notAnalysable(r) {
			break // more inlining will not help
		}
	}
	return r
}

// simple: a function of both programs that only computes one value.
func (m *Matcher) simple(fn *ssa.Function) bool {
	n := m.E.FnName(fn)
	for _, f := range []*ssa.Function{m.Cur.Fns[n], m.Ref.Fns[n]} {
		if f == nil || len(f.Blocks) != 1 {
			return false
		}
		for _, ins := range f.Blocks[0].Instrs {
			switch ins := ins.(type) {
			case *ssa.Call:
				if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			case *ssa.Store, *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Panic:
				return false
			}
		}
	}
	return true
}

// oneSided finds the functions that only one of the two versions of a
// function calls, where each looks into those.
func (m *Matcher) oneSided(cf, rf *ssa.Function) map[string]bool {
	d := map[string]bool{}
	leaves := func(root *ssa.Function) map[string]bool {
		out := map[string]bool{}
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					for _, o := range ins.Operands(nil) {
						f, ok := (*o).(*ssa.Function)
						if !ok || !m.own(f) {
							continue
						}
						n := m.E.FnName(f)
						if f.Parent() != nil || !m.known(f) || d[n] {
							visit(f)
						} else {
							out[n] = true
						}
					}
				}
			}
		}
		visit(root)
		return out
	}
	for i := 0; i < 5; i++ {
		a, b := leaves(cf), leaves(rf)
		n := len(d)
		for k := range a {
			if !b[k] {
				d[k] = true
			}
		}
		for k := range b {
			if !a[k] {
				d[k] = true
			}
		}
		if len(d) == n {
			break
		}
	}
	return d
}

// ComparePackage compares all functions of a package; unexported functions
// that differ are judged through their callers.
func (m *Matcher) ComparePackage(path string) (out []*FnResult) {
	pk := m.Ref.Pkgs[path]
	if pk == nil {
		return []*FnResult{{Name: path, Diffs: []Diff{{What: "package unknown to the reference"}}}}
	}
	if m.Cur.Pkgs[path] == nil {
		return []*FnResult{{Name: path, Diffs: []Diff{{What: "package no longer exists"}}}}
	}
	var names []string
	for _, f := range Functions(m.Ref.P.SSA, pk) {
		if _, alt := altOf(m.E.FnName(f)); !alt {
			names = append(names, m.E.FnName(f))
		}
	}
	for round := 0; round <= len(names); round++ {
		again := false
		out = nil
		var fresh []string
		for _, n := range names {
			if m.dissolve[n] {
				continue
			}
			r := m.Compare(n)
			if len(r.Diffs) > 0 {
				rf := m.Ref.Fns[n]
				cf := m.Cur.Fns[n]
				hidden := !rf.Object().Exported() && rf.Name() != "main" && rf.Name() != "init"
				gone := cf == nil || !sameSig(m.E, cf, rf)
				lvl := 0
				if round > 0 {
					lvl = 1 + m.calleeLevel(n)
				}
				if (hidden && lvl < maxLevel && !notAnalysable(r) || gone) && m.hasCaller(rf) {
					if m.Log != nil {
						m.Log("dissolving %s: %s", n, r.Diffs[0].What)
					}
					m.dissolve[n], m.level[n] = true, lvl
					m.first[n] = r.Diffs[0]
					fresh = append(fresh, n)
					again = true
					continue
				}
			}
			out = append(out, r)
		}
		if !again {
			out = append(out, m.judgeDissolved(path, out)...)
			return append(out, m.compareInit(path))
		}
		m.forget(fresh)
	}
	return out
}

// maxLevel: a difference is followed through this many callers that are
// unchanged themselves.
const maxLevel = 3

func notAnalysable(r *FnResult) bool {
	return len(r.Diffs) > 0 && (strings.HasPrefix(r.Diffs[0].What, "not analysable") || strings.HasPrefix(r.Diffs[0].What, "not comparable"))
}

// calleeLevel is the highest level of the dissolved functions n calls.
func (m *Matcher) calleeLevel(n string) (l int) {
	for d := range m.dissolve {
		if f := m.Ref.Fns[d]; f != nil && m.level[d] > l {
			for _, c := range m.callers(f) {
				if c == n {
					l = m.level[d]
				}
			}
		}
	}
	return
}

// users lists, by name of function or method, the functions that mention it.
func users(s *Side) map[string][]string {
	u := map[string][]string{}
	var visit func(name string, g *ssa.Function)
	visit = func(name string, g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					k := c.Common().Method.Name()
					u[k] = append(u[k], name)
				}
				for _, o := range ins.Operands(nil) {
					if f, ok := (*o).(*ssa.Function); ok {
						u[f.Name()] = append(u[f.Name()], name)
					}
				}
				if c, ok := ins.(*ssa.MakeInterface); ok { // its methods may be called elsewhere
					ms := g.Prog.MethodSets.MethodSet(c.X.Type())
					for i := 0; i < ms.Len(); i++ {
						k := ms.At(i).Obj().Name()
						u[k] = append(u[k], name)
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(name, a)
		}
	}
	for n, f := range s.Fns {
		visit(n, f)
	}
	return u
}

// forget drops the verdicts that depend on how the functions are called.
func (m *Matcher) forget(fns []string) {
	seen := map[string]bool{}
	for len(fns) > 0 {
		n := fns[0]
		fns = fns[1:]
		if seen[n] {
			continue
		}
		seen[n] = true
		delete(m.memo, n)
		for i, s := range []*Side{m.Ref, m.Cur} {
			if m.usersOf[i] == nil {
				m.usersOf[i] = users(s)
			}
			if f := s.Fns[n]; f != nil {
				fns = append(fns, m.usersOf[i][f.Name()]...)
			}
		}
	}
}

// hasCaller: a statically resolved call exists elsewhere in the package.
func (m *Matcher) hasCaller(fn *ssa.Function) bool {
	return len(m.callers(fn)) > 0
}

// callers lists the reference functions that call fn, by name.
func (m *Matcher) callers(fn *ssa.Function) (out []string) {
	if m.callersOf == nil {
		m.callersOf = map[*ssa.Function]map[string]bool{}
		var visit func(name string, g, f *ssa.Function)
		visit = func(name string, g, f *ssa.Function) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if t := c.Common().StaticCallee(); t != nil && t != f {
							if m.callersOf[t] == nil {
								m.callersOf[t] = map[string]bool{}
							}
							m.callersOf[t][name] = true
						}
					}
				}
			}
			for _, a := range g.AnonFuncs {
				visit(name, a, f)
			}
		}
		for n, f := range m.Ref.Fns {
			visit(n, f, f)
		}
	}
	for n := range m.callersOf[fn] {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}

// judgeDissolved gives each dissolved helper the verdict of the functions it
// was dissolved into.
func (m *Matcher) judgeDissolved(path string, res []*FnResult) (out []*FnResult) {
	bad := map[string]*FnResult{}
	for _, r := range res {
		if len(r.Diffs) > 0 {
			bad[r.Name] = r
		}
	}
	var names []string
	for n := range m.dissolve {
		if f := m.Ref.Fns[n]; f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == path {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r := &FnResult{Name: n, Level: "through its callers"}
		seen := map[string]bool{n: true}
		work := []string{n}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			for _, c := range m.callers(m.Ref.Fns[w]) {
				if seen[c] {
					continue
				}
				seen[c] = true
				b := bad[c]
				if f := m.Ref.Fns[c]; f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() != path && !m.dissolve[c] {
					if b = m.Compare(c); len(b.Diffs) == 0 {
						b = nil
					}
				}
				if b != nil {
					for _, d := range b.Diffs {
						r.Diffs = append(r.Diffs, Diff{"through " + c + ": " + d.What, d.Pos})
					}
				}
				if m.dissolve[c] {
					work = append(work, c)
				}
			}
		}
		if len(r.Diffs) > 0 {
			r.Diffs = append([]Diff{m.first[n]}, r.Diffs...)
		}
		out = append(out, r)
	}
	return
}

var altName = regexp.MustCompile(`^(.*)_alt\d+$`)

// altOf: f_alt1, f_alt2, ... in the reference are further forms of f, each
// equivalent to f for reasons that lie beyond the comparison; a function that
// equals one of them equals f.
func altOf(name string) (string, bool) {
	if s := altName.FindStringSubmatch(name); s != nil {
		return s[1], true
	}
	return "", false
}

// NewSide indexes the functions of a program.
func NewSide(e *Eng, prog *ssa.Program, pkgs map[string]*ssa.Package, module func(string) bool) *Side {
	s := &Side{P: NewProg(prog), Fns: map[string]*ssa.Function{}, Alts: map[string][]*ssa.Function{}, Pkgs: pkgs}
	s.P.Module = module
	for _, pk := range pkgs {
		for _, f := range Functions(prog, pk) {
			if of, ok := altOf(e.FnName(f)); ok {
				s.Alts[of] = append(s.Alts[of], f)
				continue
			}
			s.Fns[e.FnName(f)] = f
		}
	}
	return s
}

func (r *FnResult) String() string {
	if len(r.Diffs) == 0 {
		return fmt.Sprintf("%s: same (%s, %d steps)", r.Name, r.Level, r.Steps)
	}
	s := r.Name + ": DIFFERENT"
	for _, d := range r.Diffs {
		s += "\n    " + d.What
	}
	return s
}

// compareInit compares the initial values of package variables.
func (m *Matcher) compareInit(path string) *FnResult {
	r := &FnResult{Name: path + " (package variables)", Level: "modular"}
	m.Ref.P.findWritten()
	a, ok1 := m.Cur.P.initTable(m.E, m.Cur.Pkgs[path])
	b, ok2 := m.Ref.P.initTable(m.E, m.Ref.Pkgs[path])
	if !ok1 || !ok2 {
		return r
	}
	cur := map[string]*ssa.Global{}
	for g := range a {
		cur[g.Name()] = g
	}
	var names []string
	ref := map[string]*ssa.Global{}
	for g := range b {
		if g.Name() == "init$guard" || initialisable(derefType(g.Type())) && !m.Ref.P.written[g] {
			continue // constant tables are compared where they are read
		}
		ref[g.Name()] = g
		names = append(names, g.Name())
	}
	sort.Strings(names)
	c := newComparer(m.E)
	for _, n := range names {
		cg := cur[n]
		if cg == nil || m.E.TypeName(cg.Type()) != m.E.TypeName(ref[n].Type()) {
			continue
		}
		if va, vb := a[cg], b[ref[n]]; !c.valid(c.eqVal(va, vb)) {
			r.Diffs = append(r.Diffs, Diff{"initial value of " + n + ": " + c.whyVal(va, vb, True), cg.Pos()})
		}
	}
	return r
}
