package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
	"verif/checker/tmpl"
)

// The rule "no-shared-state": no function of a generated package, other than
// its initialisation, changes memory that belongs to a package variable or was
// captured at start-up, changes what a caller handed to an exported function
// (the input of a lexer, the lexer of a parser), uses state of the process, or
// starts a goroutine. Memory belongs to a package variable when it is the
// variable or is reached from it; what a function, field, channel or captured
// variable may hold is followed through the whole generated program.

type stateWalk struct {
	r      *run
	repo   *load.Repo
	fl     *flow
	why    map[ssa.Value]string // value -> the package variable it may belong to
	fields map[string]string
	rets   map[string]string
	again  bool
	args   bool // what callers hand in is followed instead of the package variables
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (w *stateWalk) get(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if w.args {
			return ""
		}
		return short1(g)
	}
	return w.why[v]
}

func short1(g *ssa.Global) string {
	p := strings.TrimPrefix(g.Pkg.Pkg.Path(), load.ModPath+"/")
	return strings.TrimPrefix(p, "zz_inst/") + "." + g.Name()
}

func (w *stateWalk) mark(v ssa.Value, g string) {
	if g == "" || w.why[v] != "" || !refLike(v.Type()) {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	w.why[v] = g
	w.again = true
}

func (w *stateWalk) markKey(m map[string]string, k, g string) {
	if g != "" && m[k] == "" {
		m[k] = g
		w.again = true
	}
}

func (w *stateWalk) step(f *ssa.Function, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.UnOp:
		w.mark(ins, w.get(ins.X))
		if a, ok := ins.X.(*ssa.FieldAddr); ok {
			w.mark(ins, w.fields[fieldKey(a.X, a.Field)])
		}
	case *ssa.FieldAddr:
		w.mark(ins, w.get(ins.X))
	case *ssa.Field:
		w.mark(ins, w.get(ins.X))
		w.mark(ins, w.fields[fieldKey(ins.X, ins.Field)])
	case *ssa.IndexAddr:
		w.mark(ins, w.get(ins.X))
	case *ssa.Index:
		w.mark(ins, w.get(ins.X))
	case *ssa.Lookup:
		w.mark(ins, w.get(ins.X))
	case *ssa.Slice:
		w.mark(ins, w.get(ins.X))
	case *ssa.Extract:
		w.mark(ins, w.get(ins.Tuple))
	case *ssa.Range:
		w.markAny(ins, w.get(ins.X))
	case *ssa.Next:
		w.markAny(ins, w.get(ins.Iter))
	case *ssa.Phi:
		for _, e := range ins.Edges {
			w.mark(ins, w.get(e))
		}
	case *ssa.MakeInterface:
		w.mark(ins, w.get(ins.X))
	case *ssa.ChangeInterface:
		w.mark(ins, w.get(ins.X))
	case *ssa.ChangeType:
		w.mark(ins, w.get(ins.X))
	case *ssa.TypeAssert:
		w.mark(ins, w.get(ins.X))
	case *ssa.Store:
		g := w.get(ins.Val)
		if g == "" || !refLike(ins.Val.Type()) {
			return
		}
		switch a := ins.Addr.(type) {
		case *ssa.FieldAddr:
			w.markKey(w.fields, fieldKey(a.X, a.Field), g)
		case *ssa.IndexAddr: // an element of a list: the list may lead there
			w.markCell(a.X, g)
		case *ssa.Alloc:
			w.mark(a, "") // the cell is the function's own; loads see what it holds
			for _, u := range *a.Referrers() {
				if l, ok := u.(*ssa.UnOp); ok && l.X == a {
					w.mark(l, g)
				}
			}
		case *ssa.FreeVar:
			for _, u := range *a.Referrers() {
				if l, ok := u.(*ssa.UnOp); ok && l.X == a {
					w.mark(l, g)
				}
			}
		}
	case *ssa.MakeClosure:
		fn := ins.Fn.(*ssa.Function)
		for i, b := range ins.Bindings {
			w.mark(fn.FreeVars[i], w.get(b))
		}
	case *ssa.Return:
		for i, v := range ins.Results {
			if refLike(v.Type()) {
				w.markKey(w.rets, fmt.Sprint(fullName(f), "#", i), w.get(v))
			}
		}
	}
	if c, ok := ins.(ssa.CallInstruction); ok {
		cc := c.Common()
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		v, isv := ins.(ssa.Value)
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" && isv {
			// what is appended is copied; elements that lead to package
			// variables stay what they are
			w.mark(v, w.get(args[0]))
			return
		}
		for _, g := range w.fl.callees[c] {
			for i, a := range args {
				if i < len(g.Params) {
					w.mark(g.Params[i], w.get(a))
				}
			}
			if !isv {
				continue
			}
			rs := g.Signature.Results()
			if rs.Len() == 1 {
				w.mark(v, w.rets[fmt.Sprint(fullName(g), "#0")])
			} else {
				for _, u := range *v.Referrers() {
					if e, ok := u.(*ssa.Extract); ok {
						w.mark(e, w.rets[fmt.Sprint(fullName(g), "#", e.Index)])
					}
				}
			}
		}
	}
}

func (w *stateWalk) markAny(v ssa.Value, g string) {
	if g != "" && w.why[v] == "" {
		w.why[v] = g
		w.again = true
	}
}

// markCell: a list that holds references to package variables; only loads of
// its elements are affected.
func (w *stateWalk) markCell(x ssa.Value, g string) {
	rs := x.Referrers()
	if rs == nil {
		return
	}
	for _, u := range *rs {
		if a, ok := u.(*ssa.IndexAddr); ok && a.X == x {
			for _, l := range *a.Referrers() {
				if l, ok := l.(*ssa.UnOp); ok && l.X == a {
					w.mark(l, g)
				}
			}
		}
	}
}

// readers: library functions that change nothing they are handed.
func reader(f *ssa.Function) bool {
	if f.Pkg == nil && f.Object() == nil {
		return false
	}
	p := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		p = f.Object().Pkg().Path()
	}
	switch p {
	case "fmt", "strings", "unicode", "unicode/utf8", "strconv", "errors", "path", "path/filepath", "math", "bytes":
		return true
	case "sort":
		return strings.HasPrefix(f.Name(), "Search") || strings.HasSuffix(f.Name(), "AreSorted") || strings.HasSuffix(f.Name(), "IsSorted")
	}
	return false
}

func (w *stateWalk) writes(f *ssa.Function) {
	n := 0
	rep := func(ins ssa.Instruction, g, how string) {
		n++
		p := ins.Pos()
		if !p.IsValid() {
			p = f.Pos()
		}
		if w.args {
			w.r.report(fmt.Sprintf("state|%s|%s|%d", short(f), g, n), w.repo.Pos(p), "%s %s of the caller, handed in as %s: the next parse of it would see the change", strings.ReplaceAll(short(f), "zz_inst/", ""), how, g)
			return
		}
		w.r.report(fmt.Sprintf("state|%s|%s|%d", short(f), g, n), w.repo.Pos(p), "%s %s, which belongs to the package variable %s: two parses would share it", strings.ReplaceAll(short(f), "zz_inst/", ""), how, g)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			w.r.steps++
			switch ins := ins.(type) {
			case *ssa.Store:
				if g := w.get(ins.Addr); g != "" {
					rep(ins, g, "stores to memory")
				}
			case *ssa.MapUpdate:
				if g := w.get(ins.Map); g != "" {
					rep(ins, g, "changes a map")
				}
			case *ssa.Send:
				if g := w.get(ins.Chan); g != "" {
					rep(ins, g, "sends to a channel")
				}
			case *ssa.Go:
				if w.args {
					continue
				}
				rep(ins, "(goroutine)", "starts a goroutine")
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append", "copy", "delete", "clear", "close":
					if g := w.get(cc.Args[0]); g != "" {
						rep(ins, g, "may change (by "+bi.Name()+") memory")
					}
				}
				continue
			}
			for _, g := range w.fl.callees[c] {
				if s := sharedState(g); s != "" && !w.args {
					w.r.report("state|"+short(f)+"|"+fullName(g), w.repo.Pos(ins.Pos()), "%s calls %s: it depends on or changes %s, which all parses share", strings.ReplaceAll(short(f), "zz_inst/", ""), fullName(g), s)
				}
				if len(g.Blocks) > 0 || reader(g) {
					continue
				}
				for _, a := range cc.Args {
					if v := w.get(a); v != "" && refLike(a.Type()) {
						rep(ins, v, "hands to "+fullName(g)+" memory")
					}
				}
			}
		}
	}
}

func ruleState(r *run, repo *load.Repo, pkgs []string) {
	var roots []*ssa.Function
	for _, p := range pkgs {
		sp := repo.SSA[tmpl.Root+p]
		if sp == nil {
			r.report("state|"+p, "", "the package %s is not generated", p)
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Name() != "init" && !strings.HasPrefix(m.Name(), "init#") {
					roots = append(roots, m)
				}
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := repo.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := repo.Prog.MethodValue(ms.At(i)); f != nil {
							roots = append(roots, f)
						}
					}
				}
			}
		}
	}
	var fns, inits []*ssa.Function
	for _, p := range pkgs {
		if sp := repo.SSA[tmpl.Root+p]; sp != nil {
			for _, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
					inits = append(inits, f)
				}
			}
		}
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].String() < inits[j].String() })
	start := newFlow(repo, inits)
	for _, f := range start.taken { // kept in tables and called later
		if own(f) {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	fl := newFlow(repo, roots)
	for f := range fl.reach {
		if len(f.Blocks) > 0 && f.Name() != "init" {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	w := newStateWalk(r, repo, fl)
	for f := range start.reach {
		w.captured(f)
	}
	w.run(fns)
	vars := map[string]bool{}
	for _, g := range w.why {
		vars[g] = true
	}
	// what a caller hands in: the input of a lexer, the lexer of a parser
	a := newStateWalk(r, repo, fl)
	a.args = true
	for _, f := range roots {
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		ps := f.Params
		if f.Signature.Recv() != nil {
			ps = ps[1:]
		}
		for _, p := range ps {
			a.mark(p, strings.ReplaceAll(short(f), "zz_inst/", "")+"("+p.Name()+")")
		}
	}
	a.run(fns)
	args := map[string]bool{}
	for _, g := range a.why {
		args[g] = true
	}
	r.units = append(r.units, map[string]interface{}{"rule": "no-shared-state", "functions": len(fns), "start_up_functions": len(inits), "generated_packages": pkgs, "package_variables_read": len(vars), "arguments_followed": len(args)})
}

func newStateWalk(r *run, repo *load.Repo, fl *flow) *stateWalk {
	return &stateWalk{r: r, repo: repo, fl: fl, why: map[ssa.Value]string{}, fields: map[string]string{}, rets: map[string]string{}}
}

func (w *stateWalk) run(fns []*ssa.Function) {
	for i := 0; i < 100; i++ {
		w.again = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					w.step(f, ins)
				}
			}
		}
		if !w.again {
			break
		}
	}
	for _, f := range fns {
		w.r.obl++
		w.writes(f)
	}
}

// captured: a closure that outlives the start-up function that makes it keeps
// what it captured for as long as the program runs.
func (w *stateWalk) captured(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.MakeClosure)
			if !ok || !escapes(c, map[ssa.Value]bool{}) {
				continue
			}
			fn := c.Fn.(*ssa.Function)
			for _, v := range fn.FreeVars {
				if w.why[v] == "" {
					w.why[v] = v.Name() + " (captured at start-up in " + strings.ReplaceAll(short(f), "zz_inst/", "") + ")"
				}
			}
		}
	}
}

// escapes: v is returned, or stored anywhere but in a variable of the function.
func escapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Return, *ssa.MapUpdate:
			return true
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			a, ok := u.Addr.(*ssa.Alloc)
			if !ok || a.Heap {
				return true
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface:
			if escapes(u.(ssa.Value), seen) {
				return true
			}
		}
	}
	return false
}

// sharedState: library functions that work on what belongs to the process.
func sharedState(f *ssa.Function) string {
	if f.Object() == nil || f.Object().Pkg() == nil {
		return ""
	}
	switch f.Object().Pkg().Path() {
	case "os":
		switch f.Name() {
		case "Getenv", "LookupEnv", "Environ", "Setenv", "Unsetenv", "Clearenv", "ExpandEnv":
			return "the environment of the process"
		case "Chdir", "Getwd":
			return "the working directory of the process"
		}
	case "math/rand", "math/rand/v2":
		if f.Signature.Recv() == nil && !strings.HasPrefix(f.Name(), "New") {
			return "the random numbers of the process"
		}
	case "time":
		if f.Name() == "Now" || f.Name() == "Since" || f.Name() == "Until" {
			return "the clock"
		}
	case "runtime", "runtime/debug":
		switch f.Name() {
		case "NumGoroutine", "ReadMemStats", "GOMAXPROCS", "SetGCPercent", "SetMaxStack", "GC":
			return "the run-time system"
		}
	case "log", "flag":
		if f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "Set") || f.Name() == "Parse" {
			return f.Object().Pkg().Name() + " package"
		}
	}
	return ""
}
