package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// flow is the call structure of the tool, for the rules.
type flow struct {
	repo    *load.Repo
	fns     []*ssa.Function // of the module, reachable from main.main
	reach   map[*ssa.Function]bool
	callees map[ssa.CallInstruction][]*ssa.Function
	taken   []*ssa.Function // functions used as values
	noRet   map[*ssa.Function]int
	says    map[*ssa.Function]int
}

func own(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), load.ModPath)
}

// newFlow starts from some functions and follows every call.
func newFlow(repo *load.Repo, roots []*ssa.Function) *flow {
	fl := &flow{repo: repo, reach: map[*ssa.Function]bool{}, callees: map[ssa.CallInstruction][]*ssa.Function{}, noRet: map[*ssa.Function]int{}, says: map[*ssa.Function]int{}}
	var impls []types.Type
	for _, sp := range repo.SSA {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok && !types.IsInterface(t.Type()) {
				if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				impls = append(impls, t.Type(), types.NewPointer(t.Type()))
			}
		}
	}
	for _, sp := range repo.SSA {
		if f := sp.Func("init"); f != nil && strings.HasPrefix(sp.Pkg.Path(), load.ModPath) && roots == nil {
			roots = append(roots, f)
		}
	}
	// functions used as values
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	var work []*ssa.Function
	scan = func(f *ssa.Function) {
		if f == nil || fl.reach[f] {
			return
		}
		fl.reach[f] = true
		work = append(work, f)
	}
	for _, f := range roots {
		scan(f)
	}
	var dyn []ssa.CallInstruction
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, isCall := ins.(ssa.CallInstruction)
				for _, o := range ins.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && !(isCall && c.Common().Value == g && !c.Common().IsInvoke()) && !seen[g] {
						seen[g] = true
						fl.taken = append(fl.taken, g)
						scan(g)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if !seen[g] {
						seen[g] = true
						fl.taken = append(fl.taken, g)
					}
					scan(g)
				}
				if !isCall {
					continue
				}
				cc := c.Common()
				if g := cc.StaticCallee(); g != nil {
					fl.callees[c] = []*ssa.Function{g}
					scan(g)
				} else if cc.IsInvoke() {
					it, _ := cc.Value.Type().Underlying().(*types.Interface)
					for _, t := range impls {
						if it != nil && types.Implements(t, it) {
							if g := repo.Prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); g != nil {
								fl.callees[c] = append(fl.callees[c], g)
								scan(g)
							}
						}
					}
				} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
					dyn = append(dyn, c)
				}
			}
		}
	}
	for _, c := range dyn {
		sig := c.Common().Signature()
		for _, g := range fl.taken {
			if types.Identical(sig, sigNoRecv(g)) {
				fl.callees[c] = append(fl.callees[c], g)
			}
		}
	}
	for f := range fl.reach {
		if own(f) && len(f.Blocks) > 0 {
			fl.fns = append(fl.fns, f)
		}
	}
	sort.Slice(fl.fns, func(i, j int) bool {
		if fl.fns[i].Pos() != fl.fns[j].Pos() {
			return fl.fns[i].Pos() < fl.fns[j].Pos()
		}
		return fl.fns[i].String() < fl.fns[j].String()
	})
	return fl
}

func sigNoRecv(f *ssa.Function) *types.Signature {
	s := f.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// tool is the call structure of the tool itself.
func (r *run) tool() *flow {
	if r.flow == nil {
		mp := r.cur.SSA[load.ModPath]
		if mp == nil || mp.Func("main") == nil {
			panic("no main function")
		}
		r.flow = newFlow(r.cur, []*ssa.Function{mp.Func("main"), mp.Func("init")})
	}
	return r.flow
}

func fullName(f *ssa.Function) string { return f.RelString(nil) }

func short(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fullName(f), load.ModPath+"/", ""), load.ModPath+".", "main.")
}

// exits says how a call ends the program: 0 not, 1 with a failure, 2 with success.
func (fl *flow) exits(c ssa.CallInstruction) int {
	fs := fl.callees[c]
	if f := c.Common().StaticCallee(); f != nil {
		fs = []*ssa.Function{f}
	}
	if len(fs) == 0 {
		return 0
	}
	res := -1
	for _, f := range fs {
		k := 0
		switch fullName(f) {
		case "os.Exit":
			k = 1
			if !fl.failure(c.Common().Args[0], 0) {
				k = 2
			}
		case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
			k = 1
		default:
			k = fl.never(f)
		}
		if res >= 0 && res != k {
			return 0
		}
		res = k
	}
	return res
}

// failure: the exit status is certainly not zero.
func (fl *flow) failure(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return false
		}
		n, ok := constant.Int64Val(constant.ToInt(v.Value))
		return ok && n&0xff != 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !fl.failure(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Convert:
		return fl.failure(v.X, depth+1)
	case *ssa.ChangeType:
		return fl.failure(v.X, depth+1)
	case *ssa.Parameter:
		f := v.Parent()
		k, n := -1, 0
		for i, p := range f.Params {
			if p == v {
				k = i
			}
		}
		for c, gs := range fl.callees {
			for _, g := range gs {
				if g != f {
					continue
				}
				n++
				if len(c.Common().Args) != len(f.Params) || !fl.failure(c.Common().Args[k], depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// never: 0 the function may return, 1 it ends in a failure on every path,
// 2 it ends the program, perhaps with success.
func (fl *flow) never(f *ssa.Function) int {
	if len(f.Blocks) == 0 || f.Recover != nil {
		return 0
	}
	if k, ok := fl.noRet[f]; ok {
		return k
	}
	fl.noRet[f] = 0
	k := 1
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 && k != 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		cut := false
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Return:
				k = 0
			case *ssa.Call:
				switch fl.exits(ins) {
				case 1:
					cut = true
				case 2:
					cut, k = true, 2
				}
			}
			if cut || k == 0 {
				break
			}
		}
		if !cut {
			work = append(work, b.Succs...)
		}
	}
	fl.noRet[f] = k
	return k
}

// prints: the call may print something.
func (fl *flow) prints(c ssa.CallInstruction) bool {
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return strings.HasPrefix(b.Name(), "print")
	}
	for _, f := range fl.callees[c] {
		if fl.printer(f) {
			return true
		}
	}
	return false
}

func (fl *flow) printer(f *ssa.Function) bool {
	n := fullName(f)
	if strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.") || n == "(*os.File).WriteString" || n == "io.WriteString" {
		return true
	}
	if k, ok := fl.says[f]; ok {
		return k == 1
	}
	fl.says[f] = 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && fl.prints(c) {
				fl.says[f] = 1
				return true
			}
		}
	}
	return false
}
