package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rule "order-free": the order in which a map or a set hands out its
// elements reaches nothing the tool writes. Every loop over a map, and over a
// list that was filled in such a loop and not sorted since, may only do what
// has the same result in every order: put elements into sets or under their
// own key, set flags, count, collect a list that is sorted before it is used.

type detWalk struct {
	r     *run
	fl    *flow
	lists map[ssa.Value]string // lists in no particular order -> where the order comes from
	field map[string]string    // fields that hold such lists
	rets  map[string]string
	again bool
	comm  map[*ssa.Function]int // 0 unknown, 1 commutes, 2 does not, 3 busy
	why   map[*ssa.Function]string
	bad   map[string][2]string
	data  map[string]bool // struct types that templates see
	loops map[*ssa.Function][]*detLoop
	nloop int
	skip  map[string]bool
}

type detLoop struct {
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

func natLoops(f *ssa.Function) []*detLoop {
	m := map[*ssa.BasicBlock]*detLoop{}
	var heads []*ssa.BasicBlock
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &detLoop{s, map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
				heads = append(heads, s)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.in[x] {
					continue
				}
				l.in[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var out []*detLoop
	for _, h := range heads {
		out = append(out, m[h])
	}
	return out
}

func (w *detWalk) report(f *ssa.Function, pos token.Pos, src, what string) {
	if !pos.IsValid() {
		pos = f.Pos()
	}
	k := fmt.Sprintf("order-free|%s|%s|%s", short(f), src, what)
	w.bad[k] = [2]string{w.r.cur.Pos(pos), fmt.Sprintf("%s: %s, where the order is that of %s", short(f), what, src)}
}

func (w *detWalk) list(v ssa.Value) string { return w.lists[v] }

func (w *detWalk) mark(v ssa.Value, src string) {
	if src == "" || w.lists[v] != "" {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	w.lists[v] = src
	w.again = true
}

// unordered library results
func elementsCall(c *ssa.Call) string {
	f := c.Call.StaticCallee()
	if f == nil || own(f) {
		return ""
	}
	n := fullName(f)
	if strings.HasPrefix(n, "(*github.com/goccmack/goutil/stringset.StringSet).Elements") && !strings.Contains(n, "Sorted") {
		return "the elements of a string set"
	}
	switch n {
	case "maps.Keys", "maps.Values", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values", "(reflect.Value).MapKeys":
		return "a map"
	}
	return ""
}

// clock: the call yields something different on every run.
func clock(f *ssa.Function) bool {
	n := fullName(f)
	for _, p := range []string{"time.Now", "time.Since", "math/rand.", "(*math/rand.", "crypto/rand.", "os.Getpid", "os.Getppid", "os.Getuid", "os.Geteuid", "os.Getgid", "os.Hostname", "os.Getwd", "os.Environ", "os.Getenv", "os.LookupEnv", "os.ExpandEnv",
		"os.UserHomeDir", "os.UserCacheDir", "os.UserConfigDir", "os.TempDir", "os.Executable", "os/user.", "runtime.NumGoroutine", "runtime.Version", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.Stack", "runtime.MemStats", "runtime.ReadMemStats",
		"runtime/debug.", "math/rand/v2.", "(*math/rand/v2.", "hash/maphash.", "(*hash/maphash.", "time.Until", "os.MkdirTemp", "os.CreateTemp", "io/ioutil.TempFile", "io/ioutil.TempDir"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func sorts(f *ssa.Function) bool {
	switch fullName(f) {
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Float64s":
		return true
	}
	return strings.HasPrefix(f.Name(), "Sort[") || strings.HasPrefix(f.Name(), "SortFunc[")
}

// onlySorts: v is handed to calls that sort and used for nothing else.
func onlySorts(v ssa.Value) bool {
	for _, x := range *v.Referrers() {
		if _, ok := x.(*ssa.DebugRef); ok {
			continue
		}
		c, is := x.(*ssa.Call)
		if !is || c.Call.StaticCallee() == nil || !sorts(c.Call.StaticCallee()) {
			return false
		}
	}
	return true
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// ties: why a sort may leave two different elements in either order: the
// comparison has to look at every field that has an order.
func ties(c *ssa.Call) string {
	list := strip(c.Call.Args[0])
	sl, ok := list.Type().Underlying().(*types.Slice)
	if !ok {
		return "sorts something that is not a list"
	}
	var less *ssa.Function
	switch n := fullName(c.Call.StaticCallee()); {
	case n == "sort.Strings" || n == "sort.Ints" || n == "sort.Float64s" || strings.HasPrefix(n, "slices.Sort[") || n == "slices.Sort":
		return ""
	case n == "sort.Slice" || n == "sort.SliceStable" || strings.Contains(n, "SortFunc") || strings.Contains(n, "SortStableFunc"):
		switch f := strip(c.Call.Args[len(c.Call.Args)-1]).(type) {
		case *ssa.MakeClosure:
			less, _ = f.Fn.(*ssa.Function)
		case *ssa.Function:
			less = f
		}
	default:
		less = c.Parent().Prog.LookupMethod(list.Type(), c.Parent().Pkg.Pkg, "Less")
		if less == nil {
			if named, ok := list.Type().(*types.Named); ok {
				less = c.Parent().Prog.LookupMethod(list.Type(), named.Obj().Pkg(), "Less")
			}
		}
	}
	if less == nil || len(less.Blocks) == 0 {
		return "sorts by an unknown comparison"
	}
	need := map[int]string{}
	st, isStruct := sl.Elem().Underlying().(*types.Struct)
	if isStruct {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Basic); ok {
				need[i] = st.Field(i).Name()
			}
		}
	} else if _, ok := sl.Elem().Underlying().(*types.Basic); ok {
		need[-1] = "the element"
	} else {
		need[-2] = "the element"
	}
	fs := []*ssa.Function{less}
	for n := 0; n < len(fs) && n < 20; n++ {
		for _, ins := range instrs(fs[n]) {
			switch x := ins.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					if i, ok := elemField(x.X); ok {
						if j, ok := elemField(x.Y); ok && i == j {
							delete(need, i)
						}
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) == 2 && (strings.HasPrefix(fullName(g), "cmp.") || fullName(g) == "strings.Compare") {
					if i, ok := elemField(x.Call.Args[0]); ok {
						if j, ok := elemField(x.Call.Args[1]); ok && i == j {
							delete(need, i)
						}
					}
				} else if g != nil && own(g) {
					fs = append(fs, g)
				}
			}
		}
	}
	if len(need) == 0 {
		return ""
	}
	var ns []string
	for _, n := range need {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return "sorts without looking at " + strings.Join(ns, ", ")
}

func instrs(f *ssa.Function) (l []ssa.Instruction) {
	for _, b := range f.Blocks {
		l = append(l, b.Instrs...)
	}
	return
}

// elemField: v is an element of a list (-1), or a field of it.
func elemField(v ssa.Value) (int, bool) {
	switch x := v.(type) {
	case *ssa.Parameter:
		return -1, true
	case *ssa.Convert:
		return elemField(x.X)
	case *ssa.ChangeType:
		return elemField(x.X)
	case *ssa.Field:
		if i, ok := elemField(x.X); ok && i == -1 {
			return x.Field, true
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0, false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return -1, true
		case *ssa.FieldAddr:
			switch e := a.X.(type) {
			case *ssa.IndexAddr, *ssa.Parameter:
				return a.Field, true
			case *ssa.Alloc:
				for _, u := range *e.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(e) {
						if i, ok := elemField(st.Val); ok && i == -1 {
							return a.Field, true
						}
					}
				}
			case *ssa.UnOp:
				if _, ok := e.X.(*ssa.IndexAddr); ok {
					return a.Field, true
				}
			}
		case *ssa.Alloc:
			// a local copy
			for _, u := range *a.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					return elemField(st.Val)
				}
			}
		}
	}
	return 0, false
}

// sortedBefore: some sort of the same list dominates the use.
func sortedBefore(v ssa.Value, use ssa.Instruction) bool {
	for _, b := range use.Parent().Blocks {
		for i, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || !sorts(f) || len(c.Call.Args) == 0 || !sameList(strip(c.Call.Args[0]), v) || ties(c) != "" {
				continue
			}
			if b == use.Block() {
				for _, u := range b.Instrs[i+1:] {
					if u == use {
						return true
					}
				}
			} else if b.Dominates(use.Block()) {
				return true
			}
		}
	}
	return false
}

// sameList: one variable, read twice.
func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		if x.X == y.X {
			return true
		}
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && f.X == g.X && f.Field == g.Field
	}
	return false
}

// invariant: the value is the same in every turn of the loop.
func invariant(v ssa.Value, l *detLoop) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Parameter, *ssa.FreeVar, *ssa.Builtin:
		return true
	case *ssa.MakeInterface:
		return invariant(v.X, l)
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && isZeroStruct(a) {
			return true
		}
		if ins := ssa.Instruction(v); l == nil || !l.in[ins.Block()] {
			return l != nil
		}
		return false
	case ssa.Instruction:
		return l != nil && !l.in[v.Block()]
	}
	return false
}

func isZeroStruct(a *ssa.Alloc) bool {
	st, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

// element: v is what the loop goes over, or a part or copy of it that is
// different in every turn.
func (w *detWalk) element(v ssa.Value, keys map[ssa.Value]bool) bool {
	for i := 0; i < 10; i++ {
		if keys[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return false
		}
	}
	return false
}

// loop judges one loop whose turns come in no particular order. keys holds
// the values that are different in every turn.
func (w *detWalk) loop(f *ssa.Function, l *detLoop, keys map[ssa.Value]bool, src string, ind map[ssa.Value]bool) {
	w.nloop++
	dies := deadBlocks(w.fl, f)
	// values carried from turn to turn
	okPhi := map[ssa.Value]bool{}
	for _, ins := range l.head.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if ind[p] {
			continue
		}
		if why := w.carried(p, l, dies); why != "" {
			w.report(f, p.Pos(), src, why)
		} else {
			okPhi[p] = true
			if _, ok := p.Type().Underlying().(*types.Slice); ok && !constCarried(p, l) {
				w.mark(p, src)
			}
		}
	}
	var returned []ssa.Value
	haveRet := false
	var blocks []*ssa.BasicBlock
	for b := range l.in {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	// blocks that leave the loop by returning belong to it
	inl := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		inl[b] = true
	}
	for i := 0; i < len(blocks); i++ {
		b := blocks[i]
		for _, s := range b.Succs {
			if !inl[s] && b != l.head && l.head.Dominates(s) && len(s.Preds) == 1 {
				if _, ok := s.Instrs[len(s.Instrs)-1].(*ssa.Return); ok {
					inl[s] = true
					blocks = append(blocks, s)
				}
			}
		}
	}
	for _, b := range blocks {
		if dies[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if why := w.effect(f, ins, l, keys, false); why != "" {
				w.report(f, ins.Pos(), src, why)
			}
			if rt, ok := ins.(*ssa.Return); ok {
				for i, v := range rt.Results {
					same := invariant(v, l)
					if haveRet && i < len(returned) && !sameConst(returned[i], v) {
						same = false
					}
					if !same {
						w.report(f, rt.Pos(), src, "returns from the loop with a value that depends on the turn")
						break
					}
				}
				returned, haveRet = rt.Results, true
			}
			// a value computed in the loop and used after it
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			if okPhi[v] || ind[v] || !l.in[b] {
				continue
			}
			if c, ok := v.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && w.lists[v] != "" {
					continue
				}
			}
			for _, u := range *v.Referrers() {
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				if ub := u.Block(); ub != nil && !l.in[ub] && !inl[ub] && !dies[ub] {
					if a, ok := v.(*ssa.Alloc); ok && a != nil {
						continue
					}
					if b == l.head && !usesKey(v, keys) {
						continue
					}
					w.report(f, u.Pos(), src, "uses after the loop what the last turn left")
				}
			}
		}
		// leaving the loop in the middle
		for _, s := range b.Succs {
			if inl[s] || b == l.head || dies[s] {
				continue
			}
			for _, ins := range s.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range s.Preds {
					if pr == b && !invariant(p.Edges[i], l) && !okPhi[p.Edges[i]] {
						w.report(f, p.Pos(), src, "leaves the loop with a value that depends on the turn")
					}
					if pr == b && okPhi[p.Edges[i]] && !constCarried(p.Edges[i].(*ssa.Phi), l) {
						w.report(f, p.Pos(), src, "leaves the loop with what was collected so far")
					}
				}
			}
		}
	}
}

func usesKey(v ssa.Value, keys map[ssa.Value]bool) bool { return keys[v] }

func sameConst(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 {
		return false
	}
	if x.Value == nil || y.Value == nil {
		return x.Value == nil && y.Value == nil
	}
	return constant.Compare(x.Value, token.EQL, y.Value)
}

// constCarried: every turn keeps the value or sets it to one constant.
func constCarried(p *ssa.Phi, l *detLoop) bool {
	var c ssa.Value
	ok := true
	seen := map[ssa.Value]bool{p: true}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		if q, is := v.(*ssa.Phi); is && l.in[q.Block()] {
			seen[v] = true
			for _, e := range q.Edges {
				visit(e)
			}
			return
		}
		if !invariant(v, l) || c != nil && !sameConst(c, v) {
			ok = false
			return
		}
		c = v
	}
	for i, pr := range l.head.Preds {
		if l.in[pr] {
			visit(p.Edges[i])
		}
	}
	return ok
}

// carried: why the value a loop carries from turn to turn depends on the
// order of the turns.
func (w *detWalk) carried(p *ssa.Phi, l *detLoop, dies map[*ssa.BasicBlock]bool) string {
	if constCarried(p, l) || fold(p, l, dies) {
		return ""
	}
	kind := ""
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == p || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !l.in[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !visit(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if isIntT(v.Type()) && (v.Op == token.ADD || v.Op == token.OR || v.Op == token.AND || v.Op == token.XOR || v.Op == token.MUL) {
				op := "sum" + v.Op.String()
				if kind != "" && kind != op {
					return false
				}
				kind = op
				return visit(v.X) && !dependsOn(v.Y, p, l) || visit(v.Y) && !dependsOn(v.X, p, l)
			}
			return false
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if kind != "" && kind != "list" {
					return false
				}
				kind = "list"
				return visit(v.Call.Args[0]) && !dependsOn(v.Call.Args[1], p, l)
			}
			return false
		}
		return false
	}
	for i, pr := range l.head.Preds {
		if l.in[pr] && !dies[pr] && !visit(p.Edges[i]) {
			return "carries " + name(p) + " from turn to turn"
		}
	}
	return ""
}

// fold: the value is a conjunction, a disjunction, a least or a greatest of
// something over the turns.
func fold(p *ssa.Phi, l *detLoop, dies map[*ssa.BasicBlock]bool) bool {
	var c *ssa.Const
	kind := ""
	is := func(k string) bool {
		if kind != "" && kind != k {
			return false
		}
		kind = k
		return true
	}
	// guarded: the block is only reached when the test has the outcome
	guarded := func(b *ssa.BasicBlock, test func(cond ssa.Value, outcome bool) bool) bool {
		for x := range l.in {
			f, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			for i, s := range x.Succs {
				if len(s.Preds) == 1 && s.Dominates(b) && test(f.Cond, i == 0) {
					return true
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{p: true}
	var visit func(v ssa.Value, from *ssa.BasicBlock) bool
	visit = func(v ssa.Value, from *ssa.BasicBlock) bool {
		if v == p {
			return true
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if !l.in[v.Block()] {
				break
			}
			if seen[v] {
				return true
			}
			seen[v] = true
			for i, e := range v.Edges {
				if !visit(e, v.Block().Preds[i]) {
					return false
				}
			}
			return true
		case *ssa.Const:
			if !isBoolT(v.Type()) || c != nil && !sameConst(c, v) {
				return false
			}
			c = v
			return is("bool")
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") && len(v.Call.Args) == 2 {
				x, y := v.Call.Args[0], v.Call.Args[1]
				return is(b.Name()) && (x == p && !dependsOn(y, p, l) || y == p && !dependsOn(x, p, l))
			}
		}
		if dependsOn(v, p, l) {
			return false
		}
		if isBoolT(v.Type()) {
			return is("bool") && guarded(from, func(cond ssa.Value, outcome bool) bool {
				if cond != ssa.Value(p) {
					return false
				}
				want := ssa.NewConst(constant.MakeBool(!outcome), cond.Type())
				if c != nil && !sameConst(c, want) {
					return false
				}
				c = want
				return true
			})
		}
		return guarded(from, func(cond ssa.Value, outcome bool) bool {
			b, ok := cond.(*ssa.BinOp)
			if !ok {
				return false
			}
			gt := b.Op == token.GTR || b.Op == token.GEQ
			if !gt && b.Op != token.LSS && b.Op != token.LEQ {
				return false
			}
			if b.X == ssa.Value(p) && b.Y == v {
				gt = !gt
			} else if b.X != v || b.Y != ssa.Value(p) {
				return false
			}
			if gt == outcome {
				return is("max")
			}
			return is("min")
		})
	}
	for i, pr := range l.head.Preds {
		if l.in[pr] && !dies[pr] && !visit(p.Edges[i], pr) {
			return false
		}
	}
	return true
}

func name(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return "a value"
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func dependsOn(v ssa.Value, p *ssa.Phi, l *detLoop) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		ins, ok := v.(ssa.Instruction)
		if !ok || !l.in[ins.Block()] {
			return false
		}
		for _, o := range ins.Operands(nil) {
			if *o != nil && visit(*o) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

func deadBlocks(fl *flow, f *ssa.Function) map[*ssa.BasicBlock]bool {
	return (&orderWalk{fl: fl}).dead(f)
}

// fresh: memory made by the function itself (in the loop, if there is one).
func fresh(v ssa.Value, l *detLoop) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return l == nil || l.in[x.Block()]
		case *ssa.MakeMap:
			return l == nil || l.in[x.Block()]
		case *ssa.MakeSlice:
			return l == nil || l.in[x.Block()]
		default:
			return false
		}
	}
}

// effect: why an instruction of an unordered loop (or of a function called
// there, where l is nil) has an effect that depends on the order.
func (w *detWalk) effect(f *ssa.Function, ins ssa.Instruction, l *detLoop, keys map[ssa.Value]bool, callee bool) string {
	switch ins := ins.(type) {
	case *ssa.Store:
		if fresh(ins.Addr, l) {
			return ""
		}
		if c, ok := ins.Val.(*ssa.Const); ok && (c.Value == nil || c.Value.Kind() == constant.Bool) {
			return ""
		}
		if !callee && invariant(ins.Val, l) && invariant(ins.Addr, l) {
			return ""
		}
		if ia, ok := ins.Addr.(*ssa.IndexAddr); ok && w.element(ia.Index, keys) {
			return ""
		}
		if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && w.element(fa.X, keys) {
			return ""
		}
		if counts(ins) || sortedAfter(ins) {
			return ""
		}
		if b, ok := ins.Val.(*ssa.BinOp); ok && isBoolT(ins.Val.Type()) && (b.Op == token.OR || b.Op == token.AND) {
			return ""
		}
		// a list kept in a variable of the function that is sorted later
		if a, ok := ins.Addr.(*ssa.Alloc); ok && !callee {
			if c, ok := ins.Val.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					for _, u := range *a.Referrers() {
						if ld, ok := u.(*ssa.UnOp); ok && (l == nil || !l.in[ld.Block()]) {
							w.mark(ld, "a loop in no order")
						}
					}
					return ""
				}
			}
		}
		return "stores to memory"
	case *ssa.MapUpdate:
		if fresh(ins.Map, l) || w.element(ins.Key, keys) || invariant(ins.Value, l) {
			return ""
		}
		if c, ok := ins.Value.(*ssa.Const); ok && c != nil {
			return ""
		}
		if u, ok := ins.Value.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.Alloc); ok && isZeroStruct(a) {
				return ""
			}
		}
		return "puts values under keys that may be met twice into a map"
	case *ssa.Send, *ssa.Go, *ssa.Select:
		return "talks to a goroutine"
	case *ssa.Defer:
		return "defers a call"
	}
	c, ok := ins.(*ssa.Call)
	if !ok {
		return ""
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			return ""
		case "copy", "clear", "close":
			if !fresh(c.Call.Args[0], l) {
				return "changes memory by " + b.Name()
			}
		case "print", "println":
			return "prints"
		}
		return ""
	}
	gs := w.fl.callees[c]
	if len(gs) == 0 {
		return "calls an unknown function"
	}
	for _, g := range gs {
		// text written into a buffer of one's own
		if strings.HasPrefix(fullName(g), "fmt.Fprint") && fresh(strip(c.Call.Args[0]), l) {
			continue
		}
		if why := w.commutes(g); why != "" {
			// what is handed over may be the turn's own
			if len(c.Call.Args) > 0 && g.Signature.Recv() != nil && (fresh(c.Call.Args[0], l) || w.element(c.Call.Args[0], keys)) && !strings.Contains(why, "print") && !strings.Contains(why, "file") {
				continue
			}
			return "calls " + short(g) + ", which " + why
		}
	}
	return ""
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// sortedAfter: the function appends to a list it keeps in a field and sorts
// that list before it returns.
func sortedAfter(st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	c, ok := st.Val.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	if ld, ok := c.Call.Args[0].(*ssa.UnOp); !ok || ld.Op != token.MUL || !sameAddr(ld.X, fa) {
		return false
	}
	for _, b := range st.Parent().Blocks {
		before := b == st.Block()
		for _, ins := range b.Instrs {
			if ins == ssa.Instruction(st) {
				before = false
			}
			c, ok := ins.(*ssa.Call)
			if !ok || before {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !sorts(g) || ties(c) != "" {
				continue
			}
			ld, ok := strip(c.Call.Args[0]).(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || !sameAddr(ld.X, fa) || reachesBlock(b, st.Block()) {
				continue
			}
			all := true
			for _, x := range st.Parent().Blocks {
				if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func reachesBlock(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == to {
			return true
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// counts: x += n for integers.
func counts(s *ssa.Store) bool {
	b, ok := s.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || !isIntT(b.Type()) {
		return false
	}
	ld, ok := b.X.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && sameAddr(ld.X, s.Addr)
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && x.X == y.X
}

// commutes: why calls of f in different orders may have different results.
func (w *detWalk) commutes(f *ssa.Function) string {
	if k := w.comm[f]; k == 1 || k == 3 {
		return ""
	} else if k == 2 {
		return w.why[f]
	}
	w.comm[f] = 3
	why := ""
	n := fullName(f)
	if len(f.Blocks) == 0 || !own(f) {
		switch {
		case strings.HasPrefix(n, "fmt.Sprint"), n == "fmt.Errorf", strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "strconv."), strings.HasPrefix(n, "unicode."), strings.HasPrefix(n, "unicode/utf8."), strings.HasPrefix(n, "errors."), strings.HasPrefix(n, "path."), strings.HasPrefix(n, "path/filepath."), strings.HasPrefix(n, "bytes."), strings.HasPrefix(n, "math."), strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices."):
		case strings.Contains(n, "goutil/stringset."), strings.Contains(n, "goutil/stringslice."):
		case strings.Contains(n, "stringutil."), strings.Contains(n, "github.com/iancoleman/"):
		case w.fl.printer(f):
			why = "prints"
		default:
			why = "is not known to be free of effects (" + n + ")"
		}
	} else {
		dies := deadBlocks(w.fl, f)
		for _, b := range f.Blocks {
			if dies[b] {
				continue
			}
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && w.fl.writeCall(c) != "" {
					why = "writes a file"
				} else if e := w.effect(f, ins, nil, nil, true); e != "" && why == "" {
					why = e
				}
			}
		}
	}
	if why == "" {
		w.comm[f] = 1
	} else {
		w.comm[f] = 2
		w.why[f] = why
	}
	return why
}

func (w *detWalk) dataType(t types.Type, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		w.dataType(u.Elem(), seen)
	case *types.Slice:
		w.dataType(u.Elem(), seen)
	case *types.Array:
		w.dataType(u.Elem(), seen)
	case *types.Map:
		w.dataType(u.Elem(), seen)
	case *types.Struct:
		w.data[t.String()] = true
		for i := 0; i < u.NumFields(); i++ {
			w.dataType(u.Field(i).Type(), seen)
		}
	}
}

// uses judges the uses of a list in no particular order.
func (w *detWalk) uses(f *ssa.Function, v ssa.Value, src string) {
	rs := v.Referrers()
	if rs == nil {
		return
	}
	for _, u := range *rs {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		if sortedBefore(v, u) {
			continue
		}
		switch u := u.(type) {
		case *ssa.Phi:
			w.mark(u, src)
			continue
		case *ssa.ChangeType:
			w.mark(u, src)
			continue
		case *ssa.Slice:
			if u.Low == nil && u.High == nil {
				w.mark(u, src)
				continue
			}
			if inUnorderedLoop(w, u, v) {
				continue
			}
		case *ssa.MakeInterface:
			if onlySorts(u) {
				continue
			}
		case *ssa.MakeClosure:
			if onlySorts(u) { // the comparison itself
				continue
			}
		case *ssa.BinOp:
			continue // nil test
		case *ssa.IndexAddr:
			if inUnorderedLoop(w, u, v) {
				continue
			}
		case *ssa.Range, *ssa.If:
			continue
		case *ssa.Return:
			for i, x := range u.Results {
				if x == v {
					k := fmt.Sprint(fullName(f), "#", i)
					if w.rets[k] == "" {
						w.rets[k] = src
						w.again = true
					}
				}
			}
			continue
		case *ssa.Store:
			switch a := u.Addr.(type) {
			case *ssa.FieldAddr:
				k := fieldKey(a.X, a.Field)
				tn := k[:strings.LastIndex(k, ".")]
				if !w.data[tn] {
					if w.field[k] == "" {
						w.field[k] = src
						w.again = true
					}
					continue
				}
			case *ssa.Alloc:
				for _, x := range *a.Referrers() {
					if ld, ok := x.(*ssa.UnOp); ok && !sortedBefore(ld, ld) {
						w.mark(ld, src)
					}
				}
				continue
			}
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					continue
				case "append":
					w.mark(u, src)
					continue
				}
			}
			g := u.Call.StaticCallee()
			if g != nil && sorts(g) {
				continue
			}
			if g != nil && strings.Contains(fullName(g), "goutil/stringset.") {
				continue // becomes a set
			}
			ok := len(w.fl.callees[u]) > 0
			for _, g := range w.fl.callees[u] {
				if !own(g) || len(g.Blocks) == 0 {
					ok = false
					continue
				}
				args := u.Call.Args
				if u.Call.IsInvoke() {
					args = append([]ssa.Value{u.Call.Value}, args...)
				}
				for i, a := range args {
					if a == v && i < len(g.Params) {
						w.mark(g.Params[i], src)
					}
				}
			}
			if ok {
				continue
			}
		}
		w.report(f, u.Pos(), src, "uses a list that is in no particular order")
	}
}

// inUnorderedLoop: the instruction takes the element of the turn of a loop
// over the list.
func inUnorderedLoop(w *detWalk, ins ssa.Instruction, v ssa.Value) bool {
	ia, ok := ins.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	l, _ := w.indexLoop(ia)
	return l != nil
}

// indexLoop: the loop that counts the index of an element up from the start.
func (w *detWalk) indexLoop(ia *ssa.IndexAddr) (*detLoop, ssa.Value) {
	var p *ssa.Phi
	switch i := ia.Index.(type) {
	case *ssa.Phi:
		p = i
	case *ssa.BinOp:
		if i.Op == token.ADD {
			p, _ = i.X.(*ssa.Phi)
		}
	}
	if p == nil {
		return nil, nil
	}
	for _, l := range w.loops[ia.Parent()] {
		if l.head == p.Block() && l.in[ia.Block()] {
			return l, p
		}
	}
	return nil, nil
}

// formatted: the value, or a part of it, is handed on as an interface value.
func formatted(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.Extract:
			if u.Index == 0 && formatted(u, seen) {
				return true
			}
		case *ssa.Phi, *ssa.BinOp:
			if formatted(u.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			if g := u.Call.StaticCallee(); g != nil && (strings.HasPrefix(g.Name(), "WriteString") || g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "strings")) {
				return true
			}
		case *ssa.Store:
			if u.Val == v {
				return true // kept somewhere
			}
		}
	}
	return false
}

// reads: the call reads a file or a directory.
func reads(f *ssa.Function) bool {
	switch fullName(f) {
	case "os.ReadFile", "os.Open", "os.OpenFile", "io/ioutil.ReadFile", "io/ioutil.ReadDir", "os.ReadDir", "path/filepath.Glob", "path/filepath.Walk", "path/filepath.WalkDir":
		return true
	}
	return false
}

// onlyWrites: the call opens a file that it empties, to write to it.
func onlyWrites(c ssa.CallInstruction) bool {
	as := c.Common().Args
	if g := c.Common().StaticCallee(); g == nil || fullName(g) != "os.OpenFile" || len(as) != 3 {
		return false
	}
	k, ok := as[1].(*ssa.Const)
	if !ok {
		return false
	}
	m := k.Int64()
	return m&3 == int64(os.O_WRONLY) && m&int64(os.O_TRUNC) != 0
}

// grammar: the path is that of the grammar file.
func (w *detWalk) grammar(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		return ok && v.Op == token.MUL && g.Name() == "SrcFile"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !w.grammar(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && (fullName(g) == "flag.Arg" || fullName(g) == "path/filepath.Clean" || fullName(g) == "path.Clean") {
			return fullName(g) == "flag.Arg" || w.grammar(v.Call.Args[0], depth+1)
		}
	case *ssa.Parameter:
		f, k, n := v.Parent(), -1, 0
		for i, p := range f.Params {
			if p == v {
				k = i
			}
		}
		for c, gs := range w.fl.callees {
			for _, g := range gs {
				if g != f {
					continue
				}
				n++
				if len(c.Common().Args) != len(f.Params) || !w.grammar(c.Common().Args[k], depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// address: the call formats a pointer as a number.
func (w *detWalk) address(c *ssa.Call, g *ssa.Function) string {
	n := fullName(g)
	if !strings.HasPrefix(n, "fmt.Fprint") && !strings.HasPrefix(n, "fmt.Sprint") && !strings.HasPrefix(n, "fmt.Append") {
		return ""
	}
	if strings.HasPrefix(n, "fmt.Sprint") && onlyMessages(c) {
		return ""
	}
	if strings.HasSuffix(n, "f") {
		for _, a := range c.Call.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				return "%p in a call of " + n
			}
		}
	}
	va := c.Call.Args[len(c.Call.Args)-1]
	sl, ok := va.(*ssa.Slice)
	if !ok {
		return ""
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return ""
	}
	for _, u := range *arr.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, y := range *ia.Referrers() {
			st, ok := y.(*ssa.Store)
			if !ok {
				continue
			}
			if mi, ok := st.Val.(*ssa.MakeInterface); ok && showsAddress(mi.X.Type(), 0, true) {
				return "the value of type " + mi.X.Type().String() + " in a call of " + n
			}
		}
	}
	return ""
}

// onlyMessages: the text goes into a panic, an error or to the standard output.
func onlyMessages(c *ssa.Call) bool {
	if c.Referrers() == nil {
		return true
	}
	for _, u := range *c.Referrers() {
		switch u := u.(type) {
		case *ssa.MakeInterface:
			for _, y := range *u.Referrers() {
				if _, ok := y.(*ssa.Panic); !ok {
					return false
				}
			}
		case *ssa.Panic, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func showsAddress(t types.Type, depth int, methods bool) bool {
	if depth > 5 {
		return false
	}
	if methods {
		ms := types.NewMethodSet(t)
		for _, n := range []string{"String", "Error", "Format", "GoString"} {
			if ms.Lookup(nil, n) != nil {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Map, *types.Slice, *types.Array:
			return showsAddress(u.Elem(), 1, methods)
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Slice:
		return showsAddress(u.Elem(), depth+1, methods)
	case *types.Array:
		return showsAddress(u.Elem(), depth+1, methods)
	case *types.Map:
		return showsAddress(u.Key(), depth+1, methods) || showsAddress(u.Elem(), depth+1, methods)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if showsAddress(u.Field(i).Type(), depth+1, methods && u.Field(i).Exported()) {
				return true
			}
		}
	}
	return false
}

// races: what goroutines do depends on which of them comes first.
func races(g *ssa.Go) string {
	var f *ssa.Function
	switch v := g.Call.Value.(type) {
	case *ssa.Function:
		f = v
	case *ssa.MakeClosure:
		f, _ = v.Fn.(*ssa.Function)
	}
	if f == nil || len(f.Blocks) == 0 {
		return ""
	}
	shared := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FreeVar, *ssa.Global:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.UnOp:
				v = x.X
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Send:
				return "send to a channel in the order in which they finish"
			case *ssa.Store:
				if shared(ins.Addr) {
					return "store to a variable they share in the order in which they finish"
				}
			}
		}
	}
	return ""
}

func ruleOrderFree(r *run) {
	fl := r.tool()
	w := &detWalk{r: r, fl: fl, lists: map[ssa.Value]string{}, field: map[string]string{}, rets: map[string]string{}, comm: map[*ssa.Function]int{}, why: map[*ssa.Function]string{}, bad: map[string][2]string{}, data: map[string]bool{}, loops: map[*ssa.Function][]*detLoop{}}
	var fns []*ssa.Function
	for _, f := range fl.fns {
		p := ""
		if f.Pkg != nil {
			p = f.Pkg.Pkg.Path()
		}
		// the parse is a set of derivations, and that set and what is read
		// from it do not depend on the order of the search (C08, C09)
		if strings.HasSuffix(p, "/v3/parser") || strings.HasSuffix(p, "/parser/bsr") {
			continue
		}
		fns = append(fns, f)
	}
	for _, f := range fns {
		w.loops[f] = natLoops(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g, ok := ins.(*ssa.Go); ok {
					if s := races(g); s != "" {
						w.report(f, g.Pos(), "goroutines that run at the same time", s+", which is different on every run")
					}
				}
				if ld, ok := ins.(*ssa.UnOp); ok && ld.X.String() == "os.Args" && !strings.HasSuffix(f.Pkg.Pkg.Path(), "/cfg") {
					if _, ok := ld.X.(*ssa.Global); ok {
						w.report(f, ld.Pos(), "os.Args", "depends on the name of the tool, which can be different on every run")
					}
				}
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				if c.Call.IsInvoke() && c.Call.Method.Name() == "ModTime" {
					w.report(f, c.Pos(), "ModTime", "depends on something that is different on every run")
				}
				if g := c.Call.StaticCallee(); g != nil {
					if fullName(g) == "(*text/template.Template).Execute" {
						w.dataType(strip(c.Call.Args[2]).Type(), map[types.Type]bool{})
					}
					if fullName(g) == "(*sync.Map).Range" {
						w.report(f, c.Pos(), fullName(g), "goes through a map in an order that is different on every run")
					}
					if clock(g) {
						w.report(f, c.Pos(), fullName(g), "depends on something that is different on every run")
					}
					if fullName(g) == "path/filepath.Abs" && formatted(c, map[ssa.Value]bool{}) {
						w.report(f, c.Pos(), fullName(g), "writes something that is different on every run")
					}
					if reads(g) && !onlyWrites(c) && !w.grammar(c.Call.Args[0], 0) {
						w.report(f, c.Pos(), fullName(g), "reads a file other than the grammar, which can be different on every run")
					}
					if s := w.address(c, g); s != "" {
						w.report(f, c.Pos(), s, "writes an address, which is different on every run")
					}
				}
			}
		}
	}
	sources := 0
	for round := 0; round < 20; round++ {
		w.again = false
		w.nloop = 0
		sources = 0
		for k := range w.bad {
			if !strings.Contains(k, "different on every run") {
				delete(w.bad, k)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch ins := ins.(type) {
					case *ssa.Range:
						if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
							sources++
							w.mapLoop(f, ins)
						}
					case *ssa.Call:
						if s := elementsCall(ins); s != "" {
							sources++
							w.mark(ins, s)
						}
						for _, g := range fl.callees[ins] {
							if g.Signature.Results().Len() == 1 {
								w.mark(ins, w.rets[fullName(g)+"#0"])
							}
						}
					case *ssa.Extract:
						if c, ok := ins.Tuple.(*ssa.Call); ok {
							for _, g := range fl.callees[c] {
								w.mark(ins, w.rets[fmt.Sprint(fullName(g), "#", ins.Index)])
							}
						}
					case *ssa.UnOp:
						if a, ok := ins.X.(*ssa.FieldAddr); ok {
							w.mark(ins, w.field[fieldKey(a.X, a.Field)])
						}
					case *ssa.Field:
						w.mark(ins, w.field[fieldKey(ins.X, ins.Field)])
					}
				}
			}
			var vs []ssa.Value
			for v := range w.lists {
				if v.Parent() == f {
					vs = append(vs, v)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
			done := map[*detLoop]bool{}
			for _, v := range vs {
				w.uses(f, v, w.lists[v])
				if v.Referrers() == nil {
					continue
				}
				for _, u := range *v.Referrers() {
					ia, ok := u.(*ssa.IndexAddr)
					if !ok || sortedBefore(v, ia) {
						continue
					}
					if l, p := w.indexLoop(ia); l != nil && !done[l] {
						done[l] = true
						keys := map[ssa.Value]bool{}
						for _, x := range *v.Referrers() {
							if ia, ok := x.(*ssa.IndexAddr); ok && l.in[ia.Block()] {
								for _, y := range *ia.Referrers() {
									if ld, ok := y.(*ssa.UnOp); ok {
										keys[ld] = true
									}
								}
							}
						}
						ind := map[ssa.Value]bool{p: true}
						for _, x := range *p.Referrers() {
							if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD {
								ind[b] = true
							}
						}
						w.loop(f, l, keys, w.lists[v], ind)
					}
				}
			}
		}
		if !w.again {
			break
		}
	}
	r.obl += w.nloop + len(w.lists)
	var ks []string
	for k := range w.bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r.report(k, w.bad[k][0], "%s", w.bad[k][1])
	}
	if sources == 0 {
		r.report("order-free|anchor", "", "no loop over a map or set was found")
	}
	r.units = append(r.units, map[string]interface{}{"rule": "order-free", "functions": len(fns), "loops_over_maps_and_sets": sources, "unordered_loops": w.nloop, "unordered_lists": len(w.lists)})
}

// mapLoop judges the loop of a range over a map.
func (w *detWalk) mapLoop(f *ssa.Function, rg *ssa.Range) {
	for _, u := range *rg.Referrers() {
		nx, ok := u.(*ssa.Next)
		if !ok {
			continue
		}
		keys := map[ssa.Value]bool{}
		for _, e := range *nx.Referrers() {
			if e, ok := e.(*ssa.Extract); ok && e.Index == 1 {
				keys[e] = true
			}
		}
		for _, l := range w.loops[f] {
			if l.head == nx.Block() {
				w.loop(f, l, keys, "a map", map[ssa.Value]bool{})
				return
			}
		}
		// no loop: one turn at most
		dies := deadBlocks(w.fl, f)
		for _, e := range *nx.Referrers() {
			e, ok := e.(*ssa.Extract)
			if !ok || e.Index == 0 {
				continue
			}
			for _, u := range *e.Referrers() {
				if _, ok := u.(*ssa.DebugRef); !ok && !dies[u.Block()] {
					w.report(f, u.Pos(), "a map", "uses whichever element comes first")
				}
			}
		}
	}
}
