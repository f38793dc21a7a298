package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The rule "errors": the error of every call that creates, writes, renders,
// formats or reads something is tested on every path before it is lost, and
// where there is one the tool says so and ends with a failure.

type errWalk struct {
	fl     *flow
	f      *ssa.Function
	origin ssa.Instruction // the call
	index  int             // of the error among its results, -1 if it is the result
	seen   map[string]bool
	probs  []string
	at     token.Pos
	passes map[int]bool // results that hand the error on
	checks map[string]bool
	soft   bool // saying so is enough
}

type errState struct {
	b      *ssa.BasicBlock
	i      int
	alias  map[ssa.Value]bool
	failed bool // known to be an error
	said   bool
	wrote  bool // a file was written after the error
	again  bool // the call was reached a second time
}

func isErr(t types.Type) bool { return t.String() == "error" }

func (w *errWalk) problem(pos token.Pos, s string) {
	if len(w.probs) == 0 {
		w.at = pos
	}
	w.probs = append(w.probs, s)
}

func (w *errWalk) run(s errState) {
	work := []errState{s}
	for len(work) > 0 && len(w.probs) == 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.i == 0 {
			var ks []string
			for v := range s.alias {
				ks = append(ks, v.Name())
			}
			sort.Strings(ks)
			k := fmt.Sprint(s.b.Index, s.failed, s.said, s.wrote, s.again, ks)
			if w.seen[k] {
				continue
			}
			w.seen[k] = true
		}
		work = append(work, w.block(s)...)
	}
}

func (w *errWalk) block(s errState) []errState {
	al := map[ssa.Value]bool{}
	for v := range s.alias {
		al[v] = true
	}
	is := func(v ssa.Value) bool { return al[v] }
	put := func(v ssa.Value, in bool) {
		if in {
			al[v] = true
		} else {
			delete(al, v)
		}
	}
	for i := s.i; i < len(s.b.Instrs); i++ {
		ins := s.b.Instrs[i]
		if ins == w.origin {
			s.again = true
			for v := range al {
				if e, ok := v.(*ssa.Extract); ok && e.Tuple == w.origin.(ssa.Value) || v == w.origin.(ssa.Value) {
					delete(al, v)
				}
			}
			if len(al) == 0 && !s.failed {
				w.problem(ins.Pos(), "is overwritten by the next turn before it is tested")
				return nil
			}
			continue
		}
		switch ins := ins.(type) {
		case *ssa.Extract:
			if c, ok := w.origin.(ssa.Value); ok && ins.Tuple == c && ins.Index == w.index && !s.again {
				al[ins] = true
			}
			if c, ok := w.origin.(ssa.Value); ok && w.soft && ins.Tuple == c && ins.Index == 0 && !s.again {
				al[ins] = true // the text that there is none of if formatting fails
			}
		case *ssa.RunDefers:
			for v := range al {
				if a, ok := v.(*ssa.Alloc); ok && resets(a) {
					delete(al, v)
				}
			}
		case *ssa.Store:
			if is(ins.Val) {
				al[ins.Addr] = true
			} else if !s.failed || al[ins.Addr] {
				put(ins.Addr, false)
			}
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				put(ins, is(ins.X))
			}
		case *ssa.MakeInterface:
			put(ins, is(ins.X))
		case *ssa.ChangeInterface:
			put(ins, is(ins.X))
		case *ssa.ChangeType:
			put(ins, is(ins.X))
		case *ssa.Convert:
			put(ins, is(ins.X))
		case *ssa.TypeAssert:
			put(ins, is(ins.X))
		case *ssa.Call:
			if w.fl.prints(ins) {
				s.said = true
			}
			if c := ins.Call.StaticCallee(); c != nil && fullName(c) == "errors.Join" && len(ins.Call.Args) == 1 {
				put(ins, false)
				if sl, ok := ins.Call.Args[0].(*ssa.Slice); ok {
					for v := range al {
						if ia, ok := v.(*ssa.IndexAddr); ok && ia.X == sl.X {
							al[ins] = true // not nil if one of them is not
						}
					}
				}
			}
			if n, _, ok := errSource(ins); ok && s.failed && strings.Contains(n, "Write") {
				for _, a := range ins.Call.Args {
					if is(a) && !isErr(a.Type()) {
						w.problem(ins.Pos(), "is followed by writing the text that was not made")
						return nil
					}
				}
				s.wrote = true
			}
			switch w.fl.exits(ins) {
			case 1:
				if c := ins.Call.StaticCallee(); c != nil && fullName(c) == "os.Exit" && !s.said {
					w.problem(ins.Pos(), "makes the tool end without a word")
				}
				return nil
			case 2:
				w.problem(ins.Pos(), "may be lost where the tool ends with status zero")
				return nil
			}
			for k, a := range ins.Call.Args {
				if is(a) && isErr(a.Type()) && w.fl.tests(ins, k, w.checks) {
					return nil
				}
			}
		case *ssa.Panic:
			return nil
		case *ssa.Return:
			for k, v := range ins.Results {
				if !isErr(v.Type()) {
					continue
				}
				if is(v) || s.failed && nonNilErr(v) {
					if w.f.Name() == "main" && w.f.Parent() == nil {
						continue
					}
					w.passes[k] = true
					return nil
				}
			}
			if s.failed && s.said && w.soft && (s.wrote || len(ins.Results) > 0) {
				return nil
			}
			if s.failed {
				w.problem(ins.Pos(), "is found and then forgotten")
			} else {
				w.problem(ins.Pos(), "is not tested")
			}
			return nil
		case *ssa.If:
			x, neg := ins.Cond, false
			for {
				u, ok := x.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				x, neg = u.X, !neg
			}
			b, ok := x.(*ssa.BinOp)
			if ok && (b.Op == token.EQL || b.Op == token.NEQ) && (is(b.X) && types.IsInterface(b.X.Type()) && isNil(b.Y) || is(b.Y) && types.IsInterface(b.Y.Type()) && isNil(b.X)) {
				bad := 0
				if (b.Op == token.EQL) != neg {
					bad = 1
				}
				t := s
				t.failed = true
				return w.next(t, al, bad)
			}
			return append(w.next(s, al, 0), w.next(s, al, 1)...)
		case *ssa.Jump:
			return w.next(s, al, 0)
		}
	}
	return nil
}

func (w *errWalk) next(s errState, al map[ssa.Value]bool, k int) []errState {
	n := s.b.Succs[k]
	pi := 0
	for i, p := range n.Preds {
		if p == s.b {
			pi = i
			if s.b.Succs[0] == n && len(s.b.Succs) > 1 && s.b.Succs[1] == n && k == 1 {
				continue // the second of two equal edges
			}
			break
		}
	}
	na := map[ssa.Value]bool{}
	for v := range al {
		na[v] = true
	}
	for _, ins := range n.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if al[p.Edges[pi]] {
			na[p] = true
		} else {
			delete(na, p)
		}
	}
	i := 0
	for i < len(n.Instrs) {
		if _, ok := n.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	s.b, s.i, s.alias = n, 0, na
	return []errState{s}
}

// resets: a deferred closure may put another value than an error into a,
// where there is an error.
func resets(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		mc, ok := u.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		deferred := false
		for _, x := range *mc.Referrers() {
			if _, ok := x.(*ssa.Defer); ok {
				deferred = true
			}
		}
		fn, ok := mc.Fn.(*ssa.Function)
		if !deferred || !ok {
			continue
		}
		for i, bind := range mc.Bindings {
			if bind != a {
				continue
			}
			fv := fn.FreeVars[i]
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == fv && !nonNilErr(st.Val) && !underNil(b, fv) {
						return true
					}
				}
			}
		}
	}
	return false
}

// underNil: b is reached only where what is in cell is nil.
func underNil(b *ssa.BasicBlock, cell ssa.Value) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, ok := c.Cond.(*ssa.BinOp)
		if !ok || t.Op != token.EQL && t.Op != token.NEQ {
			continue
		}
		x, y := t.X, t.Y
		if isNil(x) {
			x, y = y, x
		}
		ld, ok := x.(*ssa.UnOp)
		if !ok || ld.X != cell || !isNil(y) {
			continue
		}
		k := 0
		if t.Op == token.NEQ {
			k = 1
		}
		if p.Succs[k] == d {
			return true
		}
	}
	return false
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func nonNilErr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if c := v.Call.StaticCallee(); c != nil {
			switch fullName(c) {
			case "fmt.Errorf", "errors.New":
				return true
			}
		}
	}
	return false
}

// tests: the callee does not return if argument k is an error.
func (fl *flow) tests(c *ssa.Call, k int, memo map[string]bool) bool {
	fs := fl.callees[c]
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if fullName(f) == "text/template.Must" && k == 1 {
			continue
		}
		if !own(f) || len(f.Blocks) == 0 || k >= len(f.Params) {
			return false
		}
		key := fmt.Sprint(fullName(f), k)
		r, ok := memo[key]
		if !ok {
			memo[key] = false
			w := &errWalk{fl: fl, f: f, seen: map[string]bool{}, passes: map[int]bool{}, checks: memo}
			w.run(errState{b: f.Blocks[0], alias: map[ssa.Value]bool{f.Params[k]: true}})
			r = len(w.probs) == 0 && len(w.passes) == 0
			memo[key] = r
		}
		if !r {
			return false
		}
	}
	return true
}

var errPkgs = map[string]bool{"os": true, "io": true, "io/ioutil": true, "text/template": true, "html/template": true, "go/format": true, "bufio": true, "path/filepath": true, "encoding/json": true, "runtime/pprof": true, "github.com/goccmack/goutil/ioutil": true, "strconv": true}

// errSource: the call can fail to do something for the user; the index of its
// error.
func errSource(c ssa.CallInstruction) (string, int, bool) {
	f := c.Common().StaticCallee()
	if f == nil || own(f) || f.Pkg == nil && f.Signature.Recv() == nil {
		return "", 0, false
	}
	obj := f.Object()
	if n := fullName(f); strings.HasPrefix(n, "fmt.Fprint") && ownFile(c.Common().Args[0]) {
		return n, 1, true
	} else if as := c.Common().Args; (n == "(*bytes.Buffer).WriteTo" || n == "(*strings.Reader).WriteTo" || n == "(*bytes.Reader).WriteTo") && ownFile(as[1]) ||
		n == "io.WriteString" && ownFile(as[0]) {
		return n, 1, true
	}
	if obj == nil || obj.Pkg() == nil || !errPkgs[obj.Pkg().Path()] {
		return "", 0, false
	}
	switch n := fullName(f); n {
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		return "", 0, false // Flush reports it
	case "os.Remove", "os.RemoveAll", "(*os.File).Close", "io.WriteString":
		return "", 0, false
	}
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErr(rs.At(i).Type()) {
			if rs.Len() == 1 {
				i = -1
			}
			return fullName(f), i, true
		}
	}
	return "", 0, false
}

// ownFile: the writer is a file, other than the standard output.
func ownFile(v ssa.Value) bool {
	v = strip(v)
	if v.Type().String() != "*os.File" {
		return false
	}
	if ld, ok := v.(*ssa.UnOp); ok {
		if _, ok := ld.X.(*ssa.Global); ok {
			return false
		}
	}
	return true
}

// endsWhenCaught: no path from a recover that caught something leads to a
// return.
func endsWhenCaught(fl *flow, f *ssa.Function, c ssa.CallInstruction) bool {
	call, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	w := &errWalk{fl: fl, f: f, seen: map[string]bool{}, passes: map[int]bool{}, checks: map[string]bool{}}
	st := errState{b: call.Block(), alias: map[ssa.Value]bool{call: true}}
	for i, ins := range call.Block().Instrs {
		if ins == ssa.Instruction(call) {
			st.i = i + 1
		}
	}
	w.run(st)
	return len(w.probs) == 0 && len(w.passes) == 0
}

// waits: the function waits for other goroutines.
func waits(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.UnOp:
				if ins.Op == token.ARROW {
					return true
				}
			case *ssa.Select:
				return true
			case *ssa.Range:
				if _, ok := ins.X.Type().Underlying().(*types.Chan); ok {
					return true
				}
			case ssa.CallInstruction:
				if g := ins.Common().StaticCallee(); g != nil && g.Name() == "Wait" {
					return true
				}
			}
		}
	}
	return false
}

// fails: the call leads to one that can fail.
func fails(fl *flow, c ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	if _, _, ok := errSource(c); ok {
		return true
	}
	fs := fl.callees[c]
	if g := c.Common().StaticCallee(); g != nil {
		fs = append([]*ssa.Function{g}, fs...)
	}
	for _, g := range fs {
		if seen[g] || !own(g) {
			continue
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c2, ok := ins.(ssa.CallInstruction); ok && fails(fl, c2, seen) {
					return true
				}
			}
		}
	}
	return false
}

// flushed: Flush is called on the writer, or it is handed on.
func flushed(v *ssa.Call) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case ssa.CallInstruction:
			g := u.Common().StaticCallee()
			if g != nil && g.Name() == "Flush" {
				return true
			}
			if g != nil && own(g) {
				return true
			}
		case *ssa.Return, *ssa.Store, *ssa.Phi:
			return true
		}
	}
	return false
}

func ruleErrors(r *run) {
	fl := r.tool()
	type ob struct {
		f   *ssa.Function
		c   ssa.CallInstruction
		idx int
		n   string
	}
	var work []ob
	callers := map[*ssa.Function][]ob{}
	for _, f := range fl.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if n, i, ok := errSource(c); ok {
					work = append(work, ob{f, c, i, n})
				}
				for _, g := range fl.callees[c] {
					if own(g) {
						callers[g] = append(callers[g], ob{f, c, 0, short(g)})
					}
				}
			}
		}
	}
	nr := 0
	for _, f := range fl.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := "recover"
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == n {
					// what it catches is an error like any other
					nr++
					r.obl++
					if !endsWhenCaught(fl, f, c) {
						r.report("errors|"+short(f)+"|recover", r.cur.Pos(c.Pos()), "%s: a failure caught by recover may be forgotten: the tool can carry on and end with status zero", short(f))
					}
				}
				if g, ok := ins.(*ssa.Go); ok {
					nr++
					r.obl++
					if !waits(f) && fails(fl, g, map[*ssa.Function]bool{}) {
						r.report("errors|"+short(f)+"|go", r.cur.Pos(c.Pos()), "%s: a step that can fail runs in a goroutine nobody waits for: the tool may end with status zero before it is done", short(f))
					}
				}
				if callee := c.Common().StaticCallee(); callee != nil && strings.HasPrefix(fullName(callee), "bufio.NewWriter") {
					nr++
					r.obl++
					if v, ok := ins.(*ssa.Call); ok && !flushed(v) {
						r.report("errors|"+short(f)+"|"+fullName(callee), r.cur.Pos(c.Pos()), "%s: the buffered writer is never flushed: the end of the file is missing", short(f))
					}
				}
			}
		}
	}
	memo := map[string]bool{}
	done := map[string]bool{}
	count := map[string]int{}
	n := 0
	names := map[string]bool{}
	for len(work) > 0 {
		o := work[0]
		work = work[1:]
		key := fmt.Sprint(o.f, o.c.Pos(), o.n, o.idx)
		if done[key] {
			continue
		}
		done[key] = true
		n++
		r.obl++
		names[o.n] = true
		id := "errors|" + short(o.f) + "|" + o.n
		count[id]++
		if count[id] > 1 {
			id += fmt.Sprint("|", count[id])
		}
		call, ok := o.c.(*ssa.Call)
		if !ok {
			r.report(id, r.cur.Pos(o.c.Pos()), "%s: the error of the deferred call of %s is lost", short(o.f), o.n)
			continue
		}
		w := &errWalk{fl: fl, f: o.f, origin: call, index: o.idx, seen: map[string]bool{}, passes: map[int]bool{}, checks: memo, soft: o.n == "go/format.Source"}
		st := errState{b: call.Block(), alias: map[ssa.Value]bool{}}
		if o.idx < 0 {
			st.alias[call] = true
		}
		for i, ins := range call.Block().Instrs {
			if ins == ssa.Instruction(call) {
				st.i = i + 1
			}
		}
		w.run(st)
		if len(w.probs) > 0 {
			r.report(id, r.cur.Pos(o.c.Pos()), "%s: the error of %s %s (%s)", short(o.f), o.n, w.probs[0], r.cur.Pos(w.at))
			continue
		}
		for k := range w.passes {
			if len(callers[o.f]) == 0 {
				r.report(id, r.cur.Pos(o.c.Pos()), "%s: the error of %s is returned to no one", short(o.f), o.n)
			}
			idx := k
			if o.f.Signature.Results().Len() == 1 {
				idx = -1
			}
			for _, q := range callers[o.f] {
				q.idx = idx
				work = append(work, q)
			}
		}
	}
	if n == 0 {
		r.report("errors|anchor", "", "no call that can fail was found")
	}
	var ns []string
	for s := range names {
		ns = append(ns, s)
	}
	sort.Strings(ns)
	r.units = append(r.units, map[string]interface{}{"rule": "errors", "functions": len(fl.fns), "call_sites": n, "recover_go_bufio_sites": nr, "callees": ns})
	r.samples = append(r.samples, "errors: "+strings.Join(ns, ", "))
}
