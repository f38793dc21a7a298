package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// The rule "checks-first": on every path from the start of the tool to a
// place that writes, creates or removes a file, the grammar has been parsed
// without errors, found unambiguous, built and checked for undefined
// references. A check counts as passed on the side of a test of its result
// from which the program goes on while the other side ends in a failure, or
// after the call when it is the check itself that ends the program.

type orderCheck struct {
	name  string
	is    func(f *ssa.Function) bool
	tests bool // its result has to be tested
}

var orderChecks = []orderCheck{
	{"the parse reported no errors", func(f *ssa.Function) bool { return short(f) == "parser.Parse" }, true},
	{"the parse is not ambiguous", func(f *ssa.Function) bool {
		return f.Name() == "IsAmbiguous" && f.Pkg != nil && f.Pkg.Pkg.Path() == load.ModPath+"/parser/bsr"
	}, true},
	{"the grammar was built without duplicate definitions", func(f *ssa.Function) bool { return short(f) == "ast.Build" }, false},
	{"the references were checked", func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Path() == load.ModPath+"/sc" && f.Object() != nil && f.Object().Exported()
	}, false},
}

type orderWalk struct {
	r      *run
	fl     *flow
	useful map[*ssa.Function]bool // reaches a check or a write
	writes map[string][]string    // site -> missing checks
	found  []int
	stack  []*frame
}

type frame struct {
	f    *ssa.Function
	args []ssa.Value
	up   *frame
}

// fileWrite: the call changes files.
func fileWrite(c ssa.CallInstruction) string {
	f := c.Common().StaticCallee()
	if f == nil {
		return ""
	}
	return writeName(f)
}

func writeName(f *ssa.Function) string {
	switch n := fullName(f); n {
	case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Mkdir", "os.MkdirAll", "os.Remove", "os.RemoveAll", "os.Rename", "os.Truncate", "os.Symlink", "os.Link", "os.Chmod", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.CreateTemp", "os.MkdirTemp":
		return n
	default:
		if strings.HasPrefix(n, "github.com/goccmack/goutil/ioutil.") && f.Name() != "init" && !strings.Contains(n, "Read") && !strings.Contains(n, "Exist") {
			return n
		}
	}
	return ""
}

// writeCall: the same for calls of function values.
func (fl *flow) writeCall(c ssa.CallInstruction) string {
	n := fileWrite(c)
	if cc := c.Common(); n == "" && cc.StaticCallee() == nil && !cc.IsInvoke() {
		for _, g := range fl.callees[c] {
			if x := writeName(g); x != "" {
				n = x
			}
		}
	}
	return n
}

// constArg: the first argument is this constant.
func constArg(c ssa.CallInstruction, s string) bool {
	as := c.Common().Args
	if len(as) == 0 {
		return false
	}
	k, ok := as[0].(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == fmt.Sprintf("%q", s)
}

func ruleOrder(r *run) {
	fl := r.tool()
	w := &orderWalk{r: r, fl: fl, useful: map[*ssa.Function]bool{}, writes: map[string][]string{}, found: make([]int, len(orderChecks))}
	for again := true; again; {
		again = false
		for _, f := range fl.fns {
			if w.useful[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					hit := fl.writeCall(c) != "" || fl.exits(c) > 0
					for _, g := range fl.callees[c] {
						hit = hit || w.useful[g] || checkOf(g) >= 0
					}
					if hit && !w.useful[f] {
						w.useful[f] = true
						again = true
					}
				}
			}
		}
	}
	mainFn := r.cur.SSA[load.ModPath].Func("main")
	w.fn(&frame{f: mainFn}, 0)
	var sites []string
	for s := range w.writes {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	for _, s := range sites {
		r.obl++
		if miss := w.writes[s]; len(miss) > 0 {
			p := strings.SplitN(s, " ", 2)
			r.report("checks-first|"+p[1], p[0], "%s: files are changed on a path on which it is not established that %s", p[1], strings.Join(miss, ", that "))
		}
	}
	for i, c := range orderChecks {
		if w.found[i] == 0 {
			r.report("checks-first|"+fmt.Sprint(i), "", "nothing on the way from main establishes that %s", c.name)
		}
	}
	if len(sites) == 0 {
		r.report("checks-first|anchor", "", "no place that writes files was found")
	}
	r.units = append(r.units, map[string]interface{}{"rule": "checks-first", "write_sites": len(sites), "checks": len(orderChecks)})
}

func checkOf(f *ssa.Function) int {
	for i, c := range orderChecks {
		if c.is(f) {
			return i
		}
	}
	return -1
}

// fn walks a function with what is established at its start and returns what
// is established when it returns; -1 when it does not return.
func (w *orderWalk) fn(fr *frame, in int) int {
	for u := fr.up; u != nil; u = u.up {
		if u.f == fr.f {
			return in
		}
	}
	const top = -1
	at := map[*ssa.BasicBlock]int{}
	for _, b := range fr.f.Blocks {
		at[b] = top
	}
	at[fr.f.Blocks[0]] = in
	work := []*ssa.BasicBlock{fr.f.Blocks[0]}
	ret := top
	dies := w.dead(fr.f)
	var deferred []*ssa.Function
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := at[b]
		alive := true
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				deferred = append(deferred, w.fl.callees[d]...)
				continue
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				if _, ok := ins.(*ssa.Return); ok {
					if ret == top {
						ret = s
					} else {
						ret &= s
					}
				}
				continue
			}
			if n := w.fl.writeCall(c); n != "" && !(n == "os.Create" && constArg(c, "cpu.prof")) {
				w.write(fr, c, n, s)
			}
			if w.fl.exits(c) > 0 {
				alive = false
				break
			}
			first, out := true, s
			for _, g := range w.fl.callees[c] {
				o := s
				if k := checkOf(g); k >= 0 {
					if !orderChecks[k].tests {
						o |= 1 << k
						w.found[k]++
					}
				} else if w.useful[g] && len(g.Blocks) > 0 && own(g) {
					args := c.Common().Args
					if c.Common().IsInvoke() {
						args = append([]ssa.Value{c.Common().Value}, args...)
					}
					o = w.fn(&frame{g, args, fr}, s)
				}
				if o == top {
					continue
				}
				if first {
					out, first = o, false
				} else {
					out &= o
				}
			}
			s = out
		}
		if !alive {
			continue
		}
		for k, n := range b.Succs {
			o := s
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && dies[b.Succs[1-k]] && !dies[n] {
				m := w.depends(i.Cond, fr, map[ssa.Value]bool{})
				for x := range orderChecks {
					if m&(1<<x) != 0 {
						w.found[x]++
					}
				}
				o |= m
			}
			was := at[n]
			now := o
			if was != top {
				now = was & o
			}
			if was == top || now != was {
				at[n] = now
				work = append(work, n)
			}
		}
	}
	for _, g := range deferred {
		if ret != top && w.useful[g] && own(g) && len(g.Blocks) > 0 {
			w.fn(&frame{g, nil, fr}, ret)
		}
	}
	return ret
}

func (w *orderWalk) write(fr *frame, c ssa.CallInstruction, n string, s int) {
	key := w.r.cur.Pos(c.Pos()) + " " + short(fr.f) + ": " + n
	miss, ok := w.writes[key]
	if !ok {
		w.writes[key] = nil
	}
	for i, k := range orderChecks {
		if s&(1<<i) == 0 {
			dup := false
			for _, x := range miss {
				dup = dup || x == k.name
			}
			if !dup {
				miss = append(miss, k.name)
			}
		}
	}
	w.writes[key] = miss
}

// dead: the blocks from which every path ends in a failure.
func (w *orderWalk) dead(f *ssa.Function) map[*ssa.BasicBlock]bool {
	d := map[*ssa.BasicBlock]bool{}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			if d[b] {
				continue
			}
			dead := false
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Call:
					if w.fl.exits(ins) == 1 {
						dead = true
					}
				case *ssa.Panic:
					dead = true
				}
			}
			if !dead && len(b.Succs) > 0 {
				dead = true
				for _, n := range b.Succs {
					dead = dead && d[n]
				}
			}
			if dead {
				d[b] = true
				again = true
			}
		}
	}
	return d
}

// depends: the tested checks a condition is computed from.
func (w *orderWalk) depends(v ssa.Value, fr *frame, seen map[ssa.Value]bool) (m int) {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.BinOp:
		return w.depends(v.X, fr, seen) | w.depends(v.Y, fr, seen)
	case *ssa.UnOp:
		return w.depends(v.X, fr, seen)
	case *ssa.Extract:
		return w.depends(v.Tuple, fr, seen)
	case *ssa.ChangeType:
		return w.depends(v.X, fr, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			m |= w.depends(e, fr, seen)
		}
		return
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v && fr.up != nil && i < len(fr.args) {
				return w.depends(fr.args[i], fr.up, seen)
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return w.depends(v.Call.Args[0], fr, seen)
		}
		for _, g := range w.fl.callees[v] {
			if k := checkOf(g); k >= 0 && orderChecks[k].tests {
				m |= 1 << k
			} else if own(g) && len(v.Call.Args) <= len(g.Params) { // a helper around a check
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for _, x := range r.Results {
							m |= w.depends(x, &frame{g, v.Call.Args, fr}, seen)
						}
					}
				}
			}
		}
	}
	return
}
