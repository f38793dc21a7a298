package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summary is what a function does, in canonical form.
type Summary struct {
	E       *Eng
	Fn      *ssa.Function
	Rets    []Val
	RetPC   Bdd
	State   map[*Term]Val
	Effects []*Effect
	Inlined map[*ssa.Function]int
	Steps   int
	Err     string
}

// Options of one analysis.
type Options struct {
	Inline func(fn *ssa.Function) bool
	Known  func(fn *ssa.Function) bool
	Args   []Val // optional: values of the parameters
	Budget int
	Ctx    Bdd // assumed at entry (0 = no assumption)
}

// WorkLimit bounds the work spent on one function.
var WorkLimit = 3000000

// Param is the term standing for a parameter.
func (e *Eng) Param(i int, typ types.Type) *Term {
	return e.raw("param", fmt.Sprintf("%d:%s", i, e.TypeName(typ)), nil, nil, nil, typ)
}

// Summarize analyses fn.
func Summarize(e *Eng, p *Prog, fn *ssa.Function, opt Options) (s *Summary) {
	s = &Summary{E: e, Fn: fn, State: map[*Term]Val{}}
	x := &Exec{Eng: e, P: p, ctx: True, Inline: opt.Inline, Known: opt.Known, allocLvl: map[*Term]int{}, root: fn, Budget: opt.Budget, InlineN: map[*ssa.Function]int{}}
	if x.Budget == 0 {
		x.Budget = 3000000
	}
	if opt.Ctx != 0 {
		x.ctx = opt.Ctx
	}
	if x.Inline == nil {
		x.Inline = func(f *ssa.Function) bool { return f.Pkg == fn.Pkg }
	}
	e.limit = e.work + WorkLimit
	w0 := e.work
	defer func() {
		e.limit = 0
		stat("summary", fn.String(), e.work-w0)
		s.Inlined = x.InlineN
		s.Steps = x.steps
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				s.Err = u.Msg
				return
			}
			panic(r)
		}
	}()
	if len(fn.Blocks) == 0 {
		s.Err = "no body"
		return
	}
	var args []Val
	for i, q := range fn.Params {
		if i < len(opt.Args) && opt.Args[i] != nil {
			args = append(args, opt.Args[i])
			continue
		}
		t := e.Param(i, q.Type())
		if isBool(q.Type()) {
			args = append(args, e.Bool(e.Atom(t)))
		} else {
			args = append(args, One(t))
		}
	}
	st := &state{pc: True, mem: map[*Term]Val{}}
	res, out := x.callFn(fn, args, nil, st, "")
	s.RetPC = e.And(x.ctx, out.pc)
	if out.pc != False {
		for _, r := range res {
			s.Rets = append(s.Rets, x.snap(out, r))
		}
		var addrs []*Term
		for a := range out.mem {
			addrs = append(addrs, a)
		}
		sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
		for _, a := range addrs {
			r := addrRoot(a)
			switch r.Op {
			case "alloc", "mkslice", "seq", "const", "obj", "empty", "app", "copyof", "mapseq", "zeros", "struct":
				continue
			}
			v := x.snap(out, out.mem[a])
			if a.alloc {
				a = x.snapAddr(out, a)
			}
			s.State[a] = v
		}
	}
	s.Effects = x.joinWrites(x.effects)
	return s
}

// joinWrites makes one effect of texts written one after another.
func (x *Exec) joinWrites(es []*Effect) []*Effect {
	var out []*Effect
	last := map[string]*Effect{}
	for _, e := range es {
		if e.Kind != "write" || e.Name != "stdout" || len(e.Args) != 1 {
			out = append(out, e)
			continue
		}
		k := fmt.Sprint(e.PC, e.inst)
		if p := last[k]; p != nil {
			p.Args = []Val{x.Apply(e.PC, func(t []*Term) Val { return One(x.Cat(t...)) }, p.Args[0], e.Args[0])}
			continue
		}
		c := *e
		last[k] = &c
		out = append(out, &c)
	}
	return out
}

// snapAddr is an address in terms of what its base looks like at the end.
func (x *Exec) snapAddr(st *state, a *Term) *Term {
	switch a.Op {
	case "&fld", "&idx", "content", "live":
		b := x.snapAddr(st, a.Args[0])
		if b == a.Args[0] {
			return a
		}
		args := append([]*Term{b}, a.Args[1:]...)
		return x.raw(a.Op, a.Aux, args, nil, nil, a.Type)
	}
	if !a.alloc {
		return a
	}
	return x.Fold(x.snap(st, One(a)))
}

type guardedSet struct {
	keys  map[string]Bdd
	show  map[string]string
	pos   map[string]token.Pos
	order []string
}

func newGS() *guardedSet {
	return &guardedSet{keys: map[string]Bdd{}, show: map[string]string{}, pos: map[string]token.Pos{}}
}

func (g *guardedSet) add(e *Eng, k string, c Bdd, show func() string, pos token.Pos) {
	if c == False {
		return
	}
	if _, ok := g.keys[k]; !ok {
		g.order = append(g.order, k)
		g.show[k] = show()
		g.pos[k] = pos
		g.keys[k] = c
		return
	}
	g.keys[k] = e.Or(g.keys[k], c)
}

func (s *Summary) sets() (rets []*guardedSet, state, eff *guardedSet) {
	e := s.E
	for _, v := range s.Rets {
		g := newGS()
		for _, c := range v {
			c := c
			g.add(e, fmt.Sprint(c.T.ID), e.And(s.RetPC, c.C), func() string { return e.Show(c.T) }, s.Fn.Pos())
		}
		rets = append(rets, g)
	}
	state = newGS()
	var as []*Term
	for a := range s.State {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	for _, a := range as {
		def := s.unchanged(a)
		for _, c := range s.State[a] {
			c := c
			if def[c.T] {
				continue
			}
			a := a
			state.add(e, fmt.Sprintf("%d=%d", a.ID, c.T.ID), e.And(s.RetPC, c.C), func() string {
				return e.Show(a) + " := " + e.Show(c.T)
			}, s.Fn.Pos())
		}
	}
	eff = newGS()
	for _, ef := range s.Effects {
		ef := ef
		var lk []string
		for _, l := range ef.Loops {
			lk = append(lk, fmt.Sprint(l.ID))
		}
		var rec func(i int, c Bdd, ts []*Term)
		rec = func(i int, c Bdd, ts []*Term) {
			if c == False {
				return
			}
			if i == len(ef.Args) {
				if i > 0 && !e.Sat(c) {
					return
				}
				var ids []string
				for _, t := range ts {
					ids = append(ids, fmt.Sprint(t.ID))
				}
				k := ef.Kind + "|" + ef.Name + "|" + strings.Join(ids, ",") + "|" + strings.Join(lk, ",")
				cp := append([]*Term(nil), ts...)
				eff.add(e, k, c, func() string {
					var p []string
					for _, t := range cp {
						p = append(p, e.Show(t))
					}
					r := ef.Kind + " " + ef.Name + "(" + strings.Join(p, ", ") + ")"
					for _, l := range ef.Loops {
						r += " for each of " + e.Show(l)
					}
					return r
				}, ef.Pos)
				return
			}
			for _, k := range ef.Args[i] {
				rec(i+1, e.And(c, k.C), append(ts, k.T))
			}
		}
		rec(0, ef.PC, nil)
	}
	return
}

// unchanged: the values that mean "not written".
func (s *Summary) unchanged(a *Term) map[*Term]bool {
	e := s.E
	m := map[*Term]bool{}
	switch a.Op {
	case "content":
		m[a.Args[0]] = true
		m[e.raw("bufold", "", []*Term{a.Args[0]}, nil, nil, types.Typ[types.String])] = true
	case "&fld":
		x := &Exec{Eng: e, ctx: True, P: nil, NoGlobals: true}
		v := x.loadLeaf(&state{pc: True, mem: map[*Term]Val{}}, a, derefTypeSafe(a.Type))
		for _, c := range v {
			m[c.T] = true
		}
	case "global":
		m[e.raw("gval", a.Aux, nil, nil, nil, nil)] = true
	case "&idx":
	default:
		m[e.raw("deref", "", []*Term{a}, nil, nil, nil)] = true
	}
	return m
}

func derefTypeSafe(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return derefType(t)
}

// String renders a summary.
func (s *Summary) String() string {
	e := s.E
	var sb strings.Builder
	fmt.Fprintf(&sb, "== %s (steps %d)\n", s.Fn, s.Steps)
	if s.Err != "" {
		fmt.Fprintf(&sb, "  UNDECIDED %s\n", s.Err)
		return sb.String()
	}
	ra, sa, ea := s.sets()
	dump := func(n string, g *guardedSet) {
		for _, k := range g.order {
			fmt.Fprintf(&sb, "  %s: %s   [when %s]\n", n, g.show[k], e.ShowCond(g.keys[k]))
		}
	}
	for i, g := range ra {
		dump(fmt.Sprintf("ret%d", i), g)
	}
	dump("state", sa)
	dump("effect", ea)
	return sb.String()
}
