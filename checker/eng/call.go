package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(f *frame, ins *ssa.Call, cc *ssa.CallCommon, st *state) *state {
	asm := x.And(x.ctx, st.pc)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.Prune(asm, x.val(f, a)))
	}
	path := fmt.Sprintf("%s/c%d.%d", f.path, ins.Block().Index, instrIndex(ins))
	bind := func(res []Val) {
		if res == nil {
			return
		}
		if tp, ok := ins.Type().(*types.Tuple); ok {
			if tp.Len() == 0 {
				return
			}
			f.tup[ins] = res
			return
		}
		if len(res) > 0 {
			f.env[ins] = res[0]
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bind(x.builtin(f, ins, b, args, st))
		return st
	}
	type target struct {
		c    Bdd
		fn   *ssa.Function
		free []Val
		args []Val
		t    *Term // opaque callee value
	}
	var targets []target
	if fn := cc.StaticCallee(); fn != nil && !cc.IsInvoke() {
		var free []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, v := range x.val(f, mc) {
				if v.T.Op == "closure" {
					free = v.T.Vals
				}
			}
			if len(free) == 0 {
				for _, b := range mc.Bindings {
					free = append(free, x.Prune(asm, x.val(f, b)))
				}
			}
		}
		targets = append(targets, target{True, fn, free, args, nil})
	} else if cc.IsInvoke() {
		recv := x.Prune(asm, x.val(f, cc.Value))
		for _, c := range recv {
			if c.T.Op == "mkif" {
				if fn := x.P.Method(c.T.Type, cc.Method); fn != nil {
					targets = append(targets, target{c.C, fn, nil, append([]Val{One(c.T.Args[0])}, args...), nil})
					continue
				}
			}
			targets = append(targets, target{c.C, nil, nil, append([]Val{One(c.T)}, args...), c.T})
		}
	} else {
		fv := x.Prune(asm, x.val(f, cc.Value))
		for _, c := range fv {
			switch c.T.Op {
			case "closure":
				targets = append(targets, target{c.C, c.T.fn.(*ssa.Function), c.T.Vals, args, nil})
			case "fn":
				targets = append(targets, target{c.C, c.T.fn.(*ssa.Function), nil, args, nil})
			default:
				targets = append(targets, target{c.C, nil, nil, append([]Val{One(c.T)}, args...), c.T})
			}
		}
	}
	if len(targets) == 1 {
		t := targets[0]
		res, out := x.callOne(f, ins, cc, t.fn, t.free, t.args, st, path)
		bind(res)
		return out
	}
	if !cc.IsInvoke() {
		rest := st.pc
		for _, t := range targets {
			rest = x.And(rest, x.Not(t.c))
		}
		if x.Sat(x.And(x.ctx, rest)) {
			f.dies = append(f.dies, rest) // no such function: an index out of range
		}
	}
	var ss []*state
	var rs [][]Val
	for i, t := range targets {
		n := st.clone()
		n.pc = x.And(st.pc, t.c)
		if !x.Sat(x.And(x.ctx, n.pc)) {
			continue
		}
		res, out := x.callOne(f, ins, cc, t.fn, t.free, t.args, n, fmt.Sprintf("%s@%d", path, i))
		if out.pc == False {
			continue
		}
		ss = append(ss, out)
		rs = append(rs, res)
	}
	if len(ss) == 0 {
		st.pc = False
		return st
	}
	m := x.merge(ss)
	if len(rs[0]) > 0 {
		var res []Val
		for k := range rs[0] {
			var vs []Val
			for i := range rs {
				vs = append(vs, rs[i][k])
			}
			res = append(res, x.phi(m.pc, ss, vs))
		}
		bind(res)
	}
	return m
}

func instrIndex(ins ssa.Instruction) int {
	for i, j := range ins.Block().Instrs {
		if j == ins {
			return i
		}
	}
	return -1
}

func (x *Exec) onStack(fn *ssa.Function) bool {
	for _, s := range x.stack {
		if s == fn {
			return true
		}
	}
	return false
}

// callOne calls one resolved target (fn nil: an unknown callee).
func (x *Exec) callOne(f *frame, ins *ssa.Call, cc *ssa.CallCommon, fn *ssa.Function, free, args []Val, st *state, path string) ([]Val, *state) {
	sig := cc.Signature()
	if fn != nil {
		if r, out, ok := x.model(f, ins, fn, args, st, path); ok {
			return r, out
		}
		if len(fn.Blocks) > 0 && !x.onStack(fn) && len(x.stack) < 30 && (fn.Synthetic != "" && fn.Pkg == nil || fn.Parent() != nil || strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "thunk") || x.Inline(fn)) {
			res, out := x.callFn(fn, args, free, st, path)
			if died := x.And(st.pc, x.Not(out.pc)); died != False {
				f.dies = append(f.dies, died)
			}
			return res, out
		}
	}
	name := ""
	switch {
	case fn != nil && x.onStack(fn) && !x.exported(fn):
		name = "rec(helper)"
		if x.Known != nil && x.Known(fn) {
			name = x.FnName(fn)
		} else if fn == x.root {
			name = "rec(root)"
		}
	case fn != nil && fn == x.root:
		name = "rec(root)"
	case fn != nil:
		name = x.FnName(fn)
		// a method of what an interface is known to hold
		if fn.Signature.Recv() != nil && len(args) > 0 && len(args[0]) == 1 && args[0][0].T.Op == "assert" {
			a := args[0][0].T
			if x.Implies(x.And(x.ctx, st.pc), x.Cond(x.TypeIs(a.Args[0], a.Aux))) {
				name = "invoke " + fn.Name()
				args = append([]Val{One(a.Args[0])}, args[1:]...)
			}
		}
	case cc.IsInvoke():
		name = "invoke " + cc.Method.Name()
	default:
		name = "dyncall"
	}
	return x.opaque(f, ins, name, fn, cc, sig, args, st, path)
}

func (x *Exec) exported(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

// opaque models a call that is not followed.
func (x *Exec) opaque(f *frame, ins *ssa.Call, name string, fn *ssa.Function, cc *ssa.CallCommon, sig *types.Signature, args []Val, st *state, path string) ([]Val, *state) {
	asm := x.And(x.ctx, st.pc)
	mr := x.P.ModRef(fn, cc)
	sargs := x.snapAll(st, args)
	for i := range sargs {
		if i < len(args) && (sig.Variadic() == false || i < len(args)-1) {
			sargs[i] = x.snapFields(st, args[i], sargs[i], fieldSet(mr.RF, i))
		}
	}
	if mr.NoReturn {
		x.effect(f, st, "exit", name, ins.Pos(), sargs)
		f.dies = append(f.dies, st.pc)
		out := st.clone()
		out.pc = False
		return x.nevers(sig), out
	}
	rt := types.Type(sig.Results())
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	if fn != nil && isInt(rt) && x.P.countFn(fn) {
		x.counts[name] = true
	}
	call := x.Apply(asm, func(t []*Term) Val {
		return One(x.raw("call", name, t, nil, nil, rt))
	}, sargs...)
	if mr.World {
		x.effect(f, st, "call", name, ins.Pos(), sargs)
	}
	for i, w := range mr.Writes {
		if !w || i >= len(args) {
			continue
		}
		for _, c := range args[i] {
			o := unwrapIf(c.T)
			if isConst(o) || o.Op == "fn" || o.Op == "closure" {
				continue
			}
			if fs := fieldSet(mr.WF, i); fs != nil && structPtr(o.Type) && !isBuf(o.Type) {
				x.opaqueFields(st, o, c.C, fs, i, name, sargs, asm)
				continue
			}
			x.opaqueContent(st, o, c.C, i, name, sargs, asm)
		}
	}
	if sig.Results().Len() == 0 {
		return nil, st
	}
	var res []Val
	if sig.Results().Len() == 1 {
		switch {
		case mr.RetParam >= 0 && mr.RetParam < len(args):
			res = []Val{args[mr.RetParam]}
		case mr.Fresh:
			a := x.raw("alloc", "opq:"+path+":"+x.typeTag(rt), nil, nil, nil, rt)
			x.allocLvl[a] = x.depth
			st.mem[x.contentAddr(a)] = call
			res = []Val{One(a)}
		case isBool(rt):
			b := False
			for _, c := range call {
				b = x.Or(b, x.And(c.C, x.Atom(c.T)))
			}
			res = []Val{x.Bool(b)}
		default:
			res = []Val{call}
		}
		return res, st
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		res = append(res, x.Apply(asm, func(c []*Term) Val { return x.ext(c[0], i, t) }, call))
	}
	return res, st
}

func structPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Struct)
	return ok
}

// opaqueContent: a call that is not followed changes what o refers to.
func (x *Exec) opaqueContent(st *state, o *Term, cc Bdd, i int, name string, sargs []Val, asm Bdd) {
	old := x.content(st, o)
	if isBuf(o.Type) {
		old = x.bufContent(st, o)
	}
	var oldV Val = old
	if len(old) == 1 && old[0].T == o {
		oldV = One(x.raw("orig", "", nil, nil, nil, nil))
		if o.Op == "alloc" && !isBuf(o.Type) {
			oldV = x.snap(st, One(o))
		}
	}
	rest := append([]Val{oldV}, sargs...)
	rest[1+i] = One(x.raw("it", "", nil, nil, nil, nil))
	nv := x.Apply(asm, func(t []*Term) Val {
		return One(x.raw("aft", name, t, nil, nil, o.Type))
	}, rest...)
	st.mem[x.contentAddr(o)] = x.merge2(cc, nv, old)
	if isPtr(o) {
		x.clearSub(st, o)
		delete(st.mem, o)
	}
}

// opaqueFields: a call that is not followed changes some fields of *o.
func (x *Exec) opaqueFields(st *state, o *Term, c Bdd, fs map[string]bool, i int, name string, sargs []Val, asm Bdd) {
	u := derefType(o.Type).Underlying().(*types.Struct)
	for k := 0; k < u.NumFields(); k++ {
		fl := u.Field(k)
		if !fs[fl.Name()] && !fs[fl.Name()+"."] {
			continue
		}
		fa := x.fldAddr(o, fl.Name(), fl.Type())
		old := x.loadLeaf(st, fa, fl.Type())
		if !fs[fl.Name()] {
			for _, k := range x.Prune(asm, old) {
				t := unwrapIf(k.T)
				if b := x.And(c, k.C); b != False && !isConst(t) && t.Op != "fn" && t.Op != "closure" {
					x.opaqueContent(st, t, b, i, name+"."+fl.Name(), sargs, asm)
				}
			}
			continue
		}
		oldV := x.snap(st, old)
		if len(old) == 1 && sameVal(old, x.Fld(x.raw("deref", "", []*Term{o}, nil, nil, nil), fl.Name(), fl.Type())) {
			oldV = One(x.raw("orig", "", nil, nil, nil, nil))
		}
		rest := append([]Val{oldV}, sargs...)
		rest[1+i] = One(x.raw("it", "", nil, nil, nil, nil))
		nv := x.Apply(asm, func(t []*Term) Val {
			a := x.raw("aft", name+"."+fl.Name(), t, nil, nil, fl.Type())
			if isBool(fl.Type()) {
				return x.Bool(x.Atom(a))
			}
			return One(a)
		}, rest...)
		x.storeLeaf(st, fa, nv, c, fl.Type())
	}
}

// snapFields adds what was written to the fields, that the callee may look
// at, of a pointer that is handed over.
func (x *Exec) snapFields(st *state, v, sv Val, fs map[string]bool) Val {
	var out Val
	done := false
	for _, c := range v {
		if c.T.alloc || !structPtr(c.T.Type) || strings.HasPrefix(c.T.Op, "&") {
			continue
		}
		if w := x.writtenFields(st, c.T, fs); w != nil {
			at := x.raw("at", "", []*Term{c.T}, []Val{One(w)}, nil, c.T.Type)
			for _, k := range sv {
				if b := x.And(c.C, k.C); b != False && k.T == c.T {
					out = append(out, Case{b, at})
					done = true
				}
			}
		}
	}
	if !done {
		return sv
	}
	rest := True
	for _, c := range out {
		rest = x.And(rest, x.Not(c.C))
	}
	for _, k := range sv {
		if b := x.And(rest, k.C); b != False {
			out = append(out, Case{b, k.T})
		}
	}
	return x.norm(out)
}

// writtenFields is an updf chain over "orig" with the written fields of *p.
func (x *Exec) writtenFields(st *state, p *Term, fs map[string]bool) *Term {
	u := derefType(p.Type).Underlying().(*types.Struct)
	var r *Term
	for i := 0; i < u.NumFields(); i++ {
		fl := u.Field(i)
		if fs != nil && !fs[fl.Name()] {
			continue
		}
		fa := x.fldAddr(p, fl.Name(), fl.Type())
		_, ok := st.mem[fa]
		if !ok {
			for k := range st.mem {
				if k != fa && (k.Op == "&fld" || k.Op == "&idx") && isPrefix(fa, k) {
					ok = true
					break
				}
			}
		}
		if !ok {
			continue
		}
		val := x.snap(st, x.loadField(st, p, fa, fl.Name(), fl.Type()))
		if sameVal(val, x.Fld(x.raw("deref", "", []*Term{p}, nil, nil, nil), fl.Name(), fl.Type())) {
			continue
		}
		if r == nil {
			r = x.raw("orig", "", nil, nil, nil, nil)
		}
		r = x.UpdF(r, fl.Name(), val)
	}
	return r
}

func (x *Exec) nevers(sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, One(x.raw("never", "", nil, nil, nil, nil)))
	}
	return res
}

// ---- builtins ----

func (x *Exec) builtin(f *frame, ins *ssa.Call, b *ssa.Builtin, args []Val, st *state) []Val {
	asm := x.And(x.ctx, st.pc)
	switch b.Name() {
	case "len":
		return []Val{x.Apply(asm, func(t []*Term) Val {
			if m, ok := t[0].Type, t[0].Type != nil; ok {
				if _, isMap := m.Underlying().(*types.Map); isMap {
					return x.Apply(asm, func(c []*Term) Val {
						if c[0].Op == "empty" {
							return One(x.Int(0))
						}
						return One(x.raw("len", "", c, nil, nil, types.Typ[types.Int]))
					}, x.content(st, t[0]))
				}
			}
			if t[0].Op == "alloc" {
				return x.Apply(asm, func(c []*Term) Val { return x.Len(c[0]) }, x.content(st, t[0]))
			}
			return x.Len(t[0])
		}, args[0])}
	case "cap":
		return []Val{x.Apply(asm, func(t []*Term) Val {
			return One(x.raw("cap", "", t, nil, nil, types.Typ[types.Int]))
		}, args[0])}
	case "append":
		typ := ins.Type()
		// the content of a slice that was updated in place goes along
		return []Val{x.Apply(asm, func(t []*Term) Val {
			base := x.content(st, t[0])
			return x.Apply(asm, func(u []*Term) Val {
				return x.Apply(asm, func(w []*Term) Val { return One(x.AppendSlice(u[0], w[0], typ)) }, x.content(st, t[1]))
			}, base)
		}, args[0], x.strToBytes(args[1], typ))}
	case "copy":
		for _, c := range args[0] {
			old := x.content(st, c.T)
			nv := x.Apply(asm, func(t []*Term) Val {
				if t[0].Op == "mkslice" && len(x.Len(t[1])) == 1 && x.Len(t[1])[0].T == t[0].Args[0] {
					return One(x.raw("copyof", "", []*Term{t[1]}, nil, nil, t[0].Type))
				}
				return One(x.raw("copied", "", t, nil, nil, c.T.Type))
			}, old, x.contentV(st, args[1]))
			st.mem[x.contentAddr(c.T)] = x.merge2(c.C, nv, old)
		}
		return []Val{One(x.raw("copyn", "", nil, nil, nil, types.Typ[types.Int]))}
	case "delete":
		for _, c := range args[0] {
			old := x.content(st, c.T)
			nv := x.Apply(asm, func(t []*Term) Val {
				if t[0].Op == "empty" {
					return One(t[0])
				}
				return One(x.raw("delm", "", t, nil, nil, c.T.Type))
			}, old, args[1])
			st.mem[x.contentAddr(c.T)] = x.merge2(c.C, nv, old)
		}
		return nil
	case "print", "println":
		x.effect(f, st, "write", "stderr", ins.Pos(), x.snapAll(st, args))
		return nil
	case "panic":
		x.effect(f, st, "panic", "", ins.Pos(), x.snapAll(st, args))
		return nil
	case "min", "max":
		return []Val{x.Apply(asm, func(t []*Term) Val {
			p, q := t[0], t[1]
			if b.Name() == "max" {
				p, q = q, p
			}
			c := x.Lt(p, q)
			return x.norm(Val{{c, t[0]}, {x.Not(c), t[1]}})
		}, args...)}
	case "recover":
		return []Val{One(x.raw("recover", "", nil, nil, nil, nil))}
	case "ssa:wrapnilchk":
		return []Val{args[0]}
	}
	r := x.Apply(asm, func(t []*Term) Val { return One(x.raw("builtin", b.Name(), t, nil, nil, ins.Type())) }, args...)
	if b.Name() == "clear" || b.Name() == "close" {
		x.effect(f, st, "call", b.Name(), ins.Pos(), args)
	}
	return []Val{r}
}

func (x *Exec) contentV(st *state, v Val) Val {
	var out Val
	for _, c := range v {
		for _, d := range x.content(st, c.T) {
			if b := x.And(c.C, d.C); b != False {
				out = append(out, Case{b, d.T})
			}
		}
	}
	return x.norm(out)
}

func (x *Exec) strToBytes(v Val, typ types.Type) Val {
	out := make(Val, len(v))
	for i, c := range v {
		out[i] = c
		if isString(c.T.Type) {
			out[i].T = x.Conv(c.T, "bytes", typ)
		}
	}
	return out
}

// ---- models of library functions whose meaning is needed ----

func (x *Exec) model(f *frame, ins *ssa.Call, fn *ssa.Function, args []Val, st *state, path string) ([]Val, *state, bool) {
	asm := x.And(x.ctx, st.pc)
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	recv := fn.Signature.Recv()
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	one := func(v Val) ([]Val, *state, bool) { return []Val{v}, st, true }
	switch pkg {
	case "fmt":
		switch name {
		case "Sprintf":
			return one(x.format(st, asm, path, args[0], args[1]))
		case "Errorf":
			s := x.format(st, asm, path, args[0], args[1])
			return one(x.Apply(asm, func(t []*Term) Val { return One(x.raw("fmterr", "", t, nil, nil, fn.Signature.Results().At(0).Type())) }, s))
		case "Sprint", "Sprintln":
			return one(x.print(st, asm, path, args[0], name == "Sprintln"))
		case "Printf":
			x.effect(f, st, "write", "stdout", ins.Pos(), []Val{x.format(st, asm, path, args[0], args[1])})
			return x.nn(fn), st, true
		case "Print", "Println":
			x.effect(f, st, "write", "stdout", ins.Pos(), []Val{x.print(st, asm, path, args[0], name == "Println")})
			return x.nn(fn), st, true
		case "Fprintf", "Fprint", "Fprintln":
			var s Val
			if name == "Fprintf" {
				s = x.format(st, asm, path, args[1], args[2])
			} else {
				s = x.print(st, asm, path, args[1], name == "Fprintln")
			}
			x.writeTo(f, ins, st, args[0], s)
			return x.nn(fn), st, true
		}
	case "io":
		if name == "WriteString" {
			x.writeTo(f, ins, st, args[0], args[1])
			return x.nn(fn), st, true
		}
	case "strconv":
		if name == "Itoa" {
			return one(x.Apply(asm, func(t []*Term) Val { return One(x.itoa(t[0])) }, args[0]))
		}
		if name == "Quote" {
			return one(x.Apply(asm, func(t []*Term) Val { return One(x.fmtv("q", t[0])) }, args[0]))
		}
	case "errors":
		if name == "New" {
			return one(x.Apply(asm, func(t []*Term) Val { return One(x.raw("fmterr", "", t, nil, nil, fn.Signature.Results().At(0).Type())) }, args[0]))
		}
	case "strings":
		if recv != nil && isBuf(recv.Type()) {
			return x.bufMethod(f, ins, fn, name, args, st)
		}
		switch name {
		case "Contains":
			return one(x.strPred("Contains", args, asm, func(a, b string) bool { return strings.Contains(a, b) }))
		case "HasPrefix":
			return one(x.strPred("HasPrefix", args, asm, strings.HasPrefix))
		case "HasSuffix":
			return one(x.strPred("HasSuffix", args, asm, strings.HasSuffix))
		case "Join":
			return one(x.Apply(asm, func(t []*Term) Val { return x.joinStr(t[0], t[1]) }, x.contentV(st, args[0]), args[1]))
		}
	case "bytes":
		if recv != nil && isBuf(recv.Type()) {
			return x.bufMethod(f, ins, fn, name, args, st)
		}
		if name == "NewBuffer" || name == "NewBufferString" {
			a := x.raw("alloc", "buf:"+path, nil, nil, nil, fn.Signature.Results().At(0).Type())
			x.allocLvl[a] = x.depth
			init := args[0]
			if name == "NewBuffer" {
				init = x.Apply(asm, func(t []*Term) Val {
					return One(x.Conv(t[0], "str", types.Typ[types.String]))
				}, x.contentV(st, args[0]))
			}
			st.mem[x.contentAddr(a)] = init
			return one(One(a))
		}
	case "text/template":
		switch {
		case recv == nil && name == "Must":
			return one(args[0])
		case recv == nil && name == "New":
			return one(One(x.raw("tmpl", "", nil, nil, nil, fn.Signature.Results().At(0).Type())))
		case name == "Parse":
			e := One(x.Nil())
			return []Val{args[0], e}, st, true
		case name == "Funcs" || name == "Option" || name == "Delims":
			return one(args[0])
		case name == "Execute":
			s := x.Apply(asm, func(t []*Term) Val {
				return One(x.raw("render", "", t, nil, nil, types.Typ[types.String]))
			}, args[0], x.stripIf(x.snap(st, args[2])))
			x.writeTo(f, ins, st, args[1], s)
			errv := x.Apply(asm, func(t []*Term) Val {
				return One(x.raw("rendererr", "", t, nil, nil, fn.Signature.Results().At(0).Type()))
			}, s)
			return one(errv)
		}
	case "github.com/goccmack/goutil/stringset":
		return x.setModel(f, ins, fn, name, args, st, path)
	case "sort", "slices":
		return x.sortModel(f, ins, fn, name, args, st)
	case "unicode":
		// class predicates stay opaque but are folded on constants nowhere
	}
	return nil, nil, false
}

func (x *Exec) stripIf(v Val) Val {
	out := make(Val, len(v))
	for i, c := range v {
		out[i] = Case{c.C, unwrapIf(c.T)}
	}
	return x.norm(out)
}

func (x *Exec) nn(fn *ssa.Function) []Val {
	return []Val{One(x.raw("nwritten", "", nil, nil, nil, types.Typ[types.Int])), One(x.Nil())}
}

func (x *Exec) strPred(n string, args []Val, asm Bdd, p func(a, b string) bool) Val {
	return x.Bool(x.Cond(x.Apply(asm, func(t []*Term) Val {
		if a, ok := strConst(t[0]); ok {
			if b, ok := strConst(t[1]); ok {
				return x.Bool(x.b2(p(a, b)))
			}
		}
		return x.Bool(x.Atom(x.raw("call", "strings."+n, t, nil, nil, types.Typ[types.Bool])))
	}, args...)))
}

func (x *Exec) itoa(t *Term) *Term {
	if n, ok := intConst(t); ok {
		return x.Str(fmt.Sprint(n))
	}
	return x.raw("itoa", "", []*Term{t}, nil, nil, types.Typ[types.String])
}

func (x *Exec) fmtv(verb string, t *Term) *Term {
	u := unwrapIf(t)
	if u.C != nil {
		if verb == "q" && u.C.Kind() == constant.String {
			return x.Str(fmt.Sprintf("%q", constant.StringVal(u.C)))
		}
	}
	return x.raw("fmtv", verb, []*Term{t}, nil, nil, types.Typ[types.String])
}

func plainBasic(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.(*types.Basic)
	if ok {
		return true
	}
	// named basic types without a String or Error method print plainly
	if n, ok := t.(*types.Named); ok {
		if _, isb := n.Underlying().(*types.Basic); isb {
			for i := 0; i < n.NumMethods(); i++ {
				if m := n.Method(i).Name(); m == "String" || m == "Error" || m == "Format" || m == "GoString" {
					return false
				}
			}
			return true
		}
	}
	return false
}

// piece is the text one verb produces for an operand.
func (x *Exec) piece(verb string, a *Term) *Term {
	u := a
	var st types.Type
	if a.Op == "mkif" {
		u = a.Args[0]
		st = a.Type
	}
	if plainBasic(st) {
		switch verb {
		case "s", "v":
			if isString(st) {
				return u
			}
			if verb == "v" && isInt(st) {
				return x.itoa(u)
			}
		case "d":
			if isInt(st) {
				return x.itoa(u)
			}
		case "c":
			if isInt(st) {
				return x.Conv(x.withT(u, types.Typ[types.Rune]), "string(rune)", types.Typ[types.String])
			}
		}
	} else if verb == "d" && st != nil && isInt(st) {
		return x.itoa(u)
	}
	if verb == "v" {
		verb = "s"
	}
	if st == nil && verb == "s" && a.Type != nil && types.IsInterface(a.Type) {
		// an error or a Stringer prints itself
		for _, m := range []string{"Error", "String"} {
			if o, _, _ := types.LookupFieldOrMethod(a.Type, false, nil, m); o != nil {
				return x.raw("call", "invoke "+m, []*Term{a}, nil, nil, types.Typ[types.String])
			}
		}
	}
	if verb == "s" && st != nil && x.fmtSt != nil {
		if t := x.stringer(st, u); t != nil {
			return t
		}
	}
	return x.fmtv(verb, a)
}

// stringer is the text of a value whose type says how it is printed: the
// result of its method.
func (x *Exec) stringer(t types.Type, u *Term) *Term {
	if x.P.MethodByName(t, "Format") != nil {
		return nil
	}
	fn := x.P.MethodByName(t, "Error")
	if fn == nil {
		fn = x.P.MethodByName(t, "String")
	}
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	sig := fn.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
		return nil
	}
	if fn.Synthetic != "" || x.onStack(fn) || len(x.stack) >= 30 {
		return nil
	}
	mr := x.P.ModRef(fn, nil)
	if mr.World || mr.NoReturn {
		return nil
	}
	for _, w := range mr.Writes {
		if w {
			return nil
		}
	}
	_, basic := t.Underlying().(*types.Basic)
	if x.Inline(fn) {
		if !basic {
			return nil
		}
		st := x.fmtSt.clone()
		mark := len(x.effects)
		x.fmtN++
		res, out := x.callFn(fn, []Val{One(u)}, nil, st, fmt.Sprintf("%s/s%d", x.fmtPath, x.fmtN))
		if len(x.effects) != mark || out.pc != st.pc || len(res) != 1 {
			x.effects = x.effects[:mark]
			return nil
		}
		return x.Fold(x.Prune(x.And(x.ctx, st.pc), x.snap(out, res[0])))
	}
	if _, st := t.Underlying().(*types.Struct); !basic && (u.alloc || !st && !structPtr(t)) {
		return nil
	}
	return x.raw("call", x.FnName(fn), []*Term{u}, nil, nil, sig.Results().At(0).Type())
}

func (x *Exec) withT(t *Term, typ types.Type) *Term { return t }

func (x *Exec) format(st *state, asm Bdd, path string, fv, av Val) Val {
	defer func(st *state, p string, n int) { x.fmtSt, x.fmtPath, x.fmtN = st, p, n }(x.fmtSt, x.fmtPath, x.fmtN)
	x.fmtSt, x.fmtPath, x.fmtN = st, path, 0
	av = x.snap(st, av)
	return x.Apply(asm, func(t []*Term) Val {
		fs, ok := strConst(t[0])
		if !ok {
			return One(x.raw("sprintf", "", t, nil, nil, types.Typ[types.String]))
		}
		if t[1].Op != "seq" {
			return One(x.raw("sprintf", "", t, nil, nil, types.Typ[types.String]))
		}
		args := t[1].Args
		var parts []*Term
		n := 0
		for i := 0; i < len(fs); {
			if fs[i] != '%' {
				j := strings.IndexByte(fs[i:], '%')
				if j < 0 {
					j = len(fs) - i
				}
				parts = append(parts, x.Str(fs[i:i+j]))
				i += j
				continue
			}
			j := i + 1
			for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
				j++
			}
			if j >= len(fs) {
				parts = append(parts, x.Str("%!"))
				break
			}
			if fs[j] == '%' {
				parts = append(parts, x.Str("%"))
				i = j + 1
				continue
			}
			if n >= len(args) {
				parts = append(parts, x.Str("%!"+string(fs[j])))
			} else {
				verb := fs[i+1 : j+1]
				parts = append(parts, x.piece(verb, args[n]))
				n++
			}
			i = j + 1
		}
		for ; n < len(args); n++ {
			parts = append(parts, x.Str("%!EXTRA"), args[n])
		}
		return One(x.Cat(parts...))
	}, fv, av)
}

func (x *Exec) print(st *state, asm Bdd, path string, av Val, ln bool) Val {
	defer func(st *state, p string, n int) { x.fmtSt, x.fmtPath, x.fmtN = st, p, n }(x.fmtSt, x.fmtPath, x.fmtN)
	x.fmtSt, x.fmtPath, x.fmtN = st, path, 0
	av = x.snap(st, av)
	return x.Apply(asm, func(t []*Term) Val {
		if t[0].Op != "seq" {
			return One(x.raw("sprint", fmt.Sprint(ln), t, nil, nil, types.Typ[types.String]))
		}
		var parts []*Term
		strs := true
		for _, a := range t[0].Args {
			if a.Op != "mkif" || !isString(a.Type) {
				strs = false
			}
		}
		if !ln && !strs && len(t[0].Args) > 1 {
			return One(x.raw("sprint", "", t[0].Args, nil, nil, types.Typ[types.String]))
		}
		for i, a := range t[0].Args {
			if ln && i > 0 {
				parts = append(parts, x.Str(" "))
			}
			parts = append(parts, x.piece("v", a))
		}
		if ln {
			parts = append(parts, x.Str("\n"))
		}
		return One(x.Cat(parts...))
	}, av)
}

// writeTo appends text to a writer.
func (x *Exec) writeTo(f *frame, ins *ssa.Call, st *state, w, s Val) {
	asm := x.And(x.ctx, st.pc)
	for _, c := range w {
		o := unwrapIf(c.T)
		if isBuf(o.Type) {
			old := x.bufContent(st, o)
			nv := x.Apply(asm, func(t []*Term) Val { return One(x.Cat(t[0], t[1])) }, old, s)
			st.mem[x.contentAddr(o)] = x.merge2(c.C, nv, old)
			continue
		}
		n := *st
		n.pc = x.And(st.pc, c.C)
		name := "writer"
		if o.Op == "gval" && o.Aux == "os.Stdout" {
			x.effect(f, &n, "write", "stdout", ins.Pos(), []Val{s})
			continue
		}
		x.effect(f, &n, "write", name, ins.Pos(), []Val{One(o), s})
	}
}

func (x *Exec) bufMethod(f *frame, ins *ssa.Call, fn *ssa.Function, name string, args []Val, st *state) ([]Val, *state, bool) {
	asm := x.And(x.ctx, st.pc)
	add := func(s Val) {
		for _, c := range args[0] {
			o := unwrapIf(c.T)
			old := x.bufContent(st, o)
			nv := x.Apply(asm, func(t []*Term) Val { return One(x.Cat(t[0], t[1])) }, old, s)
			st.mem[x.contentAddr(o)] = x.merge2(c.C, nv, old)
		}
	}
	str := types.Typ[types.String]
	switch name {
	case "WriteString":
		add(args[1])
		return x.nn(fn), st, true
	case "Write":
		add(x.Apply(asm, func(t []*Term) Val { return One(x.Conv(t[0], "str", str)) }, x.contentV(st, args[1])))
		return x.nn(fn), st, true
	case "WriteByte", "WriteRune":
		add(x.Apply(asm, func(t []*Term) Val {
			if n, ok := intConst(t[0]); ok {
				return One(x.Str(string(rune(n))))
			}
			return One(x.raw("conv", "string(rune)", t, nil, nil, str))
		}, args[1]))
		if name == "WriteByte" {
			return []Val{One(x.Nil())}, st, true
		}
		return x.nn(fn), st, true
	case "String", "Bytes", "Len":
		var out Val
		for _, c := range args[0] {
			for _, d := range x.bufContent(st, unwrapIf(c.T)) {
				if b := x.And(c.C, d.C); b != False {
					out = append(out, Case{b, d.T})
				}
			}
		}
		out = x.Prune(asm, x.norm(out))
		switch name {
		case "Bytes":
			out = x.Apply(asm, func(t []*Term) Val {
				return One(x.raw("conv", "bytes", t, nil, nil, fn.Signature.Results().At(0).Type()))
			}, out)
		case "Len":
			out = x.Apply(asm, func(t []*Term) Val { return x.Len(t[0]) }, out)
		}
		return []Val{out}, st, true
	case "Reset":
		for _, c := range args[0] {
			o := unwrapIf(c.T)
			st.mem[x.contentAddr(o)] = x.merge2(c.C, One(x.Str("")), x.bufContent(st, o))
		}
		return nil, st, true
	case "Grow":
		return nil, st, true
	}
	return nil, nil, false
}

// ---- sorting ----

func (x *Exec) sortModel(f *frame, ins *ssa.Call, fn *ssa.Function, name string, args []Val, st *state) ([]Val, *state, bool) {
	asm := x.And(x.ctx, st.pc)
	if len(args) == 0 || len(args[0]) != 1 {
		return nil, nil, false
	}
	o := unwrapIf(args[0][0].T)
	if o.Type == nil {
		return nil, nil, false
	}
	slt, ok := o.Type.Underlying().(*types.Slice)
	if !ok {
		if args[0][0].T.Op == "mkif" {
			slt, ok = args[0][0].T.Type.Underlying().(*types.Slice)
		}
		if !ok {
			return nil, nil, false
		}
	}
	stable := false
	ea := x.raw("sa", x.TypeName(slt.Elem()), nil, nil, nil, slt.Elem())
	eb := x.raw("sb", x.TypeName(slt.Elem()), nil, nil, nil, slt.Elem())
	var less Val
	cmpSeq := x.Seq([]*Term{ea, eb}, o.Type)
	switch name {
	case "Sort", "Stable":
		stable = name == "Stable"
		if fn.Signature.Recv() != nil {
			return nil, nil, false
		}
		if args[0][0].T.Op == "mkif" {
			m := x.P.MethodByName(args[0][0].T.Type, "Less")
			if m == nil {
				return nil, nil, false
			}
			less = x.runLess(m, []Val{One(cmpSeq), One(x.Int(0)), One(x.Int(1))}, nil, st, ins)
		} else { // slices.Sort
			less = x.Bool(x.Lt(ea, eb))
		}
	case "Strings", "Ints":
		less = x.Bool(x.Lt(ea, eb))
	case "Slice", "SliceStable":
		stable = name == "SliceStable"
		if len(args[1]) != 1 || args[1][0].T.Op != "closure" && args[1][0].T.Op != "fn" {
			return nil, nil, false
		}
		// the closure indexes the slice itself: give the slice two known elements
		tmp := st.clone()
		tmp.mem[x.contentAddr(o)] = One(cmpSeq)
		c := args[1][0].T
		less = x.runLess(c.fn.(*ssa.Function), []Val{One(x.Int(0)), One(x.Int(1))}, c.Vals, tmp, ins)
	case "SortFunc", "SortStableFunc":
		stable = name == "SortStableFunc"
		c := args[1][0].T
		if len(args[1]) != 1 || c.Op != "closure" && c.Op != "fn" {
			return nil, nil, false
		}
		r := x.runLess(c.fn.(*ssa.Function), []Val{One(ea), One(eb)}, c.Vals, st, ins)
		less = x.Bool(x.Cond(x.Apply(asm, func(t []*Term) Val { return x.Bool(x.Lt(t[0], x.Int(0))) }, r)))
	default:
		return nil, nil, false
	}
	lessT := x.raw("less", fmt.Sprint(stable && !x.totalOrder(less, ea, eb)), nil, nil, []Bdd{x.Cond(less)}, nil)
	old := x.content(st, o)
	nv := x.Apply(asm, func(t []*Term) Val {
		return One(x.raw("sorted", "", []*Term{t[0], lessT}, nil, nil, o.Type))
	}, old)
	st.mem[x.contentAddr(o)] = nv
	return nil, st, true
}

// totalOrder: less is the order of the elements themselves.
func (x *Exec) totalOrder(less Val, a, b *Term) bool {
	if _, ok := a.Type.Underlying().(*types.Basic); !ok {
		return false
	}
	c := x.Cond(less)
	return c == x.Lt(a, b) || c == x.Lt(b, a)
}

// ---- sets of strings ----

// setModel: the content of a set is a map from its elements to true.
func (x *Exec) setModel(f *frame, ins *ssa.Call, fn *ssa.Function, name string, args []Val, st *state, path string) ([]Val, *state, bool) {
	asm := x.And(x.ctx, st.pc)
	switch name {
	case "New", "AddSet", "Clone":
		if x.onStack(fn) {
			return nil, nil, false
		}
		res, out := x.callFn(fn, args, nil, st, path)
		return res, out, true
	}
	if len(args) == 0 || fn.Signature.Recv() == nil || !structPtr(fn.Signature.Recv().Type()) {
		return nil, nil, false
	}
	u := derefType(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	if u.NumFields() != 1 {
		return nil, nil, false
	}
	mt := u.Field(0).Type()
	// the map of each of the possible sets
	maps := func(v Val) Val {
		return x.Prune(asm, x.Apply(asm, func(t []*Term) Val {
			p := unwrapIf(t[0])
			return x.loadField(st, p, x.fldAddr(p, "set", mt), "set", mt)
		}, v))
	}
	elems := func(m *Term) *Term {
		return x.raw("elems", "", []*Term{m}, nil, nil, types.NewSlice(types.Typ[types.String]))
	}
	fresh := func(v Val) ([]Val, *state, bool) {
		rt := fn.Signature.Results().At(0).Type()
		a := x.raw("alloc", "opq:"+path+":"+x.typeTag(rt), nil, nil, nil, rt)
		x.allocLvl[a] = x.depth
		st.mem[x.contentAddr(a)] = v
		return []Val{One(a)}, st, true
	}
	switch name {
	case "Add":
		xs := x.contentV(st, args[1])
		for _, s := range xs {
			if x.And(asm, s.C) == False {
				continue
			}
			for _, c := range maps(args[0]) {
				cc := x.And(c.C, s.C)
				old := x.content(st, c.T)
				nv := x.Apply(x.And(asm, cc), func(t []*Term) Val { return One(x.setAdd(t[0], s.T, mt)) }, old)
				st.mem[x.contentAddr(c.T)] = x.merge2(cc, nv, old)
			}
		}
		return []Val{args[0]}, st, true
	case "Remove":
		for _, k := range args[1] {
			for _, c := range maps(args[0]) {
				cc := x.And(c.C, k.C)
				old := x.content(st, c.T)
				nv := x.Apply(x.And(asm, cc), func(t []*Term) Val { return One(x.setDel(t[0], k.T, mt)) }, old)
				st.mem[x.contentAddr(c.T)] = x.merge2(cc, nv, old)
			}
		}
		return []Val{args[0]}, st, true
	case "Contain":
		return []Val{x.Apply(asm, func(t []*Term) Val { return x.Has(t[0], t[1]) }, x.contentV(st, maps(args[0])), args[1])}, st, true
	case "Elements", "ElementsSorted":
		v := x.Apply(asm, func(t []*Term) Val { return One(elems(t[0])) }, x.contentV(st, maps(args[0])))
		if name == "ElementsSorted" {
			str := types.Typ[types.String]
			ea, eb := x.raw("sa", x.TypeName(str), nil, nil, nil, str), x.raw("sb", x.TypeName(str), nil, nil, nil, str)
			less := x.raw("less", "false", nil, nil, []Bdd{x.Lt(ea, eb)}, nil)
			v = x.Apply(asm, func(t []*Term) Val {
				return One(x.raw("sorted", "", []*Term{t[0], less}, nil, nil, t[0].Type))
			}, v)
		}
		return fresh(v)
	case "Len":
		return []Val{x.Apply(asm, func(t []*Term) Val { return x.Len(t[0]) }, x.contentV(st, maps(args[0])))}, st, true
	case "Equal":
		return []Val{x.Apply(asm, func(t []*Term) Val {
			return x.SetEq(t[0], t[1])
		}, x.contentV(st, maps(args[0])), x.contentV(st, maps(args[1])))}, st, true
	}
	return nil, nil, false
}

func (x *Exec) runLess(fn *ssa.Function, args, free []Val, st *state, ins *ssa.Call) Val {
	mark := len(x.effects)
	tmp := st.clone()
	tmp.pc = True
	saved := x.ctx
	x.ctx = True
	if x.onStack(fn) {
		x.ctx = saved
		return One(x.raw("recless", "", nil, nil, nil, nil))
	}
	res, _ := x.callFn(fn, args, free, tmp, fmt.Sprintf("less%d", len(x.stack)))
	x.ctx = saved
	x.effects = x.effects[:mark]
	if len(res) == 0 {
		return One(x.raw("noless", "", nil, nil, nil, nil))
	}
	return res[0]
}

// closureSummary is a function value as what it computes.
func (x *Exec) closureSummary(st *state, t *Term) *Term {
	fn := t.fn.(*ssa.Function)
	if x.onStack(fn) {
		return x.raw("recfn", "", nil, nil, nil, t.Type)
	}
	var args []Val
	for i := range fn.Params {
		args = append(args, One(x.raw("lp", fmt.Sprintf("%d.%d:%s", len(x.stack), i, x.TypeName(fn.Params[i].Type())), nil, nil, nil, fn.Params[i].Type())))
	}
	mark := len(x.effects)
	tmp := st.clone()
	tmp.pc = True
	saved := x.ctx
	x.ctx = True
	res, out := x.callFn(fn, args, t.Vals, tmp, fmt.Sprintf("lam%d", len(x.stack)))
	res = x.snapAll(out, res)
	x.ctx = saved
	var eff []string
	for _, e := range x.effects[mark:] {
		var as []string
		for _, a := range e.Args {
			as = append(as, valKey(a))
		}
		eff = append(eff, e.Kind+" "+e.Name+"("+strings.Join(as, ",")+") if "+fmt.Sprint(e.PC))
	}
	sort.Strings(eff)
	x.effects = x.effects[:mark]
	return x.raw("lambda", strings.Join(eff, ";"), nil, res, nil, t.Type)
}

// joinStr is strings.Join: the loop that puts sep before every element but the
// first.
func (x *Exec) joinStr(list, sep *Term) Val {
	str := types.Typ[types.String]
	if list.Op == "seq" {
		parts := []*Term{x.Str("")}
		for i, t := range list.Args {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, t)
		}
		return One(x.Cat(parts...))
	}
	n := x.Len(list)
	if list.Op == "app" || list.Op == "apps" || len(n) != 1 {
		return One(x.Leaf("call", "strings.Join", str, list, sep))
	}
	N := n[0].T
	d := x.depth + 1
	it := x.raw("iter", fmt.Sprint("#", d), []*Term{N}, nil, nil, types.Typ[types.Int])
	bv := x.raw("bv", fmt.Sprintf("%d.0:%s", d, x.typeTag(str)), nil, nil, nil, str)
	first := x.Cond(x.Eq(it, x.Int(0)))
	var next Val
	for _, c := range x.Idx(list, it, str) {
		next = append(next, Case{x.And(c.C, first), x.Cat(bv, c.T)}, Case{x.And(c.C, x.Not(first)), x.Cat(bv, sep, c.T)})
	}
	return One(x.raw("lout", "acc", []*Term{N}, []Val{One(x.Str("")), x.norm(next)}, nil, str))
}
