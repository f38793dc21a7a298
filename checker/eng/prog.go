package eng

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the analysed program.
type Prog struct {
	SSA       *ssa.Program
	loopMemo  map[*ssa.Function]*loopInfo
	rangeSyms map[*Term]*rangeSym
	mr        map[*ssa.Function]*ModRef
	mrBusy    map[*ssa.Function]bool
	retMemo   map[*ssa.Function]bool
	ginit     map[*ssa.Package]map[*ssa.Global]Val
	gbusy     map[*ssa.Package]bool
	written   map[*ssa.Global]bool
	impls     map[string][]*ssa.Function
	byPath    map[string]*ssa.Package
	mixed     map[string]bool
	places    map[string][]ssa.Value
	leaks     map[string]bool
	calls     map[*ssa.Function][]*ssa.CallCommon
	valued    map[*ssa.Function]bool
	// MRHook supplies the effect summary of a function, if it knows it
	MRHook func(fn *ssa.Function) *ModRef
	Module func(path string) bool // packages whose source is part of the analysed system
}

func NewProg(p *ssa.Program) *Prog {
	return &Prog{SSA: p, loopMemo: map[*ssa.Function]*loopInfo{}, rangeSyms: map[*Term]*rangeSym{}, mr: map[*ssa.Function]*ModRef{}, mrBusy: map[*ssa.Function]bool{}, ginit: map[*ssa.Package]map[*ssa.Global]Val{}, gbusy: map[*ssa.Package]bool{}}
}

func (p *Prog) loops(x *Exec, fn *ssa.Function) *loopInfo {
	if l, ok := p.loopMemo[fn]; ok {
		return l
	}
	l, err := findLoops(fn)
	if err != nil {
		x.fail("%v", err)
	}
	p.loopMemo[fn] = l
	return l
}

// Method resolves an interface method on a concrete type.
func (p *Prog) Method(t types.Type, m *types.Func) *ssa.Function {
	if t == nil || types.IsInterface(t) {
		return nil
	}
	return p.MethodByName(t, m.Name())
}

// resolve finds this program's version of a type (terms are shared between
// the programs that are compared).
func (p *Prog) resolve(t types.Type) types.Type {
	switch u := t.(type) {
	case *types.Pointer:
		if e := p.resolve(u.Elem()); e != u.Elem() {
			return types.NewPointer(e)
		}
	case *types.Alias:
		return p.resolve(types.Unalias(t))
	case *types.Named:
		o := u.Obj()
		if o.Pkg() == nil || u.TypeArgs().Len() > 0 {
			return t
		}
		if pk := p.pkg(o.Pkg().Path()); pk != nil && pk.Pkg != o.Pkg() {
			if q := pk.Pkg.Scope().Lookup(o.Name()); q != nil {
				return q.Type()
			}
		}
	}
	return t
}

func (p *Prog) pkg(path string) *ssa.Package {
	if p.byPath == nil {
		p.byPath = map[string]*ssa.Package{}
		for _, k := range p.SSA.AllPackages() {
			p.byPath[k.Pkg.Path()] = k
		}
	}
	return p.byPath[path]
}

func (p *Prog) MethodByName(t types.Type, name string) *ssa.Function {
	t = p.resolve(t)
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ModRef tells what a call may change.
type ModRef struct {
	Writes   []bool // parameters (receiver first) whose content may change
	World    bool   // I/O, global writes, exits on some path
	NoReturn bool
	RetParam int
	Fresh    bool
	// per parameter, the fields (of the struct pointed to) that may be written
	// or read; "*" means all of it
	WF, RF []map[string]bool
	Reach  []bool // results may point into these parameters
}

func (m *ModRef) write(i int, f string) {
	m.Writes[i] = true
	m.WF[i] = addField(m.WF[i], f)
}
func (m *ModRef) read(i int, f string) { m.RF[i] = addField(m.RF[i], f) }

func addField(s map[string]bool, f string) map[string]bool {
	if f == "" {
		f = "*"
	}
	if s == nil {
		s = map[string]bool{}
	}
	s[f] = true
	return s
}

// fields that param i may have written or read (nil: all).
func fieldSet(s []map[string]bool, i int) map[string]bool {
	if i >= len(s) || s[i]["*"] {
		return nil
	}
	if s[i] == nil {
		return map[string]bool{}
	}
	return s[i]
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true,
	"path": true, "path/filepath": true, "reflect": true, "regexp": true, "math/bits": true, "maps": true, "cmp": true, "go/format": true,
}

func ptrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func (p *Prog) ModRef(fn *ssa.Function, cc *ssa.CallCommon) *ModRef {
	if fn == nil {
		if cc != nil && cc.IsInvoke() {
			return p.invokeModRef(cc)
		}
		n := 0
		if cc != nil {
			n = len(cc.Args) + 1
		}
		return &ModRef{World: true, RetParam: -1, Writes: make([]bool, n)}
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if p.MRHook != nil {
		if m := p.MRHook(fn); m != nil {
			return m
		}
	}
	if m, ok := p.mr[fn]; ok {
		return m
	}
	if p.mrBusy[fn] {
		n := len(fn.Params)
		return &ModRef{RetParam: -1, Writes: make([]bool, n), WF: make([]map[string]bool, n), RF: make([]map[string]bool, n), Reach: make([]bool, n)}
	}
	m := p.modref(fn)
	p.mr[fn] = m
	return m
}

// bufferMethod: a method of a text buffer touches nothing but the buffer.
func bufferMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil || !isBuf(r.Type()) {
		return false
	}
	switch fn.Name() {
	case "Write", "WriteString", "WriteByte", "WriteRune", "String", "Len", "Cap", "Reset", "Truncate", "Grow":
		return true
	}
	return false
}

// toBuffer: a print into a text buffer.
func toBuffer(fn *ssa.Function, args []ssa.Value) bool {
	if len(args) == 0 {
		return false
	}
	switch fn.RelString(nil) {
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "io.WriteString":
	default:
		return false
	}
	mi, ok := args[0].(*ssa.MakeInterface)
	return ok && isBuf(mi.X.Type())
}

func (p *Prog) invokeModRef(cc *ssa.CallCommon) *ModRef {
	m := &ModRef{RetParam: -1, Writes: make([]bool, len(cc.Args)+1)}
	found := false
	for _, fn := range p.implementations(cc) {
		found = true
		o := p.ModRef(fn, nil)
		m.World = m.World || o.World
		for i, w := range o.Writes {
			if w && i < len(m.Writes) {
				m.Writes[i] = true
			}
		}
	}
	if !found {
		switch cc.Method.Name() {
		case "String", "Error", "Len", "Less", "Name", "IsDir":
		default:
			m.World = true
			m.Writes[0] = true
		}
	}
	return m
}

func (p *Prog) implementations(cc *ssa.CallCommon) []*ssa.Function {
	key := cc.Value.Type().String() + "." + cc.Method.Name()
	if p.impls == nil {
		p.impls = map[string][]*ssa.Function{}
	}
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	iface, ok := cc.Value.Type().Underlying().(*types.Interface)
	if ok {
		for _, pkg := range p.SSA.AllPackages() {
			if p.Module == nil || !p.Module(pkg.Pkg.Path()) {
				continue
			}
			for _, mem := range pkg.Members {
				t, ok := mem.(*ssa.Type)
				if !ok || types.IsInterface(t.Type()) {
					continue
				}
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.Implements(ty, iface) {
						if fn := p.Method(ty, cc.Method); fn != nil {
							out = append(out, fn)
							break
						}
					}
				}
			}
		}
	}
	p.impls[key] = out
	return out
}

func (p *Prog) modref(fn *ssa.Function) *ModRef {
	n := len(fn.Params)
	if n == 0 {
		n = fn.Signature.Params().Len()
		if fn.Signature.Recv() != nil {
			n++
		}
	}
	m := &ModRef{RetParam: -1, Writes: make([]bool, n)}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	full := fn.RelString(nil)
	if bufferMethod(fn) {
		m.Writes[0] = true
		switch fn.Name() {
		case "String", "Len", "Cap":
			m.Writes[0] = false
		}
		return m
	}
	switch full {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		m.NoReturn = true
		m.World = true
		return m
	}
	if p.Module == nil || !p.Module(pkg) {
		if purePkgs[pkg] && !strings.Contains(full, "Builder") && !strings.Contains(full, "Walk") {
			return m
		}
		switch {
		case pkg == "fmt" && (strings.HasPrefix(fn.Name(), "Sp") || fn.Name() == "Errorf" || fn.Name() == "Append"):
			return m
		case pkg == "bytes" && fn.Signature.Recv() == nil, pkg == "sort" && strings.HasPrefix(fn.Name(), "Search"), pkg == "sort" && strings.HasSuffix(fn.Name(), "AreSorted"):
			return m
		case pkg == "slices" && !strings.HasPrefix(fn.Name(), "Sort") && fn.Name() != "Reverse":
			return m
		case pkg == "time" || pkg == "os" || pkg == "io/ioutil" || pkg == "io" || pkg == "flag":
			m.World = true
			return m
		}
		m.World = true
		for i := range m.Writes {
			if i < len(fn.Params) {
				m.Writes[i] = ptrLike(fn.Params[i].Type())
			} else {
				m.Writes[i] = i == 0
			}
		}
		return m
	}
	if len(fn.Blocks) == 0 {
		m.World = true
		return m
	}
	p.mrBusy[fn] = true
	defer delete(p.mrBusy, fn)
	m.WF, m.RF, m.Reach = make([]map[string]bool, n), make([]map[string]bool, n), make([]bool, n)
	for i, q := range fn.Params {
		p.fieldUses(m, i, q, map[ssa.Value]bool{})
	}
	idx := map[ssa.Value]int{}
	for i, q := range fn.Params {
		idx[q] = i
	}
	seenRet := false
	allFresh := true
	retParam := -2
	mark := func(v ssa.Value, fields map[string]bool) {
		for _, r := range p.rootsF(v, "", false, map[ssa.Value]bool{}) {
			switch rv := r.v.(type) {
			case *ssa.Parameter:
				if i, ok := idx[rv]; ok {
					if r.f == "" && fields != nil {
						for f := range fields {
							m.write(i, f)
						}
					} else {
						m.write(i, r.key())
					}
				}
			case *ssa.Global:
				m.World = true
			case *ssa.FreeVar:
				m.World = true
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				mark2 := true
				if _, ok := ins.Addr.(*ssa.Alloc); ok {
					mark2 = false
				}
				if mark2 {
					mark(ins.Addr, nil)
				}
			case *ssa.MapUpdate:
				mark(ins.Map, nil)
			case *ssa.Panic:
				m.World = m.World || false
			case *ssa.Go, *ssa.Send, *ssa.Select:
				m.World = true
			case *ssa.Return:
				seenRet = true
				for _, rv := range ins.Results {
					if !ptrLike(rv.Type()) {
						continue
					}
					for _, r := range p.roots(rv, map[ssa.Value]bool{}) {
						if q, ok := r.(*ssa.Parameter); ok {
							if i, ok := idx[q]; ok {
								m.Reach[i] = true
							}
						}
					}
				}
				if len(ins.Results) == 1 {
					rs := p.roots(ins.Results[0], map[ssa.Value]bool{})
					rp := -1
					for k, r := range rs {
						switch r := r.(type) {
						case *ssa.Parameter:
							if direct(ins.Results[0], r, p) {
								if k == 0 || rp == idx[r] {
									rp = idx[r]
								}
							}
							allFresh = false
						case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
						case *ssa.Call:
							if o := p.calleeMR(r); o == nil || !o.Fresh {
								allFresh = false
							}
						default:
							allFresh = false
						}
					}
					if len(rs) != 1 {
						rp = -1
					}
					if retParam == -2 {
						retParam = rp
					} else if retParam != rp {
						retParam = -1
					}
				} else {
					allFresh = false
				}
			case ssa.CallInstruction:
				cc := ins.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "delete", "clear":
						mark(cc.Args[0], nil)
					case "append":
						// appending may write into the backing array: aliasing is checked by its own rule
					case "print", "println":
						m.World = true
					}
					continue
				}
				var o *ModRef
				args := cc.Args
				if cc.IsInvoke() {
					o = p.ModRef(nil, cc)
					args = append([]ssa.Value{cc.Value}, cc.Args...)
				} else if sc := cc.StaticCallee(); sc != nil {
					if toBuffer(sc, args) {
						mark(args[0], nil)
						continue
					}
					if ipkg := calleePkg(sc); ipkg == "sort" || ipkg == "slices" {
						if !strings.HasPrefix(sc.Name(), "Search") && len(args) > 0 {
							mark(args[0], nil)
						}
						continue
					}
					o = p.ModRef(sc, cc)
				} else {
					o = &ModRef{World: true}
				}
				if o.World {
					m.World = true
				}
				for i, w := range o.Writes {
					if w && i < len(args) {
						mark(args[i], fieldSet(o.WF, i))
					}
				}
			}
		}
	}
	if seenRet && retParam >= 0 {
		m.RetParam = retParam
	}
	if seenRet && allFresh && fn.Signature.Results().Len() == 1 && retParam < 0 {
		switch fn.Signature.Results().At(0).Type().Underlying().(type) {
		case *types.Pointer, *types.Map:
			m.Fresh = true
		}
	}
	if !p.returns(fn) {
		m.NoReturn = true
	}
	return m
}

// returns: some path of fn reaches a return without passing a call that never
// comes back.
func (p *Prog) returns(fn *ssa.Function) bool {
	switch fn.RelString(nil) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return false
	}
	if len(fn.Blocks) == 0 || fn.Recover != nil {
		return true
	}
	if r, ok := p.retMemo[fn]; ok {
		return r
	}
	if p.retMemo == nil {
		p.retMemo = map[*ssa.Function]bool{}
	}
	p.retMemo[fn] = true // while it is being computed
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	res := false
	for len(work) > 0 && !res {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		cut := false
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Return:
				res = true
			case *ssa.Call:
				if sc := ins.Call.StaticCallee(); sc != nil && !p.returns(sc) {
					cut = true
				}
			}
			if cut {
				break
			}
		}
		if !cut {
			work = append(work, b.Succs...)
		}
	}
	p.retMemo[fn] = res
	return res
}

func calleePkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	return ""
}

func (p *Prog) calleeMR(c *ssa.Call) *ModRef {
	if c.Call.IsInvoke() {
		return nil
	}
	sc := c.Call.StaticCallee()
	if sc == nil {
		return nil
	}
	return p.ModRef(sc, &c.Call)
}

// direct: v is the parameter itself (possibly through calls that return their receiver).
func direct(v ssa.Value, q *ssa.Parameter, p *Prog) bool {
	for i := 0; i < 10; i++ {
		if v == q {
			return true
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		o := p.calleeMR(c)
		if o == nil || o.RetParam < 0 || o.RetParam >= len(c.Call.Args) {
			return false
		}
		v = c.Call.Args[o.RetParam]
	}
	return false
}

type rootF struct {
	v    ssa.Value
	f    string // the field of v through which the reference goes ("" = v itself)
	deep bool   // through what the field refers to, not the field itself
}

func (r rootF) key() string {
	if r.f == "" {
		return "*"
	}
	if r.deep && r.f != "*" {
		return r.f + "."
	}
	return r.f
}

// roots traces where a reference comes from.
func (p *Prog) roots(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	var out []ssa.Value
	for _, r := range p.rootsF(v, "", false, seen) {
		out = append(out, r.v)
	}
	return out
}

func fieldName(t types.Type, i int) string {
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = q.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "*"
}

// rootsF is roots with the outermost field.
func (p *Prog) rootsF(v ssa.Value, f string, dp bool, seen map[ssa.Value]bool) []rootF {
	if seen[v] {
		return nil
	}
	seen[v] = true
	deep := func() string {
		if f == "" {
			return "*"
		}
		return f
	}
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return p.rootsF(v.X, fieldName(v.X.Type(), v.Field), dp, seen)
	case *ssa.IndexAddr:
		_, sl := v.X.Type().Underlying().(*types.Slice)
		return p.rootsF(v.X, deep(), dp || sl, seen)
	case *ssa.Field:
		return p.rootsF(v.X, fieldName(v.X.Type(), v.Field), dp, seen)
	case *ssa.Index:
		return p.rootsF(v.X, deep(), true, seen)
	case *ssa.Lookup:
		return p.rootsF(v.X, deep(), true, seen)
	case *ssa.Slice:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.ChangeType:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.Convert:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.MakeInterface:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.ChangeInterface:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.TypeAssert:
		return p.rootsF(v.X, f, dp, seen)
	case *ssa.Extract:
		return p.rootsF(v.Tuple, f, dp, seen)
	case *ssa.Next:
		return p.rootsF(v.Iter, deep(), true, seen)
	case *ssa.Range:
		return p.rootsF(v.X, deep(), true, seen)
	case *ssa.UnOp:
		if v.Op.String() == "*" {
			if a, ok := v.X.(*ssa.Alloc); ok {
				// a local variable: what was stored into it
				var out []rootF
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						out = append(out, p.rootsF(s.Val, f, dp, seen)...)
					}
				}
				if len(out) == 0 {
					out = append(out, rootF{a, f, dp})
				}
				return out
			}
			return p.rootsF(v.X, deep(), true, seen)
		}
	case *ssa.Phi:
		var out []rootF
		for _, e := range v.Edges {
			out = append(out, p.rootsF(e, f, dp, seen)...)
		}
		return out
	case *ssa.Call:
		if o := p.calleeMR(v); o != nil {
			if o.RetParam >= 0 && o.RetParam < len(v.Call.Args) {
				return p.rootsF(v.Call.Args[o.RetParam], f, dp, seen)
			}
			out := []rootF{{v, f, dp}}
			for i, r := range o.Reach {
				if r && i < len(v.Call.Args) {
					out = append(out, p.rootsF(v.Call.Args[i], deep(), true, seen)...)
				}
			}
			return out
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return p.rootsF(v.Call.Args[0], f, dp, seen)
		}
	}
	return []rootF{{v, f, dp}}
}

// fieldUses collects which fields of what q points to are read.
func (p *Prog) fieldUses(m *ModRef, i int, q ssa.Value, seen map[ssa.Value]bool) {
	if seen[q] {
		return
	}
	seen[q] = true
	if q.Referrers() == nil {
		return
	}
	for _, r := range *q.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			pure := true
			for _, u := range *r.Referrers() {
				if s, ok := u.(*ssa.Store); !ok || s.Addr != r {
					pure = false
				}
			}
			if !pure {
				m.read(i, fieldName(r.X.Type(), r.Field))
			}
		case *ssa.Field:
			m.read(i, fieldName(r.X.Type(), r.Field))
		case *ssa.BinOp:
		case *ssa.Return:
			m.read(i, "ret") // handed back, not looked at
		case *ssa.Phi:
			p.fieldUses(m, i, r, seen)
		case *ssa.Store:
			if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == q {
				for _, u := range *a.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp:
						p.fieldUses(m, i, u, seen)
					case *ssa.Store, *ssa.DebugRef:
					default:
						m.read(i, "*")
					}
				}
			} else {
				m.read(i, "*")
			}
		case ssa.CallInstruction:
			cc := r.Common()
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				m.read(i, "*")
				continue
			}
			var o *ModRef
			args := cc.Args
			if cc.IsInvoke() {
				o = p.ModRef(nil, cc)
				args = append([]ssa.Value{cc.Value}, cc.Args...)
			} else if sc := cc.StaticCallee(); sc != nil {
				o = p.ModRef(sc, cc)
			}
			for k, a := range args {
				if a != q {
					continue
				}
				var fs map[string]bool
				if o != nil && o.RF != nil {
					fs = fieldSet(o.RF, k)
				}
				if fs == nil {
					m.read(i, "*")
				}
				for f := range fs {
					m.read(i, f)
				}
			}
		default:
			m.read(i, "*")
		}
	}
}

// GlobalInit is the initial value of a package variable that is only assigned
// by its package's initialiser.
func (p *Prog) GlobalInit(x *Exec, g *ssa.Global) (Val, bool) {
	p.findWritten()
	if g.Pkg == nil || p.Module == nil || !p.Module(g.Pkg.Pkg.Path()) || p.written[g] || !initialisable(derefType(g.Type())) {
		return nil, false
	}
	tab, ok := p.initTable(x.Eng, g.Pkg)
	if !ok {
		return nil, false
	}
	v, ok := tab[g]
	if ok && (v[0].T.Op == "gval" || v[0].T.Op == "deref") {
		return nil, false
	}
	return v, ok
}

// initTable is what a package's initialiser leaves in its variables.
func (p *Prog) initTable(e *Eng, pk *ssa.Package) (map[*ssa.Global]Val, bool) {
	if p.gbusy[pk] {
		return nil, false
	}
	tab, ok := p.ginit[pk]
	if !ok {
		p.gbusy[pk] = true
		tab = map[*ssa.Global]Val{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Undecided); !ok {
						panic(r)
					}
				}
			}()
			fn := pk.Func("init")
			if fn == nil || len(fn.Blocks) == 0 {
				return
			}
			n := 0
			for _, b := range fn.Blocks {
				n += len(b.Instrs)
			}
			if n > 20000 {
				return
			}
			y := &Exec{Eng: e, P: p, ctx: True, Inline: func(*ssa.Function) bool { return false }, allocLvl: map[*Term]int{}, root: fn, Budget: 100000, InlineN: map[*ssa.Function]int{}, NoGlobals: true}
			st := &state{pc: True, mem: map[*Term]Val{}}
			// the guard variable starts false
			_, out := y.callFn(fn, nil, nil, st, "ginit:"+pk.Pkg.Path())
			for _, mem := range pk.Members {
				if gg, ok := mem.(*ssa.Global); ok {
					t := e.raw("global", e.strip(gg.Pkg.Pkg.Path())+"."+gg.Name(), nil, nil, nil, gg.Type())
					t.fn = gg
					v := y.loadLeaf(out, t, derefType(gg.Type()))
					for i := range v {
						// the guard: take the branch where initialisation ran
						_ = i
					}
					v = y.snap(out, v)
					var keep Val
					for _, c := range v {
						b := e.Map(c.C, func(w int32) Bdd {
							if strings.Contains(e.atoms[w].Aux, "init$guard") || e.Show(e.atoms[w]) == "gval<"+e.strip(pk.Pkg.Path())+".init$guard>" {
								return False
							}
							return e.mk(w, False, True)
						})
						if b != False {
							keep = append(keep, Case{b, c.T})
						}
					}
					keep = e.norm(keep)
					if len(keep) == 1 && !keep[0].T.alloc {
						tab[gg] = One(keep[0].T)
					}
				}
			}
		}()
		delete(p.gbusy, pk)
		p.ginit[pk] = tab
	}
	return tab, true
}

func (p *Prog) findWritten() {
	if p.written == nil {
		p.written = map[*ssa.Global]bool{}
		for fn := range ssautil.AllFunctions(p.SSA) {
			if fn.Pkg == nil || p.Module == nil || !p.Module(fn.Pkg.Pkg.Path()) {
				continue
			}
			init := fn.Name() == "init" && fn.Synthetic != ""
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					switch ins := ins.(type) {
					case *ssa.Store:
						for _, r := range p.roots(ins.Addr, map[ssa.Value]bool{}) {
							if gg, ok := r.(*ssa.Global); ok && !init {
								p.written[gg] = true
							}
						}
					case *ssa.MapUpdate:
						for _, r := range p.roots(ins.Map, map[ssa.Value]bool{}) {
							if gg, ok := r.(*ssa.Global); ok && !init {
								p.written[gg] = true
							}
						}
					}
				}
			}
		}
	}
}

func initialisable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Array, *types.Basic, *types.Struct:
		return true
	}
	return false
}
