package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/load"
)

// The rule "below": the path of every file the tool creates, changes or
// removes is the output directory followed by constant names, and only the
// package cfg chooses the output directory.

type pathWalk struct {
	r      *run
	fl     *flow
	stores map[string][]ssa.Value // field -> stored values
	calls  map[*ssa.Function][]ssa.CallInstruction
	busy   map[ssa.Value]bool
	gstore map[*ssa.Global][]ssa.Value
	in     map[ssa.Value]bool
}

func fieldKey(x ssa.Value, i int) string {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return t.String() + "." + st.Field(i).Name()
}

// below says whether v is a path inside the output directory; the reason if
// it is not.
func (w *pathWalk) below(v ssa.Value) string {
	if w.busy[v] {
		return ""
	}
	w.busy[v] = true
	defer delete(w.busy, v)
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			if a.Pkg.Pkg.Path() == load.ModPath+"/cfg" && a.Name() == "BaseDir" {
				return ""
			}
			vs := w.gstore[a]
			if len(vs) == 0 {
				return "the variable " + a.Name() + " is never set"
			}
			for _, s := range vs {
				if e := w.below(s); e != "" {
					return e
				}
			}
			return ""
		case *ssa.FieldAddr:
			vs := w.stores[fieldKey(a.X, a.Field)]
			for _, s := range vs {
				if e := w.below(s); e != "" {
					return e
				}
			}
			if len(vs) > 0 {
				return ""
			}
		case *ssa.Alloc:
			return w.belowAlloc(a)
		case *ssa.FreeVar:
			return w.free(a)
		}
	case *ssa.Field:
		vs := w.stores[fieldKey(v.X, v.Field)]
		for _, s := range vs {
			if e := w.below(s); e != "" {
				return e
			}
		}
		if len(vs) > 0 {
			return ""
		}
	case *ssa.FreeVar:
		return w.free(v)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := w.below(e); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Parameter:
		f := v.Parent()
		for i, p := range f.Params {
			if p != v {
				continue
			}
			if len(w.calls[f]) == 0 {
				return "the parameter " + v.Name() + " of " + short(f) + " comes from nowhere"
			}
			for _, c := range w.calls[f] {
				as := c.Common().Args
				if c.Common().IsInvoke() {
					as = append([]ssa.Value{c.Common().Value}, as...)
				}
				if i < len(as) {
					if s := w.below(as[i]); s != "" {
						return s + " (from " + w.r.cur.Pos(c.Pos()) + ")"
					}
				}
			}
			return ""
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			if e := w.below(v.X); e != "" {
				return e
			}
			if !w.name(v.Y) {
				return "what is appended to the directory is not a constant name"
			}
			if !w.slash(v.Y) && !w.inside(v.X) {
				return "a name is appended to the directory without a separator"
			}
			return ""
		}
	case *ssa.ChangeType:
		return w.below(v.X)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			break
		}
		switch fullName(f) {
		case "path.Join", "path/filepath.Join":
			el, ok := sliceElems(v.Call.Args[0])
			if !ok || len(el) == 0 {
				return "the elements of the path are not known"
			}
			if e := w.below(el[0]); e != "" {
				return e
			}
			for _, x := range el[1:] {
				if !w.name(x) {
					return "an element of the path is not a constant name"
				}
			}
			return ""
		case "path.Dir", "path/filepath.Dir":
			if e := w.below(v.Call.Args[0]); e != "" {
				return e
			}
			if !w.inside(v.Call.Args[0]) {
				return "it is the parent of the output directory"
			}
			return ""
		case "strings.Join":
			if !constText(v.Call.Args[1], "/") {
				return "it is joined with something else than a separator"
			}
			el, ok := sliceElems(v.Call.Args[0])
			if !ok || len(el) == 0 {
				return "the elements of the path are not known"
			}
			if e := w.below(el[0]); e != "" {
				return e
			}
			for _, x := range el[1:] {
				if !w.name(x) {
					return "an element of the path is not a constant name"
				}
			}
			return ""
		case "fmt.Sprintf":
			return w.formatted(v)
		case "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return w.below(v.Call.Args[0])
		}
		if own(f) && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					if e := w.below(rt.Results[0]); e != "" {
						return e
					}
				}
			}
			return ""
		}
		return "it is the result of " + fullName(f)
	case *ssa.Const:
		return "it is the constant " + v.Value.String()
	}
	return fmt.Sprintf("%s is not known to be the output directory", v)
}

func constText(v ssa.Value, s string) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == s
}

// slash: the text begins with a separator.
func (w *pathWalk) slash(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.String && strings.HasPrefix(constant.StringVal(v.Value), "/")
	case *ssa.BinOp:
		return v.Op == token.ADD && w.slash(v.X)
	}
	return false
}

// inside: a path in the output directory that is not the directory itself.
func (w *pathWalk) inside(v ssa.Value) bool {
	if w.in[v] {
		return true
	}
	w.in[v] = true
	defer delete(w.in, v)
	named := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return !ok || k.Value == nil || k.Value.Kind() != constant.String || strings.Trim(constant.StringVal(k.Value), "./") != ""
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return w.slash(v.Y) || w.inside(v.X)
	case *ssa.ChangeType:
		return w.inside(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !w.inside(e) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := v.Parent()
		for i, p := range f.Params {
			if p != v {
				continue
			}
			for _, c := range w.calls[f] {
				if c.Common().IsInvoke() || i >= len(c.Common().Args) || !w.inside(c.Common().Args[i]) {
					return false
				}
			}
		}
		return len(w.calls[f]) > 0
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch fullName(f) {
		case "path.Join", "path/filepath.Join", "strings.Join":
			el, ok := sliceElems(v.Call.Args[0])
			if !ok || len(el) == 0 {
				return false
			}
			for _, x := range el[1:] {
				if named(x) {
					return true
				}
			}
			return w.inside(el[0])
		case "fmt.Sprintf":
			return w.formatted(v) == ""
		case "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return w.inside(v.Call.Args[0])
		}
		if own(f) && len(f.Blocks) > 0 {
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(rt.Results) != 1 || !w.inside(rt.Results[0])) {
					return false
				}
			}
			return true
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		var vs []ssa.Value
		switch a := v.X.(type) {
		case *ssa.Global:
			if a.Pkg.Pkg.Path() == load.ModPath+"/cfg" && a.Name() == "BaseDir" {
				return false
			}
			vs = w.gstore[a]
		case *ssa.FieldAddr:
			vs = w.stores[fieldKey(a.X, a.Field)]
		case *ssa.Alloc:
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					vs = append(vs, s.Val)
				}
			}
		}
		for _, s := range vs {
			if !w.inside(s) {
				return false
			}
		}
		return len(vs) > 0
	}
	return false
}

// formatted: the directory and constant names put together by a format.
func (w *pathWalk) formatted(v *ssa.Call) string {
	k, ok := v.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return "the format of the path is not constant"
	}
	f := constant.StringVal(k.Value)
	el, ok := sliceElems(v.Call.Args[1])
	parts := strings.Split(f, "%s")
	if !ok || len(parts) != len(el)+1 || strings.Contains(strings.Join(parts, ""), "%") || parts[0] != "" || len(el) == 0 || !strings.HasPrefix(parts[1], "/") || strings.Contains(f, "..") {
		return "the format of the path is not a directory followed by names"
	}
	for i, x := range el {
		mi, ok := x.(*ssa.MakeInterface)
		if !ok {
			return "the elements of the path are not known"
		}
		if i == 0 {
			if e := w.below(mi.X); e != "" {
				return e
			}
		} else if !w.name(mi.X) {
			return "an element of the path is not a constant name"
		}
	}
	return ""
}

func (w *pathWalk) belowAlloc(a *ssa.Alloc) string {
	n := 0
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == a {
			n++
			if e := w.below(s.Val); e != "" {
				return e
			}
		}
	}
	if n == 0 {
		return "the variable is never set"
	}
	return ""
}

func (w *pathWalk) free(v *ssa.FreeVar) string {
	f := v.Parent()
	for i, fv := range f.FreeVars {
		if fv != v {
			continue
		}
		for _, b := range f.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
					if a, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						return w.belowAlloc(a)
					}
					return w.below(mc.Bindings[i])
				}
			}
		}
	}
	return "a captured variable is not known"
}

// name: constant text that does not lead out of a directory.
func (w *pathWalk) name(v ssa.Value) bool {
	if w.busy[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil || v.Value.Kind() != constant.String {
			return false
		}
		s := constant.StringVal(v.Value)
		for _, p := range strings.Split(s, "/") {
			if p == ".." {
				return false
			}
		}
		return !strings.Contains(s, "\\")
	case *ssa.Phi:
		w.busy[v] = true
		defer delete(w.busy, v)
		for _, e := range v.Edges {
			if !w.name(e) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return v.Op == token.ADD && w.name(v.X) && w.name(v.Y)
	case *ssa.Parameter:
		w.busy[v] = true
		defer delete(w.busy, v)
		f := v.Parent()
		for i, p := range f.Params {
			if p == v {
				for _, c := range w.calls[f] {
					if c.Common().IsInvoke() || i >= len(c.Common().Args) || !w.name(c.Common().Args[i]) {
						return false
					}
				}
				return len(w.calls[f]) > 0
			}
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			for _, s := range w.gstore[g] {
				if !w.name(s) {
					return false
				}
			}
			return len(w.gstore[g]) > 0
		}
		if a, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL { // an element of a list of names
			if el, ok := sliceElems(a.X); ok {
				for _, x := range el {
					if !w.name(x) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// sliceElems: the elements of a slice literal.
func sliceElems(v ssa.Value) ([]ssa.Value, bool) {
	var a *ssa.Alloc
	switch v := v.(type) {
	case *ssa.Slice:
		x, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil, false
		}
		a = x
	case *ssa.Alloc:
		a = v
	default:
		return nil, false
	}
	arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	el := make([]ssa.Value, arr.Len())
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok && st.Addr == ia {
				i := k.Int64()
				if i < 0 || i >= int64(len(el)) || el[i] != nil {
					return nil, false
				}
				el[i] = st.Val
			}
		}
	}
	for _, e := range el {
		if e == nil {
			return nil, false
		}
	}
	return el, true
}

func (r *run) paths() *pathWalk {
	fl := r.tool()
	w := &pathWalk{r: r, fl: fl, stores: map[string][]ssa.Value{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, busy: map[ssa.Value]bool{}, in: map[ssa.Value]bool{}, gstore: map[*ssa.Global][]ssa.Value{}}
	var all []*ssa.Function
	for f := range fl.reach {
		if own(f) {
			all = append(all, f)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					switch a := ins.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldKey(a.X, a.Field)
						w.stores[k] = append(w.stores[k], ins.Val)
					case *ssa.Global:
						w.gstore[a] = append(w.gstore[a], ins.Val)
					}
				case ssa.CallInstruction:
					for _, g := range fl.callees[ins] {
						w.calls[g] = append(w.calls[g], ins)
					}
				}
			}
		}
	}
	return w
}

// foreign: library functions that act on files or the process in a way no
// path of the call tells, or that remove what the tool did not write.
func foreign(name string) string {
	switch name {
	case "os.RemoveAll":
		return "removes whatever lies below, of whatever name"
	case "os.Chdir", "(*os.File).Chdir", "syscall.Chdir":
		return "changes what relative paths mean"
	case "os.StartProcess", "os/exec.Command", "os/exec.CommandContext", "syscall.Exec", "syscall.ForkExec":
		return "runs another program"
	case "syscall.Open", "syscall.Unlink", "syscall.Rename", "syscall.Mkdir", "syscall.Rmdir", "syscall.Symlink", "syscall.Link", "syscall.Truncate", "syscall.Creat":
		return "acts on files directly"
	}
	return ""
}

// dir says whether v is the directory the user chose.
func (w *pathWalk) dir(v ssa.Value) string {
	if w.busy[v] {
		return ""
	}
	w.busy[v] = true
	defer delete(w.busy, v)
	each := func(vs []ssa.Value) string {
		for _, s := range vs {
			if e := w.dir(s); e != "" {
				return e
			}
		}
		if len(vs) == 0 {
			return "a variable that is never set"
		}
		return ""
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			if t := constant.StringVal(v.Value); t == "." || t == "./" || t == "" {
				return ""
			}
		}
		return "the constant " + v.String()
	case *ssa.Phi:
		return each(v.Edges)
	case *ssa.ChangeType:
		return w.dir(v.X)
	case *ssa.BinOp:
		if constText(v.Y, "/") {
			return w.dir(v.X)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		if l, ok := v.X.(*ssa.UnOp); ok && l.Op == token.MUL { // a flag
			if g, ok := l.X.(*ssa.Global); ok && g.Name() == "outDir" {
				return ""
			}
		}
		switch a := v.X.(type) {
		case *ssa.Global:
			return each(w.gstore[a])
		case *ssa.Alloc:
			var vs []ssa.Value
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					vs = append(vs, s.Val)
				}
			}
			return each(vs)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok && v.Index == 0 {
			if f := c.Call.StaticCallee(); f != nil && (fullName(f) == "path.Split" || fullName(f) == "path/filepath.Split") {
				return w.source(c.Call.Args[0])
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		var vs []ssa.Value
		for i, p := range f.Params {
			if p == v {
				for _, c := range w.calls[f] {
					if !c.Common().IsInvoke() && i < len(c.Common().Args) {
						vs = append(vs, c.Common().Args[i])
					}
				}
			}
		}
		return each(vs)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			break
		}
		switch fullName(f) {
		case "path.Dir", "path/filepath.Dir":
			return w.source(v.Call.Args[0])
		case "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
			return w.dir(v.Call.Args[0])
		case "path.Join", "path/filepath.Join":
			if el, ok := sliceElems(v.Call.Args[0]); ok && len(el) > 0 {
				for _, x := range el[1:] {
					if k, ok := x.(*ssa.Const); !ok || w.dir(k) != "" {
						return "a path joined from " + x.String()
					}
				}
				return w.dir(el[0])
			}
		}
		if own(f) && len(f.Blocks) > 0 {
			var vs []ssa.Value
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if len(rt.Results) != 1 {
						return "the result of " + fullName(f)
					}
					vs = append(vs, rt.Results[0])
				}
			}
			return each(vs)
		}
		return "the result of " + fullName(f)
	}
	return v.String()
}

// source says whether v is the grammar file the user named.
func (w *pathWalk) source(v ssa.Value) string {
	if w.busy[v] {
		return ""
	}
	w.busy[v] = true
	defer delete(w.busy, v)
	switch v := v.(type) {
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && len(w.gstore[g]) > 0 {
			for _, s := range w.gstore[g] {
				if e := w.source(s); e != "" {
					return e
				}
			}
			return ""
		}
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			if c, ok := ia.X.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fullName(c.Call.StaticCallee()) == "flag.Args" {
				return ""
			}
		}
	case *ssa.Phi:
		for _, s := range v.Edges {
			if e := w.source(s); e != "" {
				return e
			}
		}
		return ""
	case *ssa.Parameter:
		f := v.Parent()
		for i, p := range f.Params {
			if p == v {
				for _, c := range w.calls[f] {
					if c.Common().IsInvoke() || i >= len(c.Common().Args) {
						return "an unknown path"
					}
					if e := w.source(c.Common().Args[i]); e != "" {
						return e
					}
				}
			}
		}
		return ""
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch fullName(f) {
			case "flag.Arg":
				return ""
			case "path.Clean", "path/filepath.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
				return w.source(v.Call.Args[0])
			}
			if own(f) && len(f.Blocks) > 0 {
				for _, b := range f.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if len(rt.Results) != 1 {
							return "the result of " + fullName(f)
						}
						if e := w.source(rt.Results[0]); e != "" {
							return e
						}
					}
				}
				return ""
			}
		}
	}
	return v.String()
}

// asked: the block only runs when the user asked for the profile.
func asked(b *ssa.BasicBlock) bool {
	for d := b.Idom(); d != nil; b, d = d, d.Idom() {
		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, want := br.Cond, 0
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, want = u.X, 1-want
		}
		u, ok := cond.(*ssa.UnOp)
		if !ok {
			continue
		}
		l, ok := u.X.(*ssa.UnOp)
		if !ok {
			continue
		}
		if g, ok := l.X.(*ssa.Global); ok && g.Name() == "CPUProfile" && d.Succs[want].Dominates(b) && len(d.Succs[want].Preds) == 1 {
			return true
		}
	}
	return false
}

func (w *pathWalk) profile(f *ssa.Function, b *ssa.BasicBlock, depth int) bool {
	if asked(b) {
		return true
	}
	if depth > 8 || len(w.calls[f]) == 0 {
		return false
	}
	for _, c := range w.calls[f] {
		if !w.profile(c.Parent(), c.Block(), depth+1) {
			return false
		}
	}
	return true
}

func ruleBelow(r *run) {
	w := r.paths()
	n := 0
	for _, f := range w.fl.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range w.fl.callees[c] {
					if s := foreign(fullName(g)); s != "" {
						r.obl++
						r.report("below|foreign|"+short(f)+"|"+fullName(g), r.cur.Pos(c.Pos()), "%s calls %s, which %s", short(f), fullName(g), s)
					}
				}
				name := w.fl.writeCall(c)
				if name == "" || name == "os.RemoveAll" {
					continue
				}
				n++
				r.obl++
				if name == "os.Create" && constArg(c, "cpu.prof") {
					if !w.profile(f, b, 0) {
						r.report("below|profile|"+short(f), r.cur.Pos(c.Pos()), "%s: the profile is written although the user need not have asked for it", short(f))
					}
					continue
				}
				ends := 1
				switch name {
				case "os.Rename", "os.Link", "os.Symlink":
					ends = 2
				}
				for _, a := range c.Common().Args[:ends] {
					if e := w.below(a); e != "" {
						r.report("below|"+short(f)+"|"+name, r.cur.Pos(c.Pos()), "%s: the path handed to %s is not the output directory followed by constant names: %s", short(f), name, e)
					}
				}
			}
		}
	}
	for g, vs := range w.gstore {
		if g.Pkg.Pkg.Path() == load.ModPath+"/cfg" && g.Name() == "BaseDir" {
			for _, v := range vs {
				r.obl++
				if f := v.Parent(); f != nil && f.Pkg != g.Pkg {
					r.report("below|dir|"+short(f), r.cur.Pos(f.Pos()), "%s changes the output directory", short(f))
				} else if e := w.dir(v); e != "" {
					r.report("below|dir|"+e, r.cur.Pos(v.Pos()), "the output directory is neither what the user chose nor the directory of the grammar file, but %s", e)
				}
			}
		}
	}
	if n == 0 {
		r.report("below|anchor", "", "no place that writes files was found")
	}
	r.units = append(r.units, map[string]interface{}{"rule": "below", "write_sites": n})
}
