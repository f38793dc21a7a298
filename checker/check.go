package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/eng"
	"verif/checker/load"
	"verif/checker/props"
	"verif/checker/rust"
	"verif/checker/tmpl"
)

type violation struct {
	Key, What, Pos string
}

type run struct {
	id, tier   string
	verif      string
	cur, ref   *load.Repo
	fset       *token.FileSet
	viol       []violation
	obl        int
	units      []map[string]interface{}
	samples    []string
	inst       map[string]bool
	cmpMemo    map[string][]*eng.FnResult
	steps      int
	levels     map[string]int
	assumption []string
	compared   int      // packages compared with the reference
	ruled      []string // rules applied
	flow       *flow
}

func (r *run) report(key, pos, what string, a ...interface{}) {
	r.viol = append(r.viol, violation{key, fmt.Sprintf(what, a...), pos})
}

func check(verif, repo, id, tier string) int {
	t0 := time.Now()
	r := &run{id: id, tier: tier, verif: verif, fset: token.NewFileSet(), inst: map[string]bool{}, levels: map[string]int{}}
	p := props.Get(id)
	if p == nil {
		fmt.Println("unknown property", id)
		return 1
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.report("analysis", "", "the analysis could not be completed: %v", e)
			}
		}()
		var err error
		if r.ref, err = load.Load(filepath.Join(verif, "ref"), r.fset); err != nil {
			panic(fmt.Sprintf("reference: %v", err))
		}
		if r.cur, err = load.Load(repo, r.fset); err != nil {
			r.report("load", "", "%v", err)
			return
		}
		for _, c := range p.Cmp {
			r.cmp(c, load.ModPath+"/"+c.Pkg, nil)
		}
		for _, in := range p.Inst {
			r.instance(in)
		}
		for _, name := range p.Rules {
			r.rule(name)
		}
		if p.RustState {
			r.rustShared()
		}
		if p.Rust {
			r.rust()
		}
	}()
	return r.finish(time.Since(t0))
}

func (r *run) engine(cur, ref *load.Repo) *eng.Matcher {
	e := eng.NewEng()
	e.StripPath = []string{load.ModPath + "/"}
	m := eng.NewMatcher(e, eng.NewSide(e, cur.Prog, cur.SSA, module), eng.NewSide(e, ref.Prog, ref.SSA, module))
	m.LitSyn = sameRow
	return m
}

// cmp compares the functions of one package.
func (r *run) cmp(c props.Cmp, path string, via []string) {
	path = strings.TrimSuffix(path, "/")
	if r.cmpMemo == nil {
		r.cmpMemo = map[string][]*eng.FnResult{}
	}
	res, ok := r.cmpMemo[path+strings.Join(via, ",")]
	if !ok {
		m := r.engine(r.cur, r.ref)
		res = m.ComparePackage(path)
		r.cmpMemo[path+strings.Join(via, ",")] = res
	}
	r.compared++
	only, except := regexp.MustCompile(c.Only), regexp.MustCompile(c.Except)
	n := 0
	var names []string
	for _, f := range res {
		name := strings.ReplaceAll(f.Name, load.ModPath+"/", "")
		name = strings.ReplaceAll(name, "zz_inst/", "")
		if !only.MatchString(name) || c.Except != "" && except.MatchString(name) {
			continue
		}
		n++
		r.obl++
		r.steps += f.Steps
		names = append(names, name)
		if len(f.Diffs) == 0 {
			r.levels[f.Level]++
			continue
		}
		var what []string
		for i, d := range f.Diffs {
			if i == 4 {
				what = append(what, fmt.Sprintf("… and %d more", len(f.Diffs)-i))
				break
			}
			what = append(what, d.What)
		}
		pos := ""
		if f.Diffs[0].Pos.IsValid() {
			pos = r.cur.Pos(f.Diffs[0].Pos)
		}
		by := ""
		if len(via) > 0 {
			by = " (code of the templates " + strings.Join(via, ", ") + ")"
		}
		r.report("effects|"+name, pos, "%s%s: its effects differ from the specified ones:\n    %s", name, by, strings.Join(what, "\n    "))
	}
	if n == 0 {
		r.report("anchor|"+path+"|"+c.Only, "", "no function of %s to analyse", path)
	}
	sort.Strings(names)
	u := map[string]interface{}{"package": path, "functions": n, "names": names}
	if c.Only != "" {
		u["only"] = c.Only
	}
	if c.Except != "" {
		u["except"] = c.Except
	}
	if len(via) > 0 {
		u["templates"] = via
	}
	r.units = append(r.units, u)
	if len(names) > 0 {
		r.samples = append(r.samples, names[len(names)/2])
	}
}

// instantiated builds the code of templates from the tree under analysis and
// from the reference.
func (r *run) instantiated(kind string, templates []string) (cur, ref *load.Repo) {
	set := tmpl.Set{}
	for _, t := range templates {
		set[t] = true
	}
	// one fresh pair of programs per instance: the packages share one root
	cur, err := load.Load(r.cur.Dir, r.fset)
	if err != nil {
		panic(err)
	}
	if ref, err = load.Load(r.ref.Dir, r.fset); err != nil {
		panic(err)
	}
	build := func(b *tmpl.Builder) error {
		if kind == "LR1" {
			return b.LR1()
		}
		return b.GLL()
	}
	if err := build(&tmpl.Builder{R: ref, Ref: ref}); err != nil {
		panic(fmt.Sprintf("reference: %v", err))
	}
	// The templates are read from the tree under analysis.
	if err := build(&tmpl.Builder{R: cur, Ref: ref, Set: set}); err != nil {
		r.report("instance|"+strings.Join(templates, ","), "", "%v", err)
		return nil, nil
	}
	return cur, ref
}

// instance analyses code instantiated from templates.
func (r *run) instance(in props.Inst) {
	cur, ref := r.instantiated(in.Kind, in.Templates)
	if cur == nil {
		return
	}
	oc, or, om := r.cur, r.ref, r.cmpMemo
	r.cur, r.ref, r.cmpMemo = cur, ref, nil
	for _, c := range in.Pkgs {
		r.cmp(c, tmpl.Root+c.Pkg, in.Templates)
	}
	r.cur, r.ref, r.cmpMemo = oc, or, om
	for _, n := range in.Rules {
		var pkgs []string
		for _, c := range in.Pkgs {
			pkgs = append(pkgs, c.Pkg)
		}
		if len(in.RulePkgs) > 0 {
			pkgs = in.RulePkgs
		}
		r.ruled = append(r.ruled, n)
		instRules[n](r, cur, pkgs)
	}
}

// rustShared: the Rust code keeps nothing between parses: no static that can
// change after start-up, nothing unsafe, nothing that belongs to the process.
func (r *run) rustShared() {
	r.ruled = append(r.ruled, "rust-no-shared-state")
	for _, c := range rust.Crates() {
		for _, u := range c.Units {
			r.obl++
			src, err := u.Source(r.cur, r.ref)
			if err != nil {
				continue // C21 reports it
			}
			ts := rust.Tokens(src)
			r.steps += len(ts)
			for i, s := range rust.Shared(ts) {
				r.report(fmt.Sprintf("rust-state|%s|%s|%d", u.Pkg, u.Name, i), u.Pkg, "the Rust code of template %q (%s) has %s: parses would share it", u.Name, u.File, s)
			}
		}
	}
}

// rust compares what the Rust templates produce.
func (r *run) rust() {
	r.ruled = append(r.ruled, "rust-templates")
	for _, c := range rust.Crates() {
		cur, ref := map[string]string{}, map[string]string{}
		same, ok := true, true
		for _, u := range c.Units {
			r.obl++
			key := "rust|" + u.Pkg + "|" + u.Name
			b, err := u.Source(r.ref, r.ref)
			if err != nil {
				panic(fmt.Sprintf("reference: %v", err))
			}
			a, err := u.Source(r.cur, r.ref)
			if err != nil {
				r.report(key, u.Pkg, "the template of %s cannot be instantiated: %v", u.File, err)
				ok = false
				continue
			}
			cur[u.File], ref[u.File] = a, b
			ta, tb := rust.Tokens(a), rust.Tokens(b)
			r.steps += len(ta)
			r.units = append(r.units, map[string]interface{}{"unit": c.Name + "/" + u.File, "template": u.Pkg + "#" + u.Name, "tokens": len(ta)})
			if rust.Diff(ta, tb) != "" {
				same = false
			} else {
				r.levels["rust tokens"]++
			}
		}
		if same || !ok {
			continue
		}
		var diff []string
		var err error
		equal := false
		for _, inline := range []bool{true, false} {
			var a map[string]string
			if a, err = rust.Compile(c, rust.Inline(cur, ref), inline); err != nil {
				break
			}
			b, errb := rust.Compile(c, rust.Inline(ref, cur), inline)
			if errb != nil {
				panic(fmt.Sprintf("reference: %v", errb))
			}
			if diff = rust.Differ(a, b); len(diff) == 0 {
				equal = true
				break
			}
			if d := os.Getenv("RSDUMP"); d != "" {
				os.WriteFile(d+".cur", []byte(a[diff[0]]), 0o644)
				os.WriteFile(d+".ref", []byte(b[diff[0]]), 0o644)
			}
		}
		if equal {
			r.levels["rust IR"]++
			continue
		}
		if len(diff) > 5 {
			diff = append(diff[:5], "…")
		}
		for _, u := range c.Units {
			d := rust.Diff(rust.Tokens(cur[u.File]), rust.Tokens(ref[u.File]))
			if d == "" {
				continue
			}
			if err != nil {
				r.report("rust|"+u.Pkg+"|"+u.Name, u.Pkg, "the Rust code of template %q (%s) does not compile: %v\n  at %s", u.Name, u.File, err, d)
			} else {
				r.report("rust|"+u.Pkg+"|"+u.Name, u.Pkg, "the Rust code of template %q (%s) is not equivalent to the reference: it has %s; compiled functions that differ: %s", u.Name, u.File, d, strings.Join(diff, ", "))
			}
		}
	}
}

var findingRE = regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)

func (r *run) known() map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(r.verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if f := findingRE.FindStringSubmatch(l); f != nil && f[1] == r.id {
			m[f[2]] = f[3]
		}
	}
	return m
}

func (r *run) finish(d time.Duration) int {
	known := r.known()
	var bad []violation
	seen := map[string]bool{}
	for _, v := range r.viol {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		if desc, ok := known[strings.ReplaceAll(v.Key, " ", "_")]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, desc)
			continue
		}
		bad = append(bad, v)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Strings(r.samples)
	files := 0
	if r.cur != nil {
		files = r.cur.Files
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of the source in /repo: " + ruleText(r),
			"obligations": r.obl, "discharged": r.obl - len(r.viol),
			"files_loaded": files, "analysis_steps": r.steps, "units": r.units, "samples": r.samples,
			"established": r.levels, "known_findings": len(seen) - len(bad),
		},
		"wall_s": d.Seconds(), "violations": len(bad),
	}
	if len(bad) > r.obl {
		ev["coverage"].(map[string]interface{})["discharged"] = 0
	}
	as := []string{
		"the Go type checker and SSA builder (golang.org/x/tools) represent the program faithfully",
		"the standard library and goutil behave as documented",
	}
	if r.compared > 0 {
		as = append(as, "the reviewed reference model in /verif/ref states the intended effects")
	}
	ev["assumptions"] = append(as, r.assumption...)
	os.MkdirAll(filepath.Join(r.verif, "evidence", "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 1
	}
	rep := filepath.Join("evidence", "replay", r.id+".txt")
	os.Remove(filepath.Join(r.verif, rep))
	fmt.Printf("%s: %d obligations, %d violated, %.1f s\n", r.id, r.obl, len(bad), d.Seconds())
	if len(bad) == 0 {
		return 0
	}
	var w strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&w, "[%s] %s\n  %s\n", v.Key, v.Pos, v.What)
	}
	os.WriteFile(filepath.Join(r.verif, rep), []byte(w.String()), 0o644)
	s := w.String()
	if len(s) > 4000 {
		s = s[:4000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rep)
	return 1
}

func ruleText(r *run) string {
	var t []string
	if r.compared > 0 {
		t = append(t, "every function listed under units is summarised as guarded effects (stores, calls, results, exits under path conditions, over gated SSA) and the summary is compared with that of the reviewed reference modulo the laws of Go's operators; helpers are inlined where the two differ in structure.")
	}
	done := map[string]bool{}
	for _, n := range r.ruled {
		if done[n] {
			continue
		}
		done[n] = true
		t = append(t, n+": "+ruleTexts[n])
	}
	return strings.Join(t, " ")
}
