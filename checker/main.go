package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"time"

	"verif/checker/eng"
	"verif/checker/load"
)

func main() {
	if len(os.Args) == 6 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	}
	if len(os.Args) > 2 && os.Args[1] == "cmp" {
		cmp(os.Args[2], os.Args[3], os.Args[4:])
		return
	}
	r, err := load.Load(os.Args[1], token.NewFileSet())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	e := eng.NewEng()
	e.StripPath = []string{load.ModPath + "/"}
	s := eng.NewSide(e, r.Prog, r.SSA, module)
	pk := r.SSA[load.ModPath+"/"+os.Args[2]]
	for _, f := range eng.Functions(r.Prog, pk) {
		if len(os.Args) > 3 && f.Name() != os.Args[3] {
			continue
		}
		t1 := time.Now()
		sm := eng.Summarize(e, s.P, f, eng.Options{})
		fmt.Print(sm)
		if d := time.Since(t1); d > time.Second {
			fmt.Println("TOOK", d)
		}
	}
}

func module(s string) bool { return strings.HasPrefix(s, "github.com/goccmack/") }

func cmp(refDir, curDir string, pkgs []string) {
	fset := token.NewFileSet()
	ref, err := load.Load(refDir, fset)
	if err != nil {
		fmt.Println("ref:", err)
		os.Exit(1)
	}
	cur, err := load.Load(curDir, fset)
	if err != nil {
		fmt.Println("cur:", err)
		os.Exit(1)
	}
	if len(pkgs) == 0 {
		for p := range ref.SSA {
			if strings.HasPrefix(p, load.ModPath) {
				switch strings.TrimPrefix(strings.TrimPrefix(p, load.ModPath), "/") {
				case "parser", "parser/slot", "parser/symbols", "lexer":
					continue
				}
				pkgs = append(pkgs, strings.TrimPrefix(strings.TrimPrefix(p, load.ModPath), "/"))
			}
		}
		sort.Strings(pkgs)
	}
	verbose := os.Getenv("V") != ""
	if os.Getenv("FULL") != "" {
		eng.MsgCap = 1 << 20
	}
	for _, p := range pkgs {
		e := eng.NewEng()
		e.StripPath = []string{load.ModPath + "/"}
		m := eng.NewMatcher(e, eng.NewSide(e, cur.Prog, cur.SSA, module), eng.NewSide(e, ref.Prog, ref.SSA, module))
		if verbose {
			m.Log = func(f string, a ...interface{}) { fmt.Printf("  # "+f+"\n", a...) }
		}
		t0 := time.Now()
		path := strings.TrimSuffix(load.ModPath+"/"+p, "/")
		n := 0
		for _, r := range m.ComparePackage(path) {
			n++
			if len(r.Diffs) > 0 || verbose {
				fmt.Println(r)
			}
		}
		if d := time.Since(t0); d > 2*time.Second || verbose {
			fmt.Println(p, n, "functions", d)
		}
	}
}
