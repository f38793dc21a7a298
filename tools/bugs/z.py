def o1(n,c,f,a,b): ref(n,c,[(f,a,b)])
SY='gen/symbols/symbols.go'; LF='gen/lexfsa/lexfsa.go'; FFG='gen/firstfollow/firstfollow.go'; LX='gen/golang/lexer/lexer.go'; TK='gen/golang/token/token.go'; L1='lr1/gen.go'; M='main.go'
W='''	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err != nil {
		fail(err)
	}
'''
# C18
o1('z18-retry','C18',SY,W,'''	var err error
	for i := 0; i < 3; i++ {
		if err = ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err == nil {
			break
		}
		fmt.Println("Error writing symbols file:", err)
	}
''')
o1('z18-retry-last','C18',SY,W,'''	for i := 0; i < 3; i++ {
		err := ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes())
		if err == nil {
			return
		}
		if i > 3 {
			fail(err)
		}
	}
''')
o1('z18-errlist','C18',SY,W,'''	var errs []error
	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err != nil {
		errs = append(errs, err)
	}
	if len(errs) > 1 {
		fail(errs[0])
	}
''')
o1('z18-global','C18',SY,W,'''	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err != nil {
		lastErr = err
	}
}

var lastErr error

func init() {
	if lastErr != nil {
		fail(lastErr)
	}
''')
o1('z18-isnotexist','C18',SY,W,'''	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err != nil && !os.IsPermission(err) {
		fail(err)
	}
''')
o1('z18-wrapnil','C18',SY,W,'''	if err := describe(ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes())); err != nil {
		fail(err)
	}
}

func describe(err error) error {
	if os.IsExist(err) {
		return fmt.Errorf("cannot write: %v", err)
	}
	return nil
''')
o1('z18-exit0','C18',SY,'''	fmt.Printf("Error writing symbols file: %s\\n", err)
	os.Exit(1)
''','''	fmt.Printf("Error writing symbols file: %s\\n", err)
	code := 0
	if os.IsPermission(err) {
		code = 1
	}
	os.Exit(code)
''')
o1('z18-defer','C18',SY,W,'''	defer ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes())
''')
o1('z18-shadow','C18',LX,'''	if err = tmpl.Execute(buf, getData(g, ls)); err != nil {
		panic(err)
	}
''','''	err = tmpl.Execute(buf, getData(g, ls))
''')
o1('z18-closure','C18',SY,W,'''	write := func() (err error) {
		err = ioutil.WriteFile(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes())
		defer func() { err = nil }()
		return
	}
	if err := write(); err != nil {
		fail(err)
	}
''')
ref('z18-log','C18',[(SY,'''	fmt.Printf("Error writing symbols file: %s\\n", err)
	os.Exit(1)
''','''	fmt.Printf("Error writing symbols file: %s\\n", err)
	runtime.Goexit()
'''),(SY,'\t"os"\n','\t"runtime"\n')])
ref('z18-mainrec','C18',[(M,'''	cfg.GetParams()
''','''	defer func() {
		if r := recover(); r != nil {
			fmt.Println(r)
		}
	}()
	cfg.GetParams()
''')])
o1('z18-lexnew','C18','lexer/lexer.go','''	buf, err := ioutil.ReadFile(fname)
	if err != nil {
		panic(err)
	}
''','''	buf, err := ioutil.ReadFile(fname)
	if err != nil && len(buf) > 0 {
		panic(err)
	}
''')
o1('z18-create','C18',SY,W,'''	f, err := os.Create(path.Join(cfg.BaseDir, "symbols.txt"))
	if err != nil {
		fail(err)
	}
	defer f.Close()
	fmt.Fprint(f, buf.String())
	var _ = ioutil.WriteFile
''')
o1('z18-writeto','C18',SY,W,'''	f, err := os.Create(path.Join(cfg.BaseDir, "symbols.txt"))
	if err != nil {
		fail(err)
	}
	var _ = ioutil.WriteFile
	buf.WriteTo(f)
	f.Close()
''')
ref('z18-short','C18',[(LX,'''	if err = ioutil.WriteFile(lexFile, buf.Bytes()); err != nil {
		panic(err)
	}
''','''	if old, rerr := os.ReadFile(lexFile); rerr == nil && len(old) == buf.Len() {
		return
	}
	if err = ioutil.WriteFile(lexFile, buf.Bytes()); err != nil {
		panic(err)
	}
'''),(LX,'\t"path/filepath"\n\t"text/template"\n\n\t"github.com/goccmack/gogll/v3/ast"\n','\t"os"\n\t"path/filepath"\n\t"text/template"\n\n\t"github.com/goccmack/gogll/v3/ast"\n')])
o1('z18-fmtdrop','C18','gen/golang/gll/parser.go','''		fmt.Printf("Error formatting generated parsers: %s\\n", err)
		fmtSrc = buf.Bytes()
''','''		fmtSrc = buf.Bytes()
''')
o1('z18-fmtnone','C18','gen/golang/gll/parser.go','''		fmt.Printf("Error formatting generated parsers: %s\\n", err)
		fmtSrc = buf.Bytes()
''','''		fmt.Printf("Error formatting generated parsers: %s\\n", err)
''')
# C19
o1('z19-less','C19','gslot/gslot.go','''		if ss[i].Alternate == ss[j].Alternate {
			if ss[i].Pos < ss[j].Pos {
				return true
			}
		}
''','')
o1('z19-elems','C19',FFG,'''ff.FirstOfSymbol(symbol).ElementsSorted()''','''ff.FirstOfSymbol(symbol).Elements()''')
o1('z19-first','C19',FFG,'''	fmt.Fprintf(w, "Follow(%s): ", nt)
''','''	fmt.Fprintf(w, "Follow(%s): ", nt)
	seen := map[string]bool{}
	for _, s := range ff.Follow(nt).Elements() {
		seen[s] = true
	}
	for s := range seen {
		fmt.Fprintf(w, "%s.. ", s)
		break
	}
''')
o1('z19-number','C19','symbols/symbols.go','''	return''','''	return''') if False else None
o1('z19-ptr','C19',LF,'''		fmt.Fprintf(w, "S%d:\\n", s.No)
''','''		fmt.Fprintf(w, "S%d: %v\\n", s.No, &s.No)
''')
o1('z19-cwd','C19',SY,'''	buf := new(bytes.Buffer)
''','''	buf := new(bytes.Buffer)
	if wd, err := os.Getwd(); err == nil {
		fmt.Fprintln(buf, wd)
	}
''')
o1('z19-stat','C19',SY,'''	buf := new(bytes.Buffer)
''','''	buf := new(bytes.Buffer)
	if fi, err := os.Stat(cfg.SrcFile); err == nil {
		fmt.Fprintln(buf, fi.ModTime())
	}
''')
o1('z19-args','C19',SY,'''	buf := new(bytes.Buffer)
''','''	buf := new(bytes.Buffer)
	fmt.Fprintln(buf, os.Args[0])
''')
o1('z19-append','C19',SY,'''	buf := new(bytes.Buffer)
''','''	old, _ := os.ReadFile(path.Join(cfg.BaseDir, "symbols.txt"))
	buf := bytes.NewBuffer(old)
''')
o1('z19-chan','C19',SY,'''	for _, sym := range g.GetSymbols() {
		fmt.Fprintf(buf, "%s\\n", sym)
	}
''','''	out := make(chan string)
	syms := g.GetSymbols()
	for _, sym := range syms {
		go func(sym string) { out <- sym }(sym)
	}
	for range syms {
		fmt.Fprintf(buf, "%s\\n", <-out)
	}
''')
ref('z19-syncmap','C19',[(SY,'''	for _, sym := range g.GetSymbols() {
		fmt.Fprintf(buf, "%s\\n", sym)
	}
''','''	var m sync.Map
	for _, sym := range g.GetSymbols() {
		m.Store(sym, true)
	}
	m.Range(func(k, _ interface{}) bool {
		fmt.Fprintf(buf, "%s\\n", k)
		return true
	})
'''),(SY,'import (\n','import (\n\t"sync"\n')])
ref('z19-reflect','C19',[(SY,'''	for _, sym := range g.GetSymbols() {
		fmt.Fprintf(buf, "%s\\n", sym)
	}
''','''	m := map[string]bool{}
	for _, sym := range g.GetSymbols() {
		m[sym] = true
	}
	for _, k := range reflect.ValueOf(m).MapKeys() {
		fmt.Fprintf(buf, "%s\\n", k)
	}
'''),(SY,'import (\n','import (\n\t"reflect"\n')])
o1('z19-iter','C19','lr1/action/conflict.go','package action','package action\n') if False else None
ref('z19-sortlen','C19',[(FFG,'''	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
		fmt''','''	el := ff.FirstOfSymbol(symbol).Elements()
	sort.Slice(el, func(i, j int) bool { return len(el[i]) < len(el[j]) })
	for _, s := range el {
		fmt'''),(FFG,'import (\n','import (\n\t"sort"\n')])
ref('z19-sortpre','C19',[(FFG,'''	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
		fmt''','''	el := ff.FirstOfSymbol(symbol).Elements()
	sort.Slice(el, func(i, j int) bool { return strings.ToLower(el[i]) < strings.ToLower(el[j]) })
	for _, s := range el {
		fmt'''),(FFG,'import (\n','import (\n\t"sort"\n\t"strings"\n')])
o1('z19-pid','C19',SY,'"symbols.txt"','fmt.Sprint("symbols", os.Getpid(), ".txt")')
# C25
o1('z25-pkg','C25',TK,'''	return filepath.Join(cfg.BaseDir, "token", "token.go")''','''	return filepath.Join(cfg.BaseDir, "token", filepath.Base(pkg)+".go")''')
o1('z25-cwd','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','path.Join(".", "symbols.txt")')
o1('z25-src','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','path.Join(path.Dir(cfg.SrcFile), "symbols.txt")')
o1('z25-ext','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','path.Clean(cfg.SrcFile) + ".symbols"')
o1('z25-tmp','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','path.Join(os.TempDir(), "symbols.txt")')
o1('z25-rename','C25',SY,W,W+'''	os.Rename(path.Join(cfg.BaseDir, "symbols.txt"), "symbols.txt")
''')
ref('z25-rmall','C25',[(L1,'''	os.Remove(path.Join(cfg.BaseDir, "first.txt"))
''','''	if m, err := filepath.Glob(path.Join(cfg.BaseDir, "*.txt")); err == nil {
		for _, f := range m {
			os.Remove(f)
		}
	}
'''),(L1,'import (\n','import (\n\t"path/filepath"\n')])
o1('z25-abs','C25','cfg/cfg.go','''			BaseDir = "."
''','''			BaseDir = ".."
''')
o1('z25-clean','C25','cfg/cfg.go','''		BaseDir = *outDir
''','''		BaseDir = path.Join(path.Dir(SrcFile), *outDir)
''')
o1('z25-nosep','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','cfg.BaseDir + "symbols.txt"')
o1('z25-chmod','C25',SY,W,W+'''	os.Chmod(cfg.SrcFile, 0644)
''')
o1('z25-trunc','C25',SY,W,W+'''	os.Truncate(cfg.SrcFile, 1<<20)
''')
o1('z25-link','C25',SY,W,W+'''	os.Link(path.Join(cfg.BaseDir, "symbols.txt"), "symbols.txt")
''')
o1('z25-open','C25',SY,W,W+'''	if f, err := os.OpenFile("gogll.log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
		fmt.Fprintln(f, cfg.SrcFile)
		f.Close()
	}
''')
o1('z25-env','C25',SY,'path.Join(cfg.BaseDir, "symbols.txt")','path.Join(os.ExpandEnv(cfg.BaseDir), "symbols.txt")')
o1('z25-nt','C25',SY,W,W+'''	for _, r := range g.SyntaxRules {
		ioutil.WriteFile(path.Join(cfg.BaseDir, r.ID()+".txt"), nil)
	}
''')
# C22
GP='gen/golang/gll/parser.go'; GB='gen/golang/gll/bsr/bsr.go'; GS='gen/golang/gll/slots/slots.go'; GL='gen/golang/gll/../token/token.go'
o1('z22-pool','C22',GP,'''func newParser(l *lexer.Lexer) *parser {
	return &parser{''','''var cached = map[*lexer.Lexer]*parser{}

func newParser(l *lexer.Lexer) *parser {
	if p, ok := cached[l]; ok {
		return p
	}
	return &parser{''')
ref('z22-shared','C22',[(GP,'''func (p *parser) ntAdd(''','''var noTokens = map[token.Type]string{}

func (p *parser) ntAdd('''),(GP,'''	expected := map[token.Type]string{}
	for _, l''','''	expected := noTokens
	for _, l''')])
o1('z22-sort','C22',GP,'''	for _, l := range slot.GetAlternates(nt) {
		if p.testSelect(l) {''','''	alts := slot.GetAlternates(nt)
	sort.Slice(alts, func(i, j int) bool { return alts[i] > alts[j] })
	for _, l := range alts {
		if p.testSelect(l) {''')
ref('z22-lexbuf','C22',[(LX,'''func (l *Lexer) scan(''','''var tokenBuffer = make([]*token.Token, 0, 2048)

func (l *Lexer) scan('''),(LX,'''		Tokens: make([]*token.Token, 0, 2048),
''','''		Tokens: tokenBuffer[:0],
''')])

o1('z19-brk','C19',FFG,"""	fmt.Fprintf(w, "Follow(%s): ", nt)
""","""	fmt.Fprintf(w, "Follow(%s): ", nt)
	seen := map[string]bool{}
	for _, s := range ff.Follow(nt).Elements() {
		seen[s] = true
	}
	for s := range seen {
		if len(s) > 1 {
			fmt.Fprintf(w, "%s.. ", s)
			break
		}
	}
""")
ref('z19-brk2','C19',[(FFG,'import (\n','import (\n\t"sort"\n'),(FFG,"""	for _, s := range ff.Follow(nt).ElementsSorted() {
		fmt""","""	el := ff.Follow(nt).Elements()
	if len(el) > 3 {
		el = el[:3]
	}
	sort.Strings(el)
	for _, s := range el {
		fmt""")])
o1('z18-closure2','C18',SY,W,"""	if err := write(path.Join(cfg.BaseDir, "symbols.txt"), buf.Bytes()); err != nil {
		fail(err)
	}
}

func write(fn string, b []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = nil
		}
	}()
	if err = ioutil.WriteFile(fn, b); err != nil {
		panic(err)
	}
	return
""")
