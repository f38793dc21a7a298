package rust

import (
	"crypto/sha256"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// canon renders one function of LLVM IR in a form that does not depend on the
// names of values and blocks, on the order of instructions without effect, on
// the order of loads between stores, or on the polarity of branches.
func canon(text string) string {
	lines := strings.Split(text, "\n")
	head := lines[0]
	type ins struct {
		res, op, text string
		blk           int
	}
	type block struct {
		name string
		ins  []ins
	}
	var blocks []*block
	idx := map[string]int{}
	params := map[string]string{}
	if i := strings.Index(head, "("); i >= 0 {
		for n, p := range valRE.FindAllString(head[i:], -1) {
			params[p] = fmt.Sprintf("arg%d", n)
		}
	}
	cur := &block{name: "%entry"}
	blocks = append(blocks, cur)
	started := false
	for i := 1; i < len(lines); i++ {
		ln := lines[i]
		if k := strings.Index(ln, " ; "); k > 0 && !strings.Contains(ln, "\"") {
			ln = ln[:k]
		}
		t := strings.TrimSpace(ln)
		if t == "" || t == "}" || strings.HasPrefix(t, ";") {
			continue
		}
		if mm := labelRE.FindStringSubmatch(ln); mm != nil {
			if started || len(cur.ins) > 0 {
				cur = &block{}
				blocks = append(blocks, cur)
			}
			cur.name = "%" + mm[1]
			started = true
			continue
		}
		started = true
		if strings.HasPrefix(t, "switch ") && !strings.Contains(t, "]") {
			for i++; i < len(lines); i++ {
				x := strings.TrimSpace(lines[i])
				t += " " + x
				if strings.HasPrefix(x, "]") {
					break
				}
			}
		}
		in := ins{text: t}
		if mm := resRE.FindStringSubmatch(t); mm != nil {
			in.res, in.text = mm[1], mm[2]
		}
		f := strings.Fields(in.text)
		in.op = f[0]
		if in.op == "tail" || in.op == "musttail" || in.op == "notail" {
			in.op = "call"
			in.text = strings.Join(f[1:], " ")
		}
		if in.op == "call" {
			if strings.Contains(in.text, "@llvm.lifetime") || strings.Contains(in.text, "@llvm.assume") || strings.Contains(in.text, "noalias.scope") {
				continue
			}
			if in.res != "" && pureCallRE.MatchString(in.text) {
				in.op = "purecall"
			}
		}
		cur.ins = append(cur.ins, in)
	}
	for i, b := range blocks {
		idx[b.name] = i
	}
	// a store to a stack slot moves down to the next use of the slot
	slot := map[string]bool{}
	for _, b := range blocks {
		for _, in := range b.ins {
			if in.op == "alloca" {
				slot[in.res] = true
			}
		}
	}
	for _, b := range blocks {
		for i := len(b.ins) - 2; i >= 0; i-- {
			vs := valRE.FindAllString(b.ins[i].text, -1)
			if b.ins[i].op != "store" || len(vs) == 0 || !slot[vs[len(vs)-1]] {
				continue
			}
			a := vs[len(vs)-1]
			for j := i; j+2 < len(b.ins) && !uses(b.ins[j+1].text, a); j++ {
				if nv := valRE.FindAllString(b.ins[j+1].text, -1); b.ins[j+1].op == "store" && len(nv) > 0 && slot[nv[len(nv)-1]] {
					break
				}
				b.ins[j], b.ins[j+1] = b.ins[j+1], b.ins[j]
			}
		}
	}
	// definitions
	def := map[string]*ins{}
	for bi, b := range blocks {
		for i := range b.ins {
			b.ins[i].blk = bi
			if b.ins[i].res != "" {
				def[b.ins[i].res] = &b.ins[i]
			}
		}
	}
	succ := func(b *block) (out []int) {
		if len(b.ins) == 0 {
			return
		}
		for _, mm := range succRE.FindAllStringSubmatch(b.ins[len(b.ins)-1].text, -1) {
			if j, ok := idx[mm[1]]; ok {
				out = append(out, j)
			}
		}
		return
	}
	// a branch on the negation of a base condition has its successors swapped
	negated := func(v string) bool { return false }
	neg := map[string]bool{}
	var isNeg func(v string, d int) bool
	isNeg = func(v string, d int) bool {
		in := def[v]
		if in == nil || d > 8 {
			return false
		}
		if in.op == "icmp" {
			p := icmpRE.FindStringSubmatch(in.text)
			return p != nil && (p[1] == "ne" || p[1] == "uge" || p[1] == "ule" || p[1] == "sge" || p[1] == "sle")
		}
		if in.op == "phi" && strings.HasPrefix(in.text, "phi i1 ") {
			// the form in which the constants that come in are false
			t, f := false, false
			for _, mm := range phiRE.FindAllStringSubmatch(in.text, -1) {
				t = t || mm[1] == "true"
				f = f || mm[1] == "false"
			}
			return t && !f
		}
		if in.op == "xor" && strings.HasSuffix(in.text, ", true") {
			vs := valRE.FindAllString(in.text, -1)
			return len(vs) == 1 && !isNeg(vs[0], d+1)
		}
		return false
	}
	negated = func(v string) bool {
		if x, ok := neg[v]; ok {
			return x
		}
		neg[v] = isNeg(v, 0)
		return neg[v]
	}
	order := map[int]int{}
	var seq []int
	var dfs func(b int)
	dfs = func(b int) {
		if _, ok := order[b]; ok {
			return
		}
		order[b] = len(order)
		seq = append(seq, b)
		ss := succ(blocks[b])
		t := blocks[b].ins[len(blocks[b].ins)-1]
		if t.op == "br" && len(ss) == 2 && negated(valRE.FindString(t.text)) {
			ss[0], ss[1] = ss[1], ss[0]
		}
		for _, s := range ss {
			dfs(s)
		}
	}
	dfs(0)
	// colours
	col := map[string]string{}
	for p, c := range params {
		col[p] = c
	}
	epoch := map[string]int{}
	for _, bi := range seq {
		n := 0
		for i := range blocks[bi].ins {
			in := &blocks[bi].ins[i]
			if in.res != "" {
				epoch[in.res] = n
				switch {
				case in.op == "alloca":
					col[in.res] = "alloca"
				case in.op == "phi":
					col[in.res] = fmt.Sprintf("phi%d", order[bi])
				case in.op == "load" || pure[in.op]:
					col[in.res] = "?"
				default:
					col[in.res] = fmt.Sprintf("val%d.%d", order[bi], n)
				}
			}
			if !(in.op == "load" || pure[in.op] || in.op == "phi" || in.op == "alloca") {
				n++
			}
		}
	}
	short := func(s string) string {
		if len(s) < 60 {
			return s
		}
		h := sha256.Sum256([]byte(s))
		return fmt.Sprintf("h%x", h[:8])
	}
	sub := func(t string) string {
		return valRE.ReplaceAllStringFunc(t, func(v string) string {
			if j, ok := idx[v]; ok {
				if o, ok := order[j]; ok {
					return fmt.Sprintf("bb%d", o)
				}
				return "dead"
			}
			if c, ok := col[v]; ok {
				return c
			}
			return v
		})
	}
	// stack slots in the order of their first use
	slots := map[string]bool{}
	for _, bi := range seq {
		for _, in := range blocks[bi].ins {
			for _, v := range valRE.FindAllString(in.text, -1) {
				if d := def[v]; d != nil && d.op == "alloca" && !slots[v] {
					slots[v] = true
					col[v] = "alloca:" + d.text
				}
			}
		}
	}
	for round := 0; round < 24; round++ {
		next := map[string]string{}
		for _, bi := range seq {
			for i := range blocks[bi].ins {
				in := &blocks[bi].ins[i]
				if in.res == "" {
					continue
				}
				switch {
				case in.op == "phi":
					var inc []string
					n := negated(in.res)
					for _, mm := range phiRE.FindAllStringSubmatch(in.text, -1) {
						x := sub(mm[1])
						if n {
							x = not(x)
						}
						inc = append(inc, sub(mm[2])+"<-"+x)
					}
					sort.Strings(inc)
					next[in.res] = short(fmt.Sprintf("phi%d(%s)", order[bi], strings.Join(inc, ",")))
					if n {
						next[in.res] = "!" + next[in.res]
					}
				case in.op == "load":
					next[in.res] = short(fmt.Sprintf("load%d.%d %s", order[bi], epoch[in.res], sub(in.text)))
				case in.op == "icmp":
					p := icmpRE.FindStringSubmatch(in.text)
					if p == nil {
						next[in.res] = short(sub(in.text))
						break
					}
					pred, a, b, n := p[1], sub(p[3]), sub(p[4]), false
					switch pred {
					case "ne":
						pred, n = "eq", true
					case "uge", "sge":
						pred, n = pred[:1]+"lt", true
					case "ule", "sle":
						pred, n, a, b = pred[:1]+"lt", true, b, a
					case "ugt", "sgt":
						pred, a, b = pred[:1]+"lt", b, a
					}
					if pred == "eq" && b < a {
						a, b = b, a
					}
					x := short(fmt.Sprintf("icmp %s %s %s %s", pred, p[2], a, b))
					if n {
						x = "!" + x
					}
					next[in.res] = x
				case in.op == "xor" && strings.HasSuffix(in.text, ", true"):
					next[in.res] = not(sub(valRE.FindString(in.text)))
				case pure[in.op]:
					t := sub(in.text)
					if f := binRE.FindStringSubmatch(t); f != nil && f[4] < f[3] {
						t = f[1] + f[2] + f[4] + ", " + f[3]
					}
					next[in.res] = short(t)
				}
			}
		}
		changed := false
		for k, v := range next {
			if col[k] != v {
				col[k] = v
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	var w strings.Builder
	fmt.Fprintln(&w, sub(head))
	for _, bi := range seq {
		fmt.Fprintf(&w, "bb%d:\n", order[bi])
		for _, in := range blocks[bi].ins {
			if in.op == "load" || pure[in.op] || in.op == "phi" || in.op == "alloca" {
				continue
			}
			if in.op == "br" {
				ss := succRE.FindAllStringSubmatch(in.text, -1)
				if len(ss) == 2 {
					c := valRE.FindString(in.text)
					a, b := sub(ss[0][1]), sub(ss[1][1])
					x := sub(c)
					if strings.HasPrefix(x, "!") {
						x, a, b = x[1:], b, a
					}
					fmt.Fprintf(&w, "  br %s %s %s\n", x, a, b)
					continue
				}
			}
			fmt.Fprintf(&w, "  %s\n", sub(in.text))
		}
	}
	return w.String()
}

func not(x string) string {
	switch {
	case x == "true":
		return "false"
	case x == "false":
		return "true"
	case strings.HasPrefix(x, "!"):
		return x[1:]
	}
	return "!" + x
}

func uses(t, v string) bool {
	for _, x := range valRE.FindAllString(t, -1) {
		if x == v {
			return true
		}
	}
	return false
}

var (
	valRE      = regexp.MustCompile(`%("[^"]*"|[-\w$.]+)`)
	labelRE    = regexp.MustCompile(`^("[^"]*"|[-\w$.]+):`)
	resRE      = regexp.MustCompile(`^(%(?:"[^"]*"|[-\w$.]+)) = (.*)$`)
	succRE     = regexp.MustCompile(`label (%(?:"[^"]*"|[-\w$.]+))`)
	phiRE      = regexp.MustCompile(`\[ ([^,\]]+), (%(?:"[^"]*"|[-\w$.]+)) \]`)
	icmpRE     = regexp.MustCompile(`^icmp (?:samesign )?(\w+) (\S+) (\S+), (\S+)$`)
	binRE      = regexp.MustCompile(`^((?:add|mul|and|or|xor) (?:nuw |nsw |disjoint )*)(\S+ )(\S+), (\S+)$`)
	pureCallRE = regexp.MustCompile(`@llvm\.(u|s)(max|min|add|sub|mul)|@llvm\.(ctpop|ctlz|cttz|fshl|fshr|bswap|abs)`)
	pure       = map[string]bool{"add": true, "sub": true, "mul": true, "udiv": true, "sdiv": true, "urem": true, "srem": true, "icmp": true, "zext": true, "sext": true, "trunc": true,
		"getelementptr": true, "select": true, "extractvalue": true, "insertvalue": true, "and": true, "or": true, "xor": true, "shl": true, "lshr": true, "ashr": true,
		"inttoptr": true, "ptrtoint": true, "bitcast": true, "freeze": true, "purecall": true, "insertelement": true, "extractelement": true, "shufflevector": true, "fcmp": true, "uitofp": true}
)
