From 252bfcc2c99cdc01917992a5d229cea868c53d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 01/43] fix: position of a character class in a token rule no
 longer recurses forever

---
 ast/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..55793c0 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -310,7 +310,7 @@ func (u *UnicodeClass) Equal(other LexBase) bool {
 }
 
 func (u *UnicodeClass) Lext() int {
-	return u.Lext()
+	return u.tok.Lext()
 }
 
 func (*Any) String() string {
-- 
2.43.0


From bdf9c551348aeaa9f048349998a59021ff09a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:43 +0000
Subject: [PATCH 02/43] fix: escape-stripped literal of \n is a line feed

---
 gen/golang/token/token.go | 2 +-
 token/token.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..f2d87fc 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..973bd57 100755
--- a/token/token.go
+++ b/token/token.go
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From 7dafcbcfd1098765369c599851b6716d7f7557b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 03/43] fix: rules sharing a token definition no longer
 overwrite each other's symbols

---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..cb5f8c6 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// a copy, because the caller appends to it
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From 525275de239aedfd14204b0857b2f75afd39e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 04/43] fix: exporting a packed forest no longer overwrites the
 slot tables

---
 gen/golang/gll/bsr/bsr.go | 2 +-
 parser/bsr/bsr.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..ca692ac 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -626,7 +626,7 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
                 alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
+                    body := append(append(symbols.Symbols{}, str.Symbols...), delta...)
                     in.Children = append(in.Children,
                         bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 4f8dd16..b6f11bd 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -588,7 +588,7 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
                 alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
+                    body := append(append(symbols.Symbols{}, str.Symbols...), delta...)
                     in.Children = append(in.Children,
                         bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
-- 
2.43.0


From 2aa18c1bdecdc09afcf87119503a33bf82449bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:39 +0000
Subject: [PATCH 05/43] fix: the parse forest keeps every way to split a rule's
 symbols

---
 gen/golang/gll/bsr/bsr.go | 57 ++++++++++++++++++++++++++++++---------
 parser/bsr/bsr.go         | 57 ++++++++++++++++++++++++++++++---------
 2 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index ca692ac..c5e610f 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,9 +213,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, entries := range s.stringEntries {
+        for _, s := range entries {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -234,8 +236,8 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, bsrl := range s.stringEntries {
+        bsrs = append(bsrs, bsrl...)
     }
     sort.Sort(bsrs)
     return bsrs
@@ -244,9 +246,9 @@ func (s *Set) getStringBSRs() stringBSRs {
 func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
     // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs[len(strBsrs)-1]
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -259,11 +261,19 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -535,6 +545,12 @@ func (s *Set) ReportAmbiguous() {
 // report return true iff at least one ambigous BSR was found
 func (s *Set) report(b BSR) bool {
     ambiguous := false
+    if b.hasAmbiguousString() {
+        ambiguous = true
+        ln, col := s.getLineColumn(b.LeftExtent())
+        fmt.Printf("  Ambigous: in %s: symbols split in more than one way at line %d col %d \n",
+            b, ln, col)
+    }
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
         if sym.IsNonTerminal() {
@@ -557,7 +573,7 @@ func (s *Set) report(b BSR) bool {
 
 // IsAmbiguous returns true if the BSR set does not have exactly one root, or
 // if any BSR in the set has an NT symbol, which does not have exactly one
-// sub-tree.
+// sub-tree, or has more than one way to split its symbols.
 func (s *Set) IsAmbiguous() bool {
     if len(s.GetRoots()) != 1 {
         return true
@@ -567,8 +583,11 @@ func (s *Set) IsAmbiguous() bool {
 
 // isAmbiguous returns true if b or any of its NT children is ambiguous.
 // A BSR is ambiguous if any of its NT symbols does not have exactly one
-// subtrees (children).
+// subtrees (children), or if its symbols can be split in more than one way.
 func isAmbiguous(b BSR) bool {
+    if b.hasAmbiguousString() {
+        return true
+    }
     for i, s := range b.Label.Symbols() {
         if s.IsNonTerminal() {
             if len(b.GetNTChildrenI(i)) != 1 {
@@ -584,6 +603,20 @@ func isAmbiguous(b BSR) bool {
     return false
 }
 
+// hasAmbiguousString returns true if a prefix of the symbols of b has more than
+// one pivot.
+func (b BSR) hasAmbiguousString() bool {
+    symbols, rext := b.Label.Symbols(), b.pivot
+    for n := len(symbols) - 1; n > 1; n-- {
+        strs := b.set.stringEntries[getStringKey(symbols[:n], b.leftExtent, rext)]
+        if len(strs) != 1 {
+            return true
+        }
+        rext = strs[0].pivot
+    }
+    return false
+}
+
 //---- SPPF ------------
 
 type bldSPPF struct {
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index b6f11bd..22f3fcf 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -34,7 +34,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -75,7 +75,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -175,9 +175,11 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
+    for _, entries := range s.stringEntries {
+        for _, s := range entries {
+            if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
+                strs = append(strs, s)
+            }
         }
     }
     return
@@ -196,8 +198,8 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, bsrl := range s.stringEntries {
+        bsrs = append(bsrs, bsrl...)
     }
     sort.Sort(bsrs)
     return bsrs
@@ -206,9 +208,9 @@ func (s *Set) getStringBSRs() stringBSRs {
 func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
     // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs[len(strBsrs)-1]
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -221,11 +223,19 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -497,6 +507,12 @@ func (s *Set) ReportAmbiguous() {
 // report return true iff at least one ambigous BSR was found
 func (s *Set) report(b BSR) bool {
     ambiguous := false
+    if b.hasAmbiguousString() {
+        ambiguous = true
+        ln, col := s.getLineColumn(b.LeftExtent())
+        fmt.Printf("  Ambigous: in %s: symbols split in more than one way at line %d col %d \n",
+            b, ln, col)
+    }
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
         if sym.IsNonTerminal() {
@@ -519,7 +535,7 @@ func (s *Set) report(b BSR) bool {
 
 // IsAmbiguous returns true if the BSR set does not have exactly one root, or
 // if any BSR in the set has an NT symbol, which does not have exactly one
-// sub-tree.
+// sub-tree, or has more than one way to split its symbols.
 func (s *Set) IsAmbiguous() bool {
     if len(s.GetRoots()) != 1 {
         return true
@@ -529,8 +545,11 @@ func (s *Set) IsAmbiguous() bool {
 
 // isAmbiguous returns true if b or any of its NT children is ambiguous.
 // A BSR is ambiguous if any of its NT symbols does not have exactly one
-// subtrees (children).
+// subtrees (children), or if its symbols can be split in more than one way.
 func isAmbiguous(b BSR) bool {
+    if b.hasAmbiguousString() {
+        return true
+    }
     for i, s := range b.Label.Symbols() {
         if s.IsNonTerminal() {
             if len(b.GetNTChildrenI(i)) != 1 {
@@ -546,6 +565,20 @@ func isAmbiguous(b BSR) bool {
     return false
 }
 
+// hasAmbiguousString returns true if a prefix of the symbols of b has more than
+// one pivot.
+func (b BSR) hasAmbiguousString() bool {
+    symbols, rext := b.Label.Symbols(), b.pivot
+    for n := len(symbols) - 1; n > 1; n-- {
+        strs := b.set.stringEntries[getStringKey(symbols[:n], b.leftExtent, rext)]
+        if len(strs) != 1 {
+            return true
+        }
+        rext = strs[0].pivot
+    }
+    return false
+}
+
 //---- SPPF ------------
 
 type bldSPPF struct {
-- 
2.43.0


From 7dd1f7d912af64a9910b88a45f0e10df376b816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 06/43] fix: listing ambiguous subtrees terminates on cyclic
 forests and reports nested ones

---
 gen/golang/gll/bsr/bsr.go | 12 ++++++++----
 parser/bsr/bsr.go         | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index c5e610f..5a7d09f 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -536,15 +536,17 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found.
+// done contains the BSRs that have been reported already: a forest may be cyclic.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
     ambiguous := false
+    done[b] = true
     if b.hasAmbiguousString() {
         ambiguous = true
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -564,7 +566,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if !done[b1] && s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 22f3fcf..5275569 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -498,15 +498,17 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found.
+// done contains the BSRs that have been reported already: a forest may be cyclic.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
     ambiguous := false
+    done[b] = true
     if b.hasAmbiguousString() {
         ambiguous = true
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -526,7 +528,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if !done[b1] && s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 35c4cdacb218f09ffaa46e13e8963832ff349c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:24 +0000
Subject: [PATCH 07/43] fix: the GLL parser processes each descriptor once

---
 gen/golang/gll/parser.go | 2 +-
 parser/parser.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..15963e7 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -324,7 +324,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..bd84936 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1723,7 +1723,7 @@ type descriptors struct {
 
 func (ds *descriptors) contain(d *descriptor) bool {
 	for _, d1 := range ds.set {
-		if d1 == d {
+		if *d1 == *d {
 			return true
 		}
 	}
-- 
2.43.0


From 5d21174bba74cd3555d05bc257601c1bf68b24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:34 +0000
Subject: [PATCH 08/43] fix: a parse that stops before the end of the input
 reports an error

---
 gen/golang/gll/parser.go | 11 +++++++++++
 parser/parser.go         | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 15963e7..7575b9a 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,12 +171,23 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.endErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
 	return p.bsrSet, nil
 }
 
+// endErrors adds an error for each derivation of the start symbol from the
+// beginning of the input, after which the input does not end.
+func (p *parser) endErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_{{.StartSymbol}} && b.LeftExtent() == 0 {
+			p.parseError(b.Label, b.RightExtent(), map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) ntAdd(nt symbols.NT, j int) {
 	// fmt.Printf("p.ntAdd(%s, %d)\n", nt, j)
 	failed := true
diff --git a/parser/parser.go b/parser/parser.go
index bd84936..82b6671 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1566,12 +1566,23 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_GoGLL, 0, m) {
+		p.endErrors()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
 	return p.bsrSet, nil
 }
 
+// endErrors adds an error for each derivation of the start symbol from the
+// beginning of the input, after which the input does not end.
+func (p *parser) endErrors() {
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_GoGLL && b.LeftExtent() == 0 {
+			p.parseError(b.Label, b.RightExtent(), map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) ntAdd(nt symbols.NT, j int) {
 	// fmt.Printf("p.ntAdd(%s, %d)\n", nt, j)
 	failed := true
-- 
2.43.0


From ee086c5fa4aece1a0be65b59a83675674518d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:58 +0000
Subject: [PATCH 09/43] fix: dump of the parse forest shows the text of each
 string's extent

---
 gen/golang/gll/bsr/bsr.go | 6 +++++-
 parser/bsr/bsr.go         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 5a7d09f..de25d89 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -500,8 +500,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 5275569..7d16d91 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -462,8 +462,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
-- 
2.43.0


From f15151d267a2d89d076ad0eacb43eacf0104a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 10/43] fix: LR(1) parse errors show the token type

---
 gen/golang/lr1/parser/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 2d42c6d..376752a 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -62,7 +62,7 @@ func (E *Error) String() string {
 	} else {
 		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type, E.ErrorToken.Literal())
+	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.Literal())
 	ln, col := E.ErrorToken.GetLineColumn()
 	fmt.Fprintf(w, "Pos: offset=%d, line=%d, column=%d\n", E.ErrorToken.Lext(), ln, col)
 	fmt.Fprintf(w, "Expected one of: ")
-- 
2.43.0


From 140804363e082c2cec5d5b2ece5321fb90d552ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:39 +0000
Subject: [PATCH 11/43] fix: failures to render or write LR(1) and SPPF files
 are reported

---
 gen/golang/gll/sppf/sppf.go               |  4 +++-
 gen/golang/lr1/parser/actionrow.go        |  4 +++-
 gen/golang/lr1/parser/actiontable.go      |  4 +++-
 gen/golang/lr1/parser/errors.go           |  4 +++-
 gen/golang/lr1/parser/gotorow.go          |  4 +++-
 gen/golang/lr1/parser/parser.go           |  4 +++-
 gen/golang/lr1/parser/productionstable.go |  4 +++-
 gen/rust/lr1/parser/errors.go             |  4 +++-
 gen/rust/lr1/parser/parser.go             |  4 +++-
 gen/rust/lr1/parser/productionstable.go   |  4 +++-
 lr1/gen.go                                | 12 +++++++++---
 sppf/sppf.go                              |  4 +++-
 12 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/gen/golang/gll/sppf/sppf.go b/gen/golang/gll/sppf/sppf.go
index d443952..66f3625 100644
--- a/gen/golang/gll/sppf/sppf.go
+++ b/gen/golang/gll/sppf/sppf.go
@@ -171,7 +171,9 @@ func (root *SymbolNode) DotFile(file string) {
 	fmt.Fprintln(bld.w, "digraph SPPF {")
 	root.dot(bld)
 	fmt.Fprintln(bld.w, "}")
-	ioutil.WriteFile(file, bld.w.Bytes())
+	if err := ioutil.WriteFile(file, bld.w.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 func (n *IntermediateNode) dot(bld *dotBuilder) {
diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..04516dd 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -31,7 +31,9 @@ func genActionRow(prods []*basicprod.Production, state *states.State, actions ma
 	if err != nil {
 		panic(err)
 	}
-	tmpl.Execute(wr, getActionRowData(prods, state, actions))
+	if err := tmpl.Execute(wr, getActionRowData(prods, state, actions)); err != nil {
+		panic(err)
+	}
 	return wr.String()
 }
 
diff --git a/gen/golang/lr1/parser/actiontable.go b/gen/golang/lr1/parser/actiontable.go
index 806a7be..67c1bea 100644
--- a/gen/golang/lr1/parser/actiontable.go
+++ b/gen/golang/lr1/parser/actiontable.go
@@ -31,7 +31,9 @@ func genActionTable(pkg, outDir string, prods []*basicprod.Production, states *s
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, getActionTableData(pkg, prods, states, actions))
+	if err := tmpl.Execute(wr, getActionTableData(pkg, prods, states, actions)); err != nil {
+		panic(err)
+	}
 	if err := ioutil.WriteFile(path.Join(outDir, "parser", "actiontable.go"), wr.Bytes()); err != nil {
 		panic(err)
 	}
diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 376752a..1f57486 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -29,7 +29,9 @@ func genErrors(pkg string) {
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, path.Join(pkg, "token"))
+	if err := tmpl.Execute(wr, path.Join(pkg, "token")); err != nil {
+		panic(err)
+	}
 	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "errors", "errors.go"), wr.Bytes()); err != nil {
 		panic(err)
 	}
diff --git a/gen/golang/lr1/parser/gotorow.go b/gen/golang/lr1/parser/gotorow.go
index 3c8b58b..2f35881 100644
--- a/gen/golang/lr1/parser/gotorow.go
+++ b/gen/golang/lr1/parser/gotorow.go
@@ -28,7 +28,9 @@ func genGotoRow(state *states.State) string {
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, getGotoRowData(state))
+	if err := tmpl.Execute(wr, getGotoRowData(state)); err != nil {
+		panic(err)
+	}
 	return wr.String()
 }
 
diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..55c7b3c 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..5766b64 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -35,7 +35,9 @@ func genProductionsTable(pkg string, prods []*basicprod.Production, states *stat
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, getProdsTab(pkg, prods, states))
+	if err := tmpl.Execute(wr, getProdsTab(pkg, prods, states)); err != nil {
+		panic(err)
+	}
 	if err = ioutil.WriteFile(fname, wr.Bytes()); err != nil {
 		panic(err)
 	}
diff --git a/gen/rust/lr1/parser/errors.go b/gen/rust/lr1/parser/errors.go
index 1f44990..00d62c1 100644
--- a/gen/rust/lr1/parser/errors.go
+++ b/gen/rust/lr1/parser/errors.go
@@ -29,7 +29,9 @@ func genErrors(pkg string) {
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, path.Join(pkg, "token"))
+	if err := tmpl.Execute(wr, path.Join(pkg, "token")); err != nil {
+		panic(err)
+	}
 	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "errors", "mod.rs"), wr.Bytes()); err != nil {
 		panic(err)
 	}
diff --git a/gen/rust/lr1/parser/parser.go b/gen/rust/lr1/parser/parser.go
index 2f8bf2a..cbd0b6b 100644
--- a/gen/rust/lr1/parser/parser.go
+++ b/gen/rust/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "src", "parser", "mod.rs"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
diff --git a/gen/rust/lr1/parser/productionstable.go b/gen/rust/lr1/parser/productionstable.go
index 869dbb0..00216cf 100644
--- a/gen/rust/lr1/parser/productionstable.go
+++ b/gen/rust/lr1/parser/productionstable.go
@@ -52,7 +52,9 @@ func genProductionsTable(pkg string, prods []*basicprod.Production, states *stat
 		panic(err)
 	}
 	wr := new(bytes.Buffer)
-	tmpl.Execute(wr, getProdsTab(pkg, prods, states))
+	if err := tmpl.Execute(wr, getProdsTab(pkg, prods, states)); err != nil {
+		panic(err)
+	}
 	if err = ioutil.WriteFile(fname, wr.Bytes()); err != nil {
 		panic(err)
 	}
diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..9815b80 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -43,8 +43,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 	handleConflicts(conflicts, states)
 
 	if cfg.Verbose {
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String()))
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions))
+		if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String())); err != nil {
+			panic(err)
+		}
+		if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions)); err != nil {
+			panic(err)
+		}
 	}
 
 	return prods, states, actions
@@ -82,7 +86,9 @@ func writeConflicts(conflicts [][]*action.Conflict) {
 			conflictNo++
 		}
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 // func reduceLabel(state *states.State, actions map[string]action.Action, prods []*basicprod.Production) string {
diff --git a/sppf/sppf.go b/sppf/sppf.go
index a303495..7c2ffdd 100644
--- a/sppf/sppf.go
+++ b/sppf/sppf.go
@@ -111,7 +111,9 @@ func (root *SymbolNode) DotFile(file string) {
 	fmt.Fprintln(bld.w, "digraph SPPF {")
 	root.dot(bld)
 	fmt.Fprintln(bld.w, "}")
-	ioutil.WriteFile(file, bld.w.Bytes())
+	if err := ioutil.WriteFile(file, bld.w.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 func (n *IntermediateNode) dot(bld *dotBuilder) {
-- 
2.43.0


From 1b339c6f058ca081b55cf110c4540a26b8074846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 12/43] fix: conflicts are called automatically resolved only
 when they are

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index 9815b80..6c47c99 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -56,12 +56,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From 3e75a23023ee6cfcf1919627aa63cd0d31f2f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:10 +0000
Subject: [PATCH 13/43] fix: a conflict with the accept action is reported
 instead of crashing

---
 lr1/action/action.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..ec9afba 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -111,8 +111,11 @@ func (this Shift) Equal(act Action) bool {
 }
 
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error:
 		return this
+	case Reduce:
+		return this // accept is the reduction of the first production
 	}
 	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
 }
@@ -138,7 +141,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that // accept is the reduction of the first production
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From a4898a656b0d2c58f3ebaa48155407e609b3d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:45 +0000
Subject: [PATCH 14/43] fix: LR(1) productions table of a grammar with an empty
 alternate compiles

---
 gen/golang/lr1/parser/productionstable.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 5766b64..fb5a1ce 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -57,7 +57,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
 		} else {
 			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			data.ProdTab[i].ReduceFunc = fmt.Sprintf("ast.%s%d(%s)",
 				prod.Head,
 				prod.Alternate,
 				getParamIDs(len(prod.Body.Symbols)))
@@ -116,7 +116,7 @@ var productionsTable = ProdTab {
 		Index: {{$i}},
 		NumSymbols: {{$entry.NumSymbols}},
 		ReduceFunc: func(X []interface{}) (interface{}, error) {
-            return ast.{{$entry.ReduceFunc}}
+            return {{$entry.ReduceFunc}}
 		},
 	},
 	{{end}}
-- 
2.43.0


From ce27a20b0c2dc6e077458987823c31fa55364cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:12 +0000
Subject: [PATCH 15/43] fix: LR(1) tables compile whatever characters the
 literals contain

---
 gen/golang/lr1/parser/actionrow.go        | 6 +++---
 gen/golang/lr1/parser/productionstable.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index 04516dd..5b58e75 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -57,11 +57,11 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 			var actStr string
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", sym)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), sym, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), sym)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index fb5a1ce..415f807 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -49,7 +49,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("%q", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		if len(prod.Body.Symbols) == 0 {
-- 
2.43.0


From ed56b65227e1f934aa6749ef5111c560f34b624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 16/43] fix: Rust LR(1) tables of grammars with empty
 alternates or special characters compile

---
 gen/rust/lr1/parser/actiontable.go      | 6 +++---
 gen/rust/lr1/parser/productionstable.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gen/rust/lr1/parser/actiontable.go b/gen/rust/lr1/parser/actiontable.go
index 1c1ab29..339b444 100644
--- a/gen/rust/lr1/parser/actiontable.go
+++ b/gen/rust/lr1/parser/actiontable.go
@@ -87,11 +87,11 @@ func getActionRow(prods []*basicprod.Production, state *states.State, actions ma
 			var actStr string
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("Accept,\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("Accept,\t\t// %s\n\t\t", sym)
 			case action.Reduce:
-				actStr = fmt.Sprintf("Reduce(%d),\t\t/* %s, Reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("Reduce(%d),\t\t// %s, Reduce: %s\n\t\t", int(act), sym, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("Shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("Shift(%d),\t\t// %s\n\t\t", int(act), sym)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/rust/lr1/parser/productionstable.go b/gen/rust/lr1/parser/productionstable.go
index 00216cf..c7d5844 100644
--- a/gen/rust/lr1/parser/productionstable.go
+++ b/gen/rust/lr1/parser/productionstable.go
@@ -66,17 +66,17 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("\"%s\"", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("%q", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
+		data.ProdTab[i].ReduceFuncID = fmt.Sprintf("%s_%d",
+			strcase.ToSnake(prod.Head),
+			prod.Alternate)
 		if len(prod.Body.Symbols) == 0 {
 			data.ProdTab[i].NumSymbols = 0
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("Ok(None)")
 		} else {
 			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFuncID = fmt.Sprintf("%s_%d",
-				strcase.ToSnake(prod.Head),
-				prod.Alternate)
 			data.ProdTab[i].ReduceFuncParams = getParamIDs(len(prod.Body.Symbols))
 			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s_%d(%s)",
 				strcase.ToSnake(prod.Head),
-- 
2.43.0


From 762cf26271f028274101fffbe0ab8cf8c826bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:35 +0000
Subject: [PATCH 17/43] fix: generated Rust symbols and token names are escaped

---
 gen/rust/gll/symbols/symbols.go | 17 ++++++-----------
 gen/rust/token/token.go         |  3 ++-
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/gen/rust/gll/symbols/symbols.go b/gen/rust/gll/symbols/symbols.go
index d2fe752..012c4be 100644
--- a/gen/rust/gll/symbols/symbols.go
+++ b/gen/rust/gll/symbols/symbols.go
@@ -17,9 +17,11 @@ package symbols
 
 import (
 	"bytes"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/goutil/ioutil"
 )
 
@@ -51,18 +53,11 @@ func getData(g *ast.GoGLL) *Data {
 	}
 }
 
-// escape terminal for Rust string formatting
+// escape terminals for Rust format strings
 func escape(ts []string) []string {
-	esc := make([]string, len(ts))
-	for i, t := range ts {
-		switch t {
-		case "{":
-			esc[i] = "{{"
-		case "}":
-			esc[i] = "}}"
-		default:
-			esc[i] = t
-		}
+	esc := utils.EscapeAll(ts...)
+	for i, t := range esc {
+		esc[i] = strings.NewReplacer("{", "{{", "}", "}}").Replace(t)
 	}
 	return esc
 }
diff --git a/gen/rust/token/token.go b/gen/rust/token/token.go
index 80020a5..e978ce6 100644
--- a/gen/rust/token/token.go
+++ b/gen/rust/token/token.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -61,7 +62,7 @@ func getTypes() (types []*TypeDef) {
 			&TypeDef{
 				Name: t.TypeString(),
 
-				Comment:  t.Literal(),
+				Comment:  utils.Escape(t.Literal()),
 				Suppress: t.Suppress(),
 			})
 	}
-- 
2.43.0


From 618370b53635f41ffa282cb911cf2cdb9e16a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 18/43] fix: overlapping characters of token rules lead to the
 union of what each allows

---
 ast/lex.go               |   8 +
 lex/items/event/event.go | 368 +++++++++++++++++++--------------------
 2 files changed, 185 insertions(+), 191 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 55793c0..3704d20 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -317,7 +317,15 @@ func (*Any) String() string {
 	return "."
 }
 
+// NewAnyOf returns an AnyOf that has no position in the source
+func NewAnyOf(set *runeset.RuneSet) *AnyOf {
+	return &AnyOf{Set: set}
+}
+
 func (a *AnyOf) String() string {
+	if a.strLit == nil {
+		return fmt.Sprintf("any %s", a.Set)
+	}
 	return fmt.Sprintf("any %s", string(a.strLit.Literal()))
 }
 
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..86453a2 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -51,9 +51,10 @@ type eventPair struct {
 }
 
 // GetOrdered returns the set of unique transition events for items, ordered
-// by the event precedence.
+// by the event precedence: The first event that matches a character is the
+// event for that character.
 func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
-	events = getEvents(items...)
+	events = split(getEvents(items...))
 	incompatibleEvents := []eventPair{}
 	for i := 0; i < len(events)-1; i++ {
 		for j := i + 1; j < len(events); j++ {
@@ -67,12 +68,14 @@ func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
 	if len(incompatibleEvents) > 0 {
 		fail(items, incompatibleEvents)
 	}
-	sortEvents(events)
-	return
+	return sortEvents(events)
 }
 
 // Subset returns True if a is a subset of b, False if a is not a subset of b,
-// and Undefined if the subset relationship is not defined between a and b
+// and Undefined if the subset relationship is not defined between a and b.
+//
+// a must be an event returned by GetOrdered: the characters that are excluded
+// by a Not are matched by preceding events.
 func Subset(a, b ast.LexBase) TriState {
 	switch a1 := a.(type) {
 	case *ast.Any:
@@ -80,94 +83,36 @@ func Subset(a, b ast.LexBase) TriState {
 		return toTriState(ok)
 
 	case *ast.AnyOf:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(a1.Set.Subset(b1.Set))
-		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
-		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRunes(a1.Set.Elements()...))
-		default:
-			panic("Invalid")
+		for _, r := range a1.Set.Elements() {
+			if !matches(b, r) {
+				return False
+			}
 		}
+		return True
 
 	case *ast.CharLiteral:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(b1.Set.Contains(a1.Char()))
-		case *ast.CharLiteral:
-			return toTriState(a1.Char() == b1.Char())
-		case *ast.Not:
-			return toTriState(!b1.Set.Contains(a1.Char()))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Char()))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRune(a1.Char()))
-		default:
-			panic("Invalid")
-		}
+		return toTriState(matches(b, a1.Char()))
 
 	case *ast.Not:
-		switch b1 := b.(type) {
-		case *ast.Any:
+		switch b.(type) {
+		case *ast.Any, *ast.Not:
 			return True
-		case *ast.AnyOf:
-			return Undefined
 		case *ast.CharLiteral:
 			return False
-		case *ast.Not:
-			return toTriState(b1.Set.Subset(a1.Set))
-		case *ast.UnicodeClass:
-			return Undefined
-		case *ast.UnicodeSet:
-			return Undefined
 		default:
-			panic("Invalid")
-		}
-
-	case *ast.UnicodeClass:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
 			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(a1.Type == b1.Type ||
-				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsClass(a1))
-		default:
-			panic("Invalid")
 		}
 
-	case *ast.UnicodeSet:
-		switch b1 := b.(type) {
-		case *ast.Any:
+	case *ast.UnicodeClass, *ast.UnicodeSet:
+		switch b.(type) {
+		case *ast.Any, *ast.Not:
 			return True
 		case *ast.AnyOf:
 			return Undefined
 		case *ast.CharLiteral:
 			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(b1.ContainsSet(a1))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsSet(a1))
 		default:
-			panic("Invalid")
+			return toTriState(classSubset(a, b))
 		}
 
 	default:
@@ -175,8 +120,42 @@ func Subset(a, b ast.LexBase) TriState {
 	}
 }
 
-func anyOf(r rune, rs *runeset.RuneSet) bool {
-	return rs.Contains(r)
+// matches returns true iff r is one of the characters of event
+func matches(event ast.LexBase, r rune) bool {
+	switch e := event.(type) {
+	case *ast.Any:
+		return true
+	case *ast.AnyOf:
+		return e.Set.Contains(r)
+	case *ast.CharLiteral:
+		return e.Char() == r
+	case *ast.Not:
+		return !e.Set.Contains(r)
+	case *ast.UnicodeClass:
+		return unicodeClassContains(e, r)
+	case *ast.UnicodeSet:
+		return e.ContainsRune(r)
+	default:
+		panic("Invalid")
+	}
+}
+
+// classSubsets contains the results of classSubset by the strings of the classes
+var classSubsets = map[[2]string]bool{}
+
+// classSubset returns true iff every character of the UnicodeClass or
+// UnicodeSet, a, is in b.
+func classSubset(a, b ast.LexBase) bool {
+	key := [2]string{a.String(), b.String()}
+	subset, exist := classSubsets[key]
+	if !exist {
+		subset = true
+		for r := rune(0); r <= unicode.MaxRune && subset; r++ {
+			subset = !matches(a, r) || matches(b, r)
+		}
+		classSubsets[key] = subset
+	}
+	return subset
 }
 
 func contains(events []ast.LexBase, event ast.LexBase) bool {
@@ -200,105 +179,119 @@ func getEvents(items ...*item.Item) (events []ast.LexBase) {
 	return
 }
 
-func noneOf(r rune, rs *runeset.RuneSet) bool {
-	return !rs.Contains(r)
+// split replaces the AnyOf events by disjoint AnyOf events. The characters of
+// each are matched by the same events. All the characters mentioned in a Not
+// event, which are matched by another event, are in one of them.
+func split(events []ast.LexBase) (disjoint []ast.LexBase) {
+	mentioned, literals := runeset.New(), runeset.New()
+	for _, event := range events {
+		switch e := event.(type) {
+		case *ast.AnyOf:
+			add(mentioned, e.Set)
+		case *ast.Not:
+			add(mentioned, e.Set)
+		case *ast.CharLiteral:
+			literals.Add(e.Char())
+		}
+	}
+	groups, keys := map[string]*runeset.RuneSet{}, []string{}
+	for _, r := range mentioned.Elements() {
+		key := matching(events, r)
+		if literals.Contains(r) || key == "" {
+			continue
+		}
+		if groups[key] == nil {
+			groups[key] = runeset.New()
+			keys = append(keys, key)
+		}
+		groups[key].Add(r)
+	}
+	for _, event := range events {
+		if _, ok := event.(*ast.AnyOf); !ok {
+			disjoint = append(disjoint, event)
+		}
+	}
+	for _, key := range keys {
+		disjoint = append(disjoint, getAnyOf(events, groups[key]))
+	}
+	return
+}
+
+func add(rs, rs1 *runeset.RuneSet) {
+	for _, r := range rs1.Elements() {
+		rs.Add(r)
+	}
+}
+
+// getAnyOf returns the AnyOf of events with set if there is one, or a new one
+func getAnyOf(events []ast.LexBase, set *runeset.RuneSet) *ast.AnyOf {
+	for _, event := range events {
+		if e, ok := event.(*ast.AnyOf); ok && e.Set.Equal(set) {
+			return e
+		}
+	}
+	return ast.NewAnyOf(set)
+}
+
+// matching lists the events that match r
+func matching(events []ast.LexBase, r rune) (key string) {
+	for i, event := range events {
+		if matches(event, r) {
+			key += fmt.Sprintf("%d,", i)
+		}
+	}
+	return
 }
 
 // sort events from most to least specific class
-func sortEvents(events []ast.LexBase) {
+func sortEvents(events []ast.LexBase) (sorted []ast.LexBase) {
 	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
-			}
-		default:
-			panic("Invalid")
+		if ri, rj := rank(events[i]), rank(events[j]); ri != rj {
+			return ri < rj
+		}
+		if ci, ok := events[i].(*ast.CharLiteral); ok {
+			return ci.Char() < events[j].(*ast.CharLiteral).Char()
 		}
+		return events[i].String() < events[j].String()
 	})
+	for len(events) > 0 {
+		i := mostSpecific(events)
+		sorted = append(sorted, events[i])
+		events = append(events[:i], events[i+1:]...)
+	}
+	return
+}
+
+func rank(event ast.LexBase) int {
+	switch event.(type) {
+	case *ast.CharLiteral:
+		return 0
+	case *ast.AnyOf:
+		return 1
+	case *ast.UnicodeClass:
+		return 2
+	case *ast.UnicodeSet:
+		return 3
+	case *ast.Not:
+		return 4
+	}
+	return 5
+}
+
+// mostSpecific returns the index of the first event without a proper subset in events
+func mostSpecific(events []ast.LexBase) int {
+	for i, event := range events {
+		specific := true
+		for _, e := range events {
+			if Subset(e, event) == True && Subset(event, e) != True {
+				specific = false
+			}
+		}
+		if specific {
+			return i
+		}
+	}
+	panic("Invalid")
 }
 
 func toTriState(b bool) TriState {
@@ -308,28 +301,21 @@ func toTriState(b bool) TriState {
 	return False
 }
 
-func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
-	for _, r := range rs {
-		ok := false
-		switch c.Type {
-		case ast.Letter:
-			ok = unicode.IsLetter(r)
-		case ast.Upcase:
-			ok = unicode.IsUpper(r)
-		case ast.Lowcase:
-			ok = unicode.IsLower(r)
-		case ast.Number:
-			ok = unicode.IsNumber(r)
-		case ast.Space:
-			ok = unicode.IsSpace(r)
-		default:
-			panic("Invalid")
-		}
-		if !ok {
-			return false
-		}
+func unicodeClassContains(c *ast.UnicodeClass, r rune) bool {
+	switch c.Type {
+	case ast.Letter:
+		return unicode.IsLetter(r)
+	case ast.Upcase:
+		return unicode.IsUpper(r)
+	case ast.Lowcase:
+		return unicode.IsLower(r)
+	case ast.Number:
+		return unicode.IsNumber(r)
+	case ast.Space:
+		return unicode.IsSpace(r)
+	default:
+		panic("Invalid")
 	}
-	return true
 }
 
 func fail(items []*item.Item, incomatibleEvents []eventPair) {
-- 
2.43.0


From 68c581d3a9f64481db24daf68cac35aab7084593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:55 +0000
Subject: [PATCH 19/43] fix: character sets are equal only if each contains the
 other's properties

---
 ast/lex.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index 3704d20..351f492 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -448,6 +448,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
-- 
2.43.0


From 8d9c50d38e7a873bb701ad1c0a7fcb8877966161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:31 +0000
Subject: [PATCH 20/43] fix: long names of unicode categories can be used with
 other events

---
 ast/lex.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 351f492..da4875c 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -517,14 +517,33 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 	return true
 }
 
+// longCategories contains the categories that unicode.Categories lists by
+// their short names only.
+var longCategories = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
-		if unicode.Categories[u.Range] == nil {
-			panic(u.Range)
+		if table := unicode.Categories[u.Range]; table != nil {
+			return table
+		}
+		if table := longCategories[u.Range]; table != nil {
+			return table
 		}
-		return unicode.Categories[u.Range]
+		panic(u.Range)
 	case UnicodeProperty:
 		if unicode.Properties[u.Range] == nil {
 			panic(u.Range)
-- 
2.43.0


From acbdc1191b35640dd9cf65b550bcd748f9f56116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:08 +0000
Subject: [PATCH 21/43] fix: repetition of an expression that can be empty no
 longer loops forever

---
 lex/item/item.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..b16f051 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -101,6 +101,8 @@ func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
 	after := []*Item{i}
+	// expanded has the items at brackets that were already replaced
+	expanded := []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +111,13 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			if item.isIn(expanded) {
+				// A repetition of something that can be empty
+				continue
+			}
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				expanded = append(expanded, item)
+			}
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -144,6 +153,16 @@ func (i *Item) Equal(other *Item) bool {
 		i.Pos.Equal(other.Pos)
 }
 
+// isIn is true if one of items is equal to i
+func (i *Item) isIn(items []*Item) bool {
+	for _, item := range items {
+		if item.Equal(i) {
+			return true
+		}
+	}
+	return false
+}
+
 // Next returns the next item after i. If i is a reduce item Next returns nil
 func (i *Item) Next() *Item {
 	if i.IsReduce() {
-- 
2.43.0


From 725a4bc7d5e72f22af9614ed3e89ecd7d62d0b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 22/43] fix: LR(1) closure is repeated until no look-ahead
 context is added

---
 lr1/states/state.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..25f9670 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -66,18 +66,22 @@ func (this *State) CanRecover() bool {
 
 func (this *State) Closure() *State {
 	cgList := append(this.Nucleus.List(), this.NonNucleus.List()...)
-	for i := 0; i < len(cgList); i++ {
-		cgi := cgList[i]
-		if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
-			startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
-			for _, si := range startItems {
-				newCfgGrp := NewConfigGroup(si,
-					this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
-				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
-					this.Add(newCfgGrp)
-					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+	for again := true; again; {
+		again = false
+		for i := 0; i < len(cgList); i++ {
+			cgi := cgList[i]
+			if symbols.IsNonTerminal(cgi.Item.ExpectedSymbol()) {
+				startItems := this.items.StartItems(cgi.Item.ExpectedSymbol())
+				for _, si := range startItems {
+					newCfgGrp := NewConfigGroup(si,
+						this.first.FirstString(cgi.Item.TailString(), cgi.ContextSet.Clone().List...)...)
+					if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
+						this.Add(newCfgGrp)
+						cgList = append(cgList, newCfgGrp)
+					} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+						// oldCfgGrp may have been expanded without the new context
+						again = true
+					}
 				}
 			}
 		}
-- 
2.43.0


From 3c199e49e17f5e1cda472e4019fdc3014b9e91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 23/43] fix: context merged into a state reaches all its
 successors

---
 lr1/pgm/states.go | 78 +++++++++++------------------------------------
 1 file changed, 18 insertions(+), 60 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..36d7b86 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,23 +13,23 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	// The numbers of the states of which the transitions must be generated
+	todo := []int{0}
+	for len(todo) > 0 {
+		si := todo[0]
+		todo = todo[1:]
 		st_trans := make([]states.Transition, 0, 4)
 		for _, trans := range s.List[si].Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						// the new context must reach the successors of the state
+						todo = append(todo, snum)
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					break
 				}
 			}
 			if !merged {
@@ -37,6 +37,7 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				todo = append(todo, trans.State.Number)
 			}
 		}
 		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
@@ -45,73 +46,30 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
-		}
-	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
-}
-
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+Merge the context of that into this. Return true iff this has new context.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func mergeStates(this *states.State, that *states.State) bool {
+	if !mergeCfgGrpSet(this.Nucleus, that.Nucleus) {
+		return false
 	}
 	this.NonNucleus = states.NewConfigGroupSet()
 	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
-		}
-	}
-	return
+	return true
 }
 
 func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
+func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) (changed bool) {
 	for _, cfGrp := range this.List() {
 		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
 			cfGrp.ContextSet.Add(diffContext.List...)
+			changed = true
 		}
 	}
+	return
 }
 
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-- 
2.43.0


From 92bf509d710628148d109be4e0092ec456221ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 24/43] fix: the items of the first lexer state are unique

---
 lex/items/items.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..5160c4f 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -216,21 +216,14 @@ func (sets *Sets) Sets() []*Set {
 func set0(g *ast.GoGLL) *Set {
 	s0 := &Set{}
 	for _, rule := range g.LexRules {
-		s0.add(item.New(rule).Emoves()...)
+		s0.Add(item.New(rule).Emoves()...)
 	}
 	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+		s0.Add(item.New(stringLitToRule(sl)))
 	}
 	return s0
 }
 
-func (set *Set) add(items ...*item.Item) *Set {
-	for _, item := range items {
-		set.set = append(set.set, item)
-	}
-	return set
-}
-
 func (set *Set) cloneItems() []*item.Item {
 	items := make([]*item.Item, len(set.set))
 	for i, item := range set.set {
-- 
2.43.0


From 53952936dd0b1647ba60bbf1ddb558f01366e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 25/43] fix: the Rust symbols of a grammar without terminals
 compile

---
 gen/rust/gll/symbols/symbols.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rust/gll/symbols/symbols.go b/gen/rust/gll/symbols/symbols.go
index 012c4be..6c54f43 100644
--- a/gen/rust/gll/symbols/symbols.go
+++ b/gen/rust/gll/symbols/symbols.go
@@ -117,7 +117,7 @@ impl fmt::Display for NT {
 
 impl fmt::Display for T {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        match self { {{range $i, $t := .EscapedTerminals}} 
+        match *self { {{range $i, $t := .EscapedTerminals}} 
             T::T{{$i}} => write!(f, "{{$t}}"),{{end}}
         }
     }
-- 
2.43.0


From 91428b88d3411f975accbdfd018cff0387699e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 26/43] fix: a Rust parse that stops before the end of the
 input reports an error

---
 gen/rust/gll/parser/parser.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gen/rust/gll/parser/parser.go b/gen/rust/gll/parser/parser.go
index 57160c5..2a256e1 100644
--- a/gen/rust/gll/parser/parser.go
+++ b/gen/rust/gll/parser/parser.go
@@ -176,7 +176,8 @@ struct ParseError {
 // Expected indicates whether to use the First or Follow set for the exported error.
 enum Expected {
     First,
-    Follow(NT)
+    Follow(NT),
+    End
 }
 
 #[derive(Hash, Eq, PartialEq, Debug, Clone, Copy)]
@@ -206,6 +207,7 @@ pub fn parse(l: Rc<lexer::Lexer>) -> (Box<bsr::Set>, Vec<Box<Error>>) {
     let mut p = Parser::new(l.clone());
     p.parse();
     if !p.bsr_set.contain(&NT::{{.StartSymbol}}, 0, l.tokens.len()-1) {
+        p.end_errors();
         let errors = p.export_errors();
         (p.bsr_set, errors)
     } else {
@@ -398,6 +400,23 @@ impl Parser {
         );
     }
 
+    // end_errors adds an error for each derivation of the start symbol from the
+    // beginning of the input, after which the input does not end.
+    fn end_errors(&mut self) {
+        for b in self.bsr_set.get_all() {
+            if b.label.head() == &NT::{{.StartSymbol}} && b.lext == 0 {
+                self.errors.push(
+                    Box::new(ParseError{
+                        c_i: b.rext, 
+                        slot: b.label, 
+                        token: self.lex.tokens[b.rext].clone(), 
+                        expected: Expected::End,
+                    })
+                );
+            }
+        }
+    }
+
     fn export_errors(&mut self) -> Vec<Box<Error>> {
         let mut errs: Vec<Box<Error>> = Vec::new();
         self.errors.sort_by(|a,b| a.token.lext.cmp(&b.token.lext));
@@ -410,6 +429,7 @@ impl Parser {
                 expected: match err.expected {
                     Expected::First => FIRST[&err.slot].clone(),
                     Expected::Follow(nt) => FOLLOW[&nt].clone(),
+                    Expected::End => Box::new(vec![token::Type::EOF].into_iter().collect()),
                 },
                 line: ln,
                 column: col,
-- 
2.43.0


From 82797db5e52eb11bd2a754bc2b44ce08c95e9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 27/43] fix: the Rust parse forest is ambiguous when symbols
 split in two ways

---
 gen/rust/gll/bsr/bsr.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/gen/rust/gll/bsr/bsr.go b/gen/rust/gll/bsr/bsr.go
index 2411b49..ad4c9d8 100644
--- a/gen/rust/gll/bsr/bsr.go
+++ b/gen/rust/gll/bsr/bsr.go
@@ -156,7 +156,9 @@ impl Set {
         }
         match bsr {
             Kind::NT(b) => {
-                self.slot_entries.insert(b.clone(), true);
+                if self.slot_entries.insert(b.clone(), true).is_some() {
+                    return
+                }
                 let nt_slot = NTSlot::new(b.label.head(), b.lext, b.rext);
                 match self.nt_slot_entries.get_mut(&nt_slot) {
                     None => {
@@ -326,7 +328,7 @@ impl Set {
 
     /// Returns true if the BSR set does not have exactly one root, or
     /// if any BSR in the set has an NT symbol, which does not have exactly one
-    /// sub-tree.
+    /// sub-tree, or has more than one way to split its symbols.
     #[allow(dead_code)]
     pub fn is_ambiguous(&self) -> bool {
         if self.get_roots().len() != 1 {
@@ -337,8 +339,11 @@ impl Set {
 
     /// Returns true if b or any of its NT children is ambiguous.
     /// A BSR is ambigous if any of its NT symbols does not have exactly one
-    /// subtrees (children).
+    /// subtrees (children), or if its symbols can be split in more than one way.
     fn is_ambiguous_bsr(&self, b: Rc<BSR>) -> bool {
+        if self.has_ambiguous_string(b.clone()) {
+            return true
+        }
         for (i, s) in b.label.symbols().iter().enumerate() {
             if s.is_nt() {
                 if self.get_nt_children_i(b.clone(), i).len() != 1 {
@@ -354,6 +359,23 @@ impl Set {
         return false
     }
 
+    /// Returns true if a prefix of the symbols of b has more than one pivot.
+    fn has_ambiguous_string(&self, b: Rc<BSR>) -> bool {
+        let mut idx = b.label.index();
+        let mut rext = b.pivot;
+        while idx.pos > 2 {
+            idx.pos -= 1;
+            let l = slot::get_label(&idx.nt, idx.alt, idx.pos);
+            let strs: Vec<&Rc<BSR>> = self.string_entries.keys().filter(|s| 
+                s.label == l && s.lext == b.lext && s.rext == rext).collect();
+            if strs.len() != 1 {
+                return true
+            }
+            rext = strs[0].pivot;
+        }
+        return false
+    }
+
 } // impl Set
 
 impl Kind {
-- 
2.43.0


From 208d1687b6d493f6ee208c7b0c47e501e09a471d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:37 +0000
Subject: [PATCH 28/43] fix: generated lexers return the longest match

---
 gen/golang/lexer/lexer.go | 8 ++++++++
 lexer/lexer.go            | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..aee57a1 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -359,7 +359,12 @@ func (l *Lexer) scan(i int) *token.Token {
 		// fmt.Printf("  rext %d, i %d\n", rext, i)
 		s = nextState[0](l.I[i])
 	}
+	// the longest match
+	matchTyp, matchRext := token.Error, rext
 	for s != nullState {
+		if accept[s] != token.Error {
+			matchTyp, matchRext = accept[s], rext
+		}
 		if rext >= len(l.I) {
 			typ = accept[s]
 			s = nullState
@@ -371,6 +376,9 @@ func (l *Lexer) scan(i int) *token.Token {
 			}
 		}
 	}
+	if typ == token.Error && matchTyp != token.Error {
+		typ, rext = matchTyp, matchRext
+	}
 	tok := token.New(typ, i, rext, l.I)
 	// fmt.Printf("  %s\n", tok)
 	return tok
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..14dcf09 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -194,7 +194,12 @@ func (l *Lexer) scan(i int) *token.Token {
 		// fmt.Printf("  rext %d, i %d\n", rext, i)
 		s = nextState[0](l.I[i])
 	}
+	// the longest match
+	matchTyp, matchRext := token.Error, rext
 	for s != nullState {
+		if accept[s] != token.Error {
+			matchTyp, matchRext = accept[s], rext
+		}
 		if rext >= len(l.I) {
 			typ = accept[s]
 			s = nullState
@@ -206,6 +211,9 @@ func (l *Lexer) scan(i int) *token.Token {
 			}
 		}
 	}
+	if typ == token.Error && matchTyp != token.Error {
+		typ, rext = matchTyp, matchRext
+	}
 	tok := token.New(typ, i, rext, l.I)
 	// fmt.Printf("  %s\n", tok)
 	return tok
-- 
2.43.0


From 50a4a428a4fc9ed3484566705f0141a59d4ed35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 29/43] fix: Rust lexers return the longest match and do not
 match empty text

---
 gen/rust/lexer/lexer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 7c71543..b36ee80 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -233,11 +233,18 @@ impl Lexer {
 	}
 	
 	fn scan(&mut self, i: usize) -> Rc<token::Token> {
-		let mut s: State = 0;
+		let mut s = NEXT_STATE[0](self.i[i]);
 		let mut typ = token::Type::Error;
-		let mut rext = i;
+		let mut rext = i+1;
 
+		// the longest match
+		let mut match_typ = token::Type::Error;
+		let mut match_rext = rext;
 		while s != NULL_STATE {
+			if ACCEPT[s] != token::Type::Error {
+				match_typ = ACCEPT[s];
+				match_rext = rext
+			}
 			if rext >= self.i.len() {
 				typ = ACCEPT[s];
 				s = NULL_STATE
@@ -249,6 +256,10 @@ impl Lexer {
 				}
 			}
 		}
+		if typ == token::Type::Error && match_typ != token::Type::Error {
+			typ = match_typ;
+			rext = match_rext
+		}
 		return token::new(typ, i, rext, &self.i)
 	}
 
-- 
2.43.0


From d8a6fe3337358a7119dd683b653eb93eb3047c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 30/43] fix: a quote character is escaped in the Rust lexer

---
 gen/rust/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index b36ee80..0781cfe 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -107,7 +107,11 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(c, %s)", toSlice(e.Set))
 	case *ast.CharLiteral:
-		return fmt.Sprintf("c == %s", string(e.Literal))
+		cstr := string(e.Literal)
+		if cstr == "'''" {
+			return "c == '\\''"
+		}
+		return fmt.Sprintf("c == %s", cstr)
 	case *ast.Not:
 		return fmt.Sprintf("not(c, %s)", toSlice(e.Set))
 	case *ast.UnicodeClass:
-- 
2.43.0


From e1c2a09a47b35a32dbc74f92fe810e4c2e04b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 31/43] fix: Rust lexers read markdown files of one or two
 characters

---
 gen/rust/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 0781cfe..5abe46a 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -322,7 +322,7 @@ fn load_md(input: &mut Vec<char>) -> io::Result<()> {
     let mut i = 0;
     let mut text = true;
     while i < input.len() {
-        if i <= input.len() - 3 && 
+        if i + 3 <= input.len() && 
         || -> bool { input[i] == '{{.Tick}}' && input[i+1] == '{{.Tick}}' && input[i+2] == '{{.Tick}}' }()
         {
             text = !text;
-- 
2.43.0


From 186f6fc14bd64028f608fbd9032b6b42c51010a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 32/43] fix: write the first and follow sets and the symbols in
 sorted order

---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
-- 
2.43.0


From 335563872892f856dffaa7ab2a9aeff89573ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 33/43] fix: take the string literals in sorted order when
 building the lexer's first state

---
 lex/items/items.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 5160c4f..64e6190 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -218,8 +218,8 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.Add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
-		s0.Add(item.New(stringLitToRule(sl)))
+	for _, id := range g.GetStringLiterals() {
+		s0.Add(item.New(stringLitToRule(g.StringLiterals[id])))
 	}
 	return s0
 }
-- 
2.43.0


From 4cf3781de59cfd507ab41b9c4402e90a7a602ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 34/43] fix: PGM states are merged only if every pair of items
 is weakly compatible

---
 lr1/pgm/states.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 36d7b86..b691116 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -76,30 +76,19 @@ func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigG
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
-}
-
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
 	for i := 0; i < len(this.List())-1; i++ {
 		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
+			thisI, thisJ := this.List()[i], this.List()[j]
+			thatI, thatJ := that.GetGroup(thisI), that.GetGroup(thisJ)
+			if (contextsIntersect(thisI, thatJ) || contextsIntersect(thisJ, thatI)) &&
+				!contextsIntersect(thisI, thisJ) && !contextsIntersect(thatI, thatJ) {
 				return false
 			}
 		}
 	}
 	return true
 }
+
+func contextsIntersect(this *states.ConfigGroup, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
+}
-- 
2.43.0


From fca6d2d8e2eaeeda38fbe4bcdd15fcbdc01b0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 35/43] fix: lexer item listings show a % in the grammar as it
 is

---
 lex/item/item.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index b16f051..4a14899 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -225,7 +225,7 @@ func (i *Item) stringRegExp(regExp *ast.RegExp, pos *pos.Pos) string {
 		if i.Pos.Equal(pos) {
 			fmt.Fprintf(w, "•")
 		}
-		fmt.Fprintf(w, i.stringSymbol(symbol, pos))
+		fmt.Fprint(w, i.stringSymbol(symbol, pos))
 		pos.Inc()
 	}
 	if i.Pos.Equal(pos) {
@@ -238,14 +238,14 @@ func (i *Item) stringSymbol(symbol ast.LexSymbol, pos *pos.Pos) string {
 	// fmt.Printf("item.stringSymbol %s pos=%s\n", symbol, pos)
 	w := new(bytes.Buffer)
 	if brkt, ok := symbol.(*ast.LexBracket); ok {
-		fmt.Fprintf(w, brkt.LeftBracket())
+		fmt.Fprint(w, brkt.LeftBracket())
 		for j, alt := range brkt.Alternates {
 			if j > 0 {
 				fmt.Fprintf(w, "| ")
 			}
 			fmt.Fprint(w, i.stringRegExp(alt, pos.Clone().Push(j).Push(0)))
 		}
-		fmt.Fprintf(w, brkt.RightBracket())
+		fmt.Fprint(w, brkt.RightBracket())
 	} else {
 		fmt.Fprintf(w, "%s ", symbol)
 	}
-- 
2.43.0


From 894a10ad5bf98d63da6e030d560e2239d501b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 36/43] fix: positions of different rules never share a label

---
 gslot/gslot.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gslot/gslot.go b/gslot/gslot.go
index 68fb416..030e77a 100644
--- a/gslot/gslot.go
+++ b/gslot/gslot.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strings"
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/frstflw"
@@ -71,7 +72,12 @@ func (gs *GSlot) Slots() Slots {
 }
 
 func (s Label) Label() string {
-	return fmt.Sprintf("%s%dR%d", s.Head, s.Alternate, s.Pos)
+	head := s.Head
+	if strings.ContainsRune("0123456789_", rune(head[len(head)-1])) {
+		// alternate 0 of A1 is not alternate 10 of A
+		head += "_"
+	}
+	return fmt.Sprintf("%s%dR%d", head, s.Alternate, s.Pos)
 }
 
 func (s Label) IsEoR() bool {
-- 
2.43.0


From 9b4e752b55d51db34692384a379f8fd11e9b373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 37/43] fix: characters of partially overlapping Unicode
 classes follow all of them

---
 lex/items/event/event.go | 43 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index 86453a2..89340e6 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -158,6 +158,28 @@ func classSubset(a, b ast.LexBase) bool {
 	return subset
 }
 
+// overlaps contains the results of overlap by the strings of the classes
+var overlaps = map[[2]string][]rune{}
+
+// overlap returns the characters that are in both a and b, which are
+// UnicodeClasses or UnicodeSets, if neither is a subset of the other.
+func overlap(a, b ast.LexBase) []rune {
+	if classSubset(a, b) || classSubset(b, a) {
+		return nil
+	}
+	key := [2]string{a.String(), b.String()}
+	common, exist := overlaps[key]
+	if !exist {
+		for r := rune(0); r <= unicode.MaxRune; r++ {
+			if matches(a, r) && matches(b, r) {
+				common = append(common, r)
+			}
+		}
+		overlaps[key] = common
+	}
+	return common
+}
+
 func contains(events []ast.LexBase, event ast.LexBase) bool {
 	for _, ev := range events {
 		if ev.Equal(event) {
@@ -181,10 +203,11 @@ func getEvents(items ...*item.Item) (events []ast.LexBase) {
 
 // split replaces the AnyOf events by disjoint AnyOf events. The characters of
 // each are matched by the same events. All the characters mentioned in a Not
-// event, which are matched by another event, are in one of them.
+// event, which are matched by another event, and all the characters of two
+// classes or sets, which overlap in part, are in one of them.
 func split(events []ast.LexBase) (disjoint []ast.LexBase) {
 	mentioned, literals := runeset.New(), runeset.New()
-	for _, event := range events {
+	for i, event := range events {
 		switch e := event.(type) {
 		case *ast.AnyOf:
 			add(mentioned, e.Set)
@@ -192,6 +215,14 @@ func split(events []ast.LexBase) (disjoint []ast.LexBase) {
 			add(mentioned, e.Set)
 		case *ast.CharLiteral:
 			literals.Add(e.Char())
+		case *ast.UnicodeClass, *ast.UnicodeSet:
+			for _, event1 := range events[:i] {
+				if isClass(event1) {
+					for _, r := range overlap(event1, event) {
+						mentioned.Add(r)
+					}
+				}
+			}
 		}
 	}
 	groups, keys := map[string]*runeset.RuneSet{}, []string{}
@@ -217,6 +248,14 @@ func split(events []ast.LexBase) (disjoint []ast.LexBase) {
 	return
 }
 
+func isClass(event ast.LexBase) bool {
+	switch event.(type) {
+	case *ast.UnicodeClass, *ast.UnicodeSet:
+		return true
+	}
+	return false
+}
+
 func add(rs, rs1 *runeset.RuneSet) {
 	for _, r := range rs1.Elements() {
 		rs.Add(r)
-- 
2.43.0


From 92ac59332cfd61787fb7230da32bfe650e033081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 38/43] fix: a token named error is not taken for the error
 symbol of LR(1) recovery

---
 lr1/states/state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25f9670..a98c975 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -57,7 +57,8 @@ func (this *State) Add(cg ...*ConfigGroup) *State {
 
 func (this *State) CanRecover() bool {
 	for _, cfgrp := range this.NonNucleus.List() {
-		if cfgrp.Item.ExpectedSymbol() == "error" {
+		sym := cfgrp.Item.ExpectedSymbol()
+		if sym == symbols.Error.Literal() && !symbols.IsNonTerminal(sym) {
 			return true
 		}
 	}
-- 
2.43.0


From db413ec56067ee8f37cfccc293dd59d970c8515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 39/43] fix: a rule named Error gives no action on the error
 token

---
 lr1/action/action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index ec9afba..d55929e 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -23,6 +23,9 @@ func GetActions(states *states.States) (actions Actions, conflicts [][]*Conflict
 	for si, state := range states.List {
 		actions[si] = make(map[string]Action)
 		for _, sym := range symbols.GetTerminalSymbols() {
+			if symbols.IsNonTerminal(sym) {
+				continue // a rule with the name of the error token
+			}
 			act, cnf := stateAction(state, sym)
 			actions[si][sym] = act
 			if cnf != nil {
-- 
2.43.0


From baac132914181a4f19e57750d8458020de65aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 40/43] fix: a grammar may have a rule named G0

---
 lr1/basicprod/basicprod.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lr1/basicprod/basicprod.go b/lr1/basicprod/basicprod.go
index 2c65e85..2b2ccb1 100644
--- a/lr1/basicprod/basicprod.go
+++ b/lr1/basicprod/basicprod.go
@@ -16,7 +16,7 @@ type Production struct {
 func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	prods = append(prods,
 		&Production{
-			Head: "G0",
+			Head: augmentedStart(rules),
 			Body: &ast.SyntaxAlternate{
 				Symbols: []ast.SyntaxSymbol{rules[0].Head},
 			},
@@ -34,6 +34,19 @@ func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	return prods
 }
 
+// augmentedStart returns the name of the augmented start rule, which is
+// different from the names of all rules.
+func augmentedStart(rules []*ast.SyntaxRule) string {
+	head := "G0"
+	for i := 0; i < len(rules); i++ {
+		if rules[i].Head.ID() == head {
+			head += "0"
+			i = -1
+		}
+	}
+	return head
+}
+
 func (p *Production) String() string {
 	return fmt.Sprintf("%s : %s ;",
 		p.Head,
-- 
2.43.0


From 19a40142398f3f703d43d2c928b5aea22dae88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 41/43] fix: the first set of a rule named Error does not
 contain the error token

---
 lr1/first/first.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..b977e3a 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -48,6 +48,9 @@ func (this *First) AddNonTerminals(prods []*basicprod.Production) {
 
 func (this *First) AddTerminals() {
 	for _, s := range this.tList {
+		if symbols.IsNonTerminal(s) {
+			continue // a rule with the name of the error token
+		}
 		if _, exist := this.symbol[s]; exist {
 			panic(fmt.Sprintf("Duplicate terminal: %s", s))
 		}
-- 
2.43.0


From e6bbc6292ce0ba1a469ab2dc2afb34881f4b1cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 42/43] fix: a code fence may directly follow another

---
 gen/golang/lexer/lexer.go | 3 +--
 gen/rust/lexer/lexer.go   | 3 +--
 lexer/lexer.go            | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index aee57a1..d756ad9 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -311,8 +311,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
-		}
-		if i < len(input) {
+		} else {
 			if text {
 				if input[i] == '\n' {
 					input[i] = '\n'
diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 5abe46a..b02eed4 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -330,8 +330,7 @@ fn load_md(input: &mut Vec<char>) -> io::Result<()> {
                 input[j] = ' ';
             }
             i += 3;
-        }
-        if i < input.len() {
+        } else {
             if text {
                 match input[i] {
                     '\n' => input[i] = '\n',
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 14dcf09..b257932 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,8 +146,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
-		}
-		if i < len(input) {
+		} else {
 			if text {
 				if input[i] == '\n' {
 					input[i] = '\n'
-- 
2.43.0


From a08585bb1f6b4e5ffb686c30411d7c93b68eec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:13 +0000
Subject: [PATCH 43/43] fix: an escape without closing quote is not a character
 literal

The lexer's table for the state after '\ sent every escape character to the
accepting state of char_lit, as the generator of old did where two events
overlap, so that '\n without closing quote was a char_lit and the generated
lexer did not compile.
---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index b257932..442ef0a 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -1288,10 +1288,10 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
 		case r == '\'':
 			return 44 
+		case any(r, []rune{'\\','n','r','t'}):
+			return 30 
 		}
 		return nullState
 	}, 
-- 
2.43.0

