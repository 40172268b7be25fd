From b41e981a0016df4c4bff134d53aa1dcd38b63464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 01/61] fix: evaluate parenthesized expressions

MakeExpr had no case for ast.ParenExpr, any '(' in an expression panicked.
---
 internal/prs/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 29d11d9..f53c35b 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -41,6 +41,8 @@ func MakeExpr(astExpr ast.Expr, src []byte, s Scope) (Expr, error) {
 		expr, err = MakeFloat(e, src)
 	case ast.String:
 		expr = MakeString(e, src)
+	case ast.ParenExpr:
+		expr, err = MakeExpr(e.X, src, s)
 	case ast.Time:
 		expr, err = MakeTime(e, src, s)
 	case ast.UnaryExpr:
-- 
2.43.0


From 43a0dfa78b5ea64c488f912937bc5b266fc306da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 02/61] fix: handle negation operator in expressions

The token has no precedence, so building '!x' panicked on type assertion.
---
 internal/ast/expr.go | 11 +++++++++--
 internal/prs/expr.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 9b6915b..0f4ac37 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -345,8 +345,15 @@ tokenLoop:
 }
 
 func buildUnaryExpr(ctx *context) (UnaryExpr, error) {
-	op := ctx.tok().(tok.Operator)
-	un := UnaryExpr{Op: op}
+	un := UnaryExpr{Op: ctx.tok()}
+
+	// Negation is not a binary operator, so it has no precedence on its own.
+	// It binds only to the directly following operand.
+	var op tok.Operator = tok.Exp{}
+	if o, ok := ctx.tok().(tok.Operator); ok {
+		op = o
+	}
+
 	ctx.idx++
 	x, err := buildExpr(ctx, op)
 	if err != nil {
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index f53c35b..7a8aa27 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -488,6 +488,7 @@ type UnaryOperator uint8
 const (
 	UnaryPlus = iota
 	UnaryMinus
+	UnaryNegation
 )
 
 type UnaryExpr struct {
@@ -501,14 +502,17 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("unary expression, operand: %v", err)
 	}
 
-	if x, ok := x.(val.Int); ok {
+	switch x := x.(type) {
+	case val.Bool:
+		if ue.op == UnaryNegation {
+			return !x, nil
+		}
+	case val.Int:
 		switch ue.op {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
 			return -x, nil
-		default:
-			panic("operator not yet supported")
 		}
 	}
 
@@ -522,6 +526,8 @@ func MakeUnaryExpr(e ast.UnaryExpr, src []byte, s Scope) (UnaryExpr, error) {
 		op = UnaryPlus
 	case "-":
 		op = UnaryMinus
+	case "!":
+		op = UnaryNegation
 	default:
 		return UnaryExpr{}, fmt.Errorf("make unary expression: invalid operator %s", text)
 	}
-- 
2.43.0


From f8e921cf1418be25407645b678952e071d3935e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 03/61] fix: report call of qualified identifier instead of
 panicking

---
 internal/ast/expr.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ast/expr.go b/internal/ast/expr.go
index 0f4ac37..3c7367f 100644
--- a/internal/ast/expr.go
+++ b/internal/ast/expr.go
@@ -305,7 +305,12 @@ tokenLoop:
 }
 
 func buildCallExpr(ctx *context) (Call, error) {
-	call := Call{Name: ctx.tok().(tok.Ident)}
+	call := Call{}
+	if name, ok := ctx.tok().(tok.Ident); ok {
+		call.Name = name
+	} else {
+		return call, unexpected(ctx.tok(), "function name")
+	}
 	lpi := ctx.idx // Left parenthesis token index
 	ctx.idx += 2
 
-- 
2.43.0


From 0601254b070704c8723ff0416e2c5c81a8d5a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 04/61] fix: reject malformed qualified identifiers

Empty symbol name (foo., a..b) panicked, more than one dot (a.B.c) silently ignored everything after the second dot.
---
 internal/tok/parse.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 6b2db15..d3236f8 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -3,7 +3,6 @@ package tok
 import (
 	"bytes"
 	"fmt"
-	"unicode"
 )
 
 // Returns last token from the Token list.
@@ -754,13 +753,14 @@ func parseHexInt(ctx *context) (Int, error) {
 	return t, nil
 }
 
-// isValidQualifiedIdentifier returns false if symbol name in
-// qualified identifier does not start with upper case letter.
+// isValidQualifiedIdentifier returns false if qi is not a package name and a symbol name
+// separated by a single dot, or if the symbol name does not start with a letter.
 func isValidQualifiedIdentifier(qi []byte) bool {
 	aux := bytes.Split(qi, []byte("."))
-	sym := aux[1]
-	r := []rune(string(sym))[0]
-	return unicode.IsUpper(r) || unicode.IsLower(r)
+	if len(aux) != 2 || len(aux[0]) == 0 || len(aux[1]) == 0 {
+		return false
+	}
+	return isLetter(aux[1][0])
 }
 
 // TODO: Refactor, too complex, split into 2 (or more) functions.
-- 
2.43.0


From 206a4271d5ce6a0b8586d353295a1dae1a99d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 05/61] fix: split words with hyphens properly

A word with more than one hyphen was split only at the last one (a-b-c), operands being literals (N-1) became identifiers,
and the resulting tokens lacked source, so reporting any error on them panicked.
Properties placed right after an inner functionality body were treated as identifiers.
---
 internal/tok/parse.go | 162 +++++++++++-------------------------------
 1 file changed, 42 insertions(+), 120 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index d3236f8..1af0c6f 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -769,47 +769,30 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 	defer func() { ctx.idx = t.End() + 1 }()
 	word, hasHyphen, hasDot := getWord(ctx.src, ctx.idx)
 
-	qualIdentErrMsg := "symbol name in qualified identifier must start with letter"
-	if hasHyphen && hasDot {
-		// This is for sure part of an expression
-		chunks := bytes.Split(word, []byte{'-'})
-		for i, chunk := range chunks {
-			if bytes.Contains(chunk, []byte{'.'}) {
-				t = QualIdent{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-				if !isValidQualifiedIdentifier(chunk) {
-					return t, Error{qualIdentErrMsg, []Token{t}}
-				}
-			} else {
-				t = Ident{
-					position{
-						start:  ctx.idx,
-						end:    ctx.idx + len(chunk) - 1,
-						line:   ctx.line,
-						column: ctx.col(ctx.idx),
-						src:    ctx.src,
-						path:   ctx.path,
-					},
-				}
-			}
-			if i == len(chunks)-1 {
-				return t, nil
-			}
-			*toks = append(*toks, t)
-			ctx.idx += len(chunks[i])
-			t = Sub{ctx.pos()}
-			*toks = append(*toks, t)
-			ctx.idx++
+	// Properties are properties only if they are in valid place,
+	// otherwise, these are regular identifiers or parts of an expression.
+	propPlace := true
+	if prevTok, ok := lastToken(*toks); ok {
+		switch prevTok.(type) {
+		case Newline, Semicolon, Indent, Dedent:
+			// Do nothing, this is place for property
+		default:
+			propPlace = false
 		}
-	} else if hasDot {
+	}
+
+	if hasHyphen {
+		t = parseProperty(word, ctx)
+		if _, ok := t.(None); !ok && propPlace {
+			return t, nil
+		}
+		// It is part of an expression.
+		// Handle only the first operand, the hyphen is the subtraction operator.
+		word = word[:bytes.IndexByte(word, '-')]
+		hasDot = bytes.IndexByte(word, '.') >= 0
+	}
+
+	if hasDot {
 		// It is qualified identifier
 		t = QualIdent{position{
 			start:  ctx.idx,
@@ -821,97 +804,36 @@ func parseWord(ctx *context, toks *[]Token) (Token, error) {
 		}}
 
 		if !isValidQualifiedIdentifier(word) {
-			return t, Error{qualIdentErrMsg, []Token{t}}
+			return t, Error{
+				"symbol name in qualified identifier must start with letter",
+				[]Token{t},
+			}
 		}
 
 		return t, nil
 	}
 
-	splitHyphenatedWord := func() (Ident, Sub, Ident) {
-		i1 := Ident{ctx.pos()}
-		s := Sub{position{line: ctx.line}}
-		i2 := Ident{position{end: ctx.idx + len(word) - 1, line: ctx.line}}
-
-		for i := range word {
-			if word[i] == '-' {
-				i1.end = ctx.idx + i - 1
-
-				s.start = ctx.idx + i
-				s.end = ctx.idx + i
-				s.column = ctx.col(ctx.idx + i)
-
-				i2.start = ctx.idx + i + 1
-				i2.column = ctx.col(ctx.idx + i + 1)
-			}
+	// Firstly assume word is a keyword
+	t = parseKeyword(word, ctx)
+	// If it is not a keyword, then it might be a property or identifier.
+	if _, ok := t.(None); ok {
+		t = parseProperty(word, ctx)
+		// If it is not property, then it must be an identifier.
+		if _, ok := t.(None); ok || !propPlace {
+			t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 		}
-		return i1, s, i2
 	}
 
-	if !hasHyphen {
-		// Firstly assume word is a keyword
-		t = parseKeyword(word, ctx)
-		// If it is not a keyword, then it might be a property or identifier.
-		if _, ok := t.(None); ok {
-			t = parseProperty(word, ctx)
-			// If it is not property, then it must be an identifier.
-			if _, ok := t.(None); ok {
-				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-			} else {
-				// However, properties are properties only if they are in valid place,
-				// otherwise, these are regular identifiers.
-				if prevTok, ok := lastToken(*toks); ok {
-					switch prevTok.(type) {
-					case Newline, Semicolon, Indent:
-						// Do nothing, this is property
-					default:
-						t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-					}
-				}
-			}
-		}
-
-		// Allow functionality keywords to be instantiation names
-		if _, ok := t.(Functionality); ok {
-			if prevTok, ok := lastToken(*toks); ok {
-				switch prevTok.(type) {
-				case Newline, Indent, Dedent:
-					t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
-				}
-			}
-			if len(*toks) == 0 {
+	// Allow functionality keywords to be instantiation names
+	if _, ok := t.(Functionality); ok {
+		if prevTok, ok := lastToken(*toks); ok {
+			switch prevTok.(type) {
+			case Newline, Indent, Dedent:
 				t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 			}
 		}
-	} else {
-		// Firstly assume word is a property
-		t = parseProperty(word, ctx)
-		// If it is not property, then it is part of an expression.
-		if _, ok := t.(None); ok {
-			// t is last, as deferred function has to calculate new context index.
-			i1, sub, i2 := splitHyphenatedWord()
-			t = i2
-			*toks = append(*toks, []Token{i1, sub, i2}...)
-			// Assing to t for updating context index in deferred function
-			t = i2
-			return None{}, nil
-		} else {
-			// It might be property, or part of an expression.
-			prevTok, ok := lastToken(*toks)
-			if !ok {
-				// Safe to return, time literal units do not contain hyphen '-'.
-				return t, nil
-			}
-			// It is part of an expression.
-			switch prevTok.(type) {
-			case Newline, Indent, Semicolon:
-				// It is property
-			default:
-				i1, sub, i2 := splitHyphenatedWord()
-				*toks = append(*toks, []Token{i1, sub, i2}...)
-				// Assing to t for updating context index in deferred function
-				t = i2
-				return None{}, nil
-			}
+		if len(*toks) == 0 {
+			t = Ident{position{t.Start(), t.End(), t.Line(), t.Column(), ctx.src, ctx.path}}
 		}
 	}
 
-- 
2.43.0


From 1f0a835f5939e24bef9d794124f5e92774f32d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:00 +0000
Subject: [PATCH 06/61] fix: add gap to the pool exactly once

Pool.Add appended the gap once per each narrower gap already in the pool, so
the same bits could be assigned to multiple functionalities.
---
 internal/gap/pool.go | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/internal/gap/pool.go b/internal/gap/pool.go
index 7bdd670..6d4a98b 100644
--- a/internal/gap/pool.go
+++ b/internal/gap/pool.go
@@ -8,31 +8,21 @@ type Pool struct {
 func (p *Pool) Add(g Gap) {
 	switch g := g.(type) {
 	case Single:
-		if len(p.singles) == 0 {
-			p.singles = append(p.singles, g)
-			return
-		}
-		for i, s := range p.singles {
-			if g.Width() < s.Width() {
-				p.singles = append(p.singles[:i+1], p.singles[i:]...)
-				p.singles[i] = g
-				return
-			}
-			p.singles = append(p.singles, g)
+		i := 0
+		for i < len(p.singles) && p.singles[i].Width() <= g.Width() {
+			i++
 		}
+		p.singles = append(p.singles, Single{})
+		copy(p.singles[i+1:], p.singles[i:])
+		p.singles[i] = g
 	case Array:
-		if len(p.arrays) == 0 {
-			p.arrays = append(p.arrays, g)
-			return
-		}
-		for i, a := range p.arrays {
-			if g.Width() < a.Width() {
-				p.arrays = append(p.arrays[:i+1], p.arrays[i:]...)
-				p.arrays[i] = g
-
-				return
-			}
+		i := 0
+		for i < len(p.arrays) && p.arrays[i].Width() <= g.Width() {
+			i++
 		}
+		p.arrays = append(p.arrays, Array{})
+		copy(p.arrays[i+1:], p.arrays[i:])
+		p.arrays[i] = g
 	}
 }
 
-- 
2.43.0


From aae39f2a3f2093befe0a6e7a2e62ac9bc88cb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 07/61] fix: do not mark rest of write-unsafe gap as write-safe

After placing a status in the gap of a config register the rest of that gap
was marked as write safe, so explicitly cleared irq could be placed there.
---
 internal/reg/status.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a8ce16e..a72be9b 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -18,7 +18,11 @@ func regAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	// The rest of the register is write safe only if all its functionalities are read-only.
+	writeSafe := true
+
 	if g, ok := gp.GetSingle(st.Width, false); ok {
+		writeSafe = g.WriteSafe
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
@@ -30,7 +34,7 @@ func regAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
@@ -75,7 +79,11 @@ func regNonAtomicStatus(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	// The rest of the register is write safe only if all its functionalities are read-only.
+	writeSafe := true
+
 	if g, ok := gp.GetSingle(st.Width, false); ok {
+		writeSafe = g.WriteSafe
 		acs = types.MakeSingleAccess(g.Addr, g.StartBit, st.Width)
 	} else {
 		acs = types.MakeSingleAccess(addr, 0, st.Width)
@@ -87,7 +95,7 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 			Addr:      acs.EndAddr,
 			StartBit:  acs.EndBit + 1,
 			EndBit:    busWidth - 1,
-			WriteSafe: true,
+			WriteSafe: writeSafe,
 		})
 	}
 
-- 
2.43.0


From 4d1f2d6213cd55e5742d28a313ac2b2fb6d96510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 08/61] fix: correct occupied width of ArrayNRegs access placed
 in single register

---
 pkg/fbdl/types/access.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 48cb4cf..c17e77d 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -209,8 +209,10 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
+	endRegWidth := endBit + 1
 	if regCount == 1 {
-		startRegWidth = itemCount*width - startBit
+		startRegWidth = totalWidth
+		endRegWidth = totalWidth
 	}
 
 	return Access{
@@ -224,7 +226,7 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 		StartBit:      startBit,
 		EndBit:        endBit,
 		StartRegWidth: startRegWidth,
-		EndRegWidth:   endBit + 1,
+		EndRegWidth:   endRegWidth,
 	}
 }
 
-- 
2.43.0


From d358df05cec1bbe264115de8636f2700e3125377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:16 +0000
Subject: [PATCH 09/61] fix: make ID and TIMESTAMP not wider than declared for
 wide buses

---
 internal/reg/reg.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index 6331b57..dd20b79 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -58,7 +58,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 		hash = hash & ((1 << busWidth) - 1)
 	}
 	// Ignore error, the value has been trimmed to the proper width.
-	val, _ := val.BitStrFromInt(val.Int(hash), busWidth)
+	val, _ := val.BitStrFromInt(val.Int(hash), id.Width)
 	id.InitValue = types.MakeBitStr(val)
 	bus.Statics = append(bus.Statics, id)
 
@@ -67,7 +67,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 			log.Fatalf("'TIMESTAMP' is reserved functionality name in main bus")
 		}
 		ts := timestamp()
-		ts.Access = types.MakeSingleAccess(timestampAddr, 0, busWidth)
+		ts.Access = types.MakeSingleAccess(timestampAddr, 0, ts.Width)
 		bus.Statics = append(bus.Statics, ts)
 	}
 }
-- 
2.43.0


From 0e92d249660057a6334a48ec09a63d4980c1447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 10/61] fix: include constant names in the bus hash

Renaming a constant changes the interface, but did not change the bus ID.
---
 internal/util/hash/constContainer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/util/hash/constContainer.go b/internal/util/hash/constContainer.go
index cad4121..c0562b2 100644
--- a/internal/util/hash/constContainer.go
+++ b/internal/util/hash/constContainer.go
@@ -16,6 +16,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys := maps.Keys(c.Bools)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Bools[key])
 	}
 
@@ -23,6 +24,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.BoolLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		list := c.BoolLists[key]
 		for _, val := range list {
 			write(&buf, val)
@@ -33,6 +35,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Floats)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Floats[key])
 	}
 
@@ -40,6 +43,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Ints)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		write(&buf, c.Ints[key])
 	}
 
@@ -47,6 +51,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.IntLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		list := c.IntLists[key]
 		for _, val := range list {
 			write(&buf, val)
@@ -57,6 +62,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Strings)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, key)
 		buf.Write([]byte(c.Strings[key]))
 	}
 
-- 
2.43.0


From 1da7d65a28f883b71ac03c39fd19f4933938e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 11/61] fix: include groups in the bus hash

Adding, removing or changing a group did not change the bus ID.
---
 internal/util/hash/block.go |  4 +++
 internal/util/hash/group.go | 52 +++++++++++++++++++++++++++++++++++++
 internal/util/hash/hash.go  |  2 ++
 3 files changed, 58 insertions(+)
 create mode 100644 internal/util/hash/group.go

diff --git a/internal/util/hash/block.go b/internal/util/hash/block.go
index 1430b53..084b81d 100644
--- a/internal/util/hash/block.go
+++ b/internal/util/hash/block.go
@@ -30,6 +30,10 @@ func hashBlock(b *fn.Block) uint32 {
 	for _, c := range b.Configs {
 		write(&buf, Hash(c))
 	}
+	// Groups
+	for _, g := range b.Groups {
+		write(&buf, Hash(g))
+	}
 	// Irqs
 	for _, i := range b.Irqs {
 		write(&buf, Hash(i))
diff --git a/internal/util/hash/group.go b/internal/util/hash/group.go
new file mode 100644
index 0000000..c6ea898
--- /dev/null
+++ b/internal/util/hash/group.go
@@ -0,0 +1,52 @@
+package hash
+
+import (
+	"bytes"
+	"hash/adler32"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
+)
+
+func hashGroup(g *fn.Group) uint32 {
+	buf := bytes.Buffer{}
+
+	// Func
+	write(&buf, Hash(&g.Func))
+
+	// Virtual
+	write(&buf, g.Virtual)
+
+	// cnst.Container
+	write(&buf, Hash(&g.Consts))
+
+	// Configs
+	for _, c := range g.Configs {
+		write(&buf, Hash(c))
+	}
+	// Irqs
+	for _, i := range g.Irqs {
+		write(&buf, Hash(i))
+	}
+	// Masks
+	for _, m := range g.Masks {
+		write(&buf, Hash(m))
+	}
+	// Params
+	for _, p := range g.Params {
+		write(&buf, Hash(p))
+	}
+	// Returns
+	for _, r := range g.Returns {
+		write(&buf, Hash(r))
+	}
+	// Statics
+	for _, s := range g.Statics {
+		write(&buf, Hash(s))
+	}
+	// Statuses
+	for _, s := range g.Statuses {
+		write(&buf, Hash(s))
+	}
+
+	return adler32.Checksum(buf.Bytes())
+}
diff --git a/internal/util/hash/hash.go b/internal/util/hash/hash.go
index 8358fef..4084675 100644
--- a/internal/util/hash/hash.go
+++ b/internal/util/hash/hash.go
@@ -42,6 +42,8 @@ func Hash(data any) uint32 {
 		return hashBlock(d)
 	case *fn.Config:
 		return hashConfig(d)
+	case *fn.Group:
+		return hashGroup(d)
 	case *cnst.Container:
 		return hashConstContainer(d)
 	case *fn.Irq:
-- 
2.43.0


From 9a304367451f0ff1880de23ea20a1bd7e947d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:29 +0000
Subject: [PATCH 12/61] fix: calculate range bit width exactly

Floating point logarithm is off by one for large bounds.
---
 pkg/fbdl/types/range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index ce1ca78..11ca7df 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -1,6 +1,6 @@
 package types
 
-import "math"
+import "math/bits"
 
 // The Range interface represents range type from the FBDL specification.
 //
@@ -23,7 +23,7 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(math.Ceil(math.Log2(float64(sr.End + 1))))
+	return int64(bits.Len64(uint64(sr.End)))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0


From b6957433dc3fff244ca77b733d9bad3fdafffa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 13/61] fix: support all widths and counts of non-atomic status
 arrays

---
 internal/reg/status.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/reg/status.go b/internal/reg/status.go
index a72be9b..d64f1c6 100644
--- a/internal/reg/status.go
+++ b/internal/reg/status.go
@@ -107,20 +107,21 @@ func regNonAtomicStatusSingle(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 func regNonAtomicStatusArray(st *fn.Status, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
+	// TODO: In all below branches a potential gap can be added.
 	if st.Count*st.Width <= busWidth {
 		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
-		// TODO: This is a place for adding a potential Gap.
 	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
-		// TODO: This is a place for adding a potential Gap.
-	} else if busWidth%st.Width == 0 || st.Count <= busWidth/st.Width || st.Width < busWidth/2 {
+	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
-		// TODO: This is a place for adding a potential Gap.
+	} else if st.Width <= busWidth/2 {
+		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
 	} else if st.Width > busWidth {
 		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
 		panic("unimplemented")
 	}
+
 	addr += acs.RegCount
 
 	st.Access = acs
-- 
2.43.0


From fe0f03719396257687f9a7abc199e944b172436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 14/61] fix: make ArrayOneReg access for static arrays fitting
 single register

The ArrayNInRegMInEndReg access was made, with start register width greater
than the number of bits occupied in the register.
---
 internal/reg/static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/reg/static.go b/internal/reg/static.go
index c745b58..9fbd863 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -45,7 +45,9 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 	var acs types.Access
 
 	// TODO: In all below branches a potential gap can be added.
-	if busWidth/2 < st.Width && st.Width <= busWidth {
+	if st.Count*st.Width <= busWidth {
+		acs = types.MakeArrayOneRegAccess(st.Count, addr, 0, st.Width)
+	} else if busWidth/2 < st.Width && st.Width <= busWidth {
 		acs = types.MakeArrayOneInRegAccess(st.Count, addr, 0, st.Width)
 	} else if st.Width <= busWidth/2 && st.Count%(busWidth/st.Width) == 0 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
-- 
2.43.0


From f22674bbd9ce3010aa659c38e935abba254a8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 15/61] fix: support config and static arrays wider than the
 bus

---
 internal/reg/config.go | 2 ++
 internal/reg/static.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/reg/config.go b/internal/reg/config.go
index adbd386..751da02 100644
--- a/internal/reg/config.go
+++ b/internal/reg/config.go
@@ -27,6 +27,8 @@ func regAtomicConfigArray(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 		acs = types.MakeArrayNInRegAccess(cfg.Count, addr, cfg.Width)
 	} else if cfg.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(cfg.Count, addr, cfg.Width)
+	} else if cfg.Width > busWidth {
+		acs = types.MakeArrayOneInNRegsAccess(cfg.Count, addr, cfg.Width)
 	} else {
 		panic("unimplemented")
 	}
diff --git a/internal/reg/static.go b/internal/reg/static.go
index 9fbd863..2777f6d 100644
--- a/internal/reg/static.go
+++ b/internal/reg/static.go
@@ -53,6 +53,8 @@ func regStaticArray(st *fn.Static, addr int64, gp *gap.Pool) int64 {
 		acs = types.MakeArrayNInRegAccess(st.Count, addr, st.Width)
 	} else if st.Width <= busWidth/2 {
 		acs = types.MakeArrayNInRegMInEndRegAccess(st.Count, addr, st.Width)
+	} else if st.Width > busWidth {
+		acs = types.MakeArrayOneInNRegsAccess(st.Count, addr, st.Width)
 	} else {
 		panic("unimplemented")
 	}
-- 
2.43.0


From fddba10c30309f7eb7bd3426a2d35a0a94514a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 16/61] fix: report unsupported functionality arrays instead of
 panicking

---
 internal/reg/config.go | 4 +++-
 internal/reg/irq.go    | 6 +++++-
 internal/reg/mask.go   | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/reg/config.go b/internal/reg/config.go
index 751da02..fd98e12 100644
--- a/internal/reg/config.go
+++ b/internal/reg/config.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -59,7 +61,7 @@ func regAtomicConfigSingle(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 
 func regNonAtomicConfig(cfg *fn.Config, addr int64, gp *gap.Pool) int64 {
 	if cfg.IsArray {
-		panic("unimplemented")
+		log.Fatalf("config '%s': non-atomic config arrays are not yet supported", cfg.Name)
 	}
 	return regNonAtomicConfigSingle(cfg, addr, gp)
 }
diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index 7e5e5eb..e08e032 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 
@@ -46,5 +48,7 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 }
 
 func regIrqArray(irq *fn.Irq, addr int64) int64 {
-	panic("unimplemented")
+	log.Fatalf("irq '%s': irq arrays are not yet supported", irq.Name)
+
+	return addr
 }
diff --git a/internal/reg/mask.go b/internal/reg/mask.go
index 4b14c23..60618d7 100644
--- a/internal/reg/mask.go
+++ b/internal/reg/mask.go
@@ -1,6 +1,8 @@
 package reg
 
 import (
+	"log"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/types"
 )
@@ -10,7 +12,7 @@ func regMask(mask *fn.Mask, addr int64) int64 {
 	var acs types.Access
 
 	if mask.IsArray {
-		panic("unimplemented")
+		log.Fatalf("mask '%s': mask arrays are not yet supported", mask.Name)
 		/* Should it be implemented the same way as for Status?
 		if width == busWidth {
 
-- 
2.43.0


From 35a7af50b595dbe26108b86669ef6a24a927fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:57 +0000
Subject: [PATCH 17/61] fix: do not read past source end when reporting
 unexpected end of file

---
 internal/tok/error.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tok/error.go b/internal/tok/error.go
index cbb7175..33b006d 100644
--- a/internal/tok/error.go
+++ b/internal/tok/error.go
@@ -74,6 +74,11 @@ func (err Error) code(tok Token) string {
 		lineEndIdx--
 	}
 
+	// The end of file token is placed just after the source end.
+	if lineEndIdx >= len(src) {
+		lineEndIdx = len(src) - 1
+	}
+
 	line := src[lineStartIdx : lineEndIdx+1]
 
 	b.WriteRune(' ')
-- 
2.43.0


From fe5ab383fedd108e4db80bc41a5548326afc261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 18/61] fix: keep token positions valid after multi-line string

---
 internal/tok/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tok/parse.go b/internal/tok/parse.go
index 1af0c6f..ebd5513 100644
--- a/internal/tok/parse.go
+++ b/internal/tok/parse.go
@@ -509,13 +509,15 @@ func parseString(ctx *context) (String, error) {
 			return t, Error{"unterminated string, probably missing '\"'", []Token{t}}
 		}
 		b := ctx.byte()
-		if b != '\n' {
-			t.end++
+		if b == '\n' {
+			ctx.line++
+			ctx.nlIdx = ctx.idx
 		}
 		if b == '"' {
 			break
 		}
 	}
+	t.end = ctx.idx
 	ctx.idx++
 	return t, nil
 }
-- 
2.43.0


From f40350dcf3d7c02c65315a453ca37d3f1dc42aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 19/61] fix: do not panic when joining tokens placed in
 different lines

Tokens of a single expression are in different lines if the expression contains
multi-line string.
---
 internal/tok/join.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/tok/join.go b/internal/tok/join.go
index f3372e0..0daad17 100644
--- a/internal/tok/join.go
+++ b/internal/tok/join.go
@@ -4,17 +4,13 @@ package tok
 // It is useful for reporting errors spanning multiple tokens.
 //
 // It panics if:
-//   - tokens are from different source,
-//   - tokens are not in the same line,
+//   - tokens are from different files,
 //   - tok1 is after tok2.
 func Join(tok1, tok2 Token) Token {
-	if tok1.Line() != tok2.Line() {
+	if tok1.Path() != tok2.Path() {
 		panic("cannot join tokens from different files")
 	}
-	if tok1.Line() != tok2.Line() {
-		panic("cannot join tokens placed in different lines")
-	}
-	if tok1.Column() > tok2.Column() {
+	if tok1.Start() > tok2.Start() {
 		panic("cannot join tokens, tok1 starts after tok2")
 	}
 
-- 
2.43.0


From 61591b1f330c57d3e31c5630cf8f2261947eff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 20/61] fix: attach documentation comments to functionalities
 and types defined in a body

Only documentation comments of symbols placed at the file level were attached.
---
 internal/ast/body.go  | 8 +++++++-
 internal/ast/build.go | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/ast/body.go b/internal/ast/body.go
index e04a3d1..8fa39d6 100644
--- a/internal/ast/body.go
+++ b/internal/ast/body.go
@@ -37,13 +37,16 @@ tokenLoop:
 		case tok.Const:
 			consts, err = buildConst(ctx)
 			if len(consts) > 0 {
-				if doc.endLine() == consts[0].Name.Line()+1 {
+				if doc.endLine() == consts[0].Name.Line()-1 {
 					consts[0].Doc = doc
 				}
 				body.Consts = append(body.Consts, consts...)
 			}
 		case tok.Ident:
 			ins, err = buildInst(ctx)
+			if doc.endLine() == ins.Name.Line()-1 {
+				ins.Doc = doc
+			}
 			body.Insts = append(body.Insts, ins)
 		case tok.Property:
 			props, err = buildPropAssignments(ctx)
@@ -55,6 +58,9 @@ tokenLoop:
 			}
 		case tok.Type:
 			typ, err = buildType(ctx)
+			if err == nil && doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			body.Types = append(body.Types, typ)
 		case tok.Dedent:
 			ctx.idx++
diff --git a/internal/ast/build.go b/internal/ast/build.go
index a110f87..41e1b26 100644
--- a/internal/ast/build.go
+++ b/internal/ast/build.go
@@ -54,6 +54,9 @@ func Build(src []byte, path string) (File, error) {
 			}
 		case tok.Type:
 			typ, err = buildType(&ctx)
+			if err == nil && doc.endLine() == typ.Name.Line()-1 {
+				typ.Doc = doc
+			}
 			f.Types = append(f.Types, typ)
 		default:
 			return f, unexpected(t, "const, type, identifier, import or comment")
-- 
2.43.0


From 82f4c3119687d2e49079bedb44151d148120d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 21/61] fix: do not drop single character documentation comment
 lines

---
 internal/ast/doc.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index 8a12d0d..f0eef2d 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -29,9 +29,7 @@ func (d Doc) Text(src []byte) string {
 			}
 		}
 
-		if len(t) > 2 {
-			text += t[start:]
-		}
+		text += t[start:]
 
 		if i < len(d.Lines)-1 {
 			text += "\n"
-- 
2.43.0


From 64ba25d51a62b67390cc0ba736b10162e925f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 22/61] fix: allow comments in multi-line imports and before
 the first constant of multi-line constants

---
 internal/ast/const.go  | 3 +++
 internal/ast/import.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8a74ab5..9d41de7 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -73,6 +73,9 @@ tokenLoop:
 			case tok.Ident:
 				con.Name = t
 				state = Ass
+			case tok.Comment:
+				con.Doc = buildDoc(ctx)
+				ctx.idx--
 			default:
 				return nil, unexpected(t, "identifier")
 			}
diff --git a/internal/ast/import.go b/internal/ast/import.go
index f9b8d46..59e4321 100644
--- a/internal/ast/import.go
+++ b/internal/ast/import.go
@@ -73,7 +73,7 @@ tokenLoop:
 				i.Path = t
 				imps = append(imps, i)
 				i = Import{}
-			case tok.Newline:
+			case tok.Newline, tok.Comment:
 				// Do nothing
 			case tok.Dedent:
 				ctx.idx++
-- 
2.43.0


From 2f56ba7ea537fd30fad9463712fa2695f763511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:24 +0000
Subject: [PATCH 23/61] fix: report integer overflow and division by zero in
 expressions

Division by zero panicked. Overflowed and inexact (floating point
exponentiation) results were silently used.
---
 internal/prs/arith.go | 81 +++++++++++++++++++++++++++++++++++++++++++
 internal/prs/expr.go  | 29 +++++++++++-----
 2 files changed, 101 insertions(+), 9 deletions(-)
 create mode 100644 internal/prs/arith.go

diff --git a/internal/prs/arith.go b/internal/prs/arith.go
new file mode 100644
index 0000000..0571b63
--- /dev/null
+++ b/internal/prs/arith.go
@@ -0,0 +1,81 @@
+package prs
+
+import (
+	"fmt"
+	"math"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
+)
+
+// Below functions implement integer arithmetic with the overflow detection.
+
+func overflowErr(x val.Int, op string, y val.Int) error {
+	return fmt.Errorf("integer overflow, %d %s %d", x, op, y)
+}
+
+func addInt(x, y val.Int) (val.Value, error) {
+	z := x + y
+	if (z > x) != (y > 0) && y != 0 {
+		return nil, overflowErr(x, "+", y)
+	}
+	return z, nil
+}
+
+func subInt(x, y val.Int) (val.Value, error) {
+	z := x - y
+	if (z < x) != (y > 0) && y != 0 {
+		return nil, overflowErr(x, "-", y)
+	}
+	return z, nil
+}
+
+func mulInt(x, y val.Int) (val.Value, error) {
+	if x == 0 || y == 0 {
+		return val.Int(0), nil
+	}
+	z := x * y
+	if z/y != x || (x == -1 && y == math.MinInt64) || (y == -1 && x == math.MinInt64) {
+		return nil, overflowErr(x, "*", y)
+	}
+	return z, nil
+}
+
+func lshiftInt(x, y val.Int) (val.Value, error) {
+	z := x << y
+	if z>>y != x {
+		return nil, overflowErr(x, "<<", y)
+	}
+	return z, nil
+}
+
+// expInt returns x to the power of y.
+// For negative y the result is float, unless it is exact integer.
+func expInt(x, y val.Int) (val.Value, error) {
+	if x == 1 || y == 0 {
+		return val.Int(1), nil
+	} else if x == -1 {
+		if y%2 == 0 {
+			return val.Int(1), nil
+		}
+		return x, nil
+	} else if x == 0 {
+		if y < 0 {
+			return nil, fmt.Errorf("division by zero")
+		}
+		return x, nil
+	}
+
+	if y < 0 {
+		return val.Float(math.Pow(float64(x), float64(y))), nil
+	}
+
+	z := val.Int(1)
+	for range y {
+		v, err := mulInt(z, x)
+		if err != nil {
+			return nil, overflowErr(x, "**", y)
+		}
+		z = v.(val.Int)
+	}
+	return z, nil
+}
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 7a8aa27..576209f 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -2,7 +2,6 @@ package prs
 
 import (
 	"fmt"
-	"math"
 	"strconv"
 	"strings"
 
@@ -83,22 +82,26 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Add:
 			switch y := y.(type) {
 			case val.Int:
-				v = x + y
+				v, err = addInt(x, y)
 			}
 		case tok.Sub:
 			switch y := y.(type) {
 			case val.Int:
-				v = x - y
+				v, err = subInt(x, y)
 			}
 		case tok.Mul:
 			switch y := y.(type) {
 			case val.Int:
-				v = x * y
+				v, err = mulInt(x, y)
 			}
 		case tok.Div:
 			switch y := y.(type) {
 			case val.Int:
-				if x%y == 0 {
+				if y == 0 {
+					err = fmt.Errorf("division by zero")
+				} else if y == -1 {
+					v, err = subInt(0, x)
+				} else if x%y == 0 {
 					v = x / y
 				} else {
 					v = val.Float(float64(x) / float64(y))
@@ -107,12 +110,16 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		case tok.Rem:
 			switch y := y.(type) {
 			case val.Int:
-				v = x % y
+				if y == 0 {
+					err = fmt.Errorf("division by zero")
+				} else {
+					v = x % y
+				}
 			}
 		case tok.Exp:
 			switch y := y.(type) {
 			case val.Int:
-				v = val.Int(int64(math.Pow(float64(x), float64(y))))
+				v, err = expInt(x, y)
 			}
 		case tok.LShift:
 			switch y := y.(type) {
@@ -123,7 +130,7 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 						Toks: []tok.Token{be.ast.Y.Tok()},
 					}
 				}
-				v = x << y
+				v, err = lshiftInt(x, y)
 			default:
 				return nil, tok.Error{
 					Msg:  fmt.Sprintf("right operand of left shift must be of type integer, current type %s", y.Type()),
@@ -167,6 +174,10 @@ func (be BinaryExpr) Eval() (val.Value, error) {
 		}
 	}
 
+	if err != nil {
+		return nil, tok.Error{Msg: err.Error(), Toks: []tok.Token{be.ast.Tok()}}
+	}
+
 	if v != nil {
 		return v, nil
 	}
@@ -512,7 +523,7 @@ func (ue UnaryExpr) Eval() (val.Value, error) {
 		case UnaryPlus:
 			return x, nil
 		case UnaryMinus:
-			return -x, nil
+			return subInt(0, x)
 		}
 	}
 
-- 
2.43.0


From 1710a37f83c89e0437d0d0a405c9434a5a621c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 24/61] fix: evaluate built-in functions exactly and report
 invalid arguments

Logarithms of exact powers were not integers (log10(1000)), ceil and floor
of non-numbers silently evaluated to 0, and logarithms of non-positive
values were silently converted to meaningless integers.
---
 internal/prs/call.go | 65 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/internal/prs/call.go b/internal/prs/call.go
index 5439258..ba612de 100644
--- a/internal/prs/call.go
+++ b/internal/prs/call.go
@@ -63,9 +63,11 @@ func evalCeil(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate ceil for argument of %s type", arg.Type())
 	}
 
-	return val.Int(int64(math.Ceil(f))), nil
+	return floatToInt(math.Ceil(f))
 }
 
 func evalFloor(c Call) (val.Value, error) {
@@ -81,9 +83,11 @@ func evalFloor(c Call) (val.Value, error) {
 		return arg, nil
 	case val.Float:
 		f = float64(arg)
+	default:
+		return nil, fmt.Errorf("cannot evaluate floor for argument of %s type", arg.Type())
 	}
 
-	return val.Int(int64(math.Floor(f))), nil
+	return floatToInt(math.Floor(f))
 }
 
 func evalLog2(c Call) (val.Value, error) {
@@ -108,12 +112,11 @@ func evalLog2(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log2 for argument of %s type", argType)
 	}
 
-	r := math.Log2(f)
-	if r == float64(int64(r)) {
-		return val.Int(int64(r)), nil
+	if !(f > 0) {
+		return nil, fmt.Errorf("cannot evaluate log2 for not positive argument %v", f)
 	}
 
-	return val.Float(r), nil
+	return evalLog(arg, 2, math.Log2(f)), nil
 }
 
 func evalLog10(c Call) (val.Value, error) {
@@ -138,10 +141,52 @@ func evalLog10(c Call) (val.Value, error) {
 		return nil, fmt.Errorf("cannot evaluate log10 for argument of %s type", argType)
 	}
 
-	r := math.Log10(f)
-	if r == float64(int64(r)) {
-		return val.Int(int64(r)), nil
+	if !(f > 0) {
+		return nil, fmt.Errorf("cannot evaluate log10 for not positive argument %v", f)
 	}
 
-	return val.Float(r), nil
+	return evalLog(arg, 10, math.Log10(f)), nil
+}
+
+// floatToInt converts float, which has integral value, to the integer.
+func floatToInt(f float64) (val.Value, error) {
+	if !(-math.MaxInt64 <= f && f < math.MaxInt64) {
+		return nil, fmt.Errorf("value %v out of integer range", f)
+	}
+	return val.Int(int64(f)), nil
+}
+
+// evalLog evaluates logarithm of positive x.
+// The approx is the floating point approximation of the logarithm value.
+// If the exact logarithm is an integer, then the integer is returned.
+// Otherwise, the returned value is never an integer, even if approx is.
+func evalLog(x val.Value, base int64, approx float64) val.Value {
+	n := math.Round(approx)
+
+	if f, ok := x.(val.Float); ok {
+		if math.Pow(float64(base), n) == float64(f) {
+			return val.Int(int64(n))
+		}
+		return val.Float(approx)
+	}
+
+	i := x.(val.Int)
+	pow, rem := val.Int(1), i
+	exp := int64(0)
+	for rem >= val.Int(base) {
+		rem /= val.Int(base)
+		pow *= val.Int(base)
+		exp++
+	}
+	if pow == i {
+		return val.Int(exp)
+	}
+	// The exact value lies between exp and exp + 1.
+	if approx <= float64(exp) {
+		approx = math.Nextafter(float64(exp), float64(exp+1))
+	} else if approx >= float64(exp+1) {
+		approx = math.Nextafter(float64(exp+1), float64(exp))
+	}
+
+	return val.Float(approx)
 }
-- 
2.43.0


From ed1e0da79efedfa6aaa6c1bc0e5b79441404f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 25/61] fix: do not overflow when evaluating time literals

---
 internal/prs/expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 576209f..01600eb 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -483,9 +483,9 @@ func (tim Time) Eval() (val.Value, error) {
 	case "s":
 		t = val.Time{S: int64(v.(val.Int)), Ns: 0}
 	case "ms":
-		t = val.Time{S: 0, Ns: 1000000 * int64(v.(val.Int))}
+		t = val.Time{S: int64(v.(val.Int)) / 1000, Ns: 1000000 * (int64(v.(val.Int)) % 1000)}
 	case "us":
-		t = val.Time{S: 0, Ns: 1000 * int64(v.(val.Int))}
+		t = val.Time{S: int64(v.(val.Int)) / 1000000, Ns: 1000 * (int64(v.(val.Int)) % 1000000)}
 	case "ns":
 		t = val.Time{S: 0, Ns: int64(v.(val.Int))}
 	}
-- 
2.43.0


From 8e4570140f272668cfc7a06e2a7928e0f2045e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 26/61] fix: do not panic on constants that cannot be evaluated
 or dumped and on packages sharing name

---
 internal/ins/const.go                         | 32 +++++++++++++------
 internal/ins/ins.go                           |  5 ++-
 .../util/constContainer/constContainer.go     | 18 +++++++----
 3 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/internal/ins/const.go b/internal/ins/const.go
index 0c3f184..1820e75 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -1,37 +1,49 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util/constContainer"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/pkg"
 )
 
-func constifyPackages(packages prs.Packages) map[string]*pkg.Package {
+func constifyPackages(packages prs.Packages) (map[string]*pkg.Package, error) {
 	cPkgs := map[string]*pkg.Package{}
 
-	// TODO: Resolve name conflicts.
 	for name, pkgs := range packages {
-		if len(pkgs) > 1 {
-			panic("not yet implemented")
-		}
 		for _, pkg := range pkgs {
-			cPkgs[name] = constifyPkg(pkg)
+			p, err := constifyPkg(pkg)
+			if err != nil {
+				return nil, err
+			}
+
+			// If name is ambiguous, then use path to distinguish packages.
+			key := name
+			if len(pkgs) > 1 {
+				key = pkg.Path
+			}
+			cPkgs[key] = p
 		}
 	}
 
-	return cPkgs
+	return cPkgs, nil
 }
 
-func constifyPkg(pp *prs.Package) *pkg.Package {
+func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
 		v, err := c.Value.Eval()
 		if err != nil {
-			panic("not yet implemented")
+			return nil, tok.Error{
+				Msg:  fmt.Sprintf("cannot evaluate expression for const '%s': %v", c.Name(), err),
+				Toks: []tok.Token{c.Tok()},
+			}
 		}
 		constContainer.AddConst(&p.Consts, c.Name(), v)
 	}
 
-	return &p
+	return &p, nil
 }
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 22f3c46..01c0ef9 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -86,7 +86,10 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		}
 	}
 
-	pkgs := constifyPackages(packages)
+	pkgs, err := constifyPackages(packages)
+	if err != nil {
+		return nil, nil, err
+	}
 
 	return mainBus, pkgs, nil
 }
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index ec9ae74..30bf986 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -13,6 +13,9 @@ func HasConst(c cnst.Container, name string) bool {
 	if _, ok := c.BoolLists[name]; ok {
 		return true
 	}
+	if _, ok := c.Floats[name]; ok {
+		return true
+	}
 	if _, ok := c.Ints[name]; ok {
 		return true
 	}
@@ -26,10 +29,12 @@ func HasConst(c cnst.Container, name string) bool {
 	return false
 }
 
+// AddConst adds constant to the container.
+// Constants of types that can't be represented in the container are ignored.
 func AddConst(c *cnst.Container, name string, v val.Value) {
 	switch v.(type) {
-	case val.BitStr:
-		panic("not yet implemented")
+	case val.BitStr, val.Range, val.Time:
+		return
 	case val.Bool:
 		addBoolConst(c, name, v)
 	case val.Float:
@@ -37,17 +42,16 @@ func AddConst(c *cnst.Container, name string, v val.Value) {
 	case val.Int:
 		addIntConst(c, name, v)
 	case val.List:
+		if len(v.(val.List)) == 0 {
+			return
+		}
 		switch v.(val.List)[0].(type) {
-		case val.BitStr:
-			panic("not yet implemented")
 		case val.Bool:
 			addBoolListConst(c, name, v)
 		case val.Int:
 			addIntListConst(c, name, v)
-		case val.Str:
-			panic("not yet implemented")
 		default:
-			panic("should never happen")
+			return
 		}
 	case val.Str:
 		addStrConst(c, name, v)
-- 
2.43.0


From 6e036bff39420b2f3990a6da413a8ed1e821c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 27/61] fix: trim package name prefix of imports and do not
 panic on short file names

---
 internal/prs/import.go | 2 +-
 internal/prs/prs.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/prs/import.go b/internal/prs/import.go
index 311d636..3f4ee41 100644
--- a/internal/prs/import.go
+++ b/internal/prs/import.go
@@ -29,7 +29,7 @@ func buildImports(astImports []ast.Import, src []byte) []Import {
 			path = path[1 : len(path)-1]
 			// TODO: Should it be [0] or the last element?
 			name = strings.Split(path, string(os.PathSeparator))[0]
-			if len(name) > 4 && name[0:3] == "fbd-" {
+			if len(name) > 4 && name[0:4] == "fbd-" {
 				name = name[4:]
 			}
 		} else {
diff --git a/internal/prs/prs.go b/internal/prs/prs.go
index e49ed09..2d1150d 100644
--- a/internal/prs/prs.go
+++ b/internal/prs/prs.go
@@ -55,7 +55,7 @@ func parsePackage(pkg *Package, wg *sync.WaitGroup) {
 		if file.IsDir() {
 			continue
 		}
-		if file.Name()[len(file.Name())-4:] != ".fbd" {
+		if !strings.HasSuffix(file.Name(), ".fbd") {
 			continue
 		}
 
-- 
2.43.0


From 78ddeb7fc5d298dd732292df1373fce77f098fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 28/61] fix: ignore only the broken symbolic link, not the
 whole directory

---
 internal/prs/pre.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index cdbd022..d3d9aad 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -90,7 +90,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 			dePath, err = filepath.EvalSymlinks(dePath)
 			// If symlink returns an error, just ignore it.
 			if err != nil {
-				return
+				continue
 			}
 		}
 
-- 
2.43.0


From 945e878cf992cd943696867b4ce42db34e7def61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 29/61] fix: do not panic while reporting reinstantiation,
 property conflict and unknown type errors

---
 internal/ins/blackbox.go |  2 +-
 internal/ins/common.go   |  6 +++---
 internal/prs/check.go    |  5 ++++-
 internal/prs/pkg.go      |  2 +-
 internal/prs/type.go     | 12 ++++++++++++
 5 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/internal/ins/blackbox.go b/internal/ins/blackbox.go
index e3f2658..dbd2e9f 100644
--- a/internal/ins/blackbox.go
+++ b/internal/ins/blackbox.go
@@ -65,7 +65,7 @@ func applyBlackboxType(bb *fn.Blackbox, typ prs.Functionality) error {
 		switch p.Name {
 		case "size":
 			if bb.Size != 0 {
-				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "masters")
+				return fmt.Errorf(propAlreadySetMsg, p.Loc(), "size")
 			}
 			bb.Size = int64(v.(val.Int))
 		default:
diff --git a/internal/ins/common.go b/internal/ins/common.go
index f5b0051..6da4cc6 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -26,14 +26,14 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	if inst.IsArray() {
 		isArray = true
 		v, err := inst.Count().Eval()
+		if err != nil {
+			return fn.Func{}, fmt.Errorf("%v", err)
+		}
 
 		if v.Type() != "integer" {
 			return fn.Func{}, fmt.Errorf("size of array must be of 'integer' type, current type '%s'", v.Type())
 		}
 
-		if err != nil {
-			return fn.Func{}, fmt.Errorf("%v", err)
-		}
 		count = int64(v.(val.Int))
 		if count < 0 {
 			return fn.Func{}, tok.Error{
diff --git a/internal/prs/check.go b/internal/prs/check.go
index dc28aa3..1ed26f3 100644
--- a/internal/prs/check.go
+++ b/internal/prs/check.go
@@ -19,7 +19,10 @@ func checkPropConflict(typ string, prop Prop, props PropContainer) error {
 
 	if r, ok := props.Get("range"); ok {
 		if prop.Name == "width" {
-			return fmt.Errorf(msg, "width", "range", r.Line, r.Col)
+			return tok.Error{
+				Msg:  fmt.Sprintf(msg, "width", "range", r.Line(), r.Col()),
+				Toks: []tok.Token{prop.NameTok, r.NameTok},
+			}
 		}
 	}
 
diff --git a/internal/prs/pkg.go b/internal/prs/pkg.go
index 0697fa7..3cc262a 100644
--- a/internal/prs/pkg.go
+++ b/internal/prs/pkg.go
@@ -65,7 +65,7 @@ func (p *Package) addInst(i *Inst) error {
 		msg := `reinstantiation of '%s' in package '%s'
   %s:%d:%d
   %s:%d:%d`
-		first, _ := p.symbolContainer.GetConst(i.name)
+		first, _ := p.symbolContainer.GetInst(i.name)
 		return fmt.Errorf(
 			msg, i.name, p.Name,
 			first.File().Path, first.Line(), first.Col(),
diff --git a/internal/prs/type.go b/internal/prs/type.go
index cca11e5..fb2c8c4 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -65,6 +65,18 @@ func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Sy
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+func (t Type) File() *File {
+	if t.file != nil {
+		return t.file
+	}
+
+	if s, ok := t.scope.(Symbol); ok {
+		return s.File()
+	}
+
+	panic("should never happen")
+}
+
 // buildTypes builds list of Types based on the list of ast.Type.
 func buildTypes(astTypes []ast.Type, src []byte) ([]*Type, error) {
 	types := make([]*Type, 0, len(astTypes))
-- 
2.43.0


From 2ac1d21804ead4eafadc9eb188fb41c1cf88789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 30/61] fix: convert negative integers to bit strings and
 handle wide bit strings exactly

---
 internal/val/bit_str.go | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/internal/val/bit_str.go b/internal/val/bit_str.go
index 009a3c7..5a5a4bf 100644
--- a/internal/val/bit_str.go
+++ b/internal/val/bit_str.go
@@ -3,8 +3,12 @@ package val
 import (
 	"fmt"
 	"math"
+	"math/big"
 )
 
+// Bit strings wider than maxPaddedWidth are not padded when converted from the integer.
+const maxPaddedWidth int64 = 1000000
+
 // BitStr represents FBDL bit string type.
 type BitStr string
 
@@ -132,8 +136,12 @@ func makeHexBitStr(s string) (BitStr, error) {
 func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	i := int64(v)
 
-	max := int64(math.Pow(float64(2), float64(width))) - int64(1)
-	min := -int64(math.Pow(float64(2), float64(width-1)))
+	max := int64(math.MaxInt64)
+	min := int64(math.MinInt64)
+	if width < 64 {
+		max = int64(uint64(1)<<width - 1)
+		min = -int64(uint64(1) << width >> 1)
+	}
 
 	if i > max {
 		return BitStr(""),
@@ -151,7 +159,9 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 
 	if i >= 0 {
 		var s string
-		if width%4 == 0 {
+		if width > maxPaddedWidth {
+			s = fmt.Sprintf("x\"%x\"", i)
+		} else if width%4 == 0 {
 			s = fmt.Sprintf("x\"%0*x\"", width/4, i)
 		} else if width%3 == 0 {
 			s = fmt.Sprintf("o\"%0*o\"", width/3, i)
@@ -163,7 +173,22 @@ func BitStrFromInt(v Int, width int64) (BitStr, error) {
 	}
 
 	// Negative value handling
-	panic("BitStrFromInt, negative value handling not yet implemented")
+	if width > maxPaddedWidth {
+		return BitStr(""),
+			fmt.Errorf("negative value %d can't be converted to bit string of width %d, the width is too large", i, width)
+	}
+
+	u2 := new(big.Int).Lsh(big.NewInt(1), uint(width))
+	u2.Add(u2, big.NewInt(i))
+
+	var s string
+	if width%4 == 0 {
+		s = fmt.Sprintf("x\"%x\"", u2)
+	} else if width%3 == 0 {
+		s = fmt.Sprintf("o\"%o\"", u2)
+	} else {
+		s = fmt.Sprintf("b\"%b\"", u2)
+	}
 
-	//return BitStr(""), nil
+	return BitStr(s), nil
 }
-- 
2.43.0


From ab2cd9f99647d60cbc1b040eeb6d41ab24549a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:06 +0000
Subject: [PATCH 31/61] fix: extend octal bit strings

---
 pkg/fbdl/types/bit_str.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/fbdl/types/bit_str.go b/pkg/fbdl/types/bit_str.go
index 57f0293..6b37d43 100644
--- a/pkg/fbdl/types/bit_str.go
+++ b/pkg/fbdl/types/bit_str.go
@@ -3,6 +3,7 @@ package types
 import (
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
@@ -59,7 +60,7 @@ func (bs BitStr) Extend(width int64) BitStr {
 	case 'b':
 		return extendBin(bs, width)
 	case 'o':
-		panic("not yet implemented")
+		return extendOctal(bs, width)
 	case 'x':
 		return extendHex(bs, width)
 	default:
@@ -110,6 +111,16 @@ func extendHex(bs BitStr, width int64) BitStr {
 	return extendBin(bs.ToBin(), width)
 }
 
+func extendOctal(bs BitStr, width int64) BitStr {
+	bitWidthDiff := width - bs.BitWidth()
+
+	if bitWidthDiff%3 == 0 {
+		return BitStr(`o"` + strings.Repeat("0", int(bitWidthDiff/3)) + string(bs)[2:])
+	}
+
+	return extendBin(bs.ToBin(), width)
+}
+
 func (bs BitStr) ToBin() BitStr {
 	if bs.IsBin() {
 		return bs
-- 
2.43.0


From cf52d0dcac3fd1159331ada8d5797bb648198325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 32/61] fix: align to power of two exactly

---
 internal/util/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/util/util.go b/internal/util/util.go
index 02bb8f7..e7ca5c9 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -2,7 +2,7 @@ package util
 
 import (
 	"fmt"
-	"math"
+	"math/bits"
 )
 
 const RepoIssueUrl = "https://github.com/Functional-Bus-Description-Language/go-fbdl/issues"
@@ -99,7 +99,11 @@ func IsValidInnerType(it string, ot string) bool {
 }
 
 func AlignToPowerOf2(n int64) int64 {
-	return int64(math.Pow(2, math.Ceil(math.Log2(float64(n)))))
+	if n <= 0 {
+		return 0
+	}
+
+	return int64(1) << bits.Len64(uint64(n-1))
 }
 
 // Aligns n to multiple of m.
-- 
2.43.0


From c4ba580619a674b878d67d8c2d7ad1f2c998c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 33/61] fix: make accesses to wide and zero-size
 functionalities in bounded time and without going back

---
 pkg/fbdl/types/access.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index c17e77d..3f207b4 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -82,19 +82,9 @@ func MakeSingleOneRegAccess(addr, startBit, width int64) Access {
 //	|| c(0) || || c(1) || || c(2) | 24 bits gap ||
 //	---------- ---------- ------------------------
 func MakeSingleNRegsAccess(addr, startBit, width int64) Access {
-	regCount := int64(1)
-
-	endBit := int64(0)
-	w := busWidth - startBit
-	for {
-		regCount += 1
-		if w+busWidth < width {
-			w += busWidth
-		} else {
-			endBit = width - w - 1
-			break
-		}
-	}
+	w := width - (busWidth - startBit) // Width placed in registers other than the first one
+	regCount := (w-1)/busWidth + 2
+	endBit := (w - 1) % busWidth
 
 	return Access{
 		Type:          "SingleNRegs",
@@ -206,6 +196,9 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	firstRegWidth := busWidth - startBit
 
 	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
+	if regCount < 1 {
+		regCount = 1
+	}
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
 	startRegWidth := busWidth - startBit
-- 
2.43.0


From 9fc0fcb1c8ae19f068e2391fc24dd1bf0de79414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 34/61] fix: detect duplicated names of all functionality kinds
 in blocks and groups

---
 internal/util/block/block.go | 15 +++++++++++++++
 internal/util/group/group.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/internal/util/block/block.go b/internal/util/block/block.go
index c8a3d49..ea55add 100644
--- a/internal/util/block/block.go
+++ b/internal/util/block/block.go
@@ -16,11 +16,26 @@ func AddStream(b *fn.Block, s *fn.Stream)      { b.Streams = append(b.Streams, s
 func AddSubblock(b *fn.Block, s *fn.Block)     { b.Subblocks = append(b.Subblocks, s) }
 
 func HasFunctionality(blk *fn.Block, name string) bool {
+	for i := range blk.Blackboxes {
+		if blk.Blackboxes[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Configs {
 		if blk.Configs[i].Name == name {
 			return true
 		}
 	}
+	for i := range blk.Groups {
+		if blk.Groups[i].Name == name {
+			return true
+		}
+	}
+	for i := range blk.Irqs {
+		if blk.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range blk.Masks {
 		if blk.Masks[i].Name == name {
 			return true
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index 1265cbd..d1cc27c 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -12,11 +12,26 @@ func HasFunctionality(grp *fn.Group, name string) bool {
 			return true
 		}
 	}
+	for i := range grp.Irqs {
+		if grp.Irqs[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Masks {
 		if grp.Masks[i].Name == name {
 			return true
 		}
 	}
+	for i := range grp.Params {
+		if grp.Params[i].Name == name {
+			return true
+		}
+	}
+	for i := range grp.Returns {
+		if grp.Returns[i].Name == name {
+			return true
+		}
+	}
 	for i := range grp.Statics {
 		if grp.Statics[i].Name == name {
 			return true
-- 
2.43.0


From c61bc1bd353a78e5116ef046f23f85c440607d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 35/61] fix: reject forbidden nesting and block properties
 valid only for bus

---
 internal/ins/block.go |  6 +++---
 internal/ins/ins.go   | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 7fe70c4..756136d 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -32,7 +32,7 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ)
+		err := applyBlockType(&blk, typ, typeChain[0].Type())
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,9 +43,9 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality) error {
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
 	for _, p := range typ.Props() {
-		if err := util.IsValidProperty(p.Name, "bus"); err != nil {
+		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
 		}
 		if err := checkProp(p); err != nil {
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 01c0ef9..94948d3 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -6,6 +6,7 @@ import (
 	"log"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/util"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
@@ -101,6 +102,12 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	var err error
 
 	typ := typeChain[0].Type()
+
+	err = checkNesting(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
+
 	switch typ {
 	case "blackbox":
 		f, err = insBlackbox(typeChain)
@@ -137,6 +144,39 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 	return f
 }
 
+// checkNesting checks whether functionality can be instantiated in its scope
+// and whether inner functionalities are allowed in the functionality of given base type.
+func checkNesting(typeChain []prs.Functionality) error {
+	inst := typeChain[len(typeChain)-1]
+	baseType := typeChain[0].Type()
+
+	if _, ok := inst.Scope().(*prs.File); baseType == "bus" && !ok {
+		return tok.Error{
+			Msg:  fmt.Sprintf("'%s' of base type 'bus' can be instantiated only at package level", inst.Name()),
+			Toks: []tok.Token{inst.Tok()},
+		}
+	}
+
+	for _, typ := range typeChain {
+		for _, sym := range typ.Symbols() {
+			inner, ok := sym.(*prs.Inst)
+			if !ok {
+				continue
+			}
+
+			innerType := resolveToBaseType(inner)[0].Type()
+			if innerType != "bus" && !util.IsValidInnerType(innerType, baseType) {
+				return tok.Error{
+					Msg:  fmt.Sprintf(invalidInnerTypeMsg, inner.Name(), innerType, baseType),
+					Toks: []tok.Token{inner.Tok()},
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
-- 
2.43.0


From 0d9c106513e7bd367b8b7fdf5df95a92ec6757e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 36/61] fix: report constants depending on themselves and
 evaluate every constant once

---
 internal/ins/block.go |  2 +-
 internal/ins/const.go |  2 +-
 internal/ins/group.go |  2 +-
 internal/prs/const.go | 32 ++++++++++++++++++++++++++++++++
 internal/prs/expr.go  |  4 ++--
 5 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index 756136d..d4e81e6 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -92,7 +92,7 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 				)
 			}
 
-			val, err := c.Value.Eval()
+			val, err := c.Eval()
 			if err != nil {
 				return fmt.Errorf(
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
diff --git a/internal/ins/const.go b/internal/ins/const.go
index 1820e75..44f660e 100644
--- a/internal/ins/const.go
+++ b/internal/ins/const.go
@@ -35,7 +35,7 @@ func constifyPkg(pp *prs.Package) (*pkg.Package, error) {
 	p := pkg.Package{}
 
 	for _, c := range pp.Consts {
-		v, err := c.Value.Eval()
+		v, err := c.Eval()
 		if err != nil {
 			return nil, tok.Error{
 				Msg:  fmt.Sprintf("cannot evaluate expression for const '%s': %v", c.Name(), err),
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 7699b5b..16e7c2f 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -98,7 +98,7 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 				)
 			}
 
-			val, err := c.Value.Eval()
+			val, err := c.Eval()
 			if err != nil {
 				return fmt.Errorf(
 					"cannot evaluate expression for const '%s': %v", c.Name(), err,
diff --git a/internal/prs/const.go b/internal/prs/const.go
index ff69f97..b26662c 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -5,12 +5,44 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ast"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // Const represents constant definition.
 type Const struct {
 	symbol
 	Value Expr
+
+	evaluating bool      // Guards against self-referencing definitions.
+	cached     val.Value // The last evaluated value.
+	cacheEpoch uint64    // Epoch in which the cached value was evaluated.
+}
+
+// argsEpoch is incremented every time type arguments are bound.
+// It is used to invalidate cached values of constants.
+var argsEpoch uint64 = 1
+
+// Eval evaluates value of the constant.
+func (c *Const) Eval() (val.Value, error) {
+	if c.cached != nil && c.cacheEpoch == argsEpoch {
+		return c.cached, nil
+	}
+
+	if c.evaluating {
+		return nil, fmt.Errorf("value of '%s' depends on itself", c.name)
+	}
+	c.evaluating = true
+	defer func() { c.evaluating = false }()
+
+	v, err := c.Value.Eval()
+	if err != nil {
+		return nil, err
+	}
+
+	c.cached = v
+	c.cacheEpoch = argsEpoch
+
+	return v, nil
 }
 
 func (c Const) Kind() SymbolKind { return ConstDef }
diff --git a/internal/prs/expr.go b/internal/prs/expr.go
index 01600eb..a00d3ed 100644
--- a/internal/prs/expr.go
+++ b/internal/prs/expr.go
@@ -355,7 +355,7 @@ func (di DeclaredIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating identifier '%s': %v", di.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.Eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant identifier '%s': %v", di.x, err)
 	}
@@ -377,7 +377,7 @@ func (qi QualifiedIdentifier) Eval() (val.Value, error) {
 		return val.Int(0), fmt.Errorf("evaluating qualified identifier '%s': %v", qi.x, err)
 	}
 
-	x, err := c.Value.Eval()
+	x, err := c.Eval()
 	if err != nil {
 		return val.Int(0), fmt.Errorf("evaluating constant qualified identifier '%s': %v", qi.x, err)
 	}
-- 
2.43.0


From 03204b6e3a023577b9d536bcc812ec99f9c9f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 37/61] fix: resolve argument lists of all functionalities

---
 internal/ins/args.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 8bbd01a..af4716d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -40,7 +40,10 @@ func resolveArgListsInSymbols(syms []prs.Symbol) error {
 		}
 
 		if len(f.Symbols()) > 0 {
-			return resolveArgListsInSymbols(f.Symbols())
+			err := resolveArgListsInSymbols(f.Symbols())
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From d31537dcf9dfa8c8e0e22be7ece058513f0a06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 38/61] fix: report types derived from themselves

---
 internal/ins/ins.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 94948d3..e680a34 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -178,8 +178,23 @@ func checkNesting(typeChain []prs.Functionality) error {
 }
 
 func resolveToBaseType(f prs.Functionality) []prs.Functionality {
+	return resolveTypeChain(f, []prs.Functionality{})
+}
+
+// resolveTypeChain resolves type chain of the functionality f.
+// The derived list contains types derived, directly or not, from f.
+func resolveTypeChain(f prs.Functionality, derived []prs.Functionality) []prs.Functionality {
 	typeChain := []prs.Functionality{}
 
+	for _, d := range derived {
+		if d == f {
+			log.Fatalf(
+				"%s:%d:%d: type '%s' is derived from itself",
+				f.File().Path, f.Line(), f.Col(), f.Name(),
+			)
+		}
+	}
+
 	if !util.IsBaseType(f.Type()) {
 		var s prs.Symbol
 		var err error
@@ -196,7 +211,7 @@ func resolveToBaseType(f prs.Functionality) []prs.Functionality {
 		}
 		typeFn := s.(prs.Functionality)
 
-		typeChain = append(typeChain, resolveToBaseType(typeFn)...)
+		typeChain = append(typeChain, resolveTypeChain(typeFn, append(derived, f))...)
 	}
 
 	typeChain = append(typeChain, f)
-- 
2.43.0


From b30263f4b8b758c8d28446f8be0a3fd37c494114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 39/61] fix: report recursive instantiation

---
 internal/ins/ins.go        |  5 +++++
 internal/ins/type_chain.go | 29 +++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index e680a34..649fb7d 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -108,6 +108,11 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 		log.Fatalf("%v", err)
 	}
 
+	err = checkRecursion(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
+
 	switch typ {
 	case "blackbox":
 		f, err = insBlackbox(typeChain)
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index a0b845a..f8537e0 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -1,13 +1,41 @@
 package ins
 
 import (
+	"fmt"
+
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
 )
 
+// appliedTypes contains types which bodies are currently being applied.
+var appliedTypes = map[prs.Functionality]bool{}
+
+// checkRecursion returns an error if any type in the type chain is currently being applied,
+// what means that the body of the type instantiates the type itself.
+func checkRecursion(typeChain []prs.Functionality) error {
+	for _, typ := range typeChain {
+		if appliedTypes[typ] {
+			inst := typeChain[len(typeChain)-1]
+			return tok.Error{
+				Msg: fmt.Sprintf(
+					"recursive instantiation, '%s' instantiates type '%s' within the type itself",
+					inst.Name(), typ.Name(),
+				),
+				Toks: []tok.Token{inst.Tok()},
+			}
+		}
+	}
+
+	return nil
+}
+
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
 	i := 0
 	return func() (prs.Functionality, bool) {
+		if i > 0 {
+			delete(appliedTypes, tc[i-1])
+		}
 		if i == len(tc) {
 			return nil, false
 		}
@@ -19,6 +47,7 @@ func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, boo
 		if resolvedArgs != nil {
 			typ.SetResolvedArgs(resolvedArgs)
 		}
+		appliedTypes[typ] = true
 		i += 1
 		return typ, true
 	}
-- 
2.43.0


From 6034b453a801c2b3cc3bff4631acf285483c8acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 40/61] fix: bind arguments of every type in the type chain
 independently

---
 internal/ins/args.go       |  2 +-
 internal/ins/ins.go        |  6 ++++
 internal/ins/type_chain.go | 59 +++++++++++++++++++++++++++++++++-----
 internal/prs/const.go      |  5 ++++
 internal/prs/func.go       |  2 ++
 internal/prs/inst.go       |  6 ++--
 internal/prs/type.go       | 14 +++++++--
 7 files changed, 79 insertions(+), 15 deletions(-)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index af4716d..69b201d 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -56,7 +56,7 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 	resolvedArgs := make(map[string]prs.Expr)
 	inPositionalArgs := true
 
-	typeSymbol, err := symbol.GetType(symbol.Type())
+	typeSymbol, err := symbol.Scope().GetType(symbol.Type())
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 649fb7d..7164185 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -113,6 +113,12 @@ func insFunctionality(pf prs.Functionality) fn.Functionality {
 		log.Fatalf("%v", err)
 	}
 
+	restoreArgs, err := bindArgs(typeChain)
+	if err != nil {
+		log.Fatalf("%v", err)
+	}
+	defer restoreArgs()
+
 	switch typ {
 	case "blackbox":
 		f, err = insBlackbox(typeChain)
diff --git a/internal/ins/type_chain.go b/internal/ins/type_chain.go
index f8537e0..7621be7 100644
--- a/internal/ins/type_chain.go
+++ b/internal/ins/type_chain.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/prs"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/tok"
+	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/val"
 )
 
 // appliedTypes contains types which bodies are currently being applied.
@@ -29,6 +30,57 @@ func checkRecursion(typeChain []prs.Functionality) error {
 	return nil
 }
 
+// evaluatedExpr is an expression which has been already evaluated.
+type evaluatedExpr struct {
+	v val.Value
+}
+
+func (ee evaluatedExpr) Eval() (val.Value, error) { return ee.v, nil }
+
+// bindArgs binds arguments passed to the types in the type chain.
+// Arguments must be bound from the instantiation to the base type,
+// as arguments passed to the type might depend on parameters of the derived type.
+// The returned function restores previously bound arguments.
+func bindArgs(typeChain []prs.Functionality) (func(), error) {
+	prev := make([]map[string]*prs.Const, len(typeChain))
+	for i, typ := range typeChain {
+		prev[i] = typ.BoundArgs()
+	}
+
+	restore := func() {
+		for i, typ := range typeChain {
+			typ.SetBoundArgs(prev[i])
+		}
+	}
+
+	for i := len(typeChain) - 2; i >= 0; i-- {
+		args := map[string]*prs.Const{}
+		for name, expr := range typeChain[i+1].ResolvedArgs() {
+			args[name] = prs.MakeConst(name, expr)
+		}
+		typeChain[i].SetBoundArgs(args)
+
+		evaluated := map[string]*prs.Const{}
+		for name, arg := range args {
+			v, err := arg.Eval()
+			if err != nil {
+				restore()
+				return nil, tok.Error{
+					Msg: fmt.Sprintf(
+						"cannot evaluate argument '%s' of type '%s': %v",
+						name, typeChain[i].Name(), err,
+					),
+					Toks: []tok.Token{typeChain[i+1].Tok()},
+				}
+			}
+			evaluated[name] = prs.MakeConst(name, evaluatedExpr{v})
+		}
+		typeChain[i].SetBoundArgs(evaluated)
+	}
+
+	return restore, nil
+}
+
 func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, bool) {
 	tc := typeChain
 	i := 0
@@ -39,14 +91,7 @@ func typeChainIter(typeChain []prs.Functionality) func() (prs.Functionality, boo
 		if i == len(tc) {
 			return nil, false
 		}
-		resolvedArgs := make(map[string]prs.Expr)
-		if (i+1) < len(tc) && tc[i+1].ResolvedArgs() != nil {
-			resolvedArgs = tc[i+1].ResolvedArgs()
-		}
 		typ := tc[i]
-		if resolvedArgs != nil {
-			typ.SetResolvedArgs(resolvedArgs)
-		}
 		appliedTypes[typ] = true
 		i += 1
 		return typ, true
diff --git a/internal/prs/const.go b/internal/prs/const.go
index b26662c..baa5c2a 100644
--- a/internal/prs/const.go
+++ b/internal/prs/const.go
@@ -22,6 +22,11 @@ type Const struct {
 // It is used to invalidate cached values of constants.
 var argsEpoch uint64 = 1
 
+// MakeConst makes constant with given name and value.
+func MakeConst(name string, value Expr) *Const {
+	return &Const{symbol: symbol{name: name}, Value: value}
+}
+
 // Eval evaluates value of the constant.
 func (c *Const) Eval() (val.Value, error) {
 	if c.cached != nil && c.cacheEpoch == argsEpoch {
diff --git a/internal/prs/func.go b/internal/prs/func.go
index 23a4042..4d7a2b2 100644
--- a/internal/prs/func.go
+++ b/internal/prs/func.go
@@ -12,6 +12,8 @@ type Functionality interface {
 	Params() []Param
 	SetResolvedArgs(args map[string]Expr)
 	ResolvedArgs() map[string]Expr
+	SetBoundArgs(args map[string]*Const)
+	BoundArgs() map[string]*Const
 	Props() PropContainer
 	Symbols() []Symbol
 }
diff --git a/internal/prs/inst.go b/internal/prs/inst.go
index b3992f8..df91435 100644
--- a/internal/prs/inst.go
+++ b/internal/prs/inst.go
@@ -33,10 +33,6 @@ func (i *Inst) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := i.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
-	}
-
 	return i.scope.GetConst(name)
 }
 
@@ -61,6 +57,8 @@ func (i *Inst) GetType(name string) (*Type, error) {
 func (i Inst) Args() []Arg                         { return i.argList.Args }
 func (i *Inst) SetResolvedArgs(ra map[string]Expr) { i.resolvedArgs = ra }
 func (i Inst) ResolvedArgs() map[string]Expr       { return i.resolvedArgs }
+func (i *Inst) SetBoundArgs(ba map[string]*Const)  {}
+func (i Inst) BoundArgs() map[string]*Const        { return nil }
 func (i Inst) Props() PropContainer                { return i.props }
 func (i Inst) Symbols() []Symbol                   { return i.symbolContainer.Symbols() }
 
diff --git a/internal/prs/type.go b/internal/prs/type.go
index fb2c8c4..31152f4 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -17,7 +17,8 @@ type Type struct {
 
 	params       []Param
 	args         ArgList
-	resolvedArgs map[string]Expr
+	resolvedArgs map[string]Expr   // Arguments passed to the ancestor type
+	boundArgs    map[string]*Const // Current values of type parameters
 
 	props PropContainer
 	symbolContainer
@@ -29,8 +30,8 @@ func (t *Type) GetConst(name string) (*Const, error) {
 		return sym, nil
 	}
 
-	if v, ok := t.resolvedArgs[name]; ok {
-		return &Const{Value: v}, nil
+	if c, ok := t.boundArgs[name]; ok {
+		return c, nil
 	}
 
 	return t.scope.GetConst(name)
@@ -60,11 +61,18 @@ func (t Type) Args() []Arg                         { return t.args.Args }
 func (t Type) Params() []Param                     { return t.params }
 func (t *Type) SetResolvedArgs(ra map[string]Expr) { t.resolvedArgs = ra }
 func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
+func (t Type) BoundArgs() map[string]*Const        { return t.boundArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
 func (t Type) IsArray() bool                       { return false }
 func (t Type) Count() Expr                         { return t.count }
 
+// SetBoundArgs sets current values of type parameters.
+func (t *Type) SetBoundArgs(ba map[string]*Const) {
+	argsEpoch++
+	t.boundArgs = ba
+}
+
 func (t Type) File() *File {
 	if t.file != nil {
 		return t.file
-- 
2.43.0


From 4012910f4b47c9bd7424a6d79e8032593eefcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 41/61] fix: report missing, unknown and redundant type
 arguments

---
 internal/ins/args.go | 45 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/internal/ins/args.go b/internal/ins/args.go
index 69b201d..b839508 100644
--- a/internal/ins/args.go
+++ b/internal/ins/args.go
@@ -63,6 +63,11 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	params := typeSymbol.Params()
 
+	err = checkArgs(symbol.Type(), args, params)
+	if err != nil {
+		return nil, err
+	}
+
 	var argName string
 	var argHasName bool
 	for i, p := range params {
@@ -114,3 +119,43 @@ func resolveArgs(symbol prs.Functionality) (map[string]prs.Expr, error) {
 
 	return resolvedArgs, nil
 }
+
+// checkArgs checks whether every argument matches exactly one parameter
+// and whether there is an argument for every parameter without default value.
+func checkArgs(typ string, args []prs.Arg, params []prs.Param) error {
+	if len(args) > len(params) {
+		return fmt.Errorf(
+			"too many arguments for type '%s', got %d, type has %d parameters",
+			typ, len(args), len(params),
+		)
+	}
+
+	provided := make([]bool, len(params))
+	for i, arg := range args {
+		idx := i
+		if arg.Name != "" {
+			idx = -1
+			for j, p := range params {
+				if p.Name == arg.Name {
+					idx = j
+				}
+			}
+		}
+
+		if idx == -1 {
+			return fmt.Errorf("type '%s' has no parameter '%s'", typ, arg.Name)
+		}
+		if provided[idx] {
+			return fmt.Errorf("reassignment to '%s' argument", params[idx].Name)
+		}
+		provided[idx] = true
+	}
+
+	for i, p := range params {
+		if !provided[i] && p.DfltValue == nil {
+			return fmt.Errorf("missing argument '%s' for type '%s'", p.Name, typ)
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 7c99de8f8579ffb4edd12448c3e6bd16f8e18331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 42/61] fix: instantiate array types as arrays

---
 internal/ins/common.go | 14 ++++++++++++--
 internal/prs/type.go   |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index 6da4cc6..842535e 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -23,9 +23,19 @@ func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
 	isArray := false
 	count := int64(1)
 
-	if inst.IsArray() {
+	for _, typ := range typeChain {
+		if !typ.IsArray() {
+			continue
+		}
+		if isArray {
+			return fn.Func{}, tok.Error{
+				Msg:  fmt.Sprintf("cannot set array size of '%s' as it is already set in one of ancestor types", typ.Name()),
+				Toks: []tok.Token{typ.Tok()},
+			}
+		}
+
 		isArray = true
-		v, err := inst.Count().Eval()
+		v, err := typ.Count().Eval()
 		if err != nil {
 			return fn.Func{}, fmt.Errorf("%v", err)
 		}
diff --git a/internal/prs/type.go b/internal/prs/type.go
index 31152f4..56d8bdd 100644
--- a/internal/prs/type.go
+++ b/internal/prs/type.go
@@ -64,7 +64,7 @@ func (t Type) ResolvedArgs() map[string]Expr       { return t.resolvedArgs }
 func (t Type) BoundArgs() map[string]*Const        { return t.boundArgs }
 func (t Type) Props() PropContainer                { return t.props }
 func (t Type) Symbols() []Symbol                   { return t.symbolContainer.Symbols() }
-func (t Type) IsArray() bool                       { return false }
+func (t Type) IsArray() bool                       { return t.count != nil }
 func (t Type) Count() Expr                         { return t.count }
 
 // SetBoundArgs sets current values of type parameters.
-- 
2.43.0


From 46a5d01761fdec54c99cf9e32c4f1eba9117b9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 43/61] fix: take main bus width from the whole type chain,
 reject main that is not a bus and do not instantiate types

---
 internal/ins/ins.go | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 7164185..9b01e07 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -18,9 +18,31 @@ const dfltBusWidth int64 = 32
 var busWidth int64
 
 func setBusWidth(main *prs.Inst) error {
-	prop, ok := main.Props().Get("width")
+	busWidth = dfltBusWidth
+
+	typeChain := resolveToBaseType(main)
+	if typeChain[0].Type() != "bus" {
+		return tok.Error{
+			Msg:  fmt.Sprintf("main bus '%s' is not of base type 'bus'", main.Name()),
+			Toks: []tok.Token{main.Tok()},
+		}
+	}
+
+	restoreArgs, err := bindArgs(typeChain)
+	if err != nil {
+		return err
+	}
+	defer restoreArgs()
+
+	var prop prs.Prop
+	ok := false
+	for _, typ := range typeChain {
+		prop, ok = typ.Props().Get("width")
+		if ok {
+			break
+		}
+	}
 	if !ok {
-		busWidth = dfltBusWidth
 		return nil
 	}
 
@@ -41,6 +63,13 @@ func setBusWidth(main *prs.Inst) error {
 		)
 	}
 
+	if busWidth < 1 {
+		return tok.Error{
+			Msg:  fmt.Sprintf("main bus 'width' property must be positive, current value %d", busWidth),
+			Toks: []tok.Token{prop.ValueTok},
+		}
+	}
+
 	return nil
 }
 
@@ -53,12 +82,12 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 	log.Printf("debug: instantiating '%s' as the main bus", mainName)
 
-	err = setBusWidth(main)
+	err = resolveArgLists(packages)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
 
-	err = resolveArgLists(packages)
+	err = setBusWidth(main)
 	if err != nil {
 		log.Fatalf("%v", err)
 	}
@@ -69,7 +98,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 		for _, pkg := range pkgs {
 			for _, symbol := range pkg.Symbols() {
 				name := symbol.Name()
-				prsFn, ok := symbol.(prs.Functionality)
+				prsFn, ok := symbol.(*prs.Inst)
 				if !ok {
 					continue
 				}
-- 
2.43.0


From 137d0f97fadec29eae15d9edec38eb2718e85f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 44/61] fix: reject instantiation of derived functionalities at
 package level

---
 internal/ins/ins.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 9b01e07..ea41b32 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -197,6 +197,16 @@ func checkNesting(typeChain []prs.Functionality) error {
 		}
 	}
 
+	if file, ok := inst.Scope().(*prs.File); ok && (baseType != "bus" || file.Pkg.Name != "main") {
+		return tok.Error{
+			Msg: fmt.Sprintf(
+				"'%s' of base type '%s' cannot be instantiated at level of package '%s'",
+				inst.Name(), baseType, file.Pkg.Name,
+			),
+			Toks: []tok.Token{inst.Tok()},
+		}
+	}
+
 	for _, typ := range typeChain {
 		for _, sym := range typ.Symbols() {
 			inner, ok := sym.(*prs.Inst)
-- 
2.43.0


From fffebf6f20d8844eb227c33a51310446b9c10a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 45/61] fix: place irq enable bit within the register on a one
 bit wide bus

---
 internal/reg/irq.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/reg/irq.go b/internal/reg/irq.go
index e08e032..5656abf 100644
--- a/internal/reg/irq.go
+++ b/internal/reg/irq.go
@@ -34,7 +34,13 @@ func regIrqSingle(irq *fn.Irq, addr int64, gp *gap.Pool) int64 {
 
 	irq.Access = types.MakeSingleAccess(addr, 0, 1)
 	if irq.AddEnable {
-		irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		if busWidth > 1 {
+			irq.EnableAccess = types.MakeSingleAccess(addr, 1, 1)
+		} else {
+			// There is no place for the enable bit in the irq register.
+			addr++
+			irq.EnableAccess = types.MakeSingleAccess(addr, 0, 1)
+		}
 		addr++
 	}
 	if irq.Clear == "Explicit" {
-- 
2.43.0


From bc8cb02faf0826ee27f30d713b8a8e37157a4292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:43 +0000
Subject: [PATCH 46/61] fix: reject bus instantiated in functionalities without
 inner functionalities

---
 internal/ins/common.go |  1 +
 internal/ins/ins.go    | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/ins/common.go b/internal/ins/common.go
index 842535e..79db4b3 100644
--- a/internal/ins/common.go
+++ b/internal/ins/common.go
@@ -12,6 +12,7 @@ import (
 const propAlreadySetMsg string = "%s: cannot set '%s' property as it is already set in one of ancestor types"
 const propConflictMsg string = "%s: cannot set '%s' property because '%s' property is already set in one of ancestor types"
 const invalidInnerTypeMsg string = "'%s' of base type '%s' cannot be instantiated in functionality of base type '%s'"
+const busNotAtPkgLevelMsg string = "'%s' of base type 'bus' can be instantiated only at package level"
 const funcWithNameAlreadyInstMsg string = "cannot instantiate '%s', functionality with such name is already instantiated in one of ancestor types"
 
 func makeFunctionality(typeChain []prs.Functionality) (fn.Func, error) {
diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index ea41b32..7235d43 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -192,7 +192,7 @@ func checkNesting(typeChain []prs.Functionality) error {
 
 	if _, ok := inst.Scope().(*prs.File); baseType == "bus" && !ok {
 		return tok.Error{
-			Msg:  fmt.Sprintf("'%s' of base type 'bus' can be instantiated only at package level", inst.Name()),
+			Msg:  fmt.Sprintf(busNotAtPkgLevelMsg, inst.Name()),
 			Toks: []tok.Token{inst.Tok()},
 		}
 	}
@@ -215,7 +215,13 @@ func checkNesting(typeChain []prs.Functionality) error {
 			}
 
 			innerType := resolveToBaseType(inner)[0].Type()
-			if innerType != "bus" && !util.IsValidInnerType(innerType, baseType) {
+			if innerType == "bus" {
+				return tok.Error{
+					Msg:  fmt.Sprintf(busNotAtPkgLevelMsg, inner.Name()),
+					Toks: []tok.Token{inner.Tok()},
+				}
+			}
+			if !util.IsValidInnerType(innerType, baseType) {
 				return tok.Error{
 					Msg:  fmt.Sprintf(invalidInnerTypeMsg, inner.Name(), innerType, baseType),
 					Toks: []tok.Token{inner.Tok()},
-- 
2.43.0


From 31810cdbe07df81dd454821874777321253d84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:44 +0000
Subject: [PATCH 47/61] fix: name the file in which main bus width is set in
 width errors

---
 internal/ins/ins.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 7235d43..2c3b54e 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -35,10 +35,12 @@ func setBusWidth(main *prs.Inst) error {
 	defer restoreArgs()
 
 	var prop prs.Prop
+	var file *prs.File
 	ok := false
 	for _, typ := range typeChain {
 		prop, ok = typ.Props().Get("width")
 		if ok {
+			file = typ.File()
 			break
 		}
 	}
@@ -50,7 +52,7 @@ func setBusWidth(main *prs.Inst) error {
 	if err != nil {
 		return fmt.Errorf(
 			"%s:%s: cannot evaluate main bus 'width' property",
-			main.File().Path, prop.Loc(),
+			file.Path, prop.Loc(),
 		)
 	}
 
@@ -59,7 +61,7 @@ func setBusWidth(main *prs.Inst) error {
 	} else {
 		return fmt.Errorf(
 			"%s:%s: main bus 'width' property must be of integer type, current type %s",
-			main.File().Path, prop.Loc(), v.Type(),
+			file.Path, prop.Loc(), v.Type(),
 		)
 	}
 
-- 
2.43.0


From 2056a666ac6396aeeb6e99f1488b2aeaaac3a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 48/61] fix: report failure to create constants file instead of
 panicking

---
 cmd/fbdl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index dbaccc3..74bb821 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -54,7 +54,7 @@ func main() {
 	if args.DumpConsts != "" {
 		f, err := os.Create(args.DumpConsts)
 		if err != nil {
-			panic(err)
+			log.Fatalf("dump packages constants: %v", err)
 		}
 
 		byteArray, err := json.MarshalIndent(pkgsConsts, "", "  ")
-- 
2.43.0


From 4488a23e2c2ebe72a7a756255c131602855c5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:39 +0000
Subject: [PATCH 49/61] fix: report failure to write results to standard output

---
 cmd/fbdl/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index 74bb821..0ab4195 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -78,5 +78,8 @@ func main() {
 	if err != nil {
 		log.Fatalf("marshal registerification results: %v", err)
 	}
-	fmt.Printf("%s", string(jsonBytes))
+	_, err = os.Stdout.Write(jsonBytes)
+	if err != nil {
+		log.Fatalf("write registerification results: %v", err)
+	}
 }
-- 
2.43.0


From e914a67fbb10cbecdf9aac11ea0d9db38a3f4db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 50/61] fix: do not apply width of the main bus to other buses
 in the same file

---
 internal/ins/ins.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/ins/ins.go b/internal/ins/ins.go
index 2c3b54e..c478db5 100644
--- a/internal/ins/ins.go
+++ b/internal/ins/ins.go
@@ -95,6 +95,7 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 	}
 
 	var mainBus *fn.Block
+	mainBusWidth := busWidth
 
 	for pkgName, pkgs := range packages {
 		for _, pkg := range pkgs {
@@ -109,7 +110,16 @@ func Instantiate(packages prs.Packages, mainName string) (*fn.Block, map[string]
 					continue
 				}
 
+				if prsFn != main && resolveToBaseType(prsFn)[0].Type() == "bus" {
+					// The width of the main bus does not apply to other buses.
+					err = setBusWidth(prsFn)
+					if err != nil {
+						log.Fatalf("%v", err)
+					}
+				}
+
 				f := insFunctionality(prsFn)
+				busWidth = mainBusWidth
 
 				if pkgName == "main" && name == mainName {
 					mainBus = f.(*fn.Block)
-- 
2.43.0


From e40fc39ce8fe545ace14908d2cc970ecef0f99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 51/61] fix: do not join comments separated by empty lines into
 documentation

---
 internal/ast/const.go |  6 ++++++
 internal/ast/doc.go   | 13 ++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/ast/const.go b/internal/ast/const.go
index 9d41de7..4f51240 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -72,6 +72,9 @@ tokenLoop:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
 				con.Name = t
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				state = Ass
 			case tok.Comment:
 				con.Doc = buildDoc(ctx)
@@ -100,6 +103,9 @@ tokenLoop:
 			switch t := ctx.tok().(type) {
 			case tok.Ident:
 				con.Name = t
+				if con.Doc.endLine() != t.Line()-1 {
+					con.Doc = Doc{}
+				}
 				state = Ass
 			case tok.Comment:
 				doc := buildDoc(ctx)
diff --git a/internal/ast/doc.go b/internal/ast/doc.go
index f0eef2d..7460b24 100644
--- a/internal/ast/doc.go
+++ b/internal/ast/doc.go
@@ -38,23 +38,22 @@ func (d Doc) Text(src []byte) string {
 	return text
 }
 
+// buildDoc builds documentation comment from the adjacent comment lines.
+// A comment separated by an empty line belongs to the next documentation comment.
 func buildDoc(ctx *context) Doc {
 	doc := Doc{}
 	doc.Lines = append(doc.Lines, ctx.tok().(tok.Comment))
 
-	prevNewline := false
 	for {
 		ctx.idx++
 		switch t := ctx.tok().(type) {
 		case tok.Newline:
-			if prevNewline {
-				break
-			} else {
-				prevNewline = true
-			}
+			// Multiple newlines are collapsed into one token.
 		case tok.Comment:
+			if t.Line() > doc.endLine()+1 {
+				return doc
+			}
 			doc.Lines = append(doc.Lines, t)
-			prevNewline = false
 		default:
 			return doc
 		}
-- 
2.43.0


From 4d92ce8037af3dba48db751d0826806842588dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:52 +0000
Subject: [PATCH 52/61] fix: refuse virtual set on a group whose base type has
 irqs, params or returns

---
 internal/ins/group.go        |  6 ++++++
 internal/util/group/group.go | 25 +++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/internal/ins/group.go b/internal/ins/group.go
index 16e7c2f..52f7086 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -85,6 +85,12 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 
 			grp.Virtual = bool(v.(val.Bool))
 			diary.virtualSet = true
+			if err := group.CheckVirtual(grp); err != nil {
+				return tok.Error{
+					Msg:  fmt.Sprintf("%v", err),
+					Toks: []tok.Token{p.ValueTok},
+				}
+			}
 		default:
 			panic(fmt.Sprintf("unhandled '%s' property", p.Name))
 		}
diff --git a/internal/util/group/group.go b/internal/util/group/group.go
index d1cc27c..3335abe 100644
--- a/internal/util/group/group.go
+++ b/internal/util/group/group.go
@@ -60,6 +60,31 @@ func IsEmpty(grp fn.Group) bool {
 	return true
 }
 
+// CheckVirtual checks that a group which has been made virtual
+// does not already have any inner elements forbidden in a virtual group.
+// The elements might come from the group base type.
+func CheckVirtual(grp *fn.Group) error {
+	if !grp.Virtual {
+		return nil
+	}
+
+	var f fn.Functionality
+	if len(grp.Irqs) > 0 {
+		f = grp.Irqs[0]
+	} else if len(grp.Params) > 0 {
+		f = grp.Params[0]
+	} else if len(grp.Returns) > 0 {
+		f = grp.Returns[0]
+	} else {
+		return nil
+	}
+
+	return fmt.Errorf(
+		"cannot make group '%s' with %s '%s' virtual, virtual %s group makes no sense",
+		grp.Name, f.Type(), f.GetName(), f.Type(),
+	)
+}
+
 func cantAddErrMsg(g *fn.Group, f1, f2 fn.Functionality) error {
 	return fmt.Errorf(
 		"cannot add %s '%s' to group '%s', group already has %s '%s'",
-- 
2.43.0


From fa47d4e69d9d0289520e3e8d829fb3cedf99bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:52 +0000
Subject: [PATCH 53/61] fix: do not panic on package paths which cannot be read
 as directories

---
 internal/prs/pre.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/prs/pre.go b/internal/prs/pre.go
index d3d9aad..4fd55a0 100644
--- a/internal/prs/pre.go
+++ b/internal/prs/pre.go
@@ -71,8 +71,9 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 	visitedDirs[dirID] = struct{}{}
 
 	dirEntires, err := os.ReadDir(dirPath)
+	// If path is not a directory, or directory cannot be read, just ignore it.
 	if err != nil {
-		panic(err)
+		return
 	}
 
 	base := filepath.Base(dirPath)
@@ -84,7 +85,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 		dePath := filepath.Join(dirPath, de.Name())
 		fileInfo, err := os.Lstat(dePath)
 		if err != nil {
-			panic(err)
+			continue
 		}
 		if fileInfo.Mode()&os.ModeSymlink != 0 {
 			dePath, err = filepath.EvalSymlinks(dePath)
@@ -96,7 +97,7 @@ func findPkgsInDir(dirPath string, pkgs Packages, visitedDirs map[util.DirID]str
 
 		fileInfo, err = os.Stat(dePath)
 		if err != nil {
-			panic(err)
+			continue
 		}
 
 		if fileInfo.IsDir() {
-- 
2.43.0


From e284592f7b16cf8c7768abd42b9c9fdcec38beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:02 +0000
Subject: [PATCH 54/61] fix: print errors of files with names starting with
 debug

---
 cmd/fbdl/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/fbdl/main.go b/cmd/fbdl/main.go
index 0ab4195..dbe7ac1 100644
--- a/cmd/fbdl/main.go
+++ b/cmd/fbdl/main.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"strings"
 
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/args"
 	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/ins"
@@ -19,7 +20,8 @@ type Logger struct{}
 func (l Logger) Write(p []byte) (int, error) {
 	print := true
 
-	if len(p) > 4 && string(p)[:5] == "debug" {
+	// Path of a file may start a message too, so "debug" alone is not enough.
+	if strings.HasPrefix(string(p), "debug: ") {
 		print = printDebug
 	}
 
-- 
2.43.0


From 783a5578c1ba4c4c93aa34efa8fdcbbee2a6ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:46 +0000
Subject: [PATCH 55/61] fix: compute register counts of huge arrays without
 floats

---
 pkg/fbdl/types/access.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/fbdl/types/access.go b/pkg/fbdl/types/access.go
index 3f207b4..46f6491 100644
--- a/pkg/fbdl/types/access.go
+++ b/pkg/fbdl/types/access.go
@@ -2,7 +2,6 @@ package types
 
 import (
 	"fmt"
-	"math"
 )
 
 // Access struct represents information required to access a given functionality.
@@ -195,9 +194,9 @@ func MakeArrayNRegsAccess(itemCount, startAddr, startBit, width int64) Access {
 	totalWidth := itemCount * width
 	firstRegWidth := busWidth - startBit
 
-	regCount := int64(math.Ceil((float64(totalWidth)-float64(firstRegWidth))/float64(busWidth))) + 1
-	if regCount < 1 {
-		regCount = 1
+	regCount := int64(1)
+	if totalWidth > firstRegWidth {
+		regCount = (totalWidth-firstRegWidth-1)/busWidth + 2
 	}
 	endBit := (startBit + itemCount*width - 1) % busWidth
 
@@ -288,7 +287,7 @@ func MakeArrayNInRegMInEndRegAccess(itemCount, startAddr, width int64) Access {
 		panic("itemsInEndReg = 0, use ArrayNInReg")
 	}
 
-	regCount := int64(math.Ceil(float64(itemCount) / float64(itemsInReg)))
+	regCount := itemCount/itemsInReg + 1
 
 	return Access{
 		Type:          "ArrayNInRegMInEndReg",
-- 
2.43.0


From a2acc809a09bbbe1818171a4d7817de6f345f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:48 +0000
Subject: [PATCH 56/61] fix: refuse buses too large to be addressed

---
 internal/reg/reg.go  |  1 +
 internal/reg/size.go | 94 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 95 insertions(+)
 create mode 100644 internal/reg/size.go

diff --git a/internal/reg/reg.go b/internal/reg/reg.go
index dd20b79..f9aba32 100644
--- a/internal/reg/reg.go
+++ b/internal/reg/reg.go
@@ -20,6 +20,7 @@ func Registerify(bus *fn.Block, addTimestamp bool) {
 	busAlign = bus.Align
 	busWidth = bus.Width
 	types.Init(busWidth)
+	checkSize(bus)
 
 	// addr is currently block internal access address, not global address.
 	// 0 is reserved for ID, even if ID is not generated.
diff --git a/internal/reg/size.go b/internal/reg/size.go
new file mode 100644
index 0000000..58ca781
--- /dev/null
+++ b/internal/reg/size.go
@@ -0,0 +1,94 @@
+package reg
+
+import (
+	"log"
+	"math"
+	"math/bits"
+
+	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/fn"
+)
+
+// checkSize exits if bits or registers of the bus cannot be counted using the int64 type.
+// Sizes are summed as floats, because unlike integers they do not silently overflow.
+func checkSize(bus *fn.Block) {
+	// Margin is left for the ID, the timestamp, and the alignment.
+	if blockSize(bus) > 1<<60 {
+		log.Fatalf("address space of bus '%s' is too large", bus.Name)
+	}
+}
+
+// blockSize returns upper bound for the aligned size of the block.
+func blockSize(blk *fn.Block) float64 {
+	own := float64(0)
+
+	add := func(f *fn.Func, width int64) {
+		hi, lo := bits.Mul64(uint64(f.Count), uint64(width))
+		if f.IsArray && (hi > 0 || lo > uint64(math.MaxInt64-busWidth)) {
+			log.Fatalf("array '%s' is too large", f.Name)
+		}
+		own += float64(f.Count)*math.Ceil(float64(width)/float64(busWidth)) + 1
+	}
+
+	for _, c := range blk.Configs {
+		add(&c.Func, c.Width)
+	}
+	for _, m := range blk.Masks {
+		add(&m.Func, m.Width)
+	}
+	for _, s := range blk.Statics {
+		add(&s.Func, s.Width)
+	}
+	for _, s := range blk.Statuses {
+		add(&s.Func, s.Width)
+	}
+	for _, p := range blk.Procs {
+		own++
+		for _, p := range p.Params {
+			add(&p.Func, p.Width)
+		}
+		for _, r := range p.Returns {
+			add(&r.Func, r.Width)
+		}
+	}
+	for _, s := range blk.Streams {
+		own++
+		for _, p := range s.Params {
+			add(&p.Func, p.Width)
+		}
+		for _, r := range s.Returns {
+			add(&r.Func, r.Width)
+		}
+	}
+	// Status, enable and clear.
+	own += 3 * float64(len(blk.Irqs))
+
+	subblocks := float64(0)
+	for _, sb := range blk.Subblocks {
+		subblocks += float64(sb.Count) * blockSize(sb)
+	}
+
+	align := blk.Align
+	if align == 0 {
+		align = busAlign
+	}
+	if align > 0 {
+		return own + subblocks + float64(align)
+	}
+	size := floatToPowerOf2(own)
+	if subblocks > 0 && size > 0 {
+		// Do not let the sum be rounded down to the size of subblocks.
+		size = math.Nextafter(size+subblocks, math.Inf(1))
+	} else {
+		size += subblocks
+	}
+	return floatToPowerOf2(size)
+}
+
+// floatToPowerOf2 rounds x up to the power of 2.
+func floatToPowerOf2(x float64) float64 {
+	frac, exp := math.Frexp(x)
+	if x == 0 || frac == 0.5 {
+		return x
+	}
+	return math.Ldexp(1, exp)
+}
-- 
2.43.0


From 8641339516441776f119634525ae6e94468b5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:40 +0000
Subject: [PATCH 57/61] fix: reject constants of any type defined twice in a
 type chain

---
 internal/ins/block.go                         | 10 +++++---
 internal/ins/group.go                         |  6 +++--
 .../util/constContainer/constContainer.go     | 24 -------------------
 3 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/internal/ins/block.go b/internal/ins/block.go
index d4e81e6..7d4cb54 100644
--- a/internal/ins/block.go
+++ b/internal/ins/block.go
@@ -26,13 +26,15 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	blk := fn.Block{}
 	blk.Func = f
 
+	consts := map[string]bool{}
+
 	tci := typeChainIter(typeChain)
 	for {
 		typ, ok := tci()
 		if !ok {
 			break
 		}
-		err := applyBlockType(&blk, typ, typeChain[0].Type())
+		err := applyBlockType(&blk, typ, typeChain[0].Type(), consts)
 		if err != nil {
 			return nil, fmt.Errorf("%v", err)
 		}
@@ -43,7 +45,8 @@ func insBlock(typeChain []prs.Functionality) (*fn.Block, error) {
 	return &blk, nil
 }
 
-func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error {
+// The consts are names of constants defined in already applied types.
+func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string, consts map[string]bool) error {
 	for _, p := range typ.Props() {
 		if err := util.IsValidProperty(p.Name, baseType); err != nil {
 			return fmt.Errorf(": %v", err)
@@ -86,11 +89,12 @@ func applyBlockType(blk *fn.Block, typ prs.Functionality, baseType string) error
 
 	for _, s := range typ.Symbols() {
 		if c, ok := s.(*prs.Const); ok {
-			if constContainer.HasConst(blk.Consts, c.Name()) {
+			if consts[c.Name()] {
 				return fmt.Errorf(
 					"const '%s' is already defined in one of ancestor types", c.Name(),
 				)
 			}
+			consts[c.Name()] = true
 
 			val, err := c.Eval()
 			if err != nil {
diff --git a/internal/ins/group.go b/internal/ins/group.go
index 52f7086..a36bf93 100644
--- a/internal/ins/group.go
+++ b/internal/ins/group.go
@@ -15,6 +15,7 @@ import (
 
 type groupDiary struct {
 	virtualSet bool
+	consts     map[string]bool // Names of already defined constants
 }
 
 func insGroup(typeChain []prs.Functionality) (*fn.Group, error) {
@@ -31,7 +32,7 @@ func insGroup(typeChain []prs.Functionality) (*fn.Group, error) {
 	grp := fn.Group{}
 	grp.Func = f
 
-	diary := groupDiary{}
+	diary := groupDiary{consts: map[string]bool{}}
 
 	tci := typeChainIter(typeChain)
 	for {
@@ -98,11 +99,12 @@ func applyGroupType(grp *fn.Group, typ prs.Functionality, diary *groupDiary) err
 
 	for _, sym := range typ.Symbols() {
 		if c, ok := sym.(*prs.Const); ok {
-			if constContainer.HasConst(grp.Consts, c.Name()) {
+			if diary.consts[c.Name()] {
 				return fmt.Errorf(
 					"const '%s' is already defined in one of ancestor types", c.Name(),
 				)
 			}
+			diary.consts[c.Name()] = true
 
 			val, err := c.Eval()
 			if err != nil {
diff --git a/internal/util/constContainer/constContainer.go b/internal/util/constContainer/constContainer.go
index 30bf986..2b7ee8d 100644
--- a/internal/util/constContainer/constContainer.go
+++ b/internal/util/constContainer/constContainer.go
@@ -5,30 +5,6 @@ import (
 	"github.com/Functional-Bus-Description-Language/go-fbdl/pkg/fbdl/cnst"
 )
 
-// HasConst returns true if container already has constant with given name.
-func HasConst(c cnst.Container, name string) bool {
-	if _, ok := c.Bools[name]; ok {
-		return true
-	}
-	if _, ok := c.BoolLists[name]; ok {
-		return true
-	}
-	if _, ok := c.Floats[name]; ok {
-		return true
-	}
-	if _, ok := c.Ints[name]; ok {
-		return true
-	}
-	if _, ok := c.IntLists[name]; ok {
-		return true
-	}
-	if _, ok := c.Strings[name]; ok {
-		return true
-	}
-
-	return false
-}
-
 // AddConst adds constant to the container.
 // Constants of types that can't be represented in the container are ignored.
 func AddConst(c *cnst.Container, name string, v val.Value) {
-- 
2.43.0


From fffd9744a0b41d059ecafd5ad3b0fafabb27491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 58/61] fix: tell constants of different types apart in the bus
 hash

---
 internal/util/hash/constContainer.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/util/hash/constContainer.go b/internal/util/hash/constContainer.go
index c0562b2..8b80cd3 100644
--- a/internal/util/hash/constContainer.go
+++ b/internal/util/hash/constContainer.go
@@ -9,6 +9,8 @@ import (
 	"golang.org/x/exp/maps"
 )
 
+// Types of constants, and lengths of lists and strings are included,
+// so that constants of different types never give the same bytes.
 func hashConstContainer(c *cnst.Container) uint32 {
 	buf := bytes.Buffer{}
 
@@ -16,6 +18,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys := maps.Keys(c.Bools)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "bool")
 		write(&buf, key)
 		write(&buf, c.Bools[key])
 	}
@@ -24,8 +27,10 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.BoolLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "bool list")
 		write(&buf, key)
 		list := c.BoolLists[key]
+		write(&buf, int64(len(list)))
 		for _, val := range list {
 			write(&buf, val)
 		}
@@ -35,6 +40,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Floats)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "float")
 		write(&buf, key)
 		write(&buf, c.Floats[key])
 	}
@@ -43,6 +49,7 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Ints)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "int")
 		write(&buf, key)
 		write(&buf, c.Ints[key])
 	}
@@ -51,8 +58,10 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.IntLists)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "int list")
 		write(&buf, key)
 		list := c.IntLists[key]
+		write(&buf, int64(len(list)))
 		for _, val := range list {
 			write(&buf, val)
 		}
@@ -62,7 +71,9 @@ func hashConstContainer(c *cnst.Container) uint32 {
 	keys = maps.Keys(c.Strings)
 	sort.Strings(keys)
 	for _, key := range keys {
+		write(&buf, "string")
 		write(&buf, key)
+		write(&buf, int64(len(c.Strings[key])))
 		buf.Write([]byte(c.Strings[key]))
 	}
 
-- 
2.43.0


From 3d0acc8176023eefdbf6b8a72def53203f08a4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:41 +0000
Subject: [PATCH 59/61] fix: tell the reset value of an irq enable apart from
 the init value in the bus hash

---
 internal/util/hash/irq.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/util/hash/irq.go b/internal/util/hash/irq.go
index cc0b9b5..313b2fd 100644
--- a/internal/util/hash/irq.go
+++ b/internal/util/hash/irq.go
@@ -23,7 +23,11 @@ func hashIrq(i *fn.Irq) uint32 {
 	buf.Write([]byte(i.EnableInitValue))
 
 	// EnableResetValue
-	buf.Write([]byte(i.EnableResetValue))
+	if i.EnableResetValue != "" {
+		// Tell the reset value apart from the init value.
+		write(&buf, "reset")
+		buf.Write([]byte(i.EnableResetValue))
+	}
 
 	// InTrigger
 	buf.Write([]byte(i.InTrigger))
-- 
2.43.0


From 195f8d3a9eb5be255e7a0e060e9c1947f1abf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:44 +0000
Subject: [PATCH 60/61] fix: accept a comment directly after a number

---
 internal/tok/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tok/utils.go b/internal/tok/utils.go
index ab767cf..54a661c 100644
--- a/internal/tok/utils.go
+++ b/internal/tok/utils.go
@@ -13,7 +13,7 @@ func isHexDigit(b byte) bool {
 // Returns true if character is a valid character after number literal.
 func isValidAfterNumber(b byte) bool {
 	switch b {
-	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&':
+	case ' ', '\t', '\n', '(', ')', ']', '-', '+', '*', '/', '%', '=', '<', '>', ';', ':', ',', '|', '&', '#', '!':
 		return true
 	}
 	return false
-- 
2.43.0


From 93d7fa9da3385445a324e9cff7b70387679c8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:58 +0000
Subject: [PATCH 61/61] fix: give values which can only be zero one bit

---
 pkg/fbdl/types/range.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/fbdl/types/range.go b/pkg/fbdl/types/range.go
index 11ca7df..b4a47c7 100644
--- a/pkg/fbdl/types/range.go
+++ b/pkg/fbdl/types/range.go
@@ -7,7 +7,7 @@ import "math/bits"
 // Check SingleRange and ArrayRange structs documentation for more details.
 type Range interface {
 	isRange()
-	BitWidth() int64 // Returns bit width required to represent the range.
+	BitWidth() int64 // Returns bit width required to represent the range, it is at least one.
 }
 
 // The SingleRange struct represents possible single value range.
@@ -23,7 +23,8 @@ type SingleRange struct {
 func (sr SingleRange) isRange() {}
 
 func (sr SingleRange) BitWidth() int64 {
-	return int64(bits.Len64(uint64(sr.End)))
+	// A value always takes at least one bit, even if it can only be zero.
+	return int64(max(bits.Len64(uint64(sr.End)), 1))
 }
 
 func (sr SingleRange) Shift(offset int64) SingleRange {
-- 
2.43.0

