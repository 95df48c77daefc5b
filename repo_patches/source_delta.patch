From 2a9400f6bd4726a20447c8127ebe1d5f40ce4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 01/23] fix: pattern honours an upper bound of 0 or 1
 occurrence

The bound was only tested after a second occurrence had been accepted, so
e{m,1} matched two occurrences and e{,0} one or more.
---
 parser_pattern.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..197d11c 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -86,6 +86,13 @@ func newPattern(it Ast) *pattern {
 func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
+		if patt.max == 0 {
+			// {,0}: zero occurrence, nothing to match
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		pos := ctx.Code.Pos()
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
@@ -96,7 +103,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +120,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From 0f4870cede6a5895f502726167faed535c987473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 02/23] fix: pattern stops repeating when an occurrence
 consumes nothing

A repetition whose value (and join) can match the empty string never
terminated, e.g. ('a'*)* on any input.
---
 parser_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index 197d11c..96dae94 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -119,6 +119,11 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				// this occurrence consumed nothing: more of them
+				// would match the same way forever
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 8cafcf70a3d9d9039a29d19857bb0b4144527567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 03/23] fix: rule nesting is no longer limited to 1024 levels

The stack of active rules was a fixed array, a deeply nested input such as
2000 opening parentheses crashed the parser.
---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..6c22eeb 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From 585494751be4f45c56abf94136b79b04a5e86be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 04/23] fix: tracing a SkipCache rule that fails does not
 dereference nil

---
 packrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..00fb671 100644
--- a/packrat.go
+++ b/packrat.go
@@ -90,7 +90,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		if x.getRule().skipCache {
 			result := fparse(ctx)
 			if showLog {
-				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
+				s := "nil"
+				if result != nil {
+					s = helpers.Escape(result.String())
+				}
+				ctx.log(Cyan("`->:")+" "+s+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
 		}
-- 
2.43.0


From 3612a15cc161c88e9b90295625959c6ef3457fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 05/23] fix: pop the loop trace stack only when it was pushed

With TRACE=loop,line=N the push is conditional on the line while the pop
was not, which crashed on left recursive rules.
---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 00fb671..1873801 100644
--- a/packrat.go
+++ b/packrat.go
@@ -150,7 +150,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					traceLoop := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if traceLoop {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -201,7 +202,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if traceLoop {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From e19ac3c850e07251227f61479769213bd0b1bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 06/23] fix: Debug{true} given to one parse does not alter the
 grammar

The stack trace was toggled on the TraceOptions of the grammar and left
enabled when a callback panicked.
---
 grammar.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..0afd239 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,18 +106,16 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
-	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
-		// temporarily enable stack tracing
-		gm.TraceOptions.Stack = true
+		// enable stack tracing for this parse only
+		ctx.TraceOptions = ctx.TraceOptions.Copy()
+		ctx.TraceOptions.Stack = true
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From 907aef966c05f7336d1494b4e3559ef37fbdd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 07/23] fix: sequence does not modify the memoized map of its
 child

With a child labelled @ or & the map produced by the child was extended in
place. That map is cached and may be returned again to another alternative,
which then saw keys of an alternative that had been abandoned.
---
 parser_sequence.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..49ae9aa 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -161,6 +161,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		label := child.getRule().label
 		switch label {
 		case "&":
+			res = ownedMap(res)
 			if IsUndefined(results) {
 				results = res
 			} else {
@@ -168,7 +169,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 			}
 		case "@":
 			if IsUndefined(results) {
-				results = res
+				results = ownedMap(res)
 			} else {
 				results = merge(results, res)
 			}
@@ -204,6 +205,21 @@ func (seq *sequence) forEachChild(f func(Parser) Parser) Parser {
 	return seq
 }
 
+// The result of a child may be memoized and returned again at this position,
+// so a map is copied before a sequence gets to add its own keys to it.
+func ownedMap(res Ast) Ast {
+	m, isMap := res.(*NativeMap)
+	if !isMap {
+		return res
+	}
+	owned := NewEmptyNativeMap()
+	owned.SetOrigin(m.GetOrigin())
+	for _, k := range m.Keys() {
+		owned.Set(k, m.GetOrPanic(k))
+	}
+	return owned
+}
+
 // Port of lib/helpers.js:extend() in a less general way (Ast-specific)
 // Extend a source object with the properties of a newcomer object (shallow copy).
 // The modified `toExtend` object is returned.
-- 
2.43.0


From 38a3f076608cba176a53190337ed9e237456e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 08/23] fix: coordinates of a position in the last token

The offset in the last token was computed from the token before it, so that
lines and columns reported there were wrong.
---
 codestream_token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..ad9fa74 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -305,16 +305,16 @@ func (code *TokenStream) coords(workOffset int) coord {
 	// find most advanced token number, such that the following token would begin
 	// after workOffset.
 	nToken := 0
-	var token Token
+	token := code.tokens[0]
 	for {
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
 		nToken++
+		token = code.tokens[nToken]
 	}
 	if nToken >= len(code.tokens) {
 		panic(fmt.Sprintf("nToken=%d goes beyond len(code.tokens)=%d\n"+
-- 
2.43.0


From 5c67b9afbe936cd166a7132530b02e6a0b21804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 09/23] fix: TokenStreamFromGoCode reports scan errors

Errors were only looked at before the first token was scanned, so that
invalid code was accepted silently; they also accumulated in a global which
made a later call panic.
---
 codestream_token.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index ad9fa74..4a12ec6 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -331,13 +331,6 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
@@ -345,13 +338,11 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
-	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
 	}
+	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -391,6 +382,10 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	// errors are collected while scanning
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From 5e42c1487eadbc9143a906170beb887e9df149bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 10/23] fix: NativeMap.IsEmpty was inverted

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..c4a58bc 100644
--- a/native_map.go
+++ b/native_map.go
@@ -75,10 +75,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From 36fc7d19cb38e941584cb0be9e593ae98d7a2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 11/23] fix: a grammar failing on an empty input returns a
 ParseError

It returned nil, which IsParseError() does not take for an error.
---
 grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 0afd239..aa77843 100644
--- a/grammar.go
+++ b/grammar.go
@@ -116,8 +116,8 @@ func (gm *Grammar) parse(ctx *ParseContext) Ast {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// if parse is incomplete, compute error message
-	if ctx.Code.Pos() != ctx.Code.workLength() {
+	// if parse failed or is incomplete, compute error message
+	if result == nil || ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
 		maxAttempt := ctx.Code.Pos()
 		maxSuccess := ctx.Code.Pos()
-- 
2.43.0


From de5ea968042c2399a329c2fda9b8800fb97723cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 12/23] fix: RuneStream.PeekLines() without argument peeks the
 current line

As documented by CodeStream, and as TokenStream does.
---
 codestream_rune.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..9f28be2 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -92,7 +92,7 @@ func (code *RuneStream) PeekRunes(n int) string {
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
 	if len(n) <= 0 {
-		return ""
+		n = []int{0}
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
-- 
2.43.0


From 18b0e175ccdc43b104712bf82ad65a3b229a2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 13/23] fix: PeekLines() of lines that are all out of range
 does not panic

---
 codestream_rune.go  | 3 +++
 codestream_token.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/codestream_rune.go b/codestream_rune.go
index 9f28be2..e4da880 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // no such lines
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index 4a12ec6..46d9417 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // no such lines
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From 0a1a406ec9c8fa0d26d52220ee834854a91e3f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:45 +0000
Subject: [PATCH 14/23] fix: peeking back over invalid UTF-8 does not panic

LastNRunes is what PeekRunes(-n) uses, so that tracing or the error message
of a failed parse crashed on input that contains U+FFFD or is not UTF-8.
---
 helpers/helpers.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..c5c7ade 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// A byte that is not valid UTF-8 counts as 1 rune.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,11 +143,8 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
-		totalSize += csize // csize is char len in bytes for rune c
+		_, csize := utf8.DecodeLastRuneInString(slice)
+		totalSize += csize // csize is char len in bytes for that rune
 		slice = slice[:len(slice)-csize]
 		nTake--
 	}
-- 
2.43.0


From dbed8e5f77f878a981ce91c753d8157ff5cda5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 15/23] fix: lookahead produces NativeUndefined

As documented it does not capture, but the production of the tested element
leaked when the lookahead was labelled or alone in a rule.
---
 parser_lookahead.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_lookahead.go b/parser_lookahead.go
index 8c9bcf8..2cddf6c 100644
--- a/parser_lookahead.go
+++ b/parser_lookahead.go
@@ -36,7 +36,10 @@ func (look *lookahead) parse(ctx *ParseContext) Ast {
 		pos := ctx.Code.Pos()
 		result := look.expr.parse(ctx) // check whether it parses...
 		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
-		return result
+		if result == nil {
+			return nil
+		}
+		return NewNativeUndefined()
 	}, look)(ctx)
 }
 
-- 
2.43.0


From 93047f24f66e5551dc26281f4883d388b8955274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 16/23] fix: keep the labels recorded so far when an element
 labelled & is undefined

An element labelled & whose optional result was undefined took the keys
recorded so far onto the undefined value: the parse panicked.
---
 parser_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 49ae9aa..d535cc7 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -164,7 +164,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 			res = ownedMap(res)
 			if IsUndefined(results) {
 				results = res
-			} else {
+			} else if !IsUndefined(res) {
 				results = merge(res, results)
 			}
 		case "@":
-- 
2.43.0


From c8fed2793198efb2a5d90bdd3142ede9336742c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 17/23] fix: TokenStream.PrintDebug() shows the original text
 around the position

The position in the tokenized text was used as an offset in the original one.
---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 46d9417..542b656 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -274,7 +274,7 @@ func (code *TokenStream) Print() string {
 
 // multiline print, for debugging purposes
 func (code *TokenStream) PrintDebug() string {
-	pos := code.workOffset
+	pos := code.coords(code.workOffset).originalOffset
 	s := "Code at offset " + BoldYellow(strconv.Itoa(pos)) + "/" + BoldYellow(strconv.Itoa(len(code.original))) + ": '"
 	s += Cyan(helpers.SliceString(code.original, helpers.Max(0, pos-20), pos))
 	s += BoldCyan("|")
-- 
2.43.0


From 8287458bb74e13026eb8f72c91484f78b0781fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:49 +0000
Subject: [PATCH 18/23] fix: keep the options given to rank and compiled lines

---
 line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/line.go b/line.go
index 7ab54b4..6efe986 100644
--- a/line.go
+++ b/line.go
@@ -202,6 +202,6 @@ func getRule(
 		panic("assert")
 	}
 	// fmt.Printf(" name=%s attrs rule.rule.Debug=%s rule.Debug=%s attrs.Debug=%s\n", name, reflect.TypeOf(line).String(), rule.Debug, rule.Debug, attrs.Debug)
-	rule.parseOptions.cb = attrs.cb
+	rule.parseOptions = attrs
 	return answer
 }
-- 
2.43.0


From b5229a47d56aeb95823b753c3462261bd766ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 19/23] fix: keep the callback and options of an o line nested
 in a named line

---
 line.go        |  3 ++-
 parseoption.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/line.go b/line.go
index 6efe986..c2bba2f 100644
--- a/line.go
+++ b/line.go
@@ -159,8 +159,9 @@ func getRule(
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
-		v.parseOptions = attrs
+		v.parseOptions = v.parseOptions.extend(attrs)
 		answer = v.toRule(rank_, parentRule, oLineNaming{name: name}, opts, lazyGrammar)
+		attrs = answer.getRule().parseOptions
 		if answer.getRule().name == "" {
 			answer.getRule().name = name
 		}
diff --git a/parseoption.go b/parseoption.go
index 626fbbc..c87c7d8 100644
--- a/parseoption.go
+++ b/parseoption.go
@@ -54,3 +54,15 @@ func newParseOptions() *parseOptions {
 		cb:        nil,
 	}
 }
+
+// extend returns opts with what is set in more on top, both being unchanged.
+func (opts *parseOptions) extend(more *parseOptions) *parseOptions {
+	r := *opts
+	r.debug = r.debug || more.debug
+	r.skipLog = r.skipLog || more.skipLog
+	r.skipCache = r.skipCache || more.skipCache
+	if more.cb != nil {
+		r.cb = more.cb
+	}
+	return &r
+}
-- 
2.43.0


From fc3742b3d5b8d24933b2ea1ca2bae5fbe536efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 20/23] fix: a named compiled parser is a rule: memoised, and
 free to be left recursive

---
 line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/line.go b/line.go
index c2bba2f..2fb697f 100644
--- a/line.go
+++ b/line.go
@@ -110,6 +110,8 @@ func rule2line(x any) Line {
 		return newSLine(v)
 	case sLine:
 		return O(v.Str)
+	case cLine:
+		return v // it is a Parser too, wrapping it again would hide the rule
 	case Parser:
 		return newCLine(v)
 	case ALine:
-- 
2.43.0


From bb5f6592cf30d2e32dd07810686ebf6fe782b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:29 +0000
Subject: [PATCH 21/23] fix: optional group of a labelled element: keep the
 label instead of panicking in merge

---
 parser_existential.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..f69acdb 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -16,6 +16,10 @@ func newExistential(it Ast) *existential {
 }
 
 func (ex *existential) handlesChildLabel() bool {
+	if ex.label == "@" || ex.label == "&" {
+		// the keys of the child are merged: it needs a map of its own
+		return false
+	}
 	if ex.rule.parent != nil {
 		return ex.rule.parent.handlesChildLabel()
 	} else {
-- 
2.43.0


From e1cb5cfda7d1aeaeb00526aa3a0a37fca2ceaeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:19 +0000
Subject: [PATCH 22/23] fix: building a grammar took time exponential in the
 nesting of its rules (children were walked twice per level)

---
 grammar.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index aa77843..e58f65e 100644
--- a/grammar.go
+++ b/grammar.go
@@ -243,12 +243,13 @@ func (gm *Grammar) postinit() {
 					mono.rulesK = append(mono.rulesK, k)
 				}
 				// grandchild becomes the child
-				return monochoice
+				return Walk(monochoice, node, walkOptimizeAwayMonochoice)
 			} else {
 				return Walk(child, node, walkOptimizeAwayMonochoice)
 			}
 		})
-		return ""
+		// the children were walked just above
+		return "__stop__"
 	}
 	Walk(gm, nil, walkOptimizeAwayMonochoice)
 
-- 
2.43.0


From 48c4f31d905f17f881a5d57e11e659ee5c77b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:47 +0000
Subject: [PATCH 23/23] fix: Go words after an identifier ending in a non-ASCII
 letter were glued to it

---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 542b656..83c1f51 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -356,7 +356,7 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	// * one of the keywords break, continue, fallthrough, or return
 	// * one of the operators and delimiters ++, --, ), ], or }
 	var b strings.Builder
-	mustInsertSpaceAfter := regexp.MustCompile("[a-zA-Z0-9_=]$")
+	mustInsertSpaceAfter := regexp.MustCompile("[\\p{L}\\p{Nd}_=]$")
 	for {
 		pos, tok, lit := scan.Scan()
 		if tok == token.EOF {
-- 
2.43.0

