From fb34e282f7f01b2f3dd58401eba5f7b4524b36c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 01/12] fix: slice of a non-array must not discard values
 already selected

valsByKey returned nil instead of the accumulated values, so selecting a
slice from a set (or a union with a slice) lost the results of earlier
values and earlier union elements.
---
 mach/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 1a1d3e7..b99d69a 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -717,7 +717,7 @@ func valsByKey(vals []JSON, src JSON, key JSON, negIndex bool) []JSON {
 	if isSlice(key) {
 		src, ok := src.([]JSON)
 		if !ok {
-			return nil
+			return vals
 		}
 		slice := key.(*paths.Slice)
 		start, end, stride := sliceEval(slice, int64(len(src)))
-- 
2.43.0


From 66664b02576dd0aab0627e3712f4d6d9f2e7a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 02/12] fix: huge slice stride must not overflow the index

$[1:5:9223372036854775807] panicked with an index out of range.
---
 mach/run.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index b99d69a..8f7acfb 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -552,6 +552,13 @@ func sliceEval(slice *paths.Slice, l int64) (int64, int64, int64) {
 	stride := int64(1)
 	if slice.Stride != nil {
 		stride = cvi(slice.Stride)
+		// a longer stride selects no more than the first item, but might overflow when added to an index
+		switch {
+		case stride > l:
+			stride = l + 1
+		case stride < -l:
+			stride = -l - 1
+		}
 	}
 	start := int64(0)
 	end := int64(l)
-- 
2.43.0


From 8415f48edb655425bb70be6a5a6dd745692cb170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 03/12] fix: do not run a loop body when there are no values to
 consider

$[?(true)] selected a null that is not in the document from [], {} or 1.
---
 mach/run.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mach/run.go b/mach/run.go
index 8f7acfb..2ff8133 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -542,7 +542,13 @@ func looptop(vm *machine, producer func(chan<- JSON, []JSON), epc int) {
 	vm.pushInput(values)
 	go producer(values, vm.out)
 	vm.out = []JSON{}
-	vm.dot = <-values
+	var more bool
+	vm.dot, more = <-values
+	if !more {
+		// nothing to iterate over
+		vm.popInput()
+		vm.branch(epc)
+	}
 }
 
 // sliceEval returns an interpretation of the given Slice with respect to an array of length l.
-- 
2.43.0


From c7020e20d86c5ec17875871a649c35344a3fa82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 04/12] fix: do not leave producers blocked for ever when
 evaluation fails

A run-time error inside a filter or recursive step left the goroutine
that produces the candidates blocked sending the next one.
---
 mach/run.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/run.go b/mach/run.go
index 2ff8133..fe0561c 100644
--- a/mach/run.go
+++ b/mach/run.go
@@ -89,6 +89,14 @@ func (m *machine) popInput() {
 	m.values = m.values[0 : len(m.values)-1]
 }
 
+// drain receives the values still to come from unfinished producers, allowing them to exit.
+func (m *machine) drain() {
+	for _, c := range m.values {
+		for range c {
+		}
+	}
+}
+
 // nothing represents an evaluation without a usable result.
 // Any error will do.
 // ("nothing is better than Advil")
@@ -125,6 +133,7 @@ func (m *machine) valsOK(a, b JSON) bool {
 // Following the usual JavaScript conventions, many other errors do not stop evaluation, but yield a null result, detectable using || and &&.
 func (p *Program) Run(root JSON) ([]JSON, error) {
 	vm := &machine{prog: p, root: root, out: []JSON{root}, pc: 0, tracing: false}
+	defer vm.drain()
 	for vm.pc < len(p.orders) {
 		ord := p.orders[vm.pc]
 		vm.pc++
-- 
2.43.0


From 8abd6fe594efb52b5af454bab72a87ec5b453948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:17 +0000
Subject: [PATCH 05/12] fix: objects with different member names are not equal

A missing member was compared as if it were present with a null value,
so {"a":null} == {"b":null}.
---
 mach/json.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mach/json.go b/mach/json.go
index 42740c6..f18b1d1 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -247,7 +247,8 @@ func eqVal(a, b JSON) bool {
 				return false
 			}
 			for k, v := range a {
-				if !eqVal(v, b[k]) {
+				w, ok := b[k]
+				if !ok || !eqVal(v, w) {
 					return false
 				}
 			}
-- 
2.43.0


From 703fd4506df8d4e72f3c08ef221e1c048383dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 06/12] fix: compare numbers with strings, booleans and array
 elements as numbers

Unless both operands were the same kind of number the conversion was to
integer, with 0 for anything not an integer: 0 == "1.5", ["abc"] == 0 and
[0.5] == false were all true, and the result differed from 0.0 == "1.5".
---
 mach/json.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mach/json.go b/mach/json.go
index f18b1d1..eba6490 100644
--- a/mach/json.go
+++ b/mach/json.go
@@ -134,16 +134,16 @@ func badNum(s string, fp bool) bool {
 
 // eqNum returns true if numeric values a and b are equal
 func eqNum(a, b JSON) bool {
-	if isFloat(a) || isFloat(b) {
-		var zero float64
-		va := cvf(a)
-		vb := cvf(b)
-		if va == 0.0 && vb == -zero || vb == 0.0 && va == -zero {
-			return true
-		}
-		return va == vb // this will be false for NaN
+	if isInt(a) && isInt(b) {
+		return cvi(a) == cvi(b)
+	}
+	var zero float64
+	va := cvf(a)
+	vb := cvf(b)
+	if va == 0.0 && vb == -zero || vb == 0.0 && va == -zero {
+		return true
 	}
-	return cvi(a) == cvi(b)
+	return va == vb // this will be false for NaN
 }
 
 // eqVal returns the value of the Abstract Equality Comparison Algorithm (ECMA-262, 5.1, 11.9.3) [see notes/abstract-equality.pdf].
@@ -186,13 +186,11 @@ func eqVal(a, b JSON) bool {
 		case Object<<8 | Boolean:
 			// 11.9.3(6) [a == ToNumber(b)]
 			a, ok := a.([]JSON)
-			b := cvi(b)
-			return ok && (b == 0 && len(a) == 0 || len(a) == 1 && cvi(a[0]) == b)
+			return ok && eqArrayN(a, b)
 		case Boolean<<8 | Object:
 			// 11.9.3(7) [ToNumber(a) == b]
 			b, ok := b.([]JSON)
-			a := cvi(a)
-			return ok && (a == 0 && len(b) == 0 || len(b) == 1 && cvi(b[0]) == a)
+			return ok && eqArrayN(b, a)
 		case String<<8 | Object, Object<<8 | String:
 			// 11.9.3(8), 11.9.3(9)
 			// note only one can be an Object, and only when that's an array can == be true
-- 
2.43.0


From ca48cb65e3ab9da01d87b148a53a477b07949806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:20 +0000
Subject: [PATCH 07/12] fix: keys() returns its result in a fixed order

The order of the array depended on map iteration, so that indexing it, or
comparing two of them, gave different results on each evaluation.
---
 mach/fns.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mach/fns.go b/mach/fns.go
index 21280ba..f45e8c8 100644
--- a/mach/fns.go
+++ b/mach/fns.go
@@ -3,6 +3,7 @@ package mach
 import (
 	"math"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -127,8 +128,13 @@ var functions = map[string]Function{
 		1,
 		func(args []JSON) JSON {
 			if obj, ok := args[0].(map[string]JSON); ok {
-				keys := make([]JSON, 0, len(obj))
-				for k, _ := range obj {
+				names := make([]string, 0, len(obj))
+				for k := range obj {
+					names = append(names, k)
+				}
+				sort.Strings(names) // otherwise the result would vary
+				keys := make([]JSON, 0, len(names))
+				for _, k := range names {
 					keys = append(keys, k)
 				}
 				return keys
-- 
2.43.0


From 694677f4d10aced78f4ced9d6ce427e29367055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 08/12] fix: reject a program too big for the operand field of
 its orders

Operand counts and branch addresses of more than 22 bits were truncated
without a diagnosis, giving a branch to the wrong place or a panic.
---
 mach/coder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mach/coder.go b/mach/coder.go
index 327e308..48cc936 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -59,6 +59,9 @@ func (b *builder) codeLoop(step *paths.Step, intro paths.Op) error {
 	if err != nil {
 		return err
 	}
+	if !isSmallInt(int64(prog.size() + 1)) {
+		return ErrTooManyVals
+	}
 	prog.asm(mkSmall(paths.OpRep, lpc))
 	prog.patch(fpc, mkSmall(intro, prog.size()))
 	return nil
@@ -68,6 +71,9 @@ func (b *builder) codeStep(step *paths.Step) (int, error) {
 	prog := b.prog
 	pc := prog.size()
 	err := b.codeArgs(step.Args)
+	if err == nil && !isSmallInt(int64(len(step.Args))) {
+		err = ErrTooManyVals
+	}
 	prog.asm(mkSmall(step.Op, len(step.Args)))
 	return pc, err
 }
@@ -124,6 +130,9 @@ func (b *builder) codeExpr(expr paths.Expr) error {
 			return err
 		}
 	}
+	if !isSmallInt(int64(len(t.Kids))) {
+		return ErrTooManyVals
+	}
 	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
 	return nil
 }
-- 
2.43.0


From 348c2368e0f7302f19e28942a15a81fe31d85ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 09/12] fix: string ending in an escape at end of text is
 unclosed

$["\" was accepted: at the end of the text there was no character to
put back, and the escaped quote was read again as the closing one.
---
 paths/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paths/lex.go b/paths/lex.go
index aebc49f..37de6d9 100644
--- a/paths/lex.go
+++ b/paths/lex.go
@@ -200,7 +200,9 @@ func (l *lexer) lexString(cq int) (string, error) {
 				}
 				s.WriteRune(rv)
 			}
-			r.unget()
+			if c != eof {
+				r.unget()
+			}
 			if surr != 0 {
 				// surrogate prefix without successor
 				s.WriteRune(unicode.ReplacementChar)
-- 
2.43.0


From c76a38d9b374fb4597a97d673c61cffe391f1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 10/12] fix: limit the nesting of expressions

The parser is recursive, and exhausting the goroutine stack (for instance
with a million open parentheses) kills the process.
---
 paths/parseexpr.go | 14 +++++++++++++-
 paths/parser.go    |  5 +++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/paths/parseexpr.go b/paths/parseexpr.go
index 4e49af8..b1430ed 100644
--- a/paths/parseexpr.go
+++ b/paths/parseexpr.go
@@ -4,11 +4,18 @@ package paths
 // It's a small subset of JavaScript (at least I hope it's a small subset.)
 
 import (
-	//	"errors"
+	"errors"
 	"fmt"
 	"regexp"
 )
 
+var (
+	ErrTooDeep = errors.New("expression is nested too deeply")
+)
+
+// maxDepth limits the nesting of expressions (the parser is recursive, and the stack is finite).
+const maxDepth = 10000
+
 // ParseScriptExpression gives direct access to the secondary parser for expressions, returning an Expr tree representing
 // the expression in s.
 func ParseScriptExpression(s string) (Expr, error) {
@@ -103,6 +110,11 @@ func (p *parser) unary(op Op) (Expr, error) {
 
 // primary ::= primary1 ("(" e-list ")" | "[" e "]" | "." identifier)*
 func (p *parser) primary() (Expr, error) {
+	if p.depth >= maxDepth {
+		return nil, ErrTooDeep
+	}
+	p.depth++
+	defer func() { p.depth-- }()
 	e, err := p.primary1()
 	if err != nil {
 		return nil, err
diff --git a/paths/parser.go b/paths/parser.go
index 56baec5..f270a49 100644
--- a/paths/parser.go
+++ b/paths/parser.go
@@ -6,12 +6,13 @@ import "fmt"
 // (all of which is currently in the lexer), and provides a scope for the
 // parsing methods.
 type parser struct {
-	*lexer // source of tokens
+	*lexer     // source of tokens
+	depth  int // current nesting of primaries
 }
 
 // newParser initialises and returns a parser.
 func newParser(s string) *parser {
-	return &parser{newLexer(&rd{s: s})}
+	return &parser{lexer: newLexer(&rd{s: s})}
 }
 
 func (p *parser) expect(lex func() lexeme, nt token) error {
-- 
2.43.0


From 4990a8c225551e0a2259a6284045ca42d708c534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 11/12] fix: code expressions without recursion

A long chain of left-associative operators or selections (1+1+1+...) makes
a tree deep enough to exhaust the goroutine stack.
---
 mach/coder.go | 49 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/mach/coder.go b/mach/coder.go
index 48cc936..d45d257 100644
--- a/mach/coder.go
+++ b/mach/coder.go
@@ -117,24 +117,41 @@ func (b *builder) codeVal(op paths.Op, val paths.Val) error {
 }
 
 func (b *builder) codeExpr(expr paths.Expr) error {
-	if expr == nil {
-		panic("unexpected nil expr")
-	}
-	if expr.IsLeaf() {
-		return b.codeLeaf(expr)
-	}
-	t := expr.(*paths.Inner)
-	for _, k := range t.Kids {
-		err := b.codeExpr(k)
-		if err != nil {
-			return err
+	// visit the tree in postorder with an explicit stack,
+	// because a long sequence of left-associative operators makes a deep one
+	type visit struct {
+		t    *paths.Inner
+		next int // next of t.Kids to visit
+	}
+	var todo []visit
+	for {
+		if expr == nil {
+			panic("unexpected nil expr")
 		}
+		if expr.IsLeaf() {
+			err := b.codeLeaf(expr)
+			if err != nil {
+				return err
+			}
+		} else {
+			todo = append(todo, visit{expr.(*paths.Inner), 0})
+		}
+		// code the operators that now have all their operands
+		for len(todo) > 0 && todo[len(todo)-1].next == len(todo[len(todo)-1].t.Kids) {
+			t := todo[len(todo)-1].t
+			if !isSmallInt(int64(len(t.Kids))) {
+				return ErrTooManyVals
+			}
+			b.prog.asm(mkSmall(t.Op, len(t.Kids)))
+			todo = todo[:len(todo)-1]
+		}
+		if len(todo) == 0 {
+			return nil
+		}
+		v := &todo[len(todo)-1]
+		expr = v.t.Kids[v.next]
+		v.next++
 	}
-	if !isSmallInt(int64(len(t.Kids))) {
-		return ErrTooManyVals
-	}
-	b.prog.asm(mkSmall(t.Op, len(t.Kids)))
-	return nil
 }
 
 func (b *builder) codeLeaf(expr paths.Expr) error {
-- 
2.43.0


From d04db00c7313517a2ff14b217976166289c7738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:28 +0000
Subject: [PATCH 12/12] fix: jpath must report failure to write its output

The error from the final flush was ignored, so jpath >/dev/full succeeded.
---
 cmd/jpath/jpath.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/jpath/jpath.go b/cmd/jpath/jpath.go
index 601cd9e..0ac4d1b 100644
--- a/cmd/jpath/jpath.go
+++ b/cmd/jpath/jpath.go
@@ -24,7 +24,6 @@ func main() {
 		os.Exit(2)
 	}
 	stdout = bufio.NewWriter(os.Stdout)
-	defer stdout.Flush()
 	jexp := flag.Arg(0)
 	jpath, err := jsonpath.Compile(jexp)
 	if err != nil {
@@ -57,6 +56,10 @@ func main() {
 			errorf("%s", err.Error())
 		}
 	}
+	err = stdout.Flush()
+	if err != nil {
+		errorf("write error: %s", err.Error())
+	}
 }
 
 func quote(s string) string {
-- 
2.43.0

