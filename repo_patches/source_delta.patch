From 3c791ae8068ce21a491ecd846935fb35df1792a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 01/67] fix: unwind-protect returns the value of its protected
 form

---
 progn.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/progn.go b/progn.go
index 9fe2110..470825f 100644
--- a/progn.go
+++ b/progn.go
@@ -316,12 +316,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
-	if err != nil {
+	if _, err := Progn(ctx, w, list); err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
 		var e3 *_ErrTagBody      // tagbody & go
-- 
2.43.0


From 65dd9e385faa40118423fc3e98a0f097e66ead9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:29 +0000
Subject: [PATCH 02/67] fix: tagbody passes a go to an outer tag on instead of
 swallowing it

---
 progn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/progn.go b/progn.go
index 470825f..5c105b8 100644
--- a/progn.go
+++ b/progn.go
@@ -406,9 +406,10 @@ mainloop:
 			continue
 		}
 		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
+			var shiftErr error
+			current, args, shiftErr = Shift(args)
+			if shiftErr != nil {
+				return nil, shiftErr
 			}
 			symbol, ok := current.(Symbol)
 			if !ok {
-- 
2.43.0


From b1a8ac0e9d1510409ef833ccaa89eba9f1dfce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 03/67] fix: a function call does not intercept return-from of
 an enclosing block

---
 lambda.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lambda.go b/lambda.go
index b431521..e4735e8 100644
--- a/lambda.go
+++ b/lambda.go
@@ -308,10 +308,6 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			lexical[name] = value
 		}
 	}
-	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-		return errEarlyReturns.Value, nil
-	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
-- 
2.43.0


From da825e9ea6f0f01163b7bce6b97e925875597c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 04/67] fix: ignore-errors passes non-local exits, exit, abort
 and cancellation on

---
 cond.go  |  5 +----
 progn.go | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..838645b 100644
--- a/cond.go
+++ b/cond.go
@@ -29,10 +29,7 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	// ようにしている
 	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
 
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+	if err == nil || isNonLocalExit(err) {
 		return value, err
 	}
 
diff --git a/progn.go b/progn.go
index 5c105b8..99c380d 100644
--- a/progn.go
+++ b/progn.go
@@ -319,10 +319,7 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
 	if _, err := Progn(ctx, w, list); err != nil {
-		var e1 *_ErrEarlyReturns // block & return-from
-		var e2 *_ErrThrown       // catch & throw
-		var e3 *_ErrTagBody      // tagbody & go
-		if errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+		if isNonLocalExit(err) {
 			return raiseControlError(ctx, w, errors.New("can not escape from cleanup-form"))
 		}
 		return nil, err
@@ -425,9 +422,21 @@ mainloop:
 	return Null, nil
 }
 
+// isNonLocalExit reports whether err is not a failure but a transfer of control.
+func isNonLocalExit(err error) bool {
+	var e1 *_ErrEarlyReturns // block & return-from
+	var e2 *_ErrThrown       // catch & throw
+	var e3 *_ErrTagBody      // tagbody & go
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3)
+}
+
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		var e *_ErrContinueCondition
+		if isNonLocalExit(err) || errors.As(err, &e) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || ctx.Err() != nil {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From c945ba64912131b686e0a9805258ac0239119541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 05/67] fix: catch and throw compare tags by identity and
 reject tags that can not be compared

---
 progn.go | 8 +++++++-
 utils.go | 7 +++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index 99c380d..e1fe35f 100644
--- a/progn.go
+++ b/progn.go
@@ -117,6 +117,9 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
+	if !isComparable(tagForm) {
+		return raiseControlError(ctx, w, fmt.Errorf("'%s' can not be used as a catch-tag", tagForm.String()))
+	}
 	if w.catchTag == nil {
 		w.catchTag = make(map[Node]struct{})
 	}
@@ -127,13 +130,16 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.TagForm == tagForm {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
+	if !isComparable(tagForm) {
+		return raiseControlError(ctx, w, fmt.Errorf("'%s' can not be used as a catch-tag", tagForm.String()))
+	}
 	if w.catchTag == nil {
 		w.catchTag = make(map[Node]struct{})
 	}
diff --git a/utils.go b/utils.go
index dc050b7..fd0ab83 100644
--- a/utils.go
+++ b/utils.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"reflect"
 
 	"github.com/hymkor/gmnlisp/pkg/parser"
 )
@@ -77,6 +78,12 @@ func HasValue(node Node) bool {
 	return IsSome(node)
 }
 
+// isComparable reports whether node can be compared with == and used as
+// the key of a map. (Go panics for hash-tables, built-in functions and so on)
+func isComparable(node Node) bool {
+	return reflect.ValueOf(node).Comparable()
+}
+
 func List(nodes ...Node) Node {
 	var cons Node = Null
 	for i := len(nodes) - 1; i >= 0; i-- {
-- 
2.43.0


From 007fef71c35395723327c9bb7a3980d1ad678ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:20 +0000
Subject: [PATCH 06/67] fix: eq and eql do not panic on hash tables and
 functions

---
 cmds.go        | 3 +++
 functionref.go | 9 ++++++++-
 hash.go        | 4 +++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..dbbccbf 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,6 +68,9 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
+		if !isComparable(left) || !isComparable(right) {
+			return left.Equals(right, STRICT)
+		}
 		return left == right
 	})
 }
diff --git a/functionref.go b/functionref.go
index f4ec65c..8014d99 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 )
 
 type FunctionRef struct {
@@ -21,7 +22,13 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	v1 := reflect.ValueOf(f.value)
+	v2 := reflect.ValueOf(_other.value)
+	if v1.Comparable() && v2.Comparable() {
+		return f.value == _other.value
+	}
+	return v1.Kind() == reflect.Func && v2.Kind() == reflect.Func &&
+		v1.Type() == v2.Type() && v1.Pointer() == v2.Pointer()
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
diff --git a/hash.go b/hash.go
index e330e0c..5087df5 100644
--- a/hash.go
+++ b/hash.go
@@ -4,13 +4,15 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"reflect"
 	"strings"
 )
 
 type _Hash map[Node]Node
 
 func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+	o, ok := other.(_Hash)
+	return ok && reflect.ValueOf(h).Pointer() == reflect.ValueOf(o).Pointer()
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
-- 
2.43.0


From 9077278daeaf1bc9123b49e964e3f46770fc6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 07/67] fix: dynamic-let restores a variable that it binds
 twice

---
 setq.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..b22258e 100644
--- a/setq.go
+++ b/setq.go
@@ -233,10 +233,14 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
-		D.backups[symbol] = orig
-	} else {
-		D.removes[symbol] = struct{}{}
+	_, saved := D.backups[symbol]
+	_, added := D.removes[symbol]
+	if !saved && !added {
+		if orig, ok := D.world.dynamic.Get(symbol); ok {
+			D.backups[symbol] = orig
+		} else {
+			D.removes[symbol] = struct{}{}
+		}
 	}
 	if newValue != nil {
 		D.world.dynamic.Set(symbol, newValue)
-- 
2.43.0


From 8c9d32ceb74ac90978ef149f7e2550b4d13bce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 08/67] fix: a non-local exit from a condition handler is
 performed at once

---
 error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/error.go b/error.go
index 8c49c20..6f7930d 100644
--- a/error.go
+++ b/error.go
@@ -150,6 +150,9 @@ func callHandler[T Node](ctx context.Context, w *World, cont bool, condition err
 				return v, nil
 			}
 		}
+		if isNonLocalExit(e) {
+			return zero, e
+		}
 	}
 	return zero, condition
 }
-- 
2.43.0


From ad56a20a69e2aa5bf4de0d215f5412a8c0d7f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 09/67] fix: signal-condition fails when the handler returns
 normally

---
 cond.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cond.go b/cond.go
index 838645b..2b3aabd 100644
--- a/cond.go
+++ b/cond.go
@@ -78,12 +78,19 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
+	_, err := w.handler.Call(ctx, w, &Cons{Car: cond})
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
 	}
-	return rv, err
+	if err == nil {
+		// The handler has returned normally though it must not.
+		if err, ok := cond.(error); ok {
+			return nil, err
+		}
+		return nil, errors.New(cond.String())
+	}
+	return nil, err
 }
 
 func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From c8dfe47d474a97af2ce99cb1a1c86b8c6c38d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 10/67] fix: an optimized tail call makes fresh bindings,
 checks the arity and the context

---
 lambda.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index e4735e8..7442d3e 100644
--- a/lambda.go
+++ b/lambda.go
@@ -287,7 +287,12 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		n = errTailRecOpt.params
+		// Closures may refer to the bindings of the previous activation.
+		lexical = Variables{}
 		foundSlash = false
 		for _, name := range L.param {
 			if name == slashSymbol {
@@ -303,10 +308,18 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			value, n, err = Shift(n)
 			if err != nil {
 				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
+				return raiseProgramError(ctx, w, err)
 			}
 			lexical[name] = value
 		}
+		if L.rest != nulSymbol {
+			if n == nil {
+				n = Null
+			}
+			lexical[L.rest] = n
+		} else if IsSome(n) {
+			return raiseProgramError(ctx, w, ErrTooManyArguments)
+		}
 	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
-- 
2.43.0


From e0c6f63c73a5deeb40c00f6099126df0b96d16f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 11/67] fix: only a call of the running function itself is
 optimized as a tail call

---
 lambda.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 7442d3e..561e96e 100644
--- a/lambda.go
+++ b/lambda.go
@@ -205,6 +205,7 @@ func (t _Lambda) String() string {
 var trace = map[Symbol]int{}
 
 type _ErrTailRecOpt struct {
+	callee *_Lambda
 	params Node
 }
 
@@ -287,6 +288,20 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if errTailRecOpt.callee != L {
+			// The name refers to another function here: it is an ordinary call.
+			var args ListBuilder
+			for n = errTailRecOpt.params; IsSome(n); {
+				var value Node
+				value, n, err = Shift(n)
+				if err != nil {
+					return nil, err
+				}
+				args.Add(ctx, w, Uneval{value})
+			}
+			result, err = errTailRecOpt.callee.Call(ctx, newWorld, args.Sequence())
+			break
+		}
 		if err := checkContext(ctx); err != nil {
 			return nil, err
 		}
@@ -344,6 +359,15 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 		return nil
 	}
 
+	f, err := w.GetFunc(currFunc)
+	if err != nil {
+		return nil
+	}
+	callee, ok := f.(*_Lambda)
+	if !ok {
+		return nil
+	}
+
 	// Tail call optimization
 	var params Node = cons.Cdr
 	var evaled Node
@@ -359,7 +383,7 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 	if err != nil {
 		panic(err.Error())
 	}
-	return &_ErrTailRecOpt{params: evaled}
+	return &_ErrTailRecOpt{callee: callee, params: evaled}
 }
 
 var (
-- 
2.43.0


From 6ad09e86b68e45fdf37beb4a219de0235c0d0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 12/67] fix: and, or without forms and cond clauses without
 body have their defined values

---
 operator.go | 6 ++++++
 progn.go    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/operator.go b/operator.go
index adaa3fd..6e5d0bc 100644
--- a/operator.go
+++ b/operator.go
@@ -160,6 +160,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -178,6 +181,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
diff --git a/progn.go b/progn.go
index e1fe35f..496748a 100644
--- a/progn.go
+++ b/progn.go
@@ -167,6 +167,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From 010444bcef10b177e365ecd879f372478f3c8a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 13/67] fix: case compares keys with eql

---
 progn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index 496748a..ef50fbe 100644
--- a/progn.go
+++ b/progn.go
@@ -204,7 +204,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From 0b980262d0b3a70517559f6112eff5ca96111997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 14/67] fix: oddp holds for negative odd integers

---
 cmds.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmds.go b/cmds.go
index dbbccbf..6ee0968 100644
--- a/cmds.go
+++ b/cmds.go
@@ -154,7 +154,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
-- 
2.43.0


From 8038dba7bebe6ac4c79f5f310ef79cf348d79ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 15/67] fix: mod is the floor modulo and mod and rem signal
 division by zero

---
 operator.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/operator.go b/operator.go
index 6e5d0bc..220408f 100644
--- a/operator.go
+++ b/operator.go
@@ -233,8 +233,19 @@ func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 	var left float64
 	var right float64
-	bits := 0
 
+	if _left, ok := first.(Integer); ok {
+		if _right, ok := second.(Integer); ok {
+			if _right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
+			value := _left % _right
+			if value != 0 && (value < 0) != (_right < 0) {
+				value += _right
+			}
+			return value, nil
+		}
+	}
 	if _left, ok := first.(Float); ok {
 		left = float64(_left)
 	} else {
@@ -243,7 +254,6 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return nil, ErrNotSupportType
 		}
 		left = float64(int(_left))
-		bits = 1
 	}
 	if _right, ok := second.(Float); ok {
 		right = float64(_right)
@@ -253,11 +263,13 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return nil, ErrNotSupportType
 		}
 		right = float64(int(_right))
-		bits |= 2
 	}
-	value := math.Remainder(float64(left), float64(right))
-	if bits == 3 {
-		return Integer(int(value)), nil
+	if right == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
+	}
+	value := math.Mod(left, right)
+	if value != 0 && (value < 0) != (right < 0) {
+		value += right
 	}
 	return Float(value), nil
 }
@@ -265,14 +277,23 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Integer(left % right), nil
 		}
 	}
 	if left, ok := first.(Float); ok {
 		if right, ok := second.(Float); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Float(math.Mod(float64(left), float64(right))), nil
 		}
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Float(math.Mod(float64(left), float64(int(right)))), nil
 		}
 	}
-- 
2.43.0


From 290fd96ffddc1318f40f607d82dfa4ca6ec5166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 16/67] fix: chained comparisons examine every adjacent pair of
 arguments

---
 operator.go | 107 ++++++++++++++++++++--------------------------------
 1 file changed, 40 insertions(+), 67 deletions(-)

diff --git a/operator.go b/operator.go
index 220408f..0b8e3e9 100644
--- a/operator.go
+++ b/operator.go
@@ -5,16 +5,6 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
-	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
-	}
-	return True, err
-}
-
 type canPlus interface {
 	Node
 	Add(context.Context, *World, Node) (Node, error)
@@ -82,81 +72,64 @@ type canLessThan interface {
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
-func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
+// compareAdjacent returns t when f holds for every adjacent pair of args.
+func compareAdjacent(args []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	if len(args) <= 0 {
+		return Null, nil
+	}
+	for i := 1; i < len(args); i++ {
+		result, err := f(args[i-1], args[i])
+		if err != nil {
+			return nil, err
+		}
+		if !result {
 			return Null, nil
 		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+	}
+	return True, nil
+}
+
+func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
+	if _left, ok := left.(canLessThan); ok {
+		return _left.LessThan(ctx, w, right)
+	}
+	return false, MakeError(ErrNotSupportType, left)
+}
+
+func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
+	return compareAdjacent(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, left, right)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+	return compareAdjacent(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, right, left)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareAdjacent(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareAdjacent(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, left, right)
+		return !result, err
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareAdjacent(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, right, left)
+		return !result, err
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From d8fb86e2fb1192365588bc30bd4f27a9a1cc6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 17/67] fix: round chooses the even integer for a tie

---
 operator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index 0b8e3e9..68603c3 100644
--- a/operator.go
+++ b/operator.go
@@ -200,7 +200,7 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-- 
2.43.0


From 7bde0fd447ad438035375d214a11958ed359e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:05 +0000
Subject: [PATCH 18/67] fix: floor, ceiling, truncate and round reject floats
 beyond the range of integers

---
 operator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index 68603c3..221f193 100644
--- a/operator.go
+++ b/operator.go
@@ -179,7 +179,11 @@ func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
 		return value, nil
 	}
 	if value, ok := arg.(Float); ok {
-		return Integer(int(f(float64(value)))), nil
+		rounded := f(float64(value))
+		if !(rounded >= -(1<<63) && rounded < 1<<63) {
+			return nil, MakeError(ErrNotSupportType, arg)
+		}
+		return Integer(rounded), nil
 	}
 	return nil, MakeError(ErrNotSupportType, arg)
 }
-- 
2.43.0


From 961ce77fc1c5dbfc93ad63e8d81eef1ca1564c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 19/67] fix: maplist, mapl and mapcon stop before an empty list
 and mapping requires a list

---
 sequence.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/sequence.go b/sequence.go
index 2a7054c..84d9dc6 100644
--- a/sequence.go
+++ b/sequence.go
@@ -129,6 +129,9 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 	if err != nil {
 		return err
 	}
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
@@ -206,15 +209,12 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	if err != nil {
 		return err
 	}
+	if len(sourceSet) < 1 {
+		return ErrTooFewArguments
+	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
-		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
-		if err != nil {
-			return err
-		}
-		store(result)
-
 		for i := 0; i < len(listSet); i++ {
 			if IsNone(listSet[i]) {
 				return nil
@@ -223,11 +223,21 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 			if !ok {
 				return ErrNotSupportType
 			}
-			_, listSet[i], ok = seq.FirstAndRest()
-			if !ok || IsNone(listSet[i]) {
+			if _, _, ok = seq.FirstAndRest(); !ok {
 				return nil
 			}
 		}
+		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
+		if err != nil {
+			return err
+		}
+		store(result)
+
+		for i := 0; i < len(listSet); i++ {
+			if seq, ok := listSet[i].(Sequence); ok {
+				_, listSet[i], _ = seq.FirstAndRest()
+			}
+		}
 	}
 }
 
@@ -248,7 +258,7 @@ func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if len(argv) < 2 {
 		return Null, err
 	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-- 
2.43.0


From 70b395911d2be4fd80f142e032ae0acbbdda4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:33 +0000
Subject: [PATCH 20/67] fix: car, cdr, last, array-dimensions and convert
 return nil for an empty list

---
 array.go   | 2 +-
 convert.go | 4 ++--
 list.go    | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/array.go b/array.go
index 89d9cee..0bf8da1 100644
--- a/array.go
+++ b/array.go
@@ -265,7 +265,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	cons := Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
diff --git a/convert.go b/convert.go
index de9224d..205852c 100644
--- a/convert.go
+++ b/convert.go
@@ -98,7 +98,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case classVector:
 			var buffer VectorBuilder
 			for IsSome(val) {
-				buffer.Add(ctx, w, val.Car)
+				buffer.Add(ctx, w, val.getCar())
 				var ok bool
 				val, ok = val.Cdr.(*Cons)
 				if !ok {
@@ -113,7 +113,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			cons := Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
diff --git a/list.go b/list.go
index a1ae67a..9fa0a00 100644
--- a/list.go
+++ b/list.go
@@ -10,7 +10,7 @@ func funGetCar(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Car, nil
+	return cons.getCar(), nil
 }
 
 // funGetCdr implements (cdr X)
@@ -19,7 +19,7 @@ func funGetCdr(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return cons.Cdr, nil
+	return cons.getCdr(), nil
 }
 
 // funList implements (list A B ...)
@@ -62,7 +62,7 @@ func funLast(ctx context.Context, w *World, arg Node) (Node, error) {
 	if tail == nil {
 		return Null, nil
 	}
-	return tail.Car, nil
+	return tail.getCar(), nil
 }
 
 // funAppend implements (append LIST1 LIST2 ...)
-- 
2.43.0


From 2e5b39890c3481477d060466425e87178d7d6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:38 +0000
Subject: [PATCH 21/67] fix: elt rejects negative indexes and returns nil
 beyond the end of a string

---
 sequence.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index 84d9dc6..7880e46 100644
--- a/sequence.go
+++ b/sequence.go
@@ -99,12 +99,18 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, indexArg)
+		}
 		for list := value; index >= 0; {
 			seq, ok := list.(Sequence)
 			if !ok {
 				return Null, nil
 			}
-			value, list, _ = seq.FirstAndRest()
+			value, list, ok = seq.FirstAndRest()
+			if !ok {
+				return Null, nil
+			}
 			index--
 		}
 	}
-- 
2.43.0


From 0f58564610e99d04353d2ba32613b24de3532c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 22/67] fix: elt and set-aref check every subscript against its
 dimension

---
 array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 0bf8da1..3e8465e 100644
--- a/array.go
+++ b/array.go
@@ -177,7 +177,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) < 1 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
@@ -236,7 +236,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			return nil, err
 		}
 		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
-- 
2.43.0


From 87698a31d26ba5bc49c8089810def7eba52c5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 23/67] fix: create-array detects a size that overflows

---
 array.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/array.go b/array.go
index 3e8465e..a0cd456 100644
--- a/array.go
+++ b/array.go
@@ -153,11 +153,11 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 			})
 		}
 		_dim = append(_dim, int(n))
+		if int(n) >= 1234567890/size {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
-- 
2.43.0


From 2979bdf1844e2c43aa227e91fdf911321c71852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 24/67] fix: arrays are compared by identity in eql and element
 by element in equal

---
 array.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index a0cd456..7bf0927 100644
--- a/array.go
+++ b/array.go
@@ -106,6 +106,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -118,7 +121,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
-- 
2.43.0


From 27de1f87018306db8f2c6a20113225485b064405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 25/67] fix: library functions written in Lisp belong to one
 interpreter and its global scope

---
 lambda.go | 7 ++++++-
 world.go  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index 561e96e..5ed630f 100644
--- a/lambda.go
+++ b/lambda.go
@@ -655,7 +655,12 @@ type LispString struct {
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
+		// The code must not see the local definitions of the caller.
+		root := w
+		for root.parent != nil {
+			root = root.parent
+		}
+		c, err := root.Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
 		}
diff --git a/world.go b/world.go
index 348d176..3d187d6 100644
--- a/world.go
+++ b/world.go
@@ -479,7 +479,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
-- 
2.43.0


From 73c0c9a24fe351116180d6f3bdcf357f7f1185be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 26/67] fix: methods of report-condition are not shared between
 interpreters

---
 cond.go  | 15 +++++++++++----
 world.go |  5 +++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cond.go b/cond.go
index 2b3aabd..0902fc4 100644
--- a/cond.go
+++ b/cond.go
@@ -59,15 +59,22 @@ func (e *_ErrContinueCondition) Error() string {
 }
 
 var symReportCondition = NewSymbol("report-condition")
-var reportCondition = &_Generic{
-	Symbol:  symReportCondition,
-	argc:    2,
-	methods: []*_Method{},
+
+func newReportCondition() *_Generic {
+	return &_Generic{
+		Symbol:  symReportCondition,
+		argc:    2,
+		methods: []*_Method{},
+	}
 }
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	if w.handler == nil {
 		buffer := &StringBuilder{}
+		reportCondition, err := w.GetFunc(symReportCondition)
+		if err != nil {
+			return nil, err
+		}
 		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 			return nil, errors.New(buffer.String())
 		} else if !errors.Is(err, ErrNoMatchMethods) {
diff --git a/world.go b/world.go
index 3d187d6..35634a2 100644
--- a/world.go
+++ b/world.go
@@ -448,7 +448,6 @@ var autoLoadFunc = Functions{
 	NewSymbol("with-open-output-file"):          SpecialF(cmdWithOpenOutputFile),
 	NewSymbol("with-standard-input"):            SpecialF(cmdWithStandardInput),
 	NewSymbol("zerop"):                          Function1(funZerop),
-	symReportCondition:                          reportCondition,
 	// *sort*end*
 }
 
@@ -494,7 +493,9 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 
 func New() *World {
 	rwvars := &autoLoadVars
-	rwfuncs := _RootWorld{}
+	rwfuncs := _RootWorld{
+		symReportCondition: newReportCondition(),
+	}
 	w := &World{
 		shared: &shared{
 			global:  rwvars,
-- 
2.43.0


From 893bfbc9af544311db66360ba41cc6a7802de9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 27/67] fix: classes are identified by themselves and not by
 their names

---
 class.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/class.go b/class.go
index 2dab2ac..2fffdbb 100644
--- a/class.go
+++ b/class.go
@@ -160,7 +160,6 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 }
 
 type _StandardClass struct {
-	serial int
 	Symbol Symbol
 	Super  []Class
 	Slot   map[Symbol]*_SlotSpec
@@ -175,8 +174,7 @@ var standardClass = &_BuiltInClass{
 		return ok
 	},
 	create: func() Node {
-		classCounter++
-		return &_StandardClass{}
+		return &_StandardClass{Symbol: nulSymbol}
 	},
 	super: []Class{objectClass},
 }
@@ -186,14 +184,8 @@ func (u *_StandardClass) ClassOf() Class {
 }
 
 func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
-	if u.serial == 0 {
-		panic("class serial is zero")
-	}
 	other, ok := _other.(*_StandardClass)
-	if !ok {
-		return false
-	}
-	return u.serial == other.serial
+	return ok && u == other
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
@@ -222,7 +214,7 @@ func (c *_StandardClass) Name() Symbol {
 // subClassP returns true when class1 is one of the sub-classes of class2
 func (class1 *_StandardClass) subClassP(class2 *_StandardClass) bool {
 	for _, super := range class1.Super {
-		if super.Name() == class2.Name() {
+		if super.Equals(class2, STRICT) {
 			return true
 		}
 		if uc, ok := super.(*_StandardClass); ok && uc.subClassP(class2) {
@@ -239,7 +231,7 @@ func (c *_StandardClass) InstanceP(obj Node) bool {
 		// println("InstanceP: NG1")
 		return false
 	}
-	if userClass.Symbol.Equals(c.Symbol, STRICT) {
+	if userClass.Equals(c, STRICT) {
 		return true
 	}
 	// println("InstanceP: NG2")
@@ -255,8 +247,6 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
-var classCounter = 0
-
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	// (defclass class-name (sc-name*) (slot-spec*) class-opt*)
 
@@ -269,9 +259,7 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	classCounter++
 	class := &_StandardClass{
-		serial: classCounter,
 		Symbol: className,
 		Slot:   make(map[Symbol]*_SlotSpec),
 	}
-- 
2.43.0


From 3de6cd8fb9096c78a9021a9f7e6e2132eef543d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 28/67] fix: method bodies are evaluated in the scope of their
 definition with the rest parameter bound

---
 generic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generic.go b/generic.go
index 87b9f49..c27dcbd 100644
--- a/generic.go
+++ b/generic.go
@@ -220,8 +220,11 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if method.restType != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
-- 
2.43.0


From bd3597a053230e22dc5aebbde51d7a9633fe4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:06 +0000
Subject: [PATCH 29/67] fix: create rejects an initialization argument that is
 not named by a symbol

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 2fffdbb..d1fb089 100644
--- a/class.go
+++ b/class.go
@@ -517,7 +517,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From 3e8323c0b2ade8f7e0c39b6981e42ebbc93e8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 30/67] fix: a failing initial form leaves its slot unbound

---
 class.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/class.go b/class.go
index d1fb089..488f634 100644
--- a/class.go
+++ b/class.go
@@ -432,11 +432,11 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 	}
 	for name, slot1 := range classDef.Slot {
 		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			var err error
-			reciever.Slot[name], err = slot1.initform()
+			value, err := slot1.initform()
 			if err != nil {
 				return err
 			}
+			reciever.Slot[name] = value
 		}
 	}
 	return nil
-- 
2.43.0


From c5d00b99296a5ec33388c34b9766cd5cfa2d1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 31/67] fix: a form whose operator is not a symbol is not
 rewritten by the macro expansion of bodies

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index 5ed630f..9b3521c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,9 +89,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil // not a macro form
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From d09984bd1c94807a404e3b56d1bdd884382db72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 32/67] fix: joined forms are equal when all their elements are
 equal

---
 macro.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macro.go b/macro.go
index bb0c4a2..596a7d9 100644
--- a/macro.go
+++ b/macro.go
@@ -57,7 +57,7 @@ func (j _JoinedForm) Equals(_other Node, m EqlMode) bool {
 		return false
 	}
 	for i := range j {
-		if j[i].Equals(other[i], m) {
+		if !j[i].Equals(other[i], m) {
 			return false
 		}
 	}
@@ -105,7 +105,7 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 	lexical[m.rest] = n
 	joinedForm := _JoinedForm{}
 	for cons, ok := n.(*Cons); ok && IsSome(cons); cons, ok = cons.Cdr.(*Cons) {
-		joinedForm = append(joinedForm, cons.Car)
+		joinedForm = append(joinedForm, cons.getCar())
 	}
 	lexical[NewSymbol("@"+m.rest.String())] = joinedForm
 
-- 
2.43.0


From b5fce311969df79ac98f6ea3d2c81f85932bfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 33/67] fix: list cells made by the interpreter never hold an
 absent value

---
 cond.go              | 2 +-
 lambda.go            | 8 ++++----
 macro.go             | 7 ++-----
 pkg/wildcard/main.go | 2 +-
 utils.go             | 2 +-
 5 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/cond.go b/cond.go
index 0902fc4..bd67825 100644
--- a/cond.go
+++ b/cond.go
@@ -85,7 +85,7 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	_, err := w.handler.Call(ctx, w, &Cons{Car: cond})
+	_, err := w.handler.Call(ctx, w, &Cons{Car: cond, Cdr: Null})
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
diff --git a/lambda.go b/lambda.go
index 9b3521c..d4a3d74 100644
--- a/lambda.go
+++ b/lambda.go
@@ -126,7 +126,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 }
 
 func expandMacroInList(ctx context.Context, w *World, code Node) (Node, error) {
-	var newCode Node
+	newCode := Null
 	for IsSome(code) {
 		var value Node
 		var err error
@@ -255,7 +255,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		return raiseProgramError(ctx, w, ErrTooManyArguments)
 	}
 	if L.rest != nulSymbol {
-		var values Node = nil
+		values := Null
 		for IsSome(n) {
 			var value Node
 			var err error
@@ -368,7 +368,7 @@ func testCarIsCurrFunc(ctx context.Context, w *World, target Node, currFunc Symb
 
 	// Tail call optimization
 	var params Node = cons.Cdr
-	var evaled Node
+	evaled := Null
 	for IsSome(params) {
 		var value Node
 		value, params, err = w.ShiftAndEvalCar(ctx, params)
@@ -699,7 +699,7 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 	if !ok {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
-	var param Node
+	param := Null
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
diff --git a/macro.go b/macro.go
index 596a7d9..f3467b0 100644
--- a/macro.go
+++ b/macro.go
@@ -72,11 +72,8 @@ func (t _JoinedForm) String() string {
 
 func expandJoinedForm(n Node) Node {
 	if cons, ok := n.(*Cons); ok {
-		var cdr Node
-		if cons.Cdr != nil {
-			cdr = expandJoinedForm(cons.Cdr)
-		}
-		var car Node
+		cdr := expandJoinedForm(cons.getCdr())
+		car := Null
 		if cons.Car != nil {
 			car = expandJoinedForm(cons.Car)
 			if c, ok := car.(_JoinedForm); ok {
diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..558ef6f 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	result := gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
diff --git a/utils.go b/utils.go
index fd0ab83..13802a9 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Shift(list Node) (Node, Node, error) {
 	if !ok {
 		return nil, nil, ErrTooFewArguments
 	}
-	return cons.getCar(), cons.Cdr, nil
+	return cons.getCar(), cons.getCdr(), nil
 }
 
 func ListToArray(list Node, slice []Node) error {
-- 
2.43.0


From 0d882f555619ea48b0e2a11e4c133ab70ba6bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 34/67] fix: reading the standard input to its end signals
 end-of-stream instead of crashing

---
 io.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..1cc987f 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	stream   Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -35,6 +36,11 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		eofFlag:  true,
 		eofValue: Null,
 	}
+	if len(argv) > 0 {
+		this.stream = argv[0]
+	} else {
+		this.stream = w.Stdin()
+	}
 	switch len(argv) {
 	default:
 		return nil, ErrTooManyArguments
@@ -90,7 +96,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +115,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.stream,
 		})
 	}
 	if err != nil {
@@ -133,7 +139,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From cabb725d6d89304605c24e64dc64f02e356675fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 35/67] fix: wildcard and command require an argument

---
 pkg/command/main.go  | 2 +-
 pkg/wildcard/main.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 558ef6f..26a61c2 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From 8627328bc761dedc9cc945ef9fa901f899514b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 36/67] fix: file-length rejects an element size that is not
 positive

---
 io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io.go b/io.go
index 1cc987f..265e351 100644
--- a/io.go
+++ b/io.go
@@ -301,6 +301,9 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return nil, MakeError(ErrNotSupportType, second)
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From 8511f6ffa813490805b42da280a51627e6347204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:09 +0000
Subject: [PATCH 37/67] fix: the variable of with-open-input-file and
 with-open-output-file can be assigned

---
 world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/world.go b/world.go
index 35634a2..5fe8362 100644
--- a/world.go
+++ b/world.go
@@ -88,6 +88,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
-- 
2.43.0


From 90fae0c5cfbff1e37c8e0af38af7dcad176039f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 38/67] fix: dumping the session inside flet does not crash

---
 world.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/world.go b/world.go
index 5fe8362..651add5 100644
--- a/world.go
+++ b/world.go
@@ -622,6 +622,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From 0ab504b9ff812ee084fe28d138eb8321f7737bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 39/67] fix: negating an object that is not a number is an
 error

---
 operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operator.go b/operator.go
index 221f193..8b9fef5 100644
--- a/operator.go
+++ b/operator.go
@@ -26,6 +26,9 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
+		if _, ok := args[0].(canMinus); !ok {
+			return nil, MakeError(ErrNotSupportType, args[0])
+		}
 		class := args[0].ClassOf()
 		zero := class.Create()
 		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
-- 
2.43.0


From 6af55b4d106838383b2c7c3a391fb2d6e3477c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 40/67] fix: create does not return unusable objects of
 built-in classes

---
 builtinclass.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..074464e 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -77,7 +77,11 @@ func newBuiltInClass[T Node](name string) *_BuiltInClass {
 		},
 		create: func() Node {
 			var value T
-			return value
+			switch any(value).(type) {
+			case Integer, Float, String, Rune, Keyword, _TrueType, _NullType:
+				return value
+			}
+			return nil // The zero value of other types is not an object.
 		},
 	}
 }
-- 
2.43.0


From fd1ef118b3f8c836cd5c62e3edb0fe7d9bd5da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 41/67] fix: the reader reports an unterminated string or
 symbol and never drops or crashes on the last token

---
 pkg/parser/main.go     | 2 +-
 pkg/parser/tokenize.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..e866b05 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -341,7 +341,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		token = buffer.String()
 		return p.String(token), nil
 	}
-	if token[0] == '|' && token[len(token)-1] == '|' {
+	if len(token) >= 2 && token[0] == '|' && token[len(token)-1] == '|' {
 		return p.Symbol(symbol4barReplacer.Replace(token[1 : len(token)-1])), nil
 	}
 	if token[0] == ':' {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..ad54285 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -10,6 +10,9 @@ import (
 
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
+	if err == io.EOF {
+		return false, nil
+	}
 	if err != nil {
 		return false, err
 	}
@@ -66,6 +69,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if err == io.EOF && (quote || bar4symbol) {
+				return "", ErrTooShortTokens
+			}
 			return buffer.String(), err
 		}
 
@@ -147,5 +153,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		if token != "" {
 			return token, nil
 		}
+		if err != nil && err != io.EOF {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From b2b5acda6ab48b6daaf4496a3163eb5703552cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 42/67] fix: the reader rejects array literals with an unusable
 rank or without an end

---
 pkg/parser/main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index e866b05..29f6550 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -66,6 +66,8 @@ func (p *_Parser[N]) nodes2cons(nodes []N) N {
 	return cons
 }
 
+const maxArrayDimensions = 1024
+
 func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	nodes := []N{}
 	dim := make([]int, lenDim)
@@ -75,6 +77,9 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
+				if err == io.EOF {
+					err = ErrTooShortTokens
+				}
 				return p.Null(), err
 			}
 			if newNode == p.parenCloseSymbol {
@@ -92,6 +97,9 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
+				if err == io.EOF {
+					err = ErrTooShortTokens
+				}
 				return p.Null(), err
 			}
 			if token == "(" {
@@ -274,8 +282,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 || dim > maxArrayDimensions {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
-- 
2.43.0


From f1ffde72138da28df32e05e9829116af98c7c9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 43/67] fix: cerror referred to format as a variable and could
 not be continued

---
 embed/cerror.lsp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..769693c 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -1,8 +1,8 @@
-(lambda (continue-string error-string :rest obj)
-  (signal-condition
-    (create (class <simple-error>)
-        'format-string error-string
-        'format-arguments obj)
-    (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
-      (get-output-stream-string str))))
+(lambda (continue-string error-string :rest obj)
+  (signal-condition
+    (create (class <simple-error>)
+        'format-string error-string
+        'format-arguments obj)
+    (let ((str (create-string-output-stream)))
+      (apply #'format str continue-string obj)
+      (get-output-stream-string str))))
-- 
2.43.0


From e106f3b82936d91f1d40996a3b696f9d3a0bd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 44/67] fix: apply evaluates its arguments from left to right
 and rejects a non-list

---
 lambda.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lambda.go b/lambda.go
index d4a3d74..7a8ffc6 100644
--- a/lambda.go
+++ b/lambda.go
@@ -500,13 +500,20 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
+			err = SeqEach(ctx, w, value, func(n Node) error {
 				newargs.Add(ctx, w, Uneval{n})
 				return nil
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		value, err = w.Eval(ctx, value)
+		if err != nil {
+			return nil, err
+		}
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From 52154780fc1eaea5a791a6c9d6d075d0c47603ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 45/67] fix: let* opens a scope for each binding

---
 setq.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/setq.go b/setq.go
index b22258e..d49f648 100644
--- a/setq.go
+++ b/setq.go
@@ -125,14 +125,20 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
-
-	newWorld := w.Let(lexical)
-
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+	for IsSome(list) {
+		var item Node
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		// A later binding must not be visible to a closure made by an earlier one.
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, w, &Cons{Car: item, Cdr: Null}, lexical); err != nil {
+			return nil, err
+		}
+		w = w.Let(lexical)
 	}
-	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
+	return prognWithTailRecOpt(ctx, w, params, tailOptSym)
 }
 
 // cmdDefglobal implements (defglobal) of ISLisp and (defparameter) of CommonLisp
-- 
2.43.0


From 47c5e2fcdd42a0df041f684a81c2594a301bd144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 46/67] fix: special forms in tail position stop when the
 context is cancelled

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index 7a8ffc6..6dce558 100644
--- a/lambda.go
+++ b/lambda.go
@@ -395,6 +395,9 @@ var (
 // Evaluate the target considering the tail call optimization.
 func evalWithTailRecOpt(ctx context.Context, w *World, target Node, currFunc Symbol) (Node, error) {
 	if currFunc.Id() >= 0 {
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		if err := testCarIsCurrFunc(ctx, w, target, currFunc); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 7be6e82af23134058896f5032dad7eb6fd6c3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 47/67] fix: signal-condition evaluated the condition again

---
 cond.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cond.go b/cond.go
index bd67825..0fffbd4 100644
--- a/cond.go
+++ b/cond.go
@@ -85,7 +85,7 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	_, err := w.handler.Call(ctx, w, &Cons{Car: cond, Cdr: Null})
+	_, err := w.handler.Call(ctx, w, UnevalList(cond))
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
-- 
2.43.0


From 13969f91ab46e7264c1825f0528bf1dcfee6af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 48/67] fix: ignore-errors reports the cancellation of the
 context

---
 progn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index ef50fbe..1dfea76 100644
--- a/progn.go
+++ b/progn.go
@@ -442,8 +442,11 @@ func isNonLocalExit(err error) bool {
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if ctxErr := ctx.Err(); ctxErr != nil {
+			return nil, ctxErr
+		}
 		var e *_ErrContinueCondition
-		if isNonLocalExit(err) || errors.As(err, &e) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || ctx.Err() != nil {
+		if isNonLocalExit(err) || errors.As(err, &e) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) {
 			return nil, err
 		}
 		return Null, nil
-- 
2.43.0


From 6642d74397aa9af5c84f1e09eecc1e46bf293896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 49/67] fix: string-index returned a wrong index for a start
 position outside the string

---
 string.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 1816b15..df705c9 100644
--- a/string.go
+++ b/string.go
@@ -150,6 +150,9 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 		if len(argv) >= 4 {
 			return nil, ErrTooManyArguments
 		}
+		if _start < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, _start)
+		}
 		start = int(_start)
 	}
 	_str, err := ExpectClass[String](ctx, w, argv[1])
@@ -158,7 +161,10 @@ func funStringIndex(ctx context.Context, w *World, argv []Node) (Node, error) {
 	}
 	str := _str.String()
 
-	for i := 0; i < start && len(str) > 0; i++ {
+	for i := 0; i < start; i++ {
+		if len(str) <= 0 {
+			return Null, nil
+		}
 		_, siz := utf8.DecodeRuneInString(str)
 		str = str[siz:]
 	}
-- 
2.43.0


From fee68003988786bb81b6224d228d130b39fdaeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:59 +0000
Subject: [PATCH 50/67] fix: subseq accepted a range outside the sequence

---
 sequence.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sequence.go b/sequence.go
index 7880e46..507aded 100644
--- a/sequence.go
+++ b/sequence.go
@@ -329,6 +329,9 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if start < 0 || end < start {
+		return nil, MakeError(ErrIndexOutOfRange, args[1])
+	}
 	var buffer SeqBuilder
 	if _, ok := args[0].(String); ok {
 		buffer = &StringBuilder{}
@@ -346,7 +349,13 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 		count++
 		return
 	})
-	return buffer.Sequence(), ignoreEOF(err)
+	if err = ignoreEOF(err); err != nil {
+		return nil, err
+	}
+	if count < end {
+		return nil, MakeError(ErrIndexOutOfRange, args[2])
+	}
+	return buffer.Sequence(), nil
 }
 
 func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {
-- 
2.43.0


From 5cf5e29470d90e7e7b83e388f77960e953e939ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:04 +0000
Subject: [PATCH 51/67] fix: character comparison overflowed for distant
 character codes

---
 atom.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atom.go b/atom.go
index 51d2ada..252595a 100644
--- a/atom.go
+++ b/atom.go
@@ -206,7 +206,12 @@ func compareRune(ctx context.Context, w *World, argv []Node, f func(rune) bool)
 	if err != nil {
 		return nil, err
 	}
-	cmp := rune(left) - rune(right)
+	cmp := rune(0)
+	if left < right {
+		cmp = -1
+	} else if left > right {
+		cmp = 1
+	}
 	if f(cmp) {
 		return True, nil
 	}
-- 
2.43.0


From 5e130d3f6b56f50cc8c99819c0af841c426d82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 52/67] fix: gensym could return an existing symbol

---
 atom.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atom.go b/atom.go
index 252595a..f7d0b68 100644
--- a/atom.go
+++ b/atom.go
@@ -102,7 +102,12 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	for n := symbolManager.Count(); ; n++ {
+		name := fmt.Sprintf("-gensym-%d-", n)
+		if _, ok := symbolManager.name2id[name]; !ok {
+			return NewSymbol(name)
+		}
+	}
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From bd7a51e31547034d9b6edf0f13ff613cff252de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 53/67] fix: format took some non-ASCII characters for digits

---
 format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index e12df35..0cc45e8 100644
--- a/format.go
+++ b/format.go
@@ -159,7 +159,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -168,7 +168,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
-- 
2.43.0


From bac4af2560dc37dd0cc6258dd006cc2c64c5ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 54/67] fix: format wrote a wrong padding character and dropped
 a trailing tilde

---
 format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 0cc45e8..c9af8ff 100644
--- a/format.go
+++ b/format.go
@@ -43,7 +43,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			io.WriteString(w, string(rune(padding)))
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
@@ -145,7 +145,7 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			tryPrintTo(w, c, PRINC)
 			continue
 		}
-		if IsNone(format) {
+		if len(format) <= 0 {
 			w.WriteRune('~')
 			break
 		}
-- 
2.43.0


From 6b8d641efe4bfe235067154a9409d1cfab5908cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 55/67] fix: convert made a character of an integer that is no
 character code

---
 convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convert.go b/convert.go
index 205852c..d177910 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strconv"
+	"unicode"
 )
 
 var (
@@ -83,6 +84,9 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
+			if val < 0 || val > unicode.MaxRune {
+				break
+			}
 			return Rune(val), nil
 		case integerClass.name:
 			return val, nil
-- 
2.43.0


From 237d457ba665b2e2bd0a1f9430dd4d87766f17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 56/67] fix: (+) and (*) returned nil instead of 0 and 1

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index 8b9fef5..9663fc1 100644
--- a/operator.go
+++ b/operator.go
@@ -11,6 +11,9 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
@@ -50,6 +53,9 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
-- 
2.43.0


From 00d881704c57f6d156d0169d567e113a8155b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:59 +0000
Subject: [PATCH 57/67] fix: printed strings with control characters could not
 be read back

---
 string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index df705c9..8f8feb1 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -20,9 +19,12 @@ func (s String) String() string {
 }
 
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
+// stringEscaper escapes what the reader takes for special in a string literal.
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (s String) Equals(n Node, m EqlMode) bool {
 	ns, ok := n.(String)
 	if !ok {
-- 
2.43.0


From 263b0c2e44c4cf8ad05c84887ee40eb5f6ced667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 58/67] fix: arithmetic and comparison of an integer and a
 float signalled a domain error to the handler first

---
 number.go | 68 +++++++++++++++++++++++++++----------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/number.go b/number.go
index 78ce32a..89589ca 100644
--- a/number.go
+++ b/number.go
@@ -52,35 +52,35 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) + _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i + _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) + _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) - _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i - _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) - _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) * _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i * _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) * _n, nil
-	}
 	return nil, err
 }
 
@@ -147,30 +147,30 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return i / _n, nil
+		return Float(i) / _n, nil
 	}
-	if _n, ok := n.(Float); ok {
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return Float(i) / _n, nil
+		return i / _n, nil
 	}
 	return nil, err
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) < _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i < _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
-	}
 	return false, err
 }
 
@@ -200,63 +200,63 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f + Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f + _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f + Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f - Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f - _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f - Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f * Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f * _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f * Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / _n, nil
+		return f / Float(_n), nil
 	}
-	if _n, ok := n.(Integer); ok {
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / Float(_n), nil
+		return f / _n, nil
 	}
 	return nil, err
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Integer); ok {
+		return f < Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f < _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
-	}
 	return false, err
 }
 
-- 
2.43.0


From 712fdb5bb0af92fe1571cc69cb0e8190a77d37e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:33 +0000
Subject: [PATCH 59/67] fix: adding an integer to a character signalled a
 domain error to the handler first

---
 atom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atom.go b/atom.go
index f7d0b68..cfbabda 100644
--- a/atom.go
+++ b/atom.go
@@ -181,24 +181,24 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r + Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r + value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r + Rune(value), nil
-	}
 	return nil, err
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r - Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r - value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r - Rune(value), nil
-	}
 	return nil, err
 }
 
-- 
2.43.0


From 5135711e91a3c4d7a27a1f7fa598e23a5ac82321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 60/67] fix: generic-function-p signalled a domain error for an
 object that is not a function

---
 generic.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generic.go b/generic.go
index c27dcbd..796dbb5 100644
--- a/generic.go
+++ b/generic.go
@@ -243,12 +243,10 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func funGenericFunctionP(ctx context.Context, w *World, arg Node) (Node, error) {
-	f, err := ExpectFunction(ctx, w, arg)
-	if err != nil {
-		return Null, nil
-	}
-	if _, ok := f.(*_Generic); ok {
-		return True, nil
+	if f, ok := arg.(FunctionRef); ok {
+		if _, ok := f.value.(*_Generic); ok {
+			return True, nil
+		}
 	}
 	return Null, nil
 }
-- 
2.43.0


From 4a185588af67db2cd7f15a36f4b98ecd5c970255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 61/67] fix: a macro was expanded in a lambda body although a
 local function or a later definition hides it

---
 lambda.go | 25 +++++++++++--------------
 macro.go  |  4 ----
 world.go  |  1 -
 3 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/lambda.go b/lambda.go
index 6dce558..7042b4e 100644
--- a/lambda.go
+++ b/lambda.go
@@ -91,16 +91,12 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	if !ok {
 		return nil // not a macro form
 	}
-	macro, ok := w.macro[symbol]
-	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
-		ls, ok := f.(*LispString)
-		if !ok {
-			return nil
-		}
+	// A local function or a later definition may hide the macro.
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
+	}
+	if ls, ok := f.(*LispString); ok {
 		fm, err := ls.Eval(ctx, w)
 		if err != nil {
 			return nil
@@ -109,10 +105,11 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 		if !ok {
 			return nil
 		}
-		macro, ok = fmacro.value.(*_Macro)
-		if !ok {
-			return nil
-		}
+		f = fmacro.value
+	}
+	macro, ok := f.(*_Macro)
+	if !ok {
+		return nil
 	}
 	expandCode, err := macro.expand(ctx, w, cons.Cdr)
 	if err != nil {
diff --git a/macro.go b/macro.go
index f3467b0..3492975 100644
--- a/macro.go
+++ b/macro.go
@@ -181,10 +181,6 @@ func cmdDefMacro(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	w.defun.Set(macroName, value)
-	if w.macro == nil {
-		w.macro = make(map[Symbol]*_Macro)
-	}
-	w.macro[macroName] = value
 	return macroName, nil
 }
 
diff --git a/world.go b/world.go
index 651add5..fad0e43 100644
--- a/world.go
+++ b/world.go
@@ -98,7 +98,6 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
 	handler   Callable
 	global    Scope
 	defun     FuncScope
-- 
2.43.0


From c6fe21cf4038798c5f89ee4056bdbee95586179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 62/67] fix: an exit taken while a macro of a lambda body was
 expanded was dropped

---
 lambda.go | 37 +++++++++++++++++++++++++------------
 macro.go  |  2 ++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/lambda.go b/lambda.go
index 7042b4e..55cfff8 100644
--- a/lambda.go
+++ b/lambda.go
@@ -82,44 +82,51 @@ func getParameterList(ctx context.Context, w *World, node Node) (*_Parameters, e
 	}, nil
 }
 
-func expandMacroOne(ctx context.Context, w *World, value Node) Node {
+func expandMacroOne(ctx context.Context, w *World, value Node) (Node, error) {
 	cons, ok := value.(*Cons)
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		return nil // not a macro form
+		return nil, nil // not a macro form
 	}
 	// A local function or a later definition may hide the macro.
 	f, err := w.GetFunc(symbol)
 	if err != nil {
-		return nil
+		return nil, nil
 	}
 	if ls, ok := f.(*LispString); ok {
 		fm, err := ls.Eval(ctx, w)
+		if isNonLocalExit(err) {
+			return nil, err
+		}
 		if err != nil {
-			return nil
+			return nil, nil
 		}
 		fmacro, ok := fm.(FunctionRef)
 		if !ok {
-			return nil
+			return nil, nil
 		}
 		f = fmacro.value
 	}
 	macro, ok := f.(*_Macro)
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	expandCode, err := macro.expand(ctx, w, cons.Cdr)
 	if err != nil {
+		if isNonLocalExit(err) {
+			return nil, err
+		}
 		println(err.Error())
-		return nil
+		return nil, nil
 	}
-	if x := expandMacroOne(ctx, w, expandCode); x != nil {
-		return x
+	x, err := expandMacroOne(ctx, w, expandCode)
+	if err != nil || x != nil {
+		return x, err
 	}
-	return expandCode
+	return expandCode, nil
 }
 
 func expandMacroInList(ctx context.Context, w *World, code Node) (Node, error) {
@@ -131,7 +138,11 @@ func expandMacroInList(ctx context.Context, w *World, code Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if c := expandMacroOne(ctx, w, value); c != nil {
+		c, err := expandMacroOne(ctx, w, value)
+		if err != nil {
+			return nil, err
+		}
+		if c != nil {
 			value = c
 		}
 		newCode = &Cons{Car: value, Cdr: newCode}
@@ -147,6 +158,8 @@ func newLambda(ctx context.Context, w *World, node Node, blockName Symbol) (Call
 	code := p.code
 	if c, err := expandMacroInList(ctx, w, code); err == nil {
 		code = c
+	} else if isNonLocalExit(err) {
+		return nil, err
 	} else {
 		println(err.Error())
 	}
diff --git a/macro.go b/macro.go
index 3492975..e780834 100644
--- a/macro.go
+++ b/macro.go
@@ -156,6 +156,8 @@ func lambdaMacro(ctx context.Context, w *World, n Node) (*_Macro, error) {
 	code := p.code
 	if c, err := expandMacroInList(ctx, w, code); err == nil {
 		code = c
+	} else if isNonLocalExit(err) {
+		return nil, err
 	} else {
 		println(err.Error())
 	}
-- 
2.43.0


From 702984890e0669dac04367ec5559424f7d3704de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:27 +0000
Subject: [PATCH 63/67] fix: lambda signalled again after the handler had taken
 an exit

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index 55cfff8..d1cf57b 100644
--- a/lambda.go
+++ b/lambda.go
@@ -20,6 +20,9 @@ type _Lambda struct {
 
 func cmdLambda(ctx context.Context, w *World, node Node) (Node, error) {
 	value, err := newLambda(ctx, w, node, nulSymbol)
+	if isNonLocalExit(err) {
+		return nil, err
+	}
 	if err != nil {
 		return raiseProgramError(ctx, w, err)
 	}
-- 
2.43.0


From 2a967c9809419fc2b274566fb229c67f5f223a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 64/67] fix: a NaN as a hash table key made entries that could
 not be found or removed

---
 hash.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hash.go b/hash.go
index 5087df5..682e798 100644
--- a/hash.go
+++ b/hash.go
@@ -43,7 +43,7 @@ func funMakeHashTable(ctx context.Context, w *World) (Node, error) {
 }
 
 func canUseHashKey(value Node) bool {
-	switch value.(type) {
+	switch v := value.(type) {
 	case String:
 		return true
 	case Symbol:
@@ -51,7 +51,8 @@ func canUseHashKey(value Node) bool {
 	case Integer:
 		return true
 	case Float:
-		return true
+		// NaN differs from itself: an entry for it could not be found again.
+		return v == v
 	case Rune:
 		return true
 	case Keyword:
-- 
2.43.0


From 72b78fd6f4ce744a97192f24fb4ebcf1e3033c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 65/67] fix: aref and set-aref refused arrays of rank 0

---
 array.go | 7 +++++++
 world.go | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/array.go b/array.go
index 7bf0927..baacd4d 100644
--- a/array.go
+++ b/array.go
@@ -218,6 +218,9 @@ func funAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			dim:  array.dim[1:],
 		}
 	}
+	if len(array.dim) == 0 {
+		return array.list[0], nil
+	}
 	return array, nil
 }
 
@@ -255,6 +258,10 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			dim:  array.dim[1:],
 		}
 	}
+	if len(array.dim) == 0 {
+		array.list[0] = newValue
+		return newValue, nil
+	}
 	_newValue, err := ExpectClass[*Array](ctx, w, newValue)
 	if err != nil {
 		return nil, err
diff --git a/world.go b/world.go
index fad0e43..4a54dfa 100644
--- a/world.go
+++ b/world.go
@@ -277,7 +277,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("and"):                            SpecialF(cmdAnd),
 	NewSymbol("append"):                         &Function{F: funAppend},
 	NewSymbol("apply"):                          SpecialF(cmdApply),
-	NewSymbol("aref"):                           &Function{Min: 2, F: funAref},
+	NewSymbol("aref"):                           &Function{Min: 1, F: funAref},
 	NewSymbol("arithmetic-error-operands"):      Function1(funArithmeticErrorOperands),
 	NewSymbol("arithmetic-error-operation"):     Function1(funArithmeticErrorOperation),
 	NewSymbol("array-dimensions"):               Function1(funArrayDimensions),
@@ -412,7 +412,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("return-from"):                    SpecialF(cmdReturnFrom),
 	NewSymbol("reverse"):                        Function1(funReverse),
 	NewSymbol("round"):                          Function1(funRound),
-	NewSymbol("set-aref"):                       &Function{Min: 3, F: funSetAref},
+	NewSymbol("set-aref"):                       &Function{Min: 2, F: funSetAref},
 	NewSymbol("set-car"):                        Function2(funSetCar),
 	NewSymbol("set-cdr"):                        Function2(funSetCdr),
 	NewSymbol("set-gethash"):                    &Function{C: 3, F: funSetHash},
-- 
2.43.0


From 8de90fc9a9e7706a6e32b1d6e434362ea349b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 66/67] fix: the most specific class's initform initializes a
 slot

---
 class.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/class.go b/class.go
index 488f634..1a886eb 100644
--- a/class.go
+++ b/class.go
@@ -423,13 +423,6 @@ func (c *_StandardObject) GoString() string {
 }
 
 func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
-				return err
-			}
-		}
-	}
 	for name, slot1 := range classDef.Slot {
 		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
 			value, err := slot1.initform()
@@ -439,6 +432,13 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 			reciever.Slot[name] = value
 		}
 	}
+	for _, super := range classDef.Super {
+		if uc, ok := super.(*_StandardClass); ok {
+			if err := reciever.callInitForm(uc); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 35e5358a834e6041d51ac74d91e16abef91e76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 67/67] fix: an initialization argument initializes every slot
 that names it

---
 class.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/class.go b/class.go
index 1a886eb..e7234ed 100644
--- a/class.go
+++ b/class.go
@@ -443,22 +443,24 @@ func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
 }
 
 func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
+	// One initialization argument may initialize several slots.
+	found := false
 	for name, slot := range classDef.Slot {
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
-				return true
+				found = true
 			}
 		}
 	}
 	for _, super := range classDef.Super {
 		if superUc, ok := super.(*_StandardClass); ok {
 			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
+				found = true
 			}
 		}
 	}
-	return false
+	return found
 }
 
 type Uneval struct {
-- 
2.43.0

