From 9d40749d2613fd4b1fd92725feda86b16cb3edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 001/106] fix: tail-call optimization made every iteration
 share one set of variables

Closures made in a tail-recursive loop all saw the last iteration's
variables, a &rest parameter was not rebound and surplus arguments of a
tail call were ignored.
---
 lambda.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index b431521..f76c1dc 100644
--- a/lambda.go
+++ b/lambda.go
@@ -288,6 +288,8 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			break
 		}
 		n = errTailRecOpt.params
+		// Closures made by the previous iteration keep its variables.
+		lexical = Variables{}
 		foundSlash = false
 		for _, name := range L.param {
 			if name == slashSymbol {
@@ -303,10 +305,15 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			value, n, err = Shift(n)
 			if err != nil {
 				// return nil,fmt.Errorf("%w\n\t%s",err,L.name)
-				return nil, err
+				return raiseProgramError(ctx, w, err)
 			}
 			lexical[name] = value
 		}
+		if L.rest != nulSymbol {
+			lexical[L.rest] = n
+		} else if IsSome(n) {
+			return raiseProgramError(ctx, w, ErrTooManyArguments)
+		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
 	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-- 
2.43.0


From 904aa48ec9818a41a8f4fd8873f3b403b5034639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:50 +0000
Subject: [PATCH 002/106] fix: a tail call went to the old definition of a
 redefined function

---
 class.go  | 8 ++++++++
 lambda.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/class.go b/class.go
index 2dab2ac..b3f644a 100644
--- a/class.go
+++ b/class.go
@@ -492,6 +492,14 @@ func UnevalList(list ...Node) Node {
 	return result
 }
 
+func listToUnevalList(list Node) Node {
+	nodes := []Node{}
+	for cons, ok := list.(*Cons); ok; cons, ok = cons.Cdr.(*Cons) {
+		nodes = append(nodes, cons.getCar())
+	}
+	return UnevalList(nodes...)
+}
+
 func funCreate(ctx context.Context, w *World, args []Node) (Node, error) {
 	class, err := ExpectInterface[Class](ctx, w, args[0], classClass)
 	if err != nil {
diff --git a/lambda.go b/lambda.go
index f76c1dc..30bcf2d 100644
--- a/lambda.go
+++ b/lambda.go
@@ -288,6 +288,10 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			break
 		}
 		n = errTailRecOpt.params
+		if f, err := newWorld.GetFunc(L.name); err == nil && f != Callable(L) {
+			// The name has been given another definition in the meantime.
+			return f.Call(ctx, newWorld, listToUnevalList(n))
+		}
 		// Closures made by the previous iteration keep its variables.
 		lexical = Variables{}
 		foundSlash = false
-- 
2.43.0


From 8989036a1666c2200a972b921b2317bc2868c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:30 +0000
Subject: [PATCH 003/106] fix: block and return-from were resolved by name at
 run time, not lexically

A return-from could end a block of the same name in another function, or
an unnamed lambda could take the value of (return) meant for the block
around it.
---
 lambda.go |  4 ----
 progn.go  | 49 ++++++++++++++++++++++++++++++-------------------
 world.go  | 24 ++++++++++++------------
 3 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/lambda.go b/lambda.go
index 30bcf2d..74db86d 100644
--- a/lambda.go
+++ b/lambda.go
@@ -319,10 +319,6 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 			return raiseProgramError(ctx, w, ErrTooManyArguments)
 		}
 	}
-	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
-		return errEarlyReturns.Value, nil
-	}
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: %s returned %#v]\n",
 			traceCount,
diff --git a/progn.go b/progn.go
index 9fe2110..444cc7f 100644
--- a/progn.go
+++ b/progn.go
@@ -6,9 +6,28 @@ import (
 	"fmt"
 )
 
+// _Block is one activation of a block form.
+type _Block struct {
+	name Symbol
+	live bool
+}
+
+func (w *World) findBlock(name Symbol) *_Block {
+	for ; w != nil; w = w.parent {
+		if w.block != nil && w.block.name == name {
+			if !w.block.live {
+				return nil
+			}
+			return w.block
+		}
+	}
+	return nil
+}
+
 type _ErrEarlyReturns struct {
 	Value Node
 	Name  Symbol
+	block *_Block
 }
 
 func (e *_ErrEarlyReturns) Error() string {
@@ -19,13 +38,11 @@ func (e *_ErrEarlyReturns) Error() string {
 }
 
 func funReturn(ctx context.Context, w *World, arg Node) (Node, error) {
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nulSymbol]; !ok {
+	block := w.findBlock(nulSymbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", nulSymbol.String()))
 	}
-	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol}
+	return nil, &_ErrEarlyReturns{Value: arg, Name: nulSymbol, block: block}
 }
 
 func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
@@ -43,17 +60,15 @@ func cmdReturnFrom(ctx context.Context, w *World, n Node) (Node, error) {
 	} else {
 		symbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[symbol]; !ok {
+	block := w.findBlock(symbol)
+	if block == nil {
 		return raiseControlError(ctx, w, fmt.Errorf("block name '%s' not found", symbol.String()))
 	}
 	value, err := w.Eval(ctx, argv[1])
 	if err != nil {
 		return nil, err
 	}
-	return nil, &_ErrEarlyReturns{Value: value, Name: symbol}
+	return nil, &_ErrEarlyReturns{Value: value, Name: symbol, block: block}
 }
 
 func Progn(ctx context.Context, w *World, n Node) (value Node, err error) {
@@ -87,16 +102,12 @@ func cmdBlock(ctx context.Context, w *World, node Node) (Node, error) {
 	} else {
 		nameSymbol = nulSymbol
 	}
-	if w.blockName == nil {
-		w.blockName = make(map[Symbol]struct{})
-	}
-	if _, ok := w.blockName[nameSymbol]; !ok {
-		defer delete(w.blockName, nameSymbol)
-		w.blockName[nameSymbol] = struct{}{}
-	}
+	block := &_Block{name: nameSymbol, live: true}
+	defer func() { block.live = false }()
+	nw := &World{parent: w, shared: w.shared, block: block}
 	var errEarlyReturns *_ErrEarlyReturns
-	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == nameSymbol {
+	rv, err := Progn(ctx, nw, statements)
+	if errors.As(err, &errEarlyReturns) && errEarlyReturns.block == block {
 		return errEarlyReturns.Value, nil
 	}
 	return rv, err
diff --git a/world.go b/world.go
index 348d176..eca614c 100644
--- a/world.go
+++ b/world.go
@@ -97,18 +97,17 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
-	handler   Callable
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
+	macro    map[Symbol]*_Macro
+	handler  Callable
+	global   Scope
+	defun    FuncScope
+	dynamic  Variables
+	stdout   *_WriterNode
+	errout   *_WriterNode
+	stdin    _ReaderNode
+	startup  sync.Once
+	catchTag map[Node]struct{}
+	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -116,6 +115,7 @@ type World struct {
 	parent *World
 	funcs  FuncScope
 	vars   Scope
+	block  *_Block
 }
 
 type _Reader interface {
-- 
2.43.0


From acd766373b1fd50720f03de11f438ddd8bca3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:04 +0000
Subject: [PATCH 004/106] fix: catch tags are compared with eql, and any object
 can be one

A tag that Go can not hash (a hash table) stopped the host program with a
panic, and tags which are only equalp caught each other's throws.
---
 progn.go | 23 +++++++++--------------
 world.go |  2 +-
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/progn.go b/progn.go
index 444cc7f..40c8910 100644
--- a/progn.go
+++ b/progn.go
@@ -128,30 +128,25 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	depth := len(w.catchTag)
+	w.catchTag = append(w.catchTag, tagForm)
+	defer func() { w.catchTag = w.catchTag[:depth] }()
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, STRICT) {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	for _, t := range w.catchTag {
+		if tagForm.Equals(t, STRICT) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+		}
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
diff --git a/world.go b/world.go
index eca614c..a0531ec 100644
--- a/world.go
+++ b/world.go
@@ -106,7 +106,7 @@ type shared struct {
 	errout   *_WriterNode
 	stdin    _ReaderNode
 	startup  sync.Once
-	catchTag map[Node]struct{}
+	catchTag []Node
 	goTag    map[Symbol]struct{}
 }
 
-- 
2.43.0


From 2dff4626f1b09837510aa68f500ae018c361ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:08 +0000
Subject: [PATCH 005/106] fix: go was resolved to any running tagbody with that
 tag, not lexically

---
 progn.go | 66 +++++++++++++++++++++++---------------------------------
 world.go |  2 +-
 2 files changed, 28 insertions(+), 40 deletions(-)

diff --git a/progn.go b/progn.go
index 40c8910..532cd5d 100644
--- a/progn.go
+++ b/progn.go
@@ -342,8 +342,15 @@ func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
 	return value, nil
 }
 
+// _TagBody is one activation of a tagbody form.
+type _TagBody struct {
+	labels map[Symbol]Node
+	live   bool
+}
+
 type _ErrTagBody struct {
-	tag Symbol
+	tag  Symbol
+	body *_TagBody
 }
 
 func (t *_ErrTagBody) Error() string {
@@ -359,21 +366,24 @@ func cmdGo(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
-	if _, ok := w.goTag[symbol]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
+	for p := w; p != nil; p = p.parent {
+		if p.tags == nil {
+			continue
+		}
+		if _, ok := p.tags.labels[symbol]; ok {
+			if !p.tags.live {
+				break
+			}
+			return Null, &_ErrTagBody{tag: symbol, body: p.tags}
+		}
 	}
-	return Null, &_ErrTagBody{tag: symbol}
+	return raiseControlError(ctx, w, fmt.Errorf("go-tag: %s not found", symbol.String()))
 }
 
 func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
-	tag := map[Symbol]Node{}
+	body := &_TagBody{labels: map[Symbol]Node{}, live: true}
+	defer func() { body.live = false }()
 
-	if w.goTag == nil {
-		w.goTag = make(map[Symbol]struct{})
-	}
 	for _args := args; IsSome(_args); {
 		var current Node
 		var err error
@@ -383,13 +393,10 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := current.(Symbol); ok {
-			if _, ok := w.goTag[symbol]; !ok {
-				w.goTag[symbol] = struct{}{}
-				defer delete(w.goTag, symbol)
-			}
+			body.labels[symbol] = _args
 		}
 	}
-mainloop:
+	nw := &World{parent: w, shared: w.shared, tags: body}
 	for IsSome(args) {
 		var current Node
 		var err error
@@ -398,37 +405,18 @@ mainloop:
 		if err != nil {
 			return nil, err
 		}
-		if symbol, ok := current.(Symbol); ok {
-			tag[symbol] = args
+		if _, ok := current.(Symbol); ok {
 			continue
 		}
-		_, err = w.Eval(ctx, current)
+		_, err = nw.Eval(ctx, current)
 		if err == nil {
 			continue
 		}
 		var t *_ErrTagBody
-		if !errors.As(err, &t) {
+		if !errors.As(err, &t) || t.body != body {
 			return nil, err
 		}
-		if next, ok := tag[t.tag]; ok {
-			args = next
-			continue
-		}
-		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
-			}
-			symbol, ok := current.(Symbol)
-			if !ok {
-				continue
-			}
-			tag[symbol] = args
-			if symbol == t.tag {
-				continue mainloop
-			}
-		}
-		return nil, err
+		args = body.labels[t.tag]
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index a0531ec..9ff15c0 100644
--- a/world.go
+++ b/world.go
@@ -107,7 +107,6 @@ type shared struct {
 	stdin    _ReaderNode
 	startup  sync.Once
 	catchTag []Node
-	goTag    map[Symbol]struct{}
 }
 
 type World struct {
@@ -116,6 +115,7 @@ type World struct {
 	funcs  FuncScope
 	vars   Scope
 	block  *_Block
+	tags   *_TagBody
 }
 
 type _Reader interface {
-- 
2.43.0


From a39f482de3034ef680f401d36d08669f13a9d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 006/106] fix: unwind-protect returned the value of its cleanup
 forms

---
 progn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/progn.go b/progn.go
index 532cd5d..5ac3e27 100644
--- a/progn.go
+++ b/progn.go
@@ -322,11 +322,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
-- 
2.43.0


From db7343c6a8efe84bf7eead172a263880222adc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 007/106] fix: handlers run once, where the error arises, with
 the outer handlers in effect

A handler was called again by with-handler after the stack had been
unwound, ran with itself installed, and its own transfer of control could
be lost.  ignore-errors swallowed throw, return-from, go and quit.
---
 atom.go  |  8 +++--
 cond.go  | 73 +++++++++++++++-------------------------------
 cons.go  | 21 +++++++++++--
 error.go | 89 +++++++++++++++++++++++++++++++++++++++++++++++---------
 progn.go |  6 ++++
 utils.go | 20 +++++++++++++
 world.go |  2 +-
 7 files changed, 152 insertions(+), 67 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..7a6e8c2 100644
--- a/atom.go
+++ b/atom.go
@@ -115,8 +115,12 @@ func (_Symbol) ClassOf() Class {
 	return symbolClass
 }
 
-func (s _Symbol) Eval(_ context.Context, w *World) (Node, error) {
-	return w.Get(s)
+func (s _Symbol) Eval(ctx context.Context, w *World) (Node, error) {
+	value, err := w.Get(s)
+	if err != nil {
+		return Null, w.signalError(ctx, err)
+	}
+	return value, nil
 }
 
 func (s _Symbol) Equals(n Node, m EqlMode) bool {
diff --git a/cond.go b/cond.go
index 5c6e2b7..fa2f194 100644
--- a/cond.go
+++ b/cond.go
@@ -6,6 +6,12 @@ import (
 	"fmt"
 )
 
+// _Handler is a handler established with (with-handler).
+type _Handler struct {
+	function Callable
+	outer    *_Handler
+}
+
 func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	_handler, node, err := w.ShiftAndEvalCar(ctx, node)
 	if err != nil {
@@ -17,39 +23,8 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = handler
-	value, err := Progn(ctx, w, node)
-
-	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
-	// 呼ばなければいけないが、 古いコードは error を返して、error の処理元で
-	// ハンドラー関数を呼ぶことを想定し、エラー発生箇所で呼べていない
-	//
-	// エラー発生箇所でハンドラー関数が呼ばれて、ここに戻る時は大域脱出系エラーで
-	// 戻ってくるはずなので、そういった場合は、ここでハンドラー関数を呼ばない
-	// ようにしている
-	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
-
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
-		return value, err
-	}
-
-	var errorValue interface {
-		Node
-		Error() string
-	}
-	var err2 error
-	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
-	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
-	}
-	if err2 != nil {
-		return nil, err2
-	}
-	return nil, err
+	w.handler = &_Handler{function: handler, outer: oldHandler}
+	return Progn(ctx, w, node)
 }
 
 type _ErrContinueCondition struct {
@@ -69,24 +44,24 @@ var reportCondition = &_Generic{
 }
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
-	if w.handler == nil {
-		buffer := &StringBuilder{}
-		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
-			return nil, errors.New(buffer.String())
-		} else if !errors.Is(err, ErrNoMatchMethods) {
-			return nil, fmt.Errorf("%w in (report-condition)", err)
-		}
-		if err, ok := cond.(error); ok {
-			return nil, err
-		}
-		return nil, errors.New(cond.String())
+	value, ok, err := w.signal(ctx, IsSome(continueable), cond)
+	if ok || err != nil {
+		return value, err
+	}
+	return nil, &_ErrSignaled{unhandledCondition(ctx, w, cond)}
+}
+
+func unhandledCondition(ctx context.Context, w *World, cond Node) error {
+	buffer := &StringBuilder{}
+	if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
+		return errors.New(buffer.String())
+	} else if !errors.Is(err, ErrNoMatchMethods) {
+		return fmt.Errorf("%w in (report-condition)", err)
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
-	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
-		return e.Value, nil
+	if err, ok := cond.(error); ok {
+		return err
 	}
-	return rv, err
+	return errors.New(cond.String())
 }
 
 func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error) {
diff --git a/cons.go b/cons.go
index 80dc726..4b889c6 100644
--- a/cons.go
+++ b/cons.go
@@ -201,12 +201,29 @@ func (cons *Cons) Eval(ctx context.Context, w *World) (Node, error) {
 	} else {
 		function, _err := w.GetFunc(symbol)
 		if _err != nil {
-			return nil, _err
+			return nil, w.signalError(ctx, _err)
 		}
 		rc, err = function.Call(ctx, w, cons.Cdr)
 	}
 	if err != nil {
-		return nil, fmt.Errorf("%w\n\tat %v", err, symbol)
+		if _, ok := err.(*_ErrAt); !ok {
+			err = w.signalError(ctx, err)
+		}
+		return nil, &_ErrAt{err: err, at: symbol}
 	}
 	return rc, nil
 }
+
+// _ErrAt tells in which form the error occurred.
+type _ErrAt struct {
+	err error
+	at  Symbol
+}
+
+func (e *_ErrAt) Error() string {
+	return fmt.Sprintf("%v\n\tat %v", e.err, e.at)
+}
+
+func (e *_ErrAt) Unwrap() error {
+	return e.err
+}
diff --git a/error.go b/error.go
index 8c49c20..dcab43c 100644
--- a/error.go
+++ b/error.go
@@ -134,24 +134,87 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
+// _ErrSignaled marks an error which the handlers have been told about.
+type _ErrSignaled struct {
+	error
+}
 
-func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
-	var zero T
-	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
+func (e *_ErrSignaled) Unwrap() error {
+	return e.error
+}
+
+// isExit returns whether err is a transfer of control and not an error.
+func isExit(ctx context.Context, err error) bool {
+	var e1 *_ErrEarlyReturns      // block & return-from
+	var e2 *_ErrThrown            // catch & throw
+	var e3 *_ErrTagBody           // tagbody & go
+	var e4 *_ErrContinueCondition // continue-condition
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || errors.As(err, &e4) ||
+		errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) || ctx.Err() != nil
+}
+
+// signal calls the handlers, the innermost one first, where the condition
+// arises. Each one runs while the handlers around it are in effect.
+// When one continues the condition, signal returns the value and true.
+// Otherwise the error is not nil when one has left by a transfer of control
+// or an error of its own.
+func (w *World) signal(ctx context.Context, cont bool, condition Node) (Node, bool, error) {
+	save := w.handler
+	defer func() { w.handler = save }()
+	for h := save; h != nil; h = h.outer {
+		w.handler = h.outer
+		_, err := h.function.Call(ctx, w, UnevalList(condition))
+		if err == nil {
+			continue
 		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
 		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
-				return v, nil
-			}
+		if cont && errors.As(err, &ce) && sameNode(ce.Cond, condition) {
+			return ce.Value, true, nil
+		}
+		if isExit(ctx, err) {
+			return nil, false, err
+		}
+		return nil, false, &_ErrSignaled{err}
+	}
+	return nil, false, nil
+}
+
+// signalError signals an error that has come out of an evaluation
+// unless the handlers know it already.
+func (w *World) signalError(ctx context.Context, err error) error {
+	if w.handler == nil {
+		return err
+	}
+	var done *_ErrSignaled
+	if errors.As(err, &done) || isExit(ctx, err) {
+		return err
+	}
+	var condition Node = ErrorNode{Value: err}
+	var errorValue errorAndNode
+	if errors.As(err, &errorValue) {
+		condition = errorValue
+	}
+	if _, _, e := w.signal(ctx, false, condition); e != nil {
+		return e
+	}
+	return &_ErrSignaled{err}
+}
+
+func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
+	var zero T
+	if w.handler == nil {
+		return zero, condition
+	}
+	value, ok, err := w.signal(ctx, cont, condition)
+	if err != nil {
+		return zero, err
+	}
+	if ok {
+		if v, ok := value.(T); ok {
+			return v, nil
 		}
 	}
-	return zero, condition
+	return zero, &_ErrSignaled{condition}
 }
 
 func ExpectInterface[T Node](ctx context.Context, w *World, v Node, class Class) (T, error) {
diff --git a/progn.go b/progn.go
index 5ac3e27..06c4951 100644
--- a/progn.go
+++ b/progn.go
@@ -420,8 +420,14 @@ func cmdTagBody(ctx context.Context, w *World, args Node) (Node, error) {
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
+	save := w.handler
+	defer func() { w.handler = save }()
+	w.handler = nil
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if isExit(ctx, err) {
+			return nil, err
+		}
 		return Null, nil
 	}
 	return val, nil
diff --git a/utils.go b/utils.go
index dc050b7..6db5951 100644
--- a/utils.go
+++ b/utils.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"reflect"
 
 	"github.com/hymkor/gmnlisp/pkg/parser"
 )
@@ -120,6 +121,25 @@ func checkContext(ctx context.Context) error {
 	}
 }
 
+// sameNode returns whether a and b are the same object.
+func sameNode(a, b Node) bool {
+	if a == nil || b == nil {
+		return IsNone(a) && IsNone(b)
+	}
+	ta := reflect.TypeOf(a)
+	if ta != reflect.TypeOf(b) {
+		return false
+	}
+	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
+	switch ta.Kind() {
+	case reflect.Map:
+		return va.Pointer() == vb.Pointer()
+	case reflect.Slice:
+		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
+	}
+	return va.Comparable() && vb.Comparable() && a == b
+}
+
 func ignoreEOF(err error) error {
 	if err == io.EOF {
 		return nil
diff --git a/world.go b/world.go
index 9ff15c0..19cc5db 100644
--- a/world.go
+++ b/world.go
@@ -98,7 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	macro    map[Symbol]*_Macro
-	handler  Callable
+	handler  *_Handler
 	global   Scope
 	defun    FuncScope
 	dynamic  Variables
-- 
2.43.0


From 2d5d9ff7c9f3cd2c77d761ba0db5f581361e1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 008/106] fix: cerror failed with an unbound variable

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..32909c1 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply #'format str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From 3ab18657247ce980e2f39b25f334f8a03fc47011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 009/106] fix: defining a function destroyed ((lambda ...) ...)
 forms in its body

The macro expander rebuilt such a form from its unexpanded parts, which
are nil, and also took a local function for the macro of that name.
---
 lambda.go | 28 +++++++++++-----------------
 macro.go  |  4 ----
 world.go  |  1 -
 3 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/lambda.go b/lambda.go
index 74db86d..8fb5b50 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,20 +89,13 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
-	macro, ok := w.macro[symbol]
-	if !ok {
-		f, err := w.GetFunc(symbol)
-		if err != nil {
-			return nil
-		}
-		ls, ok := f.(*LispString)
-		if !ok {
-			return nil
-		}
+	f, err := w.GetFunc(symbol)
+	if err != nil {
+		return nil
+	}
+	if ls, ok := f.(*LispString); ok {
 		fm, err := ls.Eval(ctx, w)
 		if err != nil {
 			return nil
@@ -111,10 +104,11 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 		if !ok {
 			return nil
 		}
-		macro, ok = fmacro.value.(*_Macro)
-		if !ok {
-			return nil
-		}
+		f = fmacro.value
+	}
+	macro, ok := f.(*_Macro)
+	if !ok {
+		return nil
 	}
 	expandCode, err := macro.expand(ctx, w, cons.Cdr)
 	if err != nil {
diff --git a/macro.go b/macro.go
index bb0c4a2..41e005c 100644
--- a/macro.go
+++ b/macro.go
@@ -184,10 +184,6 @@ func cmdDefMacro(ctx context.Context, w *World, n Node) (Node, error) {
 		return nil, err
 	}
 	w.defun.Set(macroName, value)
-	if w.macro == nil {
-		w.macro = make(map[Symbol]*_Macro)
-	}
-	w.macro[macroName] = value
 	return macroName, nil
 }
 
diff --git a/world.go b/world.go
index 19cc5db..8f2528b 100644
--- a/world.go
+++ b/world.go
@@ -97,7 +97,6 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro    map[Symbol]*_Macro
 	handler  *_Handler
 	global   Scope
 	defun    FuncScope
-- 
2.43.0


From 16eab132d6a8b5a5de7299738ea80261cf6bbcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 010/106] fix: a library function was compiled in the scope of
 its first caller

and kept, for every World, the local variables and functions it saw there.
---
 lambda.go | 4 ++++
 world.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 8fb5b50..9ddd648 100644
--- a/lambda.go
+++ b/lambda.go
@@ -623,6 +623,10 @@ type LispString struct {
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
 	if L.compile == nil {
+		// The definition must not see the variables of its first user.
+		for w.parent != nil {
+			w = w.parent
+		}
 		c, err := w.Interpret(ctx, L.S)
 		if err != nil {
 			return nil, err
diff --git a/world.go b/world.go
index 8f2528b..d1a05be 100644
--- a/world.go
+++ b/world.go
@@ -471,6 +471,11 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 		return value, true
 	}
 	if value, ok := autoLoadFunc[symbol]; ok {
+		if L, ok := value.(*LispString); ok {
+			// its compiled code belongs to one World
+			value = &LispString{S: L.S}
+			rw[symbol] = value
+		}
 		return value, true
 	}
 	fname := "embed/" + symbol.String() + ".lsp"
@@ -478,7 +483,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		rw[symbol] = value
 		return value, true
 	}
 	return nil, false
-- 
2.43.0


From a6c0cb8efbb8d5b4b7c6e2141ffe11709d4486b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:43 +0000
Subject: [PATCH 011/106] fix: mixed integer and float arithmetic called the
 error handler

---
 atom.go   | 12 +++++-----
 number.go | 68 +++++++++++++++++++++++++++----------------------------
 2 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/atom.go b/atom.go
index 7a6e8c2..88b17eb 100644
--- a/atom.go
+++ b/atom.go
@@ -180,24 +180,24 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r + Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r + value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r + Rune(value), nil
-	}
 	return nil, err
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if value, ok := n.(Integer); ok {
+		return r - Rune(value), nil
+	}
 	value, err := ExpectClass[Rune](ctx, w, n)
 	if err == nil {
 		return r - value, nil
 	}
-	if value, ok := n.(Integer); ok {
-		return r - Rune(value), nil
-	}
 	return nil, err
 }
 
diff --git a/number.go b/number.go
index 78ce32a..89589ca 100644
--- a/number.go
+++ b/number.go
@@ -52,35 +52,35 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) + _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i + _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) + _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) - _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i - _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) - _n, nil
-	}
 	return nil, err
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) * _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i * _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) * _n, nil
-	}
 	return nil, err
 }
 
@@ -147,30 +147,30 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return i / _n, nil
+		return Float(i) / _n, nil
 	}
-	if _n, ok := n.(Float); ok {
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
-		return Float(i) / _n, nil
+		return i / _n, nil
 	}
 	return nil, err
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Float); ok {
+		return Float(i) < _n, nil
+	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
 		return i < _n, nil
 	}
-	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
-	}
 	return false, err
 }
 
@@ -200,63 +200,63 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f + Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f + _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f + Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f - Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f - _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f - Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
+	if _n, ok := n.(Integer); ok {
+		return f * Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f * _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f * Float(_n), nil
-	}
 	return nil, err
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
+	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / _n, nil
+		return f / Float(_n), nil
 	}
-	if _n, ok := n.(Integer); ok {
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err == nil {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
-		return f / Float(_n), nil
+		return f / _n, nil
 	}
 	return nil, err
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
+	if _n, ok := n.(Integer); ok {
+		return f < Float(_n), nil
+	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
 		return f < _n, nil
 	}
-	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
-	}
 	return false, err
 }
 
-- 
2.43.0


From 08425cf3397d265b07ce6f68fd5147adccfacf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 012/106] fix: mod, rem and oddp were wrong for negative
 numbers, and rem by zero panicked

---
 cmds.go     |  2 +-
 operator.go | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..29bc076 100644
--- a/cmds.go
+++ b/cmds.go
@@ -151,7 +151,7 @@ func funMinusp(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funOddp(_ context.Context, _ *World, arg Node) (Node, error) {
-	if value, ok := arg.(Integer); ok && value%2 == 1 {
+	if value, ok := arg.(Integer); ok && value%2 != 0 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/operator.go b/operator.go
index adaa3fd..99287ba 100644
--- a/operator.go
+++ b/operator.go
@@ -249,9 +249,20 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 		right = float64(int(_right))
 		bits |= 2
 	}
-	value := math.Remainder(float64(left), float64(right))
+	if right == 0 {
+		return raiseDivisionByZero(ctx, w, first, second)
+	}
 	if bits == 3 {
-		return Integer(int(value)), nil
+		l, r := first.(Integer), second.(Integer)
+		value := l % r
+		if value != 0 && (value < 0) != (r < 0) {
+			value += r
+		}
+		return value, nil
+	}
+	value := math.Mod(left, right)
+	if value != 0 && (value < 0) != (right < 0) {
+		value += right
 	}
 	return Float(value), nil
 }
@@ -259,14 +270,23 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Integer(left % right), nil
 		}
 	}
 	if left, ok := first.(Float); ok {
 		if right, ok := second.(Float); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Float(math.Mod(float64(left), float64(right))), nil
 		}
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Float(math.Mod(float64(left), float64(int(right)))), nil
 		}
 	}
-- 
2.43.0


From decfc0ccd67d6263f619f8da6fa2696f8a4211af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 013/106] fix: comparing more than two operands failed, and (=
 nil nil) was false

---
 operator.go | 111 ++++++++++++++++++++--------------------------------
 1 file changed, 43 insertions(+), 68 deletions(-)

diff --git a/operator.go b/operator.go
index 99287ba..20fbabc 100644
--- a/operator.go
+++ b/operator.go
@@ -5,16 +5,6 @@ import (
 	"math"
 )
 
-func notNullToTrue(v Node, err error) (Node, error) {
-	if v == nil || err != nil {
-		return Null, err
-	}
-	if _, ok := v.(_NullType); ok {
-		return Null, err
-	}
-	return True, err
-}
-
 type canPlus interface {
 	Node
 	Add(context.Context, *World, Node) (Node, error)
@@ -82,81 +72,66 @@ type canLessThan interface {
 	LessThan(context.Context, *World, Node) (bool, error)
 }
 
-func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
+// compareAll tests every two neighbours, which are all compared so that
+// an operand which can not be is always an error.
+func compareAll(list []Node, f func(left, right Node) (bool, error)) (Node, error) {
+	if len(list) <= 0 {
+		return Null, nil
+	}
+	result := True
+	for i := 1; i < len(list); i++ {
+		ok, err := f(list[i-1], list[i])
+		if err != nil {
+			return Null, err
 		}
-		return nil, MakeError(ErrNotSupportType, left)
-	}))
+		if !ok {
+			result = Null
+		}
+	}
+	return result, nil
+}
+
+func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
+	if _left, ok := left.(canLessThan); ok {
+		return _left.LessThan(ctx, w, right)
+	}
+	return false, MakeError(ErrNotSupportType, left)
+}
+
+func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
+	return compareAll(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, left, right)
+	})
 }
 
 func funGreaterThan(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return right, nil
-			}
-			return Null, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+	return compareAll(args, func(left, right Node) (bool, error) {
+		return lessThan(ctx, w, right, left)
+	})
 }
 
 func funEqualOp(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
-		if left.Equals(right, EQUALP) {
-			return right, nil
-		}
-		return Null, nil
-	}))
+	return compareAll(args, func(left, right Node) (bool, error) {
+		return left.Equals(right, EQUALP), nil
+	})
 }
 
 func funGreaterOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareAll(args, func(left, right Node) (bool, error) {
 		//     left >= right
 		// <=> not (left < right )
-		if _left, ok := left.(canLessThan); ok {
-			result, err := _left.LessThan(ctx, w, right)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, left, right)
+		return !result, err
+	})
 }
 
 func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
-	return notNullToTrue(inject(args, func(left, right Node) (Node, error) {
+	return compareAll(args, func(left, right Node) (bool, error) {
 		//     left <= right
 		// <=> not (right < left)
-		if _right, ok := right.(canLessThan); ok {
-			result, err := _right.LessThan(ctx, w, left)
-			if err != nil {
-				return Null, err
-			}
-			if result {
-				return Null, nil
-			}
-			return right, nil
-		}
-		return nil, MakeError(ErrNotSupportType, right)
-	}))
+		result, err := lessThan(ctx, w, right, left)
+		return !result, err
+	})
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
-- 
2.43.0


From cd9c90f60d1c30e0f10d76ada7a4dce37bf84647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 014/106] fix: eq and eql on functions, hash tables, streams
 and arrays did not tell objects apart

---
 array.go       |  5 ++++-
 cmds.go        |  2 +-
 functionref.go |  2 +-
 hash.go        |  2 +-
 newtypes.go    | 30 +++++++++++++++---------------
 utils.go       | 15 +++++++++++++++
 6 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/array.go b/array.go
index 89d9cee..a4d8a08 100644
--- a/array.go
+++ b/array.go
@@ -106,6 +106,9 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
+	if mode == STRICT {
+		return A == B
+	}
 	if len(A.dim) != len(B.dim) {
 		return false
 	}
@@ -118,7 +121,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !v.Equals(B.list[i], mode) {
 			return false
 		}
 	}
diff --git a/cmds.go b/cmds.go
index 29bc076..aa8b65e 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,7 +68,7 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return sameNode(left, right)
 	})
 }
 
diff --git a/functionref.go b/functionref.go
index f4ec65c..d9365a6 100644
--- a/functionref.go
+++ b/functionref.go
@@ -21,7 +21,7 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	if !ok {
 		return false
 	}
-	return f.value == _other.value
+	return sameCallable(f.value, _other.value)
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
diff --git a/hash.go b/hash.go
index e330e0c..0f5e867 100644
--- a/hash.go
+++ b/hash.go
@@ -10,7 +10,7 @@ import (
 type _Hash map[Node]Node
 
 func (h _Hash) Equals(other Node, mode EqlMode) bool {
-	return false
+	return sameNode(h, other)
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..374d304 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -6,8 +6,8 @@ func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
 }
 
-func (t *StringBuilder) Equals(Node, EqlMode) bool {
-	return false
+func (t *StringBuilder) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
 var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
@@ -16,8 +16,8 @@ func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
 }
 
-func (t *inputStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *inputStream) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
 func (t *inputStream) String() string {
@@ -30,16 +30,16 @@ func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
 }
 
-func (t *_OutputFileStream) Equals(Node, EqlMode) bool {
-	return false
+func (t *_OutputFileStream) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
 func (t *_OutputFileStream) String() string {
 	return "(*_OutputFileStream)"
 }
 
-func (t *_Macro) Equals(Node, EqlMode) bool {
-	return false
+func (t *_Macro) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
 func (t *_Macro) String() string {
@@ -52,24 +52,24 @@ func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
 }
 
-func (t _ReaderNode) Equals(Node, EqlMode) bool {
-	return false
+func (t _ReaderNode) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
 func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewBuiltInClass[*_WriterNode]("<_WriterNode>")
 
-func (_WriterNode) ClassOf() Class {
+func (*_WriterNode) ClassOf() Class {
 	return writerNodeClass
 }
 
-func (t _WriterNode) Equals(Node, EqlMode) bool {
-	return false
+func (t *_WriterNode) Equals(other Node, _ EqlMode) bool {
+	return sameNode(t, other)
 }
 
-func (t _WriterNode) String() string {
+func (t *_WriterNode) String() string {
 	return "(_WriterNode)"
 }
diff --git a/utils.go b/utils.go
index 6db5951..1e9370f 100644
--- a/utils.go
+++ b/utils.go
@@ -126,6 +126,10 @@ func sameNode(a, b Node) bool {
 	if a == nil || b == nil {
 		return IsNone(a) && IsNone(b)
 	}
+	if fa, ok := a.(FunctionRef); ok {
+		fb, ok := b.(FunctionRef)
+		return ok && sameCallable(fa.value, fb.value)
+	}
 	ta := reflect.TypeOf(a)
 	if ta != reflect.TypeOf(b) {
 		return false
@@ -140,6 +144,17 @@ func sameNode(a, b Node) bool {
 	return va.Comparable() && vb.Comparable() && a == b
 }
 
+func sameCallable(a, b Callable) bool {
+	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
+	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
+		return va.IsValid() == vb.IsValid()
+	}
+	if va.Kind() == reflect.Func {
+		return va.Pointer() == vb.Pointer()
+	}
+	return va.Comparable() && vb.Comparable() && a == b
+}
+
 func ignoreEOF(err error) error {
 	if err == io.EOF {
 		return nil
-- 
2.43.0


From f287529a5dcb05ab3256da325695e730bd83fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 015/106] fix: while returned the value of its body instead of
 nil

---
 progn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/progn.go b/progn.go
index 06c4951..27e94fd 100644
--- a/progn.go
+++ b/progn.go
@@ -250,7 +250,6 @@ func cmdWhile(ctx context.Context, w *World, n Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var last Node = Null
 	for {
 		if err := checkContext(ctx); err != nil {
 			return nil, err
@@ -260,10 +259,9 @@ func cmdWhile(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 		if IsNone(cont) {
-			return last, nil
+			return Null, nil
 		}
-		last, err = Progn(ctx, w, statements)
-		if err != nil {
+		if _, err := Progn(ctx, w, statements); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 16c40eb8928f2cedecada904541cb6f14d678db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 016/106] fix: a cond clause with only a test returned nil

---
 progn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/progn.go b/progn.go
index 27e94fd..d425d82 100644
--- a/progn.go
+++ b/progn.go
@@ -167,6 +167,9 @@ func cmdCondWithTailRecOpt(ctx context.Context, w *World, list Node, currFunc Sy
 			return nil, err
 		}
 		if IsSome(cond) {
+			if IsNone(act) {
+				return cond, nil
+			}
 			return prognWithTailRecOpt(ctx, w, act, currFunc)
 		}
 	}
-- 
2.43.0


From e82f9c3bd1fb8590600801d1a8249836ee6be4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:48 +0000
Subject: [PATCH 017/106] fix: (and) and (or) without forms failed

---
 operator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operator.go b/operator.go
index 20fbabc..1d25f7e 100644
--- a/operator.go
+++ b/operator.go
@@ -135,6 +135,9 @@ func funLessOrEqual(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return True, nil
+	}
 	for {
 		var value Node
 		var err error
@@ -153,6 +156,9 @@ func cmdAnd(ctx context.Context, w *World, param Node) (Node, error) {
 }
 
 func cmdOr(ctx context.Context, w *World, param Node) (Node, error) {
+	if IsNone(param) {
+		return Null, nil
+	}
 	for {
 		var value Node
 		var err error
-- 
2.43.0


From 079454f5c2039fcf1f5a6df46a108da40fb15145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 018/106] fix: case compared its keys with equalp, ignoring
 case and number types

---
 progn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/progn.go b/progn.go
index d425d82..3466855 100644
--- a/progn.go
+++ b/progn.go
@@ -204,7 +204,7 @@ func cmdCase(ctx context.Context, w *World, list Node) (Node, error) {
 				if err != nil {
 					return nil, err
 				}
-				if swValue.Equals(_caseValue, EQUALP) {
+				if swValue.Equals(_caseValue, STRICT) {
 					return Progn(ctx, w, act)
 				}
 			}
-- 
2.43.0


From 0ce08820d6cefd270dde036d5179c349b716cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 019/106] fix: case-using evaluated its keys, and its predicate
 once per key

---
 embed/case-using.lsp | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 4665747..3b02644 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,22 +1,18 @@
-(lambda-macro (predform keyform &rest body)
-  (let ((keyform_ (gensym)))
-    (setq body
-          (mapcar
-            (lambda (entry)
-              (if (equal (car entry) 't)
-                entry
-                (append
-                  (list
-                    (cons
-                      'or
-                      (mapcar
-                        (lambda (key1)
-                          (list 'funcall predform keyform_ key1))
-                        (car entry))))
-                      (cdr entry)))
-                  ) body))
-    (setq body (cons 'cond body))
-    (setq body `(let ((,keyform_ ,keyform)) ,body))
-    ;(format t "~s~%" body)
-    ;body
-    ))
+(lambda-macro (predform keyform &rest body)
+  (let ((predform_ (gensym)) (keyform_ (gensym)))
+    (setq body
+          (mapcar
+            (lambda (entry)
+              (cons
+                (if (equal (car entry) 't)
+                  't
+                  (cons
+                    'or
+                    (mapcar
+                      (lambda (key1)
+                        (list 'funcall predform_ keyform_ (list 'quote key1)))
+                      (car entry))))
+                (or (cdr entry) '(nil))))
+            body))
+    (setq body (cons 'cond body))
+    `(let ((,predform_ ,predform) (,keyform_ ,keyform)) ,body)))
-- 
2.43.0


From b9045279c2de330e34d68760c2c23e338bcc47bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 020/106] fix: dynamic-let bound its variables one after
 another and lost the old value of a repeated one

---
 setq.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..451d315 100644
--- a/setq.go
+++ b/setq.go
@@ -233,10 +233,13 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
-		D.backups[symbol] = orig
-	} else {
-		D.removes[symbol] = struct{}{}
+	_, saved := D.backups[symbol]
+	if _, ok := D.removes[symbol]; !ok && !saved {
+		if orig, ok := D.world.dynamic.Get(symbol); ok {
+			D.backups[symbol] = orig
+		} else {
+			D.removes[symbol] = struct{}{}
+		}
 	}
 	if newValue != nil {
 		D.world.dynamic.Set(symbol, newValue)
@@ -255,6 +258,11 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 		return nil, err
 	}
 
+	type bindT struct {
+		symbol Symbol
+		value  Node
+	}
+	binds := []bindT{}
 	for IsSome(vars) {
 		var varAndValue Node
 		varAndValue, vars, err = Shift(vars)
@@ -262,7 +270,7 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			return nil, err
 		}
 		if symbol, ok := varAndValue.(Symbol); ok {
-			D.Set(symbol, Null)
+			binds = append(binds, bindT{symbol, Null})
 		} else {
 			var symbolNode Node
 			var value Node
@@ -282,8 +290,12 @@ func cmdDynamicLet(ctx context.Context, w *World, list Node) (Node, error) {
 			if IsSome(varAndValue) {
 				return nil, ErrTooManyArguments
 			}
-			D.Set(symbol, value)
+			binds = append(binds, bindT{symbol, value})
 		}
 	}
+	// The values are computed before any of the variables is bound.
+	for _, b := range binds {
+		D.Set(b.symbol, b.value)
+	}
 	return Progn(ctx, w, list)
 }
-- 
2.43.0


From a19141fc2f81f97036c248a01602f37b8d1391e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 021/106] fix: apply evaluated its last argument first and
 ignored an improper one

---
 lambda.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lambda.go b/lambda.go
index 9ddd648..ab4eb1c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -460,23 +460,21 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 	for {
 		var value Node
 
-		value, list, err = Shift(list)
+		value, list, err = w.ShiftAndEvalCar(ctx, list)
 		if err != nil {
 			return nil, err
 		}
 		if IsNone(list) {
 			// value is the last argument = array
-			value, err := w.Eval(ctx, value)
+			err := SeqEach(ctx, w, value, func(n Node) error {
+				return newargs.Add(ctx, w, Uneval{n})
+			})
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
-				newargs.Add(ctx, w, Uneval{n})
-				return nil
-			})
 			return f.Call(ctx, w, newargs.Sequence())
 		}
-		newargs.Add(ctx, w, value)
+		newargs.Add(ctx, w, Uneval{value})
 	}
 }
 
-- 
2.43.0


From 633e8a65210881c1448f23ec0eaf9c9ef3694306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 022/106] fix: for initialized its variables backwards and took
 exactly one result form

---
 embed/for.lsp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embed/for.lsp b/embed/for.lsp
index ef367dc..0531cef 100644
--- a/embed/for.lsp
+++ b/embed/for.lsp
@@ -2,7 +2,7 @@
   (let ((inits nil)
         (steps '(psetq))
         (test (car test-result))
-        (result (elt test-result 1)))
+        (result (cons 'progn (cdr test-result))))
     (while iters
       (let* ((iteration-spec (car iters))
              (var (car iteration-spec))
@@ -13,6 +13,7 @@
             (setq steps (append steps (list var step))))))
         (setq iters (cdr iters))
       ) ; while
+    (setq inits (reverse inits))
     (if (> (length steps) 1)
       `(let ,inits (while (not ,test) ,@body ,steps) ,result)
       `(let ,inits (while (not ,test) ,@body) ,result))
-- 
2.43.0


From 3765397f82ddcc8ae546467ce188888fc2331ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:37 +0000
Subject: [PATCH 023/106] fix: <number> was unbound and <float> was not a
 subclass of it

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index 89589ca..ffcba38 100644
--- a/number.go
+++ b/number.go
@@ -8,7 +8,7 @@ import (
 )
 
 var numberClass = &_BuiltInClass{
-	name: NewSymbol("number"),
+	name: NewSymbol("<number>"),
 	instanceP: func(n Node) bool {
 		if _, ok := n.(Integer); ok {
 			return true
@@ -176,7 +176,7 @@ func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 
 type Float float64
 
-var floatClass = registerNewBuiltInClass[Float]("<float>")
+var floatClass = registerNewBuiltInClass[Float]("<float>", numberClass)
 
 func (Float) ClassOf() Class {
 	return floatClass
-- 
2.43.0


From 11968b42c50bfd89ee665b1837d2be90f67c9b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 024/106] fix: arithmetic and undefined-entity condition
 classes had each other's instances, or all objects

---
 builtinclass.go | 10 ++++++++++
 cmds.go         |  4 ++--
 error.go        |  4 ++--
 number.go       |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 623f995..01d1f7c 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -109,3 +109,13 @@ func registerNewAbstractClass[T Node](name string, super ...Class) *_BuiltInClas
 	autoLoadVars[class.name] = class
 	return class
 }
+
+// registerNewConditionClass makes a class of conditions whose Go type
+// is shared with other classes.
+func registerNewConditionClass(name string, super ...Class) *_BuiltInClass {
+	class := registerNewAbstractClass[Node](name, super...)
+	class.instanceP = func(n Node) bool {
+		return class.Equals(n.ClassOf(), STRICT)
+	}
+	return class
+}
diff --git a/cmds.go b/cmds.go
index aa8b65e..c077166 100644
--- a/cmds.go
+++ b/cmds.go
@@ -179,8 +179,8 @@ func funAnyTypep[T Node](_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var (
-	floatingPointOverflowClass  = registerNewAbstractClass[Node]("<floating-point-overflow>", arithmeticErrorClass)
-	floatingPointUnderflowClass = registerNewAbstractClass[Node]("<floating-point-underflow>", arithmeticErrorClass)
+	floatingPointOverflowClass  = registerNewConditionClass("<floating-point-overflow>", arithmeticErrorClass)
+	floatingPointUnderflowClass = registerNewConditionClass("<floating-point-underflow>", arithmeticErrorClass)
 )
 
 func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
diff --git a/error.go b/error.go
index dcab43c..7555c29 100644
--- a/error.go
+++ b/error.go
@@ -265,8 +265,8 @@ func (u *_UndefinedEntity) Equals(other Node, mode EqlMode) bool {
 
 var (
 	undefinedEntityClass   = registerNewAbstractClass[*_UndefinedEntity]("<undefined-entity>", programErrorClass)
-	unboundVariableClass   = registerNewAbstractClass[*_UndefinedEntity]("<unbound-variable>", undefinedEntityClass)
-	undefinedFunctionClass = registerNewAbstractClass[*_UndefinedEntity]("<undefined-function>", undefinedEntityClass)
+	unboundVariableClass   = registerNewConditionClass("<unbound-variable>", undefinedEntityClass)
+	undefinedFunctionClass = registerNewConditionClass("<undefined-function>", undefinedEntityClass)
 )
 
 func (u *_UndefinedEntity) ClassOf() Class {
diff --git a/number.go b/number.go
index ffcba38..37c2d2b 100644
--- a/number.go
+++ b/number.go
@@ -90,7 +90,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error>", errorClass)
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
@@ -120,7 +120,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewAbstractClass[*ArithmeticError]("<division-by-zero>")
+var divisionByZeroClass = registerNewConditionClass("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
-- 
2.43.0


From 91a6cbbb4a2dae21f66ead9f14d455d0c8cfa088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 025/106] fix: strings were instances of <list>, and <cons> was
 not a subclass of it

---
 builtinclass.go | 6 +++---
 cmds.go         | 4 ++--
 cons.go         | 2 +-
 error.go        | 4 ++--
 number.go       | 2 +-
 sequence.go     | 2 +-
 6 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/builtinclass.go b/builtinclass.go
index 01d1f7c..e3108ad 100644
--- a/builtinclass.go
+++ b/builtinclass.go
@@ -110,9 +110,9 @@ func registerNewAbstractClass[T Node](name string, super ...Class) *_BuiltInClas
 	return class
 }
 
-// registerNewConditionClass makes a class of conditions whose Go type
-// is shared with other classes.
-func registerNewConditionClass(name string, super ...Class) *_BuiltInClass {
+// registerNewExactClass makes a class whose instances have it, or a class
+// under it, as their class, whatever Go type they are of.
+func registerNewExactClass(name string, super ...Class) *_BuiltInClass {
 	class := registerNewAbstractClass[Node](name, super...)
 	class.instanceP = func(n Node) bool {
 		return class.Equals(n.ClassOf(), STRICT)
diff --git a/cmds.go b/cmds.go
index c077166..f471a21 100644
--- a/cmds.go
+++ b/cmds.go
@@ -179,8 +179,8 @@ func funAnyTypep[T Node](_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 var (
-	floatingPointOverflowClass  = registerNewConditionClass("<floating-point-overflow>", arithmeticErrorClass)
-	floatingPointUnderflowClass = registerNewConditionClass("<floating-point-underflow>", arithmeticErrorClass)
+	floatingPointOverflowClass  = registerNewExactClass("<floating-point-overflow>", arithmeticErrorClass)
+	floatingPointUnderflowClass = registerNewExactClass("<floating-point-underflow>", arithmeticErrorClass)
 )
 
 func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
diff --git a/cons.go b/cons.go
index 4b889c6..8930ea8 100644
--- a/cons.go
+++ b/cons.go
@@ -12,7 +12,7 @@ type Cons struct {
 	Cdr Node
 }
 
-var consClass = registerNewAbstractClass[*Cons]("<cons>")
+var consClass = registerNewAbstractClass[*Cons]("<cons>", listClass)
 
 func (*Cons) ClassOf() Class {
 	return consClass
diff --git a/error.go b/error.go
index 7555c29..4f7c09e 100644
--- a/error.go
+++ b/error.go
@@ -265,8 +265,8 @@ func (u *_UndefinedEntity) Equals(other Node, mode EqlMode) bool {
 
 var (
 	undefinedEntityClass   = registerNewAbstractClass[*_UndefinedEntity]("<undefined-entity>", programErrorClass)
-	unboundVariableClass   = registerNewConditionClass("<unbound-variable>", undefinedEntityClass)
-	undefinedFunctionClass = registerNewConditionClass("<undefined-function>", undefinedEntityClass)
+	unboundVariableClass   = registerNewExactClass("<unbound-variable>", undefinedEntityClass)
+	undefinedFunctionClass = registerNewExactClass("<undefined-function>", undefinedEntityClass)
 )
 
 func (u *_UndefinedEntity) ClassOf() Class {
diff --git a/number.go b/number.go
index 37c2d2b..f5a7b5d 100644
--- a/number.go
+++ b/number.go
@@ -120,7 +120,7 @@ func (e *ArithmeticError) Error() string {
 	return e.String()
 }
 
-var divisionByZeroClass = registerNewConditionClass("<division-by-zero>", arithmeticErrorClass)
+var divisionByZeroClass = registerNewExactClass("<division-by-zero>", arithmeticErrorClass)
 
 func raiseDivisionByZero(ctx context.Context, w *World, m, n Node) (Node, error) {
 	return callHandler[Node](ctx, w, true, &ArithmeticError{
diff --git a/sequence.go b/sequence.go
index 2a7054c..c7125c4 100644
--- a/sequence.go
+++ b/sequence.go
@@ -12,7 +12,7 @@ type Sequence interface {
 	Node
 }
 
-var listClass = registerNewBuiltInClass[Sequence]("<list>")
+var listClass = registerNewExactClass("<list>")
 
 func SeqEach(ctx context.Context, w *World, list Node, f func(Node) error) error {
 	for IsSome(list) {
-- 
2.43.0


From a15de59ccb1bb956d5ee6909957fca7b917f5914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 026/106] fix: a method body saw the variables of its caller
 instead of those of its definition

---
 generic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generic.go b/generic.go
index 87b9f49..ceaa2a1 100644
--- a/generic.go
+++ b/generic.go
@@ -220,6 +220,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
+	lexical := w
 	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
 		vars := Variables{}
 		for i, v := range args {
@@ -233,7 +234,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			}
 			vars[paramNames[i]] = v
 		}
-		return Progn(ctx, w.Let(vars), code)
+		return Progn(ctx, lexical.Let(vars), code)
 	}
 	generic.methods = append(generic.methods, method)
 	return name, nil
-- 
2.43.0


From 1cce7af72cfd1d5b9315360bf380de5cd2e39cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 027/106] fix: the rest parameter of a method was unbound
 without extra arguments

---
 generic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generic.go b/generic.go
index ceaa2a1..df967f3 100644
--- a/generic.go
+++ b/generic.go
@@ -223,6 +223,9 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 	lexical := w
 	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
 		vars := Variables{}
+		if restName != nil {
+			vars[restName] = Null
+		}
 		for i, v := range args {
 			if i >= len(paramNames) {
 				var rest Node = Null
-- 
2.43.0


From e3039b412bfd4e605695d1ecb76a6760da1a010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 028/106] fix: a generic function called the latest applicable
 method, not the most specific one

---
 generic.go | 62 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 2 deletions(-)

diff --git a/generic.go b/generic.go
index df967f3..deb51bd 100644
--- a/generic.go
+++ b/generic.go
@@ -43,6 +43,59 @@ func (m *_Method) canCallWith(values []Node) bool {
 	return true
 }
 
+// classPrecedence returns the class and its super classes, the most specific
+// first: depth first from left to right, each at its last occurrence.
+func classPrecedence(class Class) []Class {
+	all := []Class{}
+	var walk func(Class)
+	walk = func(c Class) {
+		all = append(all, c)
+		switch c := c.(type) {
+		case *_BuiltInClass:
+			for _, s := range c.super {
+				walk(s)
+			}
+		case *_StandardClass:
+			for _, s := range c.Super {
+				walk(s)
+			}
+		}
+	}
+	walk(class)
+	result := []Class{}
+	for i, c := range all {
+		if classIndex(all[i+1:], c) >= len(all)-i-1 {
+			result = append(result, c)
+		}
+	}
+	return result
+}
+
+// classIndex returns the position of the class, or the length of the list.
+func classIndex(list []Class, class Class) int {
+	for i, c := range list {
+		if c.Equals(class, STRICT) {
+			return i
+		}
+	}
+	return len(list)
+}
+
+// moreSpecific compares two methods which are both applicable to the values.
+func (m *_Method) moreSpecific(other *_Method, values []Node) bool {
+	for i, t := range m.types {
+		if i >= len(other.types) {
+			return true
+		}
+		if t.Equals(other.types[i], STRICT) {
+			continue
+		}
+		list := classPrecedence(values[i].ClassOf())
+		return classIndex(list, t) < classIndex(list, other.types[i])
+	}
+	return false
+}
+
 type _Generic struct {
 	Symbol
 	argc    int
@@ -115,11 +168,16 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
+	var best *_Method
 	for i := len(c.methods) - 1; i >= 0; i-- {
-		if m := c.methods[i]; m.canCallWith(values) {
-			return m.method(ctx, w, values)
+		m := c.methods[i]
+		if m.canCallWith(values) && (best == nil || m.moreSpecific(best, values)) {
+			best = m
 		}
 	}
+	if best != nil {
+		return best.method(ctx, w, values)
+	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
 		space: symFunction,
-- 
2.43.0


From f24ddfc266aba60835d38683d0cfdffbfad2869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 029/106] fix: report-condition methods leaked to other Worlds,
 and a signaled error without one lost its class

---
 cond.go    |  8 +++++---
 generic.go | 21 +++++++++++++--------
 world.go   |  9 +++++++--
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/cond.go b/cond.go
index fa2f194..c4a7a22 100644
--- a/cond.go
+++ b/cond.go
@@ -53,10 +53,12 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 
 func unhandledCondition(ctx context.Context, w *World, cond Node) error {
 	buffer := &StringBuilder{}
-	if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
+	f, _ := w.defun.Get(symReportCondition)
+	if generic, ok := f.(*_Generic); ok && generic.find([]Node{cond, buffer}) != nil {
+		if _, err := generic.Call(ctx, w, UnevalList(cond, buffer)); err != nil {
+			return fmt.Errorf("%w in (report-condition)", err)
+		}
 		return errors.New(buffer.String())
-	} else if !errors.Is(err, ErrNoMatchMethods) {
-		return fmt.Errorf("%w in (report-condition)", err)
 	}
 	if err, ok := cond.(error); ok {
 		return err
diff --git a/generic.go b/generic.go
index deb51bd..76176e2 100644
--- a/generic.go
+++ b/generic.go
@@ -157,6 +157,18 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 	return name, nil
 }
 
+// find returns the most specific method applicable to the values, or nil.
+func (c *_Generic) find(values []Node) *_Method {
+	var best *_Method
+	for i := len(c.methods) - 1; i >= 0; i-- {
+		m := c.methods[i]
+		if m.canCallWith(values) && (best == nil || m.moreSpecific(best, values)) {
+			best = m
+		}
+	}
+	return best
+}
+
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
 	values := []Node{}
 	for IsSome(node) {
@@ -168,14 +180,7 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 		}
 		values = append(values, v)
 	}
-	var best *_Method
-	for i := len(c.methods) - 1; i >= 0; i-- {
-		m := c.methods[i]
-		if m.canCallWith(values) && (best == nil || m.moreSpecific(best, values)) {
-			best = m
-		}
-	}
-	if best != nil {
+	if best := c.find(values); best != nil {
 		return best.method(ctx, w, values)
 	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
diff --git a/world.go b/world.go
index d1a05be..c50d89b 100644
--- a/world.go
+++ b/world.go
@@ -471,9 +471,14 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 		return value, true
 	}
 	if value, ok := autoLoadFunc[symbol]; ok {
-		if L, ok := value.(*LispString); ok {
+		switch v := value.(type) {
+		case *LispString:
 			// its compiled code belongs to one World
-			value = &LispString{S: L.S}
+			value = &LispString{S: v.S}
+			rw[symbol] = value
+		case *_Generic:
+			// its methods belong to one World
+			value = &_Generic{Symbol: v.Symbol, argc: v.argc, rest: v.rest}
 			rw[symbol] = value
 		}
 		return value, true
-- 
2.43.0


From c753bb6699f430fd4378c61f3fafed906c0ec723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 030/106] fix: continue-condition required its optional value

---
 cond.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cond.go b/cond.go
index c4a7a22..8aa59b5 100644
--- a/cond.go
+++ b/cond.go
@@ -71,12 +71,15 @@ func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error
 	if err != nil {
 		return nil, err
 	}
-	value, node, err := w.ShiftAndEvalCar(ctx, node)
-	if err != nil {
-		return nil, err
-	}
+	var value Node = Null
 	if IsSome(node) {
-		return nil, ErrTooManyArguments
+		value, node, err = w.ShiftAndEvalCar(ctx, node)
+		if err != nil {
+			return nil, err
+		}
+		if IsSome(node) {
+			return nil, ErrTooManyArguments
+		}
 	}
 	return nil, &_ErrContinueCondition{Cond: cond, Value: value}
 }
-- 
2.43.0


From e03f4273aa0207a3a7d1503549640810ba776c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 031/106] fix: setf of a dynamic variable returned the name
 instead of the value

---
 embed/set-dynamic.lsp |   5 +-
 tools/embed.lsp       | 457 +++++++++++++++++++++---------------------
 2 files changed, 234 insertions(+), 228 deletions(-)

diff --git a/embed/set-dynamic.lsp b/embed/set-dynamic.lsp
index b2f12f1..bdd6140 100644
--- a/embed/set-dynamic.lsp
+++ b/embed/set-dynamic.lsp
@@ -1,2 +1,5 @@
 (lambda-macro (newvalue name)
-  `(defdynamic ,name ,newvalue))
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (defdynamic ,name ,v)
+       ,v)))
diff --git a/tools/embed.lsp b/tools/embed.lsp
index 5378c09..bf4b17f 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -1,227 +1,230 @@
-(defmacro when (test &rest args)
-  `(if ,test (progn ,@args)))
-
-(defmacro unless (test &rest args)
-  `(if ,test nil (progn ,@args)))
-
-(defmacro prog1 (expr &rest args)
-  (let ((x (gensym)))
-    `(let ((,x ,expr))
-       (progn ,@args)
-       ,x)))
-
-(defmacro prog2 (expr1 expr2 &rest args)
-  `(progn ,expr1 (prog1 ,expr2 ,@args)))
-
-(defun 1+ (x) (+ x 1))
-
-(defmacro incf (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (+ ,place ,delta))))
-
-(defun 1- (x) (- x 1))
-
-(defmacro decf (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (- ,place ,delta))))
-
-(defun swap-elt (newvalue source z)
-  (if (stringp source)
-    (string-append
-      (subseq source 0 z)
-      (create-string 1 newvalue)
-      (subseq source (1+ z) (length source)))
-    (let ((s source))
-      (while s
-        (if (zerop z)
-          (set-car newvalue s))
-        (decf z)
-        (setq s (cdr s))
-        )
-      source)))
-
-(defun swap-subseq (seq start end newvalue)
-  (if (stringp seq)
-    (string-append (subseq seq 0 start)
-                   newvalue
-                   (subseq seq end (length seq)))
-    (let ((orig seq))
-      (while seq
-        (if (and (<= start 0) (> end 0) newvalue)
-          (progn
-            (set-car (car newvalue) seq)
-            (setq newvalue (cdr newvalue))))
-        (decf start)
-        (decf end)
-        (setq seq (cdr seq)))
-      orig)))
-
-(let ((setf-table
-        '((car . set-car)
-          (cdr . set-cdr)
-          (elt . set-elt)
-          (dynamic . set-dynamic)
-          (subseq . set-subseq)
-          (setq . set-setq)
-          (assoc . set-assoc)
-          (aref . set-aref)
-          (cddr . set-cddr)
-          (cdddr . set-cdddr)
-          (cadr . set-cadr)
-          (caddr . set-caddr)
-          (cadddr . set-cadddr)
-          (first . set-car)
-          (second . set-cadr)
-          (third . set-caddr)
-          (gethash . set-gethash))))
-  (defmacro setf (expr newvalue)
-    (if (symbolp expr)
-      `(setq ,expr ,newvalue)
-      (let* ((name (car expr))
-             (pair (assoc name setf-table))
-             (tmp nil)
-             (setter
-               (if pair
-                 (cdr pair)
-                 (progn
-                   (setq tmp (convert (string-append "set-" (convert name <string>)) <symbol>))
-                   (setq setf-table (cons (cons name tmp) setf-table))
-                   tmp)))
-             (arguments (cdr expr)))
-        (cons setter (cons newvalue arguments))))))
-
-(defmacro set-elt (newvalue seq &rest z)
-  `(if (arrayp ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
-
-(defmacro set-dynamic (newvalue name)
-  `(defdynamic ,name ,newvalue))
-
-(defmacro set-subseq (newvalue seq start end)
-  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
-
-(defmacro set-setq (newvalue name avlue)
-  (let ((name (elt expr 1)) (value (elt expr 2)))
-    `(progn (setq ,name ,value) (setf ,name ,newvalue))))
-
-(defmacro set-assoc (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m)
-            (,K ,key)
-            (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L)) (consp ,tmp) (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
-
-(defmacro dolist (vars &rest body)
-  (let ((var (car vars))
-        (values (elt vars 1))
-        (rest (gensym)))
-    `(block
-       nil
-       (let ((,var nil)(,rest ,values))
-         (while ,rest
-           (setq ,var (car ,rest))
-           (setq ,rest (cdr ,rest))
-           ,@body)))))
-
-(defmacro dotimes (vars &rest commands)
-  (let ((var (car vars))
-        (count (elt vars 1))
-        (end (gensym)))
-    `(let ((,var 0)(,end ,count))
-       (while (< ,var ,end)
-         (progn ,@commands)
-         (setq ,var (+ 1 ,var))))))
-
-(defmacro for (iters test-result &rest body)
-  (let ((inits nil)
-        (steps nil)
-        (test (car test-result))
-        (result (elt test-result 1)))
-    (while iters
-      (let ((e (car iters)))
-        (setq inits (cons (list (car e) (elt e 1)) inits))
-        (setq steps (append steps (list (car e) (elt e 2)))))
-      (setq iters (cdr iters)))
-    (setq steps (cons 'psetq steps))
-    `(let ,inits
-       (while (not ,test)
-         ,@body
-         ,steps)
-       ,result)))
-
-(defun nthcdr (n x)
-  (block
-    nil
-    (while (and (>= (decf n) 0) x)
-      (unless (consp x)
-        (return nil))
-      (setq x (cdr x)))
-    x))
-
-(defun cddr (x) (nthcdr 2 x))
-
-(defun cdddr (x) (nthcdr 3 x))
-
-(defun cadr (x) (elt x 1))
-
-(defun caddr (x) (elt x 2))
-
-(defun cadddr (x) (elt x 3))
-
-(defun first (x) (car x))
-
-(defun second (x) (elt x 1))
-
-(defun third (x) (elt x 2))
-
-(defun rest (x) (cdr x))
-
-(defun nth (n x) (elt x n))
-
-(defun set-nth (newvalue Z L)
-  (set-elt newvalue L Z))
-
-(defun set-nthcdr (newvalue z source)
-  (let ((s source))
-    (while s
-           (setq z (1- z))
-           (if (zerop z)
-             (set-cdr newvalue s))
-           (setq s (cdr s)))
-    source))
-
-(defun set-cadr (newvalue L)
-  (set-car newvalue (cdr L)))
-
-(defun set-caddr (newvalue L)
-  (set-car newvalue (cdr (cdr L))))
-
-(defun set-cadddr (newvalue L)
-  (set-car newvalue (cdr (cdr (cdr L)))))
-
-(defun set-cddr (newvalue L)
-  (set-cdr newvalue (cdr L)))
-
-(defun set-cdddr (newvalue L)
-  (set-cdr newvalue (cdr (cdr L))))
-
-(defmacro flet (e &rest body)
-  (let (result ee)
-    (while e
-      (setq ee (car e))
-      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
-      (setq e (cdr e)))
-    `(let ,result ,@body)))
-
-(defmacro labels (e &rest body)
-  (let (result ee)
-    (while e
-      (setq ee (car e))
-      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
-      (setq e (cdr e)))
-    (setq result (nreverse result))
-    `(let* ,result ,@body)))
+(defmacro when (test &rest args)
+  `(if ,test (progn ,@args)))
+
+(defmacro unless (test &rest args)
+  `(if ,test nil (progn ,@args)))
+
+(defmacro prog1 (expr &rest args)
+  (let ((x (gensym)))
+    `(let ((,x ,expr))
+       (progn ,@args)
+       ,x)))
+
+(defmacro prog2 (expr1 expr2 &rest args)
+  `(progn ,expr1 (prog1 ,expr2 ,@args)))
+
+(defun 1+ (x) (+ x 1))
+
+(defmacro incf (place &rest args)
+  (let ((delta (if args (car args) 1)))
+    `(setf ,place (+ ,place ,delta))))
+
+(defun 1- (x) (- x 1))
+
+(defmacro decf (place &rest args)
+  (let ((delta (if args (car args) 1)))
+    `(setf ,place (- ,place ,delta))))
+
+(defun swap-elt (newvalue source z)
+  (if (stringp source)
+    (string-append
+      (subseq source 0 z)
+      (create-string 1 newvalue)
+      (subseq source (1+ z) (length source)))
+    (let ((s source))
+      (while s
+        (if (zerop z)
+          (set-car newvalue s))
+        (decf z)
+        (setq s (cdr s))
+        )
+      source)))
+
+(defun swap-subseq (seq start end newvalue)
+  (if (stringp seq)
+    (string-append (subseq seq 0 start)
+                   newvalue
+                   (subseq seq end (length seq)))
+    (let ((orig seq))
+      (while seq
+        (if (and (<= start 0) (> end 0) newvalue)
+          (progn
+            (set-car (car newvalue) seq)
+            (setq newvalue (cdr newvalue))))
+        (decf start)
+        (decf end)
+        (setq seq (cdr seq)))
+      orig)))
+
+(let ((setf-table
+        '((car . set-car)
+          (cdr . set-cdr)
+          (elt . set-elt)
+          (dynamic . set-dynamic)
+          (subseq . set-subseq)
+          (setq . set-setq)
+          (assoc . set-assoc)
+          (aref . set-aref)
+          (cddr . set-cddr)
+          (cdddr . set-cdddr)
+          (cadr . set-cadr)
+          (caddr . set-caddr)
+          (cadddr . set-cadddr)
+          (first . set-car)
+          (second . set-cadr)
+          (third . set-caddr)
+          (gethash . set-gethash))))
+  (defmacro setf (expr newvalue)
+    (if (symbolp expr)
+      `(setq ,expr ,newvalue)
+      (let* ((name (car expr))
+             (pair (assoc name setf-table))
+             (tmp nil)
+             (setter
+               (if pair
+                 (cdr pair)
+                 (progn
+                   (setq tmp (convert (string-append "set-" (convert name <string>)) <symbol>))
+                   (setq setf-table (cons (cons name tmp) setf-table))
+                   tmp)))
+             (arguments (cdr expr)))
+        (cons setter (cons newvalue arguments))))))
+
+(defmacro set-elt (newvalue seq &rest z)
+  `(if (arrayp ,seq)
+     (set-aref ,newvalue ,seq ,@z)
+     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+
+(defmacro set-dynamic (newvalue name)
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (defdynamic ,name ,v)
+       ,v)))
+
+(defmacro set-subseq (newvalue seq start end)
+  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
+
+(defmacro set-setq (newvalue name avlue)
+  (let ((name (elt expr 1)) (value (elt expr 2)))
+    `(progn (setq ,name ,value) (setf ,name ,newvalue))))
+
+(defmacro set-assoc (newvalue key m)
+  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
+    `(let* ((,L ,m)
+            (,K ,key)
+            (,tmp nil))
+       (while ,L
+         (if (and (setq ,tmp (car ,L)) (consp ,tmp) (equal ,K (car ,tmp)))
+           (set-car ,newvalue ,L))
+         (setq ,L (cdr ,L))))))
+
+(defmacro dolist (vars &rest body)
+  (let ((var (car vars))
+        (values (elt vars 1))
+        (rest (gensym)))
+    `(block
+       nil
+       (let ((,var nil)(,rest ,values))
+         (while ,rest
+           (setq ,var (car ,rest))
+           (setq ,rest (cdr ,rest))
+           ,@body)))))
+
+(defmacro dotimes (vars &rest commands)
+  (let ((var (car vars))
+        (count (elt vars 1))
+        (end (gensym)))
+    `(let ((,var 0)(,end ,count))
+       (while (< ,var ,end)
+         (progn ,@commands)
+         (setq ,var (+ 1 ,var))))))
+
+(defmacro for (iters test-result &rest body)
+  (let ((inits nil)
+        (steps nil)
+        (test (car test-result))
+        (result (elt test-result 1)))
+    (while iters
+      (let ((e (car iters)))
+        (setq inits (cons (list (car e) (elt e 1)) inits))
+        (setq steps (append steps (list (car e) (elt e 2)))))
+      (setq iters (cdr iters)))
+    (setq steps (cons 'psetq steps))
+    `(let ,inits
+       (while (not ,test)
+         ,@body
+         ,steps)
+       ,result)))
+
+(defun nthcdr (n x)
+  (block
+    nil
+    (while (and (>= (decf n) 0) x)
+      (unless (consp x)
+        (return nil))
+      (setq x (cdr x)))
+    x))
+
+(defun cddr (x) (nthcdr 2 x))
+
+(defun cdddr (x) (nthcdr 3 x))
+
+(defun cadr (x) (elt x 1))
+
+(defun caddr (x) (elt x 2))
+
+(defun cadddr (x) (elt x 3))
+
+(defun first (x) (car x))
+
+(defun second (x) (elt x 1))
+
+(defun third (x) (elt x 2))
+
+(defun rest (x) (cdr x))
+
+(defun nth (n x) (elt x n))
+
+(defun set-nth (newvalue Z L)
+  (set-elt newvalue L Z))
+
+(defun set-nthcdr (newvalue z source)
+  (let ((s source))
+    (while s
+           (setq z (1- z))
+           (if (zerop z)
+             (set-cdr newvalue s))
+           (setq s (cdr s)))
+    source))
+
+(defun set-cadr (newvalue L)
+  (set-car newvalue (cdr L)))
+
+(defun set-caddr (newvalue L)
+  (set-car newvalue (cdr (cdr L))))
+
+(defun set-cadddr (newvalue L)
+  (set-car newvalue (cdr (cdr (cdr L)))))
+
+(defun set-cddr (newvalue L)
+  (set-cdr newvalue (cdr L)))
+
+(defun set-cdddr (newvalue L)
+  (set-cdr newvalue (cdr (cdr L))))
+
+(defmacro flet (e &rest body)
+  (let (result ee)
+    (while e
+      (setq ee (car e))
+      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
+      (setq e (cdr e)))
+    `(let ,result ,@body)))
+
+(defmacro labels (e &rest body)
+  (let (result ee)
+    (while e
+      (setq ee (car e))
+      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
+      (setq e (cdr e)))
+    (setq result (nreverse result))
+    `(let* ,result ,@body)))
-- 
2.43.0


From 8c2d60adae8a38c8cba82274dfdfc4cf71cb4203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:16 +0000
Subject: [PATCH 032/106] fix: funcall, apply, instancep and continue-condition
 could not be passed as functions

---
 functionref.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/functionref.go b/functionref.go
index d9365a6..2f16906 100644
--- a/functionref.go
+++ b/functionref.go
@@ -36,6 +36,14 @@ func (f FunctionRef) GoString() string {
 	return fmt.Sprintf("function to %#v)", f.value)
 }
 
+// functionsAsSpecialF are functions which evaluate their arguments themselves.
+var functionsAsSpecialF = map[Symbol]bool{
+	NewSymbol("apply"):              true,
+	NewSymbol("continue-condition"): true,
+	NewSymbol("funcall"):            true,
+	NewSymbol("instancep"):          true,
+}
+
 func cmdFunction(ctx context.Context, w *World, node Node) (Node, error) {
 	if IsNone(node) {
 		return raiseProgramError(ctx, w, ErrTooFewArguments)
@@ -60,7 +68,7 @@ func cmdFunction(ctx context.Context, w *World, node Node) (Node, error) {
 	if _, ok := f.(*_Macro); ok {
 		return nil, fmt.Errorf("macro forms can be avaliable on (function): %#v", symbol)
 	}
-	if _, ok := f.(SpecialF); ok {
+	if _, ok := f.(SpecialF); ok && !functionsAsSpecialF[symbol] {
 		return nil, fmt.Errorf("special forms can be avaliable on (function): %#v", symbol)
 	}
 	return FunctionRef{value: f}, nil
-- 
2.43.0


From 5c18f620726565c5cdf5cfd993338905eef8ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 033/106] fix: the initform of a class did not override the one
 of its super class, and slots were initialized in random order

---
 class.go | 60 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/class.go b/class.go
index b3f644a..e52ed30 100644
--- a/class.go
+++ b/class.go
@@ -164,6 +164,21 @@ type _StandardClass struct {
 	Symbol Symbol
 	Super  []Class
 	Slot   map[Symbol]*_SlotSpec
+	order  []Symbol // names of the slots as they are written
+}
+
+// eachSlot calls f with the slots of the class and its super classes,
+// those of the most specific class first, until f returns false.
+func (c *_StandardClass) eachSlot(f func(name Symbol, slot *_SlotSpec) bool) {
+	for _, class := range classPrecedence(c) {
+		if sc, ok := class.(*_StandardClass); ok {
+			for _, name := range sc.order {
+				if !f(name, sc.Slot[name]) {
+					return
+				}
+			}
+		}
+	}
 }
 
 // standardClass can not be created with registerNewBuilInClass
@@ -317,6 +332,9 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		if err != nil {
 			return nil, fmt.Errorf("[3][%d] %w", slotCount, err)
 		}
+		if _, ok := class.Slot[spec.identifier]; !ok {
+			class.order = append(class.order, spec.identifier)
+		}
 		class.Slot[spec.identifier] = spec
 
 		getter := newGetter(class, spec.identifier)
@@ -435,42 +453,32 @@ func (c *_StandardObject) GoString() string {
 }
 
 func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
-	for _, super := range classDef.Super {
-		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
-				return err
+	var err error
+	classDef.eachSlot(func(name Symbol, slot *_SlotSpec) bool {
+		if _, ok := reciever.Slot[name]; !ok && slot.initform != nil {
+			var value Node
+			if value, err = slot.initform(); err != nil {
+				return false
 			}
+			reciever.Slot[name] = value
 		}
-	}
-	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
-			var err error
-			reciever.Slot[name], err = slot1.initform()
-			if err != nil {
-				return err
-			}
-		}
-	}
-	return nil
+		return true
+	})
+	return err
 }
 
 func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
-	for name, slot := range classDef.Slot {
+	found := false
+	classDef.eachSlot(func(name Symbol, slot *_SlotSpec) bool {
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
-				return true
-			}
-		}
-	}
-	for _, super := range classDef.Super {
-		if superUc, ok := super.(*_StandardClass); ok {
-			if reciever.callInitArg(superUc, initArg, initVal) {
-				return true
+				found = true
 			}
 		}
-	}
-	return false
+		return true
+	})
+	return found
 }
 
 type Uneval struct {
-- 
2.43.0


From d789809f5a8e67fc78ef9b39f20a06fa4bbf1336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 034/106] fix: a class without super classes was not a subclass
 of <object>

---
 class.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/class.go b/class.go
index e52ed30..a6b0c06 100644
--- a/class.go
+++ b/class.go
@@ -212,6 +212,9 @@ func (u *_StandardClass) Equals(_other Node, _ EqlMode) bool {
 }
 
 func (class1 *_StandardClass) InheritP(class2 Class) bool {
+	if class2.Equals(objectClass, STRICT) {
+		return true
+	}
 	for _, s := range class1.Super {
 		if s.Equals(class2, STRICT) {
 			return true
-- 
2.43.0


From 01cd6723cb16073c92b91deb44aa4d5ee413f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 035/106] fix: setf and the set- functions returned the
 container or t instead of the new value, and setf of elt failed on strings
 and evaluated its sequence repeatedly

---
 class.go             |  2 +-
 embed/set-assoc.lsp  | 17 ++++++++-------
 embed/set-elt.lsp    | 10 ++++++---
 embed/set-nthcdr.lsp |  7 +------
 embed/set-subseq.lsp |  5 ++++-
 embed/swap-elt.lsp   |  8 ++------
 list.go              |  4 ++--
 tools/embed.lsp      | 49 ++++++++++++++++++++------------------------
 8 files changed, 47 insertions(+), 55 deletions(-)

diff --git a/class.go b/class.go
index a6b0c06..c426383 100644
--- a/class.go
+++ b/class.go
@@ -42,7 +42,7 @@ func newSetter(class Class, slotName Symbol) *_Method {
 				return nil, fmt.Errorf("%v: %w", node[1], ErrExpectedClass)
 			}
 			rec.Slot[slotName] = node[0]
-			return True, nil
+			return node[0], nil
 		},
 	}
 }
diff --git a/embed/set-assoc.lsp b/embed/set-assoc.lsp
index fc0e155..d577b45 100644
--- a/embed/set-assoc.lsp
+++ b/embed/set-assoc.lsp
@@ -1,9 +1,8 @@
-(lambda-macro (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m) (,K ,key) (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L))
-                  (consp ,tmp)
-                  (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+(lambda (newvalue key m)
+  (while m
+    (if (and (consp (car m)) (equal key (car (car m))))
+      (progn
+        (set-car newvalue m)
+        (setq m nil))
+      (setq m (cdr m))))
+  newvalue)
diff --git a/embed/set-elt.lsp b/embed/set-elt.lsp
index 156f99b..935f56b 100644
--- a/embed/set-elt.lsp
+++ b/embed/set-elt.lsp
@@ -1,4 +1,8 @@
 (lambda-macro (newvalue seq &rest z)
-  `(if (basic-array-p ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((v (gensym)) (s (gensym)) (i (gensym)))
+    `(let* ((,v ,newvalue) (,s ,seq) (,i (list ,@z)))
+       (cond
+         ((stringp ,s) (setf ,seq (swap-elt ,v ,s (car ,i))))
+         ((listp ,s) (swap-elt ,v ,s (car ,i)))
+         (t (apply #'set-aref ,v ,s ,i)))
+       ,v)))
diff --git a/embed/set-nthcdr.lsp b/embed/set-nthcdr.lsp
index f87b51a..9423c5b 100644
--- a/embed/set-nthcdr.lsp
+++ b/embed/set-nthcdr.lsp
@@ -1,7 +1,2 @@
 (lambda (newvalue z source)
-  (let ((s source))
-    (while s
-      (setq z (1- z))
-      (if (zerop z) (set-cdr newvalue s))
-      (setq s (cdr s)))
-    source))
+  (set-cdr newvalue (nthcdr (1- z) source)))
diff --git a/embed/set-subseq.lsp b/embed/set-subseq.lsp
index 0cc337d..1e45424 100644
--- a/embed/set-subseq.lsp
+++ b/embed/set-subseq.lsp
@@ -1,2 +1,5 @@
 (lambda-macro (newvalue seq start end)
-  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (setf ,seq (swap-subseq ,seq ,start ,end ,v))
+       ,v)))
diff --git a/embed/swap-elt.lsp b/embed/swap-elt.lsp
index 8f24396..984f24b 100644
--- a/embed/swap-elt.lsp
+++ b/embed/swap-elt.lsp
@@ -4,10 +4,6 @@
       (subseq source 0 z)
       (create-string 1 newvalue)
       (subseq source (1+ z) (length source)))
-    (let ((s source))
-      (while s
-        (if (zerop z)
-          (set-car newvalue s))
-        (decf z)
-        (setq s (cdr s)))
+    (progn
+      (set-car newvalue (nthcdr z source))
       source)))
diff --git a/list.go b/list.go
index a1ae67a..c1597a0 100644
--- a/list.go
+++ b/list.go
@@ -143,7 +143,7 @@ func funSetCar(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Car = first
-	return cons, nil
+	return first, nil
 }
 
 // funSetCdr implements (replacd X Y) == (setf (cdr X) Y) = (set-cdr Y X)
@@ -153,7 +153,7 @@ func funSetCdr(ctx context.Context, w *World, first, second Node) (Node, error)
 		return nil, err
 	}
 	cons.Cdr = first
-	return cons, nil
+	return first, nil
 }
 
 func funCreateList(ctx context.Context, w *World, argv []Node) (Node, error) {
diff --git a/tools/embed.lsp b/tools/embed.lsp
index bf4b17f..90cead4 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -31,13 +31,8 @@
       (subseq source 0 z)
       (create-string 1 newvalue)
       (subseq source (1+ z) (length source)))
-    (let ((s source))
-      (while s
-        (if (zerop z)
-          (set-car newvalue s))
-        (decf z)
-        (setq s (cdr s))
-        )
+    (progn
+      (set-car newvalue (nthcdr z source))
       source)))
 
 (defun swap-subseq (seq start end newvalue)
@@ -91,9 +86,13 @@
         (cons setter (cons newvalue arguments))))))
 
 (defmacro set-elt (newvalue seq &rest z)
-  `(if (arrayp ,seq)
-     (set-aref ,newvalue ,seq ,@z)
-     (setf ,seq (swap-elt ,newvalue ,seq ,@z))))
+  (let ((v (gensym)) (s (gensym)) (i (gensym)))
+    `(let* ((,v ,newvalue) (,s ,seq) (,i (list ,@z)))
+       (cond
+         ((stringp ,s) (setf ,seq (swap-elt ,v ,s (car ,i))))
+         ((listp ,s) (swap-elt ,v ,s (car ,i)))
+         (t (apply #'set-aref ,v ,s ,i)))
+       ,v)))
 
 (defmacro set-dynamic (newvalue name)
   (let ((v (gensym)))
@@ -102,21 +101,23 @@
        ,v)))
 
 (defmacro set-subseq (newvalue seq start end)
-  `(setf ,seq (swap-subseq ,seq ,start ,end ,newvalue)))
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (setf ,seq (swap-subseq ,seq ,start ,end ,v))
+       ,v)))
 
 (defmacro set-setq (newvalue name avlue)
   (let ((name (elt expr 1)) (value (elt expr 2)))
     `(progn (setq ,name ,value) (setf ,name ,newvalue))))
 
-(defmacro set-assoc (newvalue key m)
-  (let ((L (gensym)) (K (gensym)) (tmp (gensym)))
-    `(let* ((,L ,m)
-            (,K ,key)
-            (,tmp nil))
-       (while ,L
-         (if (and (setq ,tmp (car ,L)) (consp ,tmp) (equal ,K (car ,tmp)))
-           (set-car ,newvalue ,L))
-         (setq ,L (cdr ,L))))))
+(defun set-assoc (newvalue key m)
+  (while m
+    (if (and (consp (car m)) (equal key (car (car m))))
+      (progn
+        (set-car newvalue m)
+        (setq m nil))
+      (setq m (cdr m))))
+  newvalue)
 
 (defmacro dolist (vars &rest body)
   (let ((var (car vars))
@@ -189,13 +190,7 @@
   (set-elt newvalue L Z))
 
 (defun set-nthcdr (newvalue z source)
-  (let ((s source))
-    (while s
-           (setq z (1- z))
-           (if (zerop z)
-             (set-cdr newvalue s))
-           (setq s (cdr s)))
-    source))
+  (set-cdr newvalue (nthcdr (1- z) source)))
 
 (defun set-cadr (newvalue L)
   (set-car newvalue (cdr L)))
-- 
2.43.0


From 51c588ad30c3895ef9ce85eab5df60a74bd7af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 036/106] fix: continue-condition of a condition which is not
 being handled or not continuable escaped every handler

---
 cond.go  | 13 ++++++++++++-
 error.go |  6 +++++-
 world.go |  1 +
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cond.go b/cond.go
index 8aa59b5..5e58082 100644
--- a/cond.go
+++ b/cond.go
@@ -27,6 +27,12 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	return Progn(ctx, w, node)
 }
 
+// _Signaled is a condition which the handlers are being told about.
+type _Signaled struct {
+	condition   Node
+	continuable bool
+}
+
 type _ErrContinueCondition struct {
 	Cond  Node
 	Value Node
@@ -81,5 +87,10 @@ func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error
 			return nil, ErrTooManyArguments
 		}
 	}
-	return nil, &_ErrContinueCondition{Cond: cond, Value: value}
+	for _, s := range w.signaled {
+		if s.continuable && sameNode(s.condition, cond) {
+			return nil, &_ErrContinueCondition{Cond: cond, Value: value}
+		}
+	}
+	return raiseControlError(ctx, w, errors.New("continue-condition: the condition is not being handled or not continuable"))
 }
diff --git a/error.go b/error.go
index 4f7c09e..bd4a753 100644
--- a/error.go
+++ b/error.go
@@ -160,7 +160,11 @@ func isExit(ctx context.Context, err error) bool {
 // or an error of its own.
 func (w *World) signal(ctx context.Context, cont bool, condition Node) (Node, bool, error) {
 	save := w.handler
-	defer func() { w.handler = save }()
+	w.signaled = append(w.signaled, _Signaled{condition: condition, continuable: cont})
+	defer func() {
+		w.handler = save
+		w.signaled = w.signaled[:len(w.signaled)-1]
+	}()
 	for h := save; h != nil; h = h.outer {
 		w.handler = h.outer
 		_, err := h.function.Call(ctx, w, UnevalList(condition))
diff --git a/world.go b/world.go
index c50d89b..0e40976 100644
--- a/world.go
+++ b/world.go
@@ -98,6 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	handler  *_Handler
+	signaled []_Signaled
 	global   Scope
 	defun    FuncScope
 	dynamic  Variables
-- 
2.43.0


From 8bd61dd96b0ddc93176fcf60160c28f95008beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 037/106] fix: (- x) panicked when x is not a number

---
 operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operator.go b/operator.go
index 1d25f7e..2ec2096 100644
--- a/operator.go
+++ b/operator.go
@@ -26,6 +26,9 @@ type canMinus interface {
 
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
+		if _, ok := args[0].(canMinus); !ok {
+			return nil, MakeError(ErrNotSupportType, args[0])
+		}
 		class := args[0].ClassOf()
 		zero := class.Create()
 		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
-- 
2.43.0


From ae7a18e9c96c0813c85b914cb6c67476371526a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 038/106] fix: read, read-line and read-char without a stream
 panicked at the end of the standard input

---
 io.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..d606f27 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	stream   Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,10 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.stream = argv[0]
 	case 0:
 		this.reader = w.Stdin()
+		this.stream = w.Stdin()
 	}
 	return this, nil
 }
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +112,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.stream,
 		})
 	}
 	if err != nil {
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.stream,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From d45cb638a439c2279b4a8be9088b63af7c506c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:31 +0000
Subject: [PATCH 039/106] fix: elt of an array without dimensions panicked

---
 array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array.go b/array.go
index a4d8a08..aae70c2 100644
--- a/array.go
+++ b/array.go
@@ -180,7 +180,7 @@ func dim2size(dim []int) int {
 }
 
 func (A *Array) Elt(n int) (Node, error) {
-	if n < 0 || n >= A.dim[0] {
+	if len(A.dim) <= 0 || n < 0 || n >= A.dim[0] {
 		return nil, ErrIndexOutOfRange
 	}
 	if len(A.dim) == 1 {
-- 
2.43.0


From 25781c59e4b5f7202e5c00ee9f8fc9dff0ec488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 040/106] fix: wildcard panicked without an argument and
 returned a Go nil when nothing matches

---
 pkg/wildcard/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..b5cb1b5 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	var result gmnlisp.Node = gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From 6d85fe8d7205a5d532576de510a50e03a0a59870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 041/106] fix: create made broken instances of built-in classes
 such as <list> and <standard-class>

---
 class.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/class.go b/class.go
index c426383..5616aaf 100644
--- a/class.go
+++ b/class.go
@@ -525,14 +525,16 @@ func funCreate(ctx context.Context, w *World, args []Node) (Node, error) {
 		return nil, err
 	}
 	rec := class.Create()
-	if _, ok := rec.(*_StandardObject); ok {
+	switch rec.(type) {
+	case *_StandardObject:
 		newargs := append([]Node{rec}, args[1:]...)
 		return gen.Call(ctx, w, UnevalList(newargs...))
-	}
-	if rec == nil {
+	case Integer, Float, String, Rune:
+		return rec, nil
+	default:
+		// The zero values of the other classes are not proper objects.
 		return raiseProgramError(ctx, w, fmt.Errorf("Can not create instance for %s", class.Name()))
 	}
-	return rec, nil
 }
 
 func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node, error) {
-- 
2.43.0


From 94bbfeac7f017d38def16cf5d0aa9f4e0f003983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 042/106] fix: mapl returned its function, maplist, mapl and
 mapcon called it for an empty list, and the mapping functions evaluated it
 again

---
 sequence.go | 42 +++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/sequence.go b/sequence.go
index c7125c4..594026a 100644
--- a/sequence.go
+++ b/sequence.go
@@ -121,11 +121,7 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
@@ -155,7 +151,7 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 }
 
 func funMapCar(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	var buffer ListBuilder
@@ -164,18 +160,15 @@ func funMapCar(ctx context.Context, w *World, argv []Node) (Node, error) {
 }
 
 func funMapC(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	err := MapCar(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
 	return argv[1], err
 }
 
 func funMapCan(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	list := []Node{}
@@ -198,17 +191,18 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
-	f, err := w.Eval(ctx, funcNode)
-	if err != nil {
-		return err
-	}
-	_f, err := ExpectFunction(ctx, w, f)
+	_f, err := ExpectFunction(ctx, w, funcNode)
 	if err != nil {
 		return err
 	}
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
+		for _, list := range listSet {
+			if IsNone(list) {
+				return nil
+			}
+		}
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
 			return err
@@ -216,15 +210,12 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 		store(result)
 
 		for i := 0; i < len(listSet); i++ {
-			if IsNone(listSet[i]) {
-				return nil
-			}
 			seq, ok := listSet[i].(Sequence)
 			if !ok {
 				return ErrNotSupportType
 			}
 			_, listSet[i], ok = seq.FirstAndRest()
-			if !ok || IsNone(listSet[i]) {
+			if !ok {
 				return nil
 			}
 		}
@@ -232,7 +223,7 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 }
 
 func funMapList(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	var buffer ListBuilder
@@ -241,18 +232,15 @@ func funMapList(ctx context.Context, w *World, argv []Node) (Node, error) {
 }
 
 func funMapL(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	err := mapList(ctx, w, argv[0], argv[1:], func(Node) {})
-	if len(argv) < 2 {
-		return Null, err
-	}
-	return argv[0], err
+	return argv[1], err
 }
 
 func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
-	if len(argv) < 1 {
+	if len(argv) < 2 {
 		return nil, ErrTooFewArguments
 	}
 	list := []Node{}
-- 
2.43.0


From ce10c7cd09a8662af0adb031d77ef52c61728803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 043/106] fix: length and subseq failed on vectors, and elt and
 subseq ignored indices out of range

---
 embed/cadddr.lsp |  2 +-
 embed/caddr.lsp  |  2 +-
 embed/cadr.lsp   |  2 +-
 embed/nth.lsp    |  6 +++++-
 embed/second.lsp |  2 +-
 embed/third.lsp  |  2 +-
 sequence.go      | 39 +++++++++++++++++++++++++++++++++++----
 tools/embed.lsp  | 16 ++++++++++------
 8 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/embed/cadddr.lsp b/embed/cadddr.lsp
index 598bf4e..6fdce37 100644
--- a/embed/cadddr.lsp
+++ b/embed/cadddr.lsp
@@ -1 +1 @@
-(lambda (x) (elt x 3))
+(lambda (x) (nth 3 x))
diff --git a/embed/caddr.lsp b/embed/caddr.lsp
index 23702a9..7536ba4 100644
--- a/embed/caddr.lsp
+++ b/embed/caddr.lsp
@@ -1 +1 @@
-(lambda (x) (elt x 2))
+(lambda (x) (nth 2 x))
diff --git a/embed/cadr.lsp b/embed/cadr.lsp
index 152b943..2818cd7 100644
--- a/embed/cadr.lsp
+++ b/embed/cadr.lsp
@@ -1 +1 @@
-(lambda (x) (elt x 1))
+(lambda (x) (nth 1 x))
diff --git a/embed/nth.lsp b/embed/nth.lsp
index e3ba97a..f37c7bf 100644
--- a/embed/nth.lsp
+++ b/embed/nth.lsp
@@ -1 +1,5 @@
-(lambda (n x) (elt x n))
+(lambda (n x)
+  (let ((rest (nthcdr n x)))
+    (if (consp rest)
+      (car rest)
+      nil)))
diff --git a/embed/second.lsp b/embed/second.lsp
index 152b943..2818cd7 100644
--- a/embed/second.lsp
+++ b/embed/second.lsp
@@ -1 +1 @@
-(lambda (x) (elt x 1))
+(lambda (x) (nth 1 x))
diff --git a/embed/third.lsp b/embed/third.lsp
index 23702a9..7536ba4 100644
--- a/embed/third.lsp
+++ b/embed/third.lsp
@@ -1 +1 @@
-(lambda (x) (elt x 2))
+(lambda (x) (nth 2 x))
diff --git a/sequence.go b/sequence.go
index 594026a..765e7fa 100644
--- a/sequence.go
+++ b/sequence.go
@@ -99,12 +99,22 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 			}
 			continue
 		}
+		if index < 0 {
+			return nil, MakeError(ErrIndexOutOfRange, indexArg)
+		}
 		for list := value; index >= 0; {
-			seq, ok := list.(Sequence)
+			if IsNone(list) {
+				return nil, MakeError(ErrIndexOutOfRange, indexArg)
+			}
+			seq, err := ExpectInterface[Sequence](ctx, w, list, listClass)
+			if err != nil {
+				return nil, err
+			}
+			var ok bool
+			value, list, ok = seq.FirstAndRest()
 			if !ok {
-				return Null, nil
+				return nil, MakeError(ErrIndexOutOfRange, indexArg)
 			}
-			value, list, _ = seq.FirstAndRest()
 			index--
 		}
 	}
@@ -112,6 +122,9 @@ func funElt(ctx context.Context, w *World, args []Node) (Node, error) {
 }
 
 func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
+	if array, ok := arg.(*Array); ok && len(array.dim) == 1 {
+		return Integer(len(array.list)), nil
+	}
 	length := 0
 	err := SeqEach(ctx, w, arg, func(_ Node) error {
 		length++
@@ -301,6 +314,18 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if start < 0 {
+		return nil, MakeError(ErrIndexOutOfRange, start)
+	}
+	if end < start {
+		return nil, MakeError(ErrIndexOutOfRange, end)
+	}
+	if array, ok := args[0].(*Array); ok && len(array.dim) == 1 {
+		if end > Integer(len(array.list)) {
+			return nil, MakeError(ErrIndexOutOfRange, end)
+		}
+		return NewVector(ctx, w, array.list[start:end]...), nil
+	}
 	var buffer SeqBuilder
 	if _, ok := args[0].(String); ok {
 		buffer = &StringBuilder{}
@@ -318,7 +343,13 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 		count++
 		return
 	})
-	return buffer.Sequence(), ignoreEOF(err)
+	if err := ignoreEOF(err); err != nil {
+		return nil, err
+	}
+	if count < end {
+		return nil, MakeError(ErrIndexOutOfRange, end)
+	}
+	return buffer.Sequence(), nil
 }
 
 func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {
diff --git a/tools/embed.lsp b/tools/embed.lsp
index 90cead4..efc296a 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -170,21 +170,25 @@
 
 (defun cdddr (x) (nthcdr 3 x))
 
-(defun cadr (x) (elt x 1))
+(defun cadr (x) (nth 1 x))
 
-(defun caddr (x) (elt x 2))
+(defun caddr (x) (nth 2 x))
 
-(defun cadddr (x) (elt x 3))
+(defun cadddr (x) (nth 3 x))
 
 (defun first (x) (car x))
 
-(defun second (x) (elt x 1))
+(defun second (x) (nth 1 x))
 
-(defun third (x) (elt x 2))
+(defun third (x) (nth 2 x))
 
 (defun rest (x) (cdr x))
 
-(defun nth (n x) (elt x n))
+(defun nth (n x)
+  (let ((rest (nthcdr n x)))
+    (if (consp rest)
+      (car rest)
+      nil)))
 
 (defun set-nth (newvalue Z L)
   (set-elt newvalue L Z))
-- 
2.43.0


From ab8e7ae69fdf41e14d00ab75aa17e241bd9fefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 044/106] fix: aref and set-aref failed on arrays without
 dimensions, zero dimensions were refused, huge indices and sizes overflowed,
 and array-dimensions returned a Go nil

---
 array.go | 27 ++++++++++++++++++---------
 world.go |  4 ++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/array.go b/array.go
index aae70c2..1b0d305 100644
--- a/array.go
+++ b/array.go
@@ -128,6 +128,8 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 	return true
 }
 
+const maxArraySize = 1234567889
+
 func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 	dim := args[0]
 	var ini Node = Null
@@ -149,18 +151,18 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if n <= 0 {
+		if n < 0 {
 			return callHandler[Node](ctx, w, false, &DomainError{
 				Object:        Integer(n),
 				ExpectedClass: integerClass,
 			})
 		}
 		_dim = append(_dim, int(n))
+		if n > 0 && size > maxArraySize/int(n) {
+			return callHandler[Node](ctx, w, false, StorageExhausted{})
+		}
 		size *= int(n)
 	}
-	if size >= 1234567890 {
-		return callHandler[Node](ctx, w, false, StorageExhausted{})
-	}
 	_list := make([]Node, size)
 	for i := range _list {
 		_list[i] = ini
@@ -201,13 +203,16 @@ func funAref(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args)-1 > len(array.dim) {
 		return nil, ErrTooManyArguments
 	}
+	if len(array.dim) == 0 {
+		return array.list[0], nil
+	}
 	for _, _nth := range args[1:] {
 		nth, err := ExpectClass[Integer](ctx, w, _nth)
 		if err != nil {
 			return nil, err
 		}
 		if nth < 0 || int(nth) >= array.dim[0] {
-			return nil, MakeError(ErrIndexOutOfRange, args[1])
+			return nil, MakeError(ErrIndexOutOfRange, _nth)
 		}
 		if len(array.dim) == 1 {
 			return array.list[nth], nil
@@ -233,13 +238,16 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 		return nil, ErrTooManyArguments
 	}
 
+	if len(array.dim) == 0 {
+		array.list[0] = newValue
+		return newValue, nil
+	}
 	for _, _index := range args[2:] {
 		index, err := ExpectClass[Integer](ctx, w, _index)
 		if err != nil {
 			return nil, err
 		}
-		elementSize := dim2size(array.dim[1:])
-		if int(index)*elementSize >= len(array.list) || index < 0 {
+		if index < 0 || int(index) >= array.dim[0] {
 			condition := &DomainError{
 				Object:        index,
 				ExpectedClass: integerClass,
@@ -250,6 +258,7 @@ func funSetAref(ctx context.Context, w *World, args []Node) (Node, error) {
 			array.list[index] = newValue
 			return newValue, nil
 		}
+		elementSize := dim2size(array.dim[1:])
 		array = &Array{
 			list: array.list[int(index)*elementSize : int(index+1)*elementSize],
 			dim:  array.dim[1:],
@@ -268,7 +277,7 @@ func funArrayDimensions(ctx context.Context, w *World, arg Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	var cons Node
+	var cons Node = Null
 	for i := len(array.dim) - 1; i >= 0; i-- {
 		cons = &Cons{
 			Car: Integer(array.dim[i]),
@@ -296,7 +305,7 @@ func funBasicArray(_ context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funGeneralArray(_ context.Context, w *World, arg Node) (Node, error) {
-	if array, ok := arg.(*Array); ok && len(array.dim) >= 2 {
+	if array, ok := arg.(*Array); ok && len(array.dim) != 1 {
 		return True, nil
 	}
 	return Null, nil
diff --git a/world.go b/world.go
index 0e40976..809437c 100644
--- a/world.go
+++ b/world.go
@@ -277,7 +277,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("and"):                            SpecialF(cmdAnd),
 	NewSymbol("append"):                         &Function{F: funAppend},
 	NewSymbol("apply"):                          SpecialF(cmdApply),
-	NewSymbol("aref"):                           &Function{Min: 2, F: funAref},
+	NewSymbol("aref"):                           &Function{Min: 1, F: funAref},
 	NewSymbol("arithmetic-error-operands"):      Function1(funArithmeticErrorOperands),
 	NewSymbol("arithmetic-error-operation"):     Function1(funArithmeticErrorOperation),
 	NewSymbol("array-dimensions"):               Function1(funArrayDimensions),
@@ -412,7 +412,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("return-from"):                    SpecialF(cmdReturnFrom),
 	NewSymbol("reverse"):                        Function1(funReverse),
 	NewSymbol("round"):                          Function1(funRound),
-	NewSymbol("set-aref"):                       &Function{Min: 3, F: funSetAref},
+	NewSymbol("set-aref"):                       &Function{Min: 2, F: funSetAref},
 	NewSymbol("set-car"):                        Function2(funSetCar),
 	NewSymbol("set-cdr"):                        Function2(funSetCdr),
 	NewSymbol("set-gethash"):                    &Function{C: 3, F: funSetHash},
-- 
2.43.0


From 16b86773bbf709f47c16a7cde83d22ab5c4243f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 045/106] fix: setf of elt with a negative index changed the
 first element of a list

---
 embed/swap-elt.lsp | 1 +
 tools/embed.lsp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/embed/swap-elt.lsp b/embed/swap-elt.lsp
index 984f24b..b7fe190 100644
--- a/embed/swap-elt.lsp
+++ b/embed/swap-elt.lsp
@@ -5,5 +5,6 @@
       (create-string 1 newvalue)
       (subseq source (1+ z) (length source)))
     (progn
+      (elt source z)
       (set-car newvalue (nthcdr z source))
       source)))
diff --git a/tools/embed.lsp b/tools/embed.lsp
index efc296a..edfa6c7 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -32,6 +32,7 @@
       (create-string 1 newvalue)
       (subseq source (1+ z) (length source)))
     (progn
+      (elt source z)
       (set-car newvalue (nthcdr z source))
       source)))
 
-- 
2.43.0


From 70b5b0fca14d9c56d75655061315920692a64837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 046/106] fix: (+) and (*) returned nil instead of 0 and 1, (-)
 and (/) were no errors, nor was (+ x) of another object

---
 operator.go | 12 ++++++++++++
 world.go    |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/operator.go b/operator.go
index 2ec2096..d31a9f1 100644
--- a/operator.go
+++ b/operator.go
@@ -11,6 +11,12 @@ type canPlus interface {
 }
 
 func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
+	if len(args) <= 0 {
+		return Integer(0), nil
+	}
+	if _, ok := args[0].(canPlus); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
@@ -50,6 +56,12 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		Node
 		Multi(context.Context, *World, Node) (Node, error)
 	}
+	if len(args) <= 0 {
+		return Integer(1), nil
+	}
+	if _, ok := args[0].(CanMulti); !ok {
+		return nil, MakeError(ErrNotSupportType, args[0])
+	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
diff --git a/world.go b/world.go
index 809437c..ba97162 100644
--- a/world.go
+++ b/world.go
@@ -265,8 +265,8 @@ var autoLoadFunc = Functions{
 	// *sort*start*
 	NewSymbol("*"):                              &Function{F: funMulti},
 	NewSymbol("+"):                              &Function{F: funAdd},
-	NewSymbol("-"):                              &Function{F: funSub},
-	NewSymbol("/"):                              &Function{F: funDevide},
+	NewSymbol("-"):                              &Function{Min: 1, F: funSub},
+	NewSymbol("/"):                              &Function{Min: 1, F: funDevide},
 	NewSymbol("/="):                             &Function{C: 2, F: funNotEqual},
 	NewSymbol("<"):                              &Function{F: funLessThan},
 	NewSymbol("<="):                             &Function{F: funLessOrEqual},
-- 
2.43.0


From cbeb43e545072a54830f306fa0901d5756c50e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 047/106] fix: comparing an integer with a float rounded the
 integer, so different numbers were equal

---
 number.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index f5a7b5d..c0a6af1 100644
--- a/number.go
+++ b/number.go
@@ -38,13 +38,40 @@ func (i Integer) String() string {
 	return fmt.Sprintf("%d", int64(i))
 }
 
+// exactFloat returns the integer whose value is f.
+func exactFloat(f Float) (Integer, bool) {
+	if f >= -(1<<63) && f < 1<<63 && math.Trunc(float64(f)) == float64(f) {
+		return Integer(f), true
+	}
+	return 0, false
+}
+
+// lessThanFloat compares the exact values, without rounding i to a float.
+func (i Integer) lessThanFloat(f Float) bool {
+	if f >= -(1<<63) && f < 1<<63 {
+		return i < Integer(math.Ceil(float64(f)))
+	}
+	return Float(i) < f
+}
+
+func (i Integer) greaterThanFloat(f Float) bool {
+	if f >= -(1<<63) && f < 1<<63 {
+		return i > Integer(math.Floor(float64(f)))
+	}
+	return Float(i) > f
+}
+
 func (i Integer) Equals(n Node, m EqlMode) bool {
 	if m == EQUALP {
 		if _n, ok := n.(Integer); ok && i == _n {
 			return true
 		}
 		_n, ok := n.(Float)
-		return ok && Float(i) == _n
+		if !ok {
+			return false
+		}
+		_i, ok := exactFloat(_n)
+		return ok && i == _i
 	} else {
 		_n, ok := n.(Integer)
 		return ok && i == _n
@@ -165,7 +192,7 @@ func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 	if _n, ok := n.(Float); ok {
-		return Float(i) < _n, nil
+		return i.lessThanFloat(_n), nil
 	}
 	_n, err := ExpectClass[Integer](ctx, w, n)
 	if err == nil {
@@ -192,7 +219,7 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 			return true
 		}
 		_n, ok := n.(Integer)
-		return ok && f == Float(_n)
+		return ok && _n.Equals(f, EQUALP)
 	} else {
 		v, ok := n.(Float)
 		return ok && f == v
@@ -251,7 +278,7 @@ func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 	if _n, ok := n.(Integer); ok {
-		return f < Float(_n), nil
+		return _n.greaterThanFloat(f), nil
 	}
 	_n, err := ExpectClass[Float](ctx, w, n)
 	if err == nil {
-- 
2.43.0


From 0ff6e6ce83f93303e363e48f5dc9560ad8c6cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 048/106] fix: sqrt failed on integers and returned NaN for
 negative numbers

---
 number.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/number.go b/number.go
index c0a6af1..d845147 100644
--- a/number.go
+++ b/number.go
@@ -288,12 +288,23 @@ func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-	n, err := ExpectClass[Float](ctx, w, arg)
-	if err != nil {
-		return nil, err
+	if i, ok := arg.(Integer); ok && i >= 0 {
+		root := Integer(math.Sqrt(float64(i)))
+		for root*root > i {
+			root--
+		}
+		if root*root == i {
+			return root, nil
+		}
+		return Float(math.Sqrt(float64(i))), nil
+	}
+	if f, ok := arg.(Float); ok && f >= 0 {
+		return Float(math.Sqrt(float64(f))), nil
 	}
-	v := math.Sqrt(float64(n))
-	return Float(v), nil
+	return callHandler[Node](ctx, w, false, &DomainError{
+		Object:        arg,
+		ExpectedClass: numberClass,
+	})
 }
 
 type BigInt struct {
-- 
2.43.0


From 3ed7716cd55fc9d02a3d2876df92099d8ab144f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:59 +0000
Subject: [PATCH 049/106] fix: round did not round halves to the even integer

---
 operator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operator.go b/operator.go
index d31a9f1..6190adb 100644
--- a/operator.go
+++ b/operator.go
@@ -217,7 +217,7 @@ func funCeiling(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func funRound(ctx context.Context, w *World, arg Node) (Node, error) {
-	return floatToInteger(arg, math.Round)
+	return floatToInteger(arg, math.RoundToEven)
 }
 
 func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
-- 
2.43.0


From e8582727024a06682e7ab28163d84c64f53bc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:03 +0000
Subject: [PATCH 050/106] fix: rem of an integer and a float failed

---
 operator.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/operator.go b/operator.go
index 6190adb..fb7ded9 100644
--- a/operator.go
+++ b/operator.go
@@ -286,5 +286,13 @@ func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return Float(math.Mod(float64(left), float64(int(right)))), nil
 		}
 	}
+	if left, ok := first.(Integer); ok {
+		if right, ok := second.(Float); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
+			return Float(math.Mod(float64(int(left)), float64(right))), nil
+		}
+	}
 	return nil, ErrNotSupportType
 }
-- 
2.43.0


From 0a521b558e4d9faa5e500ba9579f92abdb6b4b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 051/106] fix: integers with a plus sign, or a sign after #x,
 #o or #b, were read as symbols

---
 pkg/parser/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..7767d81 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -14,10 +14,10 @@ import (
 var (
 	rxFloat1     = regexp.MustCompile(`^[\-\+]?[0-9]+\.[0-9]*([eE][\-\+]?\d+)?$`)
 	rxFloat2     = regexp.MustCompile(`^[\-\+]?[0-9]+[eE][-+]?\d+$`)
-	rxInteger    = regexp.MustCompile(`^-?[0-9]+$`)
-	rxHexInteger = regexp.MustCompile(`^\#[Xx][0-9A-Fa-f]+$`)
-	rxOctInteger = regexp.MustCompile(`^\#[Oo][0-7]+$`)
-	rxBinInteger = regexp.MustCompile(`^\#[Bb][01]+$`)
+	rxInteger    = regexp.MustCompile(`^[-+]?[0-9]+$`)
+	rxHexInteger = regexp.MustCompile(`^\#[Xx][-+]?[0-9A-Fa-f]+$`)
+	rxOctInteger = regexp.MustCompile(`^\#[Oo][-+]?[0-7]+$`)
+	rxBinInteger = regexp.MustCompile(`^\#[Bb][-+]?[01]+$`)
 	rxArray      = regexp.MustCompile(`^#(\d*)[aA]\(`)
 )
 
-- 
2.43.0


From 28ab93905873e7792aa896b0b339cb03d1ac6932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 052/106] fix: comparing an integer near the end of its range
 with a larger float

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index d845147..4a3b817 100644
--- a/number.go
+++ b/number.go
@@ -51,14 +51,14 @@ func (i Integer) lessThanFloat(f Float) bool {
 	if f >= -(1<<63) && f < 1<<63 {
 		return i < Integer(math.Ceil(float64(f)))
 	}
-	return Float(i) < f
+	return f >= 1<<63
 }
 
 func (i Integer) greaterThanFloat(f Float) bool {
 	if f >= -(1<<63) && f < 1<<63 {
 		return i > Integer(math.Floor(float64(f)))
 	}
-	return Float(i) > f
+	return f < -(1 << 63)
 }
 
 func (i Integer) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From d77ef99a9b36f4c29b904f49e2edcfaf1baabb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 053/106] fix: set-property returned all properties and
 remove-property the remaining ones

---
 startup.lsp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/startup.lsp b/startup.lsp
index 59a8af5..497ae0d 100644
--- a/startup.lsp
+++ b/startup.lsp
@@ -44,12 +44,15 @@
             (setq all-properties (set-item sym properties all-properties)))
           ; symbol not found
           (let ((properties (list (cons name obj))))
-            (setq all-properties (set-item sym properties all-properties))))))
+            (setq all-properties (set-item sym properties all-properties)))))
+      obj)
 
     (defun remove-property (sym name)
-      (let ((properties (assoc sym all-properties)))
-        (if properties
-          (setf (cdr properties) (rm-item name (cdr properties)))
-          (setq all-properties (rm-item sym all-properties)))))
+      (let* ((properties (assoc sym all-properties))
+             (name-value (if properties (assoc name (cdr properties)))))
+        (if name-value
+          (progn
+            (setf (cdr properties) (rm-item name (cdr properties)))
+            (cdr name-value)))))
     )
   )
-- 
2.43.0


From 2d6fad1b17ee93f799bf3e574a53b89404d77ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:19 +0000
Subject: [PATCH 054/106] restore the line endings of tools/embed.lsp and
 embed/case-using.lsp

---
 embed/case-using.lsp |  36 ++--
 tools/embed.lsp      | 460 +++++++++++++++++++++----------------------
 2 files changed, 248 insertions(+), 248 deletions(-)

diff --git a/embed/case-using.lsp b/embed/case-using.lsp
index 3b02644..9d25d74 100644
--- a/embed/case-using.lsp
+++ b/embed/case-using.lsp
@@ -1,18 +1,18 @@
-(lambda-macro (predform keyform &rest body)
-  (let ((predform_ (gensym)) (keyform_ (gensym)))
-    (setq body
-          (mapcar
-            (lambda (entry)
-              (cons
-                (if (equal (car entry) 't)
-                  't
-                  (cons
-                    'or
-                    (mapcar
-                      (lambda (key1)
-                        (list 'funcall predform_ keyform_ (list 'quote key1)))
-                      (car entry))))
-                (or (cdr entry) '(nil))))
-            body))
-    (setq body (cons 'cond body))
-    `(let ((,predform_ ,predform) (,keyform_ ,keyform)) ,body)))
+(lambda-macro (predform keyform &rest body)
+  (let ((predform_ (gensym)) (keyform_ (gensym)))
+    (setq body
+          (mapcar
+            (lambda (entry)
+              (cons
+                (if (equal (car entry) 't)
+                  't
+                  (cons
+                    'or
+                    (mapcar
+                      (lambda (key1)
+                        (list 'funcall predform_ keyform_ (list 'quote key1)))
+                      (car entry))))
+                (or (cdr entry) '(nil))))
+            body))
+    (setq body (cons 'cond body))
+    `(let ((,predform_ ,predform) (,keyform_ ,keyform)) ,body)))
diff --git a/tools/embed.lsp b/tools/embed.lsp
index edfa6c7..470967f 100644
--- a/tools/embed.lsp
+++ b/tools/embed.lsp
@@ -1,230 +1,230 @@
-(defmacro when (test &rest args)
-  `(if ,test (progn ,@args)))
-
-(defmacro unless (test &rest args)
-  `(if ,test nil (progn ,@args)))
-
-(defmacro prog1 (expr &rest args)
-  (let ((x (gensym)))
-    `(let ((,x ,expr))
-       (progn ,@args)
-       ,x)))
-
-(defmacro prog2 (expr1 expr2 &rest args)
-  `(progn ,expr1 (prog1 ,expr2 ,@args)))
-
-(defun 1+ (x) (+ x 1))
-
-(defmacro incf (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (+ ,place ,delta))))
-
-(defun 1- (x) (- x 1))
-
-(defmacro decf (place &rest args)
-  (let ((delta (if args (car args) 1)))
-    `(setf ,place (- ,place ,delta))))
-
-(defun swap-elt (newvalue source z)
-  (if (stringp source)
-    (string-append
-      (subseq source 0 z)
-      (create-string 1 newvalue)
-      (subseq source (1+ z) (length source)))
-    (progn
-      (elt source z)
-      (set-car newvalue (nthcdr z source))
-      source)))
-
-(defun swap-subseq (seq start end newvalue)
-  (if (stringp seq)
-    (string-append (subseq seq 0 start)
-                   newvalue
-                   (subseq seq end (length seq)))
-    (let ((orig seq))
-      (while seq
-        (if (and (<= start 0) (> end 0) newvalue)
-          (progn
-            (set-car (car newvalue) seq)
-            (setq newvalue (cdr newvalue))))
-        (decf start)
-        (decf end)
-        (setq seq (cdr seq)))
-      orig)))
-
-(let ((setf-table
-        '((car . set-car)
-          (cdr . set-cdr)
-          (elt . set-elt)
-          (dynamic . set-dynamic)
-          (subseq . set-subseq)
-          (setq . set-setq)
-          (assoc . set-assoc)
-          (aref . set-aref)
-          (cddr . set-cddr)
-          (cdddr . set-cdddr)
-          (cadr . set-cadr)
-          (caddr . set-caddr)
-          (cadddr . set-cadddr)
-          (first . set-car)
-          (second . set-cadr)
-          (third . set-caddr)
-          (gethash . set-gethash))))
-  (defmacro setf (expr newvalue)
-    (if (symbolp expr)
-      `(setq ,expr ,newvalue)
-      (let* ((name (car expr))
-             (pair (assoc name setf-table))
-             (tmp nil)
-             (setter
-               (if pair
-                 (cdr pair)
-                 (progn
-                   (setq tmp (convert (string-append "set-" (convert name <string>)) <symbol>))
-                   (setq setf-table (cons (cons name tmp) setf-table))
-                   tmp)))
-             (arguments (cdr expr)))
-        (cons setter (cons newvalue arguments))))))
-
-(defmacro set-elt (newvalue seq &rest z)
-  (let ((v (gensym)) (s (gensym)) (i (gensym)))
-    `(let* ((,v ,newvalue) (,s ,seq) (,i (list ,@z)))
-       (cond
-         ((stringp ,s) (setf ,seq (swap-elt ,v ,s (car ,i))))
-         ((listp ,s) (swap-elt ,v ,s (car ,i)))
-         (t (apply #'set-aref ,v ,s ,i)))
-       ,v)))
-
-(defmacro set-dynamic (newvalue name)
-  (let ((v (gensym)))
-    `(let ((,v ,newvalue))
-       (defdynamic ,name ,v)
-       ,v)))
-
-(defmacro set-subseq (newvalue seq start end)
-  (let ((v (gensym)))
-    `(let ((,v ,newvalue))
-       (setf ,seq (swap-subseq ,seq ,start ,end ,v))
-       ,v)))
-
-(defmacro set-setq (newvalue name avlue)
-  (let ((name (elt expr 1)) (value (elt expr 2)))
-    `(progn (setq ,name ,value) (setf ,name ,newvalue))))
-
-(defun set-assoc (newvalue key m)
-  (while m
-    (if (and (consp (car m)) (equal key (car (car m))))
-      (progn
-        (set-car newvalue m)
-        (setq m nil))
-      (setq m (cdr m))))
-  newvalue)
-
-(defmacro dolist (vars &rest body)
-  (let ((var (car vars))
-        (values (elt vars 1))
-        (rest (gensym)))
-    `(block
-       nil
-       (let ((,var nil)(,rest ,values))
-         (while ,rest
-           (setq ,var (car ,rest))
-           (setq ,rest (cdr ,rest))
-           ,@body)))))
-
-(defmacro dotimes (vars &rest commands)
-  (let ((var (car vars))
-        (count (elt vars 1))
-        (end (gensym)))
-    `(let ((,var 0)(,end ,count))
-       (while (< ,var ,end)
-         (progn ,@commands)
-         (setq ,var (+ 1 ,var))))))
-
-(defmacro for (iters test-result &rest body)
-  (let ((inits nil)
-        (steps nil)
-        (test (car test-result))
-        (result (elt test-result 1)))
-    (while iters
-      (let ((e (car iters)))
-        (setq inits (cons (list (car e) (elt e 1)) inits))
-        (setq steps (append steps (list (car e) (elt e 2)))))
-      (setq iters (cdr iters)))
-    (setq steps (cons 'psetq steps))
-    `(let ,inits
-       (while (not ,test)
-         ,@body
-         ,steps)
-       ,result)))
-
-(defun nthcdr (n x)
-  (block
-    nil
-    (while (and (>= (decf n) 0) x)
-      (unless (consp x)
-        (return nil))
-      (setq x (cdr x)))
-    x))
-
-(defun cddr (x) (nthcdr 2 x))
-
-(defun cdddr (x) (nthcdr 3 x))
-
-(defun cadr (x) (nth 1 x))
-
-(defun caddr (x) (nth 2 x))
-
-(defun cadddr (x) (nth 3 x))
-
-(defun first (x) (car x))
-
-(defun second (x) (nth 1 x))
-
-(defun third (x) (nth 2 x))
-
-(defun rest (x) (cdr x))
-
-(defun nth (n x)
-  (let ((rest (nthcdr n x)))
-    (if (consp rest)
-      (car rest)
-      nil)))
-
-(defun set-nth (newvalue Z L)
-  (set-elt newvalue L Z))
-
-(defun set-nthcdr (newvalue z source)
-  (set-cdr newvalue (nthcdr (1- z) source)))
-
-(defun set-cadr (newvalue L)
-  (set-car newvalue (cdr L)))
-
-(defun set-caddr (newvalue L)
-  (set-car newvalue (cdr (cdr L))))
-
-(defun set-cadddr (newvalue L)
-  (set-car newvalue (cdr (cdr (cdr L)))))
-
-(defun set-cddr (newvalue L)
-  (set-cdr newvalue (cdr L)))
-
-(defun set-cdddr (newvalue L)
-  (set-cdr newvalue (cdr (cdr L))))
-
-(defmacro flet (e &rest body)
-  (let (result ee)
-    (while e
-      (setq ee (car e))
-      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
-      (setq e (cdr e)))
-    `(let ,result ,@body)))
-
-(defmacro labels (e &rest body)
-  (let (result ee)
-    (while e
-      (setq ee (car e))
-      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
-      (setq e (cdr e)))
-    (setq result (nreverse result))
-    `(let* ,result ,@body)))
+(defmacro when (test &rest args)
+  `(if ,test (progn ,@args)))
+
+(defmacro unless (test &rest args)
+  `(if ,test nil (progn ,@args)))
+
+(defmacro prog1 (expr &rest args)
+  (let ((x (gensym)))
+    `(let ((,x ,expr))
+       (progn ,@args)
+       ,x)))
+
+(defmacro prog2 (expr1 expr2 &rest args)
+  `(progn ,expr1 (prog1 ,expr2 ,@args)))
+
+(defun 1+ (x) (+ x 1))
+
+(defmacro incf (place &rest args)
+  (let ((delta (if args (car args) 1)))
+    `(setf ,place (+ ,place ,delta))))
+
+(defun 1- (x) (- x 1))
+
+(defmacro decf (place &rest args)
+  (let ((delta (if args (car args) 1)))
+    `(setf ,place (- ,place ,delta))))
+
+(defun swap-elt (newvalue source z)
+  (if (stringp source)
+    (string-append
+      (subseq source 0 z)
+      (create-string 1 newvalue)
+      (subseq source (1+ z) (length source)))
+    (progn
+      (elt source z)
+      (set-car newvalue (nthcdr z source))
+      source)))
+
+(defun swap-subseq (seq start end newvalue)
+  (if (stringp seq)
+    (string-append (subseq seq 0 start)
+                   newvalue
+                   (subseq seq end (length seq)))
+    (let ((orig seq))
+      (while seq
+        (if (and (<= start 0) (> end 0) newvalue)
+          (progn
+            (set-car (car newvalue) seq)
+            (setq newvalue (cdr newvalue))))
+        (decf start)
+        (decf end)
+        (setq seq (cdr seq)))
+      orig)))
+
+(let ((setf-table
+        '((car . set-car)
+          (cdr . set-cdr)
+          (elt . set-elt)
+          (dynamic . set-dynamic)
+          (subseq . set-subseq)
+          (setq . set-setq)
+          (assoc . set-assoc)
+          (aref . set-aref)
+          (cddr . set-cddr)
+          (cdddr . set-cdddr)
+          (cadr . set-cadr)
+          (caddr . set-caddr)
+          (cadddr . set-cadddr)
+          (first . set-car)
+          (second . set-cadr)
+          (third . set-caddr)
+          (gethash . set-gethash))))
+  (defmacro setf (expr newvalue)
+    (if (symbolp expr)
+      `(setq ,expr ,newvalue)
+      (let* ((name (car expr))
+             (pair (assoc name setf-table))
+             (tmp nil)
+             (setter
+               (if pair
+                 (cdr pair)
+                 (progn
+                   (setq tmp (convert (string-append "set-" (convert name <string>)) <symbol>))
+                   (setq setf-table (cons (cons name tmp) setf-table))
+                   tmp)))
+             (arguments (cdr expr)))
+        (cons setter (cons newvalue arguments))))))
+
+(defmacro set-elt (newvalue seq &rest z)
+  (let ((v (gensym)) (s (gensym)) (i (gensym)))
+    `(let* ((,v ,newvalue) (,s ,seq) (,i (list ,@z)))
+       (cond
+         ((stringp ,s) (setf ,seq (swap-elt ,v ,s (car ,i))))
+         ((listp ,s) (swap-elt ,v ,s (car ,i)))
+         (t (apply #'set-aref ,v ,s ,i)))
+       ,v)))
+
+(defmacro set-dynamic (newvalue name)
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (defdynamic ,name ,v)
+       ,v)))
+
+(defmacro set-subseq (newvalue seq start end)
+  (let ((v (gensym)))
+    `(let ((,v ,newvalue))
+       (setf ,seq (swap-subseq ,seq ,start ,end ,v))
+       ,v)))
+
+(defmacro set-setq (newvalue name avlue)
+  (let ((name (elt expr 1)) (value (elt expr 2)))
+    `(progn (setq ,name ,value) (setf ,name ,newvalue))))
+
+(defun set-assoc (newvalue key m)
+  (while m
+    (if (and (consp (car m)) (equal key (car (car m))))
+      (progn
+        (set-car newvalue m)
+        (setq m nil))
+      (setq m (cdr m))))
+  newvalue)
+
+(defmacro dolist (vars &rest body)
+  (let ((var (car vars))
+        (values (elt vars 1))
+        (rest (gensym)))
+    `(block
+       nil
+       (let ((,var nil)(,rest ,values))
+         (while ,rest
+           (setq ,var (car ,rest))
+           (setq ,rest (cdr ,rest))
+           ,@body)))))
+
+(defmacro dotimes (vars &rest commands)
+  (let ((var (car vars))
+        (count (elt vars 1))
+        (end (gensym)))
+    `(let ((,var 0)(,end ,count))
+       (while (< ,var ,end)
+         (progn ,@commands)
+         (setq ,var (+ 1 ,var))))))
+
+(defmacro for (iters test-result &rest body)
+  (let ((inits nil)
+        (steps nil)
+        (test (car test-result))
+        (result (elt test-result 1)))
+    (while iters
+      (let ((e (car iters)))
+        (setq inits (cons (list (car e) (elt e 1)) inits))
+        (setq steps (append steps (list (car e) (elt e 2)))))
+      (setq iters (cdr iters)))
+    (setq steps (cons 'psetq steps))
+    `(let ,inits
+       (while (not ,test)
+         ,@body
+         ,steps)
+       ,result)))
+
+(defun nthcdr (n x)
+  (block
+    nil
+    (while (and (>= (decf n) 0) x)
+      (unless (consp x)
+        (return nil))
+      (setq x (cdr x)))
+    x))
+
+(defun cddr (x) (nthcdr 2 x))
+
+(defun cdddr (x) (nthcdr 3 x))
+
+(defun cadr (x) (nth 1 x))
+
+(defun caddr (x) (nth 2 x))
+
+(defun cadddr (x) (nth 3 x))
+
+(defun first (x) (car x))
+
+(defun second (x) (nth 1 x))
+
+(defun third (x) (nth 2 x))
+
+(defun rest (x) (cdr x))
+
+(defun nth (n x)
+  (let ((rest (nthcdr n x)))
+    (if (consp rest)
+      (car rest)
+      nil)))
+
+(defun set-nth (newvalue Z L)
+  (set-elt newvalue L Z))
+
+(defun set-nthcdr (newvalue z source)
+  (set-cdr newvalue (nthcdr (1- z) source)))
+
+(defun set-cadr (newvalue L)
+  (set-car newvalue (cdr L)))
+
+(defun set-caddr (newvalue L)
+  (set-car newvalue (cdr (cdr L))))
+
+(defun set-cadddr (newvalue L)
+  (set-car newvalue (cdr (cdr (cdr L)))))
+
+(defun set-cddr (newvalue L)
+  (set-cdr newvalue (cdr L)))
+
+(defun set-cdddr (newvalue L)
+  (set-cdr newvalue (cdr (cdr L))))
+
+(defmacro flet (e &rest body)
+  (let (result ee)
+    (while e
+      (setq ee (car e))
+      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
+      (setq e (cdr e)))
+    `(let ,result ,@body)))
+
+(defmacro labels (e &rest body)
+  (let (result ee)
+    (while e
+      (setq ee (car e))
+      (setq result (cons (cons (car ee) (list (cons 'lambda (cdr ee)))) result))
+      (setq e (cdr e)))
+    (setq result (nreverse result))
+    `(let* ,result ,@body)))
-- 
2.43.0


From 238da7d1c241d24a435b00812fa52ba8f98a7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 055/106] fix: eq on functions of different kinds was true

---
 utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 1e9370f..fa88fee 100644
--- a/utils.go
+++ b/utils.go
@@ -146,9 +146,12 @@ func sameNode(a, b Node) bool {
 
 func sameCallable(a, b Callable) bool {
 	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
-	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
+	if !va.IsValid() || !vb.IsValid() {
 		return va.IsValid() == vb.IsValid()
 	}
+	if va.Type() != vb.Type() {
+		return false
+	}
 	if va.Kind() == reflect.Func {
 		return va.Pointer() == vb.Pointer()
 	}
-- 
2.43.0


From 0670f24984c112b652ea4f796c8289c7e20bcc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 056/106] fix: a parse error was not eql to itself

---
 error.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index bd4a753..697badd 100644
--- a/error.go
+++ b/error.go
@@ -324,8 +324,12 @@ func (p *ParseError) String() string {
 	return fmt.Sprintf("ParseError: %s: %s", String(p.str), p.ExpectedClass.String())
 }
 
-func (p *ParseError) Equals(n Node, _ EqlMode) bool {
-	return false
+func (p *ParseError) Equals(n Node, mode EqlMode) bool {
+	other, ok := n.(*ParseError)
+	if !ok || mode == STRICT {
+		return ok && p == other
+	}
+	return p.str == other.str && p.ExpectedClass.Equals(other.ExpectedClass, mode)
 }
 
 func (p *ParseError) Error() string {
-- 
2.43.0


From cd4a4dfa92d022acba2656f41e00687afa634237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:20 +0000
Subject: [PATCH 057/106] fix: ,@ was not supported in backquotes, and commas
 of nested ones were evaluated

---
 cmds.go            | 52 ++++++++++++++++++++++++++++++++++------------
 parse.go           |  1 +
 pkg/parser/main.go | 10 ++++++++-
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/cmds.go b/cmds.go
index f471a21..c9e55b7 100644
--- a/cmds.go
+++ b/cmds.go
@@ -16,29 +16,55 @@ func cmdQuote(_ context.Context, _ *World, n Node) (Node, error) {
 	return argv[0], nil
 }
 
-func quasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
-	if cons, ok := n.(*Cons); ok {
-		if cons.Car == symUnquote {
+func quasiQuote(ctx context.Context, w *World, n Node, level int) (Node, error) {
+	cons, ok := n.(*Cons)
+	if !ok {
+		return n, nil
+	}
+	nextLevel := level
+	switch cons.Car {
+	case symUnquote:
+		if level == 0 {
 			if cdrCons, ok := cons.Cdr.(*Cons); ok {
-				newCar, err := w.Eval(ctx, cdrCons.Car)
-				if err != nil {
-					return nil, err
-				}
-				return newCar, nil //&Cons{Car: newCar, Cdr: newCdr}, nil
+				return w.Eval(ctx, cdrCons.Car)
 			}
 			return w.Eval(ctx, cons.Cdr)
 		}
-		newCar, err := quasiQuote(ctx, w, cons.Car)
+		nextLevel--
+	case symSplicing:
+		if level > 0 {
+			nextLevel--
+		}
+	case backQuoteSymbol:
+		nextLevel++
+	}
+	if form, ok := cons.Car.(*Cons); ok && form.Car == symSplicing && level == 0 {
+		value, _, err := Shift(form.Cdr)
 		if err != nil {
 			return nil, err
 		}
-		newCdr, err := quasiQuote(ctx, w, cons.Cdr)
+		value, err = w.Eval(ctx, value)
 		if err != nil {
 			return nil, err
 		}
-		return &Cons{Car: newCar, Cdr: newCdr}, nil
+		rest, err := quasiQuote(ctx, w, cons.Cdr, level)
+		if err != nil {
+			return nil, err
+		}
+		if IsNone(rest) {
+			return value, nil
+		}
+		return funAppend(ctx, w, []Node{value, rest})
+	}
+	newCar, err := quasiQuote(ctx, w, cons.Car, nextLevel)
+	if err != nil {
+		return nil, err
+	}
+	newCdr, err := quasiQuote(ctx, w, cons.Cdr, nextLevel)
+	if err != nil {
+		return nil, err
 	}
-	return n, nil
+	return &Cons{Car: newCar, Cdr: newCdr}, nil
 }
 
 func cmdQuasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
@@ -46,7 +72,7 @@ func cmdQuasiQuote(ctx context.Context, w *World, n Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return quasiQuote(ctx, w, value)
+	return quasiQuote(ctx, w, value, 0)
 }
 
 func funAtom(_ context.Context, _ *World, arg Node) (Node, error) {
diff --git a/parse.go b/parse.go
index 76094ec..d66b855 100644
--- a/parse.go
+++ b/parse.go
@@ -11,6 +11,7 @@ var (
 	ampRest         = NewKeyword("&rest")
 	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
+	symSplicing     = NewSymbol("unquote-splicing")
 	nulSymbol       = NewSymbol("")
 	quoteSymbol     = NewSymbol("quote")
 	backQuoteSymbol = NewSymbol("quasiquote")
diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 7767d81..4b94bb0 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -250,6 +250,14 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.newQuote(quoted), nil
 	}
 	if token == "," {
+		name := "unquote"
+		if c, _, err := rs.ReadRune(); err == nil {
+			if c == '@' {
+				name = "unquote-splicing"
+			} else if err := rs.UnreadRune(); err != nil {
+				return p.Null(), err
+			}
+		}
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
 			if err == io.EOF {
@@ -257,7 +265,7 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 			}
 			return p.Null(), err
 		}
-		return p.Cons(p.Symbol("unquote"), p.Cons(quoted, p.Null())), nil
+		return p.Cons(p.Symbol(name), p.Cons(quoted, p.Null())), nil
 	}
 	if token == "#'" {
 		function, err := p.ReadNode(rs)
-- 
2.43.0


From 0443f702cf436db083918d8bc6831929535edb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:54 +0000
Subject: [PATCH 058/106] fix: a macro ignored surplus operands

---
 macro.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macro.go b/macro.go
index 41e005c..5e05913 100644
--- a/macro.go
+++ b/macro.go
@@ -102,6 +102,9 @@ func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
 			return nil, err
 		}
 	}
+	if IsSome(n) && m.rest == nulSymbol {
+		return nil, ErrTooManyArguments
+	}
 	lexical[m.rest] = n
 	joinedForm := _JoinedForm{}
 	for cons, ok := n.(*Cons); ok && IsSome(cons); cons, ok = cons.Cdr.(*Cons) {
-- 
2.43.0


From 9251fc30c0ecbbd750a78745f052e537c21cf091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:24 +0000
Subject: [PATCH 059/106] fix: a labels function did not hide a macro of its
 name from the functions before it

---
 functionref.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/functionref.go b/functionref.go
index 2f16906..8f0435e 100644
--- a/functionref.go
+++ b/functionref.go
@@ -121,6 +121,21 @@ func cmdLabels(ctx context.Context, w *World, list Node) (Node, error) {
 	}
 	lexical := Functions{}
 	nw := w.Flet(lexical)
+	// The names hide the macros of the same name in all the definitions.
+	for rest := flist; HasValue(rest); {
+		var flist1 Node
+		flist1, rest, err = Shift(rest)
+		if err != nil {
+			return nil, err
+		}
+		name, _, err := Shift(flist1)
+		if err != nil {
+			return nil, err
+		}
+		if symbol, ok := name.(Symbol); ok {
+			lexical[symbol] = &_Lambda{}
+		}
+	}
 	for HasValue(flist) {
 		var flist1 Node
 		flist1, flist, err = Shift(flist)
-- 
2.43.0


From e460aceef0f64003a51cfa24a4e6595280e7d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 060/106] fix: quote before a close parenthesis, misplaced dots
 and unterminated vectors were accepted, and |)| and |.| were taken for
 punctuation

---
 pkg/parser/main.go | 87 +++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 4b94bb0..54f21a3 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -26,6 +26,9 @@ var (
 	ErrTooManyArguments  = errors.New("too many arguments")
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
+
+	ErrInvalidDot           = errors.New("invalid dot in a list")
+	ErrUnexpectedCloseParen = errors.New("unexpected close parenthesis")
 )
 
 type Factory[N comparable] interface {
@@ -45,20 +48,15 @@ type Factory[N comparable] interface {
 type _Parser[N comparable] struct {
 	Factory[N]
 
-	dotSymbol        N
-	functionSymbol   N
-	parenCloseSymbol N
+	functionSymbol N
 }
 
-func (p *_Parser[N]) nodes2cons(nodes []N) N {
-	if nodes == nil || len(nodes) <= 0 {
-		return p.Null()
-	}
+func (p *_Parser[N]) nodes2cons(nodes []N, dot bool) N {
 	cons := p.Null()
-	if len(nodes) >= 3 && nodes[len(nodes)-2] == p.dotSymbol {
+	if dot {
 		// dot pairs
 		cons = nodes[len(nodes)-1]
-		nodes = nodes[:len(nodes)-2]
+		nodes = nodes[:len(nodes)-1]
 	}
 	for i := len(nodes) - 1; i >= 0; i-- {
 		cons = p.Cons(nodes[i], cons)
@@ -73,17 +71,21 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 	fix := make([]bool, lenDim)
 	for {
 		if countDim == lenDim-1 {
-			newNode, err := p.ReadNode(rs)
+			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), unexpectedEOF(err)
 			}
-			if newNode == p.parenCloseSymbol {
+			if token == ")" {
 				fix[countDim] = true
 				countDim--
 				if countDim < 0 {
 					break
 				}
 			} else {
+				newNode, err := p.tokenToNode(token, rs)
+				if err != nil {
+					return p.Null(), err
+				}
 				nodes = append(nodes, newNode)
 				if !fix[countDim] {
 					dim[countDim]++
@@ -92,7 +94,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), unexpectedEOF(err)
 			}
 			if token == "(" {
 				if !fix[countDim] {
@@ -195,31 +197,44 @@ func (p *_Parser[N]) tryParseAsNumber(token string) (N, bool, error) {
 	return p.Null(), false, nil
 }
 
-func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, error) {
+// readUntilCloseParen returns the elements of a list and whether there is a
+// dot before the last of them.
+func (p *_Parser[N]) readUntilCloseParen(rs io.RuneScanner) ([]N, bool, error) {
 	nodes := []N{}
-	var err error
+	dot := -1
 	for {
+		token, err := readToken(rs)
 		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
+			return nil, false, unexpectedEOF(err)
+		}
+		if token == ")" {
+			if dot >= 0 && len(nodes) != dot+1 {
+				return nil, false, ErrInvalidDot
 			}
-			return nil, err
+			return nodes, dot >= 0, nil
 		}
-		var node1 N
-		node1, err = p.ReadNode(rs)
-		if err != nil {
-			if err == io.EOF {
-				return nil, ErrTooShortTokens
+		if token == "." {
+			if dot >= 0 || len(nodes) < 1 {
+				return nil, false, ErrInvalidDot
 			}
-			return nil, err
+			dot = len(nodes)
+			continue
 		}
-		if node1 == p.parenCloseSymbol {
-			return nodes, nil
+		node1, err := p.tokenToNode(token, rs)
+		if err != nil {
+			return nil, false, unexpectedEOF(err)
 		}
 		nodes = append(nodes, node1)
 	}
 }
 
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return ErrTooShortTokens
+	}
+	return err
+}
+
 var symbol4barReplacer = strings.NewReplacer(
 	`\\`, `\`,
 	`\|`, `|`)
@@ -229,6 +244,16 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	if err != nil {
 		return p.Null(), err
 	}
+	return p.tokenToNode(token, rs)
+}
+
+func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
+	if token == ")" {
+		return p.Null(), ErrUnexpectedCloseParen
+	}
+	if token == "." {
+		return p.Null(), ErrInvalidDot
+	}
 	if token == "`" {
 		quoted, err := p.ReadNode(rs)
 		if err != nil {
@@ -288,11 +313,11 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 		return p.readArray(dim, rs)
 	}
 	if token == "(" {
-		nodes, err := p.readUntilCloseParen(rs)
+		nodes, dot, err := p.readUntilCloseParen(rs)
 		if err != nil {
 			return p.Null(), err
 		}
-		return p.nodes2cons(nodes), nil
+		return p.nodes2cons(nodes, dot), nil
 	}
 	if len(token) > 0 && (token[0] == ':' || token[0] == '&') {
 		return p.Keyword(token), nil
@@ -366,10 +391,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 
 func newParser[N comparable](f Factory[N]) *_Parser[N] {
 	return &_Parser[N]{
-		Factory:          f,
-		dotSymbol:        f.Symbol("."),
-		functionSymbol:   f.Symbol("function"),
-		parenCloseSymbol: f.Symbol(")"),
+		Factory:        f,
+		functionSymbol: f.Symbol("function"),
 	}
 }
 
-- 
2.43.0


From 808c94a9fab80ffd8571bf372542c5c9dd21e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 061/106] fix: #\( and the like were cut off, adjacent strings
 were joined, and unterminated strings, symbols and comments were accepted

---
 pkg/parser/tokenize.go | 113 ++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 51 deletions(-)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..3710631 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"io"
 	"regexp"
 	"strings"
@@ -55,68 +54,80 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+a)?$`)
+var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
 
-func readtokenWord(r io.RuneScanner) (string, error) {
-	var buffer strings.Builder
-
-	quote := false
-	bar4symbol := false
-	lastLastRune := '\u0000'
+// readUntilQuote reads the rest of a string or of a symbol between bars,
+// leaving the escape sequences as they are.
+func readUntilQuote(r io.RuneScanner, quote rune, buffer *strings.Builder) error {
 	for {
-		lastRune, _, err := r.ReadRune()
+		c, _, err := r.ReadRune()
 		if err != nil {
-			return buffer.String(), err
+			return unexpectedEOF(err)
 		}
-
-		if lastRune == '\\' {
-			nextRune, _, err := r.ReadRune()
+		buffer.WriteRune(c)
+		if c == quote {
+			return nil
+		}
+		if c == '\\' {
+			c, _, err = r.ReadRune()
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
-			}
-			if nextRune == '\\' {
-				buffer.WriteString(`\\`)
-				continue
-			} else if nextRune == '"' {
-				buffer.WriteString(`\"`)
-				continue
-			} else {
-				r.UnreadRune()
+				return unexpectedEOF(err)
 			}
+			buffer.WriteRune(c)
 		}
+	}
+}
 
-		if !quote && !bar4symbol {
-			if lastRune == '#' {
-				done, err := skipComment(r)
-				if err != nil {
-					return "", err
-				}
-				if done {
-					continue
-				}
-			}
-			if lastRune == '(' && rxSharpAndNumber.MatchString(buffer.String()) {
-				buffer.WriteRune(lastRune)
+func readtokenWord(r io.RuneScanner) (string, error) {
+	var buffer strings.Builder
+
+	for {
+		c, _, err := r.ReadRune()
+		if err != nil {
+			if err == io.EOF && buffer.Len() > 0 {
 				return buffer.String(), nil
 			}
-			if lastRune == ')' || lastRune == '(' || lastRune == ';' || unicode.IsSpace(lastRune) {
-				r.UnreadRune()
+			return "", err
+		}
+		switch {
+		case c == '#':
+			done, err := skipComment(r)
+			if err != nil && (done || err != io.EOF) {
+				return "", unexpectedEOF(err)
+			}
+			if done {
 				return buffer.String(), nil
 			}
-		}
-		if lastRune == '"' {
-			quote = !quote
-		}
-		if !quote && lastRune == '|' && lastLastRune != '\\' {
-			bar4symbol = !bar4symbol
-		}
-
-		buffer.WriteRune(lastRune)
-
-		if !quote && lastLastRune == '#' && lastRune == '\'' {
+			buffer.WriteRune(c)
+		case c == '(' && rxSharpAndNumber.MatchString(buffer.String()),
+			c == '\'' && buffer.String() == "#":
+			buffer.WriteRune(c)
+			return buffer.String(), nil
+		case c == '\\' && buffer.String() == "#":
+			// The next rune is the character, whatever it is.
+			buffer.WriteRune(c)
+			c, _, err = r.ReadRune()
+			if err != nil {
+				return "", unexpectedEOF(err)
+			}
+			buffer.WriteRune(c)
+		case c == '"' && buffer.Len() > 0, c == ')', c == '(', c == ';', unicode.IsSpace(c):
+			if err := r.UnreadRune(); err != nil {
+				panic(err.Error())
+			}
+			return buffer.String(), nil
+		case c == '"':
+			buffer.WriteRune(c)
+			err := readUntilQuote(r, c, &buffer)
 			return buffer.String(), err
+		case c == '|':
+			buffer.WriteRune(c)
+			if err := readUntilQuote(r, c, &buffer); err != nil {
+				return "", err
+			}
+		default:
+			buffer.WriteRune(c)
 		}
-		lastLastRune = lastRune
 	}
 }
 
@@ -144,8 +155,8 @@ func readToken(r io.RuneScanner) (string, error) {
 		}
 		var token string
 		token, err = readtokenWord(r)
-		if token != "" {
-			return token, nil
+		if err != nil || token != "" {
+			return token, err
 		}
 	}
 }
-- 
2.43.0


From 66ec465d60dd601556081895b20292d77bdffb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 062/106] fix: ragged arrays were accepted, and #0a( and arrays
 of huge rank crashed the reader

---
 pkg/parser/main.go     | 119 +++++++++++++++++++++--------------------
 pkg/parser/tokenize.go |   8 ++-
 2 files changed, 67 insertions(+), 60 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54f21a3..0982da4 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -18,7 +18,7 @@ var (
 	rxHexInteger = regexp.MustCompile(`^\#[Xx][-+]?[0-9A-Fa-f]+$`)
 	rxOctInteger = regexp.MustCompile(`^\#[Oo][-+]?[0-7]+$`)
 	rxBinInteger = regexp.MustCompile(`^\#[Bb][-+]?[01]+$`)
-	rxArray      = regexp.MustCompile(`^#(\d*)[aA]\(`)
+	rxArray      = regexp.MustCompile(`^#(\d+)[aA]\($`)
 )
 
 var (
@@ -27,6 +27,7 @@ var (
 	ErrCanNotParseNumber = errors.New("can not parse number")
 	ErrTooShortTokens    = errors.New("too short tokens")
 
+	ErrTooManyDimensions    = errors.New("too many dimensions")
 	ErrInvalidDot           = errors.New("invalid dot in a list")
 	ErrUnexpectedCloseParen = errors.New("unexpected close parenthesis")
 )
@@ -64,68 +65,61 @@ func (p *_Parser[N]) nodes2cons(nodes []N, dot bool) N {
 	return cons
 }
 
-func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
-	nodes := []N{}
-	dim := make([]int, lenDim)
-	countDim := 0
-	fix := make([]bool, lenDim)
-	for {
-		if countDim == lenDim-1 {
-			token, err := readToken(rs)
-			if err != nil {
-				return p.Null(), unexpectedEOF(err)
+const maxArrayRank = 64
+
+func (p *_Parser[N]) readArray(rank int, rs io.RuneScanner) (N, error) {
+	if rank > maxArrayRank {
+		return p.Null(), ErrTooManyDimensions
+	}
+	dim := make([]int, rank)
+	for i := range dim {
+		dim[i] = -1
+	}
+	nodes, err := p.readArrayElements(dim, []N{}, rs)
+	if err != nil {
+		return p.Null(), unexpectedEOF(err)
+	}
+	for i := range dim {
+		if dim[i] < 0 {
+			dim[i] = 0
+		}
+	}
+	return p.Array(nodes, dim), nil
+}
+
+// readArrayElements reads until the close parenthesis and appends the elements
+// to nodes. The dimensions that are still unknown are negative.
+func (p *_Parser[N]) readArrayElements(dim []int, nodes []N, rs io.RuneScanner) ([]N, error) {
+	for n := 0; ; n++ {
+		token, err := readToken(rs)
+		if err != nil {
+			return nil, err
+		}
+		if token == ")" {
+			if dim[0] < 0 {
+				dim[0] = n
 			}
-			if token == ")" {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				newNode, err := p.tokenToNode(token, rs)
-				if err != nil {
-					return p.Null(), err
-				}
-				nodes = append(nodes, newNode)
-				if !fix[countDim] {
-					dim[countDim]++
-				}
+			if n < dim[0] {
+				return nil, ErrTooFewArguments
 			}
-		} else {
-			token, err := readToken(rs)
-			if err != nil {
-				return p.Null(), unexpectedEOF(err)
+			if n > dim[0] {
+				return nil, ErrTooManyArguments
 			}
-			if token == "(" {
-				if !fix[countDim] {
-					dim[countDim]++
-				}
-				countDim++
-			} else if token == ")" {
-				fix[countDim] = true
-				countDim--
-				if countDim < 0 {
-					break
-				}
-			} else {
-				return p.Null(), fmt.Errorf("array syntax error: %#v", token)
+			return nodes, nil
+		}
+		if len(dim) > 1 {
+			if token != "(" {
+				return nil, fmt.Errorf("array syntax error: %#v", token)
 			}
+			nodes, err = p.readArrayElements(dim[1:], nodes, rs)
+		} else {
+			var node N
+			node, err = p.tokenToNode(token, rs)
+			nodes = append(nodes, node)
+		}
+		if err != nil {
+			return nil, err
 		}
-	}
-	size := 1
-	for _, v := range dim {
-		size *= v
-	}
-	if len(nodes) < size {
-		return p.Null(), ErrTooFewArguments
-	} else if len(nodes) > size {
-		return p.Null(), ErrTooManyArguments
-	} else {
-		return p.Array(nodes, dim), nil
-		//&Array{
-		//	list: nodes,
-		//	dim:  dim,
-		//}, nil
 	}
 }
 
@@ -308,10 +302,17 @@ func (p *_Parser[N]) tokenToNode(token string, rs io.RuneScanner) (N, error) {
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
 		if err != nil {
-			panic(err.Error())
+			return p.Null(), ErrTooManyDimensions
 		}
 		return p.readArray(dim, rs)
 	}
+	if rxNoDimension.MatchString(token) {
+		node, err := p.ReadNode(rs)
+		if err != nil {
+			return p.Null(), unexpectedEOF(err)
+		}
+		return p.Array([]N{node}, []int{}), nil
+	}
 	if token == "(" {
 		nodes, dot, err := p.readUntilCloseParen(rs)
 		if err != nil {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 3710631..00e80fc 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -54,7 +54,10 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	}
 }
 
-var rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
+var (
+	rxSharpAndNumber = regexp.MustCompile(`^#(\d+[aA])?$`)
+	rxNoDimension    = regexp.MustCompile(`^#0+[aA]$`)
+)
 
 // readUntilQuote reads the rest of a string or of a symbol between bars,
 // leaving the escape sequences as they are.
@@ -127,6 +130,9 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 			}
 		default:
 			buffer.WriteRune(c)
+			if (c == 'a' || c == 'A') && rxNoDimension.MatchString(buffer.String()) {
+				return buffer.String(), nil
+			}
 		}
 	}
 }
-- 
2.43.0


From fef8472cbf49801afdb0e1c7ba4999c6cb649b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 063/106] fix: ~s printed strings with escape sequences that
 the reader does not know

---
 string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 1816b15..79619e6 100644
--- a/string.go
+++ b/string.go
@@ -2,7 +2,6 @@ package gmnlisp
 
 import (
 	"context"
-	"strconv"
 	"strings"
 	"unicode/utf8"
 )
@@ -19,8 +18,11 @@ func (s String) String() string {
 	return string(s)
 }
 
+// stringEscaper writes the escape sequences that the reader knows.
+var stringEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (s String) GoString() string {
-	return strconv.Quote(string(s))
+	return `"` + stringEscaper.Replace(string(s)) + `"`
 }
 
 func (s String) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From cc599f6fba75408089dd9525331eb43bb286bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 064/106] fix: ~s printed symbols with special characters
 without bars

---
 atom.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/atom.go b/atom.go
index 88b17eb..70eb315 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"strings"
 	"unicode"
 )
 
@@ -128,6 +129,25 @@ func (s _Symbol) Equals(n Node, m EqlMode) bool {
 	return ok && s == ns
 }
 
+var symbolEscaper = strings.NewReplacer(`\`, `\\`, `|`, `\|`)
+
+// GoString returns the text that the reader reads as the symbol.
+func (s _Symbol) GoString() string {
+	name := s.String()
+	needBars := name == "" || name == "." ||
+		strings.EqualFold(name, "t") || strings.EqualFold(name, "nil") ||
+		strings.ContainsAny(name[:1], ":&#") ||
+		strings.ContainsAny(name, "()\"',;`|\\") ||
+		strings.ContainsFunc(name, unicode.IsSpace)
+	if !needBars {
+		_, needBars, _ = tryParseAsNumber(name)
+	}
+	if !needBars {
+		return name
+	}
+	return "|" + symbolEscaper.Replace(name) + "|"
+}
+
 func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
-- 
2.43.0


From a61896310ebc8f31e5e5616fd99e6766fc709b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 065/106] fix: lists with a dotted tail were printed with a
 parenthesis for each element

---
 cons.go  | 58 ++++++++++++++------------------------------------------
 parse.go |  1 -
 2 files changed, 14 insertions(+), 45 deletions(-)

diff --git a/cons.go b/cons.go
index 8930ea8..184b849 100644
--- a/cons.go
+++ b/cons.go
@@ -44,16 +44,6 @@ func (cons *Cons) getCdr() Node {
 	return cons.Cdr
 }
 
-func (cons *Cons) isTailNull() bool {
-	if IsNone(cons.Cdr) {
-		return true
-	} else if next, ok := cons.Cdr.(*Cons); ok {
-		return next.isTailNull()
-	} else {
-		return false
-	}
-}
-
 type writeCounter struct {
 	n   int
 	err error
@@ -85,46 +75,26 @@ func tryPrintTo(w io.Writer, node Node, m PrintMode) (int, error) {
 
 func (cons *Cons) writeToWithoutKakko(w io.Writer, m PrintMode) (int, error) {
 	var wc writeCounter
-	var lastCar Node = cons.Car
-	if IsNone(cons.Car) {
-		if wc.Try(io.WriteString(w, "nil")) {
+	for {
+		if wc.Try(tryPrintTo(w, cons.getCar(), m)) {
 			return wc.Result()
 		}
-	} else {
-		if wc.Try(tryPrintTo(w, cons.Car, m)) {
+		if IsNone(cons.Cdr) {
 			return wc.Result()
 		}
-	}
-
-	if IsSome(cons.Cdr) {
-		if cons.isTailNull() {
-			// output as ( X Y Z ...)
-
-			for p, ok := cons.Cdr.(*Cons); ok && IsSome(p); p, ok = p.Cdr.(*Cons) {
-				if lastCar != commaSymbol {
-					if wc.Try(io.WriteString(w, " ")) {
-						return wc.Result()
-					}
-				}
-				if IsNull(p.Car) {
-					if wc.Try(io.WriteString(w, "nil")) {
-						return wc.Result()
-					}
-				} else if wc.Try(tryPrintTo(w, p.Car, m)) {
-					return wc.Result()
-				}
-				lastCar = p.Car
-			}
-		} else {
-			// output as ( X . Y )
-			if wc.Try(io.WriteString(w, " . ")) {
-				return wc.Result()
-			}
-			if wc.Try(tryPrintTo(w, cons.getCdr(), m)) {
-				return wc.Result()
-			}
+		next, ok := cons.Cdr.(*Cons)
+		if !ok {
+			break
 		}
+		if wc.Try(io.WriteString(w, " ")) {
+			return wc.Result()
+		}
+		cons = next
+	}
+	if wc.Try(io.WriteString(w, " . ")) {
+		return wc.Result()
 	}
+	wc.Try(tryPrintTo(w, cons.Cdr, m))
 	return wc.Result()
 }
 
diff --git a/parse.go b/parse.go
index d66b855..7fbe6d6 100644
--- a/parse.go
+++ b/parse.go
@@ -9,7 +9,6 @@ import (
 
 var (
 	ampRest         = NewKeyword("&rest")
-	commaSymbol     = NewSymbol(",")
 	symUnquote      = NewSymbol("unquote")
 	symSplicing     = NewSymbol("unquote-splicing")
 	nulSymbol       = NewSymbol("")
-- 
2.43.0


From 7651b00322a0efb5ebbaa7c40ad8e25e5c37ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 066/106] fix: arrays without elements or dimensions were
 printed so that they could not be read

---
 array.go | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/array.go b/array.go
index 1b0d305..372bcc6 100644
--- a/array.go
+++ b/array.go
@@ -46,27 +46,31 @@ func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]
 	dem := byte('(')
 	n := 0
 	if len(dim) < 1 {
-		w.Write([]byte{dem})
-	} else {
-		for i := 0; i < dim[0]; i++ {
-			_n, err := w.Write([]byte{dem})
-			n += _n
-			if err != nil {
-				return nil, n, err
-			}
-			dem = ' '
+		n, err := tryPrintTo(w, list[0], mode)
+		return list[1:], n, err
+	}
+	if dim[0] < 1 {
+		n, err := io.WriteString(w, "()")
+		return list, n, err
+	}
+	for i := 0; i < dim[0]; i++ {
+		_n, err := w.Write([]byte{dem})
+		n += _n
+		if err != nil {
+			return nil, n, err
+		}
+		dem = ' '
 
-			if len(dim) >= 2 {
-				list, _n, err = A.printTo(w, mode, list, dim[1:])
-				n += _n
-			} else {
-				_n, err = tryPrintTo(w, list[0], mode)
-				n += _n
-				list = list[1:]
-			}
-			if err != nil {
-				return nil, n, err
-			}
+		if len(dim) >= 2 {
+			list, _n, err = A.printTo(w, mode, list, dim[1:])
+			n += _n
+		} else {
+			_n, err = tryPrintTo(w, list[0], mode)
+			n += _n
+			list = list[1:]
+		}
+		if err != nil {
+			return nil, n, err
 		}
 	}
 	_n, err := w.Write([]byte{')'})
-- 
2.43.0


From 5157f81a1c484b6918324495cde63d1f81e1a65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 067/106] fix: floats were printed with six digits after the
 point even if they have more

---
 convert.go | 2 +-
 number.go  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index de9224d..3a6447c 100644
--- a/convert.go
+++ b/convert.go
@@ -78,7 +78,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
-			return String(fmt.Sprintf("%f", float64(val))), nil
+			return String(val.String()), nil
 		}
 	case Integer:
 		switch class {
diff --git a/number.go b/number.go
index 4a3b817..8cfe730 100644
--- a/number.go
+++ b/number.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math"
 	"math/big"
+	"strconv"
 )
 
 var numberClass = &_BuiltInClass{
@@ -210,7 +211,12 @@ func (Float) ClassOf() Class {
 }
 
 func (f Float) String() string {
-	return fmt.Sprintf("%f", float64(f))
+	s := fmt.Sprintf("%f", float64(f))
+	if v, err := strconv.ParseFloat(s, 64); err == nil && v != float64(f) {
+		// Six digits after the point are too few to read the same value.
+		return strconv.FormatFloat(float64(f), 'g', -1, 64)
+	}
+	return s
 }
 
 func (f Float) Equals(n Node, m EqlMode) bool {
-- 
2.43.0


From 546519dce857a1b8e0b282eb8ec22ea03ded30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 068/106] fix: hash tables were printed in random order, and
 without a brace if empty

---
 hash.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hash.go b/hash.go
index 0f5e867..3e19a39 100644
--- a/hash.go
+++ b/hash.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -15,14 +16,16 @@ func (h _Hash) Equals(other Node, mode EqlMode) bool {
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	var wc writeCounter
-	dem := '{'
+	elements := make([]string, 0, len(h))
 	for key, val := range h {
-		if wc.Try(fmt.Fprintf(w, "%c%#v:%#v", dem, key, val)) {
-			return wc.Result()
-		}
-		dem = ','
+		var buffer strings.Builder
+		tryPrintTo(&buffer, key, PRINT)
+		buffer.WriteByte(':')
+		tryPrintTo(&buffer, val, PRINT)
+		elements = append(elements, buffer.String())
 	}
-	wc.Try(w.Write([]byte{'}'}))
+	sort.Strings(elements)
+	wc.Try(fmt.Fprintf(w, "{%s}", strings.Join(elements, ",")))
 	return wc.Result()
 }
 
-- 
2.43.0


From d8b4bd57030c17b6239d282b5e56507dce287866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 069/106] fix: the slots of an instance were printed in random
 order

---
 class.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/class.go b/class.go
index 5616aaf..f5730d5 100644
--- a/class.go
+++ b/class.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -415,7 +416,15 @@ func (c *_StandardObject) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 		return n, err
 	}
 	delim := []byte{'{'}
-	for key, val := range c.Slot {
+	keys := make([]Symbol, 0, len(c.Slot))
+	for key := range c.Slot {
+		keys = append(keys, key)
+	}
+	sort.Slice(keys, func(i, j int) bool {
+		return keys[i].String() < keys[j].String()
+	})
+	for _, key := range keys {
+		val := c.Slot[key]
 		n1, err := w.Write(delim)
 		n += n1
 		if err != nil {
@@ -438,7 +447,12 @@ func (c *_StandardObject) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 		}
 		delim = []byte{','}
 	}
-	n1, err := io.WriteString(w, "}")
+	if len(keys) < 1 {
+		delim = append(delim, '}')
+	} else {
+		delim[0] = '}'
+	}
+	n1, err := w.Write(delim)
 	n += n1
 	return n, err
 }
-- 
2.43.0


From 5ad3b7d9b207348a779dd3bd6d4db7bbb25f1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 070/106] fix: convert gave a broken empty list, dropped dotted
 tails and refused nil, vectors and symbols

---
 convert.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/convert.go b/convert.go
index 3a6447c..b928107 100644
--- a/convert.go
+++ b/convert.go
@@ -97,13 +97,13 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			return val, nil
 		case classVector:
 			var buffer VectorBuilder
-			for IsSome(val) {
-				buffer.Add(ctx, w, val.Car)
-				var ok bool
-				val, ok = val.Cdr.(*Cons)
-				if !ok {
-					break
+			for n := Node(val); IsSome(n); {
+				cons, err := ExpectClass[*Cons](ctx, w, n)
+				if err != nil {
+					return nil, err
 				}
+				buffer.Add(ctx, w, cons.getCar())
+				n = cons.Cdr
 			}
 			return buffer.Sequence(), nil
 		}
@@ -113,7 +113,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		}
 		switch class {
 		case classList:
-			var cons Node = nil
+			var cons Node = Null
 			for i := len(val.list) - 1; i >= 0; i-- {
 				cons = &Cons{
 					Car: val.list[i],
@@ -121,9 +121,20 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 				}
 			}
 			return cons, nil
+		case classVector:
+			return val, nil
+		}
+	case _NullType:
+		switch class {
+		case classList:
+			return Null, nil
+		case classVector:
+			return NewVector(ctx, w), nil
 		}
 	case Symbol:
 		switch class {
+		case symbolClass.name:
+			return val, nil
 		case stringClass.name:
 			return String(val.String()), nil
 		}
-- 
2.43.0


From d489dfcf38f014fa90862bf9b23fe4d882b93a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 071/106] fix: convert of a string to a float accepted inf, nan
 and Go's hexadecimal floats

---
 convert.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/convert.go b/convert.go
index b928107..282b827 100644
--- a/convert.go
+++ b/convert.go
@@ -46,14 +46,17 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 			}
 			return Integer(int(i)), nil
 		case floatClass.name:
-			f, err := strconv.ParseFloat(val.String(), 64)
-			if err != nil {
+			f, ok, err := tryParseAsNumber(val.String())
+			if integer, isInt := f.(Integer); isInt {
+				f = Float(integer)
+			}
+			if _, isFloat := f.(Float); !ok || err != nil || !isFloat {
 				return callHandler[*ParseError](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
 				})
 			}
-			return Float(f), nil
+			return f, nil
 		case symbolClass.name:
 			return NewSymbol(val.String()), nil
 		case stringClass.name:
-- 
2.43.0


From c3dbc6463b45ca79aff9d933915c039918ac650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 072/106] fix: convert made characters of integers that are no
 code points

---
 convert.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/convert.go b/convert.go
index 282b827..5c5777a 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"strconv"
+	"unicode"
 )
 
 var (
@@ -86,6 +87,12 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Integer:
 		switch class {
 		case characterClass.name:
+			if val < 0 || val > unicode.MaxRune {
+				return callHandler[Rune](ctx, w, true, &DomainError{
+					Object:        val,
+					ExpectedClass: characterClass,
+				})
+			}
 			return Rune(val), nil
 		case integerClass.name:
 			return val, nil
-- 
2.43.0


From 05c40817d6a6dbe7b4f02da05764a23623d84cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 073/106] fix: ~& of format wrote a newline at the start of a
 line of string, file and standard streams

---
 format.go   |  5 ++++-
 io.go       | 19 ++++++++++++++++++-
 sequence.go |  5 +++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index e12df35..95245bf 100644
--- a/format.go
+++ b/format.go
@@ -295,6 +295,9 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		rw, ok := output.(*_WriterNode)
 		if !ok {
 			rw = &_WriterNode{_Writer: output}
+			if c, ok := output.(CanKnowLastOutput); ok {
+				rw.lastOutputIsNotLf = !c.IsLastOutputLf()
+			}
 		}
 		err := f(rw, argv[1:])
 		return Null, err
@@ -307,7 +310,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 	if True.Equals(argv[0], STRICT) {
 		W, ok := w.stdout._Writer.(*_WriterNode)
 		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
+			W = w.stdout
 		}
 		return Null, f(W, argv[1:])
 	}
diff --git a/io.go b/io.go
index d606f27..d3a4dca 100644
--- a/io.go
+++ b/io.go
@@ -222,7 +222,24 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 
 type _OutputFileStream struct {
 	*bufio.Writer
-	closer io.Closer
+	closer            io.Closer
+	lastOutputIsNotLf bool
+}
+
+func (o *_OutputFileStream) IsLastOutputLf() bool {
+	return !o.lastOutputIsNotLf
+}
+
+func (o *_OutputFileStream) Write(p []byte) (int, error) {
+	n, err := o.Writer.Write(p)
+	if n >= 1 {
+		o.lastOutputIsNotLf = (p[n-1] != '\n')
+	}
+	return n, err
+}
+
+func (o *_OutputFileStream) WriteString(s string) (int, error) {
+	return o.Write([]byte(s))
 }
 
 func (o *_OutputFileStream) Close() error {
diff --git a/sequence.go b/sequence.go
index 765e7fa..fb045eb 100644
--- a/sequence.go
+++ b/sequence.go
@@ -64,6 +64,11 @@ type StringBuilder struct {
 	strings.Builder
 }
 
+func (S *StringBuilder) IsLastOutputLf() bool {
+	s := S.String()
+	return s == "" || strings.HasSuffix(s, "\n")
+}
+
 func (S *StringBuilder) Add(ctx context.Context, w *World, n Node) error {
 	r, err := ExpectClass[Rune](ctx, w, n)
 	if err != nil {
-- 
2.43.0


From 432f8b402981a3c6fb92e4d08dc69b6ab76dea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 074/106] fix: errors of writing and closing output streams
 were ignored

---
 format.go | 52 +++++++++++++++++++++++++++++++++++++++++-----------
 io.go     | 23 +++++++++++++++++++----
 2 files changed, 60 insertions(+), 15 deletions(-)

diff --git a/format.go b/format.go
index 95245bf..4a00a35 100644
--- a/format.go
+++ b/format.go
@@ -51,7 +51,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 }
 
 func funFormatObject(_ context.Context, w *World, list []Node) (Node, error) {
-	return tAndNilToWriter(w, list, func(writer *_WriterNode, list []Node) error {
+	return tAndNilToWriter(w, list, func(writer *formatWriter, list []Node) error {
 		var err error
 		if IsNone(list[1]) { // ~a (AS-IS)
 			_, err = tryPrintTo(writer, list[0], PRINC)
@@ -63,7 +63,7 @@ func funFormatObject(_ context.Context, w *World, list []Node) (Node, error) {
 }
 
 func funFormatChar(ctx context.Context, w *World, list []Node) (Node, error) {
-	return tAndNilToWriter(w, list, func(writer *_WriterNode, list []Node) error {
+	return tAndNilToWriter(w, list, func(writer *formatWriter, list []Node) error {
 		r, err := ExpectClass[Rune](ctx, w, list[0])
 		if err != nil {
 			return err
@@ -74,7 +74,7 @@ func funFormatChar(ctx context.Context, w *World, list []Node) (Node, error) {
 }
 
 func funFormatInteger(ctx context.Context, w *World, _args []Node) (Node, error) {
-	return tAndNilToWriter(w, _args, func(writer *_WriterNode, args []Node) error {
+	return tAndNilToWriter(w, _args, func(writer *formatWriter, args []Node) error {
 		radix, err := ExpectClass[Integer](ctx, w, args[1])
 		if err != nil {
 			return err
@@ -112,7 +112,7 @@ func printFloat(w runeWriter, value Node, mark byte, args ...int) error {
 }
 
 func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
-	return tAndNilToWriter(w, args, func(_writer *_WriterNode, args []Node) error {
+	return tAndNilToWriter(w, args, func(_writer *formatWriter, args []Node) error {
 		return printFloat(_writer, args[0], 'f')
 	})
 }
@@ -126,7 +126,7 @@ func printSpaces(n int, w io.Writer) {
 
 var NewLineOnFormat = []byte{'\n'}
 
-func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) error {
+func formatSub(ctx context.Context, world *World, w *formatWriter, argv []Node) error {
 	format, err := ExpectClass[String](ctx, world, argv[0])
 	if err != nil {
 		return err
@@ -290,7 +290,38 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 	return nil
 }
 
-func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error) (Node, error) {
+// formatWriter remembers the first error of its writer and writes no more.
+type formatWriter struct {
+	w   *_WriterNode
+	err error
+}
+
+func (f *formatWriter) IsLastOutputLf() bool {
+	return f.w.IsLastOutputLf()
+}
+
+func (f *formatWriter) Write(p []byte) (int, error) {
+	if f.err != nil {
+		return 0, f.err
+	}
+	var n int
+	n, f.err = f.w.Write(p)
+	return n, f.err
+}
+
+func (f *formatWriter) WriteRune(r rune) (int, error) {
+	return f.Write([]byte(string(r)))
+}
+
+func formatTo(w *_WriterNode, argv []Node, f func(*formatWriter, []Node) error) error {
+	writer := &formatWriter{w: w}
+	if err := f(writer, argv); err != nil {
+		return err
+	}
+	return writer.err
+}
+
+func tAndNilToWriter(w *World, argv []Node, f func(*formatWriter, []Node) error) (Node, error) {
 	if output, ok := argv[0].(io.Writer); ok {
 		rw, ok := output.(*_WriterNode)
 		if !ok {
@@ -299,12 +330,11 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 				rw.lastOutputIsNotLf = !c.IsLastOutputLf()
 			}
 		}
-		err := f(rw, argv[1:])
-		return Null, err
+		return Null, formatTo(rw, argv[1:], f)
 	}
 	if IsNone(argv[0]) {
 		var buffer strings.Builder
-		err := f(&_WriterNode{_Writer: &buffer}, argv[1:])
+		err := formatTo(&_WriterNode{_Writer: &buffer}, argv[1:], f)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
@@ -312,13 +342,13 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		if !ok {
 			W = w.stdout
 		}
-		return Null, f(W, argv[1:])
+		return Null, formatTo(W, argv[1:], f)
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
 
 func funFormat(ctx context.Context, world *World, argv []Node) (Node, error) {
-	return tAndNilToWriter(world, argv, func(_w *_WriterNode, _argv []Node) error {
+	return tAndNilToWriter(world, argv, func(_w *formatWriter, _argv []Node) error {
 		return formatSub(ctx, world, _w, _argv)
 	})
 }
diff --git a/io.go b/io.go
index d3a4dca..9cecef4 100644
--- a/io.go
+++ b/io.go
@@ -223,6 +223,7 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 type _OutputFileStream struct {
 	*bufio.Writer
 	closer            io.Closer
+	closed            bool
 	lastOutputIsNotLf bool
 }
 
@@ -231,6 +232,9 @@ func (o *_OutputFileStream) IsLastOutputLf() bool {
 }
 
 func (o *_OutputFileStream) Write(p []byte) (int, error) {
+	if o.closed {
+		return 0, os.ErrClosed
+	}
 	n, err := o.Writer.Write(p)
 	if n >= 1 {
 		o.lastOutputIsNotLf = (p[n-1] != '\n')
@@ -243,8 +247,15 @@ func (o *_OutputFileStream) WriteString(s string) (int, error) {
 }
 
 func (o *_OutputFileStream) Close() error {
-	o.Writer.Flush()
-	return o.closer.Close()
+	if o.closed {
+		return nil
+	}
+	o.closed = true
+	err := o.Writer.Flush()
+	if err2 := o.closer.Close(); err == nil {
+		err = err2
+	}
+	return err
 }
 
 func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFileStream, error) {
@@ -263,7 +274,7 @@ func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
 	return openOutputFile(ctx, w, arg)
 }
 
-func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, error) {
+func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (_ Node, err error) {
 	param, list, err := Shift(list)
 	if err != nil {
 		return nil, err
@@ -284,7 +295,11 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, erro
 	if err != nil {
 		return nil, err
 	}
-	defer stream.Close()
+	defer func() {
+		if closeErr := stream.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	nw := w.Let(&Pair{Key: symbol, Value: stream})
 	return Progn(ctx, nw, list)
-- 
2.43.0


From 809c7bda5986f1db6d894da593511235d164dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 075/106] fix: format took some non-ASCII directives for digits

---
 format.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format.go b/format.go
index 4a00a35..aa99436 100644
--- a/format.go
+++ b/format.go
@@ -159,7 +159,7 @@ func formatSub(ctx context.Context, world *World, w *formatWriter, argv []Node)
 		}
 		parameter := []int{}
 		for {
-			if decimal := strings.IndexByte("0123456789", byte(c)); decimal >= 0 {
+			if decimal := strings.IndexRune("0123456789", rune(c)); decimal >= 0 {
 				for {
 					if IsNone(format) {
 						return ErrInvalidFormat
@@ -168,7 +168,7 @@ func formatSub(ctx context.Context, world *World, w *formatWriter, argv []Node)
 					if !ok {
 						return ErrInvalidFormat
 					}
-					d := strings.IndexByte("0123456789", byte(c))
+					d := strings.IndexRune("0123456789", rune(c))
 					if d < 0 {
 						parameter = append(parameter, decimal)
 						break
-- 
2.43.0


From 49d72ffacfec2113a5310135e75fa12b59e513e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 076/106] fix: v and # as parameters of format directives did
 not work

---
 format.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format.go b/format.go
index aa99436..2ad0a79 100644
--- a/format.go
+++ b/format.go
@@ -196,9 +196,18 @@ func formatSub(ctx context.Context, world *World, w *formatWriter, argv []Node)
 				if err != nil {
 					return err
 				}
+				argv = argv[1:]
 				parameter = append(parameter, int(decimal))
+				if IsNone(format) {
+					return ErrInvalidFormat
+				}
+				c, format, ok = format.firstRuneAndRestString()
 			} else if c == '#' {
 				parameter = append(parameter, int(len(argv)))
+				if IsNone(format) {
+					return ErrInvalidFormat
+				}
+				c, format, ok = format.firstRuneAndRestString()
 			} else {
 				break
 			}
-- 
2.43.0


From 20b9a3657132fe334685089978a7e86f1d66012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 077/106] fix: format padded by bytes, and could not pad with
 non-ASCII characters

---
 format.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/format.go b/format.go
index 2ad0a79..2feca9e 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type runeWriter interface {
@@ -43,7 +44,9 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			if _, err := io.WriteString(w, string(rune(padding))); err != nil {
+				return err
+			}
 		}
 	}
 	io.WriteString(w, strings.ToUpper(body))
@@ -117,11 +120,19 @@ func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
 	})
 }
 
-func printSpaces(n int, w io.Writer) {
-	for n > 0 {
-		w.Write([]byte{' '})
-		n--
+// printPadded prints a value and spaces up to the width of the first parameter.
+func printPadded(w io.Writer, value Node, mode PrintMode, parameter []int) error {
+	var buffer strings.Builder
+	if _, err := tryPrintTo(&buffer, value, mode); err != nil {
+		return err
 	}
+	_, err := io.WriteString(w, buffer.String())
+	if len(parameter) >= 1 {
+		for n := utf8.RuneCountInString(buffer.String()); n < parameter[0] && err == nil; n++ {
+			_, err = w.Write([]byte{' '})
+		}
+	}
+	return err
 }
 
 var NewLineOnFormat = []byte{'\n'}
@@ -274,21 +285,9 @@ func formatSub(ctx context.Context, world *World, w *formatWriter, argv []Node)
 		case 'g', 'G':
 			err = printFloat(w, value, 'g', parameter...)
 		case 'a', 'A':
-			n, err := tryPrintTo(w, value, PRINC)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printPadded(w, value, PRINC, parameter)
 		case 's', 'S':
-			n, err := tryPrintTo(w, value, PRINT)
-			if err != nil {
-				return err
-			}
-			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
-			}
+			err = printPadded(w, value, PRINT, parameter)
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
 		}
-- 
2.43.0


From 595c34fb5aa9a8113a4b504c976664cef6f0b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 078/106] fix: get-output-stream-string accepted any object and
 did not clear the stream

---
 io.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index 9cecef4..3ae467e 100644
--- a/io.go
+++ b/io.go
@@ -165,11 +165,13 @@ func funCreateStringOutputStream(ctx context.Context, w *World) (Node, error) {
 }
 
 func funGetOutputStreamString(ctx context.Context, w *World, arg Node) (Node, error) {
-	stringer, ok := arg.(fmt.Stringer) // expect StringBuilder
-	if !ok {
-		return nil, ErrNotSupportType
+	builder, err := ExpectClass[*StringBuilder](ctx, w, arg)
+	if err != nil {
+		return nil, err
 	}
-	return String(stringer.String()), nil
+	s := String(builder.String())
+	builder.Reset()
+	return s, nil
 }
 
 type inputStream struct {
-- 
2.43.0


From 0e0e55512f1620324450a9bf19ca6a3b6a148825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 079/106] fix: setq of the variable of with-open-input-file and
 with-open-output-file panicked

---
 world.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/world.go b/world.go
index ba97162..53dbdb8 100644
--- a/world.go
+++ b/world.go
@@ -86,10 +86,10 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 }
 
 func (m *Pair) Set(key Symbol, value Node) {
-	if key == m.Key {
-		m.Value = value
+	if key != m.Key {
+		panic("Pair can be set value")
 	}
-	panic("Pair can be set value")
+	m.Value = value
 }
 
 func (m *Pair) Range(f func(Symbol, Node) bool) {
-- 
2.43.0


From 08d929b824723a5a7a2667c7087fa8195817751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 080/106] fix: with-standard-input did not accept the streams
 of files

---
 io.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/io.go b/io.go
index 3ae467e..1383dc0 100644
--- a/io.go
+++ b/io.go
@@ -345,13 +345,14 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	if err != nil {
 		return nil, err
 	}
-	stream, ok := _stream.(_ReaderNode)
+	stream, ok := _stream.(_Reader)
 	if !ok {
 		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
 	}
 	save := w.stdin
-	w.stdin = stream
-	result, err := Progn(ctx, w, node)
-	w.stdin = save
-	return result, err
+	defer func() { w.stdin = save }()
+	if w.stdin, ok = _stream.(_ReaderNode); !ok {
+		w.stdin = _ReaderNode{_Reader: stream}
+	}
+	return Progn(ctx, w, node)
 }
-- 
2.43.0


From 51f35fb4a1a897c35494024354d6a2b0674ce89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 081/106] fix: file-length panicked for an element size of 0

---
 io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/io.go b/io.go
index 1383dc0..785453c 100644
--- a/io.go
+++ b/io.go
@@ -337,6 +337,12 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 	if err != nil {
 		return Null, nil
 	}
+	if n <= 0 {
+		return callHandler[Node](ctx, w, true, &DomainError{
+			Object:        second,
+			ExpectedClass: integerClass,
+		})
+	}
 	return Integer(stat.Size() * 8 / n), nil
 }
 
-- 
2.43.0


From b530f3152cd11677bd165844638dd3981d6fdf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 082/106] fix: let* shared one frame, so closures of its forms
 saw later variables

---
 setq.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/setq.go b/setq.go
index 451d315..08268ee 100644
--- a/setq.go
+++ b/setq.go
@@ -125,12 +125,22 @@ func cmdLetXWithTailRecOpt(ctx context.Context, w *World, params Node, tailOptSy
 	if err != nil {
 		return nil, err
 	}
-	lexical := Variables{}
+	newWorld := w.Let(Variables{})
 
-	newWorld := w.Let(lexical)
+	for IsSome(list) {
+		var item Node
 
-	if err := letValuesToVars(ctx, newWorld, list, lexical); err != nil {
-		return nil, err
+		item, list, err = Shift(list)
+		if err != nil {
+			return nil, err
+		}
+		// The frame of each variable is separate from those of the others,
+		// or closures made by a form would see the variables after it.
+		lexical := Variables{}
+		if err := letValuesToVars(ctx, newWorld, &Cons{Car: item, Cdr: Null}, lexical); err != nil {
+			return nil, err
+		}
+		newWorld = newWorld.Let(lexical)
 	}
 	return prognWithTailRecOpt(ctx, newWorld, params, tailOptSym)
 }
-- 
2.43.0


From cb44aac91179ea86646a66390ec51986d9648aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 083/106] fix: the error of too many arguments was no instance
 of <program-error>

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index fa88fee..405ede1 100644
--- a/utils.go
+++ b/utils.go
@@ -25,7 +25,7 @@ var (
 
 	ErrCanNotParseNumber = parser.ErrCanNotParseNumber
 	ErrTooFewArguments   = parser.ErrTooFewArguments
-	ErrTooManyArguments  = &ProgramError{err: parser.ErrTooManyArguments}
+	ErrTooManyArguments  = ProgramError{err: parser.ErrTooManyArguments}
 	ErrTooShortTokens    = parser.ErrTooShortTokens
 )
 
-- 
2.43.0


From 8bf70b1df7163d6abf0dcb4ea21448966eea80bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 084/106] fix: the error of too few arguments was no instance
 of <program-error>

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 405ede1..f637dbf 100644
--- a/utils.go
+++ b/utils.go
@@ -24,7 +24,7 @@ var (
 	ErrQuit            = errors.New("bye")
 
 	ErrCanNotParseNumber = parser.ErrCanNotParseNumber
-	ErrTooFewArguments   = parser.ErrTooFewArguments
+	ErrTooFewArguments   = ProgramError{err: parser.ErrTooFewArguments}
 	ErrTooManyArguments  = ProgramError{err: parser.ErrTooManyArguments}
 	ErrTooShortTokens    = parser.ErrTooShortTokens
 )
-- 
2.43.0


From 34e50fc4277df08dbcee497dd6a6b78241dfe410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 085/106] fix: operands of arithmetic which are no numbers
 raised no <domain-error>

---
 operator.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/operator.go b/operator.go
index fb7ded9..a5c234e 100644
--- a/operator.go
+++ b/operator.go
@@ -15,13 +15,13 @@ func funAdd(ctx context.Context, w *World, args []Node) (Node, error) {
 		return Integer(0), nil
 	}
 	if _, ok := args[0].(canPlus); !ok {
-		return nil, MakeError(ErrNotSupportType, args[0])
+		return nil, &DomainError{Object: args[0], ExpectedClass: numberClass}
 	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canPlus); ok {
 			return _left.Add(ctx, w, right)
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return nil, &DomainError{Object: left, ExpectedClass: numberClass}
 	})
 }
 
@@ -33,7 +33,7 @@ type canMinus interface {
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
 		if _, ok := args[0].(canMinus); !ok {
-			return nil, MakeError(ErrNotSupportType, args[0])
+			return nil, &DomainError{Object: args[0], ExpectedClass: numberClass}
 		}
 		class := args[0].ClassOf()
 		zero := class.Create()
@@ -47,7 +47,7 @@ func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 		if _left, ok := left.(canMinus); ok {
 			return _left.Sub(ctx, w, right)
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return nil, &DomainError{Object: left, ExpectedClass: numberClass}
 	})
 }
 
@@ -60,13 +60,13 @@ func funMulti(ctx context.Context, w *World, args []Node) (Node, error) {
 		return Integer(1), nil
 	}
 	if _, ok := args[0].(CanMulti); !ok {
-		return nil, MakeError(ErrNotSupportType, args[0])
+		return nil, &DomainError{Object: args[0], ExpectedClass: numberClass}
 	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(CanMulti); ok {
 			return _left.Multi(ctx, w, right)
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return nil, &DomainError{Object: left, ExpectedClass: numberClass}
 	})
 }
 
@@ -79,7 +79,7 @@ func funDevide(ctx context.Context, w *World, args []Node) (Node, error) {
 		if _left, ok := left.(CanDevide); ok {
 			return _left.Divide(ctx, w, right)
 		}
-		return nil, MakeError(ErrNotSupportType, left)
+		return nil, &DomainError{Object: left, ExpectedClass: numberClass}
 	})
 }
 
@@ -110,7 +110,7 @@ func lessThan(ctx context.Context, w *World, left, right Node) (bool, error) {
 	if _left, ok := left.(canLessThan); ok {
 		return _left.LessThan(ctx, w, right)
 	}
-	return false, MakeError(ErrNotSupportType, left)
+	return false, &DomainError{Object: left, ExpectedClass: numberClass}
 }
 
 func funLessThan(ctx context.Context, w *World, args []Node) (Node, error) {
@@ -198,7 +198,7 @@ func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
 	if value, ok := arg.(Float); ok {
 		return Integer(int(f(float64(value)))), nil
 	}
-	return nil, MakeError(ErrNotSupportType, arg)
+	return nil, &DomainError{Object: arg, ExpectedClass: numberClass}
 }
 
 // funTruncate implements (truncte X). It returns the integer value of X.
@@ -230,7 +230,7 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 	} else {
 		_left, ok := first.(Integer)
 		if !ok {
-			return nil, ErrNotSupportType
+			return nil, &DomainError{Object: first, ExpectedClass: numberClass}
 		}
 		left = float64(int(_left))
 		bits = 1
@@ -240,7 +240,7 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 	} else {
 		_right, ok := second.(Integer)
 		if !ok {
-			return nil, ErrNotSupportType
+			return nil, &DomainError{Object: second, ExpectedClass: numberClass}
 		}
 		right = float64(int(_right))
 		bits |= 2
@@ -294,5 +294,8 @@ func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 			return Float(math.Mod(float64(int(left)), float64(right))), nil
 		}
 	}
-	return nil, ErrNotSupportType
+	if !numberClass.InstanceP(first) {
+		return nil, &DomainError{Object: first, ExpectedClass: numberClass}
+	}
+	return nil, &DomainError{Object: second, ExpectedClass: numberClass}
 }
-- 
2.43.0


From 1020c49e8d344e5d1a078120ae078f02bd4fceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 086/106] fix: list arguments which are no lists raised no
 <domain-error>

---
 array.go    |  8 +++-----
 list.go     | 15 ++++++---------
 sequence.go | 16 +++++++---------
 3 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/array.go b/array.go
index 372bcc6..68983c5 100644
--- a/array.go
+++ b/array.go
@@ -144,14 +144,12 @@ func funCreateArray(ctx context.Context, w *World, args []Node) (Node, error) {
 	_dim := make([]int, 0, 2)
 	size := 1
 	for IsSome(dim) {
-		var _n Node
-		var err error
-
-		_n, dim, err = Shift(dim)
+		cons, err := ExpectClass[*Cons](ctx, w, dim)
 		if err != nil {
 			return nil, err
 		}
-		n, err := ExpectClass[Integer](ctx, w, _n)
+		dim = cons.Cdr
+		n, err := ExpectClass[Integer](ctx, w, cons.getCar())
 		if err != nil {
 			return nil, err
 		}
diff --git a/list.go b/list.go
index c1597a0..893033d 100644
--- a/list.go
+++ b/list.go
@@ -67,8 +67,6 @@ func funLast(ctx context.Context, w *World, arg Node) (Node, error) {
 
 // funAppend implements (append LIST1 LIST2 ...)
 func funAppend(ctx context.Context, w *World, list []Node) (Node, error) {
-	var value Node
-	var err error
 	var buffer ListBuilder
 
 	if len(list) <= 0 {
@@ -79,11 +77,12 @@ func funAppend(ctx context.Context, w *World, list []Node) (Node, error) {
 	}
 	for _, list1 := range list[:len(list)-1] {
 		for IsSome(list1) {
-			value, list1, err = Shift(list1)
+			cons, err := ExpectClass[*Cons](ctx, w, list1)
 			if err != nil {
 				return nil, err
 			}
-			buffer.Add(ctx, w, value)
+			buffer.Add(ctx, w, cons.getCar())
+			list1 = cons.Cdr
 		}
 	}
 	head := buffer.Sequence()
@@ -118,14 +117,12 @@ func funListp(_ context.Context, _ *World, arg Node) (Node, error) {
 
 func Assoc(ctx context.Context, w *World, key Node, list Node) (Node, error) {
 	for IsSome(list) {
-		var element Node
-		var err error
-
-		element, list, err = Shift(list)
+		pair, err := ExpectClass[*Cons](ctx, w, list)
 		if err != nil {
 			return nil, err
 		}
-		cons, err := ExpectClass[*Cons](ctx, w, element)
+		list = pair.Cdr
+		cons, err := ExpectClass[*Cons](ctx, w, pair.getCar())
 		if err != nil {
 			return nil, err
 		}
diff --git a/sequence.go b/sequence.go
index fb045eb..98ea2b0 100644
--- a/sequence.go
+++ b/sequence.go
@@ -153,7 +153,7 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 			}
 			seq, ok := listSet[i].(Sequence)
 			if !ok {
-				return ErrNotSupportType
+				return &DomainError{Object: listSet[i], ExpectedClass: listClass}
 			}
 			paramSet[i], listSet[i], ok = seq.FirstAndRest()
 			if !ok {
@@ -230,7 +230,7 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 		for i := 0; i < len(listSet); i++ {
 			seq, ok := listSet[i].(Sequence)
 			if !ok {
-				return ErrNotSupportType
+				return &DomainError{Object: listSet[i], ExpectedClass: listClass}
 			}
 			_, listSet[i], ok = seq.FirstAndRest()
 			if !ok {
@@ -272,17 +272,15 @@ func funMapCon(ctx context.Context, w *World, argv []Node) (Node, error) {
 func Reverse(list Node) (Node, error) {
 	var result Node = Null
 	for IsSome(list) {
-		var car Node
-		var err error
-
-		car, list, err = Shift(list)
-		if err != nil {
-			return nil, err
+		cons, ok := list.(*Cons)
+		if !ok {
+			return nil, &DomainError{Object: list, ExpectedClass: listClass}
 		}
 		result = &Cons{
-			Car: car,
+			Car: cons.getCar(),
 			Cdr: result,
 		}
+		list = cons.Cdr
 	}
 	return result, nil
 }
-- 
2.43.0


From 79f4ee77bdfeaa861662e1ed0a8c2c0d56887a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 087/106] fix: arguments which are no classes raised no
 <domain-error>

---
 class.go   | 16 ++++++++--------
 generic.go |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/class.go b/class.go
index f5730d5..51b0b04 100644
--- a/class.go
+++ b/class.go
@@ -24,7 +24,7 @@ func newGetter(class Class, slotName Symbol) *_Method {
 		method: func(ctx context.Context, w *World, node []Node) (Node, error) {
 			rec, ok := node[0].(*_StandardObject)
 			if !ok {
-				return nil, fmt.Errorf("%v: %w", node[0], ErrExpectedClass)
+				return nil, &DomainError{Object: node[0], ExpectedClass: class}
 			}
 			if val, ok := rec.Slot[slotName]; ok {
 				return val, nil
@@ -40,7 +40,7 @@ func newSetter(class Class, slotName Symbol) *_Method {
 		method: func(ctx context.Context, w *World, node []Node) (Node, error) {
 			rec, ok := node[1].(*_StandardObject)
 			if !ok {
-				return nil, fmt.Errorf("%v: %w", node[1], ErrExpectedClass)
+				return nil, &DomainError{Object: node[1], ExpectedClass: class}
 			}
 			rec.Slot[slotName] = node[0]
 			return node[0], nil
@@ -54,7 +54,7 @@ func newBoundp(class Class, slotName Symbol) *_Method {
 		method: func(ctx context.Context, w *World, node []Node) (Node, error) {
 			rec, ok := node[0].(*_StandardObject)
 			if !ok {
-				return nil, fmt.Errorf("%v: %w", node[0], ErrExpectedClass)
+				return nil, &DomainError{Object: node[0], ExpectedClass: class}
 			}
 			if _, ok := rec.Slot[slotName]; ok {
 				return True, nil
@@ -311,7 +311,7 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 		}
 		super, ok := _super.(Class)
 		if !ok {
-			return nil, fmt.Errorf("%v: %w", _super, ErrExpectedClass)
+			return nil, &DomainError{Object: _super, ExpectedClass: classClass}
 		}
 		class.Super = append(class.Super, super)
 	}
@@ -588,7 +588,7 @@ func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	class, ok := _class.(Class)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", _class, ErrExpectedClass)
+		return nil, &DomainError{Object: _class, ExpectedClass: classClass}
 	}
 	if IsSome(node) {
 		return nil, ErrTooManyArguments
@@ -609,7 +609,7 @@ func cmdClass(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	_, ok := value.(Class)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", value, ErrExpectedClass)
+		return nil, &DomainError{Object: value, ExpectedClass: classClass}
 	}
 	return value, nil
 }
@@ -617,11 +617,11 @@ func cmdClass(ctx context.Context, w *World, node Node) (Node, error) {
 func funSubClassP(ctx context.Context, w *World, node []Node) (Node, error) {
 	class1, ok := node[0].(Class)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", node[0], ErrExpectedClass)
+		return nil, &DomainError{Object: node[0], ExpectedClass: classClass}
 	}
 	class2, ok := node[1].(Class)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", node[1], ErrExpectedClass)
+		return nil, &DomainError{Object: node[1], ExpectedClass: classClass}
 	}
 	if class1.InheritP(class2) {
 		return True, nil
diff --git a/generic.go b/generic.go
index 76176e2..98ff60b 100644
--- a/generic.go
+++ b/generic.go
@@ -254,7 +254,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			}
 			type1, ok := _type1.(Class)
 			if !ok {
-				return nil, ErrExpectedClass
+				return nil, &DomainError{Object: _type1, ExpectedClass: classClass}
 			}
 			method.restType = type1
 			break
@@ -279,7 +279,7 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		type1, ok := _type1.(Class)
 		if !ok {
-			return nil, ErrExpectedClass
+			return nil, &DomainError{Object: _type1, ExpectedClass: classClass}
 		}
 		method.types = append(method.types, type1)
 	}
-- 
2.43.0


From b4b38dcb3254730292fb87157797c598c052c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 088/106] fix: arguments of format and with-standard-input of a
 wrong class raised no <domain-error>

---
 format.go | 6 +++---
 io.go     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/format.go b/format.go
index 2feca9e..08f351e 100644
--- a/format.go
+++ b/format.go
@@ -37,7 +37,7 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 	} else if f, ok := value.(Float); ok {
 		body = strconv.FormatInt(int64(f), base)
 	} else {
-		return ErrNotSupportType
+		return &DomainError{Object: value, ExpectedClass: numberClass}
 	}
 	if len(body) < width {
 		if padding <= 0 {
@@ -103,7 +103,7 @@ func printFloat(w runeWriter, value Node, mark byte, args ...int) error {
 	} else if f, ok := value.(Float); ok {
 		body = strconv.FormatFloat(float64(f), mark, prec, 64)
 	} else {
-		return ErrNotSupportType
+		return &DomainError{Object: value, ExpectedClass: numberClass}
 	}
 	if len(body) < width {
 		for i := len(body); i < width; i++ {
@@ -352,7 +352,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*formatWriter, []Node) error)
 		}
 		return Null, formatTo(W, argv[1:], f)
 	}
-	return nil, MakeError(ErrExpectedWriter, argv[0])
+	return nil, &DomainError{Object: argv[0], ExpectedClass: writerNodeClass}
 }
 
 func funFormat(ctx context.Context, world *World, argv []Node) (Node, error) {
diff --git a/io.go b/io.go
index 785453c..29c612c 100644
--- a/io.go
+++ b/io.go
@@ -353,7 +353,7 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	}
 	stream, ok := _stream.(_Reader)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		return nil, &DomainError{Object: _stream, ExpectedClass: readerNodeClass}
 	}
 	save := w.stdin
 	defer func() { w.stdin = save }()
-- 
2.43.0


From 009c0410298ad914e776a8b77812b553376e33c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 089/106] fix: reading from no stream raised no <domain-error>

---
 io.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/io.go b/io.go
index 29c612c..c03c2c1 100644
--- a/io.go
+++ b/io.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"context"
 	"errors"
-	"fmt"
 	"io"
 	"os"
 	"strconv"
@@ -49,7 +48,7 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		var ok bool
 		this.reader, ok = argv[0].(_Reader)
 		if !ok {
-			return nil, fmt.Errorf("expected Reader %#v", argv[0])
+			return nil, &DomainError{Object: argv[0], ExpectedClass: readerNodeClass}
 		}
 		this.stream = argv[0]
 	case 0:
-- 
2.43.0


From 635ebd5452c396707ffd84f17e3c65dc6b49d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 090/106] fix: create-list required its element and ignored
 surplus arguments

---
 list.go  | 6 +++++-
 world.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/list.go b/list.go
index 893033d..ce2aaea 100644
--- a/list.go
+++ b/list.go
@@ -158,10 +158,14 @@ func funCreateList(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	var value Node = Null
+	if len(argv) >= 2 {
+		value = argv[1]
+	}
 	result := Null
 	for ; n > 0; n-- {
 		result = &Cons{
-			Car: argv[1],
+			Car: value,
 			Cdr: result,
 		}
 	}
diff --git a/world.go b/world.go
index 53dbdb8..a074578 100644
--- a/world.go
+++ b/world.go
@@ -311,7 +311,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("convert"):                        SpecialF(cmdConvert),
 	NewSymbol("create"):                         &Function{Min: 1, F: funCreate},
 	NewSymbol("create-array"):                   &Function{Min: 1, Max: 2, F: funCreateArray},
-	NewSymbol("create-list"):                    &Function{Min: 2, F: funCreateList},
+	NewSymbol("create-list"):                    &Function{Min: 1, Max: 2, F: funCreateList},
 	NewSymbol("create-string"):                  &Function{Min: 1, Max: 2, F: funCreateString},
 	NewSymbol("create-string-input-stream"):     Function1(funCreateStringInputStream),
 	NewSymbol("create-string-output-stream"):    Function0(funCreateStringOutputStream),
-- 
2.43.0


From 4c1205510841d6c431be7f518acb55d9e7ae238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 091/106] fix: a wrong number of arguments of a generic
 function was no <program-error>

---
 generic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/generic.go b/generic.go
index 98ff60b..dab60bb 100644
--- a/generic.go
+++ b/generic.go
@@ -183,6 +183,12 @@ func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error)
 	if best := c.find(values); best != nil {
 		return best.method(ctx, w, values)
 	}
+	if len(values) < c.argc {
+		return raiseProgramError(ctx, w, ErrTooFewArguments)
+	}
+	if len(values) > c.argc && !c.rest {
+		return raiseProgramError(ctx, w, ErrTooManyArguments)
+	}
 	return callHandler[FunctionRef](ctx, w, false, &_UndefinedEntity{
 		name:  c.Symbol,
 		space: symFunction,
-- 
2.43.0


From 6921fc88f438217ed303daf40bc28da638463586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 092/106] fix: parameters of methods without a class were
 errors

---
 generic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generic.go b/generic.go
index dab60bb..70e2c9f 100644
--- a/generic.go
+++ b/generic.go
@@ -243,6 +243,11 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			if IsSome(params) {
 				return nil, ErrTooManyArguments
 			}
+			if symbol, ok := t1.(Symbol); ok {
+				restName = symbol
+				method.restType = objectClass
+				break
+			}
 			_name, t1, err = Shift(t1)
 			if err != nil {
 				return nil, err
@@ -265,6 +270,11 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 			method.restType = type1
 			break
 		}
+		if symbol, ok := t1.(Symbol); ok {
+			paramNames = append(paramNames, symbol)
+			method.types = append(method.types, objectClass)
+			continue
+		}
 		var _pn1 Node
 		_pn1, t1, err = Shift(t1)
 		if err != nil {
-- 
2.43.0


From a85e9886fe78bcccd53f7244c1a1135938d8d0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 093/106] fix: an endless tail recursion could not be cancelled

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index ab4eb1c..5f8948b 100644
--- a/lambda.go
+++ b/lambda.go
@@ -281,6 +281,9 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		n = errTailRecOpt.params
 		if f, err := newWorld.GetFunc(L.name); err == nil && f != Callable(L) {
 			// The name has been given another definition in the meantime.
-- 
2.43.0


From 45d74db26a5d4f6db75060d694401629f3fbbd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 094/106] fix: cancelling the first evaluation left the library
 incomplete

---
 world.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index a074578..e04ee09 100644
--- a/world.go
+++ b/world.go
@@ -563,16 +563,31 @@ func inject(list []Node, f func(left, right Node) (Node, error)) (Node, error) {
 var startupCode string
 
 func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
+	var startup []Node
 	w.startup.Do(func() {
 		compiled, err := ReadAll(strings.NewReader(startupCode))
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
+		startup = compiled
 	})
 	var result Node = Null
 	var err error
 
+	if len(startup) > 0 {
+		// It must be complete even if ctx is cancelled meanwhile,
+		// and must not see the scope of the first evaluation.
+		root := w
+		for root.parent != nil {
+			root = root.parent
+		}
+		for _, c := range startup {
+			if _, err = root.Eval(context.Background(), c); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	for _, c := range ns {
 		result, err = w.Eval(ctx, c)
 		if err != nil {
-- 
2.43.0


From 66449ffd4f411d8ebdb281fdcc8c929ccba2e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 095/106] fix: an endless recursion of a generic function or
 eval could not be cancelled

---
 generic.go | 3 +++
 utils.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generic.go b/generic.go
index 70e2c9f..f9f3013 100644
--- a/generic.go
+++ b/generic.go
@@ -170,6 +170,9 @@ func (c *_Generic) find(values []Node) *_Method {
 }
 
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	values := []Node{}
 	for IsSome(node) {
 		var v Node
diff --git a/utils.go b/utils.go
index f637dbf..1b550a1 100644
--- a/utils.go
+++ b/utils.go
@@ -170,5 +170,8 @@ func MakeError(e error, s any) error {
 }
 
 func funEval(ctx context.Context, w *World, arg Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	return w.Eval(ctx, arg)
 }
-- 
2.43.0


From 5025b5c628272cf69ef8000058f1bb94e5107f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:53 +0000
Subject: [PATCH 096/106] fix: World.Range went on after its callback returned
 false and panicked at function scopes

---
 world.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/world.go b/world.go
index e04ee09..95a9a10 100644
--- a/world.go
+++ b/world.go
@@ -644,10 +644,15 @@ func (w *World) Assert(equation string, expect Node) string {
 
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
-	for ; w != nil; w = w.parent {
+	goOn := true
+	for ; w != nil && goOn; w = w.parent {
+		if w.vars == nil {
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
+					goOn = false
 					return false
 				}
 				marked[key] = struct{}{}
-- 
2.43.0


From af3e101b5445042de26d33786bb57ae62078b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:57 +0000
Subject: [PATCH 097/106] fix: a symbol of gensym could be named by programs

---
 atom.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/atom.go b/atom.go
index 70eb315..8833ecd 100644
--- a/atom.go
+++ b/atom.go
@@ -68,14 +68,20 @@ func (idm *idMap[T]) NameToId(name string) T {
 	if id, ok := idm.name2id[name]; ok {
 		return id
 	}
-	id := T(len(idm.name2id))
+	id := idm.NewId(name)
 	idm.name2id[name] = id
+	return id
+}
+
+// NewId makes an id that NameToId never gives to any name.
+func (idm *idMap[T]) NewId(name string) T {
+	id := T(len(idm.id2name))
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
 func (idm *idMap[T]) Count() int {
-	return len(idm.name2id)
+	return len(idm.id2name)
 }
 
 type Symbol interface {
@@ -103,7 +109,7 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.NewId(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From 3a70321c15e6620b9e162f9e61cac27a8b4062e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 098/106] fix: an empty script was an error and a first line
 starting with a comment was dropped

---
 cmd/gmnlisp/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index e74eb87..2af5872 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"flag"
@@ -179,11 +180,11 @@ func mains(args []string) error {
 		defer fd.Close()
 
 		br := bufio.NewReader(fd)
-		magicByte, err := br.Peek(1)
-		if err != nil {
+		magic, err := br.Peek(2)
+		if err != nil && err != io.EOF {
 			return fmt.Errorf("%s: %w", args[0], err)
 		}
-		if magicByte[0] == '#' || magicByte[0] == '@' {
+		if bytes.HasPrefix(magic, []byte("#!")) || bytes.HasPrefix(magic, []byte("@")) {
 			br.ReadString('\n')
 		}
 		script, err := io.ReadAll(br)
-- 
2.43.0


From 7cf4c668e797730ea321cdc2c7910e97a8591831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 099/106] fix: (command) without arguments panicked

---
 pkg/command/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From 44900605c91d071e899e4c34448b7df47231b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:07 +0000
Subject: [PATCH 100/106] fix: create ignored an initialization argument whose
 name is not a symbol

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 51b0b04..c16f497 100644
--- a/class.go
+++ b/class.go
@@ -564,7 +564,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From 2227fabe9490a08c53d42098b5d7ce2ac3999bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 101/106] fix: equal took an unbound slot of an instance for a
 slot of nil

---
 class.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/class.go b/class.go
index c16f497..71a0f60 100644
--- a/class.go
+++ b/class.go
@@ -399,7 +399,8 @@ func (r *_StandardObject) Equals(o Node, m EqlMode) bool {
 		return false
 	}
 	for key, val := range r.Slot {
-		if !val.Equals(other.Slot[key], m) {
+		otherVal, ok := other.Slot[key]
+		if !ok || !val.Equals(otherVal, m) {
 			return false
 		}
 	}
-- 
2.43.0


From f78df3b04d419047d390b767b1db7c490bc72eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 102/106] fix: initforms were evaluated under the context of
 the class definition

---
 class.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/class.go b/class.go
index 71a0f60..680e367 100644
--- a/class.go
+++ b/class.go
@@ -16,6 +16,9 @@ type _SlotSpec struct {
 	boundp     []Symbol
 	initform   func() (Node, error)
 	initarg    []Symbol
+
+	// initformIn evaluates the initform under the context of the caller
+	initformIn func(context.Context) (Node, error)
 }
 
 func newGetter(class Class, slotName Symbol) *_Method {
@@ -146,7 +149,8 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 				return nil, fmt.Errorf("%#v: %w", keyword.String(), err)
 			}
 		case kwInitForm:
-			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initformIn = func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initform = func() (Node, error) { return slotSpec.initformIn(ctx) }
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -470,12 +474,12 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
 	var err error
 	classDef.eachSlot(func(name Symbol, slot *_SlotSpec) bool {
-		if _, ok := reciever.Slot[name]; !ok && slot.initform != nil {
+		if _, ok := reciever.Slot[name]; !ok && slot.initformIn != nil {
 			var value Node
-			if value, err = slot.initform(); err != nil {
+			if value, err = slot.initformIn(ctx); err != nil {
 				return false
 			}
 			reciever.Slot[name] = value
@@ -575,7 +579,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 60d91a4d73e57ad87c3e0e87b6af5fab02106ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 103/106] fix: floor, round and convert gave a wrong integer
 for a float out of range

---
 convert.go  | 3 ++-
 operator.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/convert.go b/convert.go
index 5c5777a..a805000 100644
--- a/convert.go
+++ b/convert.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"math"
 	"strconv"
 	"unicode"
 )
@@ -78,7 +79,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 	case Float:
 		switch class {
 		case integerClass.name: // it should be error
-			return Integer(val), nil
+			return floatToInteger(val, math.Trunc)
 		case floatClass.name:
 			return val, nil
 		case stringClass.name:
diff --git a/operator.go b/operator.go
index a5c234e..567c350 100644
--- a/operator.go
+++ b/operator.go
@@ -196,7 +196,11 @@ func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
 		return value, nil
 	}
 	if value, ok := arg.(Float); ok {
-		return Integer(int(f(float64(value)))), nil
+		value = Float(f(float64(value)))
+		if !(value >= -(1<<63) && value < 1<<63) {
+			return nil, &DomainError{Object: arg, ExpectedClass: integerClass}
+		}
+		return Integer(value), nil
 	}
 	return nil, &DomainError{Object: arg, ExpectedClass: numberClass}
 }
-- 
2.43.0


From 3f37b3c4b3a1e60b65e4351b1421e8657a8f64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 104/106] fix: expand-defun left out the rest parameter

---
 lambda.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index 5f8948b..5fe136c 100644
--- a/lambda.go
+++ b/lambda.go
@@ -669,7 +669,10 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 	if !ok {
 		return nil, &_UndefinedEntity{name: symbol, space: symFunction}
 	}
-	var param Node
+	var param Node = Null
+	if f.rest != nulSymbol {
+		param = List(colonRest, f.rest)
+	}
 	for i := len(f.param) - 1; i >= 0; i-- {
 		param = &Cons{Car: f.param[i], Cdr: param}
 	}
-- 
2.43.0


From edddbb6494a66a00b6779bda223f0080050c4733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 105/106] fix: an integer outside 64 bits was no integer to
 integerp, instancep, assure, convert and floor

---
 cmds.go     | 14 +++++++++++---
 convert.go  | 14 ++++++++++++++
 number.go   | 11 ++++++++++-
 operator.go |  3 +++
 world.go    |  2 +-
 5 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/cmds.go b/cmds.go
index c9e55b7..123f5ce 100644
--- a/cmds.go
+++ b/cmds.go
@@ -159,9 +159,17 @@ func funZerop(_ context.Context, _ *World, arg Node) (Node, error) {
 }
 
 func funNumberp(_ context.Context, _ *World, arg Node) (Node, error) {
-	return xxxxP(arg,
-		func(Integer) bool { return true },
-		func(Float) bool { return true })
+	if numberClass.InstanceP(arg) {
+		return True, nil
+	}
+	return Null, nil
+}
+
+func funIntegerp(_ context.Context, _ *World, arg Node) (Node, error) {
+	if integerClass.InstanceP(arg) {
+		return True, nil
+	}
+	return Null, nil
 }
 
 func funPlusp(_ context.Context, _ *World, arg Node) (Node, error) {
diff --git a/convert.go b/convert.go
index a805000..aeec5cb 100644
--- a/convert.go
+++ b/convert.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"math"
+	"math/big"
 	"strconv"
 	"unicode"
 )
@@ -102,6 +103,19 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case stringClass.name:
 			return String(fmt.Sprintf("%d", int(val))), nil
 		}
+	case BigInt:
+		switch class {
+		case integerClass.name:
+			return val, nil
+		case floatClass.name:
+			f, _ := new(big.Float).SetInt(val.Int).Float64()
+			if math.IsInf(f, 0) {
+				return nil, &DomainError{Object: val, ExpectedClass: floatClass}
+			}
+			return Float(f), nil
+		case stringClass.name:
+			return String(val.String()), nil
+		}
 	case *Cons:
 		switch class {
 		case classList:
diff --git a/number.go b/number.go
index 8cfe730..923c1b1 100644
--- a/number.go
+++ b/number.go
@@ -17,7 +17,8 @@ var numberClass = &_BuiltInClass{
 		if _, ok := n.(Float); ok {
 			return true
 		}
-		return false
+		_, ok := n.(BigInt)
+		return ok
 	},
 	create: func() Node {
 		return nil
@@ -31,6 +32,14 @@ type Integer int64
 
 var integerClass = registerNewBuiltInClass[Integer]("<integer>", numberClass)
 
+func init() {
+	isInteger := integerClass.instanceP
+	integerClass.instanceP = func(n Node) bool {
+		_, ok := n.(BigInt)
+		return ok || isInteger(n)
+	}
+}
+
 func (i Integer) ClassOf() Class {
 	return integerClass
 }
diff --git a/operator.go b/operator.go
index 567c350..c915def 100644
--- a/operator.go
+++ b/operator.go
@@ -202,6 +202,9 @@ func floatToInteger(arg Node, f func(float64) float64) (Node, error) {
 		}
 		return Integer(value), nil
 	}
+	if value, ok := arg.(BigInt); ok {
+		return value, nil
+	}
 	return nil, &DomainError{Object: arg, ExpectedClass: numberClass}
 }
 
diff --git a/world.go b/world.go
index 95a9a10..58afdb1 100644
--- a/world.go
+++ b/world.go
@@ -363,7 +363,7 @@ var autoLoadFunc = Functions{
 	NewSymbol("if"):                             SpecialF(cmdIf),
 	NewSymbol("ignore-errors"):                  SpecialF(cmdIgnoreErrors),
 	NewSymbol("instancep"):                      SpecialF(defInstanceP),
-	NewSymbol("integerp"):                       Function1(funAnyTypep[Integer]),
+	NewSymbol("integerp"):                       Function1(funIntegerp),
 	NewSymbol("internal-time-units-per-second"): Function0(funInternalTimeUnitPerSecond),
 	NewSymbol("labels"):                         SpecialF(cmdLabels),
 	NewSymbol("lambda"):                         SpecialF(cmdLambda),
-- 
2.43.0


From 07b524d5dc0e6118e50583e0b4fbb9cde4c33369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:03 +0000
Subject: [PATCH 106/106] fix: format refused to write an integer outside 64
 bits

---
 format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format.go b/format.go
index 08f351e..8b37243 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math/big"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -36,6 +37,8 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 		body = strconv.FormatInt(int64(d), base)
 	} else if f, ok := value.(Float); ok {
 		body = strconv.FormatInt(int64(f), base)
+	} else if b, ok := value.(BigInt); ok {
+		body = b.Text(base)
 	} else {
 		return &DomainError{Object: value, ExpectedClass: numberClass}
 	}
@@ -102,6 +105,9 @@ func printFloat(w runeWriter, value Node, mark byte, args ...int) error {
 		body = strconv.FormatFloat(float64(d), mark, prec, 64)
 	} else if f, ok := value.(Float); ok {
 		body = strconv.FormatFloat(float64(f), mark, prec, 64)
+	} else if b, ok := value.(BigInt); ok {
+		f, _ := new(big.Float).SetInt(b.Int).Float64()
+		body = strconv.FormatFloat(f, mark, prec, 64)
 	} else {
 		return &DomainError{Object: value, ExpectedClass: numberClass}
 	}
-- 
2.43.0

