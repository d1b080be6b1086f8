package main

// P22: Worlds and successive evaluations do not influence each other.
// P26: an evaluation ends when its context is cancelled.

import (
	"context"
	"fmt"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// worldSetup makes the state that the probes look at.
const worldSetup = `(defdynamic d@ 1) (defun f@ () 'f) (defgeneric g@ (x)) (defmethod g@ ((x <integer>)) 'int)
(defglobal in@ (standard-input)) (defglobal s@ (create-string-input-stream "1 2 3 4 5 6 7 8 9")) (defglobal c@ 0)`

// worldProbes are evaluated one by one afterwards: what they give shows the
// handlers, catch tags, blocks, labels, dynamic variables, streams and
// functions in effect.
var worldProbes = []string{
	"(dynamic d@)", "(f@)", "x", "y", "(car 'p)", "(throw 'k 5)", "(return-from b 5)", "(return 5)", "(go l)",
	"(eq in@ (standard-input))", "(g@ 1)",
	"(catch 'q (with-handler (lambda (c) (throw 'q (list 'h (class-of c)))) (car 1)))",
	"(with-handler (lambda (c) (continue-condition c 7)) (list (signal-condition (create (class <simple-error>) 'format-string \"a\" 'format-arguments nil) t)))",
	"(ignore-errors (continue-condition c@ 1))",
	"(signal-condition (create (class <simple-error>) 'format-string \"a\" 'format-arguments nil) t)",
	"(dynamic-let ((d@ 2)) (dynamic d@))",
}

// state runs the probes.
func (c *C) probes(iw *implWorld, id string) string {
	var b []string
	for _, p := range worldProbes {
		iw.out.Reset()
		o := c.implRunID(iw, p, id, newStepCtx(100_000))
		b = append(b, p+" => "+o.describe())
	}
	return strings.Join(b, "\n")
}

// steps evaluates each source in iw and returns what each gave.
func (c *C) steps(iw *implWorld, id string, srcs ...string) string {
	var b []string
	for _, s := range srcs {
		iw.out.Reset()
		b = append(b, c.implRunID(iw, s, id, newStepCtx(100_000)).describe())
	}
	return strings.Join(b, "; ")
}

var probeWant string

// history evaluates the programs one after the other, whatever they give, and
// compares the state afterwards with that of a World that has not seen them.
func (c *C) history(srcs ...string) {
	if !c.Take() {
		return
	}
	c.Case("state afterwards", strings.Join(srcs, "\n"), func() (string, string) {
		iw := c.World()
		id := c.newID()
		if probeWant == "" {
			iw, id := newImplWorld(), c.newID()
			c.steps(iw, id, worldSetup)
			probeWant = c.probes(iw, id)
		}
		c.steps(iw, id, append([]string{worldSetup}, srcs...)...)
		return probeWant, c.probes(iw, id)
	})
}

// Every context in which an exit can happen, and every exit.
const historyRules = `
P: 0 $T
T: 1 (with-handler (lambda (c) $T) $T)
T: 1 (with-handler (lambda (c) (setq c@ c) $X) $T)
T: 1 (with-handler (lambda (c) (setq c@ c) (continue-condition c 3)) $T)
T: 1 (catch 'k $T)
T: 1 (dynamic-let ((d@ 2)) $T)
T: 1 (dynamic-let ((d@ $T)) $X)
T: 1 (block b $T)
T: 1 (tagbody $T l)
T: 1 (unwind-protect $T $T)
T: 1 (with-standard-input s@ $T)
T: 1 (ignore-errors $T)
T: 1 (flet ((f@ () 9)) $T)
T: 1 (let ((x 9)) $T)
T: 1 (let* ((x 9) (y $T)) $T)
T: 1 (funcall (lambda (x) $T) 1)
T: 1 (mapcar (lambda (x) $T) '(1 2))
T: 1 (dolist (y '(1 2)) $T)
T: 1 (while t $X)
T: 1 (list $T $X)
T: 1 (if $T $X)
T: 0 $X
X: 0 (car 1)
X: 1 (error "x")
X: 1 (undefined-f@)
X: 1 undefined-v@
X: 0 (quit)
X: 1 (abort)
X: 0 (throw 'k 1)
X: 1 (throw 'none 1)
X: 0 (return-from b 1)
X: 1 (go l)
X: 1 (return 1)
X: 1 (signal-condition (create (class <simple-error>) 'format-string "x" 'format-arguments nil) t)
X: 1 (f@ 1 2)
X: 1 (g@ 'none)
X: 1 (continue-condition c@ 1)
X: 1 (let ((x 1)
X: 1 (read)
X: 1 (setf (dynamic d@) 1)
X: 0 1
`

// worldOps are steps of a session; % is the name of its World.
var worldOps = []string{
	"(defun f@ () '%)",
	"(defun h@ () (list '%h (f@)))",
	"(defmacro m@ () ''%)",
	"(defmethod g@ ((x <integer>)) '%)",
	"(defmethod g@ ((x <string>)) '%s)",
	"(defgeneric g@ (x y))",
	"(defdynamic d@ '%)",
	"(dynamic-let ((d@ '%l)) (list (dynamic d@) (f@)))",
	"(set-property '% 's@ 'p@)",
	"(remove-property 's@ 'p@)",
	"(defmethod report-condition ((e <e%@>) (s <object>)) (format s \"%\"))",
	`(format (standard-output) "%")`,
	`(format (standard-output) "~&")`,
	"(flet ((f@ () '%f)) (list (f@) (h@)))",
	"(catch 'k (unwind-protect (car '%) (throw 'k '%)))",
	"(car '%)",
	"(with-standard-input (create-string-input-stream \"%\") (read))",
	"(setf (dynamic d@) '%)",
}

var opProbes = []string{
	"(f@)", "(h@)", "(m@)", "(g@ 1)", `(g@ "")`, "(g@ 1 1)", "(dynamic d@)", "(property 's@ 'p@)",
	"(let ((s (create-string-output-stream))) (report-condition (create (class <e%@>)) s) (get-output-stream-string s))",
	`(format (standard-output) "~&.~%")`,
}

const opSetup = "(defclass <e%@> (<error>) ())"

func probeOf(p, world string) string { return strings.ReplaceAll(p, "<e%@>", "<e"+world+"@>") }

func fill(op, world string) string { return strings.ReplaceAll(op, "%", world) }

// session is what the steps of one World give when it runs alone.
func (c *C) session(iw *implWorld, id, world string, ops []int) []string {
	var r []string
	for _, o := range ops {
		r = append(r, c.steps(iw, id, fill(worldOps[o], world)))
	}
	for _, p := range opProbes {
		r = append(r, c.steps(iw, id, probeOf(p, world)))
	}
	return r
}

type worldPair struct {
	a, b, solo *implWorld
	uses       int
	alone      map[string]string
}

func (c *C) interleaved(wp *worldPair, a, b []int, order []bool) {
	if !c.Take() {
		return
	}
	var in []string
	i, j := 0, 0
	for _, o := range order {
		if o {
			in = append(in, "A: "+fill(worldOps[a[i]], "a"))
			i++
		} else {
			in = append(in, "B: "+fill(worldOps[b[j]], "b"))
			j++
		}
	}
	c.Case("two Worlds", strings.Join(in, "\n"), func() (string, string) {
		if wp.a == nil || wp.uses > 1000 || c.world == nil {
			c.world = newImplWorld()
			wp.a, wp.b, wp.solo, wp.uses = c.world, newImplWorld(), newImplWorld(), 0
		}
		wp.uses++
		alone := func(w string, ops []int) string {
			key := fmt.Sprint(w, ops)
			if r, ok := wp.alone[key]; ok {
				return r
			}
			id := c.newID()
			c.steps(wp.solo, id, fill(opSetup, w))
			c.steps(wp.solo, id, `(format (standard-output) "~&")`)
			r := strings.Join(c.session(wp.solo, id, w, ops), "\n")
			wp.alone[key] = r
			return r
		}
		want := "A:\n" + alone("a", a) + "\nB:\n" + alone("b", b)
		id := c.newID()
		c.steps(wp.a, id, fill(opSetup, "a"))
		c.steps(wp.b, id, fill(opSetup, "b"))
		c.steps(wp.a, id, `(format (standard-output) "~&")`)
		c.steps(wp.b, id, `(format (standard-output) "~&")`)
		var ra, rb []string
		i, j := 0, 0
		for _, o := range order {
			if o {
				ra = append(ra, c.steps(wp.a, id, fill(worldOps[a[i]], "a")))
				i++
			} else {
				rb = append(rb, c.steps(wp.b, id, fill(worldOps[b[j]], "b")))
				j++
			}
		}
		for _, p := range opProbes {
			ra = append(ra, c.steps(wp.a, id, probeOf(p, "a")))
			rb = append(rb, c.steps(wp.b, id, probeOf(p, "b")))
		}
		return want, "A:\n" + strings.Join(ra, "\n") + "\nB:\n" + strings.Join(rb, "\n")
	})
}

// innerWorld evaluates programs for (other "program").
var innerWorld *implWorld
var innerC *C
var innerID string

func init() {
	gl.Export(gl.NewSymbol("other"), &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
		if innerWorld == nil {
			return gl.Null, nil
		}
		save := curTrace
		o := innerC.implRunID(innerWorld, a[0].String(), innerID, ctx)
		curTrace = save
		return gl.String(o.describe()), nil
	}})
}

// Contexts in one World around an evaluation in another one.
const nestedRules = `
P: 0 (progn (defdynamic d@ 1) (defun f@ () 'outer) (defglobal x 5) $T)
T: 1 (with-handler (lambda (c) (throw 'k 'handled)) $T)
T: 1 (catch 'k $T)
T: 1 (dynamic-let ((d@ 2)) $T)
T: 1 (block b $T)
T: 1 (block nil $T)
T: 1 (tagbody $T l)
T: 1 (with-standard-input (create-string-input-stream "9") $T)
T: 1 (flet ((f@ () 9)) $T)
T: 1 (let ((y 9)) $T)
T: 1 (list (dynamic d@) $T)
T: 1 (unwind-protect (car 1) $T)
T: 0 (other "$I")
T: 0 (list (other "$I") (other "$I"))
I: 0 (dynamic d@)
I: 0 (f@)
I: 0 y
I: 0 (car 'p)
I: 0 (throw 'k 5)
I: 0 (return-from b 5)
I: 0 (return 5)
I: 0 (go l)
I: 0 (progn (defdynamic d@ 7) (dynamic d@))
I: 0 (progn (defun f@ () 'inner) (f@))
I: 0 (dynamic-let ((d@ 3)) (error \"x\"))
I: 0 (with-handler (lambda (c) (return-from b 1)) (car 1))
I: 0 (with-standard-input (create-string-input-stream \"8\") (read))
`

// innerWant is what the program gives in a World in which nothing else runs.
func (c *C) nested(src string) {
	if !c.Take() {
		return
	}
	c.Case("World in a World", src, func() (string, string) {
		// The expected text comes from running the inner programs alone, in
		// the order of the text, and putting their descriptions in place.
		id := c.newID()
		alone := newImplWorld()
		var b strings.Builder
		rest := src
		for {
			i := strings.Index(rest, `(other "`)
			if i < 0 {
				b.WriteString(rest)
				break
			}
			b.WriteString(rest[:i])
			rest = rest[i+len(`(other "`):]
			k := 0
			for rest[k] != '"' {
				if rest[k] == '\\' {
					k++
				}
				k++
			}
			inner := strings.ReplaceAll(rest[:k], `\"`, `"`)
			b.WriteString(ishow(alone.w, gl.String(c.implRunID(alone, inner, id, newStepCtx(100_000)).describe())))
			rest = rest[k+2:]
		}
		iw := c.World()
		want := c.implRunID(iw, b.String(), id, newStepCtx(100_000)).describe()
		iw.out.Reset()
		innerC, innerWorld, innerID = c, newImplWorld(), id
		defer func() { innerWorld = nil }()
		got := c.implRunID(iw, src, id, newStepCtx(100_000)).describe()
		return want, got
	})
}

// libUses are calls of every function and macro of the library. Each is
// complete in itself and uses no variable but u1 and u2.
var libUses = []string{
	"(1+ 1)", "(1- 1)", "(caar '((1) 2))", "(cadr '(1 2 3 4 5))", "(caddr '(1 2 3 4 5))", "(cadddr '(1 2 3 4 5))", "(cddr '(1 2 3 4 5))", "(cdddr '(1 2 3 4 5))",
	"(first '(1 2 3 4 5))", "(second '(1 2 3 4 5))", "(third '(1 2 3 4 5))", "(rest '(1 2 3 4 5))", "(nth 1 '(1 2 3 4 5))", "(nthcdr 2 '(1 2 3 4 5))",
	"(max 1 3 2)", "(min 3 1 2)", "(prog1 1 2)", "(prog2 1 2 3)", "(when t 1)", "(unless nil 1)",
	"(case-using #'= 1 ((0 2) 'a) ((1 3) 'b) (t 'c))", "(case-using (lambda (u1 u2) (< u1 u2)) 1 ((0) 'a) ((3) 'b))",
	"(let ((u1 1)) (incf u1) u1)", "(let ((u1 1)) (decf u1 3) u1)",
	"(let ((u1 nil)) (dolist (u2 '(1 2)) (setq u1 (cons u2 u1))) u1)",
	"(let ((u1 nil)) (dotimes (u2 3) (setq u1 (cons u2 u1))) u1)",
	"(for ((u1 0 (+ u1 1)) (u2 5 u1)) ((= u1 3) (list u1 u2)))",
	"(let ((u1 (list 1 2 3))) (setf (car u1) 9 ) u1)", "(let ((u1 (list 1 2 3))) (setf (cdr u1) 9) u1)", "(let ((u1 (list 1 2 3))) (setf (elt u1 1) 9) u1)",
	"(let ((u1 (list 1 2 3))) (setf (cadr u1) 9) u1)", "(let ((u1 (list 1 2 3))) (setf (caddr u1) 9) u1)", "(let ((u1 (list 1 2 3 4))) (setf (cadddr u1) 9) u1)",
	"(let ((u1 (list 1 2 3))) (setf (cddr u1) 9) u1)", "(let ((u1 (list 1 2 3 4))) (setf (cdddr u1) 9) u1)",
	"(let ((u1 (list 1 2 3))) (setf (first u1) 9) u1)", "(let ((u1 (list 1 2 3))) (setf (second u1) 9) u1)", "(let ((u1 (list 1 2 3))) (setf (third u1) 9) u1)",
	"(let ((u1 (list 1 2 3))) (setf (nth 1 u1) 9) u1)", "(let ((u1 (list 1 2 3))) (setf (nthcdr 1 u1) 9) u1)",
	"(let ((u1 (vector 1 2 3))) (setf (aref u1 1) 9) u1)", "(let ((u1 (vector 1 2 3))) (setf (elt u1 1) 9) u1)",
	"(let ((u1 (list 1 2 3))) (setf (subseq u1 0 2) '(8 9)) u1)", "(let ((u1 \"abc\")) (setf (elt u1 1) #\\z) u1)", "(let ((u1 \"abc\")) (setf (subseq u1 1 2) \"xyz\") u1)",
	"(let ((u1 (make-hash-table))) (setf (gethash 1 u1) 9) (gethash 1 u1))", "(let ((u1 1)) (setf u1 2) u1)",
	"(progn (defdynamic u1 1) (setf (dynamic u1) 2) (dynamic u1))",
	"(progn (set-property 5 'u1 'u2) (property 'u1 'u2))", "(progn (set-property 6 'u2 'u2) (remove-property 'u2 'u2))",
	"(ignore-errors (error \"x\"))", "(catch 'c (with-handler (lambda (u1) (throw 'c (list (class-of u1) (simple-error-format-string u1) (simple-error-format-arguments u1)))) (error \"x ~a\" 1)))",
	"(with-handler (lambda (u1) (continue-condition u1 4)) (cerror \"go ~a\" \"x ~a\" 1))",
	"(catch 'c (with-handler (lambda (u1) (throw 'c (let ((u2 (create-string-output-stream))) (report-condition u1 u2) (get-output-stream-string u2)))) (error \"x ~a\" 1)))",
}

// libVars are the names of variables in the library's definitions and others
// which a definition may well use.
var libVars = strings.Fields("L Z a all-properties args arguments avlue b body c commands continue-string count delta e end entry error-string expr expr1 expr2 form found i init inits iteration-spec iters k key key1 keyform keyform_ l lst m n name name-value newvalue obj orig p pair place predform predform_ properties r rest result s seq setf-table setter source start step steps str sym sym-props test test-result tmp u v val value values var vars w x y z -gensym-1- +gensym+ g0001 temp")

// libFuncs are the names of functions which the library's definitions call.
var libFuncs = strings.Fields("+ - < <= = > >= append assoc aref set-aref car cdr cons consp convert create create-string create-string-output-stream elt equal format funcall apply gensym get-output-stream-string gethash length list listp mapcar not nth nthcdr 1+ 1- cadr caddr cddr set-car set-cdr set-cadr set-elt set-nth set-gethash set-assoc signal-condition simple-error-format-string simple-error-format-arguments string-append stringp subseq swap-elt swap-subseq symbolp rm-item set-item reverse")

// libNames are the library's own names which libFuncs does not have.
var libNames = strings.Fields("caar cadddr cdddr first second third rest max min prog1 prog2 when unless case-using incf decf dolist dotimes for setf set-cdr set-cddr set-cdddr set-caddr set-cadddr set-nthcdr set-subseq set-dynamic property set-property remove-property error cerror report-condition simple-error-format-string simple-error-format-arguments initialize-object if while let")

func libContexts() []string {
	let := "(let ("
	for _, v := range libVars {
		let += "(" + v + " 'bad)"
	}
	flet := "(flet ("
	for _, f := range libFuncs {
		flet += "(" + f + " (&rest bad) 'bad)"
	}
	dyn := "(progn "
	for _, v := range libVars {
		dyn += "(defdynamic " + v + " 'bad)"
	}
	return []string{
		let + ") %s)",
		flet + ") %s)",
		"(labels (" + flet[len("(flet ("):] + ") %s)",
		dyn + "%s)",
		"(with-handler (lambda (c) (throw 'bad 'bad)) %s)",
		"(catch 'c (block nil %s (throw 'c 1)))",
		"(progn (ignore-errors (dynamic-let ((u1 2)) %s (car 1))))",
		"((lambda (x y) (funcall (lambda (z) %s) 3)) 1 2)",
		"(tagbody a (let ((value nil)) %s) b)",
	}
}

func (c *C) fresh(src string) string {
	iw := newImplWorld()
	return c.steps(iw, c.newID(), src)
}

// library runs the uses in a World of their own and in other Worlds.
func (c *C) library() {
	want := make([]string, len(libUses))
	for i, u := range libUses {
		want[i] = c.fresh(u)
	}
	ctxs := libContexts()
	c.Section("a library function's first use")
	for _, ctx := range ctxs {
		for i, u := range libUses {
			for j, v := range libUses {
				if !c.Thorough() && i != j && (i+j)%7 != 0 {
					continue
				}
				if !c.Take() {
					continue
				}
				first := fmt.Sprintf(ctx, u)
				c.Case("first use", first+"\n"+v, func() (string, string) {
					iw := newImplWorld()
					id := c.newID()
					c.steps(iw, id, first)
					return want[j], c.steps(iw, id, v)
				})
			}
		}
	}
	c.Section("after other library functions")
	for i := range libUses {
		for j := range libUses {
			for k := range libUses {
				if k > 0 && !c.Thorough() {
					break
				}
				if !c.Take() {
					continue
				}
				seq := []int{i, j}
				if k > 0 {
					seq = append(seq, k)
				}
				var srcs, w []string
				for _, s := range seq {
					srcs = append(srcs, libUses[s])
					w = append(w, want[s])
				}
				c.Case("library functions in order", strings.Join(srcs, "\n"), func() (string, string) {
					return strings.Join(w, "; "), c.steps(newImplWorld(), c.newID(), srcs...)
				})
			}
		}
	}
	c.Section("redefined in another World")
	names := append(append([]string{}, libFuncs...), libNames...)
	for _, n := range names {
		for _, how := range []string{"(defun N (&rest r) 'bad)", "(defmacro N (&rest r) ''bad)", "(progn (defgeneric N (&rest r)) (defmethod N (&rest r) 'bad))", "(defgeneric N (x &rest r))"} {
			for i, u := range libUses {
				if !c.Thorough() && !strings.Contains(u, n) {
					continue
				}
				if !c.Take() {
					continue
				}
				src := strings.ReplaceAll(how, "N", n)
				c.Case("redefined in another World", src+"\n"+u, func() (string, string) {
					a, b, used := newImplWorld(), newImplWorld(), newImplWorld()
					id := c.newID()
					c.steps(used, id, u)
					c.steps(a, id, src)
					after := newImplWorld()
					return want[i] + "; " + want[i] + "; " + want[i], c.steps(b, id, u) + "; " + c.steps(used, id, u) + "; " + c.steps(after, id, u)
				})
			}
		}
	}
	c.Section("names of the user's variables")
	for i, u := range libUses {
		for _, v := range libVars {
			for _, shape := range []string{"(let ((V 'mine)) (list U V))", "(funcall (lambda (V) (list U V)) 'mine)", "(let* ((V 'mine) (u3 U)) (list u3 V))"} {
				if !c.Take() {
					continue
				}
				src := strings.ReplaceAll(strings.ReplaceAll(shape, "V", v), "U", u)
				exp := strings.Replace(want[i], "value ", "value (", 1) + " mine)"
				c.Case("names", src, func() (string, string) {
					return exp, c.steps(c.World(), c.newID(), src)
				})
			}
			// The variable itself is used in the macro's own forms.
			for _, w := range []string{"u1", "u2"} {
				if !strings.Contains(u, w) || !c.Take() {
					continue
				}
				src := strings.ReplaceAll(u, w, v)
				exp := want[i]
				c.Case("names", src, func() (string, string) {
					return exp, c.steps(c.World(), c.newID(), src)
				})
			}
		}
	}
}

func (c *C) runWorlds() {
	c.Section("state after an evaluation")
	g := NewGram(historyRules)
	g.Upto("P", c.Pick(2, 3), func(s string) bool { c.history(s); return !c.Stop() })
	var short []string
	g.Upto("P", 1, func(s string) bool { short = append(short, s); return true })
	c.Section("state after two evaluations")
	for _, a := range short {
		for _, b := range short {
			c.history(a, b)
		}
	}
	c.Section("Worlds interleaved")
	wp := &worldPair{alone: map[string]string{}}
	n := len(worldOps)
	lens := [][2]int{{1, 1}, {1, 2}, {2, 1}}
	if c.Thorough() {
		lens = append(lens, [2]int{2, 2})
	}
	for _, l := range lens {
		orders(l[0], l[1], nil, func(order []bool) {
			tuples(n, l[0], func(a []int) {
				tuples(n, l[1], func(b []int) {
					c.interleaved(wp, a, b, order)
				})
			})
		})
	}
	c.Section("a World inside another")
	NewGram(nestedRules).Upto("P", c.Pick(2, 3), func(s string) bool { c.nested(s); return !c.Stop() })
	c.library()
}

// orders enumerates the ways to merge a and b steps.
func orders(a, b int, acc []bool, f func([]bool)) {
	if a == 0 && b == 0 {
		f(acc)
		return
	}
	if a > 0 {
		orders(a-1, b, append(acc[:len(acc):len(acc)], true), f)
	}
	if b > 0 {
		orders(a, b-1, append(acc[:len(acc):len(acc)], false), f)
	}
}

func init() {
	register(&Prop{ID: "P22", Rule: "every nest of contexts and exits up to the stated size followed by probes of the interpreter's state; every interleaving of the steps of two Worlds; every nest of contexts of one World around an evaluation in another; every library function first used in every listed context, in every order, and with every listed variable name",
		Assumptions: []string{"Worlds share global variables, classes among them, and the trace list by design; programs define global variables under names of their own", "Worlds in different goroutines are not explored"},
		Run:         func(c *C) { c.runWorlds() }, Replay: func(c *C, input string) { replayRerun(c, input) }})
}
