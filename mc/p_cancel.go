package main

import (
	"fmt"
	"os"
	"strings"
)

// Programs that end, with every kind of form on the way.
const cancelRules = `
P: 0 (progn (defdynamic d@ 1) (defun f@ (n) (if (= n 0) 'end (progn (tr n) (f@ (- n 1))))) $S)
S: 0 (tr 1)
S: 0 (f@ 2)
S: 1 (f@ $S)
S: 1 (list $S $S)
S: 1 (progn $S $S)
S: 1 (if $S $S $S)
S: 1 (let ((x $S)) (tr x))
S: 1 (let* ((x $S) (y x)) $S)
S: 1 (flet ((g (y) $S)) (g 1))
S: 1 (labels ((g (y) (if (= y 0) $S (g (- y 1))))) (g 1))
S: 1 (funcall (lambda (y) $S) $S)
S: 1 (apply #'list (list $S $S))
S: 1 (mapcar (lambda (y) $S) '(1 2))
S: 1 (dolist (y '(1 2)) $S)
S: 1 (dotimes (y 2) $S)
S: 1 (for ((y 0 (+ y 1))) ((= y 2) $S) $S)
S: 1 (let ((z 2)) (while (> z 0) $S (setq z (- z 1))))
S: 1 (let ((z 2)) (tagbody l $S (setq z (- z 1)) (if (> z 0) (go l))))
S: 1 (block b $S (return-from b $S))
S: 1 (catch 'k (list $S (throw 'k $S)))
S: 1 (dynamic-let ((d@ $S)) $S)
S: 1 (unwind-protect $S (tr 'c))
S: 1 (unwind-protect (tr 'p) $S)
S: 1 (ignore-errors $S)
S: 1 (ignore-errors $S (car 1))
S: 1 (with-handler (lambda (c) (throw 'k $S)) (catch 'k $S))
S: 1 (catch 'k (with-handler (lambda (c) (tr 'h) (throw 'k $S)) $S (car 1)))
S: 1 (with-handler (lambda (c) (continue-condition c $S)) (cerror "c" "e"))
S: 1 (case $S ((1) $S) (t $S))
S: 1 (and $S $S)
S: 1 (or $S $S)
S: 1 (cond ($S $S) (t 1))
S: 1 (let ((v (vector 1 2))) (setf (aref v 0) $S) v)
S: 1 (eval '$S)
S: 1 (let ((s (create-string-output-stream))) (format s "~a" $S) (get-output-stream-string s))
S: 1 (with-standard-input (create-string-input-stream "5") (list $S (read)))
S: 1 (prog1 $S $S)
S: 1 (progn (defclass c@ () ((s :initform $S :accessor s@))) (s@ (create (class c@))))
S: 1 (when $S $S)
S: 1 (and (not (null $S)) (consp (cons $S 1)))
S: 1 (maplist (lambda (y) $S) '(1 2))
S: 1 (mapcan (lambda (y) (list $S)) '(1 2))
S: 1 (list (load "ends.lsp") $S)
S: 1 (progn (defmacro m@ (x) $S) (m@ 1))
S: 1 (with-open-input-file (i "ends.lsp") $S (read i))
S: 1 (progn (defclass c@ () ((s :initarg s :accessor s@))) (defmethod initialize-object ((x c@) :rest r) $S) (create (class c@) 's $S))
`

// Programs that never end: a loop in every context.
const foreverRules = `
P: 0 (progn (defdynamic d@ 1) (defgeneric gen@ (x)) $T)
T: 0 $L
T: 1 (with-handler (lambda (c) (throw 'k 1)) $T)
T: 1 (catch 'k $T)
T: 1 (block b $T)
T: 1 (block nil $T)
T: 1 (ignore-errors $T)
T: 1 (unwind-protect $T (setq gone@ 1))
T: 1 (unwind-protect (car 1) $T)
T: 1 (dynamic-let ((d@ 2)) $T)
T: 1 (flet ((q (x) $T)) (q 1))
T: 1 (list 1 $T)
T: 1 (let ((x 1)) $T)
T: 1 (tagbody a $T (go a))
T: 1 (mapcar (lambda (x) $T) '(1 2))
T: 1 (catch 'k (with-handler (lambda (c) $T) (car 1)))
T: 1 (while t (ignore-errors $T))
T: 1 (with-standard-input (create-string-input-stream "5") $T)
L: 0 (while t)
L: 0 (while t 1)
L: 0 (tagbody l (go l))
L: 0 (tagbody l 1 (if t (go l)))
L: 0 (progn (defun f@ (x) (f@ x)) (f@ 1))
L: 0 (progn (defun f@ () (if t (f@) 1)) (f@))
L: 0 (labels ((g () (g))) (g))
L: 0 (labels ((g () (progn (let ((x 1)) (g))))) (g))
L: 0 (let ((g nil)) (setq g (lambda () 1)) (while (funcall g)))
L: 0 (let ((x 0)) (while (null (consp x)) (setq x (+ x 1))))
L: 0 (for ((x 0)) (nil))
L: 0 (for ((x 0 (car '(1)))) ((null x)) (cdr '(1)))
L: 0 (dotimes (x 1000000000000) 1)
L: 0 (let ((y (list 1))) (set-cdr y y) (dolist (x y) 1))
L: 0 (while t (catch 'j (throw 'j 1)))
L: 0 (while t (block c (return-from c 1)))
L: 0 (while t (with-handler (lambda (c) (continue-condition c 1)) (cerror "a" "b")))
L: 0 (progn (defmethod gen@ ((x <integer>)) (gen@ x)) (gen@ 1))
L: 0 (progn (defglobal e@ '(eval e@)) (eval e@))
L: 0 (progn (defglobal e@ '(list (eval e@))) (eval e@))
L: 0 (progn (defmacro m@ () '(tr (m2@))) (defmacro m2@ () '1) (while t (m@)))
L: 0 (while t (case-using #'eql 1 ((2) 1)))
L: 0 (while t (eval '(car '(1))))
L: 0 (progn (defclass c@ () ((s :initform (while t)))) (create (class c@)))
L: 0 (progn (defclass c@ () ((s :initform 1 :accessor s@))) (while t (s@ (create (class c@)))))
L: 0 (mapc (lambda (x) (while t)) '(1 2))
L: 0 (maplist (lambda (x) (while t)) '(1 2))
L: 0 (mapl (lambda (x) (while t)) '(1 2))
L: 0 (mapcan (lambda (x) (while t)) '(1 2))
L: 0 (mapcon (lambda (x) (while t)) '(1 2))
L: 0 (case-using (lambda (x y) (while t)) 1 ((2) 1))
L: 0 (load "forever.lsp")
L: 0 (progn (load "define.lsp") (forever))
L: 0 (progn (defmacro m@ () (while t)) (m@))
L: 0 (progn (defclass c@ () ()) (defmethod initialize-object ((x c@) :rest r) (while t)) (create (class c@)))
L: 0 (progn (defclass c@ () ((s :accessor s@))) (let ((o (create (class c@)))) (setf (s@ o) (while t))))
L: 0 (with-open-input-file (i "forever.lsp") (while t))
L: 0 (with-open-output-file (o "out.txt") (while t))
L: 0 (case 1 ((1) (while t)))
L: 0 (cond ((while t) 1))
L: 0 (if (while t) 1)
L: 0 (block b (return-from b (while t)))
L: 0 (catch 'k (throw (while t) 1))
L: 0 (catch 'k (throw 'k (while t)))
L: 0 (dynamic-let ((d@ (while t))) 1)
L: 0 (let* ((x (while t))) 1)
L: 0 (setf (aref (vector 1) 0) (while t))
L: 0 (dolist (x '(1)) (while t))
L: 0 (assure <list> (while t))
L: 0 (convert (while t) <string>)
L: 0 (format nil "~a" (while t))
L: 0 (error "~a" (while t))
L: 0 (funcall #'mapcar (lambda (x) (while t)) '(1))
L: 0 (apply #'maplist (lambda (x) (while t)) '((1)))
`

// cancelFiles are read by the programs.
var cancelFiles = map[string]string{
	"forever.lsp": "(list 1)\n(while t)\n",
	"define.lsp":  "(defun forever () (while t))\n",
	"ends.lsp":    "(tr 'l1)\n(let ((x 2)) (while (> x 0) (setq x (- x 1))))\n(tr 'l2)\n",
}

// cancelCase cancels the program at one poll of the context after the other.
func (c *C) cancelCase(src string, first, last int64, forever bool) {
	if !c.Take() {
		return
	}
	if c.only != "" && !strings.HasSuffix(c.only, ": "+src) {
		return
	}
	c.setCur(src)
	limit := int64(20_000)
	if forever {
		limit = 2 * last
	}
	var iw *implWorld
	var full *obs
	warm := func() { // the library is compiled and the number of polls is known
		iw = c.World()
		c.implRunIn(iw, src, newStepCtx(limit))
		ctx := newStepCtx(limit)
		iw.out.Reset()
		full = c.implRunIn(iw, src, ctx)
		if !forever {
			last = ctx.n
		}
		if iw.probeID == "" {
			iw.probeID = c.newID()
			c.steps(iw, iw.probeID, worldSetup)
		}
		if probeWant == "" {
			clean := newImplWorld()
			id := c.newID()
			c.steps(clean, id, worldSetup)
			probeWant = c.probes(clean, id)
		}
	}
	warm()
	for k := first; k <= last; k++ {
		if forever && k > first+14 && k < last-2 {
			continue
		}
		c.Case("cancel", fmt.Sprintf("cancelled at poll %d: %s", k, src), func() (string, string) {
			if c.world == nil || iw.probeID == "" {
				warm()
			}
			iw.out.Reset()
			ctx := newStepCtx(k)
			if k%2 == 0 {
				ctx.err = errDeadline
			}
			o := c.implRunIn(iw, src, ctx)
			got := "stopped"
			if o.kind != "cancelled" {
				got = o.describe()
			} else if o.err != nil && !isErr(o.err, ctx.err) {
				got = "wrong error " + o.err.Error()
			}
			if len(o.trace) > len(full.trace) || strings.Join(o.trace, " ") != strings.Join(full.trace[:len(o.trace)], " ") {
				got += " trace " + strings.Join(o.trace, " ") + " is no prefix of " + strings.Join(full.trace, " ")
			}
			if more := ctx.n - k; more > 40 {
				got += fmt.Sprintf(" %d more polls", more)
			}
			want := "stopped\n" + probeWant
			got += "\n" + c.probes(iw, iw.probeID)
			if !forever {
				iw.out.Reset()
				again := c.implRunIn(iw, src, newStepCtx(limit))
				want += "\nagain " + full.describe()
				got += "\nagain " + again.describe()
			}
			return want, got
		})
	}
}

// Definitions evaluated under one context, and uses of them under a later one.
var defsAndUses = [][]string{
	{"(defun f@ (n) (if (= n 0) 'end (f@ (- n 1))))", "(f@ 2)", "(mapcar #'f@ '(1 2))", "(apply #'f@ '(1))", "(funcall #'f@ 1)"},
	{"(defmacro m@ (x) (list 'list x x))", "(m@ (+ 1 2))", "(let ((y 1)) (m@ y))"},
	{"(defglobal v@ (lambda (x) (list x (car '(1)))))", "(funcall v@ 1)", "(list (funcall v@ 1) (funcall v@ 2))"},
	{"(defglobal v@ (let ((n 0)) (lambda () (setq n (+ n 1)))))", "(list (funcall v@) (funcall v@))"},
	{"(defclass c@ () ((s :initform (+ 1 2) :accessor s@ :initarg s) (z :initform (list 1) :accessor z@ :boundp zb@)))", "(s@ (create (class c@)))", "(let ((o (create (class c@) 's 1))) (setf (z@ o) 9) (list (s@ o) (z@ o) (zb@ o)))", "(instancep (create (class c@)) (class c@))"},
	{"(progn (defclass c@ () ((s :initform (let ((x 1)) (+ x 2)) :reader s@))) (defclass d@ (c@) ()))", "(s@ (create (class d@)))"},
	{"(progn (defgeneric g@ (x)) (defmethod g@ ((x <integer>)) (if (> x 0) (g@ (- x 1)) 'done)) (defmethod g@ ((x <object>)) (list x)))", "(list (g@ 2) (g@ 'a))"},
	{"(defdynamic y@ (list 1))", "(dynamic-let ((y@ 2)) (dynamic y@))", "(progn (setf (dynamic y@) 3) (dynamic y@))"},
	{"(defconstant k@ (list 1 2))", "(car k@)"},
	{"(progn (defglobal s@ (create-string-output-stream)) (format s@ \"ab\"))", "(progn (format s@ \"c\") (get-output-stream-string s@))"},
	{"(defglobal s@ (create-string-input-stream \"1 (2) x\"))", "(list (read s@) (read s@) (read s@))", "(list (read-char s@) (preview-char s@))"},
	{"(defglobal h@ (make-hash-table))", "(progn (setf (gethash 1 h@) 2) (gethash 1 h@))"},
	{"(progn (defglobal a@ nil) (catch 'x (with-handler (lambda (c) (setq a@ c) (throw 'x 1)) (error \"x ~a\" 1))))", "(list (simple-error-format-string a@) (simple-error-format-arguments a@))"},
}

// afterCancel evaluates definitions under a context which is cancelled when
// they are done, and each use of them under another one.
func (c *C) afterCancel(def string, uses []string) {
	run := func(use string, cancelled bool) string {
		iw := newImplWorld()
		id := c.newID()
		ctx := newStepCtx(1 << 40)
		o := c.implRunID(iw, def, id, ctx)
		if o.kind == "panic" || o.kind == "error" {
			return "definition: " + o.describe()
		}
		if cancelled {
			ctx.limit = 0
		}
		iw.out.Reset()
		return strings.ReplaceAll(c.implRunID(iw, use, id, newStepCtx(1<<40)).describe(), id, "@")
	}
	for _, use := range uses {
		if c.Stop() {
			return
		}
		if !c.Take() {
			continue
		}
		use := use
		c.Case("after a cancelled definition", "after "+def+" under a context cancelled since: "+use, func() (string, string) {
			return run(use, false), run(use, true)
		})
	}
}

func (c *C) runCancel() {
	for name, text := range cancelFiles {
		if err := os.WriteFile(name, []byte(text), 0o644); err != nil {
			panic("harness bug: " + err.Error())
		}
	}
	c.Section("definitions whose context is cancelled later")
	for _, d := range defsAndUses {
		c.afterCancel(d[0], d[1:])
	}
	for _, d := range libUses {
		c.afterCancel("(defun f@ () "+d+")", []string{"(f@)"})
		c.afterCancel("(defglobal f@ (lambda () "+d+"))", []string{"(funcall f@)"})
		c.afterCancel("(defclass c@ () ((s :initform "+d+" :accessor s@)))", []string{"(s@ (create (class c@)))"})
		c.afterCancel(d, []string{d})
	}
	c.Section("programs that end")
	NewGram(cancelRules).Upto("P", c.Pick(2, 3), func(s string) bool { c.cancelCase(s, 1, 0, false); return !c.Stop() })
	c.Section("programs that do not end")
	NewGram(foreverRules).Upto("P", c.Pick(2, 3), func(s string) bool { c.cancelCase(s, 1, int64(c.Pick(60, 1000)), true); return !c.Stop() })
	c.Section("the first evaluation")
	for _, u := range libUses {
		for k := int64(1); k < 400; k++ {
			if !c.Take() {
				continue
			}
			done := false
			c.Case("cancelled first evaluation", fmt.Sprintf("cancelled at poll %d: %s", k, u), func() (string, string) {
				iw := newImplWorld()
				id := c.newID()
				ctx := newStepCtx(k)
				o := c.implRunID(iw, u, id, ctx)
				if o.kind == "value" && ctx.n < k {
					done = true
				}
				want, got := "", ""
				for i, v := range libUses {
					if i%4 != int(k)%4 && v != u {
						continue
					}
					want += c.fresh(v) + "\n"
					got += c.steps(iw, id, v) + "\n"
				}
				return want, got
			})
			if done {
				break
			}
		}
	}
}

func init() {
	register(&Prop{ID: "P26", Rule: "every program of the grammar up to the stated size, cancelled at every poll of its context; every endless loop in every context, cancelled at the listed polls; the first evaluation of a World, cancelled at every poll",
		Assumptions: []string{"cleanup forms run under the cancelled context, too, so that they end as early as other forms", "blocking system calls are not interrupted", "programs whose cleanup forms fail by themselves are not in the grammar"},
		Run:         func(c *C) { c.runCancel() }, Replay: func(c *C, input string) { replayRerun(c, input) }})
}
