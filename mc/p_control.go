package main

import (
	"fmt"
	"os"
	"strings"
)

// tracedSec has functions which are being traced: the same programs with the
// same results, whatever is written about their calls.
func tracedSec() gsec {
	return gsec{name: "traced", q: 3, t: 4, rules: `
P: 0 (trace f@ g@ h@) (let ((ks nil) (g 0)) (defun f@ (n a) $B) (defun g@ (:rest r) (tr (length r)) (list 'g r)) (list (f@ 2 'z) g (ignore-errors $C) (mapcar (lambda (k) (funcall k)) ks)))
P: 0 (trace f@ g@ h@) (let ((ks nil) (g 0)) (labels ((f@ (n a) $B)) (defun g@ (x :rest r) (list 'g x r)) (list (f@ 2 'z) (catch 'c $C) (mapcar (lambda (k) (funcall k)) ks))))
B: 0 (if (<= n 0) a $T)
B: 0 (cond ((<= n 0) (list 'end a)) (t (tr n) $T))
B: 1 (progn (setq ks (cons (lambda () (list n a)) ks)) $B)
B: 1 (progn (setq g (+ g n)) $B)
B: 1 (let ((m n)) $B)
T: 0 (f@ (- n 1) (list n a))
T: 1 (list (f@ (- n 1) a))
T: 1 (let ((n (- n 1))) (f@ (tr n) n))
T: 1 (f@ (- n 1))
T: 1 (f@ (- n 1) a 'extra)
T: 1 (throw 'c (f@ (- n 1) a))
T: 1 (flet ((f@ (x y) (list 'inner x y))) (f@ n a))
T: 1 (f@ (- n 1) (g@ n a))
C: 0 (f@ 1 nil)
C: 0 (g@ 1 2)
C: 1 (f@ (tr 1) (tr 2))
C: 1 (g@ (tr 1) (f@ 1 (tr 2)) (tr 3))
C: 1 (g@ (throw 'c 5) (tr 1))
C: 1 (f@ 1 (car 'bad))
C: 1 (f@ (tr 1))
C: 1 (g@)
C: 1 (apply #'g@ (tr 1) (list (tr 2) nil))
C: 1 (funcall #'f@ (tr 0) (vector nil))
C: 1 (mapcar #'g@ '(1 2))
C: 1 (progn (trace) $C)
C: 1 (progn (defun h@ () (trace) (tr 'h) 1) (list (h@) (h@) $C))
`}
}

func init() {
	// ---- P02 tail calls --------------------------------------------------
	p02 := []gsec{
		{name: "bodies", q: 4, t: 5, rules: `
P: 0 (let ((ks nil) (g 0)) (defun f@ (n a) $B) (list (f@ 3 'z) g (mapcar (lambda (k) (funcall k)) ks)))
P: 0 (let ((ks nil) (g 0)) (labels ((f@ (n a) $B)) (list (f@ 3 'z) g (mapcar (lambda (k) (funcall k)) ks))))
B: 0 (if (<= n 0) a $T)
B: 0 (cond ((<= n 0) (list 'end a)) (t $T))
B: 1 (cond ((<= n 0) a) ((= n 2) $T) (t $T))
B: 1 (let ((m (- n 1))) (if (< m 0) (list 'l a m) $T))
B: 1 (progn (setq ks (cons (lambda () (list n a)) ks)) $B)
B: 1 (progn (setq g (+ g n)) $B)
B: 1 (if (= n 1) (list 'one a) $B)
B: 1 (case n ((0) a) ((2) $T) (t $T))
B: 1 (and (list n) $B)
B: 1 (or nil $B)
B: 1 (when t (tr n) $B)
B: 1 (block q $B)
T: 0 (f@ (- n 1) (list n a))
T: 1 (f@ (- n 1) a)
T: 1 (f@ (- n 1) (lambda () n))
T: 1 (list (f@ (- n 1) a))
T: 1 (let ((n (- n 1))) (f@ n n))
T: 1 (let ((a n)) (f@ (- n 1) a))
T: 1 (progn (setq n (- n 1)) (f@ n a))
T: 1 (progn (setq a (list 's a)) $T)
T: 1 (progn (f@ 0 'side) $T)
T: 1 (funcall #'f@ (- n 1) a)
T: 1 (apply #'f@ (list (- n 1) a))
T: 1 (catch 'c (f@ (- n 1) a))
T: 1 (unwind-protect (f@ (- n 1) a) (tr n))
T: 1 (block nil (return $T))
T: 1 (flet ((f@ (x y) (list 'inner x y))) (f@ n a))
T: 1 (labels ((h (m) (if (= m 0) $T (h (- m 1))))) (h 2))
T: 1 (f@ (- n 1))
T: 1 (f@ (- n 1) a 'extra)
T: 1 (f@)
T: 1 (if (= n 2) $T $T)
`},
		{name: "mutual and redefined", q: 4, t: 5, rules: `
P: 0 (defun g@ (n) (list 'old n)) (defun f@ (n) $B) (list $C $C)
P: 0 (defun f@ (n) $B) (defun g@ (n) $B) (list $C)
P: 0 (defun f@ (n :rest r) (if (<= n 0) (list n r) $R)) (list (f@ 2) (f@ 2 'x) (f@ 3 'x 'y))
R: 0 (f@ (- n 1) r)
R: 1 (f@ (- n 1))
R: 1 (f@ (- n 1) n r)
R: 1 (apply #'f@ (- n 1) n r)
R: 1 (let ((r (cons n r))) (f@ (- n 1) r))
B: 0 (if (<= n 0) (list 'e n) $T)
B: 1 (cond ((<= n 0) (list 'e n)) ((= n 1) $T) (t $T))
T: 0 (f@ (- n 1))
T: 0 (g@ (- n 1))
T: 1 (progn (defun f@ (n) (list 'new n)) $T)
T: 1 (progn (defun g@ (n) (list 'new n)) $T)
T: 1 (let ((n (- n 1))) $T)
T: 1 (flet ((g@ (m) (list 'fl m n))) $T)
T: 1 (tr $T)
C: 0 (f@ 2)
C: 0 (g@ 3)
C: 1 (funcall #'f@ 1)
C: 1 (mapcar #'f@ '(0 1 2))
`},
		{name: "forms that end after their body", q: 3, t: 4, rules: `
P: 0 (defdynamic d@ 0) (let ((g 0)) (defun f@ (n) (if (= n 0) (list 'end (dynamic d@) g) $B)) (list (catch 'out (f@ 2)) (dynamic d@) g))
P: 0 (let ((g nil)) (defun f@ (n) (if (= n 0) $Z $Y)) (list (catch 1 (list 'one (catch 2 (list 'two (f@ 2))))) (length g)))
Z: 0 (throw 1 'z)
Z: 0 (throw 2 'z)
Z: 0 (funcall (car g) 'z)
Z: 0 (funcall (car (cdr g)) 'z)
Y: 0 (f@ (- n 1))
Y: 0 (list n (f@ (- n 1)))
Y: 1 (catch n $Y)
Y: 1 (catch (- 3 n) (list 'c $Y))
Y: 1 (block k (setq g (cons (lambda (v) (return-from k (list v n))) g)) $Y)
Y: 1 (block k (setq g (cons (lambda (v) (return-from k (list v n))) g)) (list 'k $Y))
Y: 1 (tagbody (setq g (cons (lambda (v) (go l)) g)) $Y l)
Y: 1 (let ((q (tagbody (setq g (cons (lambda (v) (go l)) g)) $Y l))) (list q n))
Y: 1 (tagbody (setq g (cons (lambda (v) (go l)) g)) (throw 1 $Y) l (setq n (list n 'l)) (throw 2 n))
Y: 1 (unwind-protect $Y (tr n))
Y: 1 (progn (funcall (lambda () $Y)))
Y: 1 (let ((n n)) $Y)
Y: 1 (cond ((= n 2) $Y) (t $Y))
Y: 1 (with-handler (lambda (c) (throw 1 (list 'h n))) $Y)
Y: 1 (ignore-errors $Y)
B: 0 (f@ (- n 1))
B: 0 (list n (f@ (- n 1)))
B: 1 (progn $B $B)
B: 1 (dynamic-let ((d@ n)) $B)
B: 1 (unwind-protect $B (setq g (cons n g)))
B: 1 (catch 'k (list (throw 'k $B)))
B: 1 (catch 'k $B)
B: 1 (block k $B)
B: 1 (block k (return-from k $B))
B: 1 (with-handler (lambda (c) (throw 'out (list 'h n))) $B)
B: 1 (with-handler (lambda (c) (throw 'out (list 'h n))) $B (car 'bad))
B: 1 (ignore-errors $B)
B: 1 (tagbody $B)
B: 1 (tagbody (setq g (list 't $B g)) (go x) (setq g 'no) x)
B: 1 (while (< g 2) (setq g (+ g 1)) $B)
B: 1 (for ((i 0 (+ i 1))) ((= i 1) $B) (setq g (+ g i)))
B: 1 (for ((i $B (+ i 1))) (t i))
B: 1 (dolist (i '(1)) $B)
B: 1 (case n ((1) $B) (t (tr n) $B))
B: 1 (case-using #'eql n ((1) $B) (t $B))
B: 1 (let ((v $B)) (list v n))
B: 1 (let* ((v n) (n (- n 0))) $B)
B: 1 (labels ((h () n)) $B)
B: 1 (flet ((h () $B)) (h))
B: 1 (setq g $B)
B: 1 (and $B $B)
B: 1 (or nil $B)
B: 1 (not $B)
B: 1 (if $B n 'no)
B: 1 (the <object> $B)
B: 1 (cond ($B n))
B: 1 (cond ($B))
B: 1 (when (> n 0) $B)
B: 1 (unless nil $B)
B: 1 (prog1 $B (tr n))
B: 1 (throw 'out $B)
`}}
	register(&Prop{ID: "P02", Rule: "every program of the tail-call grammars up to the stated size, plus each tail position driven 300000 calls deep", Assumptions: modelAssumptions, Secs: p02,
		Run: func(c *C) {
			runSecs(c, p02...)
			if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				os.Stderr = null
				runSecs(c, tracedSec())
				os.Stderr = noteOut
			}
			c.Section("depth")
			deepRun(c)
		}, Replay: func(c *C, in string) {
			if strings.Contains(in, "300000") {
				deepOne(c, in)
			} else if strings.Contains(in, "(trace ") {
				os.Stderr, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
				c.Diff(in)
				os.Stderr = noteOut
			} else {
				c.Diff(in)
			}
		}})

	// ---- P03 non-local exits --------------------------------------------
	gramProp("P03", "every program of the non-local exit grammars up to the stated size", modelAssumptions,
		gsec{name: "block and catch", q: 4, t: 5, rules: `
P: 0 (list 'r (block a (tr 'in) $E))
P: 0 (list 'r (catch 'a (block a $E)))
P: 0 (defun t@ (k) (block a (list 't (funcall k)))) (list 'r (block a $E))
P: 0 (let ((k nil)) (list 'r (block a (setq k (lambda (v) (return-from a v))) $E) (catch 'z (block a (list 'again (ignore-errors (funcall k 5)))))))
E: 0 1
E: 1 (return-from a $E)
E: 1 (return-from b $E)
E: 1 (block a $E)
E: 1 (block b (list 'b $E))
E: 1 (catch 'a (list 'c $E))
E: 1 (catch (+ 1 1) $E)
E: 1 (throw 'a $E)
E: 1 (throw 2 $E)
E: 1 (throw 'nope $E)
E: 1 (list (tr 'x) $E (tr 'y))
E: 1 (funcall (lambda () $E))
E: 1 (mapcar (lambda (z) (tr z) $E) '(1 2))
E: 1 (flet ((g () (return-from a 'g))) (block a (list 'h (g) $E)))
E: 1 (unwind-protect $E (tr 'u))
E: 1 (t@ (lambda () $E))
E: 1 (funcall k $E)
E: 1 (block nil (list (return $E)))
E: 1 (dolist (v '(1 2)) (tr v) (return $E))
E: 1 (ignore-errors $E)
`},
		gsec{name: "loops", q: 3, t: 4, rules: `
P: 0 (let ((n 0)) (list (block nil (list 'w (block a (catch 'c $L)))) n))
L: 0 (tr n)
L: 0 (return (tr 'r))
L: 0 (return-from a (tr 'ra))
L: 0 (throw 'c (tr 'th))
L: 1 (progn (while (< n 3) (setq n (+ n 1)) $L) (tr 'aft))
L: 1 (progn (while (progn $L (setq n (+ n 1)) (< n 3)) (tr 'w)) (tr 'aft))
L: 1 (progn (dolist (v '(1 2)) (setq n (+ n v)) $L) (tr 'aft))
L: 1 (progn (dotimes (v 2) (setq n (+ n v)) $L) (tr 'aft))
L: 1 (progn (for ((v 0 (+ v 1))) ((= v 2) (tr 'res)) $L) (tr 'aft))
L: 1 (progn (mapc (lambda (v) $L) '(1 2)) (tr 'aft))
L: 1 (progn (mapcar (lambda (v) (block nil $L)) '(1 2)) (tr 'aft))
L: 1 (progn (block nil $L) (tr 'aft))
L: 1 (progn (tagbody $L (tr 't1) (go e) (tr 'no) e) (tr 'aft))
L: 1 (case n ((0) $L) (t (tr 'other) $L))
L: 1 (let ((n n)) $L (tr 'l))
L: 1 (dynamic-let ((q@ 1)) $L (tr 'd))
L: 1 (with-handler (lambda (c) (return 'h)) $L (car 1))
L: 1 (with-handler (lambda (c) $L) (tr 'b) (car 1))
L: 1 (unwind-protect $L (tr 'u))
`},
		gsec{name: "tags", q: 3, t: 4, rules: `
P: 0 (let* ((x (list 1)) (y (list 1)) (v (vector 1))) (list 'r $E))
E: 0 (tr 1)
E: 1 (catch $K $E)
E: 1 (throw $K $E)
E: 1 (list $E (tr 'no))
E: 1 (ignore-errors $E)
K: 0 x
K: 0 y
K: 0 1
K: 0 1.0
K: 0 'k
K: 0 #\k
K: 0 :k
K: 0 v
K: 0 (car x)
K: 1 (vector 1)
K: 1 nil
K: 1 #\K
`},
		gsec{name: "tagbody", q: 3, t: 4, rules: `
P: 0 (let ((n 0)) (tagbody $S a $S b $S) n)
P: 0 (let ((n 0) (k nil)) (block out (tagbody (setq k (lambda () (go a))) $S a (tr n) $S (if (< n 3) (go b)) (return-from out (list 'o n)) b $S (go a))))
P: 0 (let ((n 0)) (list (block out (tagbody a $S (tagbody b $S (tr 'i) c $S) d $S)) n))
S: 0 (tr 's)
S: 1 (progn (setq n (+ n 1)) (if (< n 3) (go a)))
S: 1 (progn (setq n (+ n 1)) (if (< n 3) (go b)))
S: 1 (go b)
S: 1 (go d)
S: 1 (return-from out n)
S: 1 (catch 'x $S)
S: 1 (funcall (lambda () $S))
S: 1 (mapc (lambda (z) $S) '(1 2))
S: 1 (unwind-protect $S (tr 'u))
S: 1 (progn $S $S)
S: 1 (if (< n 2) (funcall k))
S: 1 (tagbody (tr 'nest) $S b (tr 'nb))
S: 1 (ignore-errors $S)
S: 1 (block nil $S (return 1))
`})

	// ---- P04 unwind-protect ----------------------------------------------
	gramProp("P04", "every nesting of unwind-protect, exits, errors and handlers of the grammars up to the stated size", modelAssumptions,
		gsec{name: "exits", q: 4, t: 5, rules: `
P: 0 (list 'r (block a (catch 'c (list 'in $U))))
P: 0 (let ((n 0)) (list (block a (tagbody (tr 'st) (if (= n 0) $U) out (setq n 1) (tr 'out))) n))
P: 0 (defun f@ (x) $U) (list (block a (catch 'c (mapcar #'f@ '(1 2)))))
P: 0 (defdynamic d@ 1) (list (block a (catch 'c (dynamic-let ((d@ 2)) $U))) (dynamic d@))
P: 0 (list (with-handler (lambda (c) (tr 'h) (throw 'c (tr 'v))) (catch 'c (block a $U))))
P: 0 (block a (with-handler (lambda (c) (unwind-protect (return-from a 'esc) (tr 'hc))) (catch 'c $U)))
U: 0 (unwind-protect (tr 1) (tr 'c1))
U: 1 (unwind-protect $E $K)
U: 1 (unwind-protect $U $K)
U: 1 (unwind-protect (tr 1) $K (tr 'last))
E: 0 (return-from a (tr 'ra))
E: 0 (throw 'c (tr 'rc))
E: 0 (throw 'none 1)
E: 0 (go out)
E: 0 (car 1)
E: 0 (error "x")
E: 0 (undefd@)
E: 0 (quit)
E: 0 (abort)
E: 1 (list (tr 'b) $E)
E: 1 (ignore-errors $E)
E: 1 (funcall (lambda () $E))
E: 1 (dynamic-let ((d@ 3)) $E)
E: 1 (block b $E)
K: 0 (tr 'k)
K: 0 (car 2)
K: 0 (return-from a 'kr)
K: 0 (throw 'c 'kt)
K: 0 (go out)
K: 0 (ignore-errors (car 2))
K: 1 (block z (return-from z (tr 'z)))
K: 1 (unwind-protect (tr 'kk) $K)
K: 1 (catch 'i (tr 'k1) (throw 'i 2))
K: 1 (progn $K (tr 'k2))
`},
		gsec{name: "sequences", q: 4, t: 6, rules: `
P: 0 (let ((log nil)) (list 'v (block a $E) log))
E: 0 (tr 0)
E: 0 (return-from a 'x)
E: 0 (car 3)
E: 1 (unwind-protect $E (setq log (cons 'u log)))
E: 1 (unwind-protect $E (setq log (cons 'u log)) (setq log (cons 'w log)))
E: 1 (ignore-errors $E)
E: 1 (list (tr 'p) $E)
E: 1 (block a $E)
E: 1 (catch 'c $E)
E: 1 (throw 'c $E)
E: 1 (let ((k (lambda () (return-from a 'k)))) (unwind-protect $E (tr 'd)))
E: 1 (dolist (q '(1 2)) $E)
E: 1 (with-handler (lambda (c) (throw 'c 'hv)) $E)
E: 1 (progn $E $E)
E: 1 (unwind-protect $E (return-from a 'esc))
E: 1 (unwind-protect $E (ignore-errors (return-from a 'esc)))
`})
	_ = fmt.Sprint
}

var deepTails = []string{
	`(defun f@ (n) (if (= n 0) 'done (f@ (- n 1)))) (f@ 300000)`,
	`(defun f@ (n a) (if (= n 0) a (f@ (- n 1) (+ a 1)))) (f@ 300000 0)`,
	`(defun f@ (n) (cond ((= n 0) 'done) ((< n 0) 'never) (t (f@ (- n 1))))) (f@ 300000)`,
	`(defun f@ (n) (progn nil (if (= n 0) 'done (f@ (- n 1))))) (f@ 300000)`,
	`(defun f@ (n) nil (if (= n 0) 'done (progn 1 (f@ (- n 1))))) (f@ 300000)`,
	`(defun f@ (n) (let ((m (- n 1))) (if (< m 0) 'done (f@ m)))) (f@ 300000)`,
	`(defun f@ (n) (let* ((m (- n 1)) (k m)) (if (< k 0) 'done (f@ k)))) (f@ 300000)`,
	`(labels ((f@ (n) (if (= n 0) 'done (f@ (- n 1))))) (f@ 300000))`,
	`(defun f@ (n :rest r) (if (= n 0) r (f@ (- n 1) 'z))) (f@ 300000)`,
}

func deepOne(c *C, src string) {
	c.Case("depth", src, func() (string, string) {
		want := "value done"
		switch {
		case strings.Contains(src, "(n a)"):
			want = "value 300000"
		case strings.Contains(src, ":rest"):
			want = "value (z)"
		}
		o := c.implRunIn(c.World(), src, newStepCtx(1<<60))
		return want, o.describe()
	})
}

func deepRun(c *C) {
	for _, s := range deepTails {
		if c.Take() {
			deepOne(c, s)
		}
	}
}

func init() {
	q := func(name string) {
		def(name, 0, 0, func(in *In, a []V) (V, *ab) { return nil, &ab{kind: abQuit, why: name} })
	}
	q("quit")
	q("abort")
}
