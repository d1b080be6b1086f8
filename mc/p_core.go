package main

import "strings"

type gsec struct {
	name   string
	rules  string
	nt     string
	q, t   int  // sizes
	graph  bool // compare sharing of conses and arrays too
	filter func(string) bool
	worlds int // cases per World (default 2000)
}

// gramProp explores all programs of its grammars up to the given sizes.
func gramProp(id, rule string, assume []string, secs ...gsec) {
	register(&Prop{Secs: secs, ID: id, Rule: rule, Assumptions: assume, Run: func(c *C) { runSecs(c, secs...) }})
}

func runSecs(c *C, secs ...gsec) {
	for _, s := range secs {
		c.Section(s.name)
		graphMode = s.graph
		c.worldMax = 2000
		if s.worlds > 0 {
			c.worldMax = s.worlds
		}
		g := NewGram(s.rules)
		nt := s.nt
		if nt == "" {
			nt = "P"
		}
		g.Upto(nt, c.Pick(s.q, s.t), func(src string) bool {
			if s.filter != nil && !s.filter(src) {
				return true
			}
			if c.Take() {
				c.Diff(src)
			}
			return !c.Stop()
		})
	}
	graphMode = false
}

func has(subs ...string) func(string) bool {
	return func(s string) bool {
		for _, x := range subs {
			if strings.Contains(s, x) {
				return true
			}
		}
		return false
	}
}

var modelAssumptions = []string{
	"the reference evaluator in mc/ref*.go states the intended meaning; programs it leaves undefined are skipped and counted by reason",
	"only error-ness and the class of the condition are compared for errors, not the text of messages",
}

func init() {
	gramProp("P01", "every program of the scoping grammars up to the stated size; a case is non-trivial when the model gives it a value or a class of error, and distinct when its observation (value, trace, output) is new", modelAssumptions,
		gsec{name: "forms", q: 3, t: 4, rules: `
P: 0 (let ((x 10) (y 20)) (list $E x y))
P: 0 (let ((x 10) (y 1)) (flet ((f (x) (list 'o x y))) $E))
E: 0 x
E: 0 y
E: 1 (let ((x $E)) $E)
E: 1 (let ((y x) (x $E)) $E)
E: 1 (let* ((x $E) (y x)) (list x $E))
E: 1 (setq x $E)
E: 1 (setq y (tr $E))
E: 1 ((lambda (&rest x) $E) y $E)
E: 1 ((lambda (y :rest x) (list x $E)) $E)
E: 1 (funcall $F $E)
E: 1 (list $E $E)
E: 1 (flet ((f (y) $E)) (list x (f $E)))
E: 1 (labels ((f (y) (if (consp y) x (list 'r y (f (list $E)))))) (f $E))
E: 1 (f $E)
F: 0 #'f
F: 1 (lambda (x) $E)
F: 1 (let ((x $E)) (lambda (y) $E))
F: 1 (flet ((f (x) $E)) #'f)
`},
		gsec{name: "closures", q: 6, t: 7, rules: `
P: 0 (let ((x 1)) (let ((k $K)) $S (list $C x)))
P: 0 (let ((k nil) (x 1)) (let ((x 2)) (setq k $K)) $S (list $C x))
P: 0 (let ((x 1)) (flet ((mk (x) $K)) (let ((k (mk 5)) (j (mk 6))) $S (list $C (funcall j 3) $C x))))
P: 0 (defglobal x@ 7) (defun mk@ (x) $K) (let ((k (mk@ 5)) (x 100)) $S (list $C x))
P: 0 (let ((ks nil)) (dolist (x '(1 2 3)) (let ((z x)) (setq ks (cons (lambda (y) $B) ks)))) (mapcar (lambda (f) (funcall f 4)) ks))
P: 0 (let ((ks nil) (x 0)) (while (< x 3) (let ((z x)) (setq ks (cons (lambda (y) $B) ks))) (setq x (+ x 1))) (mapcar (lambda (f) (funcall f 4)) ks))
P: 0 (let ((x 3) (z 50)) (defun h@ (y) $B) (let ((x 9) (z 8)) (list (h@ 1) (h@ 2) x)))
P: 0 (let ((x 3) (z 0)) (labels ((ev (y) (if (= y 0) (list 'e x) (let ((x y)) (od (- y 1))))) (od (y) (if (= y 0) (list 'o x) (progn (setq x $V) (ev (- y 1)))))) (list (ev 3) $B0 x)))
K: 0 (lambda (y) x)
K: 1 (lambda (y) $B1)
K: 1 (let ((x $V)) (lambda (y) $B1))
K: 1 (flet ((g (y) $B1)) #'g)
K: 1 (labels ((g (y) (if (= y 0) x (g (- y 1))))) #'g)
B1: 0 (setq x (+ x y))
B1: 0 (let ((x y)) (setq x (+ x 1)))
B1: 1 (progn (setq x $V) x)
B1: 1 (list $V $V)
B: 0 z
B: 1 (setq z (+ z y))
B: 1 (let ((z y)) (setq z (+ z 1)) z)
B: 1 (setq x $V)
B: 1 (list x y z)
B0: 0 x
S: 0 nil
S: 1 (setq x $V)
S: 1 (let ((x $V)) (funcall k 2))
S: 1 (progn (funcall k 2) (funcall k 3))
S: 1 (let ((x 0)) (setq x 40) $S)
C: 0 (funcall k 2)
C: 1 (let ((x $V)) (funcall k x))
C: 1 ((lambda (x) (funcall k 2)) $V)
C: 1 (let ((y $V)) (funcall k 2))
V: 0 30
V: 0 x
V: 1 (+ x 1)
`},
		gsec{name: "binding forms", q: 3, t: 4, rules: `
P: 0 (defglobal cs@ nil) (defun cap@ (f v) (setq cs@ (cons f cs@)) v) (let ((x 1) (z 50)) (list $B x (mapcar (lambda (f) (funcall f 9)) cs@) x z (mapcar (lambda (f) (funcall f 9)) cs@)))
B: 0 (let ((x $E) (z $E)) $E)
B: 0 (let* ((x $E) (z $E)) $E)
B: 0 (let* ((z $E) (x $E) (x $E)) $E)
B: 0 (let (x (z $E)) (setq x (list x $E)) x)
B: 0 (let ((z $E) x) (setq x (list x z $E)) x)
B: 0 (let* (z (x $E) y z) (setq y (list x z $E)) (setq z 3) y)
B: 0 ((lambda (:rest x) (setq x (cons $E x)) x))
B: 0 ((lambda (z y :rest x) (setq x (cons $E x)) x) $E 2)
B: 0 (flet ((f (z y :rest x) (setq x (cons $E x)) (list z y x))) (list (f 1 2) (f 1 2 $E)))
B: 0 ((lambda (x z) $E) $E $E)
B: 0 ((lambda (z :rest x) $E) $E $E)
B: 0 (flet ((f (x) (tr $E))) (list (f 4) $E (f 5)))
B: 0 (labels ((f (x) (if (> x 3) (list (f (- x 1)) $E) (tr $E)))) (f 4))
B: 0 (flet ((f (x) (setq x (+ x 1)) $E)) (let ((x $E)) (list (f $E) x)))
B: 0 (for ((x $E $E) (z 0 (+ z 1))) ((= z 2) $E) $E)
B: 0 (for ((z $E) (x 0 (+ x 1))) ((> x 1) $E) $E)
B: 0 (dolist (x (list $E 3)) (tr $E))
B: 0 (dotimes (i 2) (let ((x $E)) (tr $E)))
B: 0 (block b (let ((x $E)) (return-from b $E)))
B: 0 (let ((x $E)) (unwind-protect $E (setq x 5) (tr $E)))
B: 0 (case $E ((1 2) (let ((x $E)) $E)) (t $E))
B: 0 (catch 'k (let* ((x $E)) (throw 'k $E)))
B: 0 (let ((x $E)) (with-handler (lambda (c) (return-from h $E)) (block h (car x))))
B: 0 (block h (with-handler (lambda (z) (setq x 6) (return-from h $E)) (let ((x $E)) (car 5))))
B: 0 (progn (defgeneric g@ (x)) (defmethod g@ ((x <integer>)) $E) (let ((x $E)) (g@ 4)))
B: 0 (progn (defmacro m@ (x) (list 'let (list (list 'z x)) '(list z x))) (let ((x $E)) (m@ $E)))
B: 0 (progn (defun d@ (x :rest z) (tr $E)) (list (d@ 1 2) $E (d@ 3)))
E: 0 x
E: 0 (cap@ (lambda (y) x) 2)
E: 1 (cap@ (lambda (y) (setq x (+ x y))) 3)
E: 1 (cap@ (lambda (y) (list x z)) 2)
E: 1 (setq x (+ z 7))
E: 1 (let ((x 8)) $E)
E: 1 (progn $E (tr $E))
`},
		gsec{name: "function namespace", q: 4, t: 5, rules: `
P: 0 (defun f@ (x) (list 'g x)) (let ((f@ 5)) $E)
P: 0 (defun f@ (x) (list 'g x)) (defun h@ (x) (f@ x)) (flet ((f@ (x) (list 'l x))) (list $E (h@ 0)))
P: 0 (defun f@ (x) (list 'g x)) (defun h@ (f@) $E) (h@ 5)
E: 0 1
E: 0 f@
E: 1 (f@ $E)
E: 1 (funcall #'f@ $E)
E: 1 (funcall $F $E)
E: 1 (flet ((f@ (x) (list 'i $R))) $E)
E: 1 (labels ((f@ (x) (if (consp x) (list 'j x) (list 'k $R)))) $E)
E: 1 (let ((f@ $E)) $E)
E: 1 (progn (defun f@ (x) (list 'n $R)) $E)
E: 1 (setq f@ $E)
E: 1 (mapcar $F (list $E))
F: 0 #'f@
F: 1 (lambda (x) $R)
F: 1 (let ((x #'f@)) (flet ((f@ (x) (list 'm x))) x))
F: 1 (flet ((f@ (x) $R)) #'f@)
R: 0 x
R: 1 (f@ (list x))
`},
	)
}
