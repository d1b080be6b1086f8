package main

// P24: places.

func init() {
	gramProp("P24", "every sequence of up to two (thorough three) assignments to places of every kind, nested places and nested assignments of the grammars, followed by a dump of everything that could have been changed, with sharing", modelAssumptions,
		gsec{name: "setf", q: 2, t: 3, graph: true, worlds: 200, rules: `
P: 0 (defclass c@ () ((a :initform 'sa :accessor a@ :initarg a :boundp ab@) (b :initarg b :writer wb@ :reader rb@))) (defdynamic d@ 'dyn) (defglobal g@ (list 'g)) (let* ((l (list 1 (list 2 3) 4 5)) (k (cdr l)) (al (list (cons 'p 1) (cons 'q 2))) (v (vector 'v l)) (m (create-array '(2 2) 0)) (s "abc") (h (make-hash-table)) (o (create (class c@) 'b l)) (o2 (create (class c@) 'b k)) (n 0)) (flet ((f (x) (setq n (+ n 1)) x)) $O) (list l k al v m s (gethash 'x h) (a@ o) (rb@ o) (a@ o2) (rb@ o2) n (dynamic d@) g@ (ab@ o)))
O: 0 $S
O: 1 $S $Z
O: 1 $Z $S
O: 2 $Z $Z $Z
S: 0 (tr (setf $L $V))
S: 0 (tr (incf $I))
S: 0 (tr (decf n $D))
Z: 0 (setf $X $Y)
X: 0 (car l)
X: 0 (elt k 1)
X: 0 (aref v 1)
X: 0 (gethash 'x h)
X: 0 (a@ o)
X: 0 l
X: 0 (cdr k)
Y: 0 m
Y: 0 k
Y: 0 (car l)
Y: 0 (list 6 7)
L: 0 l
L: 0 g@
L: 0 n
L: 0 (car $C)
L: 0 (cdr $C)
L: 1 (first $C)
L: 1 (second $C)
L: 1 (third k)
L: 0 (cadr $C)
L: 1 (cddr $C)
L: 1 (caddr l)
L: 1 (cdddr l)
L: 0 (cadddr l)
L: 0 (nth $I0 $C)
L: 0 (elt $C $I0)
L: 0 (elt s $I0)
L: 0 (elt v $I0)
L: 0 (aref v $I0)
L: 0 (aref m $I0 0)
L: 0 (gethash 'x h)
L: 0 (a@ $B)
L: 0 (dynamic d@)
L: 1 (car (rb@ $B))
L: 1 (elt (aref v 1) 0)
L: 1 (cdr (car al))
C: 0 l
C: 0 k
C: 1 (f l)
C: 1 (tr (cdr l))
C: 1 (cadr l)
C: 1 (setf k (list 8 (list 9)))
I0: 0 0
I0: 0 1
I0: 1 (f 1)
I0: 1 (incf n)
B: 0 o
B: 1 (f o2)
V: 0 7
V: 0 nil
V: 0 (list 5)
V: 0 #\x
V: 1 (f (list 8))
V: 1 (setf $L $V)
V: 1 (incf n)
V: 1 (cdr k)
V: 1 l
I: 0 n
I: 1 n $D
D: 0 2
D: 0 (f 3)
D: 1 (incf n)
D: 1 (setf n 10)
`})
}
