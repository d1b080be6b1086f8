package main

func init() {
	gramProp("P18", "every program of the class, generic function and slot grammars up to the stated size", modelAssumptions,
		gsec{name: "dispatch", q: 3, t: 4, rules: `
P: 0 (defclass a@ () ()) (defclass b@ (a@) ()) (defclass c@ (a@) ()) (defclass d@ (b@ c@) ()) (defgeneric g@ (x)) $M (list $C)
P: 0 (defgeneric g@ (x)) $N (list $D)
P: 0 (defclass a@ () ()) (defclass b@ (a@) ()) (defgeneric g@ (x y)) $T (list $U)
P: 0 (defgeneric g@ (x :rest r)) $R (list $Q)
M: 0 nil
M: 1 (defmethod g@ ((x a@)) $B) $M
M: 1 (defmethod g@ ((x b@)) $B) $M
M: 1 (defmethod g@ ((x c@)) $B) $M
M: 1 (defmethod g@ ((x d@)) $B) $M
M: 1 (defmethod g@ ((x <object>)) $B) $M
M: 1 (defmethod g@ (x) (list 'plain x)) $M
C: 0 (ignore-errors (g@ (create (class a@)))) (ignore-errors (g@ (create (class b@)))) (ignore-errors (g@ (create (class c@)))) (ignore-errors (g@ (create (class d@)))) (ignore-errors (g@ 1))
B: 0 (list $L (class-of x))
L: 0 'm1
L: 0 'm2
N: 0 nil
N: 1 (defmethod g@ ((x $K)) (list $L x)) $N
K: 0 <object>
K: 0 <number>
K: 0 <integer>
K: 0 <float>
K: 0 <symbol>
K: 0 <null>
K: 0 <list>
K: 0 <cons>
K: 0 <string>
K: 0 <character>
K: 0 <function>
K: 0 <error>
D: 0 (ignore-errors (g@ 1)) (ignore-errors (g@ 1.5)) (ignore-errors (g@ nil)) (ignore-errors (g@ 'x)) (ignore-errors (g@ '(1))) (ignore-errors (g@ "s")) (ignore-errors (g@ #\c)) (ignore-errors (g@ #'car)) (ignore-errors (g@ (catch 'k (with-handler (lambda (c) (throw 'k c)) (car 1)))))
T: 0 nil
T: 1 (defmethod g@ ((x $A) (y $A)) (list 't1 $W)) $T
T: 1 (defmethod g@ ((y $A) (x $A)) (list 't2 $W)) $T
T: 1 (defmethod g@ ((x $A) y) (list 't3 x y)) $T
T: 1 (defmethod g@ (x (y $A)) (list 't4 x y)) $T
A: 0 a@
A: 0 b@
A: 0 <integer>
A: 0 <object>
W: 0 (integerp x)
U: 0 (ignore-errors (g@ 1 2)) (ignore-errors (g@ (create a@) 1)) (ignore-errors (g@ (create b@) 1)) (ignore-errors (g@ 1 (create b@))) (ignore-errors (g@ (create a@) (create b@))) (ignore-errors (g@ (create b@) (create b@))) (ignore-errors (g@ (create b@) (create a@))) (ignore-errors (g@ 'x 'y))
R: 0 nil
R: 1 (defmethod g@ ((x <integer>) :rest (r $K2)) (list 'ri x r)) $R
R: 1 (defmethod g@ ((x <object>) :rest (r $K2)) (list 'ro x r)) $R
R: 1 (defmethod g@ (x :rest r) (list 'rp x r)) $R
R: 1 (defmethod g@ ((x <integer>) &rest r) (list 'rq x r)) $R
K2: 0 <object>
K2: 0 <number>
K2: 0 <symbol>
Q: 0 (ignore-errors (g@ 1)) (ignore-errors (g@ 1 2)) (ignore-errors (g@ 1 'a 2)) (ignore-errors (g@ 'z 'a)) (ignore-errors (g@ 'z 3 4)) (ignore-errors (g@ 'z)) (ignore-errors (g@ 1 2 3 'a)) (ignore-errors (g@ 'z 'a 'b 'c 2)) (ignore-errors (g@))
`},
		gsec{name: "slots", q: 4, t: 5, rules: `
P: 0 (let ((n 0)) (defclass p@ () ((s $O) (u :initarg u :accessor u@ :boundp ub@))) (let ((o (create (class p@) $I)) (z nil)) $A (list n (ub@ o) (ignore-errors (u@ o)) $V)))
P: 0 (let ((n 0)) (defclass p@ () ((s $O))) (defclass q@ (p@) ((s $O2) (u :initarg u :accessor u@ :boundp ub@))) (let ((o (create (class q@) $I)) (z nil)) $A (list n (ub@ o) (ignore-errors (u@ o)) $V)))
P: 0 (let ((n 0)) (defclass p@ () ((s :initform (tr 1) :initarg s :accessor s@ :boundp sb@))) (defclass q@ () ((s :initform (tr 2) :initarg s2 :reader s2@) (u :initarg u :accessor u@ :boundp ub@))) (defclass r@ (p@ q@) ($X)) (defclass w@ (q@ p@) ($X)) (let ((o (create (class r@) $I)) (z (create (class w@) $I))) $A (list n (ub@ o) (ignore-errors (u@ o)) (s@ z) $V)))
O: 0 :accessor s@ :initarg s :boundp sb@
O: 0 :reader s@ :writer set-s@ :initarg s :initarg s0 :boundp sb@ :initform (setq n (+ n 1))
O: 0 :accessor s@ :boundp sb@ :initform (tr n)
O2: 0 :initarg s2
O2: 0 :initform (tr 'sub)
O2: 0 :initarg s2 :initform (progn (setq n (+ n 10)) 'sub2)
O2: 0 :accessor t@
X: 0 (x :initform 9)
X: 0 (s :initform (tr 3))
X: 0 (x :initarg xx :accessor xx@)
I: 0 'u 5
I: 1 's (tr 6) $I
I: 1 's2 (tr 7) $I
I: 1 'u (tr 8)
I: 1 's0 (tr 9)
I: 1 's nil $I
I: 1 (tr 4) (tr 5)
A: 0 nil
A: 1 (setf (s@ o) $E)
A: 1 (set-s@ $E o)
A: 1 (setf (u@ o) $E)
A: 1 (progn $A $A)
A: 1 (setq z (create (class p@)))
A: 1 (let ((n 100)) (setq z (create (class p@))))
A: 1 (setf (s@ z) $E)
E: 0 n
E: 0 nil
E: 1 (list (s@ o))
V: 0 (sb@ o)
V: 1 (ignore-errors (s@ o)) $V
V: 1 (ignore-errors (list (sb@ z) (s@ z))) $V
V: 1 (ignore-errors (eq z o)) $V
V: 1 (ignore-errors (eql (s@ o) (s@ o))) $V
V: 1 (ignore-errors (s@ 5)) $V
`},
		gsec{name: "initialize-object", q: 3, t: 4, rules: `
P: 0 (let ((n 0)) (defclass p@ () ((s $O :boundp sb@ :accessor s@) (u $N :boundp ub@ :accessor u@) (v :initarg c :boundp vb@ :accessor v@))) (let ((o (create (class p@) $I))) (list $A (sb@ o) (ub@ o) (vb@ o) (ignore-errors (s@ o)) (ignore-errors (u@ o)) (ignore-errors (v@ o)) n)))
P: 0 (let ((n 0)) (defclass b@ () ((s $O :boundp sb@ :accessor s@))) (defclass p@ (b@) ((u $N :boundp ub@ :accessor u@) (v :initarg c :boundp vb@ :accessor v@))) (let ((o (create (class p@) $I))) (list $A (sb@ o) (ub@ o) (vb@ o) (ignore-errors (s@ o)) (ignore-errors (u@ o)) (ignore-errors (v@ o)) n)))
O: 0 :initarg a
O: 0 :initarg a :initform (setq n (+ n 1))
O: 1 :initform (setq n (+ n 1))
N: 0 :initarg a :initarg b
N: 0 :initarg b :initform (list 7)
I: 0
I: 1 'a 1
I: 1 'b nil
I: 1 'c (list 2)
I: 1 'c 2 'a 1
A: 0 (eq o (initialize-object o $J))
A: 1 (progn $A $A)
A: 1 (progn (setf (s@ o) 'set) $A)
A: 1 (progn (setf (u@ o) nil) $A)
J: 0
J: 1 'a 5
J: 1 'b (list 6)
J: 1 'c nil 'a 7
J: 1 'c n
J: 1 'b
J: 1 5 6
`},
		gsec{name: "several names", q: 4, t: 5, rules: `
P: 0 (defclass p@ () ((s $O) (u $N))) (list $I)
P: 0 (defclass p@ () ((s $O) (u $N))) (defclass q@ (p@) ((s :initarg b :initarg d))) (list $J)
P: 0 (defclass p@ () ((s $N))) (defclass q@ (p@) ((u $O))) (list $J)
O: 0 :initarg a :initarg b $W
N: 0 :initarg c :initarg b $W
N: 0 :initarg b :initarg a $W
N: 0 :initarg c :initarg d $W
W: 0
W: 1 :accessor x@ :accessor y@
W: 1 :accessor y@ :reader x@ :reader z@
W: 1 :writer set-x@ :writer set-z@ :reader y@
W: 1 :boundp bx@ :boundp by@ :accessor z@
I: 0 $K p@ $L
J: 0 $K q@ $L
J: 0 $K p@ $L
K: 0 $T (create
T: 0 (let ((o
L: 1 'a 1)))  $R)
L: 1 'b 1))) $R)
L: 1 'a 1 'b 2))) $R)
L: 1 'b 1 'a 2))) $R)
L: 1 'c 1 'b 2))) $R)
L: 1 'd 1 'b 2 'a 3))) $R)
L: 1 ))) $R)
R: 0 (list $S (ignore-errors (x@ o)) (ignore-errors (y@ o)) (ignore-errors (z@ o)) (ignore-errors (bx@ o)) (ignore-errors (by@ o)))
S: 0 nil
S: 1 (ignore-errors (set-x@ 8 o)) (ignore-errors (set-y@ 9 o))
S: 1 (ignore-errors (set-z@ 7 o)) $S
S: 1 (ignore-errors (setf (z@ o) 6)) (ignore-errors (setf (y@ o) 5))
`},
		gsec{name: "definitions again", q: 3, t: 5, rules: `
P: 0 (defclass a@ () ()) (defgeneric g@ (x)) (let ((f #'g@)) (list $X))
X: 0 $C
X: 1 (defmethod g@ ((x a@)) $B) $X
X: 1 (defmethod g@ ((x <integer>)) $B) $X
X: 1 (defmethod g@ ((x <object>)) $B) $X
X: 1 (defgeneric g@ (x)) $X
X: 1 (progn (defun g@ (x) $B) 'defun) $X
X: 1 (progn (defgeneric g@ (x y)) (defmethod g@ ((x <object>) (y <object>)) (list 'two x y))) (ignore-errors (g@ 1 2)) $X
X: 1 $C $X
B: 0 'b1
B: 0 'b2
C: 0 (ignore-errors (g@ (create (class a@)))) (ignore-errors (g@ 1)) (ignore-errors (g@ 's)) (ignore-errors (funcall f 1))
`},
		gsec{name: "hierarchy", q: 2, t: 3, rules: `
P: 0 (defclass a@ () ()) (defclass b@ (a@) ()) (defclass c@ () ()) (defclass d@ (b@ c@) ()) (list $X)
P: 0 (defclass a@ (<error>) ((v :initarg v :reader v@))) (defclass b@ (a@) ()) (defclass c@ (<simple-error>) ()) (defclass d@ (a@ <program-error>) ()) (list $X)
X: 0 1
X: 1 (subclassp (class $C) (class $C)) $X
X: 1 (instancep (create (class $U)) (class $C)) $X
X: 1 (class-of (create (class $U))) $X
X: 1 (ignore-errors (assure $C (create $U))) $X
X: 1 (eq (class-of (create $U)) (class $C)) $X
X: 1 (catch 'k (with-handler (lambda (c) (throw 'k (list (class-of c) (instancep c $C)))) (signal-condition (create (class $U)) t))) $X
C: 0 a@
C: 0 b@
C: 0 c@
C: 0 d@
C: 0 <object>
C: 0 <error>
C: 0 <simple-error>
C: 0 <program-error>
C: 0 <integer>
U: 0 a@
U: 0 b@
U: 0 c@
U: 0 d@
`},
		gsec{name: "methods", q: 3, t: 4, rules: `
P: 0 (defclass a@ () ((s :initarg s :accessor s@))) (let ((n 1) (k nil)) (defgeneric g@ (x)) (defmethod g@ ((x a@)) $B) (defmethod g@ ((x <integer>)) $B) (defmethod g@ ((x <object>)) (list 'o x)) (let ((n 50) (o (create (class a@) 's 3))) (list (block e (catch 'c $C)) n (s@ o) (if k (funcall k)))))
B: 0 (setq n (+ n 1))
B: 1 (progn $B (list x n))
B: 1 (g@ 'sym)
B: 1 (let ((n 7)) $B)
B: 1 (if (integerp x) (if (> x 0) (g@ (- x 1)) 'zero) $B)
B: 1 (setf (s@ x) (list n))
B: 1 (progn (setq k (lambda () (list n))) $B)
B: 1 (throw 'c n)
B: 1 (list (g@ "s") $B)
C: 0 (g@ o)
C: 0 (g@ 2)
C: 1 (list $C $C)
C: 1 (funcall #'g@ $C)
C: 1 (mapcar #'g@ (list o 1 'z))
C: 1 (apply #'g@ (list $C))
C: 1 (let ((n 9) (x 8)) $C)
C: 1 (generic-function-p #'g@)
C: 1 (progn (defmethod g@ ((x <symbol>)) (list 'new n)) $C)
C: 1 (progn (defmethod g@ ((x <integer>)) (list 'replaced x n)) $C)
`})
}
