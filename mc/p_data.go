package main

// P15, P16, P17: data structures, explored as sequences of operations on a
// small heap of shared objects.

func init() {
	gramProp("P15", "every sequence of list operations up to the stated length over variables that share structure; values, effects and the identity of every cons are compared", modelAssumptions,
		gsec{name: "operations", q: 1, t: 3, graph: true, rules: `
P: 0 (let* ((a (list 1 2 3)) (b (cons 'x (cdr a))) (c nil)) $O (list a b c))
P: 0 (let* ((a (list (cons 1 2) (cons 'k 3))) (b (car a)) (c (cons b a))) $O (list a b c))
O: 0 $S
O: 1 $S $S
O: 2 $T $T $T
O: 3 $U $U $U $U
T: 0 (setq c $N)
T: 0 (tr (set-car 9 $H))
T: 0 (tr (set-cdr b $H))
T: 0 (tr (set-cdr c $H))
T: 0 (setf (nth 1 $H) c)
U: 0 (setq b (cons 8 c))
U: 0 (setq c (cdr a))
U: 0 (setq c (append b c))
U: 0 (setq a (reverse b))
U: 0 (setq c (mapcar #'list a b))
U: 0 (setq b (member 2 a))
U: 0 (setf (cdr $H) c)
U: 0 (setf (car $H) b)
U: 0 (dolist (v $H) (setq c (cons v c)))
S: 0 (setq c $N)
S: 0 (setq b $N)
S: 0 (tr (set-car $A $H))
S: 0 (tr (set-cdr $Q $H))
S: 0 (tr (setf (car $H) $A))
S: 0 (tr (setf (cdr $H) $Q))
S: 0 (tr (setf (second $H) $A))
S: 0 (tr (setf (third $H) $A))
S: 0 (tr (setf (cadr $H) $A))
S: 0 (tr (setf (cddr $H) $Q))
S: 0 (tr (setf (cdddr $H) $Q))
S: 0 (tr (setf (nth 1 $H) $A))
S: 0 (tr (setf (nthcdr 2 $H) $Q))
S: 0 (tr (setf (elt $H 1) $A))
S: 0 (dolist (v $H) (tr v) (setq c (cons v c)))
A: 0 9
A: 0 c
Q: 0 nil
Q: 0 b
Q: 0 c
H: 0 a
H: 0 b
H: 0 c
H: 0 (cdr a)
H: 0 (cdr b)
N: 0 (cons 7 $H)
N: 0 (cons $H c)
N: 0 (list a b)
N: 0 (append $H b)
N: 0 (append a $H)
N: 0 (append a nil $H)
N: 0 (reverse $H)
N: 0 (member (car $H) $H)
N: 0 (member 2 $H)
N: 0 (assoc 'k $H)
N: 0 (mapcar (lambda (v) v) $H)
N: 0 (mapcar #'cons a $H)
N: 0 (mapc (lambda (v) (tr v)) $H)
N: 0 (mapl (lambda (v) (tr v)) $H)
N: 0 (maplist (lambda (v) v) $H)
N: 0 (mapcan (lambda (v) (list v)) $H)
N: 0 (mapcon (lambda (v) (list v)) $H)
N: 0 (nthcdr 1 $H)
N: 0 (subseq $H 1 2)
N: 0 (nreverse (append $H nil))
N: 0 (cdr $H)
N: 0 (car $H)
`},
		gsec{name: "mapping and sharing", q: 1, t: 2, graph: true, rules: `
P: 0 (let* ((a (list 1 2)) (b (list 3 nil)) (k (list 7 8)) (n 0) (c (list a k nil)) (r $M)) (list a b k c r))
P: 0 (let* ((a (list 1 2)) (b (list 3 nil)) (k (list 7 8)) (n 0) (c (list a k nil)) (r $M)) (set-car 'z r) (list a b k c r))
M: 0 (mapcar $F $L)
M: 0 (mapcan $F $L)
M: 0 (maplist $F $L)
M: 0 (mapcon $F $L)
M: 0 (mapc $F $L)
M: 0 (mapl $F $L)
M: 0 (append $L $L)
M: 0 (append $L $L $L)
M: 0 (append $L $L nil)
M: 0 (append $L nil nil)
M: 0 (append $L nil nil $L)
M: 0 (apply #'append c)
M: 0 (apply #'append $F0 (list $L $L))
M: 0 (apply #'list $L)
M: 0 (apply $F2 $L $L (list))
M: 0 (funcall (lambda (&rest r) r) $L $L)
M: 0 (apply (lambda (&rest r) r) $L)
M: 0 (apply (lambda (x &rest r) (list x r)) $L $L)
M: 0 (mapcar $F2 $L $L)
M: 0 (mapcan $F2 $L $L)
M: 0 (maplist $F2 $L $L)
M: 0 (mapcon $F2 $L $L)
M: 0 (mapc $F2 $L $L)
M: 0 (mapl $F2 $L $L)
M: 0 (create-list 2 $L)
M: 0 (reverse $L)
M: 0 (nreverse (list $L $L))
M: 0 (subseq c 1 3)
M: 0 (member $L c)
M: 0 (assoc 7 (list b k a))
M: 0 (last $L)
M: 0 ` + "`(,$L ,@$L)" + `
M: 0 ` + "`(,@$L ,@$L)" + `
M: 0 ` + "`(,@$L . ,$L)" + `
M: 0 ` + "`(x (,@$L))" + `
M: 1 (list $K $M)
M: 1 (append $K $M)
K: 0 (append a k nil)
K: 0 (reverse c)
K: 0 (cons k a)
K: 0 (setq k (cdr k))
K: 0 (set-cdr nil a)
M: 1 (list (ignore-errors $M))
F: 0 (lambda (x) $V)
F: 0 (lambda (x) (setq n (+ n 1)) (if (= n 1) $V $V))
F0: 0 nil
F0: 0 k
F2: 0 (lambda (x y) $V)
F2: 0 (lambda (x y) (setq n (+ n 1)) (if (= n 2) $V y))
F2: 0 #'cons
F2: 0 #'list
F2: 0 #'append
V: 0 nil
V: 0 k
V: 0 x
V: 0 (list x)
V: 0 (tr 5)
L: 0 a
L: 0 b
L: 0 c
L: 0 (cdr a)
L: 0 nil
`},
		gsec{name: "functions", q: 2, t: 3, graph: true, rules: `
P: 0 (list $E)
E: 0 (car $L)
E: 0 (cdr $L)
E: 0 (caar $L)
E: 0 (cadr $L)
E: 0 (cddr $L)
E: 0 (caddr $L)
E: 0 (cdddr $L)
E: 0 (cadddr $L)
E: 0 (first $L)
E: 0 (second $L)
E: 0 (third $L)
E: 0 (rest $L)
E: 0 (nth $N $L)
E: 0 (nthcdr $N $L)
E: 0 (last $L)
E: 0 (length $L)
E: 0 (reverse $L)
E: 0 (nreverse $L)
E: 0 (append $L $L)
E: 0 (append $L $L $L)
E: 0 (append)
E: 0 (append $L)
E: 0 (member $X $L)
E: 0 (assoc $X $L)
E: 0 (create-list $N $X)
E: 0 (elt $L $N)
E: 0 (subseq $L $N $N)
E: 0 (mapcar #'list $L $L)
E: 0 (mapcar #'list $L $L $L)
E: 0 (mapcar (lambda (x) (tr x)) $L)
E: 0 (mapcar #'+ $L '(1 2 3 4))
E: 0 (mapc #'tr $L)
E: 0 (mapc (lambda (x y) (tr (list x y))) $L $L)
E: 0 (mapcan #'list $L $L)
E: 0 (mapcan (lambda (x) (if (consp x) (list x x))) $L)
E: 0 (mapcan (lambda (x) x) '((1) nil (2 3)))
E: 0 (maplist #'list $L $L)
E: 0 (maplist (lambda (x) (length x)) $L)
E: 0 (mapl (lambda (x y) (tr (list x y))) $L $L)
E: 0 (mapcon #'list $L $L)
E: 0 (mapcon (lambda (x) (if (consp (cdr x)) (list (cadr x)))) $L)
E: 0 (consp $L)
E: 0 (atom $L)
E: 0 (listp $L)
E: 0 (null $L)
E: 0 (equal $L $L)
E: 0 (eq $L $L)
E: 0 (apply #'list $L)
E: 0 (apply #'list $X $L)
E: 0 (apply #'+ 1 '(2 3))
E: 1 (list (ignore-errors $E))
E: 1 (let ((l $L)) (list (eq l (append l)) (eq l (append nil l)) (eq l (reverse l)) (equal l (reverse (reverse l)))))
E: 1 (let ((l $L)) (list (eq (member 2 l) (cdr l)) (eq (assoc 'a l) (car l)) (eq l (mapc #'list l)) (eq l (mapl #'list l))))
E: 1 (car $M)
E: 1 (cons $X $M)
L: 0 nil
L: 0 '(1)
L: 0 '(1 2)
L: 0 '(1 2 3 4)
L: 0 '(nil 2)
L: 0 '((1 2) (3) 4)
L: 0 '((a . 1) (b . 2))
L: 0 '((a . 1) c (b . 2))
L: 0 '((1.0 . x) ("s" . y) (nil . z) (#\a . w))
L: 0 '(1 . 2)
L: 0 '(1 2 . 3)
L: 0 5
L: 1 (list $X $X)
L: 1 $M
M: 0 (append '(1 2) '(3))
M: 0 (reverse '(1 2 3))
M: 0 (mapcar #'list '(1 2))
M: 0 (maplist #'car '(1 2))
X: 0 1
X: 0 2
X: 0 'a
X: 0 'b
X: 0 1.0
X: 0 "s"
X: 0 nil
X: 0 #\a
X: 0 '(1)
N: 0 0
N: 0 1
N: 0 2
N: 0 3
N: 0 5
N: 0 -1
`})
}
