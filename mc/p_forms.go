package main

func init() {
	// ---- P06 control-flow forms -------------------------------------------
	gramProp("P06", "every program of the control-form grammars up to the stated size; test and body forms are traced, so skipped, repeated or reordered evaluation shows", modelAssumptions,
		gsec{name: "conditionals", q: 2, t: 3, rules: `
P: 0 (list 'r $E)
E: 0 nil
E: 0 (tr 1)
E: 0 (tr nil)
E: 1 (if $E $E)
E: 1 (if $E $E $E)
E: 1 (cond ($E $E))
E: 1 (cond ($E))
E: 1 (cond ($E) ($E $E) (t))
E: 1 (cond ($E $E $E) (t $E))
E: 1 (cond)
E: 1 (and $E $E)
E: 1 (and $E)
E: 1 (and $E $E $E)
E: 1 (or $E $E)
E: 1 (or $E $E $E)
E: 1 (and)
E: 1 (or)
E: 1 (not $E)
E: 1 (when $E $E $E)
E: 1 (unless $E $E $E)
E: 1 (when $E)
E: 1 (unless $E)
E: 1 (prog1 $E $E)
E: 1 (prog2 $E $E $E)
E: 1 (progn $E $E)
E: 1 (progn)
`},
		gsec{name: "values that look like forms", q: 1, t: 2, rules: `
P: 0 (list 'r $E)
E: 0 nil
E: 0 'a
E: 0 (list 'tr 2)
E: 0 ''a
E: 0 (tr 'nil)
E: 0 'tr
E: 1 (if $E $E)
E: 1 (if $E $E $E)
E: 1 (cond ($E $E))
E: 1 (cond ($E))
E: 1 (cond ($E) ($E $E) (t))
E: 1 (cond ($E $E $E) (t $E))
E: 1 (cond)
E: 1 (and $E $E)
E: 1 (and $E)
E: 1 (and $E $E $E)
E: 1 (or $E $E)
E: 1 (or $E $E $E)
E: 1 (and)
E: 1 (or)
E: 1 (not $E)
E: 1 (when $E $E $E)
E: 1 (unless $E $E $E)
E: 1 (when $E)
E: 1 (unless $E)
E: 1 (prog1 $E $E)
E: 1 (prog2 $E $E $E)
E: 1 (progn $E $E)
E: 1 (progn)
`},
		gsec{name: "case", q: 4, t: 5, rules: `
P: 0 (list $F)
F: 0 (case $K $C)
F: 0 (case $K $C $C)
F: 0 (case $K $C $C (t (tr 'else) 'e))
F: 0 (case-using $Q $K $C)
F: 0 (case-using $Q $K $C $C (t 'e))
F: 0 (case $K)
K: 0 (tr 1)
K: 0 1.0
K: 0 'a
K: 0 nil
K: 0 t
K: 0 #\a
K: 0 #\A
K: 0 "s"
K: 0 '(1)
K: 0 (car '(b))
K: 1 (case $K $C)
Q: 1 #'eql
Q: 1 #'equal
Q: 1 #'=
Q: 1 (lambda (x y) (tr (list x y)) (eql x y))
Q: 1 (lambda (x y) (consp x))
Q: 1 (lambda (x y) (tr y) nil)
C: 1 ((1) 'one)
C: 1 ((a b) (tr 'ab) 'ab)
C: 1 ((1.0 #\a) 'f)
C: 1 ((nil) 'n)
C: 1 (() 'never)
C: 1 ((t) 'tt)
C: 1 ((x "s" (1)) 'xs)
C: 1 ((2 3 1) (tr 'n) 'n3)
C: 1 ((a))
C: 2 ((2) $F)
C: 2 ((1 a) $F 'last)
`},
		gsec{name: "loops", q: 4, t: 5, rules: `
P: 0 (let ((n 0) (i 9)) (list (block done $L) n i))
L: 0 (while (< n 3) (setq n (+ n 1)) $B)
L: 0 (while (tr (< n 2)) $B (setq n (+ n 1)))
L: 0 (while nil $B)
L: 0 (for ((i 0 (+ i 1))) ((= i 3) $R) $B)
L: 0 (for ((i 0 (+ i 1)) (j 10 (+ j i))) ((= i 3) $R (list i j)) (tr j) $B)
L: 0 (for ((i 0 (+ i 1)) (c n)) ((= i 2) c) (setq c (+ c 5)) $B)
L: 0 (for ((i (tr 0) (tr (+ i 1))) (n (tr i) (tr (+ n i)))) ((tr (> i 2)) (tr n) i) $B)
L: 0 (for ((i 0 (+ i 1))) ((= i 2)) $B)
L: 0 (for ((i nil (cons n i)) (j 'j i) (k (list n) j)) ((> n 2) (list i j k)) (setq n (+ n 1)) $B)
L: 0 (progn (setq i (list n)) (list (psetq i (list 'p i) n i) i n) $B)
L: 0 (for ((i 2)) ((= i 0) 'z) (setq i (- i 1)) $B)
L: 0 (for () ((> n 2) n) (setq n (+ n 1)) $B)
L: 0 (dolist (i (tr '(a b c))) $B (setq n (+ n 1)))
L: 0 (dolist (i (list n 5)) (setq n (+ n i)) $B)
L: 0 (dolist (i nil) $B)
L: 0 (dotimes (i (tr 3)) $B (setq n (+ n i)))
L: 0 (dotimes (i 0) $B)
L: 0 (let ((fs nil)) (dolist (i '(1 2)) (let ((k i)) (setq fs (cons (lambda () (list k n)) fs))) $B) (mapcar #'funcall fs))
L: 0 (let ((fs nil)) (for ((i 0 (+ i 1))) ((= i 2)) (let ((k i)) (setq fs (cons (lambda () (list k n)) fs))) $B) (mapcar #'funcall fs))
R: 0 'res
R: 1 (tr i)
R: 1 (progn $B 'rr)
B: 0 nil
B: 0 (tr i)
B: 1 (if (= n 1) $X)
B: 1 (progn $B $B)
B: 1 (setq i $V)
B: 1 (let ((i 0)) $B)
B: 1 (let ((n 0)) $B)
B: 1 (while (< n 2) (setq n (+ n 1)) $B)
B: 1 (dolist (q '(1 2)) (tr q) $B)
B: 1 (dotimes (q 2) (tr q) $B)
B: 1 (block inner $B (tr 'ni))
B: 1 (for ((q 0 (+ q 1))) ((= q 2)) $B)
X: 0 (return-from done 'early)
X: 0 (setq n 7)
X: 1 (return-from inner 1)
X: 1 (return $V)
V: 0 5
V: 0 n
`})

	// ---- P07 dynamic variables ---------------------------------------------
	gramProp("P07", "every program of the dynamic-variable grammars up to the stated size", modelAssumptions,
		gsec{name: "forms", q: 3, t: 4, rules: `
P: 0 (defdynamic d@ 1) (defdynamic e@ 2) (defun g@ () (list (dynamic d@) (dynamic e@))) (list (block a (catch 'c $E)) (g@))
P: 0 (defdynamic d@ 1) (defun g@ () (ignore-errors (dynamic e@))) (list (ignore-errors (block a (catch 'c $E))) (g@) (ignore-errors (dynamic e@)))
P: 0 (defdynamic d@ 1) (defglobal d@ 'glob) (defun g@ () (list (dynamic d@) d@)) (let ((d@ 'lex) (e@ 5)) (defdynamic e@ 6) (list (block a (catch 'c $E)) (g@) d@ (dynamic e@)))
E: 0 (dynamic d@)
E: 0 (g@)
E: 0 (return-from a (g@))
E: 0 (throw 'c (g@))
E: 0 (car 5)
E: 1 (dynamic-let ((d@ $V)) $E)
E: 1 (dynamic-let ((e@ $V)) $E)
E: 1 (dynamic-let ((d@ (dynamic e@)) (e@ (dynamic d@))) $E)
E: 1 (dynamic-let ((d@ $E) (e@ 'second)) (list (g@) $E))
E: 1 (let ((k (dynamic-let ((d@ $V)) (lambda () $E)))) (funcall k))
E: 1 (let ((k (lambda () $E))) (dynamic-let ((d@ $V)) (funcall k)))
E: 1 (setf (dynamic d@) $V)
E: 1 (set-dynamic $V d@)
E: 1 (progn $E $E)
E: 1 (list $E $E)
E: 1 (ignore-errors $E)
E: 1 (mapcar (lambda (x) (dynamic-let ((d@ x)) $E)) '(7 8))
E: 1 (unwind-protect $E (tr (g@)))
E: 1 (defdynamic d@ $V)
E: 1 (tagbody (dynamic-let ((d@ 4)) (tr (g@)) (go x)) x $E)
E: 1 (with-handler (lambda (c) (tr (g@)) (throw 'c (g@))) $E)
V: 0 10
V: 0 (dynamic d@)
V: 1 (list (dynamic d@))
`},
		gsec{name: "recursion", q: 3, t: 4, rules: `
P: 0 (defdynamic d@ 0) (defdynamic e@ 'e) (defun g@ () (list (dynamic d@) (dynamic e@))) (defun f@ (n) $F) (list (catch 'c (f@ 2)) (g@))
F: 0 (if (= n 0) (g@) $B)
F: 0 (cond ((= n 0) (list 'z (g@))) (t $B))
F: 1 (dynamic-let ((d@ n)) $F)
F: 1 (dynamic-let ((e@ (dynamic d@)) (d@ (list n (dynamic e@)))) $F)
B: 0 (f@ (- n 1))
B: 0 (list (f@ (- n 1)) (g@))
B: 0 (progn (f@ (- n 1)) (g@))
B: 1 (dynamic-let ((d@ (list n (dynamic d@)))) $B)
B: 1 (dynamic-let ((d@ n) (e@ (f@ (- n 1)))) $B)
B: 1 (dynamic-let ((d@ (f@ 0))) $B)
B: 1 (let ((k (lambda () (g@)))) (list (funcall k) (progn $B)))
B: 1 (let ((n n)) $B)
B: 1 (let* ((n n) (m (g@))) $B)
B: 1 (progn (set-dynamic n e@) $B)
B: 1 (if (= n 1) $B (dynamic-let ((e@ n)) $B))
B: 1 (unwind-protect $B (tr (g@)))
B: 1 (block b $B)
B: 1 (catch 'k (dynamic-let ((d@ 'k)) $B))
B: 1 (throw 'c $B)
B: 1 (mapcar (lambda (x) $B) '(1))
B: 1 (case n ((1) $B) (t (f@ 0)))
B: 1 (ignore-errors $B)
B: 1 (while t (dynamic-let ((d@ 'w)) (throw 'c $B)))
`})

	// ---- P08 conditions ------------------------------------------------------
	p08 := []gsec{
		gsec{name: "handlers", q: 3, t: 4, rules: `
P: 0 (list 'r (block a (catch 'c $E)))
P: 0 (defdynamic d@ 0) (list (block a (with-handler $H (dynamic-let ((d@ 1)) (list 'body $E)))) (dynamic d@))
E: 0 (error "e" 1)
E: 0 (car 5)
E: 0 (tr 'ok)
E: 0 nov@
E: 0 (nof@ 1)
E: 0 (cerror "c" "m" 1)
E: 0 (/ 1 0)
E: 0 (assure <integer> 'x)
E: 0 (signal-condition (create (class <simple-error>) 'format-string "s" 'format-arguments nil) t)
E: 0 (signal-condition (create (class <simple-error>) 'format-string "s" 'format-arguments nil) nil)
E: 1 (with-handler $H $E)
E: 1 (with-handler $H $E (tr 'after))
E: 1 (list (tr 'p) $E (tr 'q))
E: 1 (ignore-errors $E)
E: 1 (unwind-protect $E (tr 'u))
E: 1 (catch 'c $E)
E: 1 (funcall (lambda () $E))
H: 0 (lambda (c) (return-from a 'ret))
H: 0 (lambda (c) (throw 'c 'thr))
H: 0 (lambda (c) (continue-condition c 'cont))
H: 0 (lambda (c) (continue-condition c))
H: 0 (lambda (c) (tr 'h) (throw 'c (class-of c)))
H: 0 (lambda (c) (tr (instancep c <error>)) (throw 'c (list (instancep c <simple-error>) (instancep c <domain-error>) (instancep c <undefined-entity>) (instancep c <arithmetic-error>))))
H: 0 (lambda (c) (signal-condition c t))
H: 0 (lambda (c) (error "in handler"))
H: 0 (lambda (c) (car 'hh))
H: 1 (lambda (c) (tr 'i) (with-handler $H (signal-condition c t)))
H: 1 (lambda (c) (tr 'o) $E (return-from a 'done))
H: 1 (lambda (c) (if (instancep c <simple-error>) (continue-condition c 'se) (throw 'c $E)))
`},
		gsec{name: "condition parts", q: 3, t: 4, rules: `
P: 0 (catch 'c (with-handler (lambda (c) (throw 'c (list (class-of c) $A))) $E))
P: 0 (defun f@ (c) (throw 'c (list (tr 1) $A))) (catch 'c (with-handler #'f@ $E))
A: 0 1
A: 0 (domain-error-object c)
A: 0 (undefined-entity-name c)
A: 0 (undefined-entity-namespace c)
A: 0 (simple-error-format-string c)
A: 0 (simple-error-format-arguments c)
A: 1 (eq (domain-error-expected-class c) $C)
A: 1 (instancep c $C)
A: 1 (list $A $A)
A: 1 (ignore-errors $A)
C: 0 (class <integer>)
C: 0 (class <error>)
C: 0 (class <simple-error>)
C: 0 (class <program-error>)
C: 0 (class <domain-error>)
C: 0 (class <undefined-entity>)
C: 0 (class <undefined-function>)
C: 0 (class <unbound-variable>)
C: 0 (class <arithmetic-error>)
C: 0 (class <division-by-zero>)
C: 0 (class <control-error>)
C: 0 (class <object>)
C: 0 (class <list>)
C: 0 (class <number>)
E: 0 (error "e~a" 1 'two)
E: 0 (error "none")
E: 0 (cerror "c" "d" 4)
E: 0 (car 5)
E: 0 (cdr 'x)
E: 0 (+ 1 'a)
E: 0 nov@
E: 0 (nof@ 1)
E: 0 #'nof@
E: 0 (dynamic nod@)
E: 0 (/ 7 0)
E: 0 (assure <integer> 'x)
E: 0 (return-from nowhere 1)
E: 0 (throw 'nocatch 1)
E: 0 (go nowhere)
E: 1 (list (tr 2) $E)
E: 1 (ignore-errors $E)
`},
		gsec{name: "condition classes", q: 1, t: 2, rules: `
P: 0 (catch 'c (with-handler (lambda (c) (throw 'c (list (class-of c) $A))) $E))
P: 0 (catch 'c (with-handler (lambda (c) (throw 'c 'outer)) (with-handler (lambda (c) (if (instancep c $C) (throw 'c (list 'in $A)) (signal-condition c t))) $E)))
P: 0 (defgeneric g@ (c)) (defmethod g@ ((c $N)) 'yes) (defmethod g@ ((c <object>)) 'no) (catch 'c (with-handler (lambda (c) (throw 'c (list (g@ c) $A))) $E))
A: 0 1
A: 1 (instancep c $C)
A: 1 (subclassp (class-of c) $C)
A: 1 (ignore-errors (eq c (assure $N c)))
C: 0 (class <error>)
C: 0 (class <program-error>)
C: 0 (class <control-error>)
C: 0 (class <parse-error>)
C: 0 (class <storage-exhausted>)
C: 0 (class <stream-error>)
C: 0 (class <end-of-stream>)
C: 0 (class <arithmetic-error>)
C: 0 (class <division-by-zero>)
C: 0 (class <simple-error>)
C: 0 (class <undefined-entity>)
C: 0 (class <unbound-variable>)
C: 0 (class <undefined-function>)
C: 0 (class <domain-error>)
C: 0 (class <object>)
N: 0 <error>
N: 0 <program-error>
N: 0 <control-error>
N: 0 <parse-error>
N: 0 <storage-exhausted>
N: 0 <stream-error>
N: 0 <end-of-stream>
N: 0 <arithmetic-error>
N: 0 <division-by-zero>
N: 0 <simple-error>
N: 0 <undefined-entity>
N: 0 <unbound-variable>
N: 0 <undefined-function>
N: 0 <domain-error>
E: 0 (error "e")
E: 0 (cerror "a" "b")
E: 0 (car 5)
E: 0 (elt '(1) 5)
E: 0 (elt "abc" 3)
E: 0 (aref (vector 1) 1)
E: 0 nov@
E: 0 (nof@)
E: 0 #'nof@
E: 0 (dynamic nod@)
E: 0 (setq nov@ 1)
E: 0 (/ 1 0)
E: 0 (mod 1 0)
E: 0 (assure <integer> "s")
E: 0 (the <integer> "s")
E: 0 (return-from nob@ 1)
E: 0 (throw 'not 1)
E: 0 (go not)
E: 0 (parse-number "x1")
E: 0 (car)
E: 0 (car 1 2)
E: 0 ((lambda (x) x))
E: 0 ((lambda (x) x) 1 2)
E: 0 (create (class <integer>) 1)
E: 0 (signal-condition 5 nil)
E: 0 (sqrt -1)
E: 0 (make-nothing@ 1)
E: 0 (string-append "a" 1)
E: 0 (symbol-function 'nof@)
E: 0 (funcall 5)
E: 0 (apply #'car 5)
E: 0 (create-array '(-1))
`},
		gsec{name: "continuing", q: 3, t: 4, rules: `
P: 0 (let ((n 0)) (list (with-handler (lambda (c) (setq n (+ n 1)) (continue-condition c (list 'v n))) $E) n))
P: 0 (let ((n 0)) (list (with-handler (lambda (c) (setq n (+ n 1)) (continue-condition c (lambda (:rest x) (cons n x)))) $E) n))
P: 0 (let ((n 0)) (defun f@ (x) $E) (with-handler (lambda (c) (setq n (+ n 1)) (if (< n 3) (continue-condition c n) (throw 'out (list 'out n)))) (catch 'out (list (f@ 1) (f@ 2)))))
P: 0 (defclass my@ (<error>) ((s :initarg s :reader mys@))) (catch 'z (with-handler (lambda (c) (if (instancep c my@) (continue-condition c (mys@ c)) (throw 'z (list 'other)))) (list $E (signal-condition (create (class my@) 's 5) t))))
E: 0 (cerror "a" "b")
E: 0 novar@
E: 0 (nofn@ 1 2)
E: 0 (+ 1 'a)
E: 0 (error "x")
E: 1 (list $E $E)
E: 1 (cons (tr 1) $E)
E: 1 (cerror "a" "b" $E)
E: 1 (let ((v $E)) (list v v))
E: 1 (if $E 'then 'else)
E: 1 (unwind-protect $E (tr 'u))
E: 1 (progn (tr 2) $E)
E: 1 (catch 'k (block b $E))
E: 1 (with-handler (lambda (c) (tr 'inner) (signal-condition c t)) $E)
`}}
	registerConditions(p08)
}
