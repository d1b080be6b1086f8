package main

// P23: backquote and macros.

func init() {
	def("macroexpand", 1, 1, func(in *In, a []V) (V, *ab) {
		xs, ok := listOf(a[0])
		if !ok || len(xs) == 0 {
			return nil, undef("macroexpand of no list")
		}
		s, ok := xs[0].(Sym)
		if !ok {
			return nil, undef("macroexpand of a lambda form")
		}
		m, ok := in.macros[string(s)]
		if !ok {
			return nil, undef("macroexpand of no macro")
		}
		return in.expand(m, xs[1:])
	})
	gramProp("P23", "every backquote template, macro definition and macro use of the grammars up to the stated size; operand forms are traced where they are evaluated", modelAssumptions,
		gsec{name: "backquote", q: 3, t: 4, rules: "P: 0 (let ((x 1) (y '(2 3)) (z nil)) (list `$Q x y z))" + `
Q: 0 a
Q: 0 ,x
Q: 0 ,y
Q: 1 ,$E
Q: 1 ($Q)
Q: 1 ($S)
Q: 1 ($S $Q)
Q: 1 ($Q $S)
Q: 1 ($S . $Q)
Q: 1 ($Q . ,$E)
Q: 1 ($Q . ($S z))
Q: 1 (unquote $E)
Q: 1 (quote $Q)
Q: 1 '$Q
Q: 2 ($S $Q $S)
` + "Q: 2 `$N\n" + `
S: 0 ,@y
S: 0 ,@z
S: 1 ,@$L
E: 0 x
E: 1 (tr y)
E: 1 (car $L)
E: 1 (let ((x $E)) (list x y))
` + "E: 1 `($Q)\n" + `
L: 0 y
L: 0 '(,x ,@y)
L: 1 (list $E)
L: 1 (tr (cdr $L))
` + "L: 1 `($Q $S)\n" + `
N: 0 ,x
N: 0 (b ,,x)
N: 1 (,$Q)
N: 1 (,@$Q)
N: 1 (c ,(d ,x ,@y))
N: 1 (c ,',@y)
`},
		gsec{name: "macros", q: 2, t: 3, worlds: 300, filter: func(s string) bool { return !has("macroexpand")(s) || !has("gensym")(s) }, rules: "P: 0 (defmacro m@ (x :rest r) $T) (let ((x 'cx) (y 'cy) (n 0)) (list $U $U0 x n))" + `
P: 0 (defmacro m@ (x &rest r) (if (consp x) (cons 'list (cons (list 'quote x) r)) $T)) (defun f@ (y n) $U $U) (let ((x 'cx) (y 'cy)) (list (f@ 1 2) x y))
P: 0 (defglobal r@ 5) (defmacro k@ (x) (list 'list x (list 'tr r@))) (defmacro m@ (x :rest r) $T) (let ((x 'cx) (y 'cy) (n 1)) (list $U x))
P: 0 (defmacro k@ (x :rest r) (if r (list 'list x (cons 'k@ r)) x)) (defmacro m@ (x :rest r) $T) (let ((x 'cx) (y 'cy) (n 1)) (list $U x))
` + "T: 0 `(list ,x ,@r)\nT: 0 `(list ,@r ,x . ,r)\nT: 0 `(let ((x 'mx)) (list x ,x ,@r))\nT: 0 `(progn (setq n (list n 'q)) ,x)\nT: 0 `'(,x ,@r)\nT: 0 x\nT: 0 `(tr (mapcar (lambda (y) ,x) (list ,@r)))\nT: 0 (list 'list x (list 'quote r) '(tr y))\nT: 0 (if r `(m@ ,@r) x)\nT: 0 `(k@ ,x ,@r)\nT: 0 (let ((g (gensym))) `(let ((,g ,x)) (list ,g ,g ,@r)))\nT: 0 `(flet ((m@ (a) (list 'inner a ,@r))) (m@ ,x))\n" + `
U0: 0 nil
U0: 1 (macroexpand '(m@ $A))
U0: 1 (funcall (lambda () (m@ $A)))
U: 0 (m@ $A)
U: 0 (m@)
U: 0 (m@ x)
U: 1 (m@ $A $A)
U: 1 (m@ (m@ $A) $A)
U: 1 (m@ $A (tr 2) $A)
U: 1 (flet ((m@ (a) (list 'fn a))) (m@ $A))
U: 1 (labels ((g (a) (m@ a)) (m@ (a) (list 'lb a))) (g $A))
U: 1 (let ((m@ $A)) (m@ m@))
U: 1 (let ((y 'inner)) $U)
U: 1 (ignore-errors $U)
U: 1 '(m@ $A)
U: 1 (cond ((m@ $A) (m@ $A 1)))
U: 1 (catch 'c (m@ (throw 'c 'thrown) $A))
U: 1 (let ((g (lambda (x) (m@ x $A)))) (funcall g 'gx))
U: 1 (quote $U)
A: 0 x
A: 0 (tr y)
A: 0 (setq y (list y))
A: 1 (progn (tr 'a) $A)
A: 1 (m@ y)
A: 1 '(z)
`},
		gsec{name: "macro parameters", q: 3, t: 4, worlds: 300, rules: `
P: 0 (defmacro m@ $L $Q) (let ((a 'oa) (b 'ob) (c 'oc) (r 'or)) (list (ignore-errors $U) a b r))
P: 0 (defmacro m@ $L $Q) (defun f@ (a r) (let ((b 'ob) (c 'oc)) (list (ignore-errors $U) a b r))) (f@ 'oa 'or)
P: 0 (let ((a 'oa) (b 'ob) (c 'oc) (r 'or)) (list (block e (with-handler (lambda (k) (return-from e (class-of k))) (progn (defmacro m@ $L $Q) $U))) a b r))
L: 0 ()
L: 0 (a)
L: 0 (a b)
L: 0 (b a c)
L: 1 (:rest r)
L: 1 (a :rest r)
L: 1 (b a :rest r)
L: 1 (b c a &rest r)
U: 0 (m@ $A)
U: 1 (progn (m@ $A) (m@ $A))
A: 0 
A: 1 $X
A: 1 $X $X
A: 1 $X $X $X
A: 2 $X $X $X $X
X: 0 (tr r)
X: 0 a
X: 0 7
X: 1 (m@ $A)
X: 1 ($X $X)
X: 1 nil
Q: 0 (list 'list (list 'quote a) b '(tr r))
Q: 0 (list 'quote (list a b r))
Q: 1 (progn (tr (list a b r)) (list 'list b a))
` + "Q: 1 `(list ,a ',r)\n"},
	)
}
