package main

// P17: hash tables and property lists as finite maps.

import "strconv"

// The property lists of the model, by symbol and then by name.
type propKey struct{ sym, name Sym }

func init() {
	needSyms := func(a []V) (propKey, bool) {
		s, ok1 := a[0].(Sym)
		n, ok2 := a[1].(Sym)
		return propKey{s, n}, ok1 && ok2
	}
	def("property", 2, 2, func(in *In, a []V) (V, *ab) {
		k, ok := needSyms(a)
		if !ok {
			return nil, undef("property of a non-symbol")
		}
		v, ok := in.props[k]
		if !ok {
			return in.err("?")
		}
		return v, nil
	})
	set := func(in *In, v V, a []V) *ab {
		k, ok := needSyms(a)
		if !ok {
			return undef("property of a non-symbol")
		}
		if in.props == nil {
			in.props = map[propKey]V{}
		}
		in.props[k] = v
		return nil
	}
	def("set-property", 3, 3, func(in *In, a []V) (V, *ab) { return a[0], set(in, a[0], a[1:]) })
	setters["property"] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
		if len(a) != 2 {
			return undef("place arity")
		}
		return set(in, v, a)
	}
	def("remove-property", 2, 2, func(in *In, a []V) (V, *ab) {
		k, ok := needSyms(a)
		if !ok {
			return nil, undef("property of a non-symbol")
		}
		v, ok := in.props[k]
		if !ok {
			return NIL, nil
		}
		delete(in.props, k)
		return v, nil
	})

	keys := `
K: 0 1
K: 0 1.0
K: 0 'a
K: 0 "k"
K: 0 #\a
K: 0 :a
K: 1 "K"
K: 1 "a"
K: 1 2
K: 1 'b
`
	dump := `(list (hash-table-count h) (hash-table-count g) (mapcar (lambda (k) (list (gethash k h) (gethash k g))) (list 1 1.0 'a "k" #\a :a "K" "a" 2 'b)))`
	op := ""
	for cost, steps := range []string{"$S", "$S $S", "$S $S $S", "$Z $Z $Z $Z", "$Z $Z $Z $Z $Z"} {
		op += "O: " + strconv.Itoa(cost) + " " + steps + "\n"
	}
	gramProp("P17", "every sequence of hash-table and property operations up to the stated length over tables that are shared and keys of every kind, followed by a look-up of every key", modelAssumptions,
		gsec{name: "hash tables", q: 2, t: 4, graph: true, rules: `
P: 0 (let* ((h (make-hash-table)) (g h) (x (list 1))) $O (list ` + dump + ` (eq h g) x))
P: 0 (let* ((h (make-hash-table)) (g (make-hash-table)) (x (list 1))) (set-gethash 'old 'a g) (setf (gethash "k" h) x) $O (list ` + dump + ` (eq h g) x))
` + op + keys + `
S: 0 (tr (setf (gethash $K h) $V))
S: 0 (tr (set-gethash $V $K g))
S: 0 (tr (remhash $K h))
S: 0 (tr (gethash $K g))
S: 0 (clrhash h)
S: 0 (setq g h)
S: 1 (setf (gethash $K h) (gethash $K g))
S: 1 (set-car 7 x)
S: 1 (setf (gethash 'a g) (list 1))
S: 1 (setq g (make-hash-table))
S: 1 (tr (list (hash-table-count h) (equal h g) (eql h g)))
Z: 0 (set-gethash x $Y h)
Z: 0 (set-gethash 3 $Y g)
Z: 0 (remhash $Y h)
Z: 0 (remhash $Y g)
Z: 0 (clrhash g)
Z: 0 (setq g h)
Y: 0 1
Y: 0 "k"
Y: 0 'a
V: 0 8
V: 0 x
V: 1 nil
V: 1 h
V: 1 (list 1)
`},
		gsec{name: "properties", worlds: 30, q: 3, t: 4, rules: `
P: 0 $S $R
P: 1 $S $S $R
P: 2 $S $S $S $R
P: 3 $Z $Z $Z $Z $R
P: 4 $Z $Z $Z $Z $Z $R
R: 0 (mapcar (lambda (s) (mapcar (lambda (n) (catch 'e (with-handler (lambda (c) (throw 'e 'none)) (property s n)))) '(p@ q@ a@))) '(a@ b@ p@))
S: 0 (tr (set-property $V $Y $N))
S: 0 (tr (setf (property $Y $N) $V))
S: 0 (tr (remove-property $Y $N))
S: 0 (tr (catch 'e (with-handler (lambda (c) (throw 'e 'none)) (property $Y $N))))
Z: 0 (tr (set-property 1 $Y 'p@))
Z: 0 (set-property 2 'a@ $N)
Z: 0 (tr (remove-property $Y 'p@))
Z: 0 (tr (remove-property 'a@ $N))
Y: 0 'a@
Y: 0 'b@
Y: 1 'p@
N: 0 'p@
N: 0 'q@
N: 1 'a@
V: 0 1
V: 0 '(2)
V: 1 nil
`},
	)
}
