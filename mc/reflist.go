package main

// List functions of the reference model.

func nthcdrOf(v V, n int64) V {
	for ; n > 0; n-- {
		p, ok := v.(*Pair)
		if !ok {
			return NIL
		}
		v = p.D
	}
	return v
}

func init() {
	def("nth", 2, 2, func(in *In, a []V) (V, *ab) {
		n, ok := a[0].(int64)
		if _, proper := listOf(a[1]); !ok || n < 0 || !proper {
			return nil, undef("nth arguments")
		}
		if p, ok := nthcdrOf(a[1], n).(*Pair); ok {
			return p.A, nil
		}
		return NIL, nil
	})
	def("nthcdr", 2, 2, func(in *In, a []V) (V, *ab) {
		n, ok := a[0].(int64)
		if _, proper := listOf(a[1]); !ok || n < 0 || !proper {
			return nil, undef("nthcdr arguments")
		}
		return nthcdrOf(a[1], n), nil
	})
	for i, n := range []string{"first", "second", "third"} {
		i, path := int64(i), []string{"a", "ad", "add"}[i]
		setters[n] = setters[map[string]string{"a": "car", "ad": "cadr", "add": "caddr"}[path]]
		if n == "first" {
			continue
		}
		def(n, 1, 1, func(in *In, a []V) (V, *ab) {
			return builtins[map[int64]string{1: "cadr", 2: "caddr"}[i]].builtin(in, a)
		})
	}
	setters["nth"] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
		if len(a) != 2 {
			return undef("place arity")
		}
		n, ok := a[0].(int64)
		if !ok || n < 0 {
			return undef("nth arguments")
		}
		if _, ok := a[1].(*Arr); ok {
			return undef("set nth of an array")
		}
		p, ok := nthcdrOf(a[1], n).(*Pair)
		if !ok {
			return errOnly(in.err("?"))
		}
		if reaches(v, p) {
			return undef("circular structure")
		}
		p.A = v
		return nil
	}
	setters["nthcdr"] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
		n, ok := a[0].(int64)
		if len(a) != 2 || !ok || n < 1 {
			return undef("nthcdr arguments")
		}
		p, ok := nthcdrOf(a[1], n-1).(*Pair)
		if !ok {
			return errOnly(in.err("?"))
		}
		if reaches(v, p) {
			return undef("circular structure")
		}
		p.D = v
		return nil
	}
	for _, s := range []string{"car", "cdr", "cadr", "cddr", "caddr", "cdddr", "cadddr", "nth", "nthcdr"} {
		s := s
		n := 2
		if s[0] == 'n' {
			n = 3
		}
		def("set-"+s, n, n, func(in *In, a []V) (V, *ab) {
			if e := setters[s](in, a[0], a[1:], nil, nil); e != nil {
				return nil, e
			}
			return a[0], nil
		})
	}
}
