package main

// The add-on functions of /repo/pkg in the reference model.

func init() {
	def("subst", 3, 3, func(in *In, a []V) (V, *ab) {
		var sub func(v V) (V, *ab)
		sub = func(v V) (V, *ab) {
			if _, ok := v.(string); ok {
				if _, ok := a[1].(string); ok {
					return nil, undef("identity of strings")
				}
			}
			if eql(v, a[1]) {
				return a[0], nil
			}
			p, ok := v.(*Pair)
			if !ok {
				return v, nil
			}
			x, e := sub(p.A)
			if e != nil {
				return nil, e
			}
			y, e := sub(p.D)
			if e != nil {
				return nil, e
			}
			return &Pair{A: x, D: y}, nil
		}
		return sub(a[2])
	})
}
