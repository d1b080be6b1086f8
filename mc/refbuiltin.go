package main

// Built-in functions of the reference model.

import (
	"errors"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

var builtins = map[string]*Fn{}
var setters = map[string]func(in *In, v V, args []V, place []V, sc *scope) *ab{}

func def(name string, min, max int, f func(in *In, a []V) (V, *ab)) {
	builtins[name] = &Fn{name: name, builtin: f, min: min, max: max}
}

// eql: identity for mutable objects, value for numbers, characters, symbols and
// (immutable) strings.
func eql(a, b V) bool {
	switch x := a.(type) {
	case *Strm, *Arr, *Hash, *Fn, *Cond, *Cls, *Obj, *Pair:
		return a == b
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	}
	return a == b
}

func equal(a, b V) bool {
	switch x := a.(type) {
	case *Pair:
		y, ok := b.(*Pair)
		return ok && equal(x.A, y.A) && equal(x.D, y.D)
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || len(x.dim) != len(y.dim) {
			return false
		}
		for i := range x.dim {
			if x.dim[i] != y.dim[i] {
				return false
			}
		}
		for i := range x.el {
			if !equal(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	}
	return eql(a, b)
}

func isNum(v V) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func toF(v V) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	panic(harnessBug("toF"))
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, false
	}
	return c, true
}

func okF(f float64) (V, *ab) {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, undef("float overflow")
	}
	return f, nil
}

func (in *In) arith2(op byte, a, b V) (V, *ab) {
	if !isNum(a) {
		if _, ok := a.(Str); ok {
			return nil, undef("arithmetic on strings")
		}
		if _, ok := a.(Chr); ok {
			return nil, undef("arithmetic on characters")
		}
		return in.domain(a, "<number>")
	}
	if !isNum(b) {
		return in.domainAny(b)
	}
	x, xi := a.(int64)
	y, yi := b.(int64)
	if xi && yi {
		switch op {
		case '+':
			if c, ok := addOv(x, y); ok || y == 0 {
				return c, nil
			}
		case '-':
			c := x - y
			if (c < x) == (y > 0) || y == 0 {
				return c, nil
			}
		case '*':
			if c, ok := mulOv(x, y); ok {
				return c, nil
			}
		case '/':
			if y == 0 {
				return in.signal(&Cond{class: "<division-by-zero>", b: list(a, b)}, false)
			}
			if !(x == math.MinInt64 && y == -1) {
				return x / y, nil
			}
		}
		return nil, undef("integer overflow")
	}
	f, g := toF(a), toF(b)
	switch op {
	case '+':
		return okF(f + g)
	case '-':
		return okF(f - g)
	case '*':
		return okF(f * g)
	}
	if g == 0 {
		return in.signal(&Cond{class: "<division-by-zero>", b: list(a, b)}, false)
	}
	return okF(f / g)
}

// domainAny is a domain error whose expected class is left open.
func (in *In) domainAny(v V) (V, *ab) {
	return in.signal(&Cond{class: "<domain-error>", a: v}, false)
}

func cmpNum(a, b V) int {
	x, xi := a.(int64)
	y, yi := b.(int64)
	if xi && yi {
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	exact := func(v V) *big.Float {
		f := new(big.Float).SetPrec(200)
		if i, ok := v.(int64); ok {
			return f.SetInt64(i)
		}
		return f.SetFloat64(toF(v))
	}
	return exact(a).Cmp(exact(b))
}

// reaches reports whether target is part of v.
func reaches(v, target V) bool {
	n := 0
	var walk func(v V) bool
	walk = func(v V) bool {
		if n++; n > 2000 {
			return true
		}
		switch x := v.(type) {
		case *Pair:
			return v == target || walk(x.A) || walk(x.D)
		case *Arr:
			if v == target {
				return true
			}
			for _, e := range x.el {
				if walk(e) {
					return true
				}
			}
		case *Hash:
			if v == target {
				return true
			}
			for _, e := range x.vals {
				if walk(e) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

func needCons(in *In, v V) (*Pair, *ab) {
	if p, ok := v.(*Pair); ok {
		return p, nil
	}
	_, a := in.domain(v, "<cons>")
	if a == nil {
		return nil, undef("continued with another value")
	}
	return nil, a
}

func needInt(in *In, v V) (int64, *ab) {
	if p, ok := v.(int64); ok {
		return p, nil
	}
	_, a := in.domain(v, "<integer>")
	if a == nil {
		return 0, undef("continued with another value")
	}
	return 0, a
}

func needStr(in *In, v V) (string, *ab) {
	if p, ok := v.(Str); ok {
		return string(p), nil
	}
	_, a := in.domain(v, "<string>")
	if a == nil {
		return "", undef("continued with another value")
	}
	return "", a
}

func needChr(in *In, v V) (rune, *ab) {
	if p, ok := v.(Chr); ok {
		return rune(p), nil
	}
	_, a := in.domain(v, "<character>")
	if a == nil {
		return 0, undef("continued with another value")
	}
	return 0, a
}

func pred(name string, f func(V) bool) {
	def(name, 1, 1, func(in *In, a []V) (V, *ab) { return boolV(f(a[0])), nil })
}

// seqOf gives the elements of a list, string or vector.
func (in *In) seqOf(v V) ([]V, *ab) {
	switch x := v.(type) {
	case nilT:
		return nil, nil
	case *Pair:
		xs, ok := listOf(x)
		if !ok {
			_, a := in.err("?")
			return nil, a
		}
		return xs, nil
	case Str:
		var xs []V
		for _, r := range string(x) {
			xs = append(xs, Chr(r))
		}
		return xs, nil
	case *Arr:
		if len(x.dim) == 1 {
			return x.el, nil
		}
	}
	_, a := in.err("?")
	return nil, a
}

func init() {
	def("tr", 1, 1, func(in *In, a []V) (V, *ab) {
		in.trace = append(in.trace, show(a[0]))
		return a[0], nil
	})
	for _, op := range []byte("+*") {
		op := op
		def(string(op), 0, -1, func(in *In, a []V) (V, *ab) {
			if len(a) == 0 {
				return map[byte]V{'+': int64(0), '*': int64(1)}[op], nil
			}
			if len(a) == 1 && !isNum(a[0]) {
				switch a[0].(type) {
				case Str, Chr:
					return nil, undef("arithmetic on strings")
				}
				return in.domain(a[0], "<number>")
			}
			v := a[0]
			for _, x := range a[1:] {
				var e *ab
				if v, e = in.arith2(op, v, x); e != nil {
					return nil, e
				}
			}
			return v, nil
		})
	}
	for _, op := range []byte("-/") {
		op := op
		def(string(op), 1, -1, func(in *In, a []V) (V, *ab) {
			if len(a) == 1 {
				if op == '/' || !isNum(a[0]) {
					return nil, undef("one operand")
				}
				if f, ok := a[0].(float64); ok {
					return okF(0 - f)
				}
				return in.arith2('-', int64(0), a[0])
			}
			v := a[0]
			for _, x := range a[1:] {
				var e *ab
				if v, e = in.arith2(op, v, x); e != nil {
					return nil, e
				}
			}
			return v, nil
		})
	}
	cmp := func(name string, f func(int) bool) {
		def(name, 0, -1, func(in *In, a []V) (V, *ab) {
			if len(a) < 2 {
				return nil, undef("comparison of less than two")
			}
			for _, x := range a {
				if !isNum(x) {
					if _, ok := x.(Str); ok {
						return nil, undef("comparison of strings")
					}
					in.loose = false
					return in.err("<domain-error>")
				}
			}
			for i := 1; i < len(a); i++ {
				if !f(cmpNum(a[i-1], a[i])) {
					return NIL, nil
				}
			}
			return T, nil
		})
	}
	cmp("<", func(c int) bool { return c < 0 })
	cmp(">", func(c int) bool { return c > 0 })
	cmp("<=", func(c int) bool { return c <= 0 })
	cmp(">=", func(c int) bool { return c >= 0 })
	def("=", 0, -1, func(in *In, a []V) (V, *ab) {
		if len(a) < 2 {
			return nil, undef("comparison of less than two")
		}
		for _, x := range a {
			if !isNum(x) {
				return nil, undef("= of non-numbers")
			}
		}
		for i := 1; i < len(a); i++ {
			if cmpNum(a[i-1], a[i]) != 0 {
				return NIL, nil
			}
		}
		return T, nil
	})
	def("/=", 2, 2, func(in *In, a []V) (V, *ab) {
		if !isNum(a[0]) || !isNum(a[1]) {
			return nil, undef("/= of non-numbers")
		}
		return boolV(cmpNum(a[0], a[1]) != 0), nil
	})
	def("mod", 2, 2, func(in *In, a []V) (V, *ab) { return in.modrem(a, true) })
	def("rem", 2, 2, func(in *In, a []V) (V, *ab) { return in.modrem(a, false) })
	def("1+", 1, 1, func(in *In, a []V) (V, *ab) { return in.arith2('+', a[0], int64(1)) })
	def("1-", 1, 1, func(in *In, a []V) (V, *ab) { return in.arith2('-', a[0], int64(1)) })
	for _, nm := range []string{"max", "min"} {
		sign := 1
		if nm == "min" {
			sign = -1
		}
		def(nm, 1, -1, func(in *In, a []V) (V, *ab) {
			best := a[0]
			for _, x := range a {
				if !isNum(x) {
					return nil, undef("max of non-number")
				}
			}
			for _, x := range a[1:] {
				if c := cmpNum(x, best) * sign; c > 0 {
					best = x
				} else if c == 0 && !eql(x, best) {
					return nil, undef("max of equal integer and float")
				}
			}
			return best, nil
		})
	}
	round := func(name string, f func(float64) float64) {
		def(name, 1, 1, func(in *In, a []V) (V, *ab) {
			switch x := a[0].(type) {
			case int64:
				return x, nil
			case float64:
				r := f(x)
				if !(r >= -(1<<63) && r < 1<<63) {
					return in.domainAny(x)
				}
				return int64(r), nil
			}
			return in.domain(a[0], "<number>")
		})
	}
	round("floor", math.Floor)
	round("ceiling", math.Ceil)
	round("truncate", math.Trunc)
	round("round", math.RoundToEven)
	def("sqrt", 1, 1, func(in *In, a []V) (V, *ab) {
		if !isNum(a[0]) {
			return in.domainAny(a[0])
		}
		f := toF(a[0])
		if f < 0 {
			return in.domainAny(a[0])
		}
		r := math.Sqrt(f)
		if i, ok := a[0].(int64); ok {
			root := new(big.Int).Sqrt(big.NewInt(i))
			if new(big.Int).Mul(root, root).Cmp(big.NewInt(i)) == 0 {
				return root.Int64(), nil
			}
		}
		return r, nil
	})
	pred("zerop", func(v V) bool { return isNum(v) && toF(v) == 0 })
	pred("plusp", func(v V) bool { return isNum(v) && toF(v) > 0 })
	pred("minusp", func(v V) bool { return isNum(v) && toF(v) < 0 })
	pred("oddp", func(v V) bool { i, ok := v.(int64); return ok && i%2 != 0 })
	pred("evenp", func(v V) bool { i, ok := v.(int64); return ok && i%2 == 0 })
	pred("numberp", isNum)
	pred("integerp", func(v V) bool { _, ok := v.(int64); return ok })
	pred("floatp", func(v V) bool { _, ok := v.(float64); return ok })
	pred("stringp", func(v V) bool { _, ok := v.(Str); return ok })
	pred("characterp", func(v V) bool { _, ok := v.(Chr); return ok })
	pred("symbolp", func(v V) bool {
		switch v.(type) {
		case Sym, nilT, tT:
			return true
		}
		return false
	})
	pred("consp", func(v V) bool { _, ok := v.(*Pair); return ok })
	pred("atom", func(v V) bool { _, ok := v.(*Pair); return !ok })
	pred("listp", func(v V) bool { _, ok := v.(*Pair); return ok || isNil(v) })
	pred("functionp", func(v V) bool { _, ok := v.(*Fn); return ok })
	pred("generic-function-p", func(v V) bool { f, ok := v.(*Fn); return ok && f.gen != nil })
	pred("null", isNil)
	pred("not", isNil)
	pred("basic-array-p", func(v V) bool {
		switch v.(type) {
		case *Arr, Str:
			return true
		}
		return false
	})
	ga := func(v V) bool { a, ok := v.(*Arr); return ok && len(a.dim) != 1 }
	pred("general-array*-p", ga)
	pred("basic-array*-p", ga)
	def("eq", 2, 2, func(in *In, a []V) (V, *ab) { return boolV(eql(a[0], a[1])), nil })
	def("eql", 2, 2, func(in *In, a []V) (V, *ab) { return boolV(eql(a[0], a[1])), nil })
	def("equal", 2, 2, func(in *In, a []V) (V, *ab) { return boolV(equal(a[0], a[1])), nil })

	// lists
	def("list", 0, -1, func(in *In, a []V) (V, *ab) { return list(a...), nil })
	def("cons", 2, 2, func(in *In, a []V) (V, *ab) { return &Pair{a[0], a[1]}, nil })
	cxr := func(name, path string) {
		def(name, 1, 1, func(in *In, a []V) (V, *ab) {
			v := a[0]
			for i := len(path) - 1; i >= 0; i-- {
				p, e := needCons(in, v)
				if e != nil {
					return nil, e
				}
				if path[i] == 'a' {
					v = p.A
				} else {
					v = p.D
				}
			}
			return v, nil
		})
	}
	// cadr and the like are nil beyond the end of a list.
	lenient := func(name, path string) {
		def(name, 1, 1, func(in *In, a []V) (V, *ab) {
			if _, ok := listOf(a[0]); !ok {
				return nil, undef("%s of an improper list", name)
			}
			n := int64(len(path))
			if path[0] == 'd' {
				return nthcdrOf(a[0], n), nil
			}
			if p, ok := nthcdrOf(a[0], n-1).(*Pair); ok {
				return p.A, nil
			}
			return NIL, nil
		})
	}
	setcxr := func(name, path string) {
		setters[name] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
			if len(a) != 1 {
				return undef("place arity")
			}
			x := a[0]
			for i := len(path) - 1; i >= 0; i-- {
				p, ok := x.(*Pair)
				if !ok {
					return errOnly(in.err("?"))
				}
				if i == 0 {
					if reaches(v, p) {
						return undef("circular structure")
					}
					if path[0] == 'a' {
						p.A = v
					} else {
						p.D = v
					}
					return nil
				}
				if path[i] == 'a' {
					x = p.A
				} else {
					x = p.D
				}
			}
			return nil
		}
	}
	for n, p := range map[string]string{"car": "a", "cdr": "d", "first": "a", "rest": "d", "caar": "aa", "cadr": "ad",
		"cddr": "dd", "cdar": "da", "caddr": "add", "cdddr": "ddd", "cadddr": "addd"} {
		if n == "cdar" {
			continue
		}
		if p != "a" && p != "d" && p != "aa" {
			lenient(n, p)
		} else {
			cxr(n, p)
		}
		if n != "first" && n != "rest" && n != "caar" {
			setcxr(n, p)
		}
	}
	def("set-car", 2, 2, func(in *In, a []V) (V, *ab) {
		p, e := needCons(in, a[1])
		if e != nil {
			return nil, e
		}
		p.A = a[0]
		return a[0], nil
	})
	def("length", 1, 1, func(in *In, a []V) (V, *ab) {
		xs, e := in.seqOf(a[0])
		if e != nil {
			return nil, e
		}
		return int64(len(xs)), nil
	})
	def("append", 0, -1, func(in *In, a []V) (V, *ab) {
		if len(a) == 0 {
			return NIL, nil
		}
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			xs, ok := listOf(a[i])
			if !ok {
				return in.err("<domain-error>")
			}
			r = mkList(xs, r)
		}
		return r, nil
	})
	def("reverse", 1, 1, func(in *In, a []V) (V, *ab) {
		xs, ok := listOf(a[0])
		if !ok {
			return in.err("<domain-error>")
		}
		var r V = NIL
		for _, x := range xs {
			r = &Pair{x, r}
		}
		return r, nil
	})
	def("nreverse", 1, 1, func(in *In, a []V) (V, *ab) {
		if _, ok := listOf(a[0]); !ok {
			return nil, undef("nreverse of an improper list")
		}
		var r V = NIL
		for v := a[0]; !isNil(v); {
			p := v.(*Pair)
			v = p.D
			p.D = r
			r = p
		}
		return r, nil
	})
	def("last", 1, 1, func(in *In, a []V) (V, *ab) {
		xs, ok := listOf(a[0])
		if !ok {
			return nil, undef("last of improper list")
		}
		if len(xs) == 0 {
			return NIL, nil
		}
		return xs[len(xs)-1], nil
	})
	def("nth", 2, 2, func(in *In, a []V) (V, *ab) { return nil, undef("nth") })
	def("member", 2, 2, func(in *In, a []V) (V, *ab) {
		v := a[1]
		for {
			p, ok := v.(*Pair)
			if !ok {
				if isNil(v) {
					return NIL, nil
				}
				return in.err("?")
			}
			if eql(a[0], p.A) {
				return p, nil
			}
			v = p.D
		}
	})
	def("assoc", 2, 2, func(in *In, a []V) (V, *ab) {
		v := a[1]
		for {
			p, ok := v.(*Pair)
			if !ok {
				if isNil(v) {
					return NIL, nil
				}
				return in.err("?")
			}
			e, ok := p.A.(*Pair)
			if !ok {
				return in.err("<domain-error>")
			}
			if eql(a[0], e.A) {
				return e, nil
			}
			v = p.D
		}
	})
	def("create-list", 1, 2, func(in *In, a []V) (V, *ab) {
		n, e := needInt(in, a[0])
		if e != nil {
			return nil, e
		}
		if len(a) < 2 || n < 0 {
			return nil, undef("create-list")
		}
		var xs []V
		for ; n > 0; n-- {
			xs = append(xs, a[1])
		}
		return list(xs...), nil
	})
	maps := func(name string, tails bool, fin func(in *In, res []V, a []V) (V, *ab)) {
		def(name, 2, -1, func(in *In, a []V) (V, *ab) {
			f, ok := a[0].(*Fn)
			if !ok {
				return in.domain(a[0], "<function>")
			}
			rest := make([]V, len(a)-1)
			copy(rest, a[1:])
			for _, x := range rest {
				if _, ok := listOf(x); !ok {
					return nil, undef("map over an improper list")
				}
			}
			var res []V
			for {
				args := make([]V, len(rest))
				for i, x := range rest {
					p, ok := x.(*Pair)
					if !ok {
						return fin(in, res, a)
					}
					if tails {
						args[i] = p
					} else {
						args[i] = p.A
					}
				}
				r, e := in.call(f, args)
				if e != nil {
					return nil, e
				}
				res = append(res, r)
				for i, x := range rest {
					rest[i] = x.(*Pair).D
				}
			}
		})
	}
	collect := func(in *In, r, a []V) (V, *ab) { return list(r...), nil }
	firstList := func(in *In, r, a []V) (V, *ab) { return a[1], nil }
	conc := func(in *In, r, a []V) (V, *ab) {
		return builtins["append"].builtin(in, r)
	}
	maps("mapcar", false, collect)
	maps("mapc", false, firstList)
	maps("mapcan", false, conc)
	maps("maplist", true, collect)
	maps("mapl", true, firstList)
	maps("mapcon", true, conc)

	def("funcall", 1, -1, func(in *In, a []V) (V, *ab) { return in.apply(a[0], a[1:]) })
	def("apply", 2, -1, func(in *In, a []V) (V, *ab) {
		xs, ok := listOf(a[len(a)-1])
		if !ok {
			return in.err("?")
		}
		args := append([]V{}, a[1:len(a)-1]...)
		return in.apply(a[0], append(args, xs...))
	})
	def("throw", 2, 2, func(in *In, a []V) (V, *ab) {
		for c := in.catches; c != nil; c = c.up {
			if eql(c.tag, a[0]) {
				return nil, &ab{kind: abThrow, tag: a[0], val: a[1]}
			}
		}
		return in.err("<control-error>")
	})
	def("identity", 1, 1, func(in *In, a []V) (V, *ab) { return a[0], nil })

	// sequences, strings and arrays
	def("elt", 2, 2, func(in *In, a []V) (V, *ab) {
		if _, ok := a[0].(*Pair); ok {
			if _, ok := listOf(a[0]); !ok {
				return nil, undef("sequence function on an improper list")
			}
		}
		if m, ok := a[0].(*Arr); ok && len(m.dim) != 1 {
			return nil, undef("elt of an array that is not a vector")
		}
		xs, e := in.seqOf(a[0])
		if e != nil {
			return nil, e
		}
		i, e := needInt(in, a[1])
		if e != nil {
			return nil, e
		}
		if i < 0 || i >= int64(len(xs)) {
			return in.err("?")
		}
		return xs[i], nil
	})
	def("subseq", 3, 3, func(in *In, a []V) (V, *ab) {
		if _, ok := a[0].(*Pair); ok {
			if _, ok := listOf(a[0]); !ok {
				return nil, undef("sequence function on an improper list")
			}
		}
		xs, e := in.seqOf(a[0])
		if e != nil {
			return nil, e
		}
		i, e := needInt(in, a[1])
		if e != nil {
			return nil, e
		}
		j, e := needInt(in, a[2])
		if e != nil {
			return nil, e
		}
		if i < 0 || j < i || j > int64(len(xs)) {
			return in.err("?")
		}
		switch a[0].(type) {
		case Str:
			var b strings.Builder
			for _, x := range xs[i:j] {
				b.WriteRune(rune(x.(Chr)))
			}
			return Str(b.String()), nil
		case *Arr:
			return &Arr{[]int{int(j - i)}, append([]V{}, xs[i:j]...)}, nil
		}
		return list(xs[i:j]...), nil
	})
	setters["elt"] = func(in *In, v V, a []V, place []V, sc *scope) *ab {
		if len(a) != 2 {
			return undef("place arity")
		}
		i, ok := a[1].(int64)
		if !ok {
			return errOnly(in.err("?"))
		}
		switch x := a[0].(type) {
		case *Arr:
			if len(x.dim) != 1 {
				return undef("set elt of array")
			}
			if i < 0 || i >= int64(len(x.el)) {
				return errOnly(in.err("?"))
			}
			if reaches(v, x) {
				return undef("circular structure")
			}
			x.el[i] = v
			return nil
		case *Pair:
			var t V = x
			for ; i > 0; i-- {
				p, ok := t.(*Pair)
				if !ok {
					return errOnly(in.err("?"))
				}
				t = p.D
			}
			p, ok := t.(*Pair)
			if !ok || i < 0 {
				return errOnly(in.err("?"))
			}
			if reaches(v, p) {
				return undef("circular structure")
			}
			p.A = v
			return nil
		case nilT:
			return errOnly(in.err("?"))
		}
		return undef("set elt of something else")
	}
	setters["aref"] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
		if len(a) < 1 {
			return undef("place arity")
		}
		p, e := in.arefAt(a)
		if e != nil {
			return e
		}
		if reaches(v, a[0]) {
			return undef("circular structure")
		}
		*p = v
		return nil
	}
	def("set-aref", 2, -1, func(in *In, a []V) (V, *ab) {
		p, e := in.arefAt(a[1:])
		if e != nil {
			return nil, e
		}
		if reaches(a[0], a[1]) {
			return nil, undef("circular structure")
		}
		*p = a[0]
		return a[0], nil
	})
	def("aref", 1, -1, func(in *In, a []V) (V, *ab) {
		p, e := in.arefAt(a)
		if e != nil {
			return nil, e
		}
		return *p, nil
	})
	def("vector", 0, -1, func(in *In, a []V) (V, *ab) {
		return &Arr{[]int{len(a)}, append([]V{}, a...)}, nil
	})
	def("create-array", 1, 2, func(in *In, a []V) (V, *ab) {
		ds, ok := listOf(a[0])
		if !ok {
			return in.err("?")
		}
		r := &Arr{}
		n := 1
		for _, d := range ds {
			i, e := needInt(in, d)
			if e != nil {
				return nil, e
			}
			if i < 0 {
				return in.err("?")
			}
			r.dim = append(r.dim, int(i))
			n *= int(i)
			if n > 1000 && int64(n) > modelSteps/20 {
				return nil, undef("big array")
			}
		}
		for i := 0; i < n; i++ {
			if len(a) > 1 {
				r.el = append(r.el, a[1])
			} else {
				r.el = append(r.el, NIL)
			}
		}
		return r, nil
	})
	def("array-dimensions", 1, 1, func(in *In, a []V) (V, *ab) {
		x, ok := a[0].(*Arr)
		if !ok {
			if _, ok := a[0].(Str); ok {
				return nil, undef("array-dimensions of a string")
			}
			return in.domainAny(a[0])
		}
		var ds []V
		for _, d := range x.dim {
			ds = append(ds, int64(d))
		}
		return list(ds...), nil
	})

	// strings and characters
	def("string-append", 0, -1, func(in *In, a []V) (V, *ab) {
		var b strings.Builder
		for _, x := range a {
			s, e := needStr(in, x)
			if e != nil {
				return nil, e
			}
			b.WriteString(s)
		}
		return Str(b.String()), nil
	})
	def("create-string", 1, 2, func(in *In, a []V) (V, *ab) {
		n, e := needInt(in, a[0])
		if e != nil {
			return nil, e
		}
		ch := ' '
		if len(a) > 1 {
			if ch, e = needChr(in, a[1]); e != nil {
				return nil, e
			}
		}
		if n < 0 {
			return in.err("<domain-error>")
		}
		if n > 10000 && n > modelSteps/20 {
			return nil, undef("big string")
		}
		return Str(strings.Repeat(string(ch), int(n))), nil
	})
	for op, f := range map[string]func(int) bool{
		"=": func(c int) bool { return c == 0 }, "/=": func(c int) bool { return c != 0 },
		"<": func(c int) bool { return c < 0 }, ">": func(c int) bool { return c > 0 },
		"<=": func(c int) bool { return c <= 0 }, ">=": func(c int) bool { return c >= 0 }} {
		f := f
		def("string"+op, 2, 2, func(in *In, a []V) (V, *ab) {
			s, e := needStr(in, a[0])
			if e != nil {
				return nil, e
			}
			t, e := needStr(in, a[1])
			if e != nil {
				return nil, e
			}
			return boolV(f(runeCompare(s, t))), nil
		})
		def("char"+op, 2, 2, func(in *In, a []V) (V, *ab) {
			s, e := needChr(in, a[0])
			if e != nil {
				return nil, e
			}
			t, e := needChr(in, a[1])
			if e != nil {
				return nil, e
			}
			return boolV(f(int(s) - int(t))), nil
		})
	}
	def("char-index", 2, 3, func(in *In, a []V) (V, *ab) {
		ch, e := needChr(in, a[0])
		if e != nil {
			return nil, e
		}
		s, e := needStr(in, a[1])
		if e != nil {
			return nil, e
		}
		return in.index([]rune{ch}, []rune(s), a[2:])
	})
	def("string-index", 2, 3, func(in *In, a []V) (V, *ab) {
		t, e := needStr(in, a[0])
		if e != nil {
			return nil, e
		}
		s, e := needStr(in, a[1])
		if e != nil {
			return nil, e
		}
		return in.index([]rune(t), []rune(s), a[2:])
	})
	def("parse-number", 1, 1, func(in *In, a []V) (V, *ab) {
		s, e := needStr(in, a[0])
		if e != nil {
			return nil, e
		}
		v, ok := numberOf(s)
		if !ok {
			return in.err("?")
		}
		if v == nil {
			return nil, undef("number range")
		}
		return v, nil
	})

	// hash tables
	def("make-hash-table", 0, 0, func(in *In, a []V) (V, *ab) { return &Hash{}, nil })
	def("gethash", 2, 2, func(in *In, a []V) (V, *ab) {
		h, e := in.needHash(a[1], a[0])
		if e != nil {
			return nil, e
		}
		if i := h.find(a[0]); i >= 0 {
			return h.vals[i], nil
		}
		return NIL, nil
	})
	puthash := func(in *In, v V, k V, ht V) *ab {
		h, e := in.needHash(ht, k)
		if e != nil {
			return e
		}
		if i := h.find(k); i >= 0 {
			h.vals[i] = v
		} else {
			h.keys, h.vals = append(h.keys, k), append(h.vals, v)
		}
		return nil
	}
	setters["gethash"] = func(in *In, v V, a []V, _ []V, _ *scope) *ab {
		if len(a) != 2 {
			return undef("place arity")
		}
		return puthash(in, v, a[0], a[1])
	}
	def("set-gethash", 3, 3, func(in *In, a []V) (V, *ab) { return a[0], puthash(in, a[0], a[1], a[2]) })
	def("remhash", 2, 2, func(in *In, a []V) (V, *ab) {
		h, e := in.needHash(a[1], a[0])
		if e != nil {
			return nil, e
		}
		if i := h.find(a[0]); i >= 0 {
			h.keys = append(append([]V{}, h.keys[:i]...), h.keys[i+1:]...)
			h.vals = append(append([]V{}, h.vals[:i]...), h.vals[i+1:]...)
		}
		return NIL, nil
	})
	def("clrhash", 1, 1, func(in *In, a []V) (V, *ab) {
		h, e := in.needHash(a[0], NIL)
		if e != nil {
			return nil, e
		}
		h.keys, h.vals = nil, nil
		return NIL, nil
	})
	def("hash-table-count", 1, 1, func(in *In, a []V) (V, *ab) {
		h, e := in.needHash(a[0], NIL)
		if e != nil {
			return nil, e
		}
		return int64(len(h.keys)), nil
	})
	def("gensym", 0, 0, func(in *In, a []V) (V, *ab) {
		in.gens++
		return Sym("\x00g" + strconv.Itoa(in.gens)), nil
	})
	def("eval", 1, 1, func(in *In, a []V) (V, *ab) { return nil, undef("eval") })
}

func errOnly(_ V, a *ab) *ab {
	if a == nil {
		return undef("continued")
	}
	return a
}

func runeCompare(s, t string) int {
	a, b := []rune(s), []rune(t)
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return int(a[i]) - int(b[i])
		}
	}
	return len(a) - len(b)
}

func (h *Hash) find(k V) int {
	for i, x := range h.keys {
		if eql(x, k) {
			return i
		}
	}
	return -1
}

func (in *In) needHash(v, key V) (*Hash, *ab) {
	h, ok := v.(*Hash)
	if !ok {
		return nil, errOnly(in.domainAny(v))
	}
	switch key.(type) {
	case Str, Sym, int64, float64, Chr, Kw, nilT:
		return h, nil
	}
	return nil, undef("hash key type")
}

func (in *In) index(t, s []rune, opt []V) (V, *ab) {
	start := int64(0)
	if len(opt) > 0 {
		var e *ab
		if start, e = needInt(in, opt[0]); e != nil {
			return nil, e
		}
		if start < 0 || start > int64(len(s)) {
			return nil, undef("start out of range")
		}
	}
	for i := int(start); i+len(t) <= len(s); i++ {
		if string(s[i:i+len(t)]) == string(t) {
			return int64(i), nil
		}
	}
	return NIL, nil
}

func (in *In) arefAt(a []V) (*V, *ab) {
	x, ok := a[0].(*Arr)
	if !ok {
		if _, ok := a[0].(Str); ok {
			return nil, undef("aref of a string")
		}
		return nil, errOnly(in.domainAny(a[0]))
	}
	ix := a[1:]
	if len(ix) != len(x.dim) {
		if len(ix) > len(x.dim) {
			return nil, errOnly(in.err("?"))
		}
		return nil, undef("partial aref")
	}
	off := 0
	for d, v := range ix {
		i, ok := v.(int64)
		if !ok {
			return nil, errOnly(in.domain(v, "<integer>"))
		}
		if i < 0 || i >= int64(x.dim[d]) {
			return nil, errOnly(in.err("?"))
		}
		off = off*x.dim[d] + int(i)
	}
	return &x.el[off], nil
}

func (in *In) modrem(a []V, mod bool) (V, *ab) {
	if !isNum(a[0]) || !isNum(a[1]) {
		return in.err("<domain-error>")
	}
	if toF(a[1]) == 0 {
		return in.signal(&Cond{class: "<division-by-zero>", b: list(a[0], a[1])}, false)
	}
	x, xi := a[0].(int64)
	y, yi := a[1].(int64)
	if xi && yi {
		if y == -1 {
			return int64(0), nil
		}
		r := x % y
		if mod && r != 0 && (r < 0) != (y < 0) {
			r += y
		}
		return r, nil
	}
	f, g := toF(a[0]), toF(a[1])
	r := math.Mod(f, g)
	if mod && r != 0 && (r < 0) != (g < 0) {
		r += g
	}
	if r == 0 {
		r = 0 // no negative zero in comparisons
		if math.Signbit(math.Mod(f, g)) {
			return nil, undef("negative zero")
		}
	}
	return r, nil
}

// numberOf reads the whole of s as a number; (nil,true) when out of range.
func numberOf(s string) (V, bool) {
	if len(s) > 2 && s[0] == '#' {
		base := map[byte]int{'b': 2, 'B': 2, 'o': 8, 'O': 8, 'x': 16, 'X': 16}[s[1]]
		if base == 0 {
			return nil, false
		}
		i, err := strconv.ParseInt(s[2:], base, 64)
		if errors.Is(err, strconv.ErrRange) {
			return nil, true
		}
		return i, err == nil
	}
	b := s
	if b != "" && (b[0] == '+' || b[0] == '-') {
		b = b[1:]
	}
	if b == "" {
		return nil, false
	}
	digits := func(t string) int {
		n := 0
		for n < len(t) && t[n] >= '0' && t[n] <= '9' {
			n++
		}
		return n
	}
	n := digits(b)
	if n == len(b) {
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, true
		}
		return i, true
	}
	rest := b[n:]
	frac := 0
	if rest[0] == '.' {
		frac = digits(rest[1:])
		if n == 0 {
			return nil, false
		}
		rest = rest[1+frac:]
		if frac == 0 {
			return nil, true // "1." is left open
		}
	} else if n == 0 {
		return nil, false
	}
	if rest != "" {
		if rest[0] != 'e' && rest[0] != 'E' {
			return nil, false
		}
		rest = rest[1:]
		if rest != "" && (rest[0] == '+' || rest[0] == '-') {
			rest = rest[1:]
		}
		if rest == "" || digits(rest) != len(rest) {
			return nil, false
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, true
	}
	return f, true
}

var _ = utf8.RuneError
