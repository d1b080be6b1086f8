package main

// The reference model: a plain recursive evaluator of the language the
// generators use.  It shares nothing with the code under test.

import (
	"fmt"
	"strings"
)

type abKind int

const (
	abBlock abKind = iota
	abThrow
	abGo
	abErr
	abCont
	abUndef
	abQuit
)

// ab is an abrupt completion.
type ab struct {
	kind  abKind
	blk   *blk
	tag   V
	val   V
	tb    *tbody
	label string
	cond  *Cond
	condV V
	why   string
}

type blk struct {
	name string
	live bool
}
type tbody struct {
	labels map[string]int
	live   bool
}
type cell struct{ v V }

// scope is one lexical binding; kind: v variable, f function, b block, t tagbody.
type scope struct {
	up   *scope
	kind byte
	name string
	cell *cell
	fn   *Fn
	blk  *blk
	tb   *tbody
}

type hframe struct {
	fn    V
	outer *hframe
	stop  bool // ignore-errors: no handler is visible from inside
}

type catchFrame struct {
	tag V
	up  *catchFrame
}

type In struct {
	steps      int64
	limit      int64
	trace      []string
	gvars      map[string]V
	gfuns      map[string]*Fn
	macros     map[string]*Fn
	dyn        map[string]V
	hand       *hframe
	catches    *catchFrame
	looseOrder bool
	argTrace   bool // the arguments of the latest call form left a trace
	loose      bool // trace is not determined (an arity error with side effects)
	classes    map[string]*Cls
	props      map[propKey]V
	gens       int
	depth      int64
	std        *Strm
	stdin      *Strm
	files      map[string]*strings.Builder
	features   map[string]bool
}

// What the model does at most before it leaves a program undefined.
const defaultSteps, defaultDepth = 6000, 1200

var modelSteps, modelDepth int64 = defaultSteps, defaultDepth

func newIn() *In {
	in := &In{limit: modelSteps, gvars: map[string]V{}, gfuns: map[string]*Fn{}, macros: map[string]*Fn{}, dyn: map[string]V{},
		classes: map[string]*Cls{}, std: &Strm{out: &strings.Builder{}, isStd: true}}
	in.initClasses()
	return in
}

func undef(f string, a ...any) *ab { return &ab{kind: abUndef, why: fmt.Sprintf(f, a...)} }

// signal delivers a condition to the innermost handler, at the point of the error.
func (in *In) signal(c *Cond, continuable bool) (V, *ab) {
	h := in.hand
	if h == nil || h.stop {
		return nil, &ab{kind: abErr, cond: c}
	}
	save := in.hand
	in.hand = h.outer
	v, a := in.apply(h.fn, []V{c.asValue()})
	in.hand = save
	if a == nil {
		_ = v
		return nil, undef("handler returned")
	}
	if a.kind == abCont {
		if a.condV != c.asValue() {
			return nil, undef("continue-condition of another condition")
		}
		if !continuable {
			return nil, undef("continue of a non-continuable condition")
		}
		return a.val, nil
	}
	return nil, a
}

func (c *Cond) asValue() V {
	if c.obj != nil {
		return c.obj
	}
	return c
}

func (in *In) err(class string) (V, *ab) { return in.signal(&Cond{class: class}, false) }
func (in *In) domain(obj V, class string) (V, *ab) {
	return in.signal(&Cond{class: "<domain-error>", a: obj, b: in.clsV(class)}, false)
}
func (in *In) clsV(name string) V {
	if c, ok := in.classes[name]; ok {
		return c
	}
	return nil
}
func (in *In) arity() (V, *ab) {
	if in.argTrace {
		in.loose = true
	}
	return in.signal(&Cond{class: "<program-error>"}, false)
}

func (in *In) lookup(sc *scope, kind byte, name string) *scope {
	for ; sc != nil; sc = sc.up {
		if sc.kind == kind && sc.name == name {
			return sc
		}
	}
	return nil
}

func bindV(sc *scope, name string, v V) *scope {
	return &scope{up: sc, kind: 'v', name: name, cell: &cell{v}}
}

func (in *In) ev(f V, sc *scope) (V, *ab) {
	in.steps++
	if in.steps > in.limit {
		return nil, undef("budget")
	}
	switch x := f.(type) {
	case Sym:
		if s := in.lookup(sc, 'v', string(x)); s != nil {
			return s.cell.v, nil
		}
		if v, ok := in.gvars[string(x)]; ok {
			return v, nil
		}
		if c, ok := in.classes[string(x)]; ok {
			return c, nil
		}
		return in.signal(&Cond{class: "<unbound-variable>", a: x}, false)
	case *Pair:
		return in.evForm(x, sc)
	}
	return f, nil
}

func (in *In) evForm(x *Pair, sc *scope) (V, *ab) {
	in.depth++
	defer func() { in.depth-- }()
	if in.depth > modelDepth {
		return nil, undef("depth")
	}
	head, isSym := x.A.(Sym)
	var fn *Fn
	if isSym {
		name := string(head)
		if s := in.lookup(sc, 'f', name); s != nil {
			fn = s.fn
		} else if sf, ok := specials[name]; ok {
			args, okl := listOf(x.D)
			if !okl {
				return nil, undef("improper form")
			}
			return sf(in, args, sc)
		} else if m, ok := in.macros[name]; ok {
			args, okl := listOf(x.D)
			if !okl {
				return nil, undef("improper form")
			}
			exp, a := in.expand(m, args)
			if a != nil {
				return nil, a
			}
			return in.ev(exp, sc)
		} else if g, ok := in.gfuns[name]; ok {
			fn = g
		} else if b, ok := builtins[name]; ok {
			fn = b
		} else {
			if len(name) > 1 && strings.HasPrefix(name, "set-") {
				return nil, undef("setter %s", name)
			}
			return in.signal(&Cond{class: "<undefined-function>", a: head}, false)
		}
	} else {
		v, a := in.ev(x.A, sc)
		if a != nil {
			return nil, a
		}
		f, ok := v.(*Fn)
		if !ok {
			return nil, undef("operator is not a function")
		}
		fn = f
	}
	args, ok := listOf(x.D)
	if !ok {
		return nil, undef("improper form")
	}
	vals := make([]V, 0, len(args))
	before := len(in.trace)
	for _, e := range args {
		v, a := in.ev(e, sc)
		if a != nil {
			return nil, a
		}
		vals = append(vals, v)
	}
	in.argTrace = len(in.trace) > before
	return in.call(fn, vals)
}

func (in *In) apply(f V, args []V) (V, *ab) {
	fn, ok := f.(*Fn)
	if !ok {
		return in.domain(f, "<function>")
	}
	return in.call(fn, args)
}

func (in *In) call(fn *Fn, vals []V) (V, *ab) {
	in.steps++
	if in.steps > in.limit {
		return nil, undef("budget")
	}
	if fn.builtin != nil {
		if len(vals) < fn.min || fn.max >= 0 && len(vals) > fn.max {
			return in.arity()
		}
		return fn.builtin(in, vals)
	}
	if fn.gen != nil {
		return in.callGeneric(fn.gen, vals)
	}
	if len(vals) < len(fn.params) || fn.rest == "" && len(vals) > len(fn.params) {
		return in.arity()
	}
	sc := fn.sc
	for i, p := range fn.params {
		sc = bindV(sc, p, vals[i])
	}
	if fn.rest != "" {
		sc = bindV(sc, fn.rest, list(vals[len(fn.params):]...))
	}
	return in.progn(fn.body, sc)
}

func (in *In) progn(body []V, sc *scope) (V, *ab) {
	var v V = NIL
	for _, f := range body {
		var a *ab
		v, a = in.ev(f, sc)
		if a != nil {
			return nil, a
		}
	}
	return v, nil
}

func (in *In) mkFn(name string, args []V, sc *scope) (*Fn, *ab) {
	if len(args) < 1 {
		return nil, undef("lambda list")
	}
	ps, ok := listOf(args[0])
	if !ok {
		return nil, undef("lambda list")
	}
	fn := &Fn{name: name, body: args[1:], sc: sc}
	seen := map[string]bool{}
	for i := 0; i < len(ps); i++ {
		if k, ok := ps[i].(Kw); ok {
			if (k != "&rest" && k != ":rest") || i+2 != len(ps) {
				return nil, undef("lambda list")
			}
			s, ok := ps[i+1].(Sym)
			if !ok || seen[string(s)] {
				return nil, undef("lambda list")
			}
			fn.rest = string(s)
			break
		}
		s, ok := ps[i].(Sym)
		if !ok || seen[string(s)] {
			return nil, undef("lambda list")
		}
		seen[string(s)] = true
		fn.params = append(fn.params, string(s))
	}
	return fn, nil
}

// expand binds the unevaluated argument forms and evaluates the macro body.
func (in *In) expand(m *Fn, args []V) (V, *ab) {
	if len(args) < len(m.params) || m.rest == "" && len(args) > len(m.params) {
		return in.err("<program-error>")
	}
	sc := m.sc
	for i, p := range m.params {
		sc = bindV(sc, p, args[i])
	}
	if m.rest != "" {
		sc = bindV(sc, m.rest, list(args[len(m.params):]...))
		sc = bindV(sc, "@"+m.rest, splice(args[len(m.params):]))
	}
	v, a := in.progn(m.body, sc)
	return v, a
}

type splice []V

func (in *In) quasi(f V, sc *scope, level int) (V, *ab) {
	p, ok := f.(*Pair)
	if !ok {
		return f, nil
	}
	down := level
	switch p.A {
	case V(Sym("unquote")):
		xs, ok := listOf(p.D)
		if !ok || len(xs) != 1 {
			return nil, undef("unquote")
		}
		if level == 0 {
			return in.ev(xs[0], sc)
		}
		down--
	case V(Sym("unquote-splicing")):
		if level == 0 {
			return nil, undef("unquote-splicing outside a list")
		}
		down--
	case V(Sym("quasiquote")):
		down++
	}
	if e, ok := p.A.(*Pair); ok && e.A == V(Sym("unquote-splicing")) && level == 0 {
		xs, ok := listOf(e.D)
		if !ok || len(xs) != 1 {
			return nil, undef("unquote-splicing")
		}
		v, a := in.ev(xs[0], sc)
		if a != nil {
			return nil, a
		}
		d, a := in.quasi(p.D, sc, level)
		if a != nil {
			return nil, a
		}
		if isNil(d) {
			if _, ok := listOf(v); !ok {
				return nil, undef("splicing of a non-list")
			}
			return v, nil
		}
		es, ok := listOf(v)
		if !ok {
			return nil, undef("splicing of a non-list")
		}
		return mkList(es, d), nil
	}
	a1, a := in.quasi(p.A, sc, down)
	if a != nil {
		return nil, a
	}
	d1, a := in.quasi(p.D, sc, down)
	if a != nil {
		return nil, a
	}
	if s, ok := a1.(splice); ok {
		return mkList([]V(s), d1), nil
	}
	return &Pair{a1, d1}, nil
}

type special func(in *In, args []V, sc *scope) (V, *ab)

var specials = map[string]special{}

func init() {
	for k, v := range map[string]special{
		"quote": func(in *In, a []V, sc *scope) (V, *ab) {
			if len(a) != 1 {
				return nil, undef("quote")
			}
			return a[0], nil
		},
		"quasiquote": func(in *In, a []V, sc *scope) (V, *ab) { return in.quasi(a[0], sc, 0) },
		"function": func(in *In, a []V, sc *scope) (V, *ab) {
			s, ok := a[0].(Sym)
			if !ok {
				return nil, undef("function")
			}
			if _, ok := specials[string(s)]; ok {
				return nil, undef("function of special")
			}
			if e := in.lookup(sc, 'f', string(s)); e != nil {
				return e.fn, nil
			}
			if _, ok := in.macros[string(s)]; ok {
				return nil, undef("function of macro")
			}
			if g, ok := in.gfuns[string(s)]; ok {
				return g, nil
			}
			if b, ok := builtins[string(s)]; ok {
				return b, nil
			}
			return in.signal(&Cond{class: "<undefined-function>", a: s}, false)
		},
		"lambda": func(in *In, a []V, sc *scope) (V, *ab) {
			fn, e := in.mkFn("", a, sc)
			if e != nil {
				return nil, e
			}
			return fn, nil
		},
		"progn": func(in *In, a []V, sc *scope) (V, *ab) { return in.progn(a, sc) },
		"trace": func(in *In, a []V, sc *scope) (V, *ab) { return NIL, nil }, // it writes to the process's standard error only
		"prog1": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			if _, e := in.progn(a[1:], sc); e != nil {
				return nil, e
			}
			return v, nil
		},
		"prog2": func(in *In, a []V, sc *scope) (V, *ab) {
			if _, e := in.ev(a[0], sc); e != nil {
				return nil, e
			}
			v, e := in.ev(a[1], sc)
			if e != nil {
				return nil, e
			}
			if _, e := in.progn(a[2:], sc); e != nil {
				return nil, e
			}
			return v, nil
		},
		"let":  func(in *In, a []V, sc *scope) (V, *ab) { return in.let(a, sc, false) },
		"let*": func(in *In, a []V, sc *scope) (V, *ab) { return in.let(a, sc, true) },
		"setq": func(in *In, a []V, sc *scope) (V, *ab) {
			var v V = NIL
			if len(a)%2 != 0 {
				return nil, undef("setq")
			}
			for i := 0; i < len(a); i += 2 {
				var e *ab
				v, e = in.ev(a[i+1], sc)
				if e != nil {
					return nil, e
				}
				if e := in.assign(a[i], v, sc); e != nil {
					return nil, e
				}
			}
			return v, nil
		},
		"psetq": func(in *In, a []V, sc *scope) (V, *ab) {
			var vs []V
			for i := 0; i+1 < len(a); i += 2 {
				v, e := in.ev(a[i+1], sc)
				if e != nil {
					return nil, e
				}
				vs = append(vs, v)
			}
			for i := 0; i+1 < len(a); i += 2 {
				if e := in.assign(a[i], vs[i/2], sc); e != nil {
					return nil, e
				}
			}
			return NIL, nil
		},
		"if": func(in *In, a []V, sc *scope) (V, *ab) {
			if len(a) < 2 || len(a) > 3 {
				return nil, undef("if")
			}
			v, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			if !isNil(v) {
				return in.ev(a[1], sc)
			}
			if len(a) == 3 {
				return in.ev(a[2], sc)
			}
			return NIL, nil
		},
		"when": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[0], sc)
			if e != nil || isNil(v) {
				return NIL, e
			}
			return in.progn(a[1:], sc)
		},
		"unless": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			if !isNil(v) {
				return NIL, nil
			}
			return in.progn(a[1:], sc)
		},
		"and": func(in *In, a []V, sc *scope) (V, *ab) {
			var v V = T
			for _, f := range a {
				var e *ab
				if v, e = in.ev(f, sc); e != nil || isNil(v) {
					return v, e
				}
			}
			return v, nil
		},
		"or": func(in *In, a []V, sc *scope) (V, *ab) {
			for _, f := range a {
				v, e := in.ev(f, sc)
				if e != nil || !isNil(v) {
					return v, e
				}
			}
			return NIL, nil
		},
		"cond": func(in *In, a []V, sc *scope) (V, *ab) {
			for _, cl := range a {
				c, ok := listOf(cl)
				if !ok || len(c) == 0 {
					return nil, undef("cond clause")
				}
				v, e := in.ev(c[0], sc)
				if e != nil {
					return nil, e
				}
				if !isNil(v) {
					if len(c) == 1 {
						return v, nil
					}
					return in.progn(c[1:], sc)
				}
			}
			return NIL, nil
		},
		"case": func(in *In, a []V, sc *scope) (V, *ab) {
			k, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			return in.caseClauses(a[1:], sc, func(key V) (bool, *ab) { return eql(k, key), nil })
		},
		"case-using": func(in *In, a []V, sc *scope) (V, *ab) {
			p, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			k, e := in.ev(a[1], sc)
			if e != nil {
				return nil, e
			}
			return in.caseClauses(a[2:], sc, func(key V) (bool, *ab) {
				v, e := in.apply(p, []V{k, key})
				return e == nil && !isNil(v), e
			})
		},
		"while": func(in *In, a []V, sc *scope) (V, *ab) {
			for {
				v, e := in.ev(a[0], sc)
				if e != nil {
					return nil, e
				}
				if isNil(v) {
					return NIL, nil
				}
				if _, e := in.progn(a[1:], sc); e != nil {
					return nil, e
				}
			}
		},
		"for": func(in *In, a []V, sc *scope) (V, *ab) {
			specs, _ := listOf(a[0])
			tr, _ := listOf(a[1])
			type st struct {
				c    *cell
				step V
			}
			var vs []V
			for _, s := range specs {
				x, _ := listOf(s)
				v, e := in.ev(x[1], sc)
				if e != nil {
					return nil, e
				}
				vs = append(vs, v)
			}
			var steps []st
			outer := sc
			_ = outer
			for i, s := range specs {
				x, _ := listOf(s)
				sc = bindV(sc, string(x[0].(Sym)), vs[i])
				if len(x) == 3 {
					steps = append(steps, st{sc.cell, x[2]})
				}
			}
			for {
				v, e := in.ev(tr[0], sc)
				if e != nil {
					return nil, e
				}
				if !isNil(v) {
					return in.progn(tr[1:], sc)
				}
				if _, e := in.progn(a[2:], sc); e != nil {
					return nil, e
				}
				var nv []V
				for _, s := range steps {
					v, e := in.ev(s.step, sc)
					if e != nil {
						return nil, e
					}
					nv = append(nv, v)
				}
				for i, s := range steps {
					s.c.v = nv[i]
				}
			}
		},
		"dolist": func(in *In, a []V, sc *scope) (V, *ab) {
			x, _ := listOf(a[0])
			v, e := in.ev(x[1], sc)
			if e != nil {
				return nil, e
			}
			items, ok := listOf(v)
			if !ok {
				return nil, undef("dolist on improper list")
			}
			return in.inBlock("nil", sc, func(sc *scope) (V, *ab) {
				sc = bindV(sc, string(x[0].(Sym)), NIL)
				for _, it := range items {
					sc.cell.v = it
					if _, e := in.progn(a[1:], sc); e != nil {
						return nil, e
					}
				}
				return NIL, nil
			})
		},
		"dotimes": func(in *In, a []V, sc *scope) (V, *ab) {
			x, _ := listOf(a[0])
			v, e := in.ev(x[1], sc)
			if e != nil {
				return nil, e
			}
			n, ok := v.(int64)
			if !ok {
				return nil, undef("dotimes count")
			}
			sc = bindV(sc, string(x[0].(Sym)), NIL)
			for i := int64(0); i < n; i++ {
				sc.cell.v = i
				if _, e := in.progn(a[1:], sc); e != nil {
					return nil, e
				}
				if sc.cell.v != V(i) {
					return nil, undef("dotimes variable assigned")
				}
			}
			return NIL, nil
		},
		"block": func(in *In, a []V, sc *scope) (V, *ab) {
			name, ok := blockName(a[0])
			if !ok {
				return nil, undef("block name")
			}
			return in.inBlock(name, sc, func(sc *scope) (V, *ab) { return in.progn(a[1:], sc) })
		},
		"return-from": func(in *In, a []V, sc *scope) (V, *ab) {
			name, ok := blockName(a[0])
			if !ok || len(a) != 2 {
				return nil, undef("return-from")
			}
			return in.returnFrom(name, a[1], sc)
		},
		"return": func(in *In, a []V, sc *scope) (V, *ab) {
			if len(a) != 1 {
				return nil, undef("return")
			}
			return in.returnFrom("nil", a[0], sc)
		},
		"catch": func(in *In, a []V, sc *scope) (V, *ab) {
			tag, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			cf := &catchFrame{tag, in.catches}
			in.catches = cf
			v, e := in.progn(a[1:], sc)
			in.catches = cf.up
			if e != nil && e.kind == abThrow && eql(e.tag, tag) {
				return e.val, nil
			}
			return v, e
		},
		"tagbody": func(in *In, a []V, sc *scope) (V, *ab) {
			tb := &tbody{labels: map[string]int{}, live: true}
			for i, f := range a {
				if s, ok := f.(Sym); ok {
					if _, dup := tb.labels[string(s)]; dup {
						return nil, undef("duplicate tag")
					}
					tb.labels[string(s)] = i + 1
				} else if _, ok := f.(*Pair); !ok {
					return nil, undef("tagbody atom")
				}
			}
			sc = &scope{up: sc, kind: 't', tb: tb}
			defer func() { tb.live = false }()
			for i := 0; i < len(a); i++ {
				if _, ok := a[i].(Sym); ok {
					continue
				}
				_, e := in.ev(a[i], sc)
				if e != nil {
					if e.kind == abGo && e.tb == tb {
						i = tb.labels[e.label] - 1
						in.steps++
						continue
					}
					return nil, e
				}
			}
			return NIL, nil
		},
		"go": func(in *In, a []V, sc *scope) (V, *ab) {
			l, ok := a[0].(Sym)
			if !ok {
				return nil, undef("go tag")
			}
			for s := sc; s != nil; s = s.up {
				if s.kind == 't' {
					if _, ok := s.tb.labels[string(l)]; ok {
						if !s.tb.live {
							return in.err("<control-error>")
						}
						return nil, &ab{kind: abGo, tb: s.tb, label: string(l)}
					}
				}
			}
			return in.err("<control-error>")
		},
		"unwind-protect": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[0], sc)
			if e != nil && (e.kind == abUndef) {
				return nil, e
			}
			saveH := in.hand
			_, e2 := in.progn(a[1:], sc)
			in.hand = saveH
			if e2 != nil {
				switch e2.kind {
				case abBlock, abThrow, abGo:
					return in.err("<control-error>")
				}
				return nil, e2
			}
			return v, e
		},
		"defun": func(in *In, a []V, sc *scope) (V, *ab) {
			name, ok := a[0].(Sym)
			if !ok {
				return nil, undef("defun")
			}
			if _, ok := specials[string(name)]; ok {
				return nil, undef("defun of special")
			}
			fn, e := in.mkFn(string(name), a[1:], sc)
			if e != nil {
				return nil, e
			}
			delete(in.macros, string(name))
			in.gfuns[string(name)] = fn
			return name, nil
		},
		"defmacro": func(in *In, a []V, sc *scope) (V, *ab) {
			name := a[0].(Sym)
			fn, e := in.mkFn(string(name), a[1:], sc)
			if e != nil {
				return nil, e
			}
			in.macros[string(name)] = fn
			return name, nil
		},
		"flet":   func(in *In, a []V, sc *scope) (V, *ab) { return in.flet(a, sc, false) },
		"labels": func(in *In, a []V, sc *scope) (V, *ab) { return in.flet(a, sc, true) },
		"defglobal": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[1], sc)
			if e != nil {
				return nil, e
			}
			in.gvars[string(a[0].(Sym))] = v
			return a[0], nil
		},
		"defdynamic": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[1], sc)
			if e != nil {
				return nil, e
			}
			in.dyn[string(a[0].(Sym))] = v
			return a[0], nil
		},
		"dynamic": func(in *In, a []V, sc *scope) (V, *ab) {
			v, ok := in.dyn[string(a[0].(Sym))]
			if !ok {
				return in.signal(&Cond{class: "<unbound-variable>", a: a[0]}, false)
			}
			return v, nil
		},
		"dynamic-let": func(in *In, a []V, sc *scope) (V, *ab) {
			bs, ok := listOf(a[0])
			if !ok {
				return nil, undef("dynamic-let")
			}
			var names []string
			var vs []V
			for _, b := range bs {
				x, ok := listOf(b)
				if !ok || len(x) != 2 {
					return nil, undef("dynamic-let")
				}
				v, e := in.ev(x[1], sc)
				if e != nil {
					return nil, e
				}
				names, vs = append(names, string(x[0].(Sym))), append(vs, v)
			}
			type sv struct {
				v  V
				ok bool
			}
			save := map[string]sv{}
			for i, n := range names {
				if _, dup := save[n]; dup {
					return nil, undef("dynamic-let duplicate")
				}
				o, ok := in.dyn[n]
				save[n] = sv{o, ok}
				in.dyn[n] = vs[i]
			}
			v, e := in.progn(a[1:], sc)
			for n, s := range save {
				if s.ok {
					in.dyn[n] = s.v
				} else {
					delete(in.dyn, n)
				}
			}
			return v, e
		},
		"with-handler": func(in *In, a []V, sc *scope) (V, *ab) {
			h, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			if _, ok := h.(*Fn); !ok {
				return in.domain(h, "<function>")
			}
			save := in.hand
			in.hand = &hframe{fn: h, outer: save}
			v, e := in.progn(a[1:], sc)
			in.hand = save
			return v, e
		},
		"ignore-errors": func(in *In, a []V, sc *scope) (V, *ab) {
			save := in.hand
			in.hand = &hframe{stop: true}
			v, e := in.progn(a, sc)
			in.hand = save
			if e != nil && e.kind == abErr {
				return NIL, nil
			}
			return v, e
		},
		"setf": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[1], sc)
			if e != nil {
				return nil, e
			}
			return v, in.setPlace(a[0], v, sc)
		},
		"set-dynamic": func(in *In, a []V, sc *scope) (V, *ab) {
			v, e := in.ev(a[0], sc)
			if e != nil {
				return nil, e
			}
			return v, in.setPlace(list(Sym("dynamic"), a[1]), v, sc)
		},
		"incf": func(in *In, a []V, sc *scope) (V, *ab) { return in.incf(a, sc, 1) },
		"decf": func(in *In, a []V, sc *scope) (V, *ab) { return in.incf(a, sc, -1) },
	} {
		specials[k] = v
	}
}

func (in *In) incf(a []V, sc *scope, sign int64) (V, *ab) {
	if _, ok := a[0].(Sym); !ok {
		return nil, undef("incf place")
	}
	var d V = int64(1)
	if len(a) > 1 {
		d = a[1]
	}
	op := "+"
	if sign < 0 {
		op = "-"
	}
	v, e := in.ev(list(Sym(op), a[0], d), sc)
	if e != nil {
		return nil, e
	}
	return v, in.assign(a[0], v, sc)
}

// setPlace stores v; the value is evaluated before the place's subforms, as the
// macro orders them.
func (in *In) setPlace(place, v V, sc *scope) *ab {
	if _, ok := place.(Sym); ok {
		return in.assign(place, v, sc)
	}
	p, ok := listOf(place)
	if !ok || len(p) < 1 {
		return undef("place")
	}
	op, ok := p[0].(Sym)
	if !ok {
		return undef("place")
	}
	if op == "dynamic" {
		n := string(p[1].(Sym))
		if _, ok := in.dyn[n]; !ok {
			return undef("set of unbound dynamic")
		}
		in.dyn[n] = v
		return nil
	}
	if in.lookup(sc, 'f', string(op)) != nil || in.lookup(sc, 'f', "set-"+string(op)) != nil {
		return undef("shadowed accessor")
	}
	var args []V
	for _, f := range p[1:] {
		x, e := in.ev(f, sc)
		if e != nil {
			return e
		}
		args = append(args, x)
	}
	set, ok := setters[string(op)]
	if !ok {
		if g, ok := in.gfuns["set-"+string(op)]; ok {
			_, e := in.call(g, append([]V{v}, args...))
			return e
		}
		return undef("place %s", op)
	}
	return set(in, v, args, p, sc)
}

func (in *In) assign(name V, v V, sc *scope) *ab {
	s, ok := name.(Sym)
	if !ok {
		return undef("assign to non symbol")
	}
	if e := in.lookup(sc, 'v', string(s)); e != nil {
		e.cell.v = v
		return nil
	}
	if _, ok := in.gvars[string(s)]; ok {
		in.gvars[string(s)] = v
		return nil
	}
	return undef("assignment to an unbound variable")
}

func (in *In) let(a []V, sc *scope, seq bool) (V, *ab) {
	bs, ok := listOf(a[0])
	if !ok {
		return nil, undef("let")
	}
	nsc := sc
	seen := map[string]bool{}
	for _, b := range bs {
		if n, ok := b.(Sym); ok { // a variable alone starts as nil
			b = list(n, NIL)
		}
		x, ok := listOf(b)
		if !ok || len(x) != 2 {
			return nil, undef("let binding")
		}
		n, ok := x[0].(Sym)
		if !ok {
			return nil, undef("let binding")
		}
		if seen[string(n)] && !seq {
			return nil, undef("duplicate let variable")
		}
		seen[string(n)] = true
		from := sc
		if seq {
			from = nsc
		}
		v, e := in.ev(x[1], from)
		if e != nil {
			return nil, e
		}
		nsc = bindV(nsc, string(n), v)
	}
	return in.progn(a[1:], nsc)
}

func (in *In) flet(a []V, sc *scope, rec bool) (V, *ab) {
	fs, ok := listOf(a[0])
	if !ok {
		return nil, undef("flet")
	}
	nsc := sc
	var fns []*Fn
	seen := map[string]bool{}
	for _, f := range fs {
		x, ok := listOf(f)
		if !ok || len(x) < 2 {
			return nil, undef("flet binding")
		}
		name, ok := x[0].(Sym)
		if !ok || seen[string(name)] {
			return nil, undef("flet binding")
		}
		if _, ok := specials[string(name)]; ok {
			return nil, undef("flet of special")
		}
		seen[string(name)] = true
		fn, e := in.mkFn(string(name), x[1:], sc)
		if e != nil {
			return nil, e
		}
		fns = append(fns, fn)
		nsc = &scope{up: nsc, kind: 'f', name: string(name), fn: fn}
	}
	if rec {
		for _, fn := range fns {
			fn.sc = nsc
		}
	}
	return in.progn(a[1:], nsc)
}

func blockName(v V) (string, bool) {
	if isNil(v) {
		return "nil", true
	}
	s, ok := v.(Sym)
	return string(s), ok
}

func (in *In) inBlock(name string, sc *scope, f func(*scope) (V, *ab)) (V, *ab) {
	b := &blk{name, true}
	v, e := f(&scope{up: sc, kind: 'b', name: name, blk: b})
	b.live = false
	if e != nil && e.kind == abBlock && e.blk == b {
		return e.val, nil
	}
	return v, e
}

func (in *In) returnFrom(name string, form V, sc *scope) (V, *ab) {
	s := in.lookup(sc, 'b', name)
	if s == nil {
		in.loose = true // whether the value form runs before the error is not specified
		return in.err("<control-error>")
	}
	if !s.blk.live {
		in.loose = true
		return in.err("<control-error>")
	}
	v, e := in.ev(form, sc)
	if e != nil {
		return nil, e
	}
	return nil, &ab{kind: abBlock, blk: s.blk, val: v}
}

func (in *In) caseClauses(cls []V, sc *scope, match func(V) (bool, *ab)) (V, *ab) {
	for i, cl := range cls {
		c, ok := listOf(cl)
		if !ok || len(c) == 0 {
			return nil, undef("case clause")
		}
		if c[0] == V(T) {
			if i != len(cls)-1 {
				return nil, undef("t clause not last")
			}
			return in.progn(c[1:], sc)
		}
		keys, ok := listOf(c[0])
		if !ok {
			return nil, undef("case keys")
		}
		for _, k := range keys {
			m, e := match(k)
			if e != nil {
				return nil, e
			}
			if m {
				return in.progn(c[1:], sc)
			}
		}
	}
	return NIL, nil
}
