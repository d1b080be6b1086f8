package main

// Classes, generic functions and conditions of the reference model.

type Cls struct {
	name   string
	supers []*Cls
	slots  []*slotSpec
	user   bool
}

type slotSpec struct {
	name     string
	initargs []string
	initform V
	hasInit  bool
	sc       *scope
}

type Obj struct {
	cls   *Cls
	slots map[string]V
}

type Method struct {
	classes []*Cls
	rest    *Cls
	fn      *Fn
}

type Gen struct {
	name    string
	argc    int
	rest    bool
	methods []*Method
}

var builtinHier = [][]string{
	{"<object>"},
	{"<number>", "<object>"},
	{"<integer>", "<number>"},
	{"<float>", "<number>"},
	{"<character>", "<object>"},
	{"<symbol>", "<object>"},
	{"<list>", "<object>"},
	{"<cons>", "<list>"},
	{"<null>", "<symbol>", "<list>"},
	{"<string>", "<object>"},
	{"<function>", "<object>"},
	{"<array>", "<object>"},
	{"<error>", "<object>"},
	{"<program-error>", "<error>"},
	{"<domain-error>", "<program-error>"},
	{"<control-error>", "<error>"},
	{"<parse-error>", "<error>"},
	{"<storage-exhausted>", "<error>"},
	{"<stream-error>", "<error>"},
	{"<end-of-stream>", "<stream-error>"},
	{"<arithmetic-error>", "<error>"},
	{"<division-by-zero>", "<arithmetic-error>"},
	{"<simple-error>", "<error>"},
	{"<undefined-entity>", "<program-error>"},
	{"<unbound-variable>", "<undefined-entity>"},
	{"<undefined-function>", "<undefined-entity>"},
}

func (in *In) initClasses() {
	for _, h := range builtinHier {
		c := &Cls{name: h[0]}
		for _, s := range h[1:] {
			c.supers = append(c.supers, in.classes[s])
		}
		in.classes[h[0]] = c
	}
	se := in.classes["<simple-error>"]
	se.user = true
	se.slots = []*slotSpec{{name: "format-string", initargs: []string{"format-string"}},
		{name: "format-arguments", initargs: []string{"format-arguments"}}}
}

func (c *Cls) isA(d *Cls) bool {
	if c == d {
		return true
	}
	for _, s := range c.supers {
		if s.isA(d) {
			return true
		}
	}
	return false
}

// cpl is the class precedence list: depth first, left to right, each class at
// its last occurrence.
func (c *Cls) cpl() []*Cls {
	var all []*Cls
	var walk func(*Cls)
	walk = func(c *Cls) {
		all = append(all, c)
		for _, s := range c.supers {
			walk(s)
		}
	}
	walk(c)
	var r []*Cls
	for i, x := range all {
		last := true
		for _, y := range all[i+1:] {
			if x == y {
				last = false
			}
		}
		if last {
			r = append(r, x)
		}
	}
	return r
}

func (in *In) classOf(v V) *Cls {
	n := ""
	switch x := v.(type) {
	case nilT:
		n = "<null>"
	case tT, Sym:
		n = "<symbol>"
	case int64:
		n = "<integer>"
	case float64:
		n = "<float>"
	case Str:
		n = "<string>"
	case Chr:
		n = "<character>"
	case *Pair:
		n = "<cons>"
	case *Fn:
		n = "<function>"
	case *Arr:
		n = "<array>"
	case *Cond:
		n = x.class
		if n == "?" {
			return nil
		}
	case *Obj:
		return x.cls
	}
	return in.classes[n]
}

func (in *In) evClass(f V, sc *scope) (*Cls, *ab) {
	v, e := in.ev(f, sc)
	if e != nil {
		return nil, e
	}
	c, ok := v.(*Cls)
	if !ok {
		return nil, errOnly(in.domain(v, "<class>"))
	}
	return c, nil
}

// callGeneric runs the most specific applicable method.
func (in *In) callGeneric(g *Gen, vals []V) (V, *ab) {
	if len(vals) < g.argc || !g.rest && len(vals) > g.argc {
		return in.arity()
	}
	var best *Method
	tie := false
	for _, m := range g.methods {
		ok := true
		for i, c := range m.classes {
			k := in.classOf(vals[i])
			if k == nil {
				return nil, undef("dispatch on an object without a model class")
			}
			if !k.isA(c) {
				ok = false
			}
		}
		if m.rest != nil {
			for _, v := range vals[len(m.classes):] {
				k := in.classOf(v)
				if k == nil {
					return nil, undef("dispatch on an object without a model class")
				}
				if !k.isA(m.rest) {
					ok = false
				}
			}
		}
		if ok && (best == nil || in.moreSpecific(m, best, vals)) {
			best = m
			tie = false
		} else if ok && !in.moreSpecific(best, m, vals) {
			tie = true
		}
	}
	if tie {
		return nil, undef("methods that differ in the rest parameter only")
	}
	if best == nil {
		return in.signal(&Cond{class: "<undefined-function>", a: Sym(g.name)}, false)
	}
	return in.call(best.fn, vals)
}

func (in *In) moreSpecific(a, b *Method, vals []V) bool {
	for i := range a.classes {
		if a.classes[i] == b.classes[i] {
			continue
		}
		for _, k := range in.classOf(vals[i]).cpl() {
			if k == a.classes[i] {
				return true
			}
			if k == b.classes[i] {
				return false
			}
		}
	}
	return false
}

func (in *In) addMethod(name string, m *Method) *ab {
	f, ok := in.gfuns[name]
	if !ok {
		f = &Fn{name: name, gen: &Gen{name: name, argc: len(m.classes), rest: m.rest != nil}}
		in.gfuns[name] = f
	}
	if f.gen == nil {
		return undef("not generic")
	}
	if len(m.classes) != f.gen.argc || (m.rest != nil) != f.gen.rest {
		return undef("method not congruent")
	}
	// a method with the same classes replaces the old one
	for i, o := range f.gen.methods {
		same := o.rest == m.rest
		for j := range o.classes {
			if o.classes[j] != m.classes[j] {
				same = false
			}
		}
		if same {
			f.gen.methods[i] = m
			return nil
		}
	}
	f.gen.methods = append(f.gen.methods, m)
	return nil
}

func bfn(name string, n int, f func(in *In, a []V) (V, *ab)) *Fn {
	return &Fn{name: name, min: n, max: n, builtin: f}
}

func (c *Cls) allSlots() []*slotSpec {
	// most specific first
	var r []*slotSpec
	seen := map[string]bool{}
	for _, k := range c.cpl() {
		for _, s := range k.slots {
			if !seen[s.name] {
				seen[s.name] = true
				r = append(r, s)
			}
		}
	}
	return r
}

func (in *In) create(c *Cls, args []V) (V, *ab) {
	if !c.user {
		return nil, undef("create of a built-in class")
	}
	return in.initObj(&Obj{cls: c, slots: map[string]V{}}, c, args)
}

// initObj is what initialize-object does unless a method says otherwise.
func (in *In) initObj(o *Obj, c *Cls, args []V) (V, *ab) {
	if g, ok := in.gfuns["initialize-object"]; ok && g.gen != nil && len(g.gen.methods) > 0 {
		return nil, undef("initialize-object method")
	}
	if len(args)%2 != 0 {
		return in.err("?")
	}
	given := map[string]bool{}
	for i := 0; i < len(args); i += 2 {
		k, ok := args[i].(Sym)
		if !ok {
			return in.err("?")
		}
		hit := false
		// every slot for which the class or a super class declares the initarg
		now := map[string]bool{}
		for _, kl := range c.cpl() {
			for _, s := range kl.slots {
				for _, ia := range s.initargs {
					if ia != string(k) || now[s.name] {
						continue
					}
					if given[s.name] {
						return nil, undef("slot initialized twice")
					}
					o.slots[s.name] = args[i+1]
					given[s.name] = true
					now[s.name] = true
					hit = true
				}
			}
		}
		if !hit {
			return nil, undef("unknown initarg")
		}
	}
	type pend struct {
		s *slotSpec
	}
	var ps []*slotSpec
	done := map[string]bool{}
	for _, kl := range c.cpl() {
		for _, s := range kl.slots {
			if _, ok := o.slots[s.name]; ok || done[s.name] || !s.hasInit {
				continue
			}
			done[s.name] = true
			ps = append(ps, s)
		}
	}
	if len(ps) > 1 {
		in.looseOrder = true
	}
	for _, s := range ps {
		n := len(in.trace)
		v, e := in.ev(s.initform, s.sc)
		if e != nil {
			return nil, e
		}
		if len(ps) > 1 && len(in.trace) > n {
			in.loose = true // the order of initforms is not specified
		}
		o.slots[s.name] = v
	}
	return o, nil
}

func init() {
	specials["defclass"] = func(in *In, a []V, sc *scope) (V, *ab) {
		name := a[0].(Sym)
		c := &Cls{name: string(name), user: true}
		sup, _ := listOf(a[1])
		for _, s := range sup {
			k, e := in.evClass(s, sc)
			if e != nil {
				return nil, e
			}
			c.supers = append(c.supers, k)
		}
		if len(sup) == 0 {
			c.supers = []*Cls{in.classes["<object>"]}
		}
		specs, _ := listOf(a[2])
		if _, dup := in.classes[c.name]; dup {
			return nil, undef("class redefinition")
		}
		for _, sp := range specs {
			x, _ := listOf(sp)
			s := &slotSpec{name: string(x[0].(Sym)), sc: sc}
			for i := 1; i+1 < len(x); i += 2 {
				k := string(x[i].(Kw))
				if k == ":initform" {
					s.initform, s.hasInit = x[i+1], true
					continue
				}
				v := string(x[i+1].(Sym))
				nm := s.name
				get := bfn(v, 1, func(in *In, a []V) (V, *ab) {
					if v, ok := a[0].(*Obj).slots[nm]; ok {
						return v, nil
					}
					return nil, undef("read of an unbound slot")
				})
				set := bfn(v, 2, func(in *In, a []V) (V, *ab) {
					a[1].(*Obj).slots[nm] = a[0]
					return nil, undef("value of a writer")
				})
				setQuiet := bfn(v, 2, func(in *In, a []V) (V, *ab) {
					a[1].(*Obj).slots[nm] = a[0]
					return a[0], nil
				})
				_ = set
				bnd := bfn(v, 1, func(in *In, a []V) (V, *ab) {
					_, ok := a[0].(*Obj).slots[nm]
					return boolV(ok), nil
				})
				var e *ab
				obj := in.classes["<object>"]
				switch k {
				case ":initarg":
					s.initargs = append(s.initargs, v)
				case ":reader":
					e = in.addMethod(v, &Method{classes: []*Cls{c}, fn: get})
				case ":writer":
					e = in.addMethod(v, &Method{classes: []*Cls{obj, c}, fn: setQuiet})
				case ":accessor":
					e = in.addMethod(v, &Method{classes: []*Cls{c}, fn: get})
					if e == nil {
						e = in.addMethod("set-"+v, &Method{classes: []*Cls{obj, c}, fn: setQuiet})
					}
				case ":boundp":
					e = in.addMethod(v, &Method{classes: []*Cls{c}, fn: bnd})
				default:
					return nil, undef("slot option")
				}
				if e != nil {
					return nil, e
				}
			}
			c.slots = append(c.slots, s)
		}
		in.classes[c.name] = c
		return name, nil
	}
	specials["defgeneric"] = func(in *In, a []V, sc *scope) (V, *ab) {
		name := a[0].(Sym)
		ps, _ := listOf(a[1])
		g := &Gen{name: string(name)}
		for i, p := range ps {
			if _, ok := p.(Kw); ok {
				g.rest = true
				if i+2 != len(ps) {
					return nil, undef("generic lambda list")
				}
				break
			}
			g.argc++
		}
		in.gfuns[string(name)] = &Fn{name: string(name), gen: g}
		return name, nil
	}
	specials["defmethod"] = func(in *In, a []V, sc *scope) (V, *ab) {
		name := a[0].(Sym)
		ps, _ := listOf(a[1])
		m := &Method{fn: &Fn{name: string(name), sc: sc, body: a[2:]}}
		for i := 0; i < len(ps); i++ {
			p := ps[i]
			if _, ok := p.(Kw); ok || p == Sym("&rest") {
				i++
				p = ps[i]
				if s, ok := p.(Sym); ok { // without a class: <object>
					p = list(s, Sym("<object>"))
				}
				x, ok := listOf(p)
				if !ok || len(x) != 2 {
					return nil, undef("rest parameter of a method")
				}
				k, e := in.evClass(x[1], sc)
				if e != nil {
					return nil, e
				}
				m.rest = k
				m.fn.rest = string(x[0].(Sym))
				break
			}
			if s, ok := p.(Sym); ok {
				p = list(s, Sym("<object>"))
			}
			x, ok := listOf(p)
			if !ok || len(x) != 2 {
				return nil, undef("unspecialized parameter")
			}
			k, e := in.evClass(x[1], sc)
			if e != nil {
				return nil, e
			}
			m.classes = append(m.classes, k)
			m.fn.params = append(m.fn.params, string(x[0].(Sym)))
		}
		if g, ok := in.gfuns[string(name)]; !ok || g.gen == nil {
			return nil, undef("no generic")
		}
		if e := in.addMethod(string(name), m); e != nil {
			return nil, e
		}
		return name, nil
	}
	specials["class"] = func(in *In, a []V, sc *scope) (V, *ab) {
		c, e := in.evClass(a[0], sc)
		if e != nil {
			return nil, e
		}
		return c, nil
	}
	specials["instancep"] = func(in *In, a []V, sc *scope) (V, *ab) {
		v, e := in.ev(a[0], sc)
		if e != nil {
			return nil, e
		}
		c, e := in.evClass(a[1], sc)
		if e != nil {
			return nil, e
		}
		k := in.classOf(v)
		if k == nil {
			return nil, undef("class of %T", v)
		}
		return boolV(k.isA(c)), nil
	}
	def("class-of", 1, 1, func(in *In, a []V) (V, *ab) {
		k := in.classOf(a[0])
		if _, ok := a[0].(tT); ok || k == nil {
			return nil, undef("class-of")
		}
		return k, nil
	})
	def("subclassp", 2, 2, func(in *In, a []V) (V, *ab) {
		x, ok1 := a[0].(*Cls)
		y, ok2 := a[1].(*Cls)
		if !ok1 || !ok2 {
			return in.err("<domain-error>")
		}
		if x == y {
			return nil, undef("subclassp of the same class")
		}
		return boolV(x.isA(y)), nil
	})
	def("initialize-object", 1, -1, func(in *In, a []V) (V, *ab) {
		o, ok := a[0].(*Obj)
		if !ok || !o.cls.user {
			return nil, undef("initialize-object of a built-in class")
		}
		return in.initObj(o, o.cls, a[1:])
	})
	def("create", 1, -1, func(in *In, a []V) (V, *ab) {
		c, ok := a[0].(*Cls)
		if !ok {
			return in.err("<domain-error>")
		}
		return in.create(c, a[1:])
	})
	assure := func(in *In, a []V, sc *scope) (V, *ab) {
		c, e := in.evClass(a[0], sc)
		if e != nil {
			return nil, e
		}
		v, e := in.ev(a[1], sc)
		if e != nil {
			return nil, e
		}
		k := in.classOf(v)
		if k == nil {
			return nil, undef("class-of")
		}
		if !k.isA(c) {
			return in.signal(&Cond{class: "<domain-error>", a: v, b: c}, false)
		}
		return v, nil
	}
	specials["assure"] = assure
	specials["the"] = assure

	// conditions
	def("error", 1, -1, func(in *In, a []V) (V, *ab) {
		o := &Obj{cls: in.classes["<simple-error>"], slots: map[string]V{"format-string": a[0], "format-arguments": list(a[1:]...)}}
		return in.signal(&Cond{obj: o}, false)
	})
	def("cerror", 2, -1, func(in *In, a []V) (V, *ab) {
		o := &Obj{cls: in.classes["<simple-error>"], slots: map[string]V{"format-string": a[1], "format-arguments": list(a[2:]...)}}
		return in.signal(&Cond{obj: o}, true)
	})
	def("signal-condition", 2, 2, func(in *In, a []V) (V, *ab) {
		o, ok := a[0].(*Obj)
		if !ok || !o.cls.isA(in.classes["<error>"]) {
			if c, ok := a[0].(*Cond); ok {
				return in.signal(c, !isNil(a[1]))
			}
			return nil, undef("signal-condition of a non-condition")
		}
		return in.signal(&Cond{obj: o}, !isNil(a[1]))
	})
	def("continue-condition", 1, 2, func(in *In, a []V) (V, *ab) {
		var v V = NIL
		if len(a) > 1 {
			v = a[1]
		}
		return nil, &ab{kind: abCont, cond: condOf(a[0]), condV: a[0], val: v}
	})
	acc := func(name string, classes string, f func(c *Cond) V) {
		def(name, 1, 1, func(in *In, a []V) (V, *ab) {
			c, ok := a[0].(*Cond)
			if !ok {
				return in.err("<domain-error>")
			}
			if c.class == "?" {
				return nil, undef("accessor on an open condition")
			}
			k := in.classes[c.class]
			if !k.isA(in.classes[classes]) {
				return in.err("<domain-error>")
			}
			v := f(c)
			if v == nil {
				return nil, undef("open condition part")
			}
			return v, nil
		})
	}
	acc("domain-error-object", "<domain-error>", func(c *Cond) V { return c.a })
	acc("domain-error-expected-class", "<domain-error>", func(c *Cond) V { return c.b })
	acc("arithmetic-error-operands", "<arithmetic-error>", func(c *Cond) V { return c.b })
	acc("undefined-entity-name", "<undefined-entity>", func(c *Cond) V { return c.a })
	acc("undefined-entity-namespace", "<undefined-entity>", func(c *Cond) V {
		if c.class == "<unbound-variable>" {
			return Sym("variable")
		}
		return Sym("function")
	})
	sacc := func(name, slot string) {
		def(name, 1, 1, func(in *In, a []V) (V, *ab) {
			o, ok := a[0].(*Obj)
			if !ok || !o.cls.isA(in.classes["<simple-error>"]) {
				return in.err("?")
			}
			if v, ok := o.slots[slot]; ok {
				return v, nil
			}
			return nil, undef("unbound slot")
		})
	}
	sacc("simple-error-format-string", "format-string")
	sacc("simple-error-format-arguments", "format-arguments")
}

func condOf(v V) *Cond {
	if c, ok := v.(*Cond); ok {
		return c
	}
	return nil
}
