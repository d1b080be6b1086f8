package main

// P27: the Go interface means what the language means.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// A layer is one scope put around the programs by the host: in Lisp terms a
// let or an flet.
type layer struct {
	name  string
	impl  func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope)
	model func(in *In, sc *scope) *scope
}

func goFun(name string) func(context.Context, *gl.World, []gl.Node) (gl.Node, error) {
	return func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
		trace(name)
		return gl.List(append([]gl.Node{gl.NewSymbol(name)}, a...)...), nil
	}
}

func modelFun(in *In, src string) *Fn {
	v, a := in.ev(readProgram(src)[0], nil)
	if a != nil {
		panic(harnessBug(src))
	}
	return v.(*Fn)
}

var layers = []layer{
	{"Let{x:10}", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		v := gl.Variables{sym("x@"): gl.Integer(10)}
		return w.Let(v), v
	}, func(in *In, sc *scope) *scope { return bindV(sc, "x@", int64(10)) }},
	{"Let{x:11,y:12}", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		v := gl.Variables{sym("x@"): gl.Integer(11), sym("y@"): gl.Integer(12)}
		return w.Let(v), v
	}, func(in *In, sc *scope) *scope { return bindV(bindV(sc, "x@", int64(11)), "y@", int64(12)) }},
	{"Let(&Pair{y:13})", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		v := &gl.Pair{Key: sym("y@"), Value: gl.Integer(13)}
		return w.Let(v), v
	}, func(in *In, sc *scope) *scope { return bindV(sc, "y@", int64(13)) }},
	{"Flet{f:Function{C:1}}", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		return w.Flet(gl.Functions{sym("f@"): &gl.Function{C: 1, F: goFun("go1")}}), nil
	}, func(in *In, sc *scope) *scope {
		return &scope{up: sc, kind: 'f', name: "f@", fn: modelFun(in, "(lambda (a) (tr 'go1) (list 'go1 a))")}
	}},
	{"Flet{f:Function2,g:Function1}", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		two := goFun("go2")
		one := goFun("go3")
		return w.Flet(gl.Functions{
			sym("f@"): gl.Function2(func(ctx context.Context, w *gl.World, a, b gl.Node) (gl.Node, error) {
				return two(ctx, w, []gl.Node{a, b})
			}),
			sym("g@"): gl.Function1(func(ctx context.Context, w *gl.World, a gl.Node) (gl.Node, error) {
				return one(ctx, w, []gl.Node{a})
			})}), nil
	}, func(in *In, sc *scope) *scope {
		sc = &scope{up: sc, kind: 'f', name: "f@", fn: modelFun(in, "(lambda (a b) (tr 'go2) (list 'go2 a b))")}
		return &scope{up: sc, kind: 'f', name: "g@", fn: modelFun(in, "(lambda (a) (tr 'go3) (list 'go3 a))")}
	}},
	{"Flet{g:LispString}", func(iw *implWorld, w *gl.World, sym func(string) gl.Symbol) (*gl.World, gl.Scope) {
		return w.Flet(gl.Functions{sym("g@"): &gl.LispString{S: "(lambda (a &rest b) (list 'lisp a b))"}}), nil
	}, func(in *In, sc *scope) *scope {
		return &scope{up: sc, kind: 'f', name: "g@", fn: modelFun(in, "(lambda (a &rest b) (list 'lisp a b))")}
	}},
}

// embedSteps are evaluated in one of the scopes, or are calls of the Go
// interface when they start with a colon.
var embedSteps = []string{
	"(list x@ y@)", "x@", "(setq x@ (list 's x@))", "(setq y@ 21)",
	"(f@ 1)", "(list (g@ (tr 1)) (f@ 2 3))", "(funcall #'g@ 5)", "(apply #'f@ '(6))",
	"(defun h@ (a) (list a x@ (setq x@ a) (g@ 1)))", "(h@ 8)",
	"(defglobal x@ 30)", "(defun g@ (a) (list 'global a x@))",
	"(let ((x@ 40)) (h@ 9))", "(flet ((f@ (a) (list 'inner a x@))) (list (f@ 1) (g@ 2)))",
	"(progn (defglobal k@ (lambda () (setq x@ (list y@)))) x@)", "(funcall k@)",
	"(defmacro m@ (a) (list 'list a 'x@ (list 'g@ a)))", "(m@ y@)",
	":get x@", ":get y@", ":set x@ 50", ":set y@ 51", ":global x@ 52", ":getfunc f@", ":getfunc h@",
}

func (c *C) embedCase(chain []int, steps [][2]int) {
	if !c.Take() {
		return
	}
	var desc []string
	for _, l := range chain {
		desc = append(desc, layers[l].name)
	}
	d := "New()." + strings.Join(desc, ".")
	for _, s := range steps {
		d += fmt.Sprintf(" | scope %d: %s", s[0], embedSteps[s[1]])
	}
	in := newIn()
	scs := []*scope{nil}
	for _, l := range chain {
		scs = append(scs, layers[l].model(in, scs[len(scs)-1]))
	}
	var want []*obs
	for _, s := range steps {
		in.trace = nil
		in.loose = false
		o := in.apiStep(scs[s[0]], embedSteps[s[1]])
		if o.kind == "undef" {
			c.Skip(o.why)
			return
		}
		want = append(want, o)
	}
	c.Case("embedding", d, func() (string, string) {
		iw := c.World()
		id := c.newID()
		sym := func(n string) gl.Symbol { return gl.NewSymbol(strings.ReplaceAll(n, "@", id)) }
		ws := []*gl.World{iw.w}
		scopes := []gl.Scope{nil}
		for _, l := range chain {
			w, s := layers[l].impl(iw, ws[len(ws)-1], sym)
			ws = append(ws, w)
			scopes = append(scopes, s)
		}
		var w, g []string
		for i, s := range steps {
			iw.out.Reset()
			x, y := compare(want[i], c.implAPIStep(iw, ws[s[0]], embedSteps[s[1]], id))
			w, g = append(w, x), append(g, y)
		}
		// What the host finds in its own variables afterwards.
		for i, s := range scopes {
			if s == nil {
				continue
			}
			for _, n := range []string{"x@", "y@"} {
				v, ok := s.Get(sym(n))
				if sc := scs[i]; ok {
					for sc != nil && !(sc.kind == 'v' && sc.name == n) {
						sc = sc.up
					}
					w = append(w, show(sc.cell.v))
					g = append(g, strings.ReplaceAll(ishow(iw.w, v), id, "@"))
				}
			}
		}
		return strings.Join(w, "; "), strings.Join(g, "; ")
	})
}

// apiStep is a step in the model.
func (in *In) apiStep(sc *scope, s string) *obs {
	if s[0] != ':' {
		return in.runIn(sc, s)
	}
	w := strings.Fields(s)
	o := &obs{kind: "value"}
	switch w[0] {
	case ":get":
		if x := in.lookup(sc, 'v', w[1]); x != nil {
			o.val = show(x.cell.v)
		} else if v, ok := in.gvars[w[1]]; ok {
			o.val = show(v)
		} else {
			o.kind, o.class = "error", "<unbound-variable>"
		}
	case ":set":
		v := readProgram(w[2])[0]
		if x := in.lookup(sc, 'v', w[1]); x != nil {
			x.cell.v = v
		} else if _, ok := in.gvars[w[1]]; ok {
			in.gvars[w[1]] = v
		} else {
			o.kind, o.class = "error", "<unbound-variable>"
		}
	case ":global":
		in.gvars[w[1]] = readProgram(w[2])[0]
	case ":getfunc":
		if x := in.lookup(sc, 'f', w[1]); x != nil {
			o.val = "function"
		} else if _, ok := in.gfuns[w[1]]; ok {
			o.val = "function"
		} else {
			o.kind, o.class = "error", "<undefined-function>"
		}
	}
	return o
}

func (c *C) implAPIStep(iw *implWorld, lw *gl.World, s, id string) *obs {
	if s[0] != ':' {
		return c.implRunID(&implWorld{w: lw, out: iw.out, err: iw.err}, s, id, newStepCtx(100_000))
	}
	w := strings.Fields(strings.ReplaceAll(s, "@", id))
	o := &obs{kind: "value"}
	var err error
	switch w[0] {
	case ":get":
		var v gl.Node
		if v, err = lw.Get(gl.NewSymbol(w[1])); err == nil {
			o.val = strings.ReplaceAll(ishow(iw.w, v), id, "@")
		}
	case ":set":
		var n int
		fmt.Sscan(w[2], &n)
		err = lw.Set(gl.NewSymbol(w[1]), gl.Integer(n))
	case ":global":
		var n int
		fmt.Sscan(w[2], &n)
		lw.DefineGlobal(gl.NewSymbol(w[1]), gl.Integer(n))
	case ":getfunc":
		var f gl.Callable
		if f, err = lw.GetFunc(gl.NewSymbol(w[1])); err == nil {
			o.val = "function"
			if f == nil {
				o.val = "no function"
			}
		}
	}
	if err != nil {
		o.kind, o.class = "error", errClass(err)
	}
	return o
}

// argCounts calls Go functions with every number of arguments.
func (c *C) argCounts() {
	for cc := 0; cc <= 3; cc++ {
		for min := 0; min <= 3; min++ {
			for max := 0; max <= 3; max++ {
				if cc > 0 && (min > 0 || max > 0 && max < cc) || max > 0 && min > max {
					continue
				}
				for n := 0; n <= 5; n++ {
					for way := 0; way < 3; way++ {
						if !c.Take() {
							continue
						}
						lo, hi := min, max
						if cc > 0 {
							// C is both bounds, unless Max is given too.
							lo = cc
							if max == 0 {
								hi = cc
							}
						}
						if hi == 0 {
							hi = 1000
						}
						args := ""
						want := "value (go"
						for i := 0; i < n; i++ {
							args += fmt.Sprintf(" (tr %d)", i+1)
							want += fmt.Sprintf(" %d", i+1)
						}
						want += ")"
						if n < lo || n > hi {
							want = "error <program-error>"
						}
						src := []string{"(f" + args + ")", "(funcall #'f" + args + ")", "(apply #'f (list" + args + "))"}[way]
						cc, min, max := cc, min, max
						c.Case("arguments of Go functions", fmt.Sprintf("Function{C:%d,Min:%d,Max:%d} %s", cc, min, max, src), func() (string, string) {
							called := false
							f := &gl.Function{C: cc, Min: min, Max: max, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
								called = true
								return gl.List(append([]gl.Node{gl.NewSymbol("go")}, a...)...), nil
							}}
							iw := c.World()
							o := c.implRunIn(&implWorld{w: iw.w.Flet(gl.Functions{gl.NewSymbol("f"): f}), out: iw.out, err: iw.err}, src, newStepCtx(10_000))
							o.trace = nil
							got := o.describe()
							if called != strings.HasPrefix(want, "value") {
								got += " called: " + fmt.Sprint(called)
							}
							return want, got
						})
					}
				}
			}
		}
	}
}

// fixedCounts calls Go functions of the types with a fixed number of
// arguments.
func (c *C) fixedCounts() {
	for k := 0; k <= 2; k++ {
		for n := 0; n <= 4; n++ {
			for bad := -1; bad < n; bad++ {
				for way := 0; way < 3; way++ {
					if !c.Take() {
						continue
					}
					args, trace, vals := "", "", ""
					for i := 0; i < n; i++ {
						switch {
						case i == bad:
							args += " (throw 'q 'out)"
						case i == 1:
							args += fmt.Sprintf(" (progn (tr %d) nil)", i+1)
							vals += " nil"
						default:
							args += fmt.Sprintf(" (tr %d)", i+1)
							vals += fmt.Sprintf(" %d", i+1)
						}
						if bad < 0 || i < bad {
							trace += fmt.Sprintf(" %d", i+1)
						}
					}
					want := "value (go" + vals + ")"
					switch {
					case bad >= 0:
						want = "value out"
					case n != k:
						want = "error <program-error>"
					}
					src := "(catch 'q " + []string{"(f" + args + ")", "(funcall #'f" + args + ")", "(apply #'f (list" + args + "))"}[way] + ")"
					sure := n == k
					k := k
					c.Case("arguments of Go functions", fmt.Sprintf("Function%d %s", k, src), func() (string, string) {
						called := false
						ret := func(a ...gl.Node) (gl.Node, error) {
							called = true
							return gl.List(append([]gl.Node{gl.NewSymbol("go")}, a...)...), nil
						}
						f := []gl.Callable{
							gl.Function0(func(ctx context.Context, w *gl.World) (gl.Node, error) { return ret() }),
							gl.Function1(func(ctx context.Context, w *gl.World, a gl.Node) (gl.Node, error) { return ret(a) }),
							gl.Function2(func(ctx context.Context, w *gl.World, a, b gl.Node) (gl.Node, error) { return ret(a, b) })}[k]
						iw := c.World()
						o := c.implRunIn(&implWorld{w: iw.w.Flet(gl.Functions{gl.NewSymbol("f"): f}), out: iw.out, err: iw.err}, src, newStepCtx(10_000))
						got := o.kind + " " + o.val
						if o.kind == "error" {
							got = "error " + o.class
						}
						if called != strings.HasPrefix(want, "value (go") {
							got += " called: " + fmt.Sprint(called)
						}
						if !sure {
							// which operands are evaluated before too many or
							// too few are noticed is not specified
							if bad >= 0 && strings.HasPrefix(got, "error <program-error>") {
								got = want
							}
							return want, got
						}
						return want + " after " + strings.TrimSpace(trace), got + " after " + strings.Join(o.trace, " ")
					})
				}
			}
		}
	}
}

// specials give special forms their operands unevaluated.
func (c *C) specials() {
	for _, ops := range []string{"", "x", "(tr 1)", "(tr 1) (car 1) . x", "x y z", "(f 1) ,x `(y ,z)"} {
		if !c.Take() {
			continue
		}
		src := "(f " + ops + ")"
		c.Case("operands of special forms", src, func() (string, string) {
			iw := c.World()
			var got string
			f := gl.SpecialF(func(ctx context.Context, w *gl.World, n gl.Node) (gl.Node, error) {
				got = ishow(w, n)
				return gl.Null, nil
			})
			o := c.implRunIn(&implWorld{w: iw.w.Flet(gl.Functions{gl.NewSymbol("f"): f}), out: iw.out, err: iw.err}, src, newStepCtx(10_000))
			return "value nil " + show(readProgram("(" + ops + ")")[0]), o.describe() + " " + got
		})
	}
}

var errHost = errors.New("host error")

// Errors of Go functions pass through every form.
const goErrorRules = `
P: 0 $T
T: 1 (progn (tr 1) $T (tr 2))
T: 1 (with-handler (lambda (c) (throw 'k (tr 'handled))) $T)
T: 1 (catch 'k $T)
T: 1 (block b $T)
T: 1 (let ((x $T)) x)
T: 1 (flet ((f () $T)) (f))
T: 1 (labels ((f (n) (if (= n 0) $T (f (- n 1))))) (f 2))
T: 1 (mapcar (lambda (x) $T) '(1 2))
T: 1 (unwind-protect $T (tr 'c))
T: 1 (unwind-protect (tr 'p) $T)
T: 1 (dynamic-let ((d $T)) 1)
T: 1 (tagbody $T)
T: 1 (while t $T)
T: 1 (list (tr 1) $T (tr 2))
T: 1 (apply #'list (list $T))
T: 1 (ignore-errors $T)
T: 1 (if $T 1 2)
T: 1 (case $T ((1) 1) (t 2))
T: 1 (eval '$T)
T: 1 (setf (car (list 1)) $T)
T: 0 (host-error)
`

func (c *C) goErrors(src string) {
	for _, host := range []error{errHost, fmt.Errorf("wrapped: %w", errHost), io.EOF, context.Canceled} {
		if !c.Take() {
			continue
		}
		// A Go error is an error like any other.
		m := refRun(strings.ReplaceAll(src, "(host-error)", "(car 1)"))
		if m.kind == "undef" {
			c.Skip(m.why)
			continue
		}
		if m.kind == "error" && m.class == "<domain-error>" {
			m.kind, m.class = "the host's error", ""
		}
		c.Case("errors of Go functions", fmt.Sprintf("%s error: %v", src, host), func() (string, string) {
			iw := c.World()
			f := gl.Function0(func(ctx context.Context, w *gl.World) (gl.Node, error) {
				return nil, host
			})
			o := c.implRunIn(&implWorld{w: iw.w.Flet(gl.Functions{gl.NewSymbol("host-error"): f}), out: iw.out, err: iw.err}, src, newStepCtx(10_000))
			if o.err != nil && errors.Is(o.err, host) {
				o.kind, o.class = "the host's error", ""
			}
			return m.describe(), o.describe()
		})
	}
}

// symbols checks interning.
func (c *C) symbols() {
	var names []string
	letters := []string{"a", "A", "-", "1", "あ", ":", "|"}
	for n := 0; n <= c.Pick(3, 4); n++ {
		forIndexPow(len(letters), n, func(ix []int) {
			s := ""
			for _, i := range ix {
				s += letters[i]
			}
			names = append(names, s)
		})
	}
	seen := map[int]string{}
	c.Case("symbols", "all names", func() (string, string) {
		for _, n := range names {
			s := gl.NewSymbol(n)
			if s.String() != n {
				return n, s.String()
			}
			if o, ok := seen[s.Id()]; ok && o != n {
				return n + " is a symbol of its own", "that of " + o
			}
			seen[s.Id()] = n
			if again := gl.NewSymbol(n); again != s || !again.Equals(s, gl.STRICT) {
				return n + " always the same", "another"
			}
		}
		return "", ""
	})
	// A generated symbol is no symbol that a program can name.
	for _, pre := range []int{0, 1, 2, 3} {
		for ahead := 0; ahead < 6; ahead++ {
			if !c.Take() {
				continue
			}
			c.Case("gensym", fmt.Sprint(pre, " gensyms, then the name of one, then ", ahead), func() (string, string) {
				iw := c.World()
				w := iw.w
				gen := func() gl.Node {
					v, err := w.Interpret(newStepCtx(1000), "(gensym)")
					if err != nil {
						panic(err)
					}
					return v
				}
				all := []gl.Node{}
				for i := 0; i <= pre; i++ {
					all = append(all, gen())
				}
				last := all[len(all)-1].String()
				// names like it, with the numbers that follow
				num := strings.Trim(strings.TrimLeft(last, "-+gensymGENSYM:#"), "-+|")
				var n int
				fmt.Sscan(num, &n)
				for i := 0; i < 8; i++ {
					name := strings.Replace(last, num, fmt.Sprint(n+i), 1)
					v, err := w.Interpret(newStepCtx(1000), "(quote "+name+")")
					if err == nil {
						if v.String() == name {
							all = append(all, v)
						}
					}
					all = append(all, gl.NewSymbol(name+"x"))
				}
				for i := 0; i < ahead; i++ {
					all = append(all, gen())
				}
				for i := range all {
					for j := range all {
						if i != j && all[i].Equals(all[j], gl.STRICT) {
							return "different symbols", fmt.Sprint(i, j, " are the same: ", all[i])
						}
					}
				}
				return "", ""
			})
		}
	}
}

func forIndexPow(k, n int, f func([]int)) {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = k
	}
	forIndex(dims, f)
}

// hostOutput interleaves what the host and the program write.
func (c *C) hostOutput(ops []int) {
	if !c.Take() {
		return
	}
	names := []string{"a", "\n", "b\n", "lisp a", "lisp line", "lisp ~&", "new buffer", "c via World.Stdout fmt", "", "c\nd"}
	var d []string
	for _, o := range ops {
		d = append(d, fmt.Sprintf("%q", names[o]))
	}
	c.Case("host output", strings.Join(d, " "), func() (string, string) {
		iw := newImplWorldQuick()
		bufs := []*bytes.Buffer{{}}
		iw.w.SetStdout(bufs[0])
		wants := []string{""}
		add := func(s string) { wants[len(wants)-1] += s }
		for _, o := range ops {
			switch o {
			case 9:
				iw.w.Stdout().Write([]byte(names[o]))
				add(names[o])
			case 0, 1, 2, 8:
				io.WriteString(iw.w.Stdout(), names[o])
				add(names[o])
			case 7:
				fmt.Fprintf(iw.w.Stdout(), "%s%d", "c", 1)
				add("c1")
			case 3:
				iw.w.Interpret(newStepCtx(1000), `(format t "l")`)
				add("l")
			case 4:
				iw.w.Interpret(newStepCtx(1000), `(format (standard-output) "m~%")`)
				add("m\n")
			case 5:
				iw.w.Interpret(newStepCtx(1000), `(format t "~&")`)
				if s := wants[len(wants)-1]; s != "" && !strings.HasSuffix(s, "\n") {
					add("\n")
				}
			case 6:
				bufs = append(bufs, &bytes.Buffer{})
				iw.w.SetStdout(bufs[len(bufs)-1])
				wants = append(wants, "")
			}
		}
		var gots []string
		for _, b := range bufs {
			gots = append(gots, b.String())
		}
		return fmt.Sprintf("%q", wants), fmt.Sprintf("%q", gots)
	})
}

var quickWorld *implWorld

// newImplWorldQuick is a World whose state other than its output is not used.
func newImplWorldQuick() *implWorld {
	if quickWorld == nil {
		quickWorld = newImplWorld()
	}
	return quickWorld
}

// fourWays evaluates a text through each of the ways of the interface.
func (c *C) fourWays(src string) {
	if !c.Take() {
		return
	}
	m := refRun(src)
	if m.kind == "undef" {
		c.Skip(m.why)
		return
	}
	c.Case("ways to interpret", src, func() (string, string) {
		iw := c.World()
		want, got := "", ""
		for way := 0; way < 4; way++ {
			id := c.newID()
			text := subst(src, id)
			o := &obs{}
			curTrace = &o.trace
			var v gl.Node
			var err error
			ctx := newStepCtx(100_000)
			iw.out.Reset()
			switch way {
			case 0:
				v, err = iw.w.Interpret(ctx, text)
			case 1:
				v, err = iw.w.InterpretBytes(ctx, []byte(text))
			case 2:
				var ns []gl.Node
				if ns, err = gl.ReadAll(strings.NewReader(text)); err == nil {
					v, err = iw.w.InterpretNodes(ctx, ns)
				}
			case 3:
				var ns []gl.Node
				v = gl.Null
				if ns, err = gl.ReadAll(strings.NewReader(text)); err == nil {
					for _, n := range ns {
						if v, err = iw.w.Eval(ctx, n); err != nil {
							break
						}
					}
				}
			}
			curTrace = nil
			o.out = iw.out.String()
			if err == nil {
				o.kind, o.val = "value", strings.ReplaceAll(ishow(iw.w, v), id, "@")
			} else if errors.Is(err, gl.ErrQuit) {
				o.kind = "quit"
			} else {
				o.kind, o.class = "error", errClass(err)
			}
			for i := range o.trace {
				o.trace[i] = strings.ReplaceAll(o.trace[i], id, "@")
			}
			w, g := compare(m, o)
			want += w + "\n"
			got += g + "\n"
		}
		return want, got
	})
}

// ranges enumerates the variables of nested scopes.
func (c *C) ranges(chain []int) {
	if !c.Take() {
		return
	}
	var desc []string
	for _, l := range chain {
		desc = append(desc, layers[l].name)
	}
	c.Case("World.Range", "New()."+strings.Join(desc, "."), func() (string, string) {
		iw := c.World()
		id := c.newID()
		sym := func(n string) gl.Symbol { return gl.NewSymbol(strings.ReplaceAll(n, "@", id)) }
		w := iw.w
		in := newIn()
		var sc *scope
		for _, l := range chain {
			w, _ = layers[l].impl(iw, w, sym)
			sc = layers[l].model(in, sc)
		}
		want, got := "", ""
		n := 0
		for _, name := range []string{"x@", "y@"} {
			if x := in.lookup(sc, 'v', name); x != nil {
				want += name + "=" + show(x.cell.v) + " "
				n++
			}
		}
		found := map[string][]string{}
		w.Range(func(k gl.Symbol, v gl.Node) bool {
			s := strings.ReplaceAll(k.String(), id, "@")
			found[s] = append(found[s], ishow(w, v))
			return true
		})
		for _, name := range []string{"x@", "y@"} {
			for _, v := range found[name] {
				got += name + "=" + v + " "
			}
		}
		want += "dump"
		got += "dump"
		for _, name := range []string{"x@", "y@"} {
			if x := in.lookup(sc, 'v', name); x != nil {
				want += " " + strings.ReplaceAll(show(&Pair{Sym(name), &Pair{x.cell.v, NIL}}), id, "@")
			}
		}
		iw.out.Reset()
		if _, err := w.Interpret(context.Background(), "(gmn:dump-session)"); err != nil {
			got += err.Error()
		}
		var lines []string
		for _, l := range strings.Split(iw.out.String(), "\n") {
			if l = strings.ReplaceAll(l, id, "@"); strings.HasPrefix(l, "(x@ ") || strings.HasPrefix(l, "(y@ ") {
				lines = append(lines, l)
			}
		}
		sort.Strings(lines)
		for _, l := range lines {
			got += " " + l
		}
		want, got = want+" ", got+" "
		for stop := 1; stop <= n+1; stop++ {
			calls := 0
			w.Range(func(k gl.Symbol, v gl.Node) bool { calls++; return calls < stop })
			want += fmt.Sprint(stop, " ")
			got += fmt.Sprint(calls, " ")
		}
		return want, got
	})
}

// asserts compares expressions with values through World.Assert.
func (c *C) asserts() {
	texts := []string{"1", "2", "1.0", "nil", "'(1)", "'(1 2)", "\"a\"", "#\\a", "'a", "t", "(car 1)"}
	vals := []gl.Node{gl.Integer(1), gl.Integer(2), gl.Float(1), gl.Null, gl.List(gl.Integer(1)), gl.List(gl.Integer(1), gl.Integer(2)), gl.String("a"), gl.Rune('a'), gl.NewSymbol("a"), gl.True}
	for i, t := range texts {
		for j, v := range vals {
			if !c.Take() {
				continue
			}
			c.Case("Assert", t+" is "+v.String(), func() (string, string) {
				return fmt.Sprint(i == j), fmt.Sprint(c.World().w.Assert(t, v) == "")
			})
		}
	}
}

const fourWaysRules = `
P: 0 $F
P: 1 $F $P
F: 0 1
F: 0 (tr 'a)
F: 0 (defun f@ () 'f)
F: 0 (f@)
F: 0 (defglobal g@ (tr 5))
F: 0 g@
F: 0 (car 1)
F: 0 (quit)
F: 0 (setq g@ (list g@ (tr 1)))
F: 0 (defmacro m@ (a) (list 'list a 'g@))
F: 0 (m@ 1)
F: 0 'q
`

func (c *C) runEmbed() {
	c.Section("scopes")
	var chains [][]int
	for n := 0; n <= c.Pick(2, 3); n++ {
		forIndexPow(len(layers), n, func(ix []int) { chains = append(chains, append([]int{}, ix...)) })
	}
	for _, ch := range chains {
		n := len(ch) + 1
		for k := 1; k <= 2; k++ {
			dims := []int{}
			for i := 0; i < k; i++ {
				dims = append(dims, n, len(embedSteps))
			}
			forIndex(dims, func(ix []int) {
				var steps [][2]int
				for i := 0; i < k; i++ {
					steps = append(steps, [2]int{ix[2*i], ix[2*i+1]})
				}
				c.embedCase(ch, steps)
			})
		}
	}
	c.Section("three steps")
	for _, ch := range chains {
		if len(ch) > 1 && !c.Thorough() || len(ch) > 2 {
			continue
		}
		n := len(ch) + 1
		forIndex([]int{n, len(embedSteps), n, len(embedSteps), n, len(embedSteps)}, func(ix []int) {
			c.embedCase(ch, [][2]int{{ix[0], ix[1]}, {ix[2], ix[3]}, {ix[4], ix[5]}})
		})
	}
	c.Section("variables of scopes")
	for n := 0; n <= c.Pick(3, 4); n++ {
		forIndexPow(len(layers), n, func(ix []int) { c.ranges(ix) })
	}
	c.Section("Go functions")
	c.argCounts()
	c.fixedCounts()
	c.specials()
	NewGram(goErrorRules).Upto("P", c.Pick(3, 4), func(s string) bool { c.goErrors(s); return !c.Stop() })
	c.Section("symbols")
	c.symbols()
	c.Section("output of the host")
	for n := 1; n <= c.Pick(4, 5); n++ {
		forIndexPow(10, n, func(ix []int) { c.hostOutput(ix) })
	}
	c.Section("ways to interpret")
	NewGram(fourWaysRules).Upto("P", c.Pick(3, 4), func(s string) bool { c.fourWays(s); return !c.Stop() })
	c.Section("Assert")
	c.asserts()
	c.embedMore()
}

func init() {
	register(&Prop{ID: "P27", Rule: "every chain of up to 2 (thorough 3) scopes of the Go interface x every sequence of up to 2 (on short chains 3) evaluations and calls of the interface in any of them; Go functions with every argument limit and count; every nest of forms around a Go error; all short symbol names; all sequences of host and program output; all texts of up to 4 forms through every way to evaluate; all sequences of up to 6 operations on Dynamics values and of up to 5 on the types of scopes",
		Assumptions: []string{"one goroutine"},
		Run:         func(c *C) { c.runEmbed() }, Replay: replayRerun})
}
