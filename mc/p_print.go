package main

// P11: printed representations read back as equal objects.

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"

	gl "github.com/hymkor/gmnlisp"
)

// build makes the real object for a model value without the reader.
func build(w *gl.World, v V) gl.Node {
	switch x := v.(type) {
	case nilT:
		return gl.Null
	case tT:
		return gl.True
	case int64:
		return gl.Integer(x)
	case float64:
		return gl.Float(x)
	case Str:
		return gl.String(string(x))
	case Chr:
		return gl.Rune(rune(x))
	case Sym:
		return gl.NewSymbol(string(x))
	case Kw:
		return gl.NewKeyword(string(x))
	case *Pair:
		return &gl.Cons{Car: build(w, x.A), Cdr: build(w, x.D)}
	case *Arr:
		dims := gl.Node(gl.Null)
		for i := len(x.dim) - 1; i >= 0; i-- {
			dims = &gl.Cons{Car: gl.Integer(x.dim[i]), Cdr: dims}
		}
		a, err := callNamed(w, "create-array", dims)
		if err != nil {
			return gl.String("create-array: " + err.Error())
		}
		n := 0
		forIndex(x.dim, func(ix []int) {
			if _, err := callNamed(w, "set-aref", append([]gl.Node{build(w, x.el[n]), a}, ints(ix)...)...); err != nil {
				a = gl.String("set-aref: " + err.Error())
			}
			n++
		})
		return a
	}
	panic(harnessBug(fmt.Sprintf("build: %T", v)))
}

// text is a text that refReader reads as v.
func text(v V) string {
	switch x := v.(type) {
	case nilT:
		return "nil"
	case tT:
		return "t"
	case int64:
		return fmt.Sprint(x)
	case float64:
		s := fmt.Sprintf("%.17g", x)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		} else if !strings.Contains(s, ".") {
			s = strings.Replace(s, "e", ".0e", 1)
		}
		return s
	case Str:
		return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(string(x)) + `"`
	case Chr:
		return fmt.Sprintf(`#\U%04X`, rune(x))
	case Sym:
		return "|" + strings.NewReplacer(`\`, `\\`, `|`, `\|`).Replace(string(x)) + "|"
	case Kw:
		return string(x)
	case *Pair:
		s := "(" + text(x.A)
		for d := x.D; ; {
			if p, ok := d.(*Pair); ok {
				s += " " + text(p.A)
				d = p.D
				continue
			}
			if !isNil(d) {
				s += " . " + text(d)
			}
			return s + ")"
		}
	case *Arr:
		if len(x.dim) == 0 {
			return "#0a" + text(x.el[0])
		}
		n := 0
		var lev func(d int) string
		lev = func(d int) string {
			if d == len(x.dim) {
				n++
				return text(x.el[n-1])
			}
			var ss []string
			for i := 0; i < x.dim[d]; i++ {
				ss = append(ss, lev(d+1))
			}
			return "(" + strings.Join(ss, " ") + ")"
		}
		return fmt.Sprintf("#%da%s", len(x.dim), lev(0))
	}
	panic(harnessBug(fmt.Sprintf("text: %T", v)))
}

func printed(w *gl.World, v gl.Node, directive string) string {
	s, err := callNamed(w, "format", gl.Null, gl.String(directive), v)
	if err != nil {
		return "error: " + errClass(err)
	}
	str, ok := s.(gl.String)
	if !ok {
		return "not a string: " + ishow(w, s)
	}
	return string(str)
}

func viaStream(w *gl.World, v, escape gl.Node) string {
	st, err := callNamed(w, "create-string-output-stream")
	if err == nil {
		if _, err = callNamed(w, "format-object", st, v, escape); err == nil {
			var s gl.Node
			if s, err = callNamed(w, "get-output-stream-string", st); err == nil {
				return fmt.Sprint(s)
			}
		}
	}
	return "error: " + err.Error()
}

// princOf is what ~a writes for an atom, and false if that is what ~s writes.
func princOf(v V) (string, bool) {
	switch x := v.(type) {
	case Str:
		return string(x), true
	case Chr:
		return string(rune(x)), true
	case Sym:
		switch x {
		case "quote", "quasiquote", "unquote", "unquote-splicing", "function":
			return "", false
		}
		return string(x), true
	}
	return "", false
}

// rename replaces the atoms that ~a writes differently by plain symbols.
func rename(v V, names *[]string) V {
	if s, ok := princOf(v); ok {
		*names = append(*names, s)
		return Sym(fmt.Sprintf("zq%06d", len(*names)-1))
	}
	switch x := v.(type) {
	case *Pair:
		a := rename(x.A, names)
		return &Pair{a, rename(x.D, names)}
	case *Arr:
		el := make([]V, len(x.el))
		for i, e := range x.el {
			el[i] = rename(e, names)
		}
		return &Arr{x.dim, el}
	}
	return v
}

func printLaw(c *C, input string) (want, got string) {
	w := c.World().w
	r := &refReader{s: []rune(input)}
	s, v := r.next()
	if v == nil {
		panic(harnessBug("text " + input + ": " + s))
	}
	n := build(w, v)
	if ishow(w, n) != s {
		return s, "built " + ishow(w, n)
	}
	out := printed(w, n, "~s")
	back := &refReader{s: []rune(out)}
	bs, _ := back.next()
	if bs != "open" && (bs != s || back.p < len(back.s)) {
		return s, fmt.Sprintf("~s writes %q, which reads as %s", out, bs)
	}
	rd := strings.NewReader(out + " zz")
	m, err := gl.ReadNode(rd)
	if err != nil {
		return s, fmt.Sprintf("~s writes %q, which the reader rejects: %v", out, err)
	}
	if x := ishow(w, m); x != s || rd.Len() != 3 {
		return s, fmt.Sprintf("~s writes %q, which reads as %s", out, x)
	}
	if eq, err := callNamed(w, "equal", n, m); err != nil || eq != gl.True {
		return "equal", fmt.Sprintf("~s writes %q, which reads as an object that is not equal", out)
	}
	for i, x := range []string{printed(w, n, "~s"), viaStream(w, n, gl.True), printed(w, m, "~S")} {
		if x != out {
			return out, fmt.Sprintf("%q (way %d)", x, i)
		}
	}
	// ~a: the same text with strings, characters and symbols written plainly
	var names []string
	plain := printed(w, build(w, rename(v, &names)), "~s")
	var b strings.Builder
	for {
		i := strings.Index(plain, "zq")
		if i < 0 {
			break
		}
		k := 0
		fmt.Sscanf(plain[i+2:i+8], "%d", &k)
		b.WriteString(plain[:i] + names[k])
		plain = plain[i+8:]
	}
	b.WriteString(plain)
	for i, x := range []string{printed(w, n, "~a"), viaStream(w, n, gl.Null), printed(w, n, "~A")} {
		if x != b.String() {
			return b.String(), fmt.Sprintf("%q (~a, way %d)", x, i)
		}
	}
	return s, s
}

// sameText runs a program that returns a list of printed texts of equal contents.
func sameText(c *C, src string) (want, got string) {
	w := c.World().w
	v, err := w.Interpret(context.Background(), subst(src, fmt.Sprintf("-p%d", textSerial.Add(1))))
	if err != nil {
		return "texts", "error: " + err.Error()
	}
	var first string
	for p, ok := v.(*gl.Cons); ok; p, ok = p.Cdr.(*gl.Cons) {
		s := fmt.Sprint(p.Car)
		if first == "" {
			first = s
		} else if s != first {
			return first, s
		}
	}
	return first, first
}

var textSerial atomic.Int64

func init() {
	register(&Prop{ID: "P11",
		Rule:        "every character, one-character string and symbol; all strings and symbols over special characters, numbers of every magnitude, and all structures of conses, vectors and arrays of rank 0 to 3 up to the stated size; each printed with ~s and ~a by two functions and read back by the reader and by the reference reader; tables and instances printed in every order of insertion; functions of eight lambda lists and some fifteen hundred bodies written by expand-defun, read back, evaluated and called",
		Assumptions: []string{"NaN, infinities, functions, streams, instances and tables have no readable representation", "arrays with a dimension after a zero dimension cannot be written down"},
		Run: func(c *C) {
			do := func(v V) {
				if !c.Stop() && c.Take() {
					t := text(v)
					c.Case("print", t, func() (string, string) { return printLaw(c, t) })
				}
			}
			c.Section("characters")
			for r := rune(0); r <= 0x10FFFF; r++ {
				if r >= 0xD800 && r < 0xE000 || r > 0x3400 && r < 0xFF00 && r%64 > 1 && !c.Thorough() || r > 0xFFFF && r%1024 > 1 && !c.Thorough() {
					continue
				}
				do(Chr(r))
				do(Str(string(r)))
				do(Sym(string(r)))
				do(mkList([]V{Chr(r), Str("a" + string(r)), Sym(string(r) + "b")}, Sym("b"+string(r))))
			}
			c.Section("words")
			for _, w := range words(strings.Split("a T n i l 1 . + - # | \\ \" ' ; ( : & @ e \u00a0 é", " "), c.Pick(3, 4)) {
				do(Sym(w))
				do(Str(w))
				do(mkList([]V{Sym(w), Str(w)}, Sym(w)))
			}
			for _, w := range words(strings.Split("\\ \" | a , `", " "), c.Pick(5, 6)) {
				do(Sym(w))
				do(Str(w))
			}
			for _, w := range strings.Fields("nil NIL Nil t T quote 1 -1 +1 1.5 1. .5 1e5 1e+5 -1.0e-7 #xff #\\a #(1) |a| 'a 1+ - + ... .. a.b a.1 NaN inf Infinity 0x10 1_000") {
				do(Sym(w))
				do(list(Sym(w), Kw(":k"), Sym(w)))
			}
			c.Section("numbers")
			fl := []float64{0, 0.1, 0.2, 1.0 / 3, 2.0 / 3, 1e21, 1e20, 1e22, 123456789.125, 1e-5, 1e-6, 1e-7, 9007199254740993, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 0.000001, 0.0000015, 1234567.1234567, 4294967296.5}
			for e := -60; e <= 60; e++ {
				f, g := 1.0, 1.0
				for i := 0; i < e || i < -e; i++ {
					if e > 0 {
						f, g = f*2, g*10
					} else {
						f, g = f/2, g/10
					}
				}
				fl = append(fl, f, g, f*3, g*7, f+1, g+1)
			}
			for _, f := range fl {
				do(f)
				do(-f)
				do(list(f, -f))
			}
			for i := int64(-2000); i < 2000; i++ {
				do(i)
				do(float64(i) / 8)
				do(float64(i) / 100)
				do(float64(i) / 7)
			}
			for i := 0; i < 63; i++ {
				do(int64(1) << i)
				do(-(int64(1) << i))
				do(int64(1)<<i - 1)
			}
			c.Section("structures")
			atoms := []V{NIL, Sym("a"), int64(1), Str(`s"`), Chr('('), Sym("quote"), Sym("quasiquote"), Sym("unquote"), Sym("unquote-splicing"), Sym("function"), 1.5, T, Kw(":k"), Sym("a b"), Sym(".")}
			structures(3, atoms, true, do)
			c.Section("deep structures")
			structures(c.Pick(5, 6), []V{NIL, Sym("a b"), Str("s")}, false, do)
			c.Section("tables and instances")
			keys := []string{"'a", "'b", "\"a\"", "1", "1.0", "#\\a", ":a", "'|a b|", "'|1|"}
			n := c.Pick(4, 5)
			var pick func(ks []string)
			pick = func(ks []string) {
				if len(ks) > 0 && !c.Stop() && c.Take() {
					var fwd, back strings.Builder
					for i := range ks {
						fmt.Fprintf(&fwd, "(setf (gethash %s h) '(%d))", ks[i], i)
						fmt.Fprintf(&back, "(setf (gethash %s g) '(%d))", ks[len(ks)-1-i], len(ks)-1-i)
					}
					src := fmt.Sprintf("(let ((h (make-hash-table)) (g (make-hash-table))) %s %s (list (format nil \"~s\" h) (format nil \"~s\" g) (format nil \"~s\" h) (format nil \"~s\" g)))", fwd.String(), back.String())
					c.Case("text", src, func() (string, string) { return sameText(c, src) })
				}
				if len(ks) == n {
					return
				}
			next:
				for _, k := range keys {
					for _, o := range ks {
						if o == k {
							continue next
						}
					}
					pick(append(ks[:len(ks):len(ks)], k))
				}
			}
			pick(nil)
			for k := 0; k <= 5; k++ {
				var slots, args []string
				for i := 0; i < k; i++ {
					slots = append(slots, fmt.Sprintf("(%c :initarg %c)", 'p'+i, 'p'+i))
					args = append(args, fmt.Sprintf("'%c %d", 'p'+i, i))
				}
				for rep := 0; rep < 4; rep++ {
					src := fmt.Sprintf("(defclass c@ () (%s)) (let ((x (create (class c@) %s)) (y (create (class c@) %s))) (list (format nil \"~s\" x) (format nil \"~s\" x) (format nil \"~s\" y) (format nil \"~s\" x) (format nil \"~s\" y) (format nil \"~s\" x)))%*s",
						strings.Join(slots, " "), strings.Join(args, " "), strings.Join(args, " "), rep, "")
					if !c.Stop() && c.Take() {
						c.Case("text", src, func() (string, string) { return sameText(c, src) })
					}
				}
			}
			definitions(c)
		},
		Replay: func(c *C, input string) {
			if strings.HasPrefix(input, "(defun f@ ") {
				c.Case("definition", input, func() (string, string) { return definitionLaw(c, input) })
				return
			}
			if strings.HasPrefix(input, "(let ((h (make") || strings.HasPrefix(input, "(defclass") {
				c.Case("text", input, func() (string, string) { return sameText(c, input) })
				return
			}
			c.Case("print", input, func() (string, string) { return printLaw(c, input) })
		}})
}

// structures enumerates the values with up to max atoms and wrappers.
func structures(max int, atoms []V, wide bool, do func(V)) {
	var sized [][]V
	for n := 0; n <= max; n++ {
		var vs []V
		emit := func(v V) {
			do(v)
			if n < max {
				vs = append(vs, v)
			}
			if wide && n <= 2 {
				do(&Arr{[]int{1, 2}, []V{v, v}})
				do(&Arr{[]int{2, 2}, []V{v, NIL, NIL, v}})
				do(mkList([]V{v, Sym("a"), v}, v))
			}
		}
		switch {
		case n == 0 && wide:
			for _, dim := range [][]int{{0}, {0, 0}, {2, 0}, {1, 2, 0}} {
				emit(&Arr{dim, nil})
			}
		case n == 1:
			for _, a := range atoms {
				emit(a)
			}
		}
		for i := 1; i < n; i++ {
			for _, a := range sized[i] {
				for _, d := range sized[n-i] {
					emit(&Pair{a, d})
					emit(&Arr{[]int{2}, []V{a, d}})
					if wide && n == 2 {
						emit(&Arr{[]int{2, 1}, []V{a, d}})
						emit(&Arr{[]int{1, 1, 2}, []V{a, d}})
					}
				}
			}
		}
		if n > 0 {
			for _, a := range sized[n-1] {
				emit(&Arr{[]int{1}, []V{a}})
				emit(&Arr{[]int{}, []V{a}})
				emit(list(Sym("quote"), a))
				if wide {
					emit(list(a))
					emit(list(Sym("unquote"), a))
					emit(list(Sym("quasiquote"), a))
				}
			}
		}
		sized = append(sized, vs)
	}
}
