package main

// Values of the reference model and the small reader for generated programs.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
)

type V interface{}
type nilT struct{}
type tT struct{}
type Str string
type Chr rune
type Sym string
type Kw string
type Pair struct{ A, D V }
type Arr struct {
	dim []int
	el  []V
}
type Hash struct {
	keys []V
	vals []V
}
type Fn struct {
	name     string
	params   []string
	rest     string
	body     []V
	sc       *scope
	builtin  func(in *In, a []V) (V, *ab)
	min, max int // max<0: any
	gen      *Gen
}
type Cond struct {
	class string
	obj   *Obj // for user conditions
	a, b  V    // class specific parts
}
type Strm struct {
	out     *strings.Builder
	in      []rune
	pos     int
	notBOL  bool
	isStd   bool
	closed  bool
	isInput bool
}

var NIL = nilT{}
var T = tT{}

func isNil(v V) bool { _, ok := v.(nilT); return ok }
func boolV(b bool) V {
	if b {
		return T
	}
	return NIL
}

func mkList(xs []V, tail V) V {
	for i := len(xs) - 1; i >= 0; i-- {
		tail = &Pair{xs[i], tail}
	}
	return tail
}
func list(xs ...V) V { return mkList(xs, NIL) }

// listOf returns the elements of a proper list.
func listOf(v V) ([]V, bool) {
	var r []V
	for n := 0; ; n++ {
		switch p := v.(type) {
		case nilT:
			return r, true
		case *Pair:
			r = append(r, p.A)
			v = p.D
		default:
			return r, false
		}
		if n > 100000 {
			return r, false
		}
	}
}

func fstr(f float64) string {
	if math.IsNaN(f) {
		return "f:NaN"
	}
	return "f:" + strconv.FormatFloat(f, 'g', -1, 64)
}

// show is the canonical text of a value; it is the model's, not the code's.
func show(v V) string {
	var b strings.Builder
	if graphMode {
		shown = map[any]int{}
		defer func() { shown = nil }()
	}
	showTo(&b, v, 0)
	return b.String()
}

// In graph mode every further visit of a cons or array is shown as ^n, where n
// is the place of the object in the order of first visits; so the text tells
// which parts are shared, and circular structures are finite.
var graphMode bool
var shown map[any]int

func revisit(b *strings.Builder, p any) bool {
	if shown == nil {
		return false
	}
	if n, ok := shown[p]; ok {
		b.WriteString("^" + strconv.Itoa(n))
		return true
	}
	shown[p] = len(shown)
	return false
}

func showTo(b *strings.Builder, v V, depth int) {
	if depth > 60 || b.Len() > 20000 {
		b.WriteString("...")
		return
	}
	switch x := v.(type) {
	case nilT:
		b.WriteString("nil")
	case tT:
		b.WriteString("t")
	case Big:
		b.WriteString(string(x))
	case int64:
		b.WriteString(strconv.FormatInt(x, 10))
	case float64:
		b.WriteString(fstr(x))
	case Str:
		b.WriteString(strconv.Quote(string(x)))
	case Chr:
		b.WriteString("c:" + strconv.Quote(string(rune(x))))
	case Sym:
		b.WriteString(symShow(string(x)))
	case Kw:
		b.WriteString("k:" + string(x))
	case *Pair:
		if revisit(b, x) {
			return
		}
		b.WriteByte('(')
		for n := 0; ; n++ {
			showTo(b, x.A, depth+1)
			if isNil(x.D) {
				break
			}
			if p, ok := x.D.(*Pair); ok {
				if shown != nil {
					if _, ok := shown[p]; ok {
						b.WriteString(" . ")
						revisit(b, p)
						break
					}
					revisit(b, p)
				}
				b.WriteByte(' ')
				x = p
				if n > 5000 {
					b.WriteString("...")
					break
				}
				continue
			}
			b.WriteString(" . ")
			showTo(b, x.D, depth+1)
			break
		}
		b.WriteByte(')')
	case *Arr:
		if revisit(b, x) {
			return
		}
		fmt.Fprintf(b, "#%v[", x.dim)
		for i, e := range x.el {
			if i > 0 {
				b.WriteByte(' ')
			}
			showTo(b, e, depth+1)
		}
		b.WriteByte(']')
	case *Hash:
		b.WriteString("#<hash>")
	case *Fn:
		b.WriteString("#<fn>")
	case *Cond:
		b.WriteString("#<cond " + x.class + ">")
	case *Cls:
		b.WriteString("#<class " + x.name + ">")
	case *Obj:
		b.WriteString("#<obj " + x.cls.name + ">")
	case *Strm:
		b.WriteString("#<stream>")
	default:
		panic(harnessBug(fmt.Sprintf("show: %T", v)))
	}
}

func symShow(s string) string {
	if s == "nil" || s == "t" || s == "" {
		return "|" + s + "|"
	}
	for _, r := range s {
		if unicode.IsSpace(r) || strings.ContainsRune("()\"'`,;|\\", r) {
			return "|" + strconv.Quote(s) + "|"
		}
	}
	return s
}

// ---- reader of generated programs --------------------------------------

type rd struct {
	s []rune
	p int
}

func readProgram(src string) []V {
	r := &rd{s: []rune(src)}
	var forms []V
	for {
		r.ws()
		if r.p >= len(r.s) {
			return forms
		}
		forms = append(forms, r.form())
	}
}

func (r *rd) bug(why string) {
	panic(harnessBug("harness bug: cannot read generated program: " + why + ": " + string(r.s)))
}

func (r *rd) ws() {
	for r.p < len(r.s) && unicode.IsSpace(r.s[r.p]) {
		r.p++
	}
}

func (r *rd) has(p string) bool {
	return strings.HasPrefix(string(r.s[r.p:min(len(r.s), r.p+len(p))]), p)
}

func (r *rd) form() V {
	r.ws()
	if r.p >= len(r.s) {
		r.bug("end")
	}
	c := r.s[r.p]
	switch {
	case c == '(':
		r.p++
		return r.rest()
	case c == '\'':
		r.p++
		return list(Sym("quote"), r.form())
	case c == '`':
		r.p++
		return list(Sym("quasiquote"), r.form())
	case r.has(",@"):
		r.p += 2
		return list(Sym("unquote-splicing"), r.form())
	case c == ',':
		r.p++
		return list(Sym("unquote"), r.form())
	case r.has("#'"):
		r.p += 2
		return list(Sym("function"), r.form())
	case r.has("#("):
		r.p += 2
		xs, ok := listOf(r.rest())
		if !ok {
			r.bug("vector")
		}
		return &Arr{[]int{len(xs)}, xs}
	case r.has("#2a("), r.has("#3a("):
		nd := int(r.s[r.p+1] - '0')
		r.p += 4
		return mkArr(nd, r.rest())
	case r.has("#\\"):
		r.p += 2
		st := r.p
		r.p++
		for r.p < len(r.s) && (unicode.IsLetter(r.s[r.p]) || unicode.IsDigit(r.s[r.p])) {
			r.p++
		}
		w := string(r.s[st:r.p])
		switch w {
		case "space":
			return Chr(' ')
		case "newline":
			return Chr('\n')
		case "tab":
			return Chr('\t')
		}
		if len([]rune(w)) != 1 {
			r.bug("char " + w)
		}
		return Chr([]rune(w)[0])
	case c == '"':
		r.p++
		var b strings.Builder
		for {
			if r.p >= len(r.s) {
				r.bug("string")
			}
			c := r.s[r.p]
			r.p++
			if c == '"' {
				return Str(b.String())
			}
			if c == '\\' {
				c = r.s[r.p]
				r.p++
			}
			b.WriteRune(c)
		}
	}
	st := r.p
	for r.p < len(r.s) && !unicode.IsSpace(r.s[r.p]) && !strings.ContainsRune("()'`,\";", r.s[r.p]) {
		r.p++
	}
	w := string(r.s[st:r.p])
	if w == "" {
		r.bug("token at " + string(r.s[st:]))
	}
	return atomOf(w)
}

func mkArr(nd int, v V) *Arr {
	a := &Arr{dim: make([]int, nd)}
	var walk func(d int, v V)
	walk = func(d int, v V) {
		if d == nd {
			a.el = append(a.el, v)
			return
		}
		xs, _ := listOf(v)
		a.dim[d] = len(xs)
		for _, x := range xs {
			walk(d+1, x)
		}
	}
	walk(0, v)
	return a
}

// Big is an integer outside the range of 64 bits, in decimal; there is no
// arithmetic on them.
type Big string

func atomOf(w string) V {
	if w == "nil" {
		return NIL
	}
	if w == "t" {
		return T
	}
	if w[0] == ':' || w[0] == '&' {
		return Kw(w)
	}
	if v, ok := numberOf(w); ok {
		if v == nil {
			panic(harnessBug("harness bug: number " + w))
		}
		return v
	}
	return Sym(w)
}

func (r *rd) rest() V {
	var xs []V
	for {
		r.ws()
		if r.p >= len(r.s) {
			r.bug("open list")
		}
		if r.s[r.p] == ')' {
			r.p++
			return mkList(xs, NIL)
		}
		if r.s[r.p] == '.' && r.p+1 < len(r.s) && unicode.IsSpace(r.s[r.p+1]) && len(xs) > 0 {
			r.p++
			d := r.form()
			r.ws()
			if r.p >= len(r.s) || r.s[r.p] != ')' {
				r.bug("dot")
			}
			r.p++
			return mkList(xs, d)
		}
		xs = append(xs, r.form())
	}
}
