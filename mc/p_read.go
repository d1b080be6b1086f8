package main

// P10: the reader. refReader is written from the language's lexical rules: it
// yields the data of a text, an error, or "undefined" for tokens whose meaning
// the language leaves open.

import (
	"io"
	"math/big"
	"strconv"
	"strings"
	"unicode"

	gl "github.com/hymkor/gmnlisp"
)

type readErr struct{}
type readEnd struct{}  // end of text before a datum
type readOpen struct{} // undefined

type refReader struct {
	s []rune
	p int
}

func (r *refReader) peek() rune {
	if r.p < len(r.s) {
		return r.s[r.p]
	}
	return -1
}

func (r *refReader) at(n int) rune {
	if r.p+n < len(r.s) {
		return r.s[r.p+n]
	}
	return -1
}

// blank skips white space and comments.
func (r *refReader) blank() {
	for r.p < len(r.s) {
		switch c := r.s[r.p]; {
		case unicode.IsSpace(c):
			r.p++
		case c == ';':
			for r.p < len(r.s) && r.s[r.p] != '\n' {
				r.p++
			}
		case c == '#' && r.at(1) == '|':
			for depth := 0; ; {
				if r.p+1 >= len(r.s) {
					panic(readErr{})
				}
				if two := string(r.s[r.p : r.p+2]); two == "#|" {
					depth++
					r.p += 2
				} else if two == "|#" {
					depth--
					r.p += 2
				} else {
					r.p++
				}
				if depth == 0 {
					break
				}
			}
		default:
			return
		}
	}
}

func delimiter(c rune) bool {
	return c < 0 || unicode.IsSpace(c) || strings.ContainsRune("()\";", c)
}

// word reads constituents; what quotes, bars and comments mean inside is open.
func (r *refReader) word() string {
	st := r.p
	for !delimiter(r.peek()) {
		if strings.ContainsRune("'`,|\\#", r.peek()) && (r.p > st || r.peek() != '#') {
			panic(readOpen{})
		}
		r.p++
	}
	return string(r.s[st:r.p])
}

func (r *refReader) inner() V {
	r.blank()
	if r.p >= len(r.s) {
		panic(readErr{})
	}
	return r.datum()
}

func (r *refReader) quoted(c rune) string {
	var b strings.Builder
	for r.p++; ; r.p++ {
		switch r.peek() {
		case -1:
			panic(readErr{})
		case c:
			r.p++
			return b.String()
		case '\\':
			r.p++
			if r.peek() < 0 {
				panic(readErr{})
			}
			if c == '|' && r.peek() != '|' && r.peek() != '\\' {
				// what an escaped ordinary character means is open, but the text
				// must still be complete
				r.p++
				r.p--
				for r.p++; r.p < len(r.s) && r.peek() != c; r.p++ {
					if r.peek() == '\\' {
						r.p++
					}
				}
				if r.p >= len(r.s) {
					panic(readErr{})
				}
				panic(readOpen{})
			}
		}
		b.WriteRune(r.peek())
	}
}

func (r *refReader) array(rank int) V {
	dim := make([]int, rank)
	seen := make([]bool, rank)
	var el []V
	var level func(d int)
	level = func(d int) {
		n := 0
		for {
			r.blank()
			if r.p >= len(r.s) {
				panic(readErr{})
			}
			if r.peek() == ')' {
				r.p++
				break
			}
			if d == rank-1 {
				el = append(el, r.datum())
			} else {
				if r.peek() != '(' {
					if r.peek() == '#' {
						r.datum() // an error in any case, unless its own meaning is open
					}
					panic(readErr{})
				}
				r.p++
				level(d + 1)
			}
			n++
		}
		if seen[d] && dim[d] != n {
			panic(readErr{})
		}
		seen[d], dim[d] = true, n
	}
	level(0)
	return &Arr{dim, el}
}

func (r *refReader) datum() V {
	two := func(name string, n int) V {
		r.p += n
		return list(Sym(name), r.inner())
	}
	switch c := r.peek(); c {
	case ')':
		r.p++
		panic(readErr{})
	case '(':
		r.p++
		return r.list()
	case '\'':
		return two("quote", 1)
	case '`':
		return two("quasiquote", 1)
	case ',':
		if r.at(1) == '@' {
			return two("unquote-splicing", 2)
		}
		return two("unquote", 1)
	case '"':
		return Str(r.quoted('"'))
	case '|':
		s := r.quoted('|')
		if !delimiter(r.peek()) {
			r.word()
			panic(readOpen{})
		}
		return Sym(s)
	case '#':
		switch n := r.at(1); {
		case n == '\'':
			return two("function", 2)
		case n == '(':
			r.p += 2
			return r.array(1)
		case n == '\\':
			r.p += 2
			st := r.p
			if r.peek() < 0 {
				panic(readErr{})
			}
			r.p++
			r.word()
			w := string(r.s[st:r.p])
			if r.p == st+1 {
				return Chr(r.s[st])
			}
			switch w {
			case "space":
				return Chr(' ')
			case "newline", "linefeed":
				return Chr('\n')
			case "tab":
				return Chr('\t')
			case "return":
				return Chr('\r')
			}
			if w[0] == 'U' {
				if n, err := strconv.ParseUint(w[1:], 16, 32); err == nil && n <= unicode.MaxRune && (n < 0xD800 || n >= 0xE000) {
					return Chr(rune(n))
				}
			}
			panic(readOpen{})
		case n >= '0' && n <= '9':
			i := 1
			for ; r.at(i) >= '0' && r.at(i) <= '9'; i++ {
			}
			if c := r.at(i); c != 'a' && c != 'A' {
				r.word()
				panic(readOpen{})
			}
			rank, err := strconv.Atoi(string(r.s[r.p+1 : r.p+i]))
			if err != nil || rank > 5 {
				panic(readOpen{})
			}
			if rank == 0 {
				r.p += i + 1
				if c := r.peek(); delimiter(c) && c != '(' && c != '"' && c != ')' && c >= 0 || c == '#' && r.at(1) == '|' {
					panic(readOpen{})
				}
				return &Arr{[]int{}, []V{r.inner()}}
			}
			if r.at(i+1) != '(' {
				r.word()
				panic(readOpen{})
			}
			r.p += i + 2
			return r.array(rank)
		}
	}
	w := r.word()
	if w == "." {
		panic(readErr{})
	}
	if v, ok := numberOf(w); ok {
		if v == nil {
			base, digits := 10, w
			if w[0] == '#' {
				base, digits = map[byte]int{'b': 2, 'B': 2, 'o': 8, 'O': 8, 'x': 16, 'X': 16}[w[1]], w[2:]
			}
			if b, ok := new(big.Int).SetString(digits, base); ok && !strings.Contains(digits, "_") {
				return Big(b.String())
			}
			panic(readOpen{})
		}
		return v
	}
	if w[0] == '#' || strings.Trim(w, ".") == "" || w == ":" || w == "&" {
		panic(readOpen{})
	}
	switch {
	case strings.EqualFold(w, "nil"):
		return NIL
	case strings.EqualFold(w, "t"):
		return T
	case w[0] == ':' || w[0] == '&':
		return Kw(w)
	}
	return Sym(w)
}

func (r *refReader) list() V {
	var xs []V
	for {
		r.blank()
		switch {
		case r.p >= len(r.s):
			panic(readErr{})
		case r.peek() == ')':
			r.p++
			return mkList(xs, NIL)
		case r.peek() == '.' && delimiter(r.at(1)):
			r.p++
			if len(xs) == 0 {
				panic(readErr{})
			}
			r.blank()
			if r.p < len(r.s) && r.peek() == ')' {
				panic(readErr{})
			}
			tail := r.inner()
			r.blank()
			if r.p >= len(r.s) || r.peek() != ')' {
				if r.p < len(r.s) && !(r.peek() == '.' && delimiter(r.at(1))) {
					r.datum() // an error in any case, unless its own meaning is open
				}
				panic(readErr{})
			}
			r.p++
			return mkList(xs, tail)
		}
		xs = append(xs, r.datum())
	}
}

// next returns the text of the next datum, "error", "end" or "open".
func (r *refReader) next() (s string, v V) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case readErr:
			s = "error"
		case readEnd:
			s = "end"
		case readOpen:
			s = "open"
		default:
			panic(p)
		}
	}()
	r.blank()
	if r.p >= len(r.s) {
		panic(readEnd{})
	}
	v = r.datum()
	return show(v), v
}

// readLaw compares the data of text, and where each ends, and the data of the
// whole.
func readLaw(w *gl.World, text string) (want, got string) {
	ref := &refReader{s: []rune(text)}
	rd := strings.NewReader(text)
	var b, g strings.Builder
	failed := false
	for {
		s, _ := ref.next()
		if s == "open" {
			return "", ""
		}
		v, err := gl.ReadNode(rd)
		switch {
		case err == io.EOF:
			g.WriteString("end")
		case err != nil:
			g.WriteString("error")
		default:
			g.WriteString(ishow(w, v) + " then " + strconv.Quote(text[len(text)-rd.Len():]))
		}
		b.WriteString(s)
		if s == "end" || s == "error" {
			failed = s == "error"
			break
		}
		b.WriteString(" then " + strconv.Quote(string(ref.s[ref.p:])))
		if err != nil || b.String() != g.String() {
			return b.String(), g.String()
		}
		b.WriteString(", ")
		g.WriteString(", ")
	}
	all, err := gl.ReadAll(strings.NewReader(text))
	if (err != nil) != failed {
		g.WriteString(" but ReadAll differs: " + strconv.Itoa(len(all)))
	}
	return b.String(), g.String()
}

func init() {
	tokens := strings.Split("( ) . ' ` , ,@ #' #( #1a( #2A( #3a( #0a a 1 \"s\" |b\u00a0c| #\\x nil :k ;c\n #|c|#", " ")
	law := func(c *C, text string) (string, string) { return readLaw(c.World().w, text) }
	register(&Prop{ID: "P10",
		Rule:        "all texts of up to the stated number of pieces over seven alphabets of characters and tokens, read by ReadNode one datum at a time (with the place where each ends) and by ReadAll, against a reference reader",
		Assumptions: []string{"tokens with quotes, bars or # inside, unknown names after #\\ and #, '1.', escapes of ordinary characters between bars and arrays of more than five dimensions are undefined and skipped"},
		Run: func(c *C) {
			run := func(name string, alphabet []string, n int, sep string, pre ...string) {
				c.Section(name)
				var gen func(s string, k int)
				gen = func(s string, k int) {
					if c.Stop() {
						return
					}
					if c.Take() {
						c.Case("read", s, func() (string, string) {
							want, got := law(c, s)
							if want == "" && got == "" {
								c.Skip("open token")
							}
							return want, got
						})
					}
					if k == 0 {
						return
					}
					for _, a := range alphabet {
						if s == "" {
							gen(a, k-1)
						} else {
							gen(s+sep+a, k-1)
						}
					}
				}
				if len(pre) == 0 {
					pre = []string{""}
				}
				for _, p := range pre {
					gen(p, n)
				}
			}
			chars := func(s string) []string { return strings.Split(s, "") }
			run("characters", chars("()'a1.\"\\|#; \n"), c.Pick(6, 7), "")
			run("prefixes", chars("`,@#'()a10\""), c.Pick(6, 7), "")
			run("numbers", chars("#xXoObB0179fF+-.e"), c.Pick(5, 6), "", "", "#", "(")
			run("long numbers", chars("0179-.)"), c.Pick(2, 3), "", strings.Fields("9223372036854775807 9223372036854775808 -9223372036854775808 -9223372036854775809 99999999999999999999 -99999999999999999999 +99999999999999999999 922337203685477580 -922337203685477580 #x7FFFFFFFFFFFFFFF #x8000000000000000 #x-8000000000000000 #x-8000000000000001 #x-FFFFFFFFFFFFFFFFF #o777777777777777777777 #o-2777777777777777777777 #b"+strings.Repeat("1", 63)+" #b-1"+strings.Repeat("0", 63)+" #b-"+strings.Repeat("1", 65)+" #B1"+strings.Repeat("01", 40))...)
			run("letter case", strings.Split("nil niL nIl nIL Nil NiL NIl NIL t T nilt tt ( ) . '", " "), 3, " ")
			run("character names", chars("spaceU04()|\\\"'\n\té日\u3000;#"), c.Pick(3, 4), "", "#\\", "(#\\", "#\\n", "#\\sp", "#\\U30")
			for _, w := range []string{"space", "newline", "linefeed", "tab", "return", "U0041", "U1F600", "U3042", "spaces", "Space", "U", "Ux"} {
				run("character "+w, chars(") ('\"1"), 2, "", "#\\"+w, "(#\\"+w, "#(#\\"+w)
			}
			run("quoted", chars("\"|\\;(# aé\n"), c.Pick(5, 6), "", "\"", "|", "(\"")
			run("comments", chars("#|;\na("), c.Pick(7, 9), "")
			run("line ends", chars(";\r\na\"|"), c.Pick(6, 7), "")
			run("tokens", tokens, c.Pick(4, 5), "")
			run("spaced tokens", tokens, c.Pick(4, 5), " ")
			run("arrays", strings.Split("#2a( #3a( ( ) 1 a", " "), c.Pick(7, 9), " ", "", "#2a(", "#3a(", "#3a((")
			run("lists", strings.Split("( ) . 'a b nil", " "), c.Pick(7, 9), " ")
		},
		Replay: func(c *C, input string) { c.Case("read", input, func() (string, string) { return law(c, input) }) }})
}
