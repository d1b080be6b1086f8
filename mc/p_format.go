package main

// P12: format, format-object, format-char, format-integer and format-float.

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	gl "github.com/hymkor/gmnlisp"
)

// farg is an argument of format: its source, its text without and with
// escapes and, for integers, its value.
type farg struct {
	src, a, s string
	isInt     bool
	n         int64
	isFloat   bool
	f         float64
}

var fargs = []farg{
	{"42", "42", "42", true, 42, false, 0},
	{"\"xé\\\"y\"", "xé\"y", "\"xé\\\"y\"", false, 0, false, 0},
	{"-7", "-7", "-7", true, -7, false, 0},
	{"#\\c", "c", "#\\c", false, 0, false, 0},
	{"'sym", "sym", "sym", false, 0, false, 0},
	{"'(1 \"b\" . #\\x)", "(1 b . x)", "(1 \"b\" . #\\x)", false, 0, false, 0},
	{"2", "2", "2", true, 2, false, 0},
	{"nil", "nil", "nil", false, 0, false, 0},
	{"#(1 \"b\")", "#(1 b)", "#(1 \"b\")", false, 0, false, 0},
	{"\"\\n\"", "n", "\"n\"", false, 0, false, 0},
	{":key", ":key", ":key", false, 0, false, 0},
	{"9223372036854775807", "9223372036854775807", "9223372036854775807", true, 1<<63 - 1, false, 0},
	{"(- -9223372036854775807 1)", "-9223372036854775808", "-9223372036854775808", true, -1 << 63, false, 0},
	{"0", "0", "0", true, 0, false, 0},
	{"\"\"", "", "\"\"", false, 0, false, 0},
	{"2.5", "?", "?", false, 0, true, 2.5},
	{"-0.125", "?", "?", false, 0, true, -0.125},
	{"\"a\nb\"", "a\nb", "\"a\nb\"", false, 0, false, 0},
}

// col is the text written to a stream so far.
type col struct {
	b strings.Builder
	// unknown means the stream was cleared: whether it is at a line start is open.
	unknown bool
}

func (c *col) put(s string) {
	if s != "" {
		c.unknown = false
	}
	c.b.WriteString(s)
}

func (c *col) bol() bool {
	s := c.b.String()
	return s == "" || s[len(s)-1] == '\n'
}

func padLeft(s string, width int64, pad rune) string {
	for n := int64(utf8.RuneCountInString(s)); n < width; n++ {
		s = string(pad) + s
	}
	return s
}

// refFormat is the reference for format: "" or why the case is open, or "error".
func refFormat(c *col, ctrl string, args []farg) string {
	rs := []rune(ctrl)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '~' {
			c.put(string(rs[i]))
			continue
		}
		i++
		var ps []int64
		for ; ; i++ {
			if i >= len(rs) {
				return "control string ends in a directive"
			}
			switch {
			case rs[i] >= '0' && rs[i] <= '9':
				n := int64(0)
				for ; i < len(rs) && rs[i] >= '0' && rs[i] <= '9'; i++ {
					n = n*10 + int64(rs[i]-'0')
				}
				i--
				ps = append(ps, n)
			case rs[i] == '\'':
				i++
				if i >= len(rs) {
					return "control string ends in a directive"
				}
				ps = append(ps, int64(rs[i]))
			case rs[i] == 'v' || rs[i] == 'V':
				if len(args) == 0 {
					return "error"
				}
				if !args[0].isInt {
					return "error"
				}
				if args[0].n < 0 || args[0].n > 200 {
					return "negative or huge width"
				}
				ps = append(ps, args[0].n)
				args = args[1:]
			case rs[i] == '#':
				ps = append(ps, int64(len(args)))
			default:
				goto directive
			}
			if i+1 < len(rs) && rs[i+1] == ',' {
				i++
				continue
			}
			i++
			break
		}
	directive:
		if i >= len(rs) {
			return "control string ends in a directive"
		}
		nth := func(k int, d int64) int64 {
			if k < len(ps) {
				return ps[k]
			}
			return d
		}
		switch rs[i] {
		case '~':
			if len(ps) > 0 {
				return "~n~"
			}
			c.put("~")
			continue
		case '%':
			c.put(strings.Repeat("\n", int(nth(0, 1))))
			continue
		case '&':
			if c.unknown {
				return "fresh-line of a cleared stream"
			}
			n := nth(0, 1)
			if n > 0 && c.bol() {
				n--
			}
			c.put(strings.Repeat("\n", int(n)))
			continue
		}
		if !strings.ContainsRune("aAsSdDxXoObBfFeEgG", rs[i]) {
			return "error" // no such directive
		}
		if len(args) == 0 {
			return "error"
		}
		v := args[0]
		args = args[1:]
		switch rs[i] {
		case 'e', 'E', 'g', 'G':
			if !v.isInt && !v.isFloat {
				return "error"
			}
			return "text of a float"
		case 'a', 'A', 's', 'S':
			s := v.a
			if rs[i] == 's' || rs[i] == 'S' {
				s = v.s
			}
			if v.isFloat {
				return "text of a float"
			}
			if len(ps) > 1 {
				return "parameters of ~a"
			}
			for n := int64(utf8.RuneCountInString(s)); n < nth(0, 0); n++ {
				s += " "
			}
			c.put(s)
		case 'f', 'F':
			if !v.isInt && !v.isFloat {
				return "error"
			}
			if !v.isFloat || len(ps) == 1 {
				return "~f without precision"
			}
			if len(ps) > 2 {
				return "parameters of ~f"
			}
			if len(ps) == 0 {
				return "~f without precision"
			}
			if ps[1] > 15 {
				return "precision"
			}
			c.put(padLeft(strconv.FormatFloat(v.f, 'f', int(ps[1]), 64), ps[0], ' '))
		default:
			base := map[rune]int{'d': 10, 'x': 16, 'o': 8, 'b': 2}[rs[i]|0x20]
			if v.isFloat {
				return "integer directive of a float"
			}
			if !v.isInt {
				return "error"
			}
			if len(ps) > 2 {
				return "parameters of ~d"
			}
			if nth(1, ' ') < ' ' {
				return "padding with control characters"
			}
			s := strconv.FormatInt(v.n, base)
			c.put(padLeft(strings.ToUpper(s), nth(0, 0), rune(nth(1, ' '))))
		}
	}
	return ""
}

var fpieces = []string{"~d", "~a", "x", "~%", "~&", "~s", "~~", "\n", "~5d", "~4,'*a", "~6a", "~3s", "~x", "~B", "~4,'0X", "~o", "~2%", "~2&", "~0&", "~0%", "é",
	"~va", "~#d", "~6,2f", "~4,'é\x64", "~v,'.d", "~#,'-a", "~12,'-d", "~3,v\x64", "~z", "~'a", "~10,3f", "~D", "~A", "~V%", "~#%", "~#&", "\t;\"\\"}

func lispCtrl(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (c *C) formatCase(ctrl string, args []farg) {
	if !c.Take() {
		return
	}
	src := "(format nil " + lispCtrl(ctrl)
	for _, a := range args {
		src += " " + a.src
	}
	src += ")"
	cl := &col{}
	st := refFormat(cl, ctrl, args)
	want := "value " + strconv.Quote(cl.b.String())
	switch st {
	case "":
	case "error":
		want = "error"
	default:
		c.Skip(st)
		return
	}
	c.Case("format", src, func() (string, string) {
		o := c.implRun(src)
		if o.kind == "error" {
			return want, "error"
		}
		return want, o.describe()
	})
}

// ---- streams -------------------------------------------------------------

type fop struct {
	src   string // with S for the stream
	apply func(c *col) string
}

func fput(s string) func(*col) string { return func(c *col) string { c.put(s); return "" } }
func ffmt(ctrl string, args ...farg) func(*col) string {
	return func(c *col) string { return refFormat(c, ctrl, args) }
}

var fops = []fop{
	{`(format S "~&")`, ffmt("~&")},
	{`(format-char S #\newline)`, fput("\n")},
	{`(format S "ab")`, fput("ab")},
	{`(format-object S "p\"" t)`, fput(`"p\""`)},
	{`(format S "~%")`, fput("\n")},
	{`(format-integer S -255 16)`, fput("-FF")},
	{`(format S "x~%~2&y")`, ffmt("x~%~2&y")},
	{`(format-object S "z
" nil)`, fput("z\n")},
	{`(format-char S #\é)`, fput("é")},
	{`(format S "~a" "m
n")`, fput("m\nn")},
	{`(format-integer S 35 36)`, fput("Z")},
	{`(format S "~2&~d~&" 5)`, ffmt("~2&~d~&", farg{isInt: true, n: 5})},
	{`(format-object S '(a "b") nil)`, fput("(a b)")},
	{`(format S "~a" "")`, fput("")},
}

// fdests are the streams a case writes to, as one program environment.
var fdests = []string{"s1", "t", "s2", "(error-output)", "f", "(standard-output)"}

// formatStreams runs a sequence of operations on the streams and compares
// everything that arrived.
func (c *C) formatStreams(seq [][2]int) {
	if !c.Take() {
		return
	}
	src := "(with-open-output-file (f \"ff\") (let ((s1 (create-string-output-stream)) (s2 (create-string-output-stream)) (vals nil))"
	cols := map[string]*col{}
	for _, d := range fdests {
		cols[d] = &col{}
	}
	cols["(standard-output)"] = cols["t"]
	rets := 0
	for _, od := range seq {
		op, d := fops[od[0]], fdests[od[1]]
		src += " (setq vals (cons " + strings.ReplaceAll(op.src, "S", d) + " vals))"
		if why := op.apply(cols[d]); why != "" {
			c.Skip(why)
			return
		}
		rets++
	}
	src += " (list vals (get-output-stream-string s1) (get-output-stream-string s2))))"
	nils := "nil"
	if rets > 0 {
		nils = "(" + strings.TrimSpace(strings.Repeat("nil ", rets)) + ")"
	}
	want := fmt.Sprintf("value (%s %q %q) out %q err %q file %q", nils, cols["s1"].b.String(), cols["s2"].b.String(), cols["t"].b.String(), cols["(error-output)"].b.String(), cols["f"].b.String())
	c.Case("streams", src, func() (string, string) {
		iw := c.World()
		iw.w.SetStdout(iw.out)
		iw.w.SetErrout(iw.err)
		os.Remove("ff")
		o := c.implRunIn(iw, src, newStepCtx(3_000_000))
		data, _ := os.ReadFile("ff")
		v := o.kind
		if o.kind == "value" {
			v += " " + o.val
		}
		return want, fmt.Sprintf("%s out %q err %q file %q", v, iw.out.String(), iw.err.String(), data)
	})
}

// ---- floats ---------------------------------------------------------------

var (
	reF = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?$`)
	reE = regexp.MustCompile(`^-?[0-9](\.[0-9]+)?e[-+]?[0-9]+$`)
)

// formatFloats: the text of ~f, ~e, ~g and format-float denotes the number.
func (c *C) formatFloats() {
	vals := []float64{0, 1, -1, 12.3, 0.1, 1e21, 1e-7, 123456789.125, -2.5e-10, 1e300, 5e-324, 1.7976931348623157e308, 3.141592653589793, 100, 1e5, 1e6, 0.3, -0.001, 9007199254740993}
	for m := -40; m <= 40; m++ {
		vals = append(vals, float64(m)/8, float64(m)*1e10/3)
	}
	for _, v := range []int64{0, 1, -1, 16777217, -16777217, 123456789, 4503599627370497, 9007199254740991, -9007199254740991} {
		for _, form := range []string{`(format nil "~f" A)`, `(format nil "~e" A)`, `(format nil "~g" A)`, `(format nil "~F" A)`} {
			if !c.Take() {
				continue
			}
			src := strings.ReplaceAll(form, "A", strconv.FormatInt(v, 10))
			c.Case("floats", src, func() (string, string) {
				want := "the number " + strconv.FormatInt(v, 10)
				o := c.implRun(src)
				s, _ := o.node.(gl.String)
				if f, err := strconv.ParseFloat(string(s), 64); err != nil || f != float64(v) {
					return want, o.describe()
				}
				return want, want
			})
		}
	}
	for _, v := range vals {
		for _, form := range []string{`(format nil "~f" A)`, `(format nil "~e" A)`, `(format nil "~g" A)`, `(format nil "[~F]~a" A 1)`, `(let ((s (create-string-output-stream))) (format-float s A) (get-output-stream-string s))`,
			`(format nil "~30f" A)`} {
			if !c.Take() {
				continue
			}
			text := strconv.FormatFloat(v, 'f', -1, 64)
			if !strings.Contains(text, ".") {
				text += ".0"
			}
			src := strings.ReplaceAll(form, "A", text)
			c.Case("floats", src, func() (string, string) {
				want := "the text of " + strconv.FormatFloat(v, 'g', -1, 64)
				o := c.implRun(src)
				s, ok := o.node.(gl.String)
				if !ok {
					return want, o.describe()
				}
				x := string(s)
				if strings.Contains(form, "[") {
					if !strings.HasPrefix(x, "[") || !strings.HasSuffix(x, "]1") {
						return want, x
					}
					x = x[1 : len(x)-2]
				}
				if strings.Contains(form, "30") {
					if y := strings.TrimLeft(x, " "); len(x) < 30 || len(x) > 30 && x != y {
						return want, x
					} else {
						x = y
					}
				}
				f, err := strconv.ParseFloat(x, 64)
				if err != nil || f != v {
					return want, strconv.Quote(x)
				}
				if strings.Contains(form, "~e") && !reE.MatchString(x) || strings.ContainsAny(form, "fF") && !strings.Contains(form, "~") && !reF.MatchString(x) ||
					(strings.Contains(form, "~f") || strings.Contains(form, "~F")) && !reF.MatchString(x) {
					return want, "form of " + strconv.Quote(x)
				}
				return want, want
			})
		}
	}
}

func (c *C) formatIntegers() {
	vals := []int64{0, 1, -1, 7, 35, 36, 255, -256, 1<<63 - 1, -1 << 63, 1 << 62}
	for _, v := range vals {
		for radix := 2; radix <= 36; radix++ {
			if !c.Take() {
				continue
			}
			text := strconv.FormatInt(v, 10)
			if v == -1<<63 {
				text = "(- -9223372036854775807 1)"
			}
			src := fmt.Sprintf("(let ((s (create-string-output-stream))) (format-integer s %s %d) (get-output-stream-string s))", text, radix)
			want := "value " + strconv.Quote(strings.ToUpper(strconv.FormatInt(v, radix)))
			c.Case("integers", src, func() (string, string) { return want, c.implRun(src).describe() })
		}
	}
	for _, text := range []string{"9223372036854775808", "-9223372036854775809", "99999999999999999999", "-123456789012345678901234567890"} {
		v, _ := new(big.Int).SetString(text, 10)
		for radix := 2; radix <= 36; radix++ {
			if !c.Take() {
				continue
			}
			src := fmt.Sprintf("(list (format-integer nil %s %d)", text, radix)
			w := strings.ToUpper(v.Text(radix))
			want := "value (" + strconv.Quote(w)
			if d := map[int]string{2: "b", 8: "o", 10: "d", 16: "x"}[radix]; d != "" {
				for _, width := range []int{0, 5, len(w) - 1, len(w), len(w) + 1, len(w) + 9} {
					src += fmt.Sprintf(" (format nil \"<~%d,'*%s>\" %s)", width, d, text)
					want += " " + strconv.Quote("<"+padLeft(w, int64(width), '*')+">")
				}
			}
			src, want = src+")", want+")"
			c.Case("integers", src, func() (string, string) { return want, c.implRun(src).describe() })
		}
	}
	// errors
	for _, bad := range []string{`(format-integer S 1 1)`, `(format-integer S 1 37)`, `(format-integer S 'a 10)`, `(format-integer S 1 'a)`, `(format-integer S "1" 10)`, `(format-char S "a")`, `(format-char S 97)`,
		`(format-float S 'a)`, `(format-float S "1")`, `(format S 'a)`, `(format S #\a)`, `(format S)`, `(format-object S 1)`, `(format-object S 1 nil nil)`, `(format-char S)`,
		`(format-char 1 #\a)`, `(format 'x "a")`, `(format "x" "a")`, `(format 1 "a")`, `(format-object "s" 1 nil)`, `(format-integer '(1) 1 10)`, `(format (create-string-input-stream "") "a")`} {
		for _, d := range []string{"nil", "t", "(create-string-output-stream)", "(standard-output)"} {
			if !c.Take() {
				continue
			}
			src := strings.ReplaceAll(bad, "S", d)
			c.Case("bad", src, func() (string, string) { return "error", c.implRun(src).kind })
		}
	}
}

func (c *C) runFormat() {
	nargs := c.Pick(4, len(fargs))
	c.Section("one directive")
	for _, p := range fpieces {
		for n := 0; n <= 3; n++ {
			tuples(len(fargs), n, func(ix []int) {
				if n == 3 && !c.Thorough() && ix[2] > 3 {
					return
				}
				args := make([]farg, n)
				for i, x := range ix {
					args[i] = fargs[x]
				}
				c.formatCase(p, args)
			})
		}
	}
	c.Section("all directives of one character")
	for r := rune(0); r < 0x250; r++ {
		if r == '~' || r == '@' {
			continue
		}
		for _, a := range fargs[:2] {
			c.formatCase("<~"+string(r), []farg{a, fargs[2], fargs[2]})
			c.formatCase("~"+string(r)+">", []farg{a})
			c.formatCase("~7"+string(r)+">", []farg{a, fargs[2]})
			c.formatCase("~7,'"+string(r)+"d", []farg{a, fargs[2]})
		}
	}
	c.Section("widths")
	for _, d := range "adsxob" {
		for w := 0; w <= 40; w++ {
			for _, a := range fargs {
				c.formatCase(fmt.Sprintf("~%d%c|", w, d), []farg{a})
				c.formatCase(fmt.Sprintf("~v%c|", d), []farg{{isInt: true, n: int64(w), src: fmt.Sprint(w)}, a})
				c.formatCase(fmt.Sprintf("~%d,'0%c|", w, d), []farg{a})
				c.formatCase(fmt.Sprintf("~%d,'あ%c|", w, d), []farg{a})
			}
		}
	}
	for w := 0; w <= 20; w++ {
		for p := 0; p <= 15; p++ {
			for _, a := range fargs {
				c.formatCase(fmt.Sprintf("~%d,%df|", w, p), []farg{a})
			}
		}
	}
	c.Section("two directives")
	tuples(len(fpieces), 2, func(ix []int) {
		ctrl := fpieces[ix[0]] + fpieces[ix[1]]
		for n := 0; n <= 4; n++ {
			tuples(c.Pick(3, 6), n, func(ax []int) {
				args := make([]farg, n)
				for i, x := range ax {
					args[i] = fargs[x]
				}
				c.formatCase(ctrl, args)
			})
		}
	})
	c.Section("three directives")
	tuples(len(fpieces), 3, func(ix []int) {
		ctrl := fpieces[ix[0]] + fpieces[ix[1]] + fpieces[ix[2]]
		for n := 0; n <= 3; n++ {
			for k := 0; k < min(nargs, 3); k++ {
				args := make([]farg, n)
				for i := range args {
					args[i] = fargs[(i+k)%nargs]
				}
				c.formatCase(ctrl, args)
			}
		}
	})
	c.Section("floats")
	c.formatFloats()
	c.Section("integers and errors")
	c.formatIntegers()
	c.Section("sequences of output to one stream")
	for d := range fdests {
		for n := 0; n <= c.Pick(4, 5); n++ {
			tuples(c.Pick(10, len(fops)), n, func(ix []int) {
				seq := make([][2]int, n)
				for i, x := range ix {
					seq[i] = [2]int{x, d}
				}
				c.formatStreams(seq)
			})
		}
	}
	c.Section("output interleaved on several streams")
	no := c.Pick(7, 8)
	for n := 2; n <= c.Pick(3, 4); n++ {
		if n == 4 {
			no = 4
		}
		tuples(no*len(fdests), n, func(ix []int) {
			seq := make([][2]int, n)
			for i, x := range ix {
				seq[i] = [2]int{x % no, x / no}
			}
			c.formatStreams(seq)
		})
	}
}

func init() {
	register(&Prop{ID: "P12", Run: (*C).runFormat,
		Rule: "every control string of up to three pieces over the directives, their parameters and literal text, with every tuple of arguments of the pool; every one-character directive; every width; all sequences of output operations to one stream and interleaved on several streams, compared with a reference formatter",
		Assumptions: []string{"the text ~a and ~s give a float, directives cut off by the end of the string, ~n~, negative widths and ~d of a float are left open",
			"after get-output-stream-string it is open whether the stream is at the start of a line"},
		Replay: func(c *C, input string) { c.only = input; c.runFormat() }})
}

// tuples calls f with every sequence of n numbers below k.
func tuples(k, n int, f func(ix []int)) {
	dims := make([]int, n)
	for i := range dims {
		dims[i] = k
	}
	forIndex(dims, func(ix []int) { f(append([]int{}, ix...)) })
}
