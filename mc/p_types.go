package main

// P25: classes of objects, predicates, assure and convert.

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"
)

// typeHier gives the superclasses of the classes of the language.
var typeHier = map[string]string{
	"<object>": "", "<character>": "<object>", "<function>": "<object>", "<list>": "<object>", "<cons>": "<list>",
	"<symbol>": "<object>", "<null>": "<symbol> <list>", "<number>": "<object>", "<integer>": "<number>", "<float>": "<number>",
	"<string>": "<object>", "<array>": "<object>", "<hashtable>": "<object>", "<keyword>": "<object>", "<error>": "<object>",
	"<arithmetic-error>": "<error>", "<division-by-zero>": "<arithmetic-error>", "<floating-point-overflow>": "<arithmetic-error>",
	"<floating-point-underflow>": "<arithmetic-error>", "<control-error>": "<error>", "<parse-error>": "<error>",
	"<program-error>": "<error>", "<domain-error>": "<program-error>", "<undefined-entity>": "<program-error>",
	"<unbound-variable>": "<undefined-entity>", "<undefined-function>": "<undefined-entity>", "<simple-error>": "<error>",
	"<stream-error>": "<error>", "<end-of-stream>": "<stream-error>", "<storage-exhausted>": "<error>",
	"u1@": "<object>", "u2@": "u1@", "u3@": "<object>", "u4@": "u2@ u3@", "e1@": "<simple-error>", "e2@": "e1@ u3@",
}

const typeClasses = "(defclass u1@ () ((s :initform 1))) (defclass u2@ (u1@) ()) (defclass u3@ () ()) (defclass u4@ (u2@ u3@) ()) (defclass e1@ (<simple-error>) ()) (defclass e2@ (e1@ u3@) ()) (defgeneric g@ (x)) (defmethod g@ ((x <object>)) x) "

func caught(form string) string {
	return "(block b (with-handler (lambda (c) (return-from b c)) " + form + "))"
}

// typeObjs are programs for one object of every kind, and the object's class.
var typeObjs = [][2]string{
	{"0", "<integer>"}, {"-5", "<integer>"}, {"9223372036854775807", "<integer>"}, {"99999999999999999999", "<integer>"}, {"-9223372036854775809", "<integer>"}, {"(parse-number \"123456789012345678901\")", "<integer>"}, {"1.5", "<float>"}, {"0.0", "<float>"},
	{"#\\a", "<character>"}, {"#\\space", "<character>"}, {"\"\"", "<string>"}, {"\"abc\"", "<string>"}, {"'a", "<symbol>"}, {"'<list>", "<symbol>"},
	{"(gensym)", "<symbol>"}, {"t", "<symbol>"}, {"nil", "<null>"}, {"'()", "<null>"}, {"'(1)", "<cons>"}, {"(cons 1 2)", "<cons>"}, {"''a", "<cons>"},
	{"(vector)", "<array>"}, {"#(1 2)", "<array>"}, {"(create-array '(2 2) 0)", "<array>"}, {"(create-array '() 0)", "<array>"},
	{"#'car", "<function>"}, {"(lambda (x) x)", "<function>"}, {"#'g@", "<function>"}, {"#'list", "<function>"}, {"#'mapcar", "<function>"}, {"(flet ((f (x) x)) #'f)", "<function>"},
	{"(labels ((f (x) x)) #'f)", "<function>"}, {"#'funcall", "<function>"}, {"#'apply", "<function>"},
	{"(make-hash-table)", "<hashtable>"}, {":k", "<keyword>"}, {"&rest", "<keyword>"},
	{"(create (class u1@))", "u1@"}, {"(create (class u2@))", "u2@"}, {"(create (class u4@))", "u4@"},
	{"(create (class e1@))", "e1@"}, {"(create (class e2@))", "e2@"}, {caught("(error \"x\")"), "<simple-error>"}, {caught("(cerror \"c\" \"x\")"), "<simple-error>"},
	{caught("(/ 1 0)"), "<division-by-zero>"}, {caught("(car 1)"), "<domain-error>"}, {caught("(unbound@)"), "<undefined-function>"},
	{caught("unbound@"), "<unbound-variable>"}, {caught("(throw 'no@ 1)"), "<control-error>"}, {caught("(parse-number \"a\")"), "<parse-error>"},
	{caught("(convert \"a\" <integer>)"), "<parse-error>"}, {caught("(read-char (create-string-input-stream \"\"))"), "<end-of-stream>"},
	{caught("(assure <integer> 'a)"), "<domain-error>"}, {caught("(go@ 1 2)"), "<undefined-function>"},
	{"(create-string-output-stream)", "?stream"}, {"(create-string-input-stream \"a\")", "?stream"}, {"(standard-output)", "?stream"}, {"(standard-input)", "?stream"}, {"(error-output)", "?stream"},
}

func typeIsA(x, y string) bool {
	if x == y {
		return true
	}
	if strings.HasPrefix(x, "?") {
		return y == "<object>"
	}
	sup, ok := typeHier[x]
	if !ok {
		panic(harnessBug("class " + x))
	}
	for _, s := range strings.Fields(sup) {
		if typeIsA(s, y) {
			return true
		}
	}
	return false
}

var typePreds = map[string]string{"characterp": "<character>", "consp": "<cons>", "floatp": "<float>", "integerp": "<integer>", "numberp": "<number>",
	"stringp": "<string>", "symbolp": "<symbol>", "listp": "<list>", "null": "<null>", "functionp": "<function>"}

// convertTo is the conversion table: source objects, and for the target classes
// character, integer, float, symbol, string, general-vector and list the result
// printed with ~s, "err", or "?" where the language leaves it open.
var convertTo = [][8]string{
	{"#\\a", "#\\a", "97", "err", "a", "?", "err", "err"},
	{"#\\1", "#\\1", "49", "err", "?", "?", "err", "err"},
	{"#\\あ", "#\\あ", "12354", "err", "あ", "?", "err", "err"},
	{"#\\space", "#\\space", "32", "err", "?", "?", "err", "err"},
	{"97", "#\\a", "97", "97.000000", "err", "\"97\"", "err", "err"},
	{"0", "?", "0", "0.000000", "err", "\"0\"", "err", "err"},
	{"-1", "err", "-1", "-1.000000", "err", "\"-1\"", "err", "err"},
	{"12354", "#\\あ", "12354", "12354.000000", "err", "\"12354\"", "err", "err"},
	{"1114112", "err", "1114112", "1114112.000000", "err", "\"1114112\"", "err", "err"},
	{"55296", "?", "55296", "55296.000000", "err", "\"55296\"", "err", "err"},
	{"4294967393", "err", "4294967393", "4294967393.000000", "err", "\"4294967393\"", "err", "err"},
	{"9223372036854775807", "err", "9223372036854775807", "9223372036854775808.000000", "err", "\"9223372036854775807\"", "err", "err"},
	{"-9223372036854775807", "err", "-9223372036854775807", "-9223372036854775808.000000", "err", "\"-9223372036854775807\"", "err", "err"},
	{"9223372036854775808", "err", "9223372036854775808", "9223372036854775808.000000", "err", "\"9223372036854775808\"", "err", "err"},
	{"-99999999999999999999", "err", "-99999999999999999999", "-100000000000000000000.000000", "err", "\"-99999999999999999999\"", "err", "err"},
	{"1.5", "err", "?", "1.500000", "err", "\"1.500000\"", "err", "err"},
	{"0.1", "err", "?", "0.100000", "err", "\"0.100000\"", "err", "err"},
	{"1.0e-9", "err", "?", "1e-09", "err", "\"1e-09\"", "err", "err"},
	{"1.0e20", "err", "err", "?", "err", "?", "err", "err"},
	{"-1.0e300", "err", "err", "?", "err", "?", "err", "err"},
	{"9223372036854775808.0", "err", "err", "?", "err", "?", "err", "err"},
	{"-9223372036854775808.0", "err", "-9223372036854775808", "?", "err", "?", "err", "err"},
	{"9.0e18", "err", "9000000000000000000", "?", "err", "?", "err", "err"},
	{"2.0", "err", "2", "2.000000", "err", "\"2.000000\"", "err", "err"},
	{"'a", "err", "err", "err", "a", "\"a\"", "err", "err"},
	{"'|a b|", "err", "err", "err", "|a b|", "\"a b\"", "err", "err"},
	{"'|1|", "err", "err", "err", "|1|", "\"1\"", "err", "err"},
	{"\"\"", "err", "err", "err", "?", "\"\"", "#()", "nil"},
	{"\"a\"", "err", "err", "err", "a", "\"a\"", "#(#\\a)", "(#\\a)"},
	{"\"1\"", "err", "1", "1.000000", "?", "\"1\"", "#(#\\U0031)", "(#\\U0031)"},
	{"\"-12\"", "err", "-12", "-12.000000", "?", "\"-12\"", "?", "?"},
	{"\"+12\"", "err", "12", "12.000000", "?", "\"+12\"", "?", "?"},
	{"\"1.5\"", "err", "err", "1.500000", "?", "\"1.5\"", "?", "?"},
	{"\"1.5e2\"", "err", "err", "150.000000", "?", "\"1.5e2\"", "?", "?"},
	{"\"1a\"", "err", "err", "err", "?", "\"1a\"", "?", "?"},
	{"\" 1\"", "err", "err", "err", "?", "\" 1\"", "?", "?"},
	{"\"1 \"", "err", "err", "err", "?", "\"1 \"", "?", "?"},
	{"\"inf\"", "err", "err", "err", "inf", "\"inf\"", "?", "?"},
	{"\"NaN\"", "err", "err", "err", "NaN", "\"NaN\"", "?", "?"},
	{"\"Infinity\"", "err", "err", "err", "Infinity", "\"Infinity\"", "?", "?"},
	{"\"0x1p3\"", "err", "err", "err", "?", "\"0x1p3\"", "?", "?"},
	{"\"1_0\"", "err", "err", "err", "?", "\"1_0\"", "?", "?"},
	{"\"--1\"", "err", "err", "err", "?", "\"--1\"", "?", "?"},
	{"\"1-\"", "err", "err", "err", "?", "\"1-\"", "?", "?"},
	{"\"日本\"", "err", "err", "err", "日本", "\"日本\"", "#(#\\日 #\\本)", "(#\\日 #\\本)"},
	{"#()", "err", "err", "err", "err", "err", "#()", "nil"},
	{"#(1 a)", "err", "err", "err", "err", "err", "#(1 a)", "(1 a)"},
	{"#(nil)", "err", "err", "err", "err", "err", "#(nil)", "(nil)"},
	{"#((1) #(2))", "err", "err", "err", "err", "err", "#((1) #(2))", "((1) #(2))"},
	{"#2a((1 2) (3 4))", "err", "err", "err", "err", "err", "err", "err"},
	{"(create-array '() 0)", "err", "err", "err", "err", "err", "err", "err"},
	{"nil", "err", "err", "err", "?", "?", "#()", "nil"},
	{"'(1 a)", "err", "err", "err", "err", "err", "#(1 a)", "(1 a)"},
	{"'(nil)", "err", "err", "err", "err", "err", "#(nil)", "(nil)"},
	{"'((1) nil 2)", "err", "err", "err", "err", "err", "#((1) nil 2)", "((1) nil 2)"},
	{"'(1 . 2)", "err", "err", "err", "err", "err", "err", "?"},
	{"t", "err", "err", "err", "?", "?", "err", "err"},
	{"#'car", "err", "err", "err", "err", "err", "err", "err"},
	{"(make-hash-table)", "err", "err", "err", "err", "err", "err", "err"},
	{"(create (class u1@))", "err", "err", "err", "err", "err", "err", "err"},
	{"(create-string-output-stream)", "err", "err", "err", "err", "err", "err", "err"},
}

var convertClasses = strings.Fields("<character> <integer> <float> <symbol> <string> <general-vector> <list>")

func typeCases(c *C) {
	expect := func(src, want string) {
		if c.Stop() || !c.Take() {
			return
		}
		src = typeClasses + src
		c.Case("types", src, func() (string, string) {
			o := c.implRun(src)
			got := o.val
			if o.kind != "value" {
				got = "err"
				if o.kind != "error" {
					got = o.describe()
				}
			}
			if i := strings.IndexByte(got, '\n'); i >= 0 {
				got = got[:i]
			}
			return want, got
		})
	}
	tf := func(b bool) string {
		if b {
			return "t"
		}
		return "nil"
	}
	var classes []string
	for k := range typeHier {
		classes = append(classes, k)
	}
	sort.Strings(classes)
	c.Section("objects and classes")
	for _, o := range typeObjs {
		for _, k := range classes {
			is := typeIsA(o[1], k)
			expect(fmt.Sprintf("(let ((o %s)) (list (instancep o (class %s)) (let ((c (class-of o))) (or (eq c (class %[2]s)) (subclassp c (class %[2]s))))))", o[0], k), "("+tf(is)+" "+tf(is)+")")
			for _, f := range []string{"assure", "the"} {
				want := "no"
				if is {
					want = "t"
				}
				expect(fmt.Sprintf("(let ((o %s)) (block b (with-handler (lambda (c) (return-from b (if (instancep c <domain-error>) 'no 'other))) (eql o (%s %s o)))))", o[0], f, k), want)
			}
			if o[1] != "?stream" {
				expect(fmt.Sprintf("(defgeneric h@ (x)) (defmethod h@ ((x %s)) 'yes) (let ((o %s)) (block b (with-handler (lambda (c) (return-from b 'no)) (h@ o))))", k, o[0]), map[bool]string{true: "yes", false: "no"}[is])
			}
		}
		for p, k := range typePreds {
			is := typeIsA(o[1], k)
			expect(fmt.Sprintf("(let ((o %s)) (list (%s o) (funcall #'%[2]s o) (if (mapcar #'%[2]s (list o)) (%[2]s o))))", o[0], p), fmt.Sprintf("(%s %[1]s %[1]s)", tf(is)))
		}
		arr := o[1] == "<array>"
		vec := o[0] == "(vector)" || o[0] == "#(1 2)"
		expect(fmt.Sprintf("(let ((o %s)) (list (basic-array-p o) (basic-array*-p o) (general-array*-p o) (generic-function-p o) (atom o)))", o[0]),
			fmt.Sprintf("(%s %s %s %s %s)", tf(arr || o[1] == "<string>"), tf(arr && !vec), tf(arr && !vec), tf(o[0] == "#'g@"), tf(o[1] != "<cons>")))
	}
	c.Section("subclassp")
	for _, x := range classes {
		for _, y := range classes {
			if x != y {
				expect(fmt.Sprintf("(subclassp (class %s) (class %s))", x, y), tf(typeIsA(x, y)))
			}
		}
	}
	c.classGraphs(expect, tf)
	c.Section("convert")
	for _, r := range convertTo {
		for i, k := range convertClasses {
			w := r[i+1]
			if w == "?" {
				c.Skip("conversion left open")
				continue
			}
			if w != "err" {
				w, _ = (&refReader{s: []rune(w)}).next()
			}
			expect(fmt.Sprintf("(convert %s %s)", r[0], k), w)
			expect(fmt.Sprintf("(let ((n 0)) (convert (progn (setq n (+ n 1)) (if (= n 1) %s 'twice)) %s))", r[0], k), w)
		}
	}
	c.Section("convert numbers")
	for i := -300; i <= 70000; i += 1 + i/400*10 {
		s := fmt.Sprint(i)
		expect(fmt.Sprintf("(list (convert %s <string>) (convert (convert %[1]s <string>) <integer>) (convert (convert %[1]s <float>) <string>) (= %[1]s (convert %[1]s <float>)))", s), fmt.Sprintf("(%q %s %q t)", s, s, s+".000000"))
		if i >= 0 && (i < 0xD800 || i >= 0xE000) {
			expect(fmt.Sprintf("(convert (convert %d <character>) <integer>)", i), s)
		}
	}
	for _, n := range []int64{1 << 31, 1<<31 - 1, -1 << 31, 1<<32 + 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, -1<<53 - 1, 1<<62 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MinInt64} {
		s := fmt.Sprint(n)
		expect(fmt.Sprintf("(let ((n %s)) (list (convert n <string>) (convert %q <integer>) (convert n <integer>) (convert (convert n <string>) <integer>)))", s, s), fmt.Sprintf("(%q %s %s %s)", s, s, s, s))
		expect(fmt.Sprintf("(list (= (convert %q <float>) %[2]s.0) (= (convert %[2]s <float>) %[2]s.0))", s, s), "(t t)")
	}
	for _, s := range []string{"9223372036854775808", "-9223372036854775809", "99999999999999999999"} {
		expect(fmt.Sprintf("(convert %q <integer>)", s), "err")
	}
	c.Section("convert strings")
	for _, s := range words(strings.Split("a 1 \\ \" é - .", " "), c.Pick(4, 5)) {
		w := lispStr(s)
		expect(fmt.Sprintf("(let ((s %s)) (let ((l (convert s <list>)) (v (convert s <general-vector>))) (list (equal (convert v <list>) l) (equal (convert l <general-vector>) v) (length l) (length v) (equal (apply #'string-append (mapcar (lambda (c) (create-string 1 c)) l)) s) (equal (convert (convert s <symbol>) <string>) s))))", w), fmt.Sprintf("(t t %d %[1]d t t)", len([]rune(s))))
	}
}

// orderings are the sequences of different numbers below n.
func orderings(n int) [][]int {
	out := [][]int{{}}
	for from := 0; from < len(out); from++ {
		for i := 0; i < n; i++ {
			if !slices.Contains(out[from], i) {
				out = append(out, append(slices.Clone(out[from]), i))
			}
		}
	}
	return out
}

// classGraphs defines every inheritance graph of a few classes and asks for
// the relation of every two of them.
func (c *C) classGraphs(expect func(src, want string), tf func(bool) string) {
	c.Section("class graphs")
	max := c.Pick(4, 5)
	supers := make([][]int, max)
	var each func(n int)
	each = func(n int) {
		if c.Stop() {
			return
		}
		if n >= 2 {
			// isA[i][j]: class i is class j or below it
			isA := make([][]bool, n)
			before := make([][]bool, n) // i precedes j in some precedence list
			for i := range isA {
				isA[i], before[i] = make([]bool, n), make([]bool, n)
				isA[i][i] = true
				for k, s := range supers[i] {
					before[i][s] = true
					if k > 0 {
						before[supers[i][k-1]][s] = true
					}
					for j := range isA[s] {
						isA[i][j] = isA[i][j] || isA[s][j]
					}
				}
			}
			for k := range before {
				for i := range before {
					for j := range before {
						before[i][j] = before[i][j] || before[i][k] && before[k][j]
					}
				}
			}
			ok := true
			for i := range before {
				ok = ok && !before[i][i]
			}
			if !ok {
				c.Skip("no class precedence list")
			} else {
				for slots := 0; slots < 2; slots++ {
					defs, objs, kinds, rows := "", "", "", ""
					for i := 0; i < n; i++ {
						defs += fmt.Sprintf("(defclass k%d@ (", i)
						for _, s := range supers[i] {
							defs += fmt.Sprintf("k%d@ ", s)
						}
						defs += ") (" + []string{"", fmt.Sprintf("(s%d :initform %d)", i, i)}[slots] + "))"
						objs += fmt.Sprintf(" (create (class k%d@))", i)
						kinds += fmt.Sprintf(" (class k%d@)", i)
					}
					uses, want := "", ""
					for j := 0; j < n; j++ {
						defs += fmt.Sprintf("(defgeneric g%d@ (x))(defmethod g%[1]d@ ((x k%[1]d@)) t)", j)
						uses += fmt.Sprintf(" (mapcar (lambda (o) (ignore-errors (g%d@ o))) objs)", j)
						row := ""
						for i := 0; i < n; i++ {
							row += " " + tf(isA[i][j])
						}
						want += " (" + row[1:] + ")"
					}
					for i := 0; i < n; i++ {
						row := ""
						for j := 0; j < n; j++ {
							row += " (" + tf(isA[i][j]) + " " + tf(isA[i][j]) + ")"
						}
						rows += " (" + row[1:] + ")"
					}
					expect(defs+"(let ((objs (list"+objs+")) (kinds (list"+kinds+"))) (list"+uses+
						" (mapcar (lambda (o k) (mapcar (lambda (l) (list (instancep o l) (or (eq k l) (subclassp k l)))) kinds)) objs kinds)))",
						"("+want[1:]+" ("+rows[1:]+"))")
				}
			}
		}
		if n == max {
			return
		}
		for _, s := range orderings(n) {
			supers[n] = s
			each(n + 1)
		}
	}
	each(0)
}

func init() {
	register(&Prop{ID: "P25",
		Rule:        "one object of every kind x every class for instancep, class-of, subclassp, assure, the, methods and predicates; all pairs of classes; the conversion table for every kind of object and every target class; conversions of all numbers and strings of the stated ranges there and back",
		Assumptions: []string{"subclassp of the metaclasses, of a class and itself, and the class of t are not judged", "conversions the language leaves to the implementation are skipped", "floats are written as by ~s"},
		Run:         typeCases,
		Replay: func(c *C, input string) {
			c.only = input
			typeCases(c)
		}})
}
