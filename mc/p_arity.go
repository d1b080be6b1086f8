package main

// P21: calls with a wrong number of arguments. P29: calls with an argument of
// a wrong class.

import (
	"fmt"
	"strconv"
	"strings"
)

// signatures lists the functions: NAME MIN MAX | CLASS EXPR | ..., the last
// parameter repeats where more arguments are given; MAX * is any number.
var signatures = strings.Split(strings.TrimSpace(`
* 0 * | arith 2
+ 0 * | arith 2
- 1 * | arith 2
/ 1 * | num 2 | num 2
/= 2 2 | any 1 | any 2
< 0 * | cmp 1
<= 0 * | cmp 1
= 0 * | any 1
> 0 * | cmp 1
>= 0 * | cmp 1
append 0 * | list '(1) | list '(2) | any nil
apply 2 * | fn #'list | any 1 | lseq '(1)
aref 2 2 | varr (vector 1 2) | int 0
aref 3 3 | varr #2a((1 2) (3 4)) | int 0 | int 1
array-dimensions 1 1 | arr (vector 1 2)
assoc 2 2 | any 'b | list '((a . 1) (b . 2))
assure 2 2 | class <integer> | any 1
atom 1 1 | any 1
basic-array*-p 1 1 | any 1
basic-array-p 1 1 | any 1
car 1 1 | cons '(1)
cdr 1 1 | cons '(1)
ceiling 1 1 | num 1.5
char-index 2 3 | char #\b | str "abc" | int 0
char/= 2 2 | char #\a | char #\b
char< 2 2 | char #\a | char #\b
char<= 2 2 | char #\a | char #\b
char= 2 2 | char #\a | char #\b
char> 2 2 | char #\a | char #\b
char>= 2 2 | char #\a | char #\b
characterp 1 1 | any 1
class-of 1 1 | any 1
close 1 1 | any? (create-string-input-stream "a")
clrhash 1 1 | hash (make-hash-table)
cons 2 2 | any 1 | any 2
consp 1 1 | any 1
create-array 1 2 | list '(2) | any 7
create-list 1 2 | int 2 | any 'x
create-string 1 2 | int 2 | char #\a
create-string-input-stream 1 1 | str "abc"
create-string-output-stream 0 0
elt 2 2 | eseq '(1 2) | int 1
elt 2 2 | eseq "ab" | int 1
eq 1 * | any 1
eql 1 * | any 1
equal 1 * | any 1
error-output 0 0
eval 1 1 | any 1
evenp 1 1 | int? 2
file-length 2 2 | str "arity-file" | int 8
floatp 1 1 | any 1
floor 1 1 | num 1.5
format 2 * | outn nil | str "~s" | any 1
format-char 2 2 | outn (create-string-output-stream) | char #\a
format-float 2 2 | outn (create-string-output-stream) | num 1.5
format-integer 3 3 | outn (create-string-output-stream) | num 10 | int 10
format-object 3 3 | outn (create-string-output-stream) | any 1 | any t
funcall 1 * | fn #'list | any 1
functionp 1 1 | any 1
general-array*-p 1 1 | any 1
generic-function-p 1 1 | any 1
gensym 0 0
get-internal-real-time 0 0
get-internal-run-time 0 0
get-output-stream-string 1 1 | outs (create-string-output-stream)
get-universal-time 0 0
gethash 2 2 | any 'a | hash (make-hash-table)
hash-table-count 1 1 | hash (make-hash-table)
instancep 2 2 | any 1 | class <integer>
integerp 1 1 | any 1
internal-time-units-per-second 0 0
last 1 1 | list '(1)
length 1 1 | seq '(1 2)
list 0 * | any 1
listp 1 1 | any 1
make-hash-table 0 0
mapc 2 * | fn #'list | lseq '(1)
mapcan 2 * | fn #'list | lseq '(1)
mapcar 2 * | fn #'list | lseq '(1)
mapcon 2 * | fn #'list | lseq '(1)
mapl 2 * | fn #'list | lseq '(1)
maplist 2 * | fn #'list | lseq '(1)
member 2 2 | any 'b | lseq '(a b)
minusp 1 1 | num? 1
mod 2 2 | num 7 | num 2
not 1 1 | any 1
nreverse 1 1 | list (list 1)
null 1 1 | any 1
numberp 1 1 | any 1
oddp 1 1 | int? 1
parse-number 1 1 | str "12"
plusp 1 1 | num? 1
probe-file 1 1 | str "no-such-file"
read 0 3 | in (create-string-input-stream "a") | any nil | any nil
read-char 0 3 | in (create-string-input-stream "a") | any nil | any nil
read-line 0 3 | in (create-string-input-stream "a") | any nil | any nil
rem 2 2 | num 7 | num 2
remhash 2 2 | any 'a | hash (make-hash-table)
rest 1 1 | list '(1)
reverse 1 1 | list '(1)
round 1 1 | num 1.5
set-aref 3 3 | any 1 | varr (vector 1 2) | int 0
set-car 2 2 | any 1 | cons (list 1)
set-cdr 2 2 | any 1 | cons (list 1)
set-gethash 3 3 | any 1 | any 1 | hash (make-hash-table)
signal-condition 2 2 | any? (create (class <simple-error>)) | any nil
sqrt 1 1 | num 4.0
standard-input 0 0
standard-output 0 0
string-append 0 * | str "a"
string-index 2 3 | str "b" | str "abc" | int 0
string/= 2 2 | str "a" | str "b"
string< 2 2 | str "a" | str "b"
string<= 2 2 | str "a" | str "b"
string= 2 2 | str "a" | str "b"
string> 2 2 | str "a" | str "b"
string>= 2 2 | str "a" | str "b"
stringp 1 1 | any 1
subclassp 2 2 | class <integer> | class <object>
subseq 3 3 | seq "abc" | int 0 | int 2
symbolp 1 1 | any 1
truncate 1 1 | num 1.5
vector 0 * | any 1
zerop 1 1 | num? 1
1+ 1 1 | any? 1
1- 1 1 | any? 1
caar 1 1 | cons '((1))
cadr 1 1 | any? '(1 2)
caddr 1 1 | any? '(1 2 3)
cadddr 1 1 | any? '(1 2 3 4)
cddr 1 1 | any? '(1 2)
cdddr 1 1 | any? '(1 2 3)
first 1 1 | list '(1)
second 1 1 | any? '(1 2)
third 1 1 | any? '(1 2 3)
max 1 * | cmp 1 | cmp 2
min 1 * | cmp 1 | cmp 2
nth 2 2 | any? 0 | any? '(1)
nthcdr 2 2 | any? 0 | any? '(1)
error 1 * | any? "e" | any 1
cerror 2 * | str "c" | any? "e" | any 1
domain-error-object 1 1 | cond nil
`), "\n")

// argValues are the arguments of wrong classes, with the classes each has.
var argValues = []struct{ expr, classes string }{
	{`5`, "num int arith cmp"}, {`-3`, "num int arith cmp"}, {`1.5`, "num arith cmp"}, {`1.0`, "num arith cmp"}, {`"st"`, "str seq eseq lseq arith cmp"}, {`#\c`, "char arith"}, {`'sym`, "sym"}, {`t`, "sym outn"}, {`':key`, "sym"},
	{`nil`, "sym list seq eseq lseq outn"}, {`'(1 2)`, "list cons seq eseq lseq"}, {`'(sym)`, "list cons seq eseq lseq"}, {`'((p . q))`, "list cons cons2 seq eseq lseq alist"}, {`'((1 2) (3 4))`, "list cons cons2 seq eseq lseq alist"}, {`'(1 . 2)`, "list cons seq eseq lseq"},
	{`(vector 1 2)`, "vec arr varr seq eseq"}, {`#2a((1 2) (3 4))`, "arr arr2 varr eseq"}, {`(lambda (x) x)`, "fn"}, {`#'car`, "fn"}, {`(class <integer>)`, "class"}, {`(make-hash-table)`, "hash"},
	{`(create-string-input-stream "q")`, "stream in"}, {`(create-string-output-stream)`, "stream out outn outs"}, {`inst@`, ""}, {`cls@`, "class"}, {`(catch 'c@ (with-handler (lambda (c) (throw 'c@ c)) (error "e")))`, "cond"},
	{`gen@`, "fn"},
}

type sigArg struct{ class, expr string }

func parseSig(l string) (name string, min, max int, args []sigArg) {
	p := strings.Split(l, " | ")
	h := strings.Fields(p[0])
	name = h[0]
	min, _ = strconv.Atoi(h[1])
	switch h[2] {
	case "*":
		max = -1
	case "2*": // more arguments than the standard's two are accepted
		max = -1
	default:
		max, _ = strconv.Atoi(h[2])
	}
	for _, a := range p[1:] {
		a = strings.TrimSpace(a)
		i := strings.IndexByte(a, ' ')
		args = append(args, sigArg{a[:i], a[i+1:]})
	}
	return
}

// callWays are the ways to call a function with the given arguments.
func callWays(name string, ts []string) []string {
	all := strings.Join(ts, " ")
	ws := []string{"(" + name + " " + all + ")", "(funcall #'" + name + " " + all + ")", "(apply #'" + name + " (list " + all + "))",
		"(funcall (function " + name + ") " + all + ")", "(let ((f #'" + name + ")) (apply f " + strings.Join(append(append([]string{}, ts[:len(ts)/2]...), "(list "+strings.Join(ts[len(ts)/2:], " ")+")"), " ") + "))"}
	return ws
}

const errorOf = `(catch 'c@ (with-handler (lambda (c) (throw 'c@ (list 'condition (class-of c) %s))) (list 'returned %s)))`

func (c *C) arityCase(call string) {
	src := fmt.Sprintf(errorOf, "", call)
	c.Case("number", src, func() (string, string) {
		o := c.implRun(src)
		return "value (condition #<class <program-error>>)", o.kind + " " + o.class + o.val
	})
}

const classPrelude = `(defclass cls@ () ()) (defglobal cls@ (class cls@)) (defglobal inst@ (create cls@)) (defgeneric gg@ (x)) (defglobal gen@ #'gg@) `

func (c *C) classCase(call string, val string) {
	src := classPrelude + "(let ((bad " + val + ")) " + fmt.Sprintf(errorOf, "(instancep c (class <domain-error>)) (if (instancep c (class <domain-error>)) (eql bad (domain-error-object c)))", call) + ")"
	c.Case("class", src, func() (string, string) {
		o := c.implRun(src)
		return "value (condition #<class <domain-error>> t t)", o.kind + " " + o.class + o.val
	})
}

// arities enumerates the calls of P21.
func arities(f func(call string)) {
	for _, l := range signatures {
		name, min, max, args := parseSig(l)
		top := max + 3
		if name == "aref" || name == "set-aref" || name == "elt" { // further indices, or fewer, are an extension
			min, max = map[string]int{"aref": 1, "elt": 2, "set-aref": 2}[name], -1
		}
		if max < 0 {
			top = min - 1
		}
		for n := 0; n <= top; n++ {
			if n >= min && (max < 0 || n <= max) {
				continue
			}
			var ts []string
			for i := 0; i < n; i++ {
				switch {
				case len(args) == 0:
					ts = append(ts, "1")
				case i < len(args):
					ts = append(ts, args[i].expr)
				default:
					ts = append(ts, args[len(args)-1].expr)
				}
			}
			for _, w := range callWays(name, ts) {
				f(w)
			}
			if max >= 0 && n > max {
				nils := append([]string{}, ts...)
				for i := max; i < n; i++ {
					nils[i] = "nil"
				}
				for _, w := range callWays(name, nils) {
					f(w)
				}
			}
		}
	}
}

func wrongClasses(thorough bool, f func(call, val string)) {
	for _, l := range signatures {
		name, min, max, args := parseSig(l)
		top := max
		if max < 0 {
			top = len(args)
			if top < min+1 {
				top = min + 1
			}
		}
		if f := name[0]; (f == '<' || f == '>' || f == '/' || name == "max" || name == "min") && min < 2 { // of one operand alone nothing is asked
			min = 2
		}
		for n := min; n <= top; n++ {
			for p := 0; p < n; p++ {
				q := p
				if q >= len(args) {
					q = len(args) - 1
				}
				cl := args[q].class
				if cl == "any" || strings.HasSuffix(cl, "?") {
					continue
				}
				if name == "append" && p == n-1 || name == "apply" && p > 0 && p < n-1 {
					continue
				}
				if name == "apply" && p == n-1 {
					cl = "lseq"
				}
				for _, v := range argValues {
					if cl == "any" || strings.Contains(" "+v.classes+" ", " "+cl+" ") || strings.Contains(" "+v.classes+" ", " "+cl+"? ") {
						continue
					}
					var ts []string
					for i := 0; i < n; i++ {
						j := i
						if j >= len(args) {
							j = len(args) - 1
						}
						switch {
						case i == p:
							ts = append(ts, "bad")
						case name == "apply" && i == n-1:
							ts = append(ts, "'(1)")
						default:
							ts = append(ts, args[j].expr)
						}
					}
					ws := callWays(name, ts)
					if !thorough {
						ws = ws[:3]
					}
					for _, w := range ws {
						f(w, v.expr)
					}
				}
			}
		}
	}
}

func init() {
	userSecs := []gsec{
		{name: "user functions", q: 5, t: 7, rules: `
P: 0 (let ((a 'oa) (b 'ob) (r 'or)) $D)
D: 0 (list (funcall (lambda $L $B) $A) a b r)
D: 0 (progn (defun f@ $L $B) (list (f@ $A) a b r))
D: 0 (progn (defun f@ $L $B) (list (funcall #'f@ $A) a b r))
D: 0 (flet ((f@ $L $B)) (list (f@ $A) a b r))
D: 0 (labels ((f@ $L $B) (g (x) (f@ x x))) (list (f@ $A) a b r))
D: 0 (labels ((g (x) (f@ $A)) (f@ $L $B)) (list (g 1) a b r))
D: 0 (flet ((f@ $L $B)) (list (apply #'f@ (list $A)) a b r))
D: 0 ((lambda $L $B) $A)
D: 0 (list (apply (lambda $L $B) 1 (list $A)) a b r)
D: 0 (list (apply (lambda $L $B) 1 2 (list $A)) a b r)
D: 0 (mapcar (lambda $L $B) '(1 2) $M)
D: 0 (maplist (lambda $L $B) '(1 2) $M)
D: 0 (progn (defun f@ (n :rest r) (if (= n 0) (apply (lambda $L $B) r) (f@ (- n 1) $A))) (f@ 1))
D: 0 (progn (defgeneric f@ (a)) (defmethod f@ ((a <object>)) $B) (list (f@ $A) a b r))
D: 0 (progn (defgeneric f@ (a b)) (defmethod f@ ((a <object>) (b <object>)) $B) (list (funcall #'f@ $A) a b r))
D: 0 (progn (defgeneric f@ (b a c)) (defmethod f@ ((b <object>) (a <object>) (c <object>)) $B) (list (f@ $A) a b r))
D: 0 (progn (defgeneric f@ (a :rest r)) (defmethod f@ ((a <object>) :rest r) $B) (list (apply #'f@ (list $A)) a b r))
D: 0 (progn (defgeneric f@ (:rest r)) (defmethod f@ (:rest r) $B) (list (f@ $A) a b r))
D: 0 (progn (defgeneric f@ (a b :rest r)) (defmethod f@ ((a <integer>) (b <object>) :rest r) $B) (defmethod f@ ((a <object>) (b <object>) :rest r) (list 'any $V)) (list (f@ $A) a b r))
D: 0 (progn (defgeneric f@ (a b)) (defmethod f@ ((a <integer>) (b <object>)) $B) (defmethod f@ ((a <object>) (b <object>)) (list 'any $V)) (list (f@ $A) a b r))
D: 0 (progn (defmacro f@ $L $Q) (list (f@ $A) a b r))
D: 0 (progn (defmacro f@ $L $Q) (defun h@ () (list (f@ $A) a b r)) (h@))
L: 0 ()
L: 0 (a)
L: 0 (a b)
L: 0 (b a c)
L: 1 (:rest r)
L: 1 (a :rest r)
L: 1 (b a :rest r)
L: 1 (a &rest b)
A: 0 
A: 0 1
A: 0 1 2
A: 0 1 2 3
A: 1 1 2 3 4
A: 1 (tr 1) (tr 2) (tr 3) (tr 4) (tr 5)
A: 1 'x
A: 1 nil nil
A: 1 (setq a 5) (list a b)
A: 1 $X
A: 1 $X $X
A: 1 $X $X $X
A: 1 $X $X $X $X
X: 0 (tr 8)
X: 0 b
X: 1 (list a b r)
X: 1 (setq b (list b 1))
M: 0 
M: 0 '(3 4)
M: 1 '(3 4) '(5)
M: 1 '(3 4) '(5 6) '(7)
B: 0 (tr $V)
B: 1 (progn (setq r (list $V)) r)
V: 0 (list a b r)
V: 1 (list r (list a b))
Q: 0 (list 'quote (list a b r))
Q: 1 (list 'tr (list 'quote (list r b a)))
`},
	}
	register(&Prop{ID: "P21", Rule: "every listed function called in every listed way with every number of arguments outside its limits up to three more than the most; every parameter list, way of defining and calling and argument list of the grammar up to the stated size",
		Assumptions: modelAssumptions, Secs: userSecs,
		Run: func(c *C) {
			c.Section("built-in functions")
			c.worldMax = 500
			arities(func(call string) {
				if !c.Stop() && c.Take() {
					c.arityCase(call)
				}
			})
			runSecs(c, userSecs...)
		},
		Replay: replayRerun})
	register(&Prop{ID: "P29", Rule: "every listed function with every legal number of arguments and every listed value of another class at each position that asks for a class, called in every listed way",
		Assumptions: []string{},
		Run: func(c *C) {
			c.Section("classes")
			c.worldMax = 300
			wrongClasses(c.Thorough(), func(call, val string) {
				if !c.Stop() && c.Take() {
					c.classCase(call, val)
				}
			})
		},
		Replay: replayRerun})
}
