package main

// P05: arguments are evaluated once, left to right, and funcall/apply deliver
// the same call.

import (
	"fmt"
	"strings"
)

// builtinCalls lists one or more ordinary calls of every built-in function; a
// call is NAME followed by its argument expressions, separated by " | ".
var builtinCalls = strings.Split(strings.TrimSpace(`
+ | 1 | 2 | 3
+ | 1.5 | 2
* | 2 | 3 | 4
- | 9 | 2 | 3
- | 4
/ | 12 | 3 | 2
/= | 1 | 2
< | 1 | 2 | 3
< | 3 | 2 | 1
<= | 1 | 1 | 2
= | 2 | 2 | 2
= | 1 | 2 | 3
> | 3 | 2 | 1
>= | 2 | 2 | 1
append | '(1) | '(2 3) | nil | '(4)
aref | (vector 1 2 3) | 1
aref | #2a((1 2) (3 4)) | 1 | 0
array-dimensions | #2a((1 2) (3 4))
assoc | 'b | '((a . 1) (b . 2))
atom | 'x
basic-array*-p | #2a((1))
basic-array-p | "s"
car | '(1 2)
cdr | '(1 2)
ceiling | 1.5
char-index | #\b | "abc"
char-index | #\b | "abcb" | 2
char/= | #\a | #\b
char< | #\a | #\b
char<= | #\a | #\b
char= | #\a | #\a
char> | #\b | #\a
char>= | #\b | #\a
characterp | #\a
clrhash | (make-hash-table)
cons | 1 | 2
consp | '(1)
create-array | '(2) | 7
create-list | 2 | 'x
create-string | 2 | #\a
elt | '(1 2 3) | 1
elt | "abc" | 2
eq | 'a | 'a
eql | 1 | 1
equal | '(1) | '(1)
equalp | 1 | 1.0
eval | ''x
evenp | 2
floatp | 1.0
floor | 1.5
format | nil | "~a~a" | 1 | 2
functionp | #'car
general-array*-p | (vector 1)
generic-function-p | #'car
gethash | 'a | (make-hash-table)
hash-table-count | (make-hash-table)
integerp | 1
last | '(1 2)
length | '(1 2)
list | 1 | 2 | 3 | 4
list
listp | nil
mapc | #'list | '(1) | '(2)
mapcan | #'list | '(1) | '(2)
mapcar | #'list | '(1 2) | '(3 4)
mapcon | #'list | '(1)
mapl | #'list | '(1)
maplist | #'list | '(1 2)
member | 'b | '(a b c)
minusp | -1
mod | 7 | 3
not | nil
nreverse | (list 1 2)
null | nil
numberp | 1
oddp | 1
parse-number | "12"
plusp | 1
rem | 7 | 3
remhash | 'a | (make-hash-table)
rest | '(1 2)
reverse | '(1 2)
round | 1.2
set-aref | 9 | (vector 1 2) | 0
set-car | 1 | (list 1 2)
set-cdr | 1 | (list 1 2)
set-gethash | 1 | 'k | (make-hash-table)
sqrt | 4.0
string-append | "a" | "b" | "c"
string-index | "b" | "abc"
string-index | "b" | "abcb" | 2
string/= | "a" | "b"
string< | "a" | "b"
string<= | "a" | "b"
string= | "a" | "a"
string> | "b" | "a"
string>= | "b" | "a"
stringp | "a"
subclassp | (class <integer>) | (class <number>)
subseq | "abcd" | 1 | 3
subseq | '(1 2 3 4) | 1 | 3
symbolp | 'a
truncate | 1.7
vector | 1 | 2 | 3
zerop | 0
funcall | #'list | 1 | 2
funcall | (lambda (x y) (list y x)) | 1 | 2
apply | #'list | 1 | 2 | '(3 4)
apply | #'list | '(3 4)
apply | (lambda (x :rest y) (list y x)) | 1 | '(2 3)
1+ | 1
1- | 1
caar | '((1) 2)
cadr | '(1 2 3)
caddr | '(1 2 3)
cadddr | '(1 2 3 4)
cddr | '(1 2 3)
cdddr | '(1 2 3 4)
first | '(1 2)
second | '(1 2)
third | '(1 2 3)
max | 1 | 3 | 2
min | 2 | 1 | 3
nth | 1 | '(1 2 3)
nthcdr | 1 | '(1 2 3)
set-cadr | 9 | (list 1 2)
set-cddr | 9 | (list 1 2)
format-integer | (create-string-output-stream) | 10 | 10
format-object | (create-string-output-stream) | 'a | t
format-char | (create-string-output-stream) | #\a
format-float | (create-string-output-stream) | 1.5
create-string-input-stream | "abc"
read-char | (create-string-input-stream "abc")
read-line | (create-string-input-stream "abc")
read | (create-string-input-stream "abc")
read-char | (create-string-input-stream "") | nil | 'eof
read | (create-string-input-stream "") | nil | 'eof
assure | (class <integer>) | 5
the | (class <integer>) | 5
class-of | 1
throw | 'tag | 2
error | "x~a" | 1
cerror | "c" | "x~a" | 1
create | (class <simple-error>) | 'format-string | "x" | 'format-arguments | '(1)
domain-error-object | 5
probe-file | "nosuchfile"
set-property | 1 | 'sy@ | 'pr
property | 'sz@ | 'pr
remove-property | 'sz@ | 'pr
uf@ | 1 | 2
ur@ | 1 | 2 | 3
ug@ | 1 | 2
um@ | 1
`), "\n")

const argPrelude = `(defun uf@ (x y) (list 'uf x y)) (defun ur@ (x :rest y) (list 'ur x y)) (defgeneric ug@ (x y)) (defmethod ug@ ((x <integer>) (y <object>)) (list 'ug x y)) (defun um@ (x) (let ((x (list x))) x)) `

func splitCall(l string) (string, []string) {
	f := strings.Split(l, " | ")
	return strings.TrimSpace(f[0]), f[1:]
}

func init() {
	nonFn := map[string]bool{"funcall": true, "apply": true}
	type exitK struct{ name, form, wrap, tail string }
	exits := []exitK{
		{"return-from", "(return-from zz 'out)", "(block zz %s)", "value out"},
		{"throw", "(throw 'zt 'out)", "(catch 'zt %s)", "value out"},
		{"error", "(car 5)", "(catch 'ze (with-handler (lambda (c) (throw 'ze 'out)) %s))", "value out"},
		{"go", "(go zg)", "(let ((r 1)) (tagbody %s (setq r 2) zg (setq r (list r))) (car r))", "value 1"},
	}
	grams := []gsec{{name: "state between arguments", q: 3, t: 4, rules: `
P: 0 (defun uf@ (x y) (list 'uf x y)) (defun ur@ (x :rest r) (list x r)) (let ((v 1) (w 2)) (list $E v w))
E: 0 v
E: 0 w
E: 1 (list $E $E $E)
E: 1 (setq v (cons $E w))
E: 1 (setq w (list 'w $E))
E: 1 (uf@ $E $E)
E: 1 (ur@ $E $E $E)
E: 1 (funcall #'uf@ $E $E)
E: 1 (funcall (progn (setq w 'f) (lambda (v x) (setq w x) v)) $E $E)
E: 1 (apply #'uf@ $E (list $E))
E: 1 (apply #'ur@ $E $E '(9))
E: 1 (let ((v $E) (w v)) (list $E w))
E: 1 (cons $E $E)
E: 1 ((lambda (a b) (list v a b w)) $E $E)
E: 1 (vector $E $E)
`}, {name: "exits between assignments", q: 3, t: 4, rules: `
P: 0 (let ((v 1) (w 2)) (list (catch 'q $E) v w))
P: 0 (let ((v 1) (w 2)) (list (catch 'q (with-handler (lambda (c) (throw 'q 'err)) $E)) v w))
E: 0 v
E: 0 w
E: 0 (tr 'e)
E: 1 (throw 'q $E)
E: 1 (car (progn (tr 'bad) 5))
E: 1 (setq v $E w $E)
E: 1 (psetq v $E w $E)
E: 1 (setf v $E)
E: 1 (let ((v $E) (w $E)) (list v w))
E: 1 (let* ((v $E) (w (list v $E))) (list v w))
E: 1 (list $E $E)
E: 1 (if $E $E $E)
E: 1 (incf v $E)
`}}
	register(&Prop{ID: "P05", Secs: grams, Rule: "every listed call of every built-in or user function, directly and through funcall and apply, with every argument traced, and with each argument position replaced by each kind of abrupt exit; and every program of the grammar up to the stated size; a case is non-trivial when at least one argument is traced",
		Assumptions: append([]string{"set-* functions, mapping functions, format and user functions stand for their family; macros such as setf are in P24"}, modelAssumptions...),
		Run: func(c *C) {
			c.Section("calls")
			for _, l := range builtinCalls {
				name, args := splitCall(l)
				var ts []string
				for i, a := range args {
					ts = append(ts, fmt.Sprintf("(car (list %s (tr %d)))", a, i))
				}
				full := ""
				for i := range args {
					full += fmt.Sprintf(" %d", i)
				}
				full = strings.TrimSpace(full)
				direct := "(" + name + " " + strings.Join(ts, " ") + ")"
				variants := []string{direct}
				if !nonFn[name] && name != "throw" {
					variants = append(variants, "(funcall #'"+name+" "+strings.Join(ts, " ")+")")
					for k := 0; k <= len(ts); k++ {
						variants = append(variants, "(apply #'"+name+" "+strings.Join(append(append([]string{}, ts[:k]...), "(list "+strings.Join(ts[k:], " ")+")"), " ")+")")
					}
				} else if name == "throw" {
					variants = []string{"(catch 'tag " + direct + ")", "(catch 'tag (funcall #'throw " + strings.Join(ts, " ") + "))"}
				}
				var base string
				for _, v := range variants {
					if !c.Take() {
						continue
					}
					src := argPrelude + "(ignore-errors " + v + ")"
					c.Case("calls", src, func() (string, string) {
						o := c.implRun(src)
						if strings.HasPrefix(name, "set-") {
							o.val = "" // the value of a setter is not specified
						}
						got := strings.Join(o.trace, " ") + " => " + o.kind + " " + o.val
						if base == "" {
							b := c.implRun(argPrelude + "(ignore-errors " + variants[0] + ")")
							base = b.kind + " " + b.val
							if strings.HasPrefix(name, "set-") {
								base = b.kind + " "
							}
						}
						return full + " => " + base, got
					})
				}
			}
			c.Section("exits")
			for _, l := range builtinCalls {
				name, args := splitCall(l)
				for p := range args {
					for _, e := range exits {
						for _, via := range []string{"", "funcall", "apply"} {
							if !c.Take() {
								continue
							}
							if (nonFn[name] || name == "throw") && via != "" {
								continue
							}
							var ts []string
							want := ""
							for i, a := range args {
								if i == p {
									ts = append(ts, e.form)
								} else {
									ts = append(ts, fmt.Sprintf("(car (list %s (tr %d)))", a, i))
								}
								if i < p {
									want += fmt.Sprintf(" %d", i)
								}
							}
							if name == "throw" {
								continue
							}
							call := "(" + name + " " + strings.Join(ts, " ") + ")"
							switch via {
							case "funcall":
								call = "(funcall #'" + name + " " + strings.Join(ts, " ") + ")"
							case "apply":
								call = "(apply #'" + name + " " + strings.Join(ts[:len(ts)-1], " ") + " (list " + ts[len(ts)-1] + "))"
							}
							src := argPrelude + fmt.Sprintf(e.wrap, call)
							want = strings.TrimSpace(want) + " => " + e.tail
							c.Case("exits", src, func() (string, string) {
								o := c.implRun(src)
								return want, strings.Join(o.trace, " ") + " => " + o.kind + " " + o.val
							})
						}
					}
				}
			}
			runSecs(c, grams...)
		},
		Replay: func(c *C, in string) { replayRerun(c, in) },
	})
}

// replayRerun re-enumerates the property and reports only the given case.
func replayRerun(c *C, in string) {
	c.only = in
	c.prop.Run(c)
}
