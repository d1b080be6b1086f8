package main

// P09: no call of a built-in and no malformed form crashes the host, leaks a
// Go nil, or leaves the interpreter unusable.

import (
	"context"
	"errors"
	"fmt"
	"strings"

	gl "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
)

var robustFuncs = strings.Fields(`
* + - / /= < <= = > >= append apply aref arithmetic-error-operands arithmetic-error-operation array-dimensions
assoc assure atom basic-array*-p basic-array-p car cdr ceiling char-index char/= char< char<= char= char> char>=
characterp class-of close clrhash cons consp continue-condition create create-array create-list create-string
create-string-input-stream create-string-output-stream domain-error-expected-class domain-error-object elt eq eql
equal equalp error-output eval evenp file-length floatp floor format format-char format-float format-integer
format-object funcall functionp general-array*-p generic-function-p gensym get-internal-real-time
get-internal-run-time get-output-stream-string get-universal-time gethash hash-table-count instancep integerp
internal-time-units-per-second last length list listp load macroexpand make-hash-table mapc mapcan mapcar mapcon
mapl maplist member minusp mod not nreverse null numberp oddp open-input-file parse-number plusp
probe-file read read-char read-line rem remhash rest return reverse round set-aref set-car set-cdr set-gethash
signal-condition sqrt standard-input standard-output string-append string-index string/= string< string<= string=
string> string>= stringp subclassp subseq symbolp the throw truncate undefined-entity-name
undefined-entity-namespace vector zerop report-condition initialize-object gmn:dump-session
1+ 1- caar cadddr caddr cadr cdddr cddr cerror error first max min nth nthcdr second third set-assoc set-cadddr
set-caddr set-cadr set-cdddr set-cddr set-nth set-nthcdr swap-elt swap-subseq property set-property
remove-property remove-all-properties simple-error-format-string simple-error-format-arguments
subst =~ =~i wildcard
`)

// Arguments, the ones also used for three-argument calls first.
var robustVals = strings.Split(strings.TrimSpace(`
nil
1
-1
'a
"ab"
'(1 2)
'(1 . 2)
(vector 1 2)
#'list
(class <object>)
0
'((a . 1) (b . 2))
#\b
4611686018427387904
t
1.5
""
(create-string-input-stream "ab")
(create-string-output-stream)
(make-hash-table)
(create-array '(2 3) 0)
(lambda (x) x)
(create (class cl@) 'i 5)
9223372036854775807
:k
(vector)
(create-array '() 5)
(class cl@)
(class <integer>)
#'ge@
(create (class <simple-error>) 'format-string "s~a" 'format-arguments '(1))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (car 1)))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (/ 1 0)))
(catch 'q (with-handler (lambda (c) (throw 'q c)) nov@))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (parse-number "x")))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (throw 'none 1)))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (read (create-string-input-stream ""))))
(catch 'q (with-handler (lambda (c) (throw 'q c)) (list . 5)))
''a
'(quote)
(lambda (&rest x) x)
'#'car
'(nil)
'((1 2) (3 4))
"12"
"~s~d~%~a"
"日本"
1e300
0.0
-1.5
(standard-output)
(string-append "x" "y")
(class <list>)
(class <standard-class>)
(class <built-in-class>)
(class <error>)
(class <simple-error>)
-9223372036854775808
'(a b :rest c)
`), "\n")

const robustPrelude = `(defclass cl@ () ((s :initarg i :accessor cls@))) (defgeneric ge@ (x)) (defmethod ge@ ((x <integer>)) x) `

var robustForms = strings.Fields(`
and block case case-using catch class cond convert continue-condition defclass defconstant defdynamic defgeneric
defglobal defmacro defmethod defun dynamic dynamic-let expand-defun flet function go if ignore-errors instancep
labels lambda lambda-macro let let* or progn psetq quasiquote quote return-from setq tagbody unwind-protect while
with-handler with-open-input-file with-open-output-file with-standard-input funcall apply
decf incf dolist dotimes for prog1 prog2 set-elt set-setq set-subseq set-dynamic setf unless when
`)

var robustOperands = strings.Split(strings.TrimSpace(`
nil
1
v@
(v@)
((v@))
((v@ 1))
(v@ . w@)
(v@ 1)
(list 1 2)
((v@ (w@)))
"s"
t
:k
#'car
(1 2)
((1 2) (3))
(lambda (x) x)
'v@
((v@ (w@) 1))
((v@ <integer>))
(:rest)
(v@ :rest w@)
(&rest (v@ <object>))
((v@ . w@))
<integer>
(class <object>)
,v@
(,@v@)
"nosuch@"
(unquote)
(setq v@)
(go v@)
`), "\n")

type robustObs struct {
	kind string
	bad  string
}

// robustRun evaluates src, inspects the outcome, and tries the World again.
func (c *C) robustRun(src string) (want, got string) {
	iw := c.World()
	c.uid++
	id := fmt.Sprintf("zq%dqz", c.uid)
	src = strings.ReplaceAll(src, "@", id)
	ctx := newStepCtx(3000)
	v, err := iw.w.Interpret(ctx, src)
	kind := "value"
	switch {
	case err == nil:
		if v == nil {
			return "a value", "no value: Go nil without an error"
		}
	case ctx.n >= ctx.limit:
		// The program does not end; leave the World alone.
		c.world = nil
		return "cut", "cut"
	case errors.Is(err, gl.ErrQuit), errors.Is(err, gl.ErrAbort):
		kind = "exit"
	default:
		kind = "error"
		if err.Error() == "" {
			return "an error with a message", "an error without a message"
		}
		return "errors reach the handler", "not handled: " + errClass(err) + ": " + firstLine(err.Error())
	}
	if kind == "value" {
		s := ishow(iw.w, v)
		if strings.Contains(s, "GONIL") || strings.Contains(s, "#<no class>") {
			return "a Lisp object", "Go nil inside " + s
		}
		for _, f := range []string{"~s", "~a"} {
			if _, err := callNamed(iw.w, "format", gl.Null, gl.String(f), v); err != nil {
				return "printable with " + f, "printing fails: " + firstLine(err.Error())
			}
		}
	}
	w2, err := iw.w.Interpret(context.Background(), `(let ((x (list t nil 1))) (flet ((f (y) (if (car x) (cons y (cdr x)) nil))) (catch 'z (throw 'z (f (ignore-errors (car 1)))))))`)
	if err != nil {
		return "World usable", "World unusable: " + firstLine(err.Error())
	}
	if s := ishow(iw.w, w2); s != "(nil nil 1)" {
		return "World usable", "World changed: probe gives " + s
	}
	return "", ""
}

func robustProg(body string) string {
	return robustPrelude + `(catch 'p9@ (with-handler (lambda (c) (throw 'p9@ (list 'err (instancep c <error>) (class-of c) c))) (list 'val ` + body + `)))`
}

func robustSkip(fn string, args ...string) bool {
	switch fn {
	case "defconstant", "defglobal", "defclass", "setq", "psetq", "setf", "incf", "decf":
		// Replacing a predefined class changes all Worlds.
		for _, a := range args {
			if a == "<integer>" {
				return true
			}
		}
	case "create-list", "create-string", "create-array":
		for _, a := range args {
			if len(a) > 12 && strings.Contains(a, "223372036854775") || strings.HasPrefix(a, "4611") {
				return true
			}
		}
	case "read", "read-char", "read-line", "standard-input":
	}
	return false
}

func init() {
	register(&Prop{ID: "P09",
		Rule: "every built-in function and macro function called with 0, 1, 2 and 3 arguments from the listed values, and every special operator and macro applied to 0 to 3 operand forms from the listed malformed and ordinary ones; after each, the value or condition is inspected and printed, and the World is probed; a case is non-trivial when evaluation ends",
		Assumptions: []string{
			"requests for more memory than exists, infinite recursion and circular structures are not explored",
			"functions that run other programs (package command) are not called",
		},
		Run: func(c *C) {
			one := func(body string) {
				if c.Stop() || !c.Take() {
					return
				}
				src := robustProg(body)
				c.Case("robust", src, func() (string, string) { return c.robustRun(src) })
			}
			n2 := c.Pick(len(robustVals), len(robustVals))
			n3 := c.Pick(12, 24)
			n4 := c.Pick(0, 8)
			c.Section("functions")
			for _, fn := range robustFuncs {
				one("(" + fn + ")")
				for _, a := range robustVals {
					if !robustSkip(fn, a) {
						one("(" + fn + " " + a + ")")
						one("(" + fn + " . " + a + ")")
					}
				}
				for _, a := range robustVals[:n2] {
					for _, b := range robustVals[:n2] {
						if !robustSkip(fn, a, b) {
							one("(" + fn + " " + a + " " + b + ")")
						}
					}
				}
				for _, a := range robustVals[:n3] {
					for _, b := range robustVals[:n3] {
						for _, d := range robustVals[:n3] {
							if !robustSkip(fn, a, b, d) {
								one("(" + fn + " " + a + " " + b + " " + d + ")")
							}
						}
					}
				}
				for _, a := range robustVals[:n4] {
					for _, b := range robustVals[:n4] {
						for _, d := range robustVals[:n4] {
							for _, e := range robustVals[:n4] {
								if !robustSkip(fn, a, b, d, e) {
									one("(" + fn + " " + a + " " + b + " " + d + " " + e + ")")
								}
							}
						}
					}
				}
			}
			c.Section("forms")
			k2 := len(robustOperands)
			k3 := c.Pick(20, len(robustOperands))
			for _, fn := range robustForms {
				one := func(body string) {
					if !strings.Contains(body, "<integer>") || !robustSkip(fn, "<integer>") {
						one(body)
					}
				}
				one("(" + fn + ")")
				for _, a := range robustOperands {
					one("(" + fn + " " + a + ")")
					one("(" + fn + " . " + a + ")")
					one("(" + fn + " " + a + " . 1)")
				}
				for _, a := range robustOperands[:k2] {
					for _, b := range robustOperands[:k2] {
						one("(" + fn + " " + a + " " + b + ")")
						one("(let ((v@ 1) (w@ '(2))) (" + fn + " " + a + " " + b + "))")
						one("(flet ((g@ (v@) (" + fn + " " + a + " " + b + "))) (list (g@ 1) (g@ 2)))")
					}
				}
				for _, a := range robustOperands[:k3] {
					for _, b := range robustOperands[:k3] {
						for _, d := range robustOperands[:k3] {
							one("(" + fn + " " + a + " " + b + " " + d + ")")
						}
					}
				}
			}
		},
		Replay: func(c *C, in string) {
			c.Case("robust", in, func() (string, string) { return c.robustRun(in) })
		}})
}
