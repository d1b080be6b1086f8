package main

// P14: eq, eql, equal, equalp.

import (
	"context"
	"fmt"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

func equalp(a, b V) bool {
	if isNum(a) && isNum(b) {
		return cmpNum(a, b) == 0
	}
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		return ok && strings.EqualFold(string(x), string(y))
	case Chr:
		y, ok := b.(Chr)
		return ok && strings.EqualFold(string(x), string(y))
	case *Pair:
		y, ok := b.(*Pair)
		return ok && equalp(x.A, y.A) && equalp(x.D, y.D)
	case *Arr:
		y, ok := b.(*Arr)
		if !ok || fmt.Sprint(x.dim) != fmt.Sprint(y.dim) {
			return false
		}
		for i := range x.el {
			if !equalp(x.el[i], y.el[i]) {
				return false
			}
		}
		return true
	}
	return equal(a, b)
}

func init() {
	def("equalp", 1, -1, func(in *In, a []V) (V, *ab) {
		for i := 1; i < len(a); i++ {
			if !equalp(a[i-1], a[i]) {
				return NIL, nil
			}
		}
		return T, nil
	})

	atoms := strings.Fields(`1 1.0 -1 9007199254740993 9007199254740992.0 #\a #\A "a" "A" "" 'a 'A nil t :a #() "ab" "aB"`)
	var vals []string
	vals = append(vals, atoms...)
	sub := append([]string{}, atoms[:14]...)
	sub[0], sub[13] = "1", "'(1)"
	for _, x := range sub {
		vals = append(vals, "(list "+x+")", "(vector "+x+")")
		for _, y := range sub[:10] {
			vals = append(vals, "(cons "+x+" "+y+")")
		}
	}
	vals = append(vals, `(list 1 "a")`, `(list 1 "A")`, `(vector 1 2)`, `(vector 1.0 2)`, `(vector (list 1))`, `(vector (list 1.0))`,
		`(create-array '(2 1) 1)`, `(create-array '(1 2) 1)`, `(create-array '(2 1) 1.0)`, `(create-array '() 1)`, `(create-array '(2 0))`, `(create-array '(0 2))`,
		`(list (list 1 (list "a")))`, `(list (list 1 (list "A")))`, `(list 'a (vector #\a))`, `(list 'a (vector #\A))`)
	objs := append([]string{}, atoms...)
	objs = append(objs, strings.Split(`(list 1 2)|(list 1 2.0)|(vector 1 2)|(vector 1 2.0)|(create-array '(1 2) 1)|(create-array '(1 2) 1.0)|(create-array '() 1)|(list "a" (vector #\a))|(list "A" (vector #\A))
|(lambda (x) x)|#'car|#'cdr|#'list|#'for-eq|(let ((n 0)) (lambda () (setq n (+ n 1))))|<integer>|<list>|<object>|(class <peq>)|(class <peq2>)|(class-of 1)|(class-of nil)
|(create (class <peq>) 'i 1)|(create (class <peq>) 'i 1)|(create (class <peq>) 'i 1.0)|(create (class <peq>) 'i (list "a"))|(create (class <peq>))|(create (class <peq2>) 'i 1)|(create (class <peq2>))|(create (class <peq3>))|(create (class <peq3>) 'i nil)|(create (class <peq3>) 'k nil)|(create (class <peq3>) 'i 1)|(create (class <peq3>) 'k 1)|(create (class <peq3>) 'i 1 'k nil)|(create (class <peq3>) 'i nil 'k 1)
|(make-hash-table)|(make-hash-table)|(create-string-input-stream "a")|(create-string-output-stream)|(standard-output)|(standard-input)|(error-output)
|(cond-of (lambda () (car 1)))|(cond-of (lambda () (car 1)))|(cond-of (lambda () (car 1.0)))|(cond-of (lambda () (/ 1 0)))|(cond-of (lambda () (/ 1 0)))|(cond-of (lambda () (/ 2 0)))|(cond-of (lambda () (floor-missing 1)))|(cond-of (lambda () unbound-eq))
|(cond-of (lambda () (parse-number "x")))|(cond-of (lambda () (parse-number "x")))|(cond-of (lambda () (throw 'no-eq 1)))|(cond-of (lambda () (error "x")))|(cond-of (lambda () (error "x")))|(cond-of (lambda () (elt '(1) 5)))|(cond-of (lambda () (read-char (create-string-input-stream ""))))
|(cond-of (lambda () (aref (vector 1) 5)))|(cond-of (lambda () (funcall #'car)))|(cond-of (lambda () (parse-number "1e999")))|(cond-of (lambda () (create-array '(1000000000 1000000000))))|(create <arithmetic-error>)|(create <domain-error>)|(create <parse-error>)|(create <error>)|(create <stream-error>)|'quote|''a|'(a . b)|'(a . B)|(gensym)|(gensym)|123456789012345678901234567890|123456789012345678901234567891`, "|")...)
	relNames := []string{"eq", "eql", "equal", "equalp"}
	setup := `(defclass <peq> () ((i :initarg i))) (defclass <peq2> (<peq>) ((j :initform 1))) (defclass <peq3> () ((i :initarg i) (k :initarg k))) (defun for-eq (x) x)
(defun cond-of (f) (block nil (with-handler (lambda (c) (return-from nil c)) (funcall f)) 'none))`

	laws := func(c *C) {
		c.Section("laws over all pairs and triples of objects")
		iw := newImplWorld()
		if _, err := iw.w.Interpret(context.Background(), setup); err != nil {
			panic(harnessBug("harness bug: " + err.Error()))
		}
		type ob struct {
			src string
			v   gl.Node
		}
		var all []ob
		var names []string
		for _, s := range objs {
			s = strings.TrimSpace(s)
			v, err := iw.w.Interpret(context.Background(), s)
			if err != nil { // a condition object of a class that cannot be created
				c.Skip("object cannot be made " + s)
				continue
			}
			all = append(all, ob{s, v})
			names = append(names, s)
		}
		n := len(all)
		rel := make([][]string, len(relNames))
		get := func(r int, i, j int) string {
			v, err := callNamed(iw.w, relNames[r], all[i].v, all[j].v)
			switch {
			case err != nil:
				return "error " + err.Error()
			case v == gl.Null:
				return "nil"
			case v == gl.True:
				return "t"
			}
			return "other"
		}
		for r := range relNames {
			rel[r] = make([]string, n*n)
			for i := 0; i < n; i++ {
				for j := 0; j < n; j++ {
					func() {
						defer func() {
							if e := recover(); e != nil {
								rel[r][i*n+j] = fmt.Sprint("HOST PANIC ", e)
							}
						}()
						rel[r][i*n+j] = get(r, i, j)
					}()
				}
			}
		}
		fresh := func(s string) bool {
			for _, p := range []string{"(list ", "(vector ", "(create", "(make-hash", "(lambda ", "(let ((n", "(gensym"} {
				if strings.HasPrefix(s, p) {
					return true
				}
			}
			return false
		}
		at := func(r, i, j int) string { return rel[r][i*n+j] }
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if c.Stop() {
					return
				}
				if !c.Take() {
					continue
				}
				i, j := i, j
				c.Case("law", "law: "+names[i]+" | "+names[j], func() (string, string) {
					for r := range relNames {
						v := at(r, i, j)
						if v != "t" && v != "nil" {
							return "t or nil", relNames[r] + ": " + v
						}
						if v != at(r, j, i) {
							return relNames[r] + " symmetric", "not"
						}
						if i == j && v != "t" {
							return relNames[r] + " reflexive", "not"
						}
						if i != j && v == "t" && strings.HasPrefix(names[i], "(create (class <peq3>") && strings.HasPrefix(names[j], "(create (class <peq3>") {
							return "instances with different slots", relNames[r]
						}
						if r < 2 && i != j && v == "t" && fresh(names[i]) && fresh(names[j]) {
							return "two objects created separately", relNames[r]
						}
						if r > 0 && at(r-1, i, j) == "t" && v != "t" {
							return relNames[r-1] + " implies " + relNames[r], "not"
						}
						if v == "t" {
							for k := 0; k < n; k++ {
								if at(r, i, k) != at(r, j, k) {
									return relNames[r] + " transitive", "not for " + names[k]
								}
							}
						}
					}
					return "ok", "ok"
				})
			}
		}
	}
	register(&Prop{ID: "P14",
		Rule:        "all pairs of the listed atoms and of every list, vector and pair made from them compared with the four predicates and with the functions that search by them, against the model; and all pairs and triples of objects of every class checked for the laws of equivalence relations and inclusion",
		Assumptions: modelAssumptions,
		Replay: func(c *C, input string) {
			if strings.HasPrefix(input, "law: ") {
				c.only = input
				laws(c)
				return
			}
			c.Diff(input)
		},
		Run: func(c *C) {
			c.Section("long integers")
			longs := strings.Fields("123456789012345678901234567890 -123456789012345678901234567890 123456789012345678901234567891 9223372036854775808 -9223372036854775809 18446744073709551616 -18446744073709551616 9223372036854775807 -9223372036854775808 0")
			for i, x := range longs {
				for j, y := range longs {
					if c.Stop() || !c.Take() {
						continue
					}
					src := fmt.Sprintf("(let ((x %s) (y %s)) (list (eql x y) (equal x y) (equalp x y) (consp (member x (list y))) (consp (assoc x (list (list y)))) (equal (list x) (list y)) (equal (vector x) (vector y))))", x, y)
					c.Case("long integers", src, func() (string, string) {
						w := "nil"
						if i == j {
							w = "t"
						}
						return "(" + strings.Repeat(w+" ", 6) + w + ")", c.implRun(src).val
					})
				}
			}
			c.Section("values")
			vals := vals
			if c.Thorough() {
				base := vals[len(atoms) : len(atoms)+60]
				for _, x := range base {
					for _, y := range append(base[:8:8], "1", "\"a\"") {
						vals = append(vals, "(list "+x+" "+y+")", "(vector "+y+" "+x+")")
					}
				}
			}
			for _, x := range vals {
				for _, y := range vals {
					if c.Stop() {
						return
					}
					if c.Take() {
						c.Diff(fmt.Sprintf("(let ((x %s) (y %s)) (list (eql x y) (equal x y) (equalp x y) (equalp y x) (eql x x) (equal x x) (eq x x) (if (member x (list 0 y)) t nil) (if (assoc y (list (cons 'no 0) (cons x 1))) t nil) (catch x (catch 'other (catch y (throw x 1)) 2) 3)))", x, y))
					}
				}
			}
			laws(c)
		}})
}
