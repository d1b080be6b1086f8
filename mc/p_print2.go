package main

// P11: a function definition written by expand-defun, read back and evaluated.

import (
	"context"
	"fmt"
	"strings"
)

// definitionLaw defines f@ by src, writes it with expand-defun, evaluates what
// was written, and compares the calls before and after.
func definitionLaw(c *C, src string) (want, got string) {
	iw := c.World()
	id := c.newID()
	run := func(s string) *obs {
		iw.out.Reset()
		return c.implRunID(iw, s, id, context.Background())
	}
	calls := func() string {
		var b strings.Builder
		for _, args := range []string{"", " 1", " 1 '(2 3)", " '(4) \"x\" 3", " 'a #\\b 3 '|a b|"} {
			o := run("(f@" + args + ")")
			fmt.Fprintf(&b, "(f%s) -> %s; ", args, o.describe())
		}
		return b.String()
	}
	if o := run(src); o.kind != "value" {
		return "a definition", o.describe()
	}
	before := calls()
	o := run("(expand-defun f@)")
	first := iw.out.String()
	if o.kind != "value" {
		return "a printed definition", o.describe()
	}
	if mid := calls(); mid != before {
		return before, mid
	}
	if o = run(first); o.kind != "value" {
		return "a definition", fmt.Sprintf("%s of %s", o.describe(), first)
	}
	if after := calls(); after != before {
		return before, fmt.Sprintf("%s by %s", after, first)
	}
	run("(expand-defun f@)")
	if second := iw.out.String(); second != first {
		return first, second
	}
	return before, before
}

func definitions(c *C) {
	c.Section("definitions")
	leaves := []string{"1", "nil", "-2.5", "\"s\\\"\\\\\"", "#\\(", "#\\space", ":k", "'|a b|", "'(a . b)", "''a", "#(1 \"x\")", "#2a((1 2) (3 4))", "'|1|", "'nil", "`a", "'(quote a b)", "'`(a ,b ,@c)"}
	wraps := []string{"(list %s)", "(if %s 'y 'n)", "(let ((zz %s)) (setq zz (list zz)) zz)", "(let* ((zz %s) (yy zz)) (cons yy zz))",
		"(cond ((eql %s 1) 'one) (t 'other))", "(case %s ((1 a) 'x) ((|a b|) 'y) (t 'z))", "((lambda (x :rest q) (list q x)) %s 2 3)", "(funcall (lambda (x) x) %s)",
		"(mapcar (lambda (x) (list x)) (list %s 2))", "(apply #'list %s '(1 2))", "(flet ((h (x) (list x))) (h %s))", "(labels ((h (n x) (if (< n 1) x (h (- n 1) (list x))))) (h 3 %s))",
		"(let ((s nil)) (dolist (x (list %s 2)) (setq s (cons x s))) s)", "(let ((s 0)) (dotimes (i 3) (setq s (list i s %s))) s)", "(block b (return-from b %s) 2)", "(catch 'k (throw 'k %s))",
		"(let ((n 0)) (while (< n 2) (tr %s) (setq n (+ n 1))) n)", "(for ((i 0 (+ i 1))) ((= i 2) %s) (tr i))", "(tagbody x (tr %s) (go z) (tr 2) z)", "(unwind-protect %s (tr 'cleanup))",
		"`(a ,%s b)", "`(a ,@(list %s) . b)", "`#(,%s)", "(the <object> %s)", "(and 1 %s)", "(or nil %s)", "(when t %s)", "(unless nil %s)", "(progn (tr 1) %s)", "(with-handler (lambda (e) (throw 'k 5)) (catch 'k (car %s)))",
		"(dynamic-let ((d %s)) (dynamic d))", "(let ((l (list 1 2))) (setf (car l) %s) l)", "(let ((l (list 1 2))) (push %s l) l)", "(prog1 %s (tr 3))", "(return %s)", "(convert 65 <character>)", "(assure <integer> %s)", "#'car"}
	do := func(ll, body string) {
		src := fmt.Sprintf("(defun f@ %s%s)", ll, body)
		if !c.Stop() && c.Take() {
			c.Case("definition", src, func() (string, string) { return definitionLaw(c, src) })
		}
	}
	for _, ll := range []struct {
		text string
		vars []string
	}{{"()", nil}, {"(a)", []string{"a"}}, {"(a |b c|)", []string{"a", "|b c|"}}, {"(:rest r)", []string{"r"}}, {"(a :rest r)", []string{"a", "r"}}, {"(a b :rest |r r|)", []string{"a", "b", "|r r|"}}, {"(&rest r)", []string{"r"}}, {"(a b c d)", []string{"a", "d"}}} {
		do(ll.text, "")
		as := append(append([]string{}, ll.vars...), leaves...)
		all := append([]string{}, as...)
		for _, w := range wraps {
			if !strings.Contains(w, "%s") {
				all = append(all, w)
				continue
			}
			for _, a := range as {
				all = append(all, fmt.Sprintf(w, a))
			}
		}
		for _, e := range all {
			do(ll.text, " "+e)
			do(ll.text, " (tr 0) "+e)
		}
		if len(ll.vars) > 0 {
			v := ll.vars[len(ll.vars)-1]
			do(ll.text, " (list "+strings.Join(ll.vars, " ")+")")
			for _, w := range wraps {
				for _, x := range wraps {
					if !strings.Contains(w, "%s") || !strings.Contains(x, "%s") {
						continue
					}
					do(ll.text, " "+fmt.Sprintf(w, fmt.Sprintf(x, v)))
				}
			}
		}
	}
}
