package main

// P16 arrays and vectors, P28 strings and characters.

import (
	"fmt"
	"strings"
)

// words lists all strings over the alphabet with at most n letters.
func words(alpha []string, n int) []string {
	all := []string{""}
	last := all
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, a := range alpha {
				next = append(next, w+a)
			}
		}
		all = append(all, next...)
		last = next
	}
	return all
}

func lispStr(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func init() {
	gramProp("P16", "every sequence of array operations up to the stated length over variables that share arrays; values, effects and identity are compared", modelAssumptions,
		gsec{name: "operations", q: 2, t: 3, graph: true, rules: `
P: 0 (let* ((v (vector 1 2 3)) (w v) (m (create-array '(2 3) 0)) (c nil)) $S $S (list v w m c))
P: 0 (let* ((v (vector 'a)) (w (list v v)) (m (create-array '(2 2 2) v)) (c (create-array '() 'z))) $S $S (list v w m c))
P: 1 (let* ((v (vector 1 2 3)) (w (subseq v 0 2)) (m (create-array '(2 3) 0)) (c (create-array '(2 3) 0))) $T $T $T (list v w m c (equal m c) (eq m c)))
S: 0 (tr (set-aref 9 $A $I))
S: 0 (tr (setf (aref $A $I) c))
S: 0 (tr (setf (aref m $I $I) 'q))
S: 0 (tr (setf (aref m $J $J $J) 'q))
S: 0 (tr (set-aref c))
S: 0 (tr (setf (aref c) 5))
S: 0 (tr (setf (elt $A $I) 8))
S: 0 (setq c $E)
S: 0 (setq v $E)
S: 0 (setq c (list $A $A))
T: 0 (setf (aref v $J) w)
T: 0 (setf (elt w $J) 'e)
T: 0 (setf (aref m $J $I) v)
T: 0 (setf (aref c $J $I) 1)
T: 0 (setq w v)
T: 0 (setq v (subseq v $J 2))
T: 0 (setq m c)
E: 0 (aref $A $I)
E: 0 (aref m $I $I)
E: 0 (aref m $J $J $J)
E: 0 (aref c)
E: 0 (elt $A $I)
E: 0 (length $A)
E: 0 (array-dimensions $A)
E: 0 (array-dimensions m)
E: 0 (vector $A $A)
E: 0 (subseq $A $I $I)
E: 0 (create-array (list $I 2) $A)
E: 0 (create-array '(2) (vector $A))
E: 0 (create-array '())
E: 0 (array-dimensions (create-array (list $I 0) v))
E: 0 (create-array (array-dimensions m) 7)
E: 0 (list (eq v w) (equal v w) (equal m (create-array '(2 3) 0)) (eql c $A))
E: 0 (list (basic-array-p $A) (basic-array*-p $A) (general-array*-p $A))
E: 0 (apply #'aref m (array-dimensions m))
E: 0 (apply #'vector (list $A $A))
A: 0 v
A: 0 w
A: 0 m
A: 0 c
I: 0 0
I: 0 1
I: 0 2
I: 1 3
I: 1 -1
I: 1 1.0
I: 1 'x
I: 1 4611686018427387904
I: 1 9223372036854775807
J: 0 0
J: 0 1
J: 1 2
`})

	register(&Prop{ID: "P28",
		Rule:        "every string function applied to all strings over the listed alphabets up to the stated length, with every start index, and every character function applied to all pairs of characters",
		Assumptions: modelAssumptions,
		Run: func(c *C) {
			one := func(format string, a ...any) {
				if !c.Stop() && c.Take() {
					c.Diff(fmt.Sprintf(format, a...))
				}
			}
			cmps := strings.Fields("string= string/= string< string> string<= string>=")
			alpha := []string{"a", "b", "A", "é", "日"}
			ws := words(alpha, c.Pick(3, 3))
			c.Section("compare")
			for _, s := range ws {
				for _, t := range ws {
					s, t := lispStr(s), lispStr(t)
					one("(let ((s %s) (u %s)) (list (string= s u) (string/= s u) (string< s u) (string> s u) (string<= s u) (string>= s u) (equal s u) (eql s u)))", s, t)
				}
			}
			for _, s := range []string{"語", "😀", "a語", "日語", "a", "日"} {
				for _, t := range []string{"語", "😀", "a😀", "日日", "a", "\uffff"} {
					one("(let ((s %s) (u %s)) (list (string= s u) (string/= s u) (string< s u) (string> s u) (string<= s u) (string>= s u) (equal s u) (eql s u)))", lispStr(s), lispStr(t))
				}
			}
			c.Section("append and index")
			for _, s := range ws {
				for _, t := range words(alpha, 2) {
					s, t := lispStr(s), lispStr(t)
					one("(let ((s %s) (u %s)) (list (string-append s u) (length (string-append u s)) (string-append s u s) (string-append s) (string-append)))", s, t)
					for _, st := range []string{"", " 0", " 1", " 2", " 3", " 4"} {
						one("(string-index %s %s%s)", t, s, st)
					}
				}
			}
			c.Section("one string")
			small := words([]string{"a", "b", "é", "日"}, c.Pick(4, 6))
			for _, w := range small {
				s := lispStr(w)
				n := len([]rune(w))
				one("(let ((s %s)) (list (length s) (stringp s) (characterp s) (basic-array-p s) (basic-array*-p s)))", s)
				for i := -1; i <= n+1; i++ {
					one("(elt %s %d)", s, i)
					for j := -1; j <= n+1; j++ {
						one("(subseq %s %d %d)", s, i, j)
					}
					for _, ch := range []string{"a", "b", "é", "日", "z"} {
						one("(char-index #\\%s %s %d)", ch, s, i)
						if i == 0 {
							one("(char-index #\\%s %s)", ch, s)
						}
					}
				}
			}
			c.Section("characters")
			chars := strings.Fields(`#\a #\b #\A #\Z #\0 #\9 #\space #\newline #\é #\日 #\ß #\語 #\😀`)
			for _, x := range chars {
				one("(list (characterp %s) (stringp %s) (symbolp %s) (integerp %s) (eql %s %s))", x, x, x, x, x, x)
				for _, y := range chars {
					one("(list (char= %[1]s %[2]s) (char/= %[1]s %[2]s) (char< %[1]s %[2]s) (char> %[1]s %[2]s) (char<= %[1]s %[2]s) (char>= %[1]s %[2]s) (eql %[1]s %[2]s) (equal %[1]s %[2]s))", x, y)
				}
				for i := -1; i < 4; i++ {
					one("(create-string %d %s)", i, x)
				}
			}
			c.Section("wrong types")
			vals := strings.Fields(`1 1.5 nil 'a #\a "a" '("a") (vector) :k`)
			for _, f := range append(cmps, strings.Fields("char= char/= char< char> char<= char>= string-append char-index string-index create-string elt")...) {
				for _, x := range vals {
					for _, y := range vals {
						one("(%s %s %s)", f, x, y)
					}
				}
			}
		}})
}
