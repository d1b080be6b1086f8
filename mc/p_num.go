package main

// P13: arithmetic, comparison and conversion of numbers.

import (
	"fmt"
	"strings"
)

func init() {
	nums := strings.Fields(`0 1 -1 2 -2 3 -3 7 -7 10 255 256 1000003 2147483647 -2147483648 4294967296 3037000500
		4503599627370497 9007199254740992 9007199254740993 -9007199254740993 4611686018427387904 9223372036854775807 -9223372036854775807
		0.0 -0.0 0.5 -0.5 1.0 -1.0 1.5 -1.5 2.0 2.5 -2.5 3.5 0.1 3.7 -3.7 7.25 9007199254740992.0 9007199254740994.0 -9007199254740992.0
		9223372036854775808.0 -9223372036854775808.0 1.0e10 1.0e300 -1.0e300 1.0e-300`)
	others := strings.Fields(`nil t 'a "1" #\1 '(1) (vector) :k #'car`)
	bin := strings.Fields("+ - * / mod rem max min")
	cmp := strings.Fields("= /= < > <= >=")
	one := strings.Fields("floor ceiling truncate round sqrt 1+ 1- + - * max min zerop plusp minusp oddp evenp numberp integerp floatp")
	register(&Prop{ID: "P13",
		Rule:        "every arithmetic, rounding and comparison function applied to all pairs and triples of the listed numbers (extremes, halves, neighbours at 2^53 and 2^63, both classes) and non-numbers, and parse-number of all strings over an alphabet up to the stated length",
		Assumptions: append(modelAssumptions[:1:1], "results outside 64-bit integers and finite floats are left undefined", "arithmetic on strings and characters is an extension and not judged"),
		Run: func(c *C) {
			do := func(format string, a ...any) bool {
				if !c.Stop() && c.Take() {
					c.Diff(fmt.Sprintf(format, a...))
				}
				return !c.Stop()
			}
			all := append(append([]string{}, nums...), others...)
			c.Section("no or one operand")
			for _, f := range append(append(bin, cmp...), one...) {
				do("(%s)", f)
			}
			for _, f := range append(append([]string{}, bin...), one...) {
				for _, x := range all {
					do("(%s %s)", f, x)
				}
			}
			c.Section("two operands")
			for _, x := range all {
				for _, y := range all {
					for _, f := range append(bin, cmp...) {
						do("(%s %s %s)", f, x, y)
					}
					do("(let ((x %s) (y %s)) (list (eq x 1) (eql x y) (equal x y) (eql y x) (eql x x)))", x, y)
				}
			}
			c.Section("float quotients")
			var small []string
			for i := -24; i <= 24; i++ {
				small = append(small, fmt.Sprintf("%g", float64(i)/4), fmt.Sprint(i))
			}
			for i, x := range small {
				if !strings.Contains(x, ".") && i%2 == 0 {
					small[i] = x + ".0"
				}
			}
			for _, x := range small {
				for _, f := range one {
					do("(%s %s)", f, x)
				}
				for _, y := range small {
					do("(list (mod %[1]s %[2]s) (floor %[1]s))", x, y)
					do("(list (rem %[1]s %[2]s) (max %[1]s %[2]s 0.125))", x, y)
					do("(list (+ %[1]s %[2]s) (- %[1]s %[2]s) (* %[1]s %[2]s) (< %[1]s %[2]s) (>= %[1]s %[2]s) (= %[1]s %[2]s))", x, y)
					do("(/ %[1]s %[2]s)", x, y)
				}
			}
			c.Section("three operands")
			sel := nums
			if !c.Thorough() {
				sel = nil
				for i, x := range nums {
					if i%3 == 0 || i >= 19 && i < 24 {
						sel = append(sel, x)
					}
				}
			}
			sel = append(sel, "'a")
			for _, x := range sel {
				for _, y := range sel {
					for _, z := range sel {
						do("(+ %s %s %s)", x, y, z)
						do("(- %s %s %s)", x, y, z)
						do("(* %s %s %s)", x, y, z)
						do("(/ %s %s %s)", x, y, z)
						do("(let ((x %s) (y %s) (z %s)) (list (< x y z) (> x y z) (<= x y z) (>= x y z) (= x y z)))", x, y, z)
						do("(max %s %s %s)", x, y, z)
						do("(min %s %s %s)", x, y, z)
					}
				}
			}
			c.Section("parse-number")
			for _, w := range words([]string{"0", "1", "9", "+", "-", ".", "e", "E"}, c.Pick(6, 7)) {
				do("(parse-number %s)", lispStr(w))
			}
			for _, w := range words([]string{"1", "a", " ", ".", "x", "F", "#", "b", "e"}, c.Pick(4, 5)) {
				do("(parse-number %s)", lispStr(w))
			}
			c.Section("literals")
			for _, w := range words([]string{"0", "1", "9", "+", "-", ".", "e"}, c.Pick(5, 6)) {
				if v, ok := numberOf(w); w != "" && w != "." && (!ok || v != nil) {
					do("'%s", w)
				}
			}
		}})
}
