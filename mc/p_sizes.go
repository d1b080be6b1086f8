package main

// Size ladders: programs that grow with a number n, run for every n of a ladder
// of sizes (each small n, and the numbers on both sides of the powers of two
// and of round numbers), so that a limit or a fast path in the code that holds
// only up to a certain size shows. They belong to the properties whose
// behaviour they repeat n times, and are compared with the model unless they
// carry the expected observation themselves.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type ladder struct {
	src  func(n int) string
	want func(n int) string // "" or nil: what the model says
	law  func(c *C, input string) (want, got string)
	max  int  // largest n, 0 for no limit
	big  bool // short for every n: also runs for the sizes of bigSizes
}

var ladders = map[string][]ladder{}

func lad(id string, src func(n int) string) { ladders[id] = append(ladders[id], ladder{src: src}) }
func ladBig(id string, src func(n int) string) {
	ladders[id] = append(ladders[id], ladder{src: src, big: true})
}
func ladMax(id string, max int, src func(n int) string) {
	ladders[id] = append(ladders[id], ladder{src: src, max: max})
}
func ladWant(id string, src, want func(n int) string) {
	ladders[id] = append(ladders[id], ladder{src: src, want: want})
}

func ladLaw(id string, law func(c *C, input string) (want, got string), src func(n int) string) {
	ladders[id] = append(ladders[id], ladder{src: src, law: law})
}

// ladderSizes lists the sizes of the quick and of the thorough tier.
func ladderSizes(thorough bool) []int {
	top := 130
	edges := []int{200, 255, 256, 300, 500, 512, 1000, 1023, 1024, 2048, 4096}
	if thorough {
		top = 1100
		edges = append(edges, 1500, 2000, 3000, 8192, 10000)
	}
	m := map[int]bool{}
	for i := 0; i <= top; i++ {
		m[i] = true
	}
	for _, e := range edges {
		for d := -1; d <= 1; d++ {
			m[e+d] = true
		}
	}
	var r []int
	for n := range m {
		r = append(r, n)
	}
	sort.Ints(r)
	return r
}

var bigSizes = []int{32767, 32768, 32769, 65535, 65536, 65537}

func runLadders(c *C) {
	ls := ladders[c.prop.ID]
	if len(ls) == 0 || c.Stop() {
		return
	}
	c.Section("sizes")
	c.worldMax = 200
	for _, n := range append(ladderSizes(c.Thorough()), bigSizes...) {
		for _, l := range ls {
			if l.max > 0 && n > l.max || n >= bigSizes[0] && !l.big {
				continue
			}
			if c.Stop() {
				return
			}
			if c.Take() {
				c.ladderCase(l, n)
			}
		}
	}
}

func (c *C) ladderCase(l ladder, n int) bool {
	src := l.src(n)
	if l.law != nil {
		return c.Case("sizes", src, func() (string, string) { return l.law(c, src) })
	}
	if l.want != nil {
		want := l.want(n)
		if len(want) > 20000 {
			c.Skip("too long to be shown whole")
			return true
		}
		return c.Case("sizes", src, func() (string, string) {
			o := c.implRun(src)
			return want, o.describe()
		})
	}
	modelSteps, modelDepth = 5_000_000, 30000
	defer func() { modelSteps, modelDepth = defaultSteps, defaultDepth }()
	return c.Diff(src)
}

// replayLadder reports whether input is a case of a ladder, and runs it.
func (c *C) replayLadder(input string) bool {
	for _, l := range ladders[c.prop.ID] {
		for _, n := range append(ladderSizes(true), bigSizes...) {
			if (l.max == 0 || n <= l.max) && l.src(n) == input {
				c.only = ""
				c.ladderCase(l, n)
				return true
			}
		}
	}
	return false
}

// times joins f(0) … f(n-1).
func times(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(f(i))
	}
	return b.String()
}

// each is times with a pattern whose every %[1]d is the number.
func each(n int, pat string) string {
	return times(n, func(i int) string { return strings.ReplaceAll(pat, "#", strconv.Itoa(i)) })
}

// nest puts body into n copies of pat, the innermost with number 0.
func nest(n int, pat, body string) string {
	// pat has one "_" for what is inside and # for the number.
	pre, post, _ := strings.Cut(pat, "_")
	var b strings.Builder
	for i := n - 1; i >= 0; i-- {
		b.WriteString(strings.ReplaceAll(pre, "#", strconv.Itoa(i)))
	}
	b.WriteString(body)
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(post, "#", strconv.Itoa(i)))
	}
	return b.String()
}

// targets are the positions worth trying among n.
func targets(n int) []int {
	if n == 0 {
		return nil
	}
	return []int{0, n / 2, n - 1}
}

// ladAt adds a ladder for each of the positions first, middle and last.
func ladAt(id string, f func(n, k int) string) {
	for p := 0; p < 3; p++ {
		lad(id, func(n int) string {
			if n == 0 {
				n = 1
			}
			return f(n, targets(n)[p])
		})
	}
}

func num(n int) string { return strconv.Itoa(n) }

func init() {
	sp := fmt.Sprintf
	nums := func(n int) string { return each(n, "#") }

	// P01: many variables, functions and scopes.
	lad("P01", func(n int) string {
		return "(let (" + each(n, "(v# #)") + ") (list " + each(n, "v#") + "))"
	})
	lad("P01", func(n int) string {
		return "(let* (" + each(n, "(v# #)") + ") (list " + each(n, "v#") + "))"
	})
	ladMax("P01", 300, func(n int) string {
		return "(let ((x -1)) " + nest(n, "(let ((x (+ x 1)) (v# x)) _)", "(list x "+each(n, "v#")+")") + ")"
	})
	lad("P01", func(n int) string {
		return "(let ((fs nil)) (for ((i 0 (+ i 1))) ((>= i " + num(n) + ")) (let ((j i)) (setq fs (cons (lambda () (setq j (+ j 1))) fs)))) (append (mapcar #'funcall fs) (mapcar #'funcall fs)))"
	})
	lad("P01", func(n int) string {
		return "(labels (" + each(n, "(f# (x) (+ x #))") + ") (list " + each(n, "(f# 1)") + "))"
	})
	lad("P01", func(n int) string {
		return "(defun h@ (x) x) (flet (" + each(n, "(f# (x) (list # (h@ x)))") + ") (list " + each(n, "(f# 1)") + "))"
	})
	lad("P01", func(n int) string {
		return "((lambda (" + each(n, "v#") + ") (list " + each(n, "v#") + ")) " + nums(n) + ")"
	})
	ladMax("P01", 300, func(n int) string {
		return each(n, "(defglobal g@x# #)") + " (let ((s 0)) " + each(n, "(setq s (+ s g@x#)) (setq g@x# (- 0 g@x#))") + " (list s " + each(n, "g@x#") + "))"
	})
	lad("P01", func(n int) string {
		return "(let ((c 0)) (defun f@ () (setq c (+ c 1))) " + each(n, "(f@)") + " (list c (f@)))"
	})
	ladMax("P01", 129, func(n int) string {
		return each(n, "(defun f@x# (x) (cons # x))") + " (list " + each(n, "(f@x# nil)") + ")"
	})

	// P02: loops by tail calls.
	for _, body := range []string{
		"(if (= n 0) acc (f@ (- n 1) (list n)))",
		"(cond ((= n 0) acc) (t (f@ (- n 1) (cons n acc))))",
		"(if (= n 0) (mapcar #'funcall acc) (f@ (- n 1) (cons (lambda () n) acc)))",
		"(let ((m (- n 1))) (if (< m 0) acc (f@ m (cons m acc))))",
		"(progn (tr n) (if (= n 0) acc (f@ (- n 1) acc)))",
		"(case n ((0) acc) (t (f@ (- n 1) (cons acc n))))",
	} {
		lad("P02", func(n int) string { return "(defun f@ (n acc) " + body + ") (f@ " + num(n) + " nil)" })
		lad("P02", func(n int) string { return "(labels ((f@ (n acc) " + body + ")) (f@ " + num(n) + " nil))" })
	}
	lad("P02", func(n int) string {
		return "(defun f@ (" + each(n, "v#") + ") (if (eql v0 'x) (list " + each(n, "v#") + ") (f@ 'x " + each(n-1, "v#") + "))) (f@ " + nums(n) + ")"
	})

	// P03: many targets.
	for _, form := range []string{"(return-from b%d 'x)"} {
		ladAt("P03", func(n, k int) string {
			return nest(n, "(progn (tr (block b# _)) #)", sp(form, k))
		})
	}
	ladAt("P03", func(n, k int) string {
		return nest(n, "(progn (tr (catch 'c# _)) #)", sp("(throw 'c%d 'x)", k))
	})
	ladAt("P03", func(n, k int) string {
		return nest(n, "(progn (tr (catch '(c) _)) #)", sp("(catch 'd (throw 'd %d))", k))
	})
	ladAt("P03", func(n, k int) string {
		return sp("(let ((c 0)) (tagbody (go t%d) ", k) + each(n, "t# (setq c (+ c 1))") + ") c)"
	})
	lad("P03", func(n int) string {
		// every tag jumps to the one before it
		return sp("(let ((r nil)) (tagbody (go t%d) ", n) + times(n+1, func(i int) string {
			if i == 0 {
				return "t0 (setq r (cons 0 r)) (go end)"
			}
			return sp("t%d (setq r (cons %d r)) (go t%d)", i, i, i-1)
		}) + " end) r)"
	})
	lad("P03", func(n int) string {
		return sp("(defun f@ (n) (if (= n 0) (throw 'top 'x) (list (f@ (- n 1))))) (list (catch 'top (f@ %d)))", n)
	})
	lad("P03", func(n int) string {
		return sp("(let ((c 0)) (block b (while t (setq c (+ c 1)) (when (> c %d) (return-from b c)))))", n)
	})
	ladMax("P03", 300, func(n int) string {
		// exits through closures of outer activations
		return sp("(defun f@ (n k) (block b (if (= n 0) (funcall k 'x) (progn (f@ (- n 1) (if (= n %d) (lambda (v) (return-from b (tr v))) k)) (tr n))))) (f@ %d (lambda (v) v))", n/2+1, n)
	})

	// P04: many cleanups.
	lad("P04", func(n int) string {
		return "(catch 'c " + nest(n, "(unwind-protect _ (tr #))", "(throw 'c 'x)") + ")"
	})
	lad("P04", func(n int) string {
		return "(block b " + nest(n, "(unwind-protect _ (tr #))", "(return-from b 'x)") + ")"
	})
	lad("P04", func(n int) string { return nest(n, "(unwind-protect _ (tr #))", "'x") })
	lad("P04", func(n int) string { return nest(n, "(unwind-protect _ (tr #))", "(car 1)") })
	lad("P04", func(n int) string { return "(unwind-protect 'x " + each(n, "(tr #)") + ")" })
	lad("P04", func(n int) string {
		return sp("(defun f@ (n) (unwind-protect (if (= n 0) (throw 'c 0) (f@ (- n 1))) (tr n))) (catch 'c (f@ %d))", n)
	})
	lad("P04", func(n int) string {
		return sp("(dotimes (i %d) (block b (unwind-protect (return-from b i) (tr i))))", n)
	})
	lad("P04", func(n int) string {
		return "(tagbody (go t0) " + times(n, func(i int) string {
			return sp("t%d (unwind-protect (go t%d) (tr %d))", i, i+1, i)
		}) + sp(" t%d)", n)
	})

	// P05: many arguments.
	for _, call := range []string{"(list %s)", "(funcall #'list %s)", "(apply #'list %s nil)", "(funcall (lambda (&rest r) r) %s)",
		"(vector %s)", "(append (list %s))", "(+ %s)", "(apply #'+ %s '(1 2))", "(string-append (create-string 1) (if (= 1 (+ 1 %s)) \"a\" \"b\"))"} {
		lad("P05", func(n int) string { return sp(call, each(n, "(tr #)")) })
	}
	ladAt("P05", func(n, k int) string {
		return "(block b (list " + times(n, func(i int) string {
			if i == k {
				return "(return-from b 'x)"
			}
			return sp("(tr %d)", i)
		}) + "))"
	})
	lad("P05", func(n int) string {
		return sp("(let ((l nil)) (dotimes (i %d) (setq l (cons i l))) (list (apply #'list l) (apply #'list 'a l) (apply (lambda (&rest r) (length r)) l) (apply #'+ 1 l)))", n)
	})
	lad("P05", func(n int) string { return nest(n, "(list (tr #) _ (tr #))", "(tr 'x)") })
	lad("P05", func(n int) string {
		return "(defun f@ (" + each(n, "v#") + " &rest r) (list " + each(n, "v#") + " r)) (f@ " + each(n, "(tr #)") + " (tr 'a) (tr 'b))"
	})

	// P06: many clauses and turns.
	for p := 0; p < 4; p++ {
		at := func(n int) int { return []int{0, n / 2, n - 1, n}[p] }
		lad("P06", func(n int) string {
			return sp("(let ((x %d)) (cond ", at(n)) + each(n, "((= x (tr #)) (tr 'a) '(c #))") + "))"
		})
		lad("P06", func(n int) string {
			return sp("(case %d ", at(n)) + each(n, "((# -#) (tr 'a) '(c #))") + " (t 'none))"
		})
		lad("P06", func(n int) string {
			return sp("(case %d ((%s) 'in) (t 'none))", at(n), nums(n))
		})
		lad("P06", func(n int) string {
			return sp("(case-using #'= %d ", at(n)) + each(n, "((#) (tr 'a) '(c #))") + ")"
		})
		lad("P06", func(n int) string {
			k := at(n)
			return "(and " + times(n, func(i int) string {
				if i == k {
					return "(tr nil)"
				}
				return sp("(tr %d)", i)
			}) + ")"
		})
		lad("P06", func(n int) string {
			k := at(n)
			return "(or " + times(n, func(i int) string {
				if i == k {
					return sp("(tr %d)", i)
				}
				return "(progn (tr 'a) nil)"
			}) + ")"
		})
		lad("P06", func(n int) string {
			return sp("(let ((x %d)) ", at(n)) + nest(n, "(if (= x #) (progn (tr 'a) #) _)", "'none") + ")"
		})
	}
	for _, body := range []string{
		"(let ((i 0) (r nil)) (while (< i %d) (setq r (cons i r)) (setq i (+ i 1))) r)",
		"(for ((i 0 (+ i 1)) (r nil (cons i r))) ((>= i %d) (tr i) r))",
		"(let ((r nil)) (list (dotimes (i %d (length r)) (setq r (cons i r))) r))",
		"(for ((i 0 (+ i 1)) (a 0 b) (b 1 (mod (+ a b) 1000))) ((= i %d) (list a b)))",
	} {
		lad("P06", func(n int) string { return sp(body, n) })
	}
	lad("P06", func(n int) string { return sp("(let ((r nil)) (dolist (x '(%s) r) (setq r (cons x r))))", nums(n)) })
	for _, f := range []string{"progn", "prog1 'z", "when t", "unless nil", "let nil", "tagbody", "while (= 0 (length (list (tr 'w)))) "} {
		lad("P06", func(n int) string { return "(" + f + " " + each(n, "(tr #)") + ")" })
	}
	lad("P06", func(n int) string {
		return "(for (" + each(n, "(v# # (+ v# 1))") + " (i 0 (+ i 1))) ((= i 3) (list " + each(n, "v#") + ")))"
	})

	// P07: many dynamic bindings.
	lad("P07", func(n int) string {
		return "(defdynamic d@ -1) (list " + nest(n, "(dynamic-let ((d@ #)) (list (dynamic d@) _ (dynamic d@)))", "(dynamic d@)") + " (dynamic d@))"
	})
	ladMax("P07", 300, func(n int) string {
		return each(n, "(defdynamic d@x# #)") + "(defun g@ () (list " + each(n, "(dynamic d@x#)") + ")) (list (dynamic-let (" + each(n, "(d@x# (- 0 (dynamic d@x#)))") + ") (g@)) (g@))"
	})
	lad("P07", func(n int) string {
		return sp("(defdynamic d@ 0) (defun f@ (n) (dynamic-let ((d@ (+ 1 (dynamic d@)))) (if (= n 0) (dynamic d@) (f@ (- n 1))))) (list (f@ %d) (dynamic d@))", n)
	})
	lad("P07", func(n int) string {
		return sp("(defdynamic d@ 0) (defun f@ (n) (dynamic-let ((d@ n)) (if (= n 0) (throw 'c (dynamic d@)) (f@ (- n 1))))) (list (catch 'c (f@ %d)) (dynamic d@))", n)
	})
	lad("P07", func(n int) string {
		return sp("(defdynamic d@ 0) (dotimes (i %d) (set-dynamic (+ i (dynamic d@)) d@) (dynamic-let ((d@ 'x)) (set-dynamic i d@))) (dynamic d@)", n)
	})

	// P08: many handlers and conditions.
	ladAt("P08", func(n, k int) string {
		return "(catch 'c " + nest(n, "(with-handler (lambda (c) (tr #) "+
			sp("(if (= # %d) (throw 'c (class-of c)) (signal-condition c nil))", n-1-k)+") _)", "(car 1)") + ")"
	})
	lad("P08", func(n int) string {
		return sp("(let ((i 0)) (with-handler (lambda (c) (setq i (+ i 1)) (continue-condition c i)) (let ((r nil)) (dotimes (j %d) (setq r (cons (cerror \"a\" \"b\") r))) (list i r))))", n)
	})
	lad("P08", func(n int) string {
		return sp("(let ((k 0)) (dotimes (i %d) (block b (with-handler (lambda (c) (return-from b (setq k (+ k 1)))) (car i)))) k)", n)
	})
	ladMax("P08", 513, func(n int) string {
		return sp("(defun f@ (n) (if (= n 0) (error \"x\") (with-handler (lambda (c) (tr n) (signal-condition c nil)) (f@ (- n 1))))) (block b (with-handler (lambda (c) (return-from b 'out)) (f@ %d)))", n)
	})

	// P13: many operands, many digits.
	for _, op := range []string{"+", "-", "max", "min", "<", "<=", "=", ">", ">=", "/="} {
		lad("P13", func(n int) string { return "(" + op + " " + each(n, "#") + ")" })
		lad("P13", func(n int) string { return "(" + op + " 3 4 " + each(n, "-#") + ")" })
		lad("P13", func(n int) string { return "(" + op + " " + each(n, "#.5") + " 1)" })
	}
	lad("P13", func(n int) string { return "(* " + each(n, "3") + " 5)" })
	lad("P13", func(n int) string { return "(- 0 (* 7 " + each(n, "11") + "))" })
	lad("P13", func(n int) string { return "(apply #'+ (list " + each(n, "#") + "))" })
	pow := func(b int64, n int) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(int64(n)), nil) }
	for _, d := range []int64{-1, 0, 1} {
		for _, sg := range []int64{1, -1} {
			val := func(b int64, n int) *big.Int {
				v := new(big.Int).Add(pow(b, n), big.NewInt(d))
				return v.Mul(v, big.NewInt(sg))
			}
			ladWant("P13", func(n int) string { return "(parse-number \"" + val(10, n).String() + "\")" },
				func(n int) string { return "value " + val(10, n).String() })
			ladWant("P13", func(n int) string {
				return "(= " + val(10, n).String() + " (parse-number \"" + val(10, n).String() + "\"))"
			},
				func(n int) string { return "value t" })
			ladMax("P13", 62, func(n int) string {
				return sp("(let ((r %d)) (dotimes (i %d) (setq r (* r 2))) (+ r %d))", sg, n, sg*d)
			})
			ladMax("P13", 62, func(n int) string {
				x := val(2, n).String()
				return sp("(list (mod %s 7) (rem %s 7) (< %s 0) (= %s (- %s 1)) (max %s 5) (1+ %s))", x, x, x, x, x, x, x)
			})
		}
	}

	// P14: large structures that differ in one place.
	for _, mk := range []string{"(list %s)", "(vector %s)", "(append (list %s) 'z)", "(list (vector %s))"} {
		lad("P14", func(n int) string {
			return sp("(let ((a "+mk+") (b "+mk+")) (list (eq a b) (eql a b) (equal a b)))", nums(n), nums(n))
		})
		ladAt("P14", func(n, k int) string {
			o := times(n, func(i int) string {
				if i == k {
					return "'x"
				}
				return num(i)
			})
			return sp("(let ((a "+mk+") (b "+mk+")) (list (equal a b) (equal b a)))", nums(n), o)
		})
		lad("P14", func(n int) string {
			return sp("(let ((a "+mk+") (b "+mk+")) (list (equal a b) (equal b a)))", nums(n), nums(n+1))
		})
	}
	str := func(n, k int) string {
		return `"` + strings.ReplaceAll(times(n, func(i int) string {
			if i == k {
				return "!"
			}
			return string(rune('a' + i%26))
		}), " ", "") + `"`
	}
	lad("P14", func(n int) string {
		return sp("(list (eql %s %s) (equal %s %s))", str(n, -1), str(n, -1), str(n, -1), str(n+1, -1))
	})
	ladAt("P14", func(n, k int) string {
		return sp("(list (eql %s %s) (equal %s %s))", str(n, -1), str(n, k), str(n, k), str(n, -1))
	})
	lad("P14", func(n int) string {
		return sp("(list (equal %s %s) (equal %s %s))", nest(n, "(list _)", "1"), nest(n, "(list _)", "1"), nest(n, "(vector _)", "1"), nest(n, "(vector _)", "2"))
	})

	// P15: long lists.
	lst := func(n int) string { return "(list " + nums(n) + ")" }
	for _, f := range []string{"(length l)", "(reverse l)", "(nreverse l)", "(append l l)", "(append l 'x)", "(append l (list 1) l)", "(list (last l) l)", "(mapcar (lambda (x) (+ x 1)) l)",
		"(mapcar #'cons l (cdr l))", "(maplist (lambda (x) (car x)) l)", "(mapcan (lambda (x) (list x x)) l)", "(mapcon (lambda (x) (list (car x))) l)",
		"(progn (mapc #'tr l) nil)", "(progn (mapl (lambda (x) (tr (car x))) l) nil)", "(list (member -1 l) (assoc 1 nil))", "(nthcdr 3 l)",
		"(let ((m (append l nil))) (set-car 'x m) (list m l))", "(let ((m (reverse l))) (list (eq m l) m l))",
		"(let ((r nil)) (dolist (x l) (setq r (cons x r))) r)", "(eq l (append nil l))", "(mapcar #'list l l l)"} {
		lad("P15", func(n int) string { return "(let ((l " + lst(n) + ")) " + f + ")" })
	}
	for _, f := range []string{"(nth K l)", "(nthcdr K l)", "(elt l K)", "(member K l)", "(assoc K (mapcar (lambda (x) (cons x (list x))) l))", "(progn (setf (nth K l) 'x) l)",
		"(progn (setf (elt l K) 'x) l)", "(progn (set-car 'x (member K l)) l)", "(progn (set-cdr 'x (nthcdr K l)) l)", "(subseq l K N)", "(subseq l 0 K)",
		"(let ((m (nthcdr K l))) (list (eq m (member K l)) (set-car 'y m) l))"} {
		ladAt("P15", func(n, k int) string {
			return "(let ((l " + lst(n) + ")) " + strings.NewReplacer("K", num(k), "N", num(n)).Replace(f) + ")"
		})
	}
	lad("P15", func(n int) string { return sp("(let ((l (create-list %d 'a))) (list (length l) l))", n) })
	lad("P15", func(n int) string { return "(append " + each(n, "'(# a)") + ")" })
	lad("P15", func(n int) string { return "(mapcar #'list " + each(n, "'(# a)") + " '(1 2))" })
	lad("P15", func(n int) string { return nest(n, "(cons # _)", "'end") })
	lad("P15", func(n int) string { return "(length " + nest(n, "(list _)", "nil") + ")" })

	// P16: large arrays.
	vec := func(n int) string { return "(vector " + nums(n) + ")" }
	for _, f := range []string{"(length v)", "v", "(array-dimensions v)", "(list (subseq v 0 (length v)) v)"} {
		lad("P16", func(n int) string { return "(let ((v " + vec(n) + ")) " + f + ")" })
	}
	for _, f := range []string{"(aref v K)", "(elt v K)", "(progn (set-aref 'x v K) v)", "(progn (setf (elt v K) 'x) v)", "(subseq v K N)", "(subseq v 0 K)", "(aref v (+ N K))", "(elt v (+ K N))", "(set-aref 1 v (+ N K))"} {
		ladAt("P16", func(n, k int) string {
			return "(let ((v " + vec(n) + ")) " + strings.NewReplacer("K", num(k), "N", num(n)).Replace(f) + ")"
		})
	}
	ladAt("P16", func(n, k int) string {
		return sp("(let ((v (create-array '(%d 3) 0))) (set-aref 'x v %d 1) (set-aref 'y v 0 2) (list (array-dimensions v) (aref v %d 1) (aref v %d 0) (aref v 0 2) (aref v %d 2)))", n, k, k, k, n-1)
	})
	ladAt("P16", func(n, k int) string {
		return sp("(let ((v (create-array '(2 %d) 0))) (set-aref 'x v 1 %d) (set-aref 'y v 0 %d) (list (aref v 1 %d) (aref v 0 %d) (aref v 1 0) v))", n, k, n-1, k, k)
	})
	lad("P16", func(n int) string {
		return sp("(let ((v (create-array '(%d) 'a))) (list (length v) v))", n)
	})
	lad("P16", func(n int) string {
		return sp("(let ((v (create-array '(%d 2) 0))) (dotimes (i %d) (set-aref i v i 0) (set-aref (- 0 i) v i 1)) v)", n, n)
	})
	ladMax("P16", 129, func(n int) string {
		ones := each(n, "1")
		return sp("(let ((v (create-array '(%s) 'a))) (set-aref 'b v %s) (list (array-dimensions v) (aref v %s)))", ones, each(n, "0"), each(n, "0"))
	})
	ladMax("P16", 12, func(n int) string {
		return sp("(let ((v (create-array '(%s) 0))) (set-aref 1 v %s) (set-aref 2 v %s) v)", each(n, "2"), each(n, "0"), each(n, "1"))
	})

	// P17: many keys.
	for _, key := range []string{"i", "(- 0 i)", "(+ i 0.5)", "(* i 1000003)"} {
		lad("P17", func(n int) string {
			return sp("(let ((h (make-hash-table)) (r nil)) (dotimes (i %d) (setf (gethash %s h) (* i i))) (tr (hash-table-count h)) (dotimes (i %d) (setq r (cons (gethash %s h 'none) r))) r)", n, key, n+2, key)
		})
	}
	lad("P17", func(n int) string {
		return sp("(let ((h (make-hash-table)) (r nil)) (dotimes (i %d) (setf (gethash i h) i)) (dotimes (i %d) (if (= 0 (mod i 3)) (remhash i h) (if (= 1 (mod i 3)) (setf (gethash i h) 'new) nil))) (tr (hash-table-count h)) (dotimes (i %d) (setq r (cons (gethash i h) r))) (clrhash h) (list r (hash-table-count h) (gethash 1 h 'gone)))", n, n, n+1)
	})
	lad("P17", func(n int) string {
		return sp("(let ((h (make-hash-table))) (dotimes (i %d) (setf (gethash 'k h) i) (setf (gethash 1 h) (+ 1 (gethash 1 h 0)))) (list (hash-table-count h) (gethash 'k h) (gethash 1 h)))", n)
	})
	for _, f := range []string{"\"k#\"", "'k#"} {
		lad("P17", func(n int) string {
			return "(let ((h (make-hash-table))) " + each(n, "(setf (gethash "+f+" h) #)") + " (list (hash-table-count h) " + each(n, "(gethash "+f+" h)") + " (gethash \"none\" h 'none)))"
		})
	}
	ladMax("P17", 300, func(n int) string {
		return each(n, "(setf (property 's@ 'p#) #)") + " (remove-property 's@ 'p1) (list " + each(n, "(property 's@ 'p#)") + " (property 's@ 'none))"
	})

	// P18: many slots, classes, methods, objects.
	ladMax("P18", 300, func(n int) string {
		return "(defclass <c@> () (" + each(n, "(s# :initarg s# :initform # :accessor a@x#)") + ")) (let ((o (create (class <c@>) " + times(n/2, func(i int) string { return sp("'s%d 'g%d", 2*i, i) }) + "))) (list " + each(n, "(a@x# o)") + "))"
	})
	ladMax("P18", 129, func(n int) string {
		return "(defclass <c@x0> () ((s0 :initform 0 :accessor a@x0))) " + times(n, func(i int) string {
			return sp("(defclass <c@x%d> (<c@x%d>) ((s%d :initform %d :accessor a@x%d)))", i+1, i, i+1, i+1, i+1)
		}) + sp(" (let ((o (create (class <c@x%d>)))) (list (instancep o (class <c@x0>)) (instancep o (class <c@x%d>)) %s))", n, n/2, each(n+1, "(a@x# o)"))
	})
	ladMax("P18", 129, func(n int) string {
		return "(defgeneric g@ (x)) (defclass <c@x0> () ()) (defmethod g@ ((x <c@x0>)) (list 0)) " + times(n, func(i int) string {
			return sp("(defclass <c@x%d> (<c@x%d>) ()) %s", i+1, i, map[bool]string{true: sp("(defmethod g@ ((x <c@x%d>)) (list %d (next-method-p) (call-next-method)))", i+1, i+1)}[false])
		}) + sp(" (g@ (create (class <c@x%d>)))", n)
	})
	ladMax("P18", 65, func(n int) string {
		// one method for each class of a chain, defined from the top down and called for each
		return "(defgeneric g@ (x)) (defclass <c@x0> () ()) " + times(n, func(i int) string {
			return sp("(defclass <c@x%d> (<c@x%d>) ())", i+1, i)
		}) + times(n+1, func(i int) string { return sp("(defmethod g@ ((x <c@x%d>)) %d)", (i*7)%(n+1), (i*7)%(n+1)) }) +
			" (list " + times(n+1, func(i int) string { return sp("(g@ (create (class <c@x%d>)))", i) }) + ")"
	})
	ladMax("P18", 129, func(n int) string {
		return times(n, func(i int) string { return sp("(defclass <c@x%d> () ((s%d :initform %d :reader r@x%d)))", i, i, i, i) }) +
			"(defclass <d@> (" + each(n, "<c@x#>") + ") ()) (let ((o (create (class <d@>)))) (list " + each(n, "(r@x# o)") + each(n, "(instancep o (class <c@x#>))") + "))"
	})
	ladMax("P18", 129, func(n int) string {
		return "(defgeneric g@ (" + each(n, "v#") + " z)) (defmethod g@ (" + each(n, "(v# <integer>)") + " (z <integer>)) 'int) (defmethod g@ (" + each(n, "(v# <integer>)") + " (z <object>)) 'obj) (list (g@ " + each(n, "#") + " 1) (g@ " + each(n, "#") + " 'a))"
	})
	lad("P18", func(n int) string {
		return sp("(defclass <c@> () ((s :initarg s :accessor a@))) (let ((l nil)) (dotimes (i %d) (setq l (cons (create (class <c@>) 's i) l))) (dolist (o l) (setf (a@ o) (+ 1 (a@ o)))) (mapcar #'a@ l))", n)
	})

	// P21: many parameters.
	for d := -1; d <= 1; d++ {
		lad("P21", func(n int) string {
			return "(defun f@ (" + each(n, "v#") + ") (list " + each(n, "v#") + ")) (f@ " + each(n+d, "#") + ")"
		})
		lad("P21", func(n int) string {
			return "(defun f@ (" + each(n, "v#") + " &rest r) (list " + each(n, "v#") + " r)) (f@ " + each(n+d, "#") + ")"
		})
		lad("P21", func(n int) string {
			return "(apply (lambda (" + each(n, "v#") + ") 'ok) (list " + each(n+d, "#") + "))"
		})
		lad("P21", func(n int) string {
			return "(labels ((f (" + each(n, "v#") + ") 'ok)) (f " + each(n+d, "#") + "))"
		})
	}
	for _, f := range []string{"car", "cons", "length", "nth", "mod", "class-of", "reverse", "gensym", "set-car"} {
		lad("P21", func(n int) string { return "(" + f + " " + each(n+4, "#") + ")" })
	}
	lad("P21", func(n int) string { return "(funcall (lambda (&rest r) r) " + each(n, "#") + ")" })

	// P23: large macros and templates.
	lad("P23", func(n int) string {
		return "(defmacro m@ (" + each(n, "v#") + ") `(list " + each(n, ",v# 'v#") + ")) (m@ " + each(n, "(tr #)") + ")"
	})
	lad("P23", func(n int) string {
		return "(defmacro m@ (&rest r) `(list ,@r (length ',r))) (m@ " + each(n, "(tr #)") + ")"
	})
	lad("P23", func(n int) string { return "(let ((l " + lst(n) + ")) `(a ,@l b ,@l ,l))" })
	lad("P23", func(n int) string { return "(let ((l '(1 2))) `(" + each(n, "# ,@l ,(car l)") + "))" })
	lad("P23", func(n int) string { return "'(" + each(n, "a# (b# . #)") + ")" })
	lad("P23", func(n int) string { return "(let ((x 1)) `" + nest(n, "(# _ ,x)", "(,@(list x x))") + ")" })
	ladMax("P23", 129, func(n int) string {
		return "(defmacro m@x0 (x) `(list ,x)) " + times(n, func(i int) string { return sp("(defmacro m@x%d (x) `(cons %d (m@x%d ,x)))", i+1, i, i) }) + sp(" (m@x%d (tr 'z))", n)
	})
	lad("P23", func(n int) string { return nest(n, "'_", "x") })

	// P24: places in large structures.
	for _, f := range []string{"(let ((s (list E))) (setf (nth K s) 'x) s)", "(let ((s (list E))) (setf (elt s K) 'x) s)", "(let ((s (vector E))) (setf (aref s K) 'x) s)", "(let ((s (list E))) (setf (car (nthcdr K s)) 'x) s)", "(let ((s (list E))) (setf (cdr (nthcdr K s)) 'x) s)",
		"(let ((s (make-hash-table)) (r nil)) (dolist (e (list E)) (setf (gethash e s) e)) (setf (gethash K s) 'x) (dolist (e (list E)) (setq r (cons (gethash e s) r))) r)"} {
		ladAt("P24", func(n, k int) string {
			return strings.NewReplacer("E", nums(n), "K", num(k)).Replace(f)
		})
	}
	lad("P24", func(n int) string {
		return "(let (" + each(n, "(v# #)") + ") (psetq " + each(n, "v# (+ v# 1)") + ") (list " + each(n, "v#") + "))"
	})
	lad("P24", func(n int) string {
		return "(let (" + each(n, "(v# #)") + ") (setq " + each(n, "v# (+ v# 1)") + ") (list " + each(n, "v#") + "))"
	})
	lad("P24", func(n int) string {
		return "(let ((x " + nest(n, "(list _ #)", "'z") + ")) (setf " + nest(n-1, "(car _)", "(car x)") + " 'new) x)"
	})

	// P31: subst in large trees.
	lad("P31", func(n int) string { return "(subst 'x 3 '(" + nums(n) + "))" })
	lad("P31", func(n int) string { return "(let ((l '(" + each(n, "(a . #)") + "))) (list (subst 'b 'a l) l))" })
	lad("P31", func(n int) string { return "(subst 'b 'a '" + nest(n, "(a _ c)", "a") + ")" })

	// Sizes beyond 16 bits.
	for _, p := range [][2]string{
		{"P06", "(let ((k 0)) (dotimes (i N) (setq k (+ k 1))) k)"},
		{"P06", "(for ((i 0 (+ i 1)) (k 0 i)) ((= i N) (list i k)))"},
		{"P06", "(let ((i 0)) (while (< i N) (setq i (+ i 1))) i)"},
		{"P06", "(let ((k 0)) (dolist (x (create-list N 1)) (setq k (+ k x))) k)"},
		{"P15", "(length (create-list N 'a))"},
		{"P15", "(let ((l (create-list N 0))) (set-car 'z (nthcdr (- N 1) l)) (list (length (append l '(1 2))) (length (reverse l)) (car (reverse l)) (nth (- N 1) l) (length (mapcar #'list l)) (length (mapcan #'list l)) (length (member 'z l))))"},
		{"P15", "(let ((l (create-list N 0))) (set-cdr 'z (nthcdr (- N 1) l)) (cdr (nthcdr (- N 1) l)))"},
		{"P16", "(let ((v (create-array '(N) 'a))) (set-aref 'b v (- N 1)) (list (length v) (array-dimensions v) (aref v (- N 1)) (aref v 0) (aref v (- N 2)) (elt v (- N 1)) (length (subseq v 1 N))))"},
		{"P16", "(let ((v (create-array '(N 2) 0))) (set-aref 'b v (- N 1) 1) (set-aref 'c v 0 1) (list (aref v (- N 1) 1) (aref v (- N 1) 0) (aref v 0 1) (aref v 1 0) (aref v (- N 2) 1)))"},
		{"P16", "(let ((v (create-array '(2 N) 0))) (set-aref 'b v 1 (- N 1)) (list (aref v 1 (- N 1)) (aref v 0 (- N 1)) (aref v 1 0) (aref v 1 (- N 2))))"},
		{"P16", "(aref (create-array '(N) 0) N)"},
		{"P28", "(let ((s (create-string N #\\é))) (list (length s) (length (string-append s \"a\")) (char-index #\\a (string-append s \"a\")) (string-index \"a\" (string-append s \"a\")) (elt (string-append s \"a\") N) (subseq (string-append s \"abc\") N (+ N 2)) (string= s (create-string N #\\é)) (string< s (string-append s \"a\"))))"},
		{"P17", "(let ((h (make-hash-table))) (dotimes (i N) (setf (gethash i h) (* i 2))) (list (hash-table-count h) (gethash (- N 1) h) (gethash N h 'none) (remhash 0 h) (hash-table-count h)))"},
		{"P05", "(list (apply #'+ (create-list N 1)) (length (apply #'list (create-list N 1))) (apply (lambda (&rest r) (length r)) (create-list N 1)))"},
		{"P14", "(let ((a (create-list N 1)) (b (create-list N 1))) (list (equal a b) (set-car 2 (nthcdr (- N 1) b)) (equal a b)))"},
		{"P13", "(list (apply #'max (create-list N 1)) (apply #'- N (create-list N 1)) (apply #'= (create-list N 2)))"},
		{"P07", "(defdynamic d@ 0) (dotimes (i N) (dynamic-let ((d@ i)) (set-dynamic 'x d@)) (set-dynamic (+ 1 (dynamic d@)) d@)) (dynamic d@)"},
		{"P03", "(let ((k 0)) (dotimes (i N) (catch 'a (block b (setq k (+ k 1)) (if (= 0 (mod i 2)) (throw 'a 1) (return-from b 1))))) k)"},
		{"P03", "(let ((k 0)) (tagbody a (setq k (+ k 1)) (if (< k N) (go a))) k)"},
		{"P04", "(let ((k 0)) (dotimes (i N) (block b (unwind-protect (return-from b 1) (setq k (+ k 1))))) k)"},
		{"P08", "(let ((k 0)) (dotimes (i N) (block b (with-handler (lambda (c) (setq k (+ k 1)) (return-from b k)) (car i)))) k)"},
		{"P01", "(let ((f nil)) (dotimes (i N) (let ((j i) (g f)) (setq f (lambda () (list j (if g 'more nil)))))) (funcall f))"},
		{"P18", "(defclass <c@> () ((s :initarg s :accessor a@))) (let ((o (create (class <c@>) 's 0))) (dotimes (i N) (setf (a@ o) (+ 1 (a@ o)))) (a@ o))"},
	} {
		ladBig(p[0], func(n int) string { return strings.ReplaceAll(p[1], "N", num(n)) })
	}
	for _, p := range []string{
		"(defun f@ (n acc) (if (= n 0) acc (f@ (- n 1) (+ acc 1)))) (f@ N 0)",
		"(labels ((f (n acc) (cond ((= n 0) (length acc)) (t (f (- n 1) (cons n acc)))))) (f N nil))",
		"(defun f@ (n &rest r) (let ((m (- n 1))) (if (< m 0) (car r) (progn (f@ m (+ 1 (car r))))))) (f@ N 0)",
	} {
		ladders["P02"] = append(ladders["P02"], ladder{src: func(n int) string { return strings.ReplaceAll(p, "N", num(n)) }, want: func(n int) string { return "value " + num(n) }, big: true})
	}

	// P10: long and deep texts.
	read := func(c *C, text string) (string, string) { return readLaw(c.World().w, text) }
	rd := func(f func(n int) string) { ladLaw("P10", read, f) }
	for _, e := range []string{"a", "1", "\"s\"", "#\\x", "(b . c)", "#(1)", "'q", ";c\n", "#|c|#", "nil", "|x y|", "2.5", "#xff"} {
		rd(func(n int) string { return "(" + times(n, func(int) string { return e }) + ") z" })
		ladders["P10"] = append(ladders["P10"], ladder{src: func(n int) string { return times(n, func(int) string { return e }) + " z" }, law: read, max: 300})
	}
	rd(func(n int) string { return "#(" + nums(n) + ") z" })
	rd(func(n int) string { return "(" + nums(n) + " . z) z" })
	rd(func(n int) string { return "#2a((" + nums(n) + ") (" + nums(n) + ")) z" })
	rd(func(n int) string { return "#2a(" + each(n, "(# a)") + ") z" })
	for _, w := range []string{"(_)", "(a _)", "(_ . b)", "'_", "`_", "`(,@_)", "#|_|#", "#(_)", "(a . _)", "(\"(\" _ #\\( |)| ; )\n)"} {
		for _, b := range []string{"x", "(x)"} {
			rd(func(n int) string { return nest(n, w, b) + " z" })
		}
		rd(func(n int) string { return strings.TrimRight(nest(n, w, ""), ")") })
	}
	rep := strings.Repeat
	for _, w := range []string{"_ z", "|_| z", "\"_\" z", ";_\nz", "#|_|# z", "(a _ z)", "(_)z", "a_ z", "\"a\\\"_\\\\\" z"} {
		for _, u := range []string{"a", "é", " ", "あ", "\n", "😀", "1", ".", "\\\"", "+"} {
			if u == "\\\"" && !strings.Contains(w, "\"") || u == "\n" && strings.HasPrefix(w, "|") {
				continue
			}
			rd(func(n int) string { return strings.Replace(w, "_", rep(u, n), 1) })
		}
	}
	for _, d := range []string{"#b", "#o", "#x", "", "-", "#x-", "0", "#b0", "1.", "-0.", "1e", "1.5e-"} {
		for _, u := range []string{"0", "1", "7"} {
			ladders["P10"] = append(ladders["P10"], ladder{src: func(n int) string { return "(" + d + rep(u, n) + " z)" }, law: read, max: map[bool]int{true: 18}[strings.ContainsAny(d, ".e")]})
		}
	}

	// P11: printing large structures.
	pr := func(f func(n int) string) { ladLaw("P11", printLaw, f) }
	for _, e := range []string{"a", "§", "\"s§\"", "#\\x", "(b . §)", "#(§)", "|x § y|", "nil", "§.5", "-1§"} {
		pr(func(n int) string {
			return "(" + times(n, func(i int) string { return strings.ReplaceAll(e, "§", num(i)) }) + ")"
		})
	}
	pr(func(n int) string { return "(" + nums(n+1) + " . z)" })
	pr(func(n int) string { return "#2a((" + nums(n+1) + ") (" + nums(n+1) + "))" })
	pr(func(n int) string { return "#2a(" + each(n+1, "(# a)") + ")" })
	for _, w := range []string{"(_)", "(a _ b)", "(_ . b)", "#(_)", "#(_ a)"} {
		pr(func(n int) string { return nest(n, w, "x") })
	}
	for _, w := range []string{"|x_ |", "\"_\"", "a_", "(\"_\" \"_\")"} {
		for _, u := range []string{"a", "é", "あ", "😀"} {
			pr(func(n int) string { return strings.ReplaceAll(w, "_", rep(u, n)) })
		}
	}

	// P12: long control strings, wide fields and many arguments.
	fm := func(f func(n int) (string, []farg)) {
		src := func(n int) string {
			ctrl, args := f(n)
			s := "(format nil " + lispCtrl(ctrl)
			for _, a := range args {
				s += " " + a.src
			}
			return s + ")"
		}
		ladWant("P12", src, func(n int) string {
			ctrl, args := f(n)
			cl := &col{}
			if st := refFormat(cl, ctrl, args); st != "" {
				panic(harnessBug("format ladder: " + st))
			}
			return "value " + strconv.Quote(cl.b.String())
		})
	}
	fint := func(i int) farg { return farg{src: num(i), a: num(i), s: num(i), isInt: true, n: int64(i)} }
	fstr := func(s string) farg { return farg{src: lispCtrl(s), a: s, s: lispCtrl(s)} }
	many := func(n int, f func(i int) farg) (r []farg) {
		for i := 0; i < n; i++ {
			r = append(r, f(i))
		}
		return r
	}
	for _, d := range []string{"~a", "~d", "~s", "~3d", "~x-", "~a~%", "~&~d", "é~5a", "~4,'0b~~"} {
		fm(func(n int) (string, []farg) { return rep(d, n), many(n, fint) })
		fm(func(n int) (string, []farg) { return rep("<", n) + d + rep(">", n), many(1, fint) })
	}
	for _, d := range []string{"~a", "~s"} {
		for _, u := range []string{"a", "é", "あ", "\\", "\"", "\n"} {
			fm(func(n int) (string, []farg) { return "<" + d + ">", []farg{fstr(rep(u, n))} })
		}
	}
	for _, d := range []string{"~_d", "~_a", "~_x", "~_,'*d", "~_s", "~_%", "~_&", "~_,'éd"} {
		fm(func(n int) (string, []farg) {
			return "<" + strings.ReplaceAll(d, "_", num(n)) + ">", []farg{fint(12345)}
		})
	}
	for _, t := range []string{"~#d%s", "~#,'.d"} {
		fm(func(n int) (string, []farg) {
			if strings.Contains(t, "%s") {
				return sp(t, rep("~a", n)), many(n+1, fint)
			}
			return t, many(n+1, fint)
		})
	}

	// P19: long inputs.
	in := func(s string) string { return "(create-string-input-stream " + lispCtrl(s) + ")" }
	for _, u := range []string{"a", "é", "あ", "😀", "\"", "\\", " "} {
		for _, eol := range []string{"\n", ""} {
			ladWant("P19", func(n int) string {
				return "(let ((s " + in(rep(u, n)+eol+"x") + ")) (list (read-line s nil 'eof) (read-line s nil 'eof) (read-line s nil 'eof)))"
			}, func(n int) string {
				if eol == "" {
					return "value (" + strconv.Quote(rep(u, n)+"x") + " eof eof)"
				}
				return "value (" + strconv.Quote(rep(u, n)) + " \"x\" eof)"
			})
		}
		ladWant("P19", func(n int) string {
			return "(let ((s " + in(rep(u, n)+"x") + ") (k 0) (c (create-string 0))) (while (not (eql (setq c (read-char s)) #\\x)) (if (eql c (elt " + lispCtrl(u) + " 0)) (setq k (+ k 1)) nil)) (list k c (read-char s nil 'eof)))"
		}, func(n int) string { return sp("value (%d %s eof)", n, show(Chr('x'))) })
	}
	ladWant("P19", func(n int) string {
		return "(let ((s " + in(each(n, "#")) + ") (r nil) (x nil)) (while (not (eq (setq x (read s nil 'eof)) 'eof)) (setq r (cons x r))) (reverse r))"
	}, func(n int) string {
		if n == 0 {
			return "value nil"
		}
		return "value (" + each(n, "#") + ")"
	})
	ladWant("P19", func(n int) string {
		return "(let ((s " + in(strings.ReplaceAll(each(n, "l#"), " ", "\n")) + ") (r nil) (x nil)) (while (setq x (read-line s nil nil)) (setq r (cons x r))) (reverse r))"
	}, func(n int) string {
		if n == 0 {
			return "value nil"
		}
		return "value (" + each(n, "\"l#\"") + ")"
	})

	// P20: many writes.
	for _, op := range []string{"(format s \"~a\" i)", "(format-integer s i 10)", "(format-object s i t)", "(format s \"é~a\" i)", "(format-char s #\\a)"} {
		piece := func(i int) string {
			switch {
			case strings.Contains(op, "é"):
				return "é" + num(i)
			case strings.Contains(op, "char"):
				return "a"
			}
			return num(i)
		}
		whole := func(n int) string {
			return "value " + strconv.Quote(strings.ReplaceAll(times(n, piece), " ", ""))
		}
		ladWant("P20", func(n int) string {
			return sp("(let ((s (create-string-output-stream))) (dotimes (i %d) %s) (get-output-stream-string s))", n, op)
		}, whole)
		ladWant("P20", func(n int) string {
			return sp("(progn (with-open-output-file (s \"sz\") (dotimes (i %d) %s)) (with-open-input-file (f \"sz\") (read-line f nil \"\")))", n, op)
		}, whole)
	}

	// P25: conversions of long objects.
	for _, f := range [][2]string{{"(list # )", "<general-vector>"}, {"(vector # )", "<list>"}, {"(list # )", "<list>"}, {"(vector # )", "<general-vector>"}} {
		ladWant("P25", func(n int) string {
			return "(convert " + strings.Replace(f[0], "# ", nums(n), 1) + " " + f[1] + ")"
		}, func(n int) string {
			if f[1] == "<list>" {
				if n == 0 {
					return "value nil"
				}
				return "value (" + nums(n) + ")"
			}
			return sp("value #[%d][%s]", n, nums(n))
		})
	}
	ladWant("P25", func(n int) string { return "(convert \"" + rep("aé", n%600) + "\" <list>)" }, func(n int) string {
		if n%600 == 0 {
			return "value nil"
		}
		return "value (" + times(2*(n%600), func(i int) string { return show(Chr([]rune("aé")[i%2])) }) + ")"
	})
	ladWant("P25", func(n int) string { return "(convert \"" + rep("aé", n%600) + "\" <general-vector>)" }, func(n int) string {
		return sp("value #[%d][%s]", 2*(n%600), times(2*(n%600), func(i int) string { return show(Chr([]rune("aé")[i%2])) }))
	})
	ladWant("P25", func(n int) string { return "(eq (convert \"a" + rep("b", n) + "\" <symbol>) 'a" + rep("b", n) + ")" }, func(n int) string { return "value t" })
	ladWant("P25", func(n int) string { return "(convert '|a" + rep("é", n) + "| <string>)" }, func(n int) string { return "value \"a" + rep("é", n) + "\"" })

	// P28: long strings.
	for _, u := range []string{"a", "é", "語", "😀"} {
		q := func(n, k int, o string) string { // n characters with o at k
			if k < 0 {
				return "\"" + rep(u, n) + "\""
			}
			return "\"" + rep(u, k) + o + rep(u, n-k-1) + "\""
		}
		lad("P28", func(n int) string {
			return sp("(list (length %s) (string= %s %s) (string< %s %s) (string/= %s %s) (string>= %s %s))", q(n, -1, ""), q(n, -1, ""), q(n, -1, ""), q(n, -1, ""), q(n+1, -1, ""), q(n, -1, ""), q(n, -1, ""), q(n, -1, ""), q(n+1, -1, ""))
		})
		for _, o := range []string{"!", "z", "ü", "龍", "😁"} {
			ladAt("P28", func(n, k int) string {
				a, b := q(n, -1, ""), q(n, k, o)
				return sp("(list (string= %s %s) (string< %s %s) (string<= %s %s) (string> %s %s) (string/= %s %s))", a, b, a, b, b, a, a, b, b, a)
			})
			ladAt("P28", func(n, k int) string {
				b := q(n, k, o)
				return sp("(list (char-index #\\%s %s) (string-index %s %s) (elt %s %d) (subseq %s %d %d) (subseq %s 0 %d) (char-index #\\%s %s %d) (length %s))", o, b, lispCtrl(o), b, b, k, b, k, n, b, k, o, b, k, b)
			})
		}
		lad("P28", func(n int) string {
			return "(string-append " + times(n, func(i int) string { return lispCtrl(u + num(i)) }) + ")"
		})
		ladMax("P28", 513, func(n int) string { return sp("(create-string %d #\\%s)", n, u) })
		lad("P28", func(n int) string {
			return sp("(list (elt %s %d) (string-index %s %s) (string-index %s %s))", q(n, -1, ""), n, q(n, -1, ""), q(n+1, -1, ""), q(n+1, -1, ""), q(n, -1, ""))
		})
	}
}
