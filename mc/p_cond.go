package main

// P08, second part: which conditions the operations signal, as told apart by
// class-of, instancep, subclassp, method dispatch and a filtering handler.

import "strings"

// An expression and the class of the error it signals; "" where only the
// relations between the classes are judged.
var condSources = [][2]string{
	{`(error "e")`, "<simple-error>"},
	{`(cerror "a" "b")`, "<simple-error>"},
	{`(car 5)`, "<domain-error>"},
	{`(cdr "s")`, "<domain-error>"},
	{`(set-car 1 nil)`, "<domain-error>"},
	{`(length 5)`, "<domain-error>"},
	{`(+ 1 'a)`, "<domain-error>"},
	{`(assure <integer> "s")`, "<domain-error>"},
	{`(the <integer> "s")`, "<domain-error>"},
	{`(create (class <domain-error>))`, ""},
	{`(elt '(1) 5)`, ""},
	{`(elt "abc" 3)`, ""},
	{`(aref (vector 1) 1)`, ""},
	{`(subseq "abc" 2 1)`, ""},
	{`(create-array '(-1))`, ""},
	{`nov@`, "<unbound-variable>"},
	{`(list nov@)`, "<unbound-variable>"},
	{`(setq nov@ 1)`, "<unbound-variable>"},
	{`(dynamic nod@)`, "<unbound-variable>"},
	{`(nof@)`, "<undefined-function>"},
	{`(nof@ 1 2)`, "<undefined-function>"},
	{`#'nof@`, "<undefined-function>"},
	{`(funcall 'nof@)`, ""},
	{`(/ 1 0)`, "<division-by-zero>"},
	{`(mod 1 0)`, "<division-by-zero>"},
	{`(rem 1 0)`, "<division-by-zero>"},
	{`(sqrt -1)`, "<domain-error>"},
	{`(return-from nob@ 1)`, "<control-error>"},
	{`(throw 'not@ 1)`, "<control-error>"},
	{`(go not@)`, "<control-error>"},
	{`(parse-number "x1")`, "<parse-error>"},
	{`(convert "x" <integer>)`, "<parse-error>"},
	{`(convert "1x" <float>)`, "<parse-error>"},
	{`(convert 1 <list>)`, ""},
	{`(read-char (create-string-input-stream ""))`, "<end-of-stream>"},
	{`(preview-char (create-string-input-stream ""))`, ""},
	{`(read-line (create-string-input-stream ""))`, "<end-of-stream>"},
	{`(read (create-string-input-stream ""))`, "<end-of-stream>"},
	{`(read (create-string-input-stream " ; c"))`, "<end-of-stream>"},
	{`(read (create-string-input-stream "(1"))`, ""},
	{`(read (create-string-input-stream ")"))`, ""},
	{`(read-char 5)`, ""},
	{`(open-input-file "no-such-file")`, ""},
	{`(car)`, "<program-error>"},
	{`(car 1 2)`, "<program-error>"},
	{`(cons 1)`, "<program-error>"},
	{`((lambda (x) x))`, "<program-error>"},
	{`((lambda (x) x) 1 2)`, "<program-error>"},
	{`(funcall (lambda () 1) 2)`, "<program-error>"},
	{`(progn (defgeneric gn@ (x)) (gn@ 1))`, "<undefined-function>"},
	{`(progn (defclass uc@ (<error>) ()) (signal-condition (create (class uc@)) nil))`, "uc@"},
	{`(progn (defclass ud@ (<stream-error> <simple-error>) ()) (signal-condition (create (class ud@)) nil))`, "ud@"},
	{`(defclass x@ (nosuperclass@) ())`, ""},
	{`(funcall 5)`, "<domain-error>"},
	{`(apply #'car 5)`, "<domain-error>"},
	{`(hash-table-count 1)`, "<domain-error>"},
	{`(format t "~q")`, ""},
	{`(gethash)`, "<program-error>"},
	{`(with-handler (lambda (d) (continue-condition d 1)) (error "e"))`, "<control-error>"},
	{`(with-handler (lambda (d) (continue-condition d 1)) (list (signal-condition (create (class <simple-error>)) nil)))`, "<control-error>"},
	{`(with-handler (lambda (d) (flet ((f () (continue-condition d))) (f))) (unwind-protect (error "e") nil))`, "<control-error>"},
	{`(with-handler (lambda (d) (with-handler (lambda (e) (continue-condition d 1)) (cerror "c" "f"))) (error "e"))`, "<control-error>"},
	{`(continue-condition (create (class <simple-error>)) 1)`, "<control-error>"},
	{`(let ((k nil)) (catch 'j (with-handler (lambda (d) (setq k d) (throw 'j 1)) (cerror "c" "e"))) (continue-condition k 1))`, "<control-error>"},
	{`(let ((k nil)) (with-handler (lambda (d) (setq k d) (continue-condition d 1)) (cerror "c" "e")) (continue-condition k 1))`, "<control-error>"},
}

var condLattice = map[string]string{
	"<program-error>": "<error>", "<control-error>": "<error>", "<parse-error>": "<error>", "<storage-exhausted>": "<error>",
	"<stream-error>": "<error>", "<arithmetic-error>": "<error>", "<simple-error>": "<error>", "<domain-error>": "<program-error> <error>",
	"<end-of-stream>": "<stream-error> <error>", "<division-by-zero>": "<arithmetic-error> <error>", "<undefined-entity>": "<program-error> <error>",
	"<unbound-variable>": "<undefined-entity> <program-error> <error>", "<undefined-function>": "<undefined-entity> <program-error> <error>",
	"<error>": "", "uc@": "<error>", "ud@": "<stream-error> <simple-error> <error>",
}

var condClassNames = strings.Fields(`<error> <program-error> <control-error> <parse-error> <storage-exhausted> <stream-error> <end-of-stream>
	<arithmetic-error> <division-by-zero> <simple-error> <undefined-entity> <unbound-variable> <undefined-function> <domain-error>`)

var condWays = []struct{ form, yes, no string }{
	{`(catch 'c@ (with-handler (lambda (c) (throw 'c@ (if (instancep c (class $C)) 'yes 'no))) $E))`, "yes", "no"},
	{`(catch 'c@ (with-handler (lambda (c) (throw 'c@ (if (or (eq (class-of c) (class $C)) (subclassp (class-of c) (class $C))) 'yes 'no))) $E))`, "yes", "no"},
	{`(catch 'c@ (with-handler (lambda (c) (throw 'c@ 'no)) (with-handler (lambda (c) (if (instancep c (class $C)) (throw 'c@ 'yes) (signal-condition c t))) $E)))`, "yes", "no"},
	{`(progn (defgeneric g@ (c)) (defmethod g@ ((c $C)) 'yes) (defmethod g@ ((c <object>)) 'no) (catch 'c@ (with-handler (lambda (c) (throw 'c@ (g@ c))) $E)))`, "yes", "no"},
	{`(catch 'c@ (with-handler (lambda (c) (throw 'c@ (catch 'd@ (with-handler (lambda (d) (throw 'd@ 'no)) (progn (assure $C c) 'yes))))) $E))`, "yes", "no"},
	{`(catch 'c@ (with-handler (lambda (c) (throw 'c@ (block b (list 1 (if (instancep c $C) (return-from b 'yes)) 2) 'no))) (unwind-protect $E nil)))`, "yes", "no"},
}

func (c *C) condCase(expr, class string, way int, ask string) {
	w := condWays[way]
	src := strings.ReplaceAll(strings.ReplaceAll(w.form, "$C", ask), "$E", expr)
	c.Case("classes", src, func() (want, got string) {
		o := c.implRun(src)
		kind := class
		if kind == "" {
			o := c.implRun(strings.ReplaceAll(`(catch 'c@ (with-handler (lambda (c) (throw 'c@ (class-of c))) $E))`, "$E", expr))
			kind = strings.TrimSuffix(strings.TrimPrefix(o.val, "#<class "), ">")
			if _, ok := condLattice[kind]; !ok {
				return "a condition of a standard error class", "a condition of " + kind
			}
		}
		want = w.no
		if kind == ask || strings.Contains(" "+condLattice[kind]+" ", " "+ask+" ") {
			want = w.yes
		}
		if o.kind != "value" {
			return "value " + want, o.kind + " " + o.class
		}
		return "value " + want, "value " + o.val
	})
}

func registerConditions(secs []gsec) {
	register(&Prop{ID: "P08", Rule: "every nesting of handlers, signals, continuations and exits of the grammars up to the stated size; every listed error source asked in every listed way about every error class",
		Assumptions: modelAssumptions, Secs: secs,
		Run: func(c *C) {
			runSecs(c, secs...)
			c.Section("error sources")
			c.worldMax = 300
			for _, s := range condSources {
				for i := range condWays {
					for _, k := range condClassNames {
						if c.Stop() {
							return
						}
						if c.Take() {
							c.condCase(s[0], s[1], i, k)
						}
					}
				}
			}
		},
		Replay: func(c *C, in string) {
			for _, s := range condSources {
				for i := range condWays {
					for _, k := range condClassNames {
						if strings.ReplaceAll(strings.ReplaceAll(condWays[i].form, "$C", k), "$E", s[0]) == in {
							c.condCase(s[0], s[1], i, k)
							return
						}
					}
				}
			}
			c.Diff(in)
		}})
}
