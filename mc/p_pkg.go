package main

// P31: the functions of the add-on packages.

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	_ "github.com/hymkor/gmnlisp/pkg/subst"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
)

const substRules = `
P: 0 (let ((l $L)) (list (subst $N $O l) l))
P: 1 (let ((l $L)) (list (subst $N (car l) l) l))
P: 1 (let ((l $L)) (list (subst $N (cdr l) l) l))
P: 1 (let* ((l $L) (n $L)) (list (eq n (subst n l l)) (subst n $O l) l n))
P: 1 (let* ((l $L) (m (subst $N $O l))) (set-car 9 m) l)
P: 0 (list (subst (tr 1) (tr 2) (tr '$Q)) (subst 1 2))
P: 0 (subst 1 2 '(2) 4)
N: 0 nil
N: 0 9
N: 0 '(1 x)
N: 0 "s"
O: 0 1
O: 0 'x
O: 0 nil
O: 0 1.0
O: 0 #\a
O: 0 "t"
L: 0 '$Q
L: 0 (list 1 2 1)
L: 1 (cons $L $L)
Q: 0 1
Q: 0 x
Q: 0 nil
Q: 0 #\a
Q: 0 1.0
Q: 1 ($Q)
Q: 1 ($Q $Q)
Q: 1 ($Q . $Q)
Q: 1 ($Q $Q . $Q)
Q: 1 (($Q) $Q)
Q: 1 #($Q $Q)
`

// regexpRules are patterns of Go's syntax.
const regexpRules = `
R: 0 a
R: 0 b
R: 0 .
R: 0 あ
R: 0 ^
R: 0 %
R: 0 [^b]
R: 0 \b
R: 0 (?i)A
R: 0 (
R: 0 [
R: 1 ($R)
R: 1 $R*
R: 1 $R?
R: 1 $R+
R: 1 $R$R
R: 1 $R|$R
R: 1 $R{2}
`

// lispString is s as a literal.
func lispString(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func regexpWant(pat, s string, index bool) (string, bool) {
	re, err := regexp.Compile(pat)
	if err != nil {
		return "error", false
	}
	var all []string
	if index {
		for _, m := range re.FindAllStringSubmatchIndex(s, -1) {
			all = append(all, strings.ReplaceAll(strings.Trim(fmt.Sprint(m), "[]"), " ", " "))
		}
	} else {
		for _, m := range re.FindAllStringSubmatch(s, -1) {
			var q []string
			for _, x := range m {
				q = append(q, lispString(x))
			}
			all = append(all, strings.Join(q, " "))
		}
	}
	if len(all) == 0 {
		return "nil", true
	}
	return "((" + strings.Join(all, ") (") + "))", true
}

// regexpCase evaluates several calls in one program.
func (c *C) regexpCase(calls [][3]string) {
	if !c.Take() {
		return
	}
	src := "(list"
	want := ""
	ok := true
	for _, k := range calls {
		src += fmt.Sprintf(" (%s %s %s)", k[2], lispString(k[0]), lispString(k[1]))
		w, good := regexpWant(k[0], k[1], k[2] == "=~i")
		want += " " + w
		ok = ok && good
	}
	src += ")"
	if !ok {
		want = "error"
	} else {
		want = "value (" + want[1:] + ")"
	}
	c.Case("regular expressions", src, func() (string, string) {
		o := c.implRunIn(c.World(), src, newStepCtx(100_000))
		if o.kind == "error" {
			return want, "error"
		}
		return want, o.describe()
	})
}

func allStrings(letters []string, n int) []string {
	all := []string{""}
	prev := all
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range prev {
			for _, l := range letters {
				next = append(next, p+l)
			}
		}
		all = append(all, next...)
		prev = next
	}
	return all
}

// globMatch is whether a name without separators matches a pattern.
func globMatch(pat, name string) bool {
	p, n := []rune(pat), []rune(name)
	if len(p) == 0 {
		return len(n) == 0
	}
	switch p[0] {
	case '*':
		return globMatch(string(p[1:]), name) || len(n) > 0 && globMatch(pat, string(n[1:]))
	case '?':
		return len(n) > 0 && globMatch(string(p[1:]), string(n[1:]))
	case '[':
		e := strings.IndexRune(string(p), ']')
		set := string(p)[1:e]
		return len(n) > 0 && strings.ContainsRune(set, n[0]) && globMatch(string(p)[e+1:], string(n[1:]))
	}
	return len(n) > 0 && n[0] == p[0] && globMatch(string(p[1:]), string(n[1:]))
}

func (c *C) wildcards() {
	names := []string{"a", "ab", "b.a", "あ", "sub/a", "sub/c"}
	toks := []string{"a", "b", "*", "?", "[ab]", "あ", "."}
	var pats []string
	for n := 1; n <= c.Pick(3, 4); n++ {
		forIndexPow(len(toks), n, func(ix []int) {
			p := ""
			for _, i := range ix {
				p += toks[i]
			}
			if p != "." && p != ".." { // the directories of those names
				pats = append(pats, p)
			}
		})
	}
	for set := 0; set < 1<<len(names); set++ {
		for _, pat := range pats {
			for _, dir := range []string{"", "sub/"} {
				if set&8 != 0 && strings.Contains(pat, "*") && strings.Contains(pat, "?") {
					continue // filepath.Glob counts bytes after a star
				}
				if !c.Thorough() && dir != "" && len(pat) > 2 || !c.Take() {
					continue
				}
				var files []string
				for i, n := range names {
					if set>>i&1 != 0 {
						files = append(files, n)
					}
				}
				set, pat := set, dir+pat
				c.Case("wildcard", fmt.Sprintf("%q with files %q", pat, files), func() (string, string) {
					// the files of the previous case are kept when they are the same
					if c.wildSet != set+1 {
						os.RemoveAll("w")
						if os.MkdirAll("w/sub", 0o755) != nil {
							panic(harnessBug("cannot make a directory"))
						}
						for _, f := range files {
							os.WriteFile("w/"+f, nil, 0o644)
						}
						c.wildSet = set + 1
					}
					var want []string
					for _, f := range append([]string{"sub"}, files...) {
						d, base := "", f
						if i := strings.IndexByte(f, '/'); i >= 0 {
							d, base = f[:i+1], f[i+1:]
						}
						if d == dir && globMatch(pat[len(dir):], base) {
							want = append(want, "w/"+f)
						}
					}
					sort.Strings(want)
					list := "nil"
					if len(want) > 0 {
						list = `("` + strings.Join(want, `" "`) + `")`
					}
					o := c.implRunIn(c.World(), `(wildcard "w/`+pat+`")`, newStepCtx(100_000))
					return "value " + list, o.describe()
				})
			}
		}
	}
	for _, pat := range []string{"[", "a[", "[]", "["} {
		if c.Take() {
			pat := pat
			c.Case("wildcard", fmt.Sprintf("%q", pat), func() (string, string) {
				os.WriteFile("a", nil, 0o644)
				return "error", c.implRunIn(c.World(), `(wildcard "`+pat+`")`, newStepCtx(1000)).kind
			})
		}
	}
}

// addOnArgs gives the functions arguments of the wrong kind and number.
func (c *C) addOnArgs() {
	vals := []string{"1", "nil", "'a", "#\\a", "1.0", "'(1)", "#(1)", "(lambda (x) x)", `"a"`}
	for _, f := range []string{"=~", "=~i", "wildcard"} {
		arity := 2
		if f == "wildcard" {
			arity = 1
		}
		for n := 0; n <= 3; n++ {
			forIndexPow(len(vals), n, func(ix []int) {
				if !c.Take() {
					return
				}
				src := "(" + f
				good := 0
				for _, i := range ix {
					src += " " + vals[i]
					if i == len(vals)-1 {
						good++
					}
				}
				src += ")"
				want := "value"
				if n != arity {
					want = "<program-error>"
				} else if good != n {
					want = "<domain-error>"
				}
				c.Case("arguments", src, func() (string, string) {
					o := c.implRunIn(c.World(), src, newStepCtx(1000))
					if o.kind == "error" {
						return want, o.class
					}
					return want, o.kind
				})
			})
		}
	}
}

// commands runs programs with command, through the command line.
func (c *C) commands() {
	self := os.Getenv("MC_CLI")
	progs := []struct {
		src, out, errout string
		fails            bool
	}{
		{`(format t "x~%")`, "x\n", "", false},
		{`(progn (format t "y") (format (error-output) "z"))`, "y", "z", false},
		{`(exit)`, "", "", false},
		{`(format t "~s" (read-line))`, "\"in\"", "", false},
		{`(format t "~s" *posix-argv*)`, "(\"あ b\" \"\")", "", false},
		{`(progn (format t "w") (car 1))`, "w", "", true},
	}
	for _, p := range progs {
		for _, q := range progs {
			for form := 0; form < 3; form++ {
				if !c.Take() {
					continue
				}
				call := func(s string) string {
					return fmt.Sprintf(`(command %s "-e" %s "あ b" "")`, lispString(self), lispString(s))
				}
				out, end := "", false
				errPrefix := ""
				src := ""
				switch form {
				case 0:
					src = fmt.Sprintf("(progn (format t \"1\") %s (format t \"2\"))", call(p.src))
					out = "1" + p.out
					errPrefix = p.errout
					if end = p.fails; !end {
						out += "2"
					}
				case 1:
					src = fmt.Sprintf("(progn (ignore-errors %s) %s (format t \"2\"))", call(p.src), call(q.src))
					if strings.Contains(p.src, "read-line") {
						continue
					}
					out = p.out + q.out
					errPrefix = p.errout + q.errout
					if end = q.fails; !end {
						out += "2"
					}
					if p.fails {
						errPrefix = "?"
					}
				case 2:
					src = fmt.Sprintf("(format t \"~s\" (unwind-protect %s (format t \"c\")))", call(p.src))
					out = p.out + "c"
					errPrefix = p.errout
					if end = p.fails; !end {
						out += "nil"
					}
				}
				c.Case("command", strings.ReplaceAll(src, self, "gmnlisp"), func() (string, string) {
					o, e, code := runCLI([]string{"-e", src}, "in\n")
					want := fmt.Sprintf("%q %v", out, end)
					got := fmt.Sprintf("%q %v", o, code != 0)
					if !end && errPrefix != "?" {
						want += fmt.Sprintf(" %q", errPrefix)
						got += fmt.Sprintf(" %q", e)
					} else if errPrefix != "?" && !strings.HasPrefix(e, errPrefix) {
						got += fmt.Sprintf(" %q", e)
					}
					return want, got
				})
			}
		}
	}
	for _, src := range []string{`(command)`, `(command "./missing")`, `(command 1)`, `(command nil)`, `(command "")`} {
		if c.Take() {
			src := src
			c.Case("command", src, func() (string, string) {
				o, _, code := runCLI([]string{"-e", fmt.Sprintf("(progn (ignore-errors %s) (format t \"on\"))", src)}, "")
				return "on 0", fmt.Sprint(o, " ", code)
			})
		}
	}
}

func (c *C) runPkg() {
	c.worldMax = 2000
	runSecs(c, gsec{name: "subst", q: 2, t: 3, rules: substRules})
	c.Section("regular expressions")
	subjects := allStrings([]string{"a", "b", "あ"}, c.Pick(3, 4))
	var pats []string
	NewGram(regexpRules).Upto("R", c.Pick(2, 3), func(p string) bool { pats = append(pats, strings.ReplaceAll(p, "%", "$")); return true })
	for _, p := range pats {
		for _, s := range subjects {
			c.regexpCase([][3]string{{p, s, "=~"}, {p, s, "=~i"}})
		}
	}
	c.Section("several expressions")
	some := pats
	if len(some) > 60 && !c.Thorough() {
		some = some[:60]
	}
	for _, p := range some {
		for _, q := range some {
			c.regexpCase([][3]string{{p, "ab", "=~"}, {q, "ba", "=~i"}, {p, "ab", "=~i"}, {q, "あa", "=~"}})
		}
	}
	c.Section("wildcard")
	c.wildcards()
	c.Section("arguments")
	c.addOnArgs()
	c.Section("command")
	c.commands()
}

func init() {
	register(&Prop{ID: "P31", Rule: "subst: every tree, old and new item up to the size bound; =~ and =~i: every pattern of the grammar x every short string, and pairs of patterns in one program; wildcard: every set of 6 files x every pattern of up to 3 (thorough 4) tokens; command: programs run by programs; every wrong argument",
		Assumptions: []string{"Go's regexp package is the reference of =~, as documented"},
		Run:         func(c *C) { c.runPkg() }, Replay: replayRerun})
}
