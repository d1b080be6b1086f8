package main

// P30: what the command does with the scripts it is given.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// cliState is a run of the command in the model.
type cliState struct {
	out, err strings.Builder
	in       string
	argv     []string
	g        string
	f, m     bool
	libs     map[string][]*cliForm
}

type cliEnd int

const (
	cliOn cliEnd = iota
	cliExit
	cliErr
)

type cliForm struct {
	src string
	run func(s *cliState) cliEnd
}

func cliPrint(src, text string) *cliForm {
	return &cliForm{src, func(s *cliState) cliEnd { s.out.WriteString(text); return cliOn }}
}

func (s *cliState) newline() {
	if o := s.out.String(); o != "" && !strings.HasSuffix(o, "\n") {
		s.out.WriteString("\n")
	}
}

func (s *cliState) line() (string, bool) {
	if s.in == "" {
		return "", false
	}
	l, rest, _ := strings.Cut(s.in, "\n")
	s.in = rest
	return l, true
}

var cliAtoms = []*cliForm{
	cliPrint(`(format t "a~%")`, "a\n"),
	cliPrint(`(format (standard-output) "あ")`, "あ"),
	{`(format (error-output) "e~%")`, func(s *cliState) cliEnd { s.err.WriteString("e\n"); return cliOn }},
	{`(format t "~&n")`, func(s *cliState) cliEnd { s.newline(); s.out.WriteString("n"); return cliOn }},
	{`(exit)`, func(s *cliState) cliEnd { return cliExit }},
	{`(car 1)`, func(s *cliState) cliEnd { return cliErr }},
	{`(error "e%d~%" 1)`, func(s *cliState) cliEnd { return cliErr }},
	{`(defun f () (format t "f~%"))`, func(s *cliState) cliEnd { s.f = true; return cliOn }},
	{`(f)`, func(s *cliState) cliEnd {
		if !s.f {
			return cliErr
		}
		s.out.WriteString("f\n")
		return cliOn
	}},
	{`(defmacro m (x) (list 'progn (list 'format t "m~%") x))`, func(s *cliState) cliEnd { s.m = true; return cliOn }},
	{`(m (m 1))`, func(s *cliState) cliEnd {
		if !s.m {
			return cliErr
		}
		s.out.WriteString("m\nm\n")
		return cliOn
	}},
	{`(defglobal g 1)`, func(s *cliState) cliEnd { s.g = "1"; return cliOn }},
	{`(progn (format t "~a," g) (setq g "s"))`, func(s *cliState) cliEnd {
		if s.g == "" {
			return cliErr
		}
		s.out.WriteString(s.g + ",")
		s.g = "s"
		return cliOn
	}},
	{`(format t "~s~%" *posix-argv*)`, func(s *cliState) cliEnd {
		if len(s.argv) == 0 {
			s.out.WriteString("nil\n")
		} else {
			s.out.WriteString(fmt.Sprintf("(\"%s\")\n", strings.Join(s.argv, `" "`)))
		}
		return cliOn
	}},
	{`(format t "<~a>" (read-line (standard-input) nil 'eof))`, func(s *cliState) cliEnd {
		l, ok := s.line()
		if !ok {
			l = "eof"
		}
		s.out.WriteString("<" + l + ">")
		return cliOn
	}},
	{`(format t "~a." (read-line))`, func(s *cliState) cliEnd {
		l, ok := s.line()
		if !ok {
			return cliErr
		}
		s.out.WriteString(l + ".")
		return cliOn
	}},
	{`'sym`, func(s *cliState) cliEnd { return cliOn }},
	{"; comment (exit)\n", func(s *cliState) cliEnd { return cliOn }},
	{"#| (exit)\n(exit) |#", func(s *cliState) cliEnd { return cliOn }},
}

// cliWraps are forms around a form.
var cliWraps = []struct {
	src string
	run func(f *cliForm) func(s *cliState) cliEnd
}{
	{"%s", func(f *cliForm) func(s *cliState) cliEnd { return f.run }},
	{"(progn %s (format t \"p\"))", func(f *cliForm) func(s *cliState) cliEnd {
		return func(s *cliState) cliEnd {
			if e := f.run(s); e != cliOn {
				return e
			}
			s.out.WriteString("p")
			return cliOn
		}
	}},
	{"(unwind-protect %s (format t \"c~%%\"))", func(f *cliForm) func(s *cliState) cliEnd {
		return func(s *cliState) cliEnd {
			e := f.run(s)
			s.out.WriteString("c\n")
			return e
		}
	}},
	{"(ignore-errors %s)", func(f *cliForm) func(s *cliState) cliEnd {
		return func(s *cliState) cliEnd {
			if e := f.run(s); e == cliExit {
				return e
			}
			return cliOn
		}
	}},
	{"(catch 'k (with-handler (lambda (c) (throw 'k 1)) %s) (format t \"k\"))", func(f *cliForm) func(s *cliState) cliEnd {
		return func(s *cliState) cliEnd {
			e := f.run(s)
			if e == cliErr {
				return cliOn
			}
			if e == cliOn {
				s.out.WriteString("k")
			}
			return e
		}
	}},
	{"(for ((i 0 (+ i 1))) ((= i 2)) %s)", func(f *cliForm) func(s *cliState) cliEnd {
		return func(s *cliState) cliEnd {
			for i := 0; i < 2; i++ {
				if e := f.run(s); e != cliOn {
					return e
				}
			}
			return cliOn
		}
	}},
}

func cliWrap(w int, f *cliForm) *cliForm {
	if w == 0 {
		return f
	}
	return &cliForm{fmt.Sprintf(cliWraps[w].src, f.src), cliWraps[w].run(f)}
}

func cliRunAll(s *cliState, fs []*cliForm) cliEnd {
	for _, f := range fs {
		if e := f.run(s); e != cliOn {
			return e
		}
	}
	return cliOn
}

// cliLoad loads a file of forms.
func cliLoad(name string, fs []*cliForm) *cliForm {
	return &cliForm{`(load "` + name + `")`, func(s *cliState) cliEnd {
		s.libs[name] = fs
		return cliRunAll(s, fs)
	}}
}

var cliMissing = &cliForm{`(load "missing.lsp")`, func(s *cliState) cliEnd { return cliErr }}

// The ways to start a script.
var cliModes = []string{"-e", "file", "#!", "@", "no last line end", "CR LF", "#! CR LF", "loaded", "# comment first", "empty line first"}

func cliText(fs []*cliForm, sep string) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(f.src + sep)
	}
	return b.String()
}

// cli runs one script.
func (c *C) cli(forms []*cliForm, mode int, argv []string, stdin string) {
	if !c.Take() {
		return
	}
	files := map[string]string{}
	args := []string{"s.lsp"}
	text := cliText(forms, "\n")
	switch cliModes[mode] {
	case "-e":
		if text == "" {
			return
		}
		args = []string{"-e", text}
	case "file":
		files["s.lsp"] = text
	case "#!":
		files["s.lsp"] = "#!/usr/bin/env gmnlisp (exit\n" + text
	case "@":
		files["s.lsp"] = "@gmnlisp \"%~f0\" %* & exit /b (((\n" + text
	case "no last line end":
		if n := len(forms); n == 0 || strings.HasPrefix(forms[n-1].src, ";") {
			return
		}
		files["s.lsp"] = strings.TrimSuffix(text, "\n")
	case "CR LF":
		files["s.lsp"] = strings.ReplaceAll(text, "\n", "\r\n")
	case "#! CR LF":
		files["s.lsp"] = "#!gmnlisp (\r\n" + strings.ReplaceAll(text, "\n", "\r\n")
	case "loaded":
		files["s.lsp"] = `(load "body.lsp")`
		files["body.lsp"] = text
	case "# comment first":
		files["s.lsp"] = "#| (exit)\n (car 1) |# " + text
	case "empty line first":
		files["s.lsp"] = "\n\n" + text
	}
	c.cliCase(forms, cliModes[mode], args, files, argv, stdin)
}

func (c *C) cliCase(forms []*cliForm, mode string, args []string, files map[string]string, argv []string, stdin string) {
	st := &cliState{in: stdin, argv: argv, libs: map[string][]*cliForm{}}
	end := cliRunAll(st, forms)
	for n, fs := range st.libs {
		files[n] = cliText(fs, "\n")
	}
	c.Case("scripts", fmt.Sprintf("%s %q args %q stdin %q", mode, cliText(forms, " "), argv, stdin), func() (string, string) {
		for n, t := range files {
			if os.WriteFile(n, []byte(t), 0o644) != nil {
				panic("cannot write a script")
			}
		}
		out, errout, code := runCLI(append(append([]string{}, args...), argv...), stdin)
		for n := range files {
			os.Remove(n)
		}
		want := fmt.Sprintf("status 0 output %q error output %q", st.out.String(), st.err.String())
		got := fmt.Sprintf("status %d output %q", code, out)
		if end == cliErr {
			want = fmt.Sprintf("status 1 output %q error output %q and a message", st.out.String(), st.err.String())
			if rest := strings.TrimPrefix(errout, st.err.String()); len(errout)-len(rest) == st.err.Len() && strings.TrimSpace(rest) != "" {
				errout = st.err.String()
				return want, got + fmt.Sprintf(" error output %q and a message", errout)
			}
		}
		return want, got + fmt.Sprintf(" error output %q", errout)
	})
}

// runCLI runs the command in the current directory, a scratch one.
func runCLI(args []string, stdin string) (string, string, int) {
	cmd := exec.Command(os.Getenv("MC_CLI"), args...)
	var out, errout bytes.Buffer
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Stdout, cmd.Stderr = &out, &errout
	cmd.Env = []string{"HOME=" + os.Getenv("PWD"), "PATH="}
	if err := cmd.Start(); err != nil {
		panic(harnessBug("cannot run the command: " + err.Error()))
	}
	done := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	defer done.Stop()
	err := cmd.Wait()
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		code = 1000
	}
	return out.String(), errout.String(), code
}

func (c *C) runCLI() {
	var flat, wrapped []*cliForm
	for w := range cliWraps {
		for i, f := range cliAtoms {
			if w > 0 && i >= len(cliAtoms)-2 {
				continue
			}
			wrapped = append(wrapped, cliWrap(w, f))
			if w == 0 {
				flat = append(flat, f)
			}
		}
	}
	argvs := [][]string{{}, {"x"}, {"x", "-e", "あ y"}, {"-v", ""}}
	stdins := []string{"", "one\ntwo\n", "last"}

	c.Section("one form")
	for mode := range cliModes {
		c.cli(nil, mode, argvs[1], "")
		for _, f := range wrapped {
			for ai, a := range argvs {
				for si, in := range stdins {
					if ai > 0 && !strings.Contains(f.src, "argv") || si > 0 && !strings.Contains(f.src, "read-line") {
						continue
					}
					if cliModes[mode] == "-e" && len(a) > 0 && strings.HasPrefix(a[0], "-") {
						continue // an option of the command
					}
					c.cli([]*cliForm{f}, mode, a, in)
				}
			}
		}
	}
	c.Section("two forms")
	second := flat
	if c.Thorough() {
		second = wrapped
	}
	for mode := range cliModes {
		if !c.Thorough() && mode != 0 && mode != 1 && mode != 2 && mode != 7 {
			continue
		}
		for _, a := range wrapped {
			for _, b := range second {
				c.cli([]*cliForm{a, b}, mode, nil, "one\ntwo\n")
			}
		}
	}
	c.Section("three forms")
	modes := []int{1}
	if c.Thorough() {
		modes = []int{0, 1, 2, 7}
	}
	for _, mode := range modes {
		for _, a := range flat {
			for _, b := range flat {
				for _, d := range flat {
					c.cli([]*cliForm{a, b, d}, mode, nil, "one\ntwo\n")
				}
			}
		}
	}
	c.Section("loaded files")
	for _, mode := range []int{1, 7} {
		if mode == 7 && !c.Thorough() {
			continue
		}
		for w := range cliWraps {
			for _, a := range flat {
				for _, b := range flat {
					// definitions before, inside and after the loaded file
					lib := cliWrap(w, cliLoad("lib.lsp", []*cliForm{a, b}))
					c.cli([]*cliForm{lib}, mode, nil, "one\ntwo\n")
					one := cliWrap(w, cliLoad("lib.lsp", []*cliForm{a}))
					c.cli([]*cliForm{one, b}, mode, nil, "one\ntwo\n")
					c.cli([]*cliForm{b, one}, mode, nil, "one\ntwo\n")
					if c.Thorough() {
						c.cli([]*cliForm{b, one, b}, mode, nil, "one\ntwo\n")
						two := cliWrap(w, cliLoad("lib2.lsp", []*cliForm{b, one}))
						c.cli([]*cliForm{two, one}, mode, nil, "one\ntwo\n")
					}
				}
				c.cli([]*cliForm{cliWrap(w, cliMissing), a}, mode, nil, "")
			}
		}
	}
	c.Section("unreadable scripts")
	for _, f := range flat {
		for _, bad := range []string{`(format t "never"`, `"abc`, "(a . b c)", ")"} {
			if !c.Take() {
				continue
			}
			f, bad := f, bad
			c.Case("unreadable scripts", f.src+" "+bad, func() (string, string) {
				os.WriteFile("s.lsp", []byte(f.src+"\n"+bad), 0o644)
				defer os.Remove("s.lsp")
				_, errout, code := runCLI([]string{"s.lsp"}, "")
				return "status 1 with a message: true", fmt.Sprintf("status %d with a message: %v", code, errout != "")
			})
		}
	}
	if c.Take() {
		c.Case("missing script", "s.lsp", func() (string, string) {
			out, errout, code := runCLI([]string{"s.lsp"}, "")
			return "status 1, message: true, no output", fmt.Sprintf("status %d, message: %v, no output%s", code, errout != "", out)
		})
	}
}

func init() {
	register(&Prop{ID: "P30", Rule: "every script of up to 2 wrapped (plain: 3) forms out of printing, definitions, errors, exit, standard input, arguments and load x the ways to start it, run through the command built from the working tree",
		Assumptions: []string{"the interactive mode needs a terminal and is left out"},
		Run:         func(c *C) { c.runCLI() }, Replay: replayRerun})
}
