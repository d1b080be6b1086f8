package main

// P19: input streams are sequences of characters consumed from the front.
// P20: what is written to a file or stream arrives, in order, or the program
// is told.

import (
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"

	gl "github.com/hymkor/gmnlisp"
)

// inText is the model of an input stream.
type inText struct {
	s []rune
	p int
}

// op performs one operation: the text of its value, "error" (the position is
// open afterwards), "eof" or "open".
func (t *inText) op(name string) string {
	switch name {
	case "read-char":
		if t.p >= len(t.s) {
			return "eof"
		}
		t.p++
		return show(Chr(t.s[t.p-1]))
	case "read-line":
		if t.p >= len(t.s) {
			return "eof"
		}
		st := t.p
		for t.p < len(t.s) && t.s[t.p] != '\n' {
			t.p++
		}
		line := string(t.s[st:t.p])
		if t.p < len(t.s) {
			t.p++
			// CR LF ends a line as LF does.
			line = strings.TrimSuffix(line, "\r")
		}
		return show(Str(line))
	case "read":
		r := refReader{s: t.s, p: t.p}
		s, _ := r.next()
		t.p = r.p
		if s == "end" {
			return "eof"
		}
		return s
	}
	panic(harnessBug(name))
}

var inOps = []string{"read-char", "read", "read-line"}

// inStreamCase runs a sequence of operations on one stream over a text.
func (c *C) inStreamCase(text string, ops []string, kind int, last string) {
	if !c.Take() {
		return
	}
	t := &inText{s: []rune(text)}
	var vals []string
	src := ""
	want := ""
	for i, o := range ops {
		eof := " nil 'eof"
		if i == len(ops)-1 {
			eof = last
		}
		if kind == 5 { // the standard input is the default
			eof = ""
			src += fmt.Sprintf(" (%s)", o)
		} else {
			src += fmt.Sprintf(" (%s s%s)", o, eof)
		}
		v := t.op(o)
		if v == "open" {
			c.Skip("text whose reading is left open")
			return
		}
		if v == "error" {
			want = "error"
			break
		}
		if v == "eof" && !strings.HasPrefix(eof, " nil") {
			want = "error <end-of-stream>"
			break
		}
		if v == "eof" {
			v = "eof"
			if eof == " nil" {
				v = "nil"
			}
		}
		vals = append(vals, v)
	}
	if want == "" {
		want = "value (" + strings.Join(vals, " ") + ")"
	}
	body := "(list" + src + ")"
	switch kind {
	case 0:
		src = "(let ((s (create-string-input-stream " + lispCtrl(text) + "))) " + body + ")"
	case 1:
		src = "(let ((s (open-input-file \"in\"))) (let ((v " + body + ")) (close s) v))"
	case 2:
		src = "(with-open-input-file (s \"in\") " + body + ")"
	case 3:
		src = "(with-standard-input (create-string-input-stream " + lispCtrl(text) + ") (let ((s (standard-input))) " + body + "))"
	case 5:
		src = "(with-standard-input (create-string-input-stream " + lispCtrl(text) + ") " + body + ")"
	case 4:
		src = "(with-open-input-file (f \"in\") (with-standard-input f " + strings.ReplaceAll(body, " s", " (standard-input)") + "))"
	}
	c.Case("input", src+" ; "+strconv.Quote(text), func() (string, string) {
		if kind == 1 || kind == 2 || kind == 4 {
			os.WriteFile("in", []byte(text), 0o644)
		}
		o := c.implRun(src)
		if o.kind == "error" && want == "error" {
			return want, "error"
		}
		g := o.describe()
		if o.kind == "panic" || strings.HasPrefix(o.kind, "HOST") {
			return want, g
		}
		return want, g
	})
}

// stdinTree is a nest of with-standard-input forms; the model is a stack.
type stdinTree struct {
	c     *C
	texts []*inText
	base  int
}

// genStdin makes every body of at most n steps at nesting depth d.
// A body is a string: c l r operations, [iX ... ] inner forms with exit X.
func genStdin(n, d int, streams int, emit func(string)) {
	var rec func(pre string, n, d int, opened []int, f func(string, int))
	rec = func(pre string, n, d int, opened []int, f func(string, int)) {
		f(pre, n)
		if n == 0 {
			return
		}
		for _, o := range "crl" {
			rec(pre+string(o), n-1, d, opened, f)
		}
		if d > 0 {
			for s := 0; s < streams; s++ {
				rec(pre+"["+strconv.Itoa(s), n-1, d-1, opened, func(inner string, left int) {
					if len(inner) > 0 && (inner[len(inner)-1] >= '0' && inner[len(inner)-1] <= '9') {
						return
					}
					for _, x := range "nrtegT" {
						rec(inner+"]"+string(x), left, d, opened, f)
					}
				})
			}
		}
	}
	rec("", n, d, nil, func(s string, left int) {
		if left == 0 && strings.HasSuffix(s, "#") == false {
			emit(s)
		}
	})
}

// stdinCase runs a body made by genStdin.
func (c *C) stdinCase(body string) {
	if !c.Take() {
		return
	}
	texts := []string{"a b\nc d\nef", "1 2\n3\n45"}
	st := []*inText{{s: []rune(texts[0])}, {s: []rune(texts[1])}, {}}
	var want []string
	i := 0
	bad := ""
	step := func(o string, cur int) {
		v := st[cur].op(o)
		if v == "error" || v == "open" {
			bad = v
		}
		want = append(want, v)
	}
	var gen func(cur int) string
	gen = func(cur int) string {
		var b strings.Builder
		for i < len(body) {
			ch := body[i]
			i++
			switch ch {
			case 'c', 'r', 'l':
				o := map[byte]string{'c': "read-char", 'r': "read", 'l': "read-line"}[ch]
				step(o, cur)
				if cur == 2 {
					fmt.Fprintf(&b, " (tr (%s (standard-input) nil 'eof))", o)
				} else {
					fmt.Fprintf(&b, " (tr (%s (standard-input) nil 'eof))", o)
				}
			case '[':
				s := int(body[i] - '0')
				i++
				in := gen(s)
				x := body[i]
				i++
				sv := fmt.Sprintf("s%d", s)
				f := "(with-standard-input " + sv + in
				switch x {
				case 'n':
					f += " nil)"
				case 'r':
					f = "(block b " + f + " (return-from b 1)) )"
				case 't':
					f = "(catch 'k " + f + " (throw 'k 1)))"
				case 'e':
					f = "(block b (with-handler (lambda (e) (return-from b 2)) " + f + " (error \"x\"))))"
				case 'T':
					f = "(ignore-errors " + f + " (car 1)))"
				case 'g':
					f = "(tagbody " + f + " (go l)) (tr 'no) l)"
				}
				b.WriteString(" " + f)
			case ']':
				return b.String()
			}
		}
		return b.String()
	}
	src := fmt.Sprintf("(let ((s0 (create-string-input-stream %s)) (s1 (create-string-input-stream %s)) (o (standard-input)))%s (tr (eq o (standard-input))))", lispCtrl(texts[0]), lispCtrl(texts[1]), gen(2))
	if bad != "" {
		c.Skip(bad)
		return
	}
	c.Case("standard-input", src, func() (string, string) {
		o := c.implRun(src)
		return fmt.Sprint(append(want, "t")), fmt.Sprint(o.trace)
	})
}

// inputFaults: an input error is an error, never the end of the stream.
func (c *C) inputFaults() {
	for _, o := range inOps {
		for _, a := range []string{"", " nil 'eof", " t", " nil"} {
			for _, src := range []string{
				"(with-open-input-file (s \".\") (OP s A))", "(let ((s (open-input-file \".\"))) (OP s A))", "(with-open-input-file (s \".\") (with-standard-input s (OP (standard-input) A)))",
				"(let ((s (open-input-file \"in\"))) (close s) (OP s A))", "(let ((e nil)) (with-open-input-file (s \"in\") (setq e s)) (OP e A))",
				"(open-input-file \"missing\" A)", "(with-open-input-file (s \"missing\") (OP s A))", "(OP 1 A)", "(OP \"abc\" A)", "(OP (create-string-output-stream) A)", "(OP nil A)",
				"(with-standard-input 1 (OP (standard-input) A))", "(create-string-input-stream 1)", "(create-string-input-stream 'a)", "(open-input-file 1)", "(close 1)", "(close nil)", "(OP s0 nil nil nil)",
			} {
				if !c.Take() {
					continue
				}
				src := strings.ReplaceAll(strings.ReplaceAll(src, "OP", o), " A", a)
				c.Case("fault", src, func() (string, string) {
					os.WriteFile("in", []byte("ab cd\nef\n"), 0o644)
					os.Remove("missing")
					return "error", c.implRun(src).kind
				})
			}
		}
	}
}

// longInput: streams longer than the buffers are read to their end.
func (c *C) longInput() {
	for _, n := range []int{4000, 4090, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 70000} {
		for _, unit := range []string{"a", "é", "あ", "\U0001F600"} {
			for kind := 0; kind < 2; kind++ {
				for k, o := range inOps {
					if !c.Take() {
						continue
					}
					for c2 := 0; c2 < 1; c2++ {
						line := strings.Repeat("x", n) + unit
						text := line + "\n" + unit + " " + unit + "\n"
						open := "(open-input-file \"in\")"
						if kind == 0 {
							open = "(create-string-input-stream " + lispCtrl(text) + ")"
						}
						src := []string{
							"(let ((s OPEN) (n 0)) (while (read-char s nil nil) (setq n (+ n 1))) (close-it s) n)",
							"(let ((s OPEN)) (let ((a (read s)) (b (read-line s))) (let ((c (read s)) (d (read s)) (e (read s nil 'eof))) (close-it s) (list (length (convert a <string>)) b c d e))))",
							"(let ((s OPEN)) (let ((a (read-line s)) (b (read-line s)) (c (read-line s nil 'eof))) (close-it s) (list (length a) (elt a (- (length a) 1)) b c)))",
						}[k]
						want := []string{
							fmt.Sprintf("value %d", len([]rune(text))),
							fmt.Sprintf("value (%d \"\" %s %s eof)", len([]rune(line)), symShow(unit), symShow(unit)),
							fmt.Sprintf("value (%d %s %s eof)", len([]rune(line)), show(Chr([]rune(unit)[0])), show(Str(unit+" "+unit))),
						}[k]
						clos := "s"
						if kind == 1 {
							clos = "(close s)"
						}
						src = strings.ReplaceAll(strings.ReplaceAll(src, "OPEN", open), "(close-it s)", clos)
						c.Case("long", fmt.Sprintf("%s of %d %s: ", o, n, unit)+shorten(src), func() (string, string) {
							os.WriteFile("in", []byte(text), 0o644)
							return want, c.implRun(src).describe()
						})
					}
				}
			}
		}
	}
}

func shorten(s string) string {
	if len(s) > 300 {
		return s[:140] + "..." + s[len(s)-140:]
	}
	return s
}

func (c *C) runInput() {
	alpha := []string{"a", " ", "\n", "(", ")", "\"", ";", "あ", "1", "'"}
	c.Section("operations on a text")
	for n := 0; n <= c.Pick(4, 5); n++ {
		tuples(len(alpha), n, func(ix []int) {
			text := ""
			for _, x := range ix {
				text += alpha[x]
			}
			for k := 1; k <= 4; k++ {
				if n == 4 && k == 4 && !c.Thorough() || n == 5 && k > 3 {
					continue
				}
				tuples(3, k, func(ox []int) {
					ops := make([]string, k)
					for i, x := range ox {
						ops[i] = inOps[x]
					}
					kind := 0
					if n <= 3 {
						kind = (len(text) + k) % 5
					}
					c.inStreamCase(text, ops, kind, " nil 'eof")
				})
			}
		})
	}
	c.Section("every kind of stream and every end-of-stream argument")
	for n := 0; n <= c.Pick(2, 3); n++ {
		tuples(len(alpha), n, func(ix []int) {
			text := ""
			for _, x := range ix {
				text += alpha[x]
			}
			for k := 1; k <= 3; k++ {
				tuples(3, k, func(ox []int) {
					ops := make([]string, k)
					for i, x := range ox {
						ops[i] = inOps[x]
					}
					for kind := 0; kind < 5; kind++ {
						for _, last := range []string{"", " nil", " t", " t 'eof", " 0 'eof", " nil 'eof"} {
							c.inStreamCase(text, ops, kind, last)
						}
					}
					c.inStreamCase(text, ops, 5, "")
				})
			}
		})
	}
	c.Section("line ends")
	ends := []string{"a", "\r", "\n", "あ", "\t"}
	for n := 0; n <= c.Pick(4, 6); n++ {
		tuples(len(ends), n, func(ix []int) {
			text := ""
			for _, x := range ix {
				text += ends[x]
			}
			for k := 1; k <= 3; k++ {
				tuples(3, k, func(ox []int) {
					ops := make([]string, k)
					for i, x := range ox {
						ops[i] = inOps[x]
					}
					c.inStreamCase(text, ops, (n+k)%5, " nil 'eof")
					if n <= 3 {
						c.inStreamCase(text, ops, (n+k+1)%5, " nil 'eof")
					}
				})
			}
		})
	}
	c.Section("nested standard input")
	for n := 1; n <= c.Pick(5, 6); n++ {
		genStdin(n, 2, 2, c.stdinCase)
	}
	c.Section("faults")
	c.inputFaults()
	c.Section("long texts")
	c.longInput()
}

// ---- output --------------------------------------------------------------

// A session is a sequence of file operations; the model is the set of files
// and of open streams.

type outStream struct {
	file string
	buf  strings.Builder
	open bool
}

type outModel struct {
	files map[string]string
	dirty map[string]*outStream // files with an open writer
	vars  [2]*outStream
	vals  []string
	err   bool
	skip  string
}

type outOp struct {
	name  string
	src   string
	apply func(m *outModel) string
}

func outOps() []outOp {
	var ops []outOp
	for v := 0; v < 2; v++ {
		v := v
		for _, f := range []string{"f1", "f2"} {
			f := f
			if v == 0 && f == "f2" {
				continue
			}
			ops = append(ops, outOp{"open", fmt.Sprintf("(progn (setq s%d (open-output-file %q)) 'o)", v, f), func(m *outModel) string {
				if m.dirty[f] != nil {
					m.skip = "two writers of one file"
				}
				m.vars[v] = &outStream{file: f, open: true}
				m.dirty[f] = m.vars[v]
				m.files[f] = ""
				return "o"
			}})
		}
		ops = append(ops, outOp{"close", fmt.Sprintf("(close s%d)", v), func(m *outModel) string {
			s := m.vars[v]
			if s == nil {
				return "error"
			}
			if s.open {
				s.open = false
				m.files[s.file] = s.buf.String()
				m.dirty[s.file] = nil
			}
			return "nil"
		}})
		for _, t := range []string{"a\n", "é"} {
			t := t
			ops = append(ops, outOp{"write", fmt.Sprintf("(format s%d %s)", v, lispCtrl(t)), func(m *outModel) string {
				s := m.vars[v]
				if s == nil || !s.open {
					return "error"
				}
				s.buf.WriteString(t)
				return "nil"
			}})
		}
	}
	withs := func(f, name, body, text, val string, ends bool) {
		ops = append(ops, outOp{name, body, func(m *outModel) string {
			if m.dirty[f] != nil {
				m.skip = "two writers of one file"
			}
			m.files[f] = text
			return val
		}})
	}
	withs("f1", "with", `(with-open-output-file (w "f1") (format w "x") (format w "y~%") 'v)`, "xy\n", "v", false)
	withs("f2", "with-return", `(block b (with-open-output-file (w "f2") (format w "r") (return-from b 'q) (format w "no")))`, "r", "q", false)
	withs("f1", "with-throw", `(catch 'k (with-open-output-file (w "f1") (format w "t") (throw 'k 'z)))`, "t", "z", false)
	withs("f2", "with-error", `(block b (with-handler (lambda (e) (return-from b 'h)) (with-open-output-file (w "f2") (format w "e") (error "boom"))))`, "e", "h", false)
	withs("f1", "with-go", `(progn (tagbody (with-open-output-file (w "f1") (format w "g") (go l)) (tr 'no) l) 'g)`, "g", "g", false)
	withs("f2", "with-setq", `(with-open-output-file (w "f2") (format w "s") (close w) (setq w 5) w)`, "s", "5", false)
	for _, f := range []string{"f1", "f2"} {
		f := f
		ops = append(ops, outOp{"probe", fmt.Sprintf("(probe-file %q)", f), func(m *outModel) string {
			if _, ok := m.files[f]; ok {
				return "t"
			}
			return "nil"
		}})
		ops = append(ops, outOp{"length", fmt.Sprintf("(file-length %q 8)", f), func(m *outModel) string {
			if m.dirty[f] != nil {
				m.skip = "size of a file being written"
			}
			t, ok := m.files[f]
			if !ok {
				return "nil"
			}
			return strconv.Itoa(len(t))
		}})
		ops = append(ops, outOp{"read", fmt.Sprintf("(with-open-input-file (r %q) (let ((l nil)) (let ((x (read-char r nil nil))) (while x (setq l (cons x l)) (setq x (read-char r nil nil)))) l))", f), func(m *outModel) string {
			if m.dirty[f] != nil {
				m.skip = "contents of a file being written"
			}
			t, ok := m.files[f]
			if !ok {
				return "error"
			}
			l := V(NIL)
			for _, r := range t {
				l = &Pair{Chr(r), l}
			}
			return show(l)
		}})
	}
	return ops
}

func openScratch() string {
	dir, _ := os.Getwd()
	var r []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, dir+"/") && !strings.HasSuffix(l, " (deleted)") {
			r = append(r, l[len(dir)+1:])
		}
	}
	return strings.Join(r, " ")
}

// outputSession runs a sequence of operations; every operation's error is
// caught, so that all of them run.
func (c *C) outputSession(ops []outOp, ix []int) {
	if !c.Take() {
		return
	}
	m := &outModel{files: map[string]string{}, dirty: map[string]*outStream{}}
	var want []string
	for _, x := range ix {
		o := ops[x]
		v := o.apply(m)
		if m.skip != "" {
			c.Skip(m.skip)
			return
		}
		want = append(want, v)
	}
	for _, s := range m.vars {
		if s != nil && s.open {
			m.files[s.file] = s.buf.String()
		}
	}
	for f, s := range m.dirty {
		if s != nil && s != m.vars[0] && s != m.vars[1] {
			delete(m.files, f) // lost its stream: the contents are open
			m.dirty[f] = s
		} else {
			m.dirty[f] = nil
		}
	}
	// the Go errors of the file system cannot be handled by programs, so that
	// every operation that may fail is a program of its own
	var progs []string
	progs = append(progs, "(progn (defglobal s0@ 0) (defglobal s1@ 0))")
	for _, x := range ix {
		progs = append(progs, strings.NewReplacer("s0", "s0@", "s1", "s1@").Replace(ops[x].src))
	}
	for k := 0; k < 2; k++ {
		progs = append(progs, fmt.Sprintf("(if (integerp s%d@) 0 (close s%d@))", k, k))
	}
	c.Case("session", strings.Join(progs, " "), func() (string, string) {
		os.Remove("f1")
		os.Remove("f2")
		iw := c.World()
		c.uid++
		id := fmt.Sprintf("zs%dsz", c.uid)
		var got []string
		for i, p := range progs {
			o := c.implRunIn(iw, strings.ReplaceAll(p, "@", id), newStepCtx(1_000_000))
			if i == 0 || i > len(ix) {
				continue
			}
			switch o.kind {
			case "value":
				got = append(got, o.val)
			default:
				got = append(got, o.kind)
			}
		}
		w, g := fmt.Sprint(want), fmt.Sprint(got)
		for _, f := range []string{"f1", "f2"} {
			if m.dirty[f] != nil {
				continue
			}
			data, err := os.ReadFile(f)
			t, ok := m.files[f]
			w += fmt.Sprintf(" %s:%v %q", f, ok, t)
			g += fmt.Sprintf(" %s:%v %q", f, err == nil, data)
		}
		if m.dirty["f1"] == nil && m.dirty["f2"] == nil {
			w += " open:"
			g += " open:" + openScratch()
		}
		return w, g
	})
}

// limitedFile writes chunks to a file that may grow to limit bytes.
func (c *C) limitedFile(chunks []int, limit int, form int) {
	if !c.Take() {
		return
	}
	total := 0
	var writes, all strings.Builder
	for i, n := range chunks {
		s := strings.Repeat(string(rune('a'+i)), n)
		all.WriteString(s)
		total += n
		switch i % 3 {
		case 0:
			fmt.Fprintf(&writes, " (format w (create-string %d #\\%c))", n, 'a'+i)
		case 1:
			fmt.Fprintf(&writes, " (format-object w (create-string %d #\\%c) nil)", n, 'a'+i)
		default:
			fmt.Fprintf(&writes, " (format w \"~a\" (create-string %d #\\%c))", n, 'a'+i)
		}
	}
	src := ""
	switch form {
	case 0:
		src = "(with-open-output-file (w \"lim\")" + writes.String() + " 'done)"
	case 1:
		src = "(let ((w (open-output-file \"lim\")))" + writes.String() + " (close w) 'done)"
	case 2:
		src = "(block b (with-open-output-file (w \"lim\")" + writes.String() + " 'done))"
	}
	c.Case("limit", fmt.Sprintf("%s ; file size limit %d", src, limit), func() (string, string) {
		os.Remove("lim")
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max})
		o := c.implRun(src)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		data, _ := os.ReadFile("lim")
		w, g := "value done and the file complete", o.describe()
		if limit < total {
			w = "error and a prefix of the text in the file"
		}
		if o.kind == "error" {
			g = "error"
		}
		if string(data) == all.String() {
			g += " and the file complete"
		} else if strings.HasPrefix(all.String(), string(data)) {
			g += " and a prefix of the text in the file"
		} else {
			g += fmt.Sprintf(" and %d other bytes in the file", len(data))
		}
		os.Remove("lim")
		return w, g
	})
}

// failWriter accepts limit bytes and then fails.
type failWriter struct {
	limit int
	b     strings.Builder
	fails int
}

func (f *failWriter) Write(p []byte) (int, error) {
	n := len(p)
	if f.b.Len()+n > f.limit {
		n = f.limit - f.b.Len()
		f.b.Write(p[:n])
		f.fails++
		return n, fmt.Errorf("disk full")
	}
	f.b.Write(p)
	return n, nil
}

// failingStdout runs output operations on a standard output that fails after
// every possible number of bytes.
func (c *C) failingStdout(ix []int) {
	cl := &col{}
	src := "(progn"
	for _, x := range ix {
		if why := fops[x].apply(cl); why != "" {
			return
		}
		src += " " + strings.ReplaceAll(fops[x].src, "S", []string{"t", "(standard-output)", "(error-output)"}[x%3])
	}
	src += " 'done)"
	text := cl.b.String()
	if strings.Contains(src, "~") && strings.Contains(src, "&") {
		return // fresh-line on two streams; P12 covers it
	}
	for k := 0; k <= len(text); k++ {
		if !c.Take() {
			continue
		}
		c.Case("failing stdout", fmt.Sprintf("%s ; fails after %d bytes", src, k), func() (string, string) {
			f := &failWriter{limit: k}
			iw := c.World()
			iw.w.SetStdout(f)
			iw.w.SetErrout(f)
			o := c.implRunIn(iw, src, newStepCtx(1_000_000))
			iw.w.SetStdout(iw.out)
			iw.w.SetErrout(iw.err)
			want := fmt.Sprintf("error %q", text[:k])
			if k == len(text) {
				want = fmt.Sprintf("value done %q", text)
			}
			g := o.kind
			if o.kind == "value" {
				g += " " + o.val
			}
			return want, fmt.Sprintf("%s %q", g, f.b.String())
		})
	}
}

func (c *C) runOutput() {
	signal.Ignore(syscall.SIGXFSZ)
	c.Section("sessions on two files")
	ops := outOps()
	for n := 1; n <= 4; n++ {
		tuples(len(ops), n, func(ix []int) { c.outputSession(ops, ix) })
	}
	c.Section("a file that cannot grow")
	sizes := []int{1, 5, 4095, 4096, 4097, 9000}
	for n := 1; n <= 2+c.Pick(0, 1); n++ {
		tuples(len(sizes), n, func(ix []int) {
			var chunks []int
			total := 0
			lims := map[int]bool{0: true, 1: true}
			for _, x := range ix {
				chunks = append(chunks, sizes[x])
				total += sizes[x]
				for d := -1; d <= 1; d++ {
					lims[total+d] = true
				}
			}
			for d := -1; d <= 1; d++ {
				for _, b := range []int{4096, 8192, 12288, 16384} {
					if b+d <= total+1 {
						lims[b+d] = true
					}
				}
			}
			for l := 0; l <= total+1; l++ {
				if lims[l] || l <= 12 || total <= 20 || c.Thorough() && l%97 == 0 {
					for form := 0; form < 3; form++ {
						c.limitedFile(chunks, l, form)
					}
				}
			}
		})
	}
	c.Section("a full device")
	for _, n := range []int{0, 1, 4095, 4096, 4097, 20000} {
		for form := 0; form < 2; form++ {
			if !c.Take() {
				continue
			}
			src := fmt.Sprintf("(with-open-output-file (w \"/dev/full\") (format w (create-string %d #\\a)) 'done)", n)
			if form == 1 {
				src = fmt.Sprintf("(let ((w (open-output-file \"/dev/full\"))) (format w (create-string %d #\\a)) (close w) 'done)", n)
			}
			c.Case("full", src, func() (string, string) {
				want := "error"
				if n == 0 {
					want = "value"
				}
				return want, c.implRun(src).kind
			})
		}
	}
	c.Section("a standard output that fails")
	for n := 1; n <= c.Pick(3, 4); n++ {
		tuples(len(fops), n, c.failingStdout)
	}
	c.Section("bad arguments")
	for _, src := range []string{"(open-output-file 1)", "(open-output-file \".\")", "(open-output-file \"no/such/dir\")", "(with-open-output-file (w \".\") 1)", "(with-open-output-file (w 1) 1)",
		"(with-open-output-file (w \"no/such/dir\") 1)", "(file-length 1 8)", "(file-length \"ff\" 'a)", "(file-length \".\" 0)", "(probe-file 1)", "(close \"f\")", "(get-output-stream-string 1)",
		"(get-output-stream-string (standard-output))", "(get-output-stream-string (create-string-input-stream \"\"))", "(get-output-stream-string nil)",
		"(let ((e nil)) (with-open-output-file (s \"ff\") (setq e s)) (format e \"x\"))", "(let ((e (open-output-file \"ff\"))) (close e) (format-char e #\\a))",
		"(let ((e (open-output-file \"ff\"))) (close e) (format-object e 1 t))", "(let ((e (open-output-file \"ff\"))) (close e) (format-integer e 1 10))", "(let ((e (open-output-file \"ff\"))) (close e) (format-float e 1.0))"} {
		if !c.Take() {
			continue
		}
		c.Case("bad", src, func() (string, string) { return "error", c.implRun(src).kind })
	}
	c.Section("sizes of files")
	for n := 0; n <= 20; n++ {
		for _, bits := range []int{1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 32, 64, 100, 160, 161} {
			if !c.Take() {
				continue
			}
			src := fmt.Sprintf("(progn (with-open-output-file (w \"size\") (format w \"~a\" (create-string %d #\\a))) (file-length \"size\" %d))", n, bits)
			c.Case("size", src, func() (string, string) {
				o := c.implRun(src)
				os.Remove("size")
				return fmt.Sprintf("value %d", n*8/bits), o.kind + " " + o.val
			})
		}
	}
	c.Section("no file stays open")
	for _, x := range []string{"1", "(return-from b 1)", "(throw 'k 1)", "(error \"x\")", "(go l)", "(car 1)", "(quit)", "(exit)", "(abort)", "(undefined@)", "(while t)", "(format 1 1)"} {
		for _, f := range []string{"(with-open-output-file (w \"keep\") (format w \"abc\") X)", "(with-open-input-file (w \"keep\") (read-char w) X)", "(with-open-output-file (w \"keep\") (format w \"abc\") (with-open-input-file (r \"keep\") X))",
			"(with-open-output-file (w \"keep\") (format w \"abc\") (unwind-protect X (tr 'u)))"} {
			if !c.Take() {
				continue
			}
			src := "(progn (block b (catch 'k (tagbody " + strings.ReplaceAll(f, "X", x) + " l))) 'end)"
			c.Case("exit", src, func() (string, string) {
				os.WriteFile("keep", []byte("abc"), 0o644)
				c.ResetWorld()
				o := c.implRunIn(c.World(), src, newStepCtx(50_000))
				data, _ := os.ReadFile("keep")
				_ = o
				return "closed; contents abc", strings.TrimSpace("closed"+openScratch()) + "; contents " + string(data)
			})
		}
	}
	if c.Thorough() {
		c.Section("longer sessions on two files")
		tuples(len(ops), 5, func(ix []int) { c.outputSession(ops, ix) })
	}
}

var _ = gl.Null

func init() {
	register(&Prop{ID: "P19", Run: (*C).runInput,
		Rule:        "every text of up to 4 (5) characters of the alphabet with every sequence of up to 4 read operations, on every kind of input stream and with every form of end-of-stream argument; every nest of with-standard-input forms of up to 5 (6) steps with every exit; faulty and long streams",
		Assumptions: []string{"the position after a read error is left open"},
		Replay:      func(c *C, input string) { c.only = input; c.runInput() }})
	register(&Prop{ID: "P20", Run: (*C).runOutput,
		Rule:        "every session of up to 4 (5) file operations on two files and two streams; every write pattern against every file size limit around it and the buffer boundaries, a full device and a standard output that fails after every possible number of bytes; every exit out of the with-open forms",
		Assumptions: []string{"what a file contains while a stream writes to it is left open; two writers of one file are not explored"},
		Replay:      func(c *C, input string) { c.only = input; c.runOutput() }})
}
