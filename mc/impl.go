package main

// Driving the real code through its exported API, and the canonical text of
// its values.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	gl "github.com/hymkor/gmnlisp"
)

type implWorld struct {
	w   *gl.World
	out *bytes.Buffer
	err *bytes.Buffer

	probeID string // names of the state that probes look at
}

var curTrace *[]string

func trace(s string) {
	if curTrace != nil && len(*curTrace) < 20000 {
		*curTrace = append(*curTrace, s)
	}
}

func init() {
	gl.Export(gl.NewSymbol("tr"), &gl.Function{C: 1, F: func(ctx context.Context, w *gl.World, a []gl.Node) (gl.Node, error) {
		trace(ishow(w, a[0]))
		return a[0], nil
	}})
}

func newImplWorld() *implWorld {
	iw := &implWorld{w: gl.New(), out: &bytes.Buffer{}, err: &bytes.Buffer{}}
	iw.w.SetStdout(iw.out)
	iw.w.SetErrout(iw.err)
	return iw
}

func (c *C) ResetWorld() { c.world = nil }

func (c *C) World() *implWorld {
	if c.world == nil || c.worldUse > c.worldMax {
		c.world = newImplWorld()
		c.worldUse = 0
	}
	c.worldUse++
	c.world.out.Reset()
	c.world.err.Reset()
	return c.world
}

// stepCtx counts how often it is polled and is cancelled at poll number limit.
type stepCtx struct {
	n, limit int64
	closed   chan struct{}
	open     chan struct{}
	err      error
}

var closedChan = func() chan struct{} { c := make(chan struct{}); close(c); return c }()

func newStepCtx(limit int64) *stepCtx {
	return &stepCtx{limit: limit, open: make(chan struct{}), err: context.Canceled}
}

func (s *stepCtx) Deadline() (time.Time, bool) { return time.Time{}, false }
func (s *stepCtx) Value(any) any               { return nil }
func (s *stepCtx) Done() <-chan struct{} {
	s.n++
	if s.n >= s.limit {
		return closedChan
	}
	return s.open
}
func (s *stepCtx) Err() error {
	if s.n >= s.limit {
		return s.err
	}
	return nil
}

var errDeadline = context.DeadlineExceeded

func isErr(err, target error) bool { return errors.Is(err, target) }

type obs struct {
	kind  string // value, error, undef, quit, abort, cancelled, panic
	val   string
	class string
	trace []string
	out   string
	loose bool
	why   string
	node  gl.Node
	err   error
}

func (o *obs) describe() string {
	s := o.kind
	switch o.kind {
	case "value":
		s += " " + o.val
	case "error":
		s += " " + o.class
	}
	if len(o.trace) > 0 {
		s += " trace[" + strings.Join(o.trace, " ") + "]"
	}
	if o.out != "" {
		s += " out" + strconv.Quote(o.out)
	}
	return s
}

// errClass names the class of the condition an error stands for.
func errClass(err error) string {
	var cl interface{ ClassOf() gl.Class }
	if errors.As(err, &cl) {
		if k := cl.ClassOf(); k != nil {
			return k.Name().String()
		}
	}
	return "?"
}

// subst makes the global names of a program unique (but keeps ,@).
func subst(src, id string) string {
	src = strings.ReplaceAll(src, ",@", ",\x00")
	src = strings.ReplaceAll(src, "@", id)
	return strings.ReplaceAll(src, "\x00", "@")
}

func (c *C) newID() string {
	c.uid++
	return fmt.Sprintf("zq%dqz", c.uid)
}

func (c *C) implRunIn(iw *implWorld, src string, ctx context.Context) (o *obs) {
	return c.implRunID(iw, src, c.newID(), ctx)
}

// implRunID is implRunIn with the global names of an earlier program.
func (c *C) implRunID(iw *implWorld, src, id string, ctx context.Context) (o *obs) {
	src = subst(src, id)
	o = &obs{}
	curTrace = &o.trace
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(harnessBug); ok {
				panic(s)
			}
			o.kind = "panic"
			o.class = fmt.Sprint(r)
			o.val = o.class
			if os.Getenv("MC_STACK") != "" {
				o.class += "\n" + string(debug.Stack())
			}
			o.kind = "HOST PANIC " + o.class
			c.world = nil
		}
		curTrace = nil
		for i := range o.trace {
			o.trace[i] = strings.ReplaceAll(o.trace[i], id, "@")
		}
		o.val = strings.ReplaceAll(o.val, id, "@")
		o.class = strings.ReplaceAll(o.class, id, "@")
		o.out = strings.ReplaceAll(iw.out.String(), id, "@")
	}()
	v, err := iw.w.Interpret(ctx, src)
	o.node, o.err = v, err
	switch {
	case err == nil:
		o.kind = "value"
		o.val = ishow(iw.w, v)
	case errors.Is(err, context.Canceled), errors.Is(err, errDeadline):
		o.kind = "cancelled"
	case errors.Is(err, gl.ErrQuit):
		o.kind = "quit"
	case errors.Is(err, gl.ErrAbort):
		o.kind = "abort"
	default:
		o.kind = "error"
		o.class = errClass(err)
	}
	return o
}

func (c *C) implRun(src string) *obs {
	return c.implRunIn(c.World(), src, newStepCtx(3_000_000))
}

func refRun(src string) *obs { o, _ := refRunIn(src); return o }

func refRunIn(src string) (*obs, *In) {
	in := newIn()
	return in.runIn(nil, src), in
}

// runIn evaluates the forms of src in sc.
func (in *In) runIn(sc *scope, src string) *obs {
	o := &obs{kind: "value"}
	var v V = NIL
	for _, f := range readProgram(src) {
		var a *ab
		v, a = in.ev(f, sc)
		if a != nil {
			switch a.kind {
			case abErr:
				o.kind, o.class = "error", a.cond.className()
				if a.cond.obj != nil {
					o.class = "?" // the error is made from the condition's report
				}
			case abUndef:
				o.kind, o.why = "undef", a.why
			case abThrow, abBlock, abGo, abCont:
				o.kind, o.why = "undef", "abrupt completion at top level"
			case abQuit:
				o.kind = a.why
			}
			break
		}
	}
	if o.kind == "value" {
		o.val = show(v)
	}
	o.trace = in.trace
	o.out = in.std.out.String()
	o.loose = in.loose
	return o
}

func (c *Cond) className() string {
	if c.obj != nil {
		return c.obj.cls.name
	}
	return c.class
}

// compare renders both observations; parts the model leaves open are equal.
func compare(m, g *obs) (want, got string) {
	mm, gg := *m, *g
	if mm.kind == "error" && gg.kind == "error" {
		if mm.class == "?" || m.class == "?" {
			mm.class, gg.class = "?", "?"
		}
	}
	if mm.loose {
		mm.trace, gg.trace = nil, nil
		mm.out, gg.out = "", ""
	}
	return mm.describe(), gg.describe()
}

// Diff runs one program on the model and on the code.
func (c *C) Diff(src string) bool {
	m := refRun(src)
	if m.kind == "undef" {
		c.Skip(m.why)
		return true
	}
	kind := "diff"
	if graphMode {
		kind = "graph"
	}
	return c.Case(kind, src, func() (string, string) {
		return compare(m, c.implRun(src))
	})
}

// ---- canonical text of the implementation's values ----------------------

func ishow(w *gl.World, v gl.Node) string {
	var b strings.Builder
	if graphMode {
		shown = map[any]int{}
		defer func() { shown = nil }()
	}
	ishowTo(&b, w, v, 0)
	return b.String()
}

func ishowTo(b *strings.Builder, w *gl.World, v gl.Node, depth int) {
	if depth > 60 || b.Len() > 20000 {
		b.WriteString("...")
		return
	}
	if v == nil {
		b.WriteString("GONIL")
		return
	}
	if v == gl.Null {
		b.WriteString("nil")
		return
	}
	if v == gl.True {
		b.WriteString("t")
		return
	}
	switch x := v.(type) {
	case gl.Integer:
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case gl.BigInt:
		b.WriteString(x.Int.String())
	case gl.Float:
		b.WriteString(fstr(float64(x)))
	case gl.String:
		b.WriteString(strconv.Quote(string(x)))
	case gl.Rune:
		b.WriteString("c:" + strconv.Quote(string(rune(x))))
	case gl.Symbol:
		b.WriteString(symShow(x.String()))
	case gl.Keyword:
		b.WriteString("k:" + x.String())
	case *gl.Cons:
		if revisit(b, x) {
			return
		}
		b.WriteByte('(')
		for n := 0; ; n++ {
			car, cdr, _ := x.FirstAndRest()
			ishowTo(b, w, car, depth+1)
			if cdr == gl.Null {
				break
			}
			if p, ok := cdr.(*gl.Cons); ok {
				if shown != nil {
					if _, ok := shown[p]; ok {
						b.WriteString(" . ")
						revisit(b, p)
						break
					}
					revisit(b, p)
				}
				b.WriteByte(' ')
				x = p
				if n > 5000 {
					b.WriteString("...")
					break
				}
				continue
			}
			b.WriteString(" . ")
			ishowTo(b, w, cdr, depth+1)
			break
		}
		b.WriteByte(')')
	case *gl.Array:
		if revisit(b, x) {
			return
		}
		dims := arrayDims(w, x)
		fmt.Fprintf(b, "#%v[", dims)
		first := true
		forIndex(dims, func(ix []int) {
			if !first {
				b.WriteByte(' ')
			}
			first = false
			e, err := callNamed(w, "aref", append([]gl.Node{x}, ints(ix)...)...)
			if err != nil {
				b.WriteString("!aref:" + errClass(err))
				return
			}
			ishowTo(b, w, e, depth+1)
		})
		b.WriteByte(']')
	case gl.FunctionRef:
		b.WriteString("#<fn>")
	case gl.Class:
		b.WriteString("#<class " + x.Name().String() + ">")
	case error:
		cl := v.ClassOf()
		b.WriteString("#<cond " + cl.Name().String() + ">")
	default:
		cl := v.ClassOf()
		if cl == nil {
			b.WriteString("#<no class>")
			return
		}
		name := cl.Name().String()
		switch name {
		case "<hash-table>", "<hashtable>":
			b.WriteString("#<hash>")
		case "<stream>":
			b.WriteString("#<stream>")
		default:
			if _, ok := v.(io.Writer); ok {
				b.WriteString("#<stream>")
				return
			}
			if _, ok := v.(io.RuneScanner); ok {
				b.WriteString("#<stream>")
				return
			}
			b.WriteString("#<obj " + name + ">")
		}
	}
}

func ints(ix []int) []gl.Node {
	r := make([]gl.Node, len(ix))
	for i, x := range ix {
		r[i] = gl.Integer(x)
	}
	return r
}

func forIndex(dims []int, f func([]int)) {
	ix := make([]int, len(dims))
	var rec func(d int)
	rec = func(d int) {
		if d == len(dims) {
			f(ix)
			return
		}
		for i := 0; i < dims[d]; i++ {
			ix[d] = i
			rec(d + 1)
		}
	}
	rec(0)
}

func callNamed(w *gl.World, name string, args ...gl.Node) (gl.Node, error) {
	f, err := w.GetFunc(gl.NewSymbol(name))
	if err != nil {
		return nil, err
	}
	return f.Call(context.Background(), w, gl.UnevalList(args...))
}

func arrayDims(w *gl.World, a *gl.Array) []int {
	v, err := callNamed(w, "array-dimensions", a)
	if err != nil {
		return []int{-1}
	}
	var dims []int
	for v != nil && v != gl.Null {
		c, ok := v.(*gl.Cons)
		if !ok {
			return []int{-2}
		}
		i, ok := c.Car.(gl.Integer)
		if !ok {
			return []int{-3}
		}
		dims = append(dims, int(i))
		v = c.Cdr
	}
	return dims
}
