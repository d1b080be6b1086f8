package main

// P27, continued: dynamic variables and the types of scopes of the Go
// interface.

import (
	"context"
	"fmt"
	"sort"
	"strings"

	gl "github.com/hymkor/gmnlisp"
)

// hostDynamics: Dynamics values opened and closed by the host, with changes
// by the host and by programs in between.
func (c *C) hostDynamics(ops []int) {
	if !c.Take() {
		return
	}
	type frame struct{ saved map[string]*int }
	names := []string{"da", "db"}
	var b []string
	vals := map[string]*int{}
	show := func() string {
		s := ""
		for _, n := range names {
			if v := vals[n]; v != nil {
				s += fmt.Sprintf(" %s=%d", n, *v)
			} else {
				s += " " + n + "=none"
			}
		}
		return s
	}
	var st []frame
	want := ""
	for i, op := range ops {
		v := i + 1
		n := names[op%2]
		switch op / 2 {
		case 0: // open (0) or close (1)
			if op == 0 {
				st = append(st, frame{map[string]*int{}})
				b = append(b, "open")
			} else {
				if len(st) == 0 {
					return
				}
				for k, o := range st[len(st)-1].saved {
					vals[k] = o
				}
				st = st[:len(st)-1]
				b = append(b, "close")
			}
		case 1:
			if len(st) == 0 {
				return
			}
			f := st[len(st)-1]
			if _, ok := f.saved[n]; !ok {
				f.saved[n] = vals[n]
			}
			vals[n] = &v
			b = append(b, "set "+n)
		case 2:
			vals[n] = &v
			b = append(b, "defdynamic "+n)
		case 3:
			b = append(b, "dynamic-let "+n)
			want += fmt.Sprintf(" (%d)", v)
		}
		want += show() + ";"
	}
	c.Case("dynamics", strings.Join(b, ", "), func() (string, string) {
		iw := c.World()
		id := c.newID()
		sym := func(n string) gl.Symbol { return gl.NewSymbol(n + id) }
		got := ""
		var ds []*gl.Dynamics
		for i, op := range ops {
			n := names[op%2]
			switch op / 2 {
			case 0:
				if op == 0 {
					ds = append(ds, iw.w.NewDynamics())
				} else {
					ds[len(ds)-1].Close()
					ds = ds[:len(ds)-1]
				}
			case 1:
				ds[len(ds)-1].Set(sym(n), gl.Integer(i+1))
			case 2:
				if _, err := iw.w.Interpret(context.Background(), fmt.Sprintf("(defdynamic %s%s %d)", n, id, i+1)); err != nil {
					return want, err.Error()
				}
			case 3:
				v, err := iw.w.Interpret(context.Background(), fmt.Sprintf("(dynamic-let ((%s%s %d)) (dynamic %s%s))", n, id, i+1, n, id))
				if err != nil {
					return want, err.Error()
				}
				got += fmt.Sprintf(" (%v)", v)
			}
			for _, n := range names {
				if v := iw.w.Dynamic(sym(n)); v != nil {
					got += fmt.Sprintf(" %s=%v", n, v)
				} else {
					got += " " + n + "=none"
				}
			}
			got += ";"
		}
		return want, got
	})
}

// scopeTypes: sequences of operations on a Scope or FuncScope made by the
// host, against a map.
func (c *C) scopeTypes(kind int, ops []int) {
	if !c.Take() {
		return
	}
	keys := []string{"ka", "kb"}
	m := map[string]int{}
	pair := kind == 1
	if pair {
		m["ka"] = 7
	}
	want, desc := "", []string{[]string{"Variables", "Pair", "Functions"}[kind]}
	list := func() string {
		var l []string
		for k, v := range m {
			l = append(l, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(l)
		return "[" + strings.Join(l, " ") + "]"
	}
	for i, op := range ops {
		k := keys[op%2]
		switch op / 2 {
		case 0:
			if pair && k == "kb" {
				return // not a key of the pair
			}
			m[k] = i
			desc = append(desc, "set "+k)
		case 1:
			if pair && k == "kb" {
				return
			}
			if kind == 2 {
				delete(m, k)
			} else {
				m[k] = -9 // nil is a value
			}
			desc = append(desc, "set nil "+k)
		case 2: // a range that stops at the first
			if op%2 == 1 {
				return
			}
			n := 0
			if len(m) > 0 {
				n = 1
			}
			want += fmt.Sprint(" first:", n)
			desc = append(desc, "range to the first")
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				v = -1
			}
			want += fmt.Sprint(" ", v, ok)
		}
		want += " " + list() + ";"
	}
	c.Case("scope types", strings.Join(desc, ", "), func() (string, string) {
		sym := map[string]gl.Symbol{"ka": gl.NewSymbol("ka"), "kb": gl.NewSymbol("kb")}
		var vs gl.Scope
		var fs gl.FuncScope
		switch kind {
		case 0:
			vs = gl.Variables{}
		case 1:
			vs = &gl.Pair{Key: sym["ka"], Value: gl.Integer(7)}
		case 2:
			fs = gl.Functions{}
		}
		val := func(v gl.Node) int {
			if v == gl.Null {
				return -9
			}
			return int(v.(gl.Integer))
		}
		num := func(f gl.Callable) int {
			v, err := f.Call(context.Background(), nil, gl.Null)
			if err != nil {
				return -2
			}
			return int(v.(gl.Integer))
		}
		each := func(f func(string, int) bool) {
			if vs != nil {
				vs.Range(func(s gl.Symbol, v gl.Node) bool { return f(s.String(), val(v)) })
			} else {
				fs.Range(func(s gl.Symbol, v gl.Callable) bool { return f(s.String(), num(v)) })
			}
		}
		got := ""
		for i, op := range ops {
			k := sym[keys[op%2]]
			i := i
			switch op / 2 {
			case 0:
				if vs != nil {
					vs.Set(k, gl.Integer(i))
				} else {
					fs.Set(k, gl.Function0(func(context.Context, *gl.World) (gl.Node, error) { return gl.Integer(i), nil }))
				}
			case 1:
				if vs != nil {
					vs.Set(k, gl.Null)
				} else {
					fs.Set(k, nil)
				}
			case 2:
				n := 0
				each(func(string, int) bool { n++; return false })
				got += fmt.Sprint(" first:", n)
			}
			for _, k := range keys {
				n, ok := -1, false
				if vs != nil {
					var v gl.Node
					if v, ok = vs.Get(sym[k]); ok {
						n = val(v)
					}
				} else {
					var f gl.Callable
					if f, ok = fs.Get(sym[k]); ok {
						n = num(f)
					}
				}
				got += fmt.Sprint(" ", n, ok)
			}
			var l []string
			each(func(k string, v int) bool { l = append(l, fmt.Sprintf("%s=%d", k, v)); return true })
			sort.Strings(l)
			got += " [" + strings.Join(l, " ") + "];"
		}
		return want, got
	})
}

func (c *C) embedMore() {
	c.Section("dynamic variables of the host")
	for n := 1; n <= c.Pick(6, 7); n++ {
		forIndexPow(8, n, func(ix []int) { c.hostDynamics(ix) })
	}
	c.Section("types of scopes")
	for kind := 0; kind < 3; kind++ {
		for n := 1; n <= c.Pick(5, 6); n++ {
			forIndexPow(5, n, func(ix []int) { c.scopeTypes(kind, ix) })
		}
	}
}
