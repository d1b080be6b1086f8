package main

// Exhaustive enumeration of the sentences of a grammar by size.

import (
	"strings"
	"unicode"
)

type prod struct {
	cost  int
	parts []string // text between holes
	holes []string // nonterminals
}

type Gram struct {
	prods map[string][]prod
	memo  map[string][][]string
}

// NewGram parses rules of the form "E: 1 (car $E)"; the number is the cost.
func NewGram(rules string) *Gram {
	g := &Gram{prods: map[string][]prod{}, memo: map[string][][]string{}}
	for _, l := range strings.Split(rules, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		i := strings.IndexByte(l, ':')
		nt := l[:i]
		l = strings.TrimSpace(l[i+1:])
		cost := int(l[0] - '0')
		g.Add(nt, cost, strings.TrimSpace(l[1:]))
	}
	return g
}

func (g *Gram) Add(nt string, cost int, tmpl string) {
	p := prod{cost: cost}
	var b strings.Builder
	rs := []rune(tmpl)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '$' {
			j := i + 1
			for j < len(rs) && (unicode.IsUpper(rs[j]) || unicode.IsDigit(rs[j])) {
				j++
			}
			p.parts = append(p.parts, b.String())
			b.Reset()
			p.holes = append(p.holes, string(rs[i+1:j]))
			i = j - 1
			continue
		}
		b.WriteRune(rs[i])
	}
	p.parts = append(p.parts, b.String())
	g.prods[nt] = append(g.prods[nt], p)
}

// Each calls f with every sentence of nt of exactly the given size.
func (g *Gram) Each(nt string, size int, f func(string) bool) bool {
	ps, ok := g.prods[nt]
	if !ok {
		panic(harnessBug("harness bug: no nonterminal " + nt))
	}
	for i := range ps {
		p := &ps[i]
		if p.cost > size {
			continue
		}
		if !g.fill(p, 0, size-p.cost, p.parts[0], f) {
			return false
		}
	}
	return true
}

func (g *Gram) fill(p *prod, hole, left int, acc string, f func(string) bool) bool {
	if hole == len(p.holes) {
		if left != 0 {
			return true
		}
		return f(acc)
	}
	last := hole == len(p.holes)-1
	for s := 0; s <= left; s++ {
		if last && s != left {
			continue
		}
		if last {
			m := g.memo[p.holes[hole]]
			if s >= len(m) || m[s] == nil || len(m[s]) == 1 && m[s][0] == busy[0] {
				tail := p.parts[hole+1]
				return g.Each(p.holes[hole], s, func(x string) bool { return f(acc + x + tail) })
			}
		}
		for _, x := range g.list(p.holes[hole], s) {
			if !g.fill(p, hole+1, left-s, acc+x+p.parts[hole+1], f) {
				return false
			}
		}
	}
	return true
}

var busy = []string{"\x00busy"}

func (g *Gram) list(nt string, size int) []string {
	m := g.memo[nt]
	for len(m) <= size {
		m = append(m, nil)
	}
	g.memo[nt] = m
	if m[size] != nil {
		if len(m[size]) == 1 && m[size][0] == busy[0] {
			return nil
		}
		return m[size]
	}
	m[size] = busy
	r := []string{}
	g.Each(nt, size, func(s string) bool { r = append(r, s); return true })
	g.memo[nt][size] = r
	return r
}

// Upto enumerates all sentences of sizes 0..max, simplest first.
func (g *Gram) Upto(nt string, max int, f func(string) bool) {
	for s := 0; s <= max; s++ {
		if !g.Each(nt, s, f) {
			return
		}
	}
}

// Count gives the number of sentences of each size.
func (g *Gram) Count(nt string, max int) []int64 {
	var r []int64
	for s := 0; s <= max; s++ {
		n := int64(0)
		g.Each(nt, s, func(string) bool { n++; return true })
		r = append(r, n)
	}
	return r
}
