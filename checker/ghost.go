package main

// Ghost state: what a particular analysis tracks next to the program's own
// values. Tags partition states; ints are numbers; refs keep values alive.

import (
	"sort"
	"strings"
)

type Ghost struct {
	tags map[string]string
	ints map[string]*Lin
	refs map[string]Val
}

const unkTag = "?"

func newGhost() *Ghost {
	return &Ghost{tags: map[string]string{}, ints: map[string]*Lin{}, refs: map[string]Val{}}
}

func (g *Ghost) clone() *Ghost {
	n := newGhost()
	for k, v := range g.tags {
		n.tags[k] = v
	}
	for k, v := range g.ints {
		n.ints[k] = v
	}
	for k, v := range g.refs {
		n.refs[k] = v
	}
	return n
}

func (g *Ghost) mark(s *State, m map[VID]bool) {
	for _, l := range g.ints {
		for _, t := range l.t {
			s.markID(t.v, m)
		}
	}
	for _, v := range g.refs {
		s.markVal(v, m)
	}
}

func (g *Ghost) join(j *joiner, o *Ghost) *Ghost {
	n := newGhost()
	for k, v := range g.tags {
		w, ok := o.tags[k]
		if !ok {
			continue
		}
		if v == w {
			n.tags[k] = v
		} else {
			n.tags[k] = unkTag
		}
	}
	j.sums = j.an.m != nil && j.an.m.sums
	for _, k := range sortedKeys(g.ints) {
		if w, ok := o.ints[k]; ok {
			if j.sums && strings.HasPrefix(k, "z:") {
				n.ints[k] = j.pairPlain(g.ints[k], w)
				continue
			}
			v := g.ints[k]
			if j.sums {
				v, w = j.A.fold(v, j.B), j.B.fold(w, j.A)
			}
			n.ints[k] = j.pairLin(v, w, nil)
		}
	}
	j.sums = false
	for _, k := range sortedKeys(g.refs) {
		if w, ok := o.refs[k]; ok {
			n.refs[k] = j.pairVal(g.refs[k], w, nil)
		}
	}
	return n
}

// fold replaces what is known to be constant, and is not in the other state.
func (s *State) fold(l *Lin, o *State) *Lin {
	if len(l.t) < 2 {
		return l
	}
	for _, t := range append([]term(nil), l.t...) {
		if _, ok := o.facts[t.v]; ok {
			continue
		}
		if h, ok := s.z.ub[t.v]; ok {
			if lo, ok := s.z.lb[t.v]; ok && lo == h {
				l = l.add(linV(t.v), -t.c).addK(t.c * h)
			}
		}
	}
	return l
}

// leq: every ghost of o (the new state) is included in g.
func (g *Ghost) leq(c *includer, o *Ghost) bool {
	for k, v := range g.tags {
		if v != unkTag && o.tags[k] != v {
			return false
		}
	}
	// the simple ones first: they tell what the ids are
	for n := 0; n < 2; n++ {
		for _, k := range sortedKeys(g.ints) {
			if (len(g.ints[k].t) > 1) != (n == 1) {
				continue
			}
			w, ok := o.ints[k]
			if !ok || !c.lin(g.ints[k], w) {
				return false
			}
		}
	}
	for _, k := range sortedKeys(g.refs) {
		w, ok := o.refs[k]
		if !ok || !c.val(g.refs[k], w) {
			return false
		}
	}
	return true
}

func (g *Ghost) key(s *State) string {
	var sb strings.Builder
	for _, k := range sortedKeys(g.tags) {
		sb.WriteString(k + "=" + g.tags[k] + ";")
	}
	return sb.String()
}

func sortedKeys[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
