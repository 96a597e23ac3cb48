package main

// Linear expressions over abstract value ids, and a difference-bound domain.

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// VID identifies an abstract value: one unknown runtime value of one execution.
type VID int32

type term struct {
	v VID
	c int64
}

// Lin is c + sum(t). Immutable.
type Lin struct {
	c int64
	t []term
}

func linC(c int64) *Lin { return &Lin{c: c} }
func linV(v VID) *Lin   { return &Lin{t: []term{{v, 1}}} }

func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) single() (VID, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].c == 1 {
		return l.t[0].v, true
	}
	return 0, false
}

func (l *Lin) addK(k int64) *Lin { return &Lin{c: l.c + k, t: l.t} }

func (l *Lin) add(m *Lin, f int64) *Lin {
	r := &Lin{c: l.c + f*m.c}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].v < m.t[j].v):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].v < l.t[i].v:
			r.t = append(r.t, term{m.t[j].v, f * m.t[j].c})
			j++
		default:
			c := l.t[i].c + f*m.t[j].c
			if c != 0 {
				r.t = append(r.t, term{l.t[i].v, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) mul(k int64) *Lin {
	if k == 0 {
		return linC(0)
	}
	r := &Lin{c: l.c * k}
	for _, t := range l.t {
		r.t = append(r.t, term{t.v, t.c * k})
	}
	return r
}

func (l *Lin) eq(m *Lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

// subst replaces ids by linear expressions; ok is false if an id has no image.
func (l *Lin) subst(f func(VID) *Lin) (*Lin, bool) {
	r := linC(l.c)
	for _, t := range l.t {
		x := f(t.v)
		if x == nil {
			return nil, false
		}
		r = r.add(x, t.c)
	}
	return r, true
}

func (l *Lin) String() string {
	var s []string
	for _, t := range l.t {
		switch t.c {
		case 1:
			s = append(s, fmt.Sprintf("v%d", t.v))
		default:
			s = append(s, fmt.Sprintf("%d*v%d", t.c, t.v))
		}
	}
	if l.c != 0 || len(s) == 0 {
		s = append(s, fmt.Sprint(l.c))
	}
	return strings.Join(s, "+")
}

const (
	posInf = math.MaxInt64
	negInf = math.MinInt64
)

func satAdd(a, b int64) int64 {
	if a == posInf || b == posInf {
		return posInf
	}
	if a == negInf || b == negInf {
		return negInf
	}
	r := a + b
	if a > 0 && b > 0 && r < 0 {
		return posInf
	}
	if a < 0 && b < 0 && r >= 0 {
		return negInf
	}
	return r
}

type vpair struct{ x, y VID }

// Zone keeps bounds lb <= x <= ub and differences x - y <= c.
type Zone struct {
	lb, ub map[VID]int64
	d      map[vpair]int64
	ex     []*Lin
	bad    bool
}

func newZone() *Zone {
	return &Zone{lb: map[VID]int64{}, ub: map[VID]int64{}, d: map[vpair]int64{}}
}

func (z *Zone) clone() *Zone {
	n := &Zone{lb: make(map[VID]int64, len(z.lb)), ub: make(map[VID]int64, len(z.ub)), d: make(map[vpair]int64, len(z.d)), bad: z.bad, ex: z.ex}
	for k, v := range z.lb {
		n.lb[k] = v
	}
	for k, v := range z.ub {
		n.ub[k] = v
	}
	for k, v := range z.d {
		n.d[k] = v
	}
	return n
}

func (z *Zone) lo(v VID) int64 {
	if b, ok := z.lb[v]; ok {
		return b
	}
	return negInf
}
func (z *Zone) hi(v VID) int64 {
	if b, ok := z.ub[v]; ok {
		return b
	}
	return posInf
}

// diff returns the best known upper bound of x - y.
func (z *Zone) diff(x, y VID) int64 {
	if x == y {
		return 0
	}
	r := int64(posInf)
	if c, ok := z.d[vpair{x, y}]; ok {
		r = c
	}
	h, l := z.hi(x), z.lo(y)
	if h != posInf && l != negInf {
		if c := satAdd(h, -l); c < r {
			r = c
		}
	}
	return r
}

func (z *Zone) setHi(v VID, c int64) {
	if c >= z.hi(v) {
		return
	}
	z.ub[v] = c
	if z.lo(v) > c {
		z.bad = true
		return
	}
	for p, k := range z.d {
		if p.y == v { // x - v <= k
			z.setHi(p.x, satAdd(c, k))
		}
	}
}

func (z *Zone) setLo(v VID, c int64) {
	if c <= z.lo(v) {
		return
	}
	z.lb[v] = c
	if z.hi(v) < c {
		z.bad = true
		return
	}
	for p, k := range z.d {
		if p.x == v { // v - y <= k  => y >= v - k
			z.setLo(p.y, satAdd(c, -k))
		}
	}
}

// addDiff adds x - y <= c.
func (z *Zone) addDiff(x, y VID, c int64) {
	if z.bad {
		return
	}
	if x == y {
		if c < 0 {
			z.bad = true
		}
		return
	}
	if o, ok := z.d[vpair{x, y}]; ok && o <= c {
		return
	}
	// closure through x - y
	type e struct {
		v VID
		k int64
	}
	in := []e{{x, 0}}  // u - x <= k
	out := []e{{y, 0}} // y - v <= k
	for p, k := range z.d {
		if p.y == x {
			in = append(in, e{p.x, k})
		}
		if p.x == y {
			out = append(out, e{p.y, k})
		}
	}
	for _, a := range in {
		for _, b := range out {
			k := satAdd(satAdd(a.k, c), b.k)
			if a.v == b.v {
				if k < 0 {
					z.bad = true
					return
				}
				continue
			}
			if o, ok := z.d[vpair{a.v, b.v}]; !ok || k < o {
				z.d[vpair{a.v, b.v}] = k
			}
		}
	}
	if h := z.hi(y); h != posInf {
		z.setHi(x, satAdd(h, c))
	}
	if l := z.lo(x); l != negInf {
		z.setLo(y, satAdd(l, -c))
	}
}

// upper bound of l
// ub_ is an upper bound of an expression.
func (z *Zone) ub_(l *Lin) int64 {
	h := z.ub0(l)
	if len(l.t) > 0 {
		for _, c := range z.ex {
			if b := z.ub0(l.add(c, -1)); b < h {
				h = b
			}
		}
	}
	return h
}

// addEx remembers an inequality (l <= 0) that is not a difference of two ids.
func (z *Zone) addEx(l *Lin) {
	for _, c := range z.ex {
		if c.eq(l) {
			return
		}
	}
	n := append([]*Lin{}, z.ex...)
	if len(n) >= 6 {
		n = n[1:]
	}
	z.ex = append(n, l)
}

func (z *Zone) ub0(l *Lin) int64 {
	switch len(l.t) {
	case 0:
		return l.c
	case 1:
		return satAdd(z.termUb(l.t[0]), l.c)
	}
	// pair +1/-1 terms
	best := int64(posInf)
	var rec func(ts []term, acc int64)
	n := 0
	rec = func(ts []term, acc int64) {
		n++
		if acc == posInf || n > 200 {
			return
		}
		if len(ts) == 0 {
			if acc < best {
				best = acc
			}
			return
		}
		t := ts[0]
		rec(ts[1:], satAdd(acc, z.termUb(t)))
		for i := 1; i < len(ts); i++ {
			u := ts[i]
			if (t.c > 0) == (u.c > 0) {
				continue
			}
			m := t.c
			if m < 0 {
				m = -m
			}
			k := u.c
			if k < 0 {
				k = -k
			}
			if k < m {
				m = k
			}
			var d int64
			if t.c > 0 {
				d = z.diff(t.v, u.v)
			} else {
				d = z.diff(u.v, t.v)
			}
			if d == posInf {
				continue
			}
			rest := append([]term{}, ts[1:i]...)
			rest = append(rest, ts[i+1:]...)
			sg := func(c int64) int64 {
				if c > 0 {
					return c - m
				}
				return c + m
			}
			if c := sg(t.c); c != 0 {
				rest = append(rest, term{t.v, c})
			}
			if c := sg(u.c); c != 0 {
				rest = append(rest, term{u.v, c})
			}
			rec(rest, satAdd(acc, d*m))
		}
	}
	rec(l.t, l.c)
	return best
}

func (z *Zone) lb_(l *Lin) int64 {
	u := z.ub_(l.mul(-1))
	if u == posInf {
		return negInf
	}
	return -u
}

func (z *Zone) termUb(t term) int64 {
	var b int64
	if t.c > 0 {
		b = z.hi(t.v)
		if b == posInf {
			return posInf
		}
	} else {
		b = z.lo(t.v)
		if b == negInf {
			return posInf
		}
	}
	if t.c == 1 {
		return b
	}
	if t.c == -1 {
		return -b
	}
	if b > 1<<40 || b < -(1<<40) || t.c > 1<<20 || t.c < -(1<<20) {
		if (b > 0) == (t.c > 0) {
			return posInf
		}
		return posInf
	}
	return b * t.c
}

// assumeLe adds l <= 0.
func (z *Zone) assumeLe(l *Lin) {
	if z.bad {
		return
	}
	switch len(l.t) {
	case 0:
		if l.c > 0 {
			z.bad = true
		}
		return
	}
	if z.lb_(l) > 0 {
		z.bad = true
		return
	}
	if len(l.t) > 2 || len(l.t) == 2 && l.t[0].c+l.t[1].c != 0 {
		z.addEx(l)
	}
	// bound each term by the rest
	for i, t := range l.t {
		rest := &Lin{c: l.c}
		for j, u := range l.t {
			if j != i {
				rest.t = append(rest.t, u)
			}
		}
		lo := z.lb_(rest)
		if lo == negInf {
			continue
		}
		// t.c * v <= -lo
		if t.c > 0 {
			z.setHi(t.v, floorDiv(-lo, t.c))
		} else {
			z.setLo(t.v, -floorDiv(-lo, -t.c))
		}
	}
	// pairs +a,-a
	for i, t := range l.t {
		for j, u := range l.t {
			if i == j || t.c <= 0 || u.c != -t.c {
				continue
			}
			rest := &Lin{c: l.c}
			for k, w := range l.t {
				if k != i && k != j {
					rest.t = append(rest.t, w)
				}
			}
			lo := z.lb_(rest)
			if lo != negInf {
				z.addDiff(t.v, u.v, floorDiv(-lo, t.c))
			}
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// keep drops every id that is not in live.
func (z *Zone) keep(live map[VID]bool) {
	if len(z.ex) > 0 {
		var ex []*Lin
		for _, l := range z.ex {
			ok := true
			for _, t := range l.t {
				ok = ok && live[t.v]
			}
			if ok {
				ex = append(ex, l)
			}
		}
		z.ex = ex
	}
	for v := range z.lb {
		if !live[v] {
			delete(z.lb, v)
		}
	}
	for v := range z.ub {
		if !live[v] {
			delete(z.ub, v)
		}
	}
	for p := range z.d {
		if !live[p.x] || !live[p.y] {
			delete(z.d, p)
		}
	}
}

func sortedVIDs(m map[VID]bool) []VID {
	var r []VID
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
