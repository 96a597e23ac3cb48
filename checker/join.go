package main

// Join, widening and inclusion of states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type idPair struct{ a, b VID }

// relSet: the paths of the cells of a pair of ids.
type relSet struct {
	p     idPair
	paths []string
}

type joiner struct {
	rel   []relSet
	sums  bool // look for sums of two
	an    *An
	A, B  *State
	R     *State
	memo  map[idPair]VID
	todo  []idPair
	ints  []intPair
	imemo map[string]*Lin
	cidx  [2]map[VID][]string
	lens  []lenPair
	widen bool
}

type lenPair = [3]*Lin

type intPair struct {
	p    VID
	a, b *Lin
}

func cellIndex(s *State) map[VID][]string {
	m := map[VID][]string{}
	for k := range s.cells {
		m[k.base] = append(m[k.base], k.path)
	}
	for _, v := range m {
		sort.Strings(v)
	}
	return m
}

// join computes an upper bound of two states at the same program point. With
// widen, bounds that grew since A are dropped.
func (an *An) join(A, B *State, widen bool) *State {
	j := &joiner{an: an, A: A, B: B, widen: widen, memo: map[idPair]VID{}, imemo: map[string]*Lin{}}
	R := &State{a: an, facts: map[VID]*Fact{}, z: newZone(), cells: map[cellKey]Cell{}}
	j.R = R
	R.frames = make([]*Frame, len(A.frames))
	copy(R.frames, A.frames)
	ta, tb := A.top(), B.top()
	nf := &Frame{fn: ta.fn, site: ta.site, env: make(map[ssa.Value]Val, len(ta.env))}
	R.frames[len(R.frames)-1] = nf
	// what the callers hold is the same value in both
	low, gB := A.lowIDs(), B.globCells()
	for id := range A.globCells() {
		if !gB[id] {
			delete(low, id)
		}
	}
	for _, id := range sortedVIDs(low) {
		j.pairID(id, id)
	}
	keys := make([]ssa.Value, 0, len(ta.env))
	for k := range ta.env {
		if _, ok := tb.env[k]; ok {
			keys = append(keys, k)
		}
	}
	an.sortVals(keys)
	for _, k := range keys {
		nf.env[k] = j.pairVal(ta.env[k], tb.env[k], k.Type())
	}
	for i := range ta.defers {
		d := ta.defers[i]
		if i >= len(tb.defers) {
			break
		}
		nd := deferred{ins: d.ins, fn: j.pairVal(d.fn, tb.defers[i].fn, nil)}
		for k := range d.args {
			nd.args = append(nd.args, j.pairVal(d.args[k], tb.defers[i].args[k], nil))
		}
		nf.defers = append(nf.defers, nd)
	}
	j.cidx[0], j.cidx[1] = cellIndex(A), cellIndex(B)
	j.drain()
	if A.gh != nil {
		R.gh = A.gh.join(j, B.gh)
		j.drain()
	}
	j.pend(A, B, 0)
	j.pend(B, A, 1)
	j.drain()
	j.gaps()
	j.orInvs()
	j.drain()
	j.zone(widen)
	return R
}

// substCond maps the ids of a disjunction of inequalities.
func substCond(c *Cond, f func(VID) *Lin) (*Cond, bool) {
	switch c.op {
	case COr:
		x, ok := substCond(c.x, f)
		y, ok2 := substCond(c.y, f)
		return &Cond{op: COr, x: x, y: y}, ok && ok2
	case CLe:
		l, ok := c.l.subst(f)
		return &Cond{op: CLe, l: l}, ok
	}
	return c, false
}

// holds tells if a disjunction is known to hold.
func (s *State) holds(c *Cond) bool {
	if s.quick(c) > 0 {
		return true
	}
	for _, p := range s.pend {
		if sameLe(p.x, c.x) && sameLe(p.y, c.y) {
			return true
		}
	}
	return false
}

func sameLe(a, b *Cond) bool {
	return a != nil && b != nil && a.op == b.op && a.l != nil && b.l != nil && a.l.eq(b.l)
}

// pend keeps the disjunctions of X that hold in Y too.
func (j *joiner) pend(X, Y *State, side int) {
	for _, c := range X.pend {
		toY, toR := map[VID]VID{}, map[VID]VID{}
		for p, r := range j.memo {
			x, y := p.a, p.b
			if side == 1 {
				x, y = y, x
			}
			if o, ok := toR[x]; !ok || r < o {
				toY[x], toR[x] = y, r
			}
		}
		img := func(m map[VID]VID) func(VID) *Lin {
			return func(v VID) *Lin {
				if r, ok := m[v]; ok {
					return linV(r)
				}
				return nil
			}
		}
		// an integer of X may be paired with an expression of Y
		lin := func(forY bool) func(VID) *Lin {
			return func(v VID) *Lin {
				for _, q := range j.ints {
					a, b := q.a, q.b
					if side == 1 {
						a, b = b, a
					}
					if w, ok := a.single(); ok && w == v {
						if forY {
							return b
						}
						return linV(q.p)
					}
				}
				if forY {
					return img(toY)(v)
				}
				return img(toR)(v)
			}
		}
		cy, ok := substCond(c, lin(true))
		cr, ok2 := substCond(c, lin(false))
		if !ok || !ok2 || !Y.holds(cy) || j.R.holds(cr) {
			continue
		}
		j.R.pend = append(j.R.pend, cr)
	}
}

// gaps: a length that is small in one state and larger in the other has no
// values in between.
func (j *joiner) gaps() {
	for _, l := range j.lens {
		for side := 0; side < 2; side++ {
			x, y, X, Y := l[0], l[1], j.A, j.B
			if side == 1 {
				x, y, X, Y = y, x, Y, X
			}
			h, lo := X.z.ub_(x), Y.z.lb_(y)
			if h < 0 || h > 1 || lo < h+2 || lo > 8 {
				continue
			}
			c := &Cond{op: COr, x: &Cond{op: CLe, l: l[2].addK(-h)}, y: &Cond{op: CLe, l: l[2].mul(-1).addK(lo)}}
			if !j.R.holds(c) {
				j.R.pend = append(j.R.pend, c)
			}
		}
	}
}

// orInvs keeps the disjunctions about the fields of objects that are invariants.
func (j *joiner) orInvs() {
	inv := j.an.inv
	if inv == nil {
		return
	}
	for _, rs := range j.rel {
		p := rs.p
		r := j.memo[p]
		for _, path := range rs.paths {
			ca := j.R.cells[cellKey{r, path}]
			if ca.fld == nil {
				continue
			}
			for _, c := range inv.by[ca.fld] {
				if c.dead || c.kind != "or" || c.f != ca.fld {
					continue
				}
				pre := path[:len(path)-len(c.f.Name())]
				k1, k2 := pre+c.f.Name(), pre+c.g.Name()
				get := func(s *State, id VID) (*Cond, bool) {
					x, ok := s.cells[cellKey{id, k1}]
					y, ok2 := s.cells[cellKey{id, k2}]
					if !ok || !ok2 {
						return nil, false
					}
					c := inv.rel(s, c, x.v, y.v)
					return c, c != nil
				}
				a, ok := get(j.A, p.a)
				b, ok2 := get(j.B, p.b)
				cr, ok3 := get(j.R, r)
				if !ok || !ok2 || !ok3 || !j.A.holds(a) || !j.B.holds(b) || j.R.holds(cr) {
					continue
				}
				j.R.pend = append(j.R.pend, cr)
			}
		}
	}
}

// drain pairs the cells and facts of the ids paired so far.
func (j *joiner) drain() {
	for len(j.todo) > 0 {
		p := j.todo[0]
		j.todo = j.todo[1:]
		r := j.memo[p]
		j.joinFact(p.a, p.b, r)
		paths := map[string]bool{}
		for _, x := range j.cidx[0][p.a] {
			paths[x] = true
		}
		for _, x := range j.cidx[1][p.b] {
			paths[x] = true
		}
		var ps []string
		for x := range paths {
			ps = append(ps, x)
		}
		if inv := j.an.inv; inv != nil {
			// fields that are related
			for _, x := range ps {
				fld := j.A.cells[cellKey{p.a, x}].fld
				if fld == nil {
					fld = j.B.cells[cellKey{p.b, x}].fld
				}
				for _, c := range inv.by[fld] {
					if fld == nil || c.dead || c.g == nil {
						continue
					}
					pre := x[:len(x)-len(fld.Name())]
					for _, g := range []*types.Var{c.f, c.g} {
						if y := pre + g.Name(); !paths[y] {
							paths[y] = true
							ps = append(ps, y)
							j.A.materialize(p.a, y, Cell{fld: g, et: g.Type()})
						}
					}
				}
			}
			j.rel = append(j.rel, relSet{p, ps})
		}
		sort.Strings(ps)
		for _, x := range ps {
			ca, oka := j.A.cells[cellKey{p.a, x}]
			cb, okb := j.B.cells[cellKey{p.b, x}]
			if ix := ca.ix; ix != nil || cb.ix != nil {
				// only if the index is the same value in both
				if !oka || !okb || !j.common(ix) {
					continue
				}
				j.same(ix)
			}
			if oka && okb {
				if (ca.fld == nil) != (cb.fld == nil) {
					continue
				}
			} else if oka {
				v, ok := j.B.materialize(p.b, x, ca)
				if !ok {
					continue
				}
				cb = Cell{v: v, fld: ca.fld, et: ca.et}
			} else {
				v, ok := j.A.materialize(p.a, x, cb)
				if !ok {
					continue
				}
				ca = Cell{v: v, fld: cb.fld, et: cb.et}
			}
			fld := ca.fld
			if fld == nil {
				fld = cb.fld
			}
			j.R.cells[cellKey{r, x}] = Cell{v: j.pairVal(ca.v, cb.v, ca.et), fld: fld, et: ca.et, ix: ca.ix}
		}
	}
}

// lowIDs are the ids that the callers of the function of the top frame hold.
func (s *State) lowIDs() map[VID]bool {
	m := map[VID]bool{}
	for _, f := range s.frames[:len(s.frames)-1] {
		for _, v := range f.env {
			s.markVal(v, m)
		}
		for _, d := range f.defers {
			s.markVal(d.fn, m)
			for _, v := range d.args {
				s.markVal(v, m)
			}
		}
	}
	m[nilID] = true
	for id := range s.globCells() {
		m[id] = true
	}
	return m
}

// globCells are the ids of the package variables whose content is known.
func (s *State) globCells() map[VID]bool {
	m := map[VID]bool{}
	for _, id := range s.a.globs {
		if _, ok := s.cells[cellKey{id, ""}]; ok {
			m[id] = true
		}
	}
	return m
}

func (j *joiner) pairID(a, b VID) VID {
	if r, ok := j.memo[idPair{a, b}]; ok {
		return r
	}
	var r VID
	if a == b {
		r = a
	} else {
		r = j.an.newID()
	}
	j.memo[idPair{a, b}] = r
	j.todo = append(j.todo, idPair{a, b})
	return r
}

func (j *joiner) common(l *Lin) bool {
	for _, t := range l.t {
		if _, ok := j.A.facts[t.v]; !ok {
			return false
		}
		if _, ok := j.B.facts[t.v]; !ok {
			return false
		}
	}
	return true
}

// variant: when widening, an id of l changes in the loop.
func (j *joiner) variant(l *Lin) bool {
	if !j.widen {
		return false
	}
	for _, t := range l.t {
		for _, q := range j.ints {
			if v, ok := q.a.single(); ok && v == t.v && q.p != v {
				return true
			}
		}
	}
	return false
}

// same: the ids of l are the same values in both states.
func (j *joiner) same(l *Lin) {
	for _, t := range l.t {
		j.pairID(t.v, t.v)
	}
}

func (j *joiner) pairLin(a, b *Lin, t types.Type) *Lin {
	if j.sums && a.isConst() && a.eq(b) {
		for i, q := range j.ints {
			for _, q2 := range j.ints[i+1:] {
				da, db := a.add(q.a, -1).add(q2.a, -1), b.add(q.b, -1).add(q2.b, -1)
				if da.isConst() && da.eq(db) {
					return da.add(linV(q.p), 1).add(linV(q2.p), 1)
				}
			}
		}
	}
	if a.eq(b) && j.common(a) {
		j.same(a)
		return a
	}
	key := a.String() + "|" + b.String()
	if r, ok := j.imemo[key]; ok {
		return r
	}
	for _, q := range j.ints {
		da, db := a.add(q.a, -1), b.add(q.b, -1)
		if da.eq(db) && j.common(da) && !j.variant(da) {
			j.same(da)
			r := da.add(linV(q.p), 1)
			j.imemo[key] = r
			return r
		}
	}
	if j.sums {
		for _, q := range j.ints {
			da, db := a.add(q.a, 1), b.add(q.b, 1)
			if da.eq(db) && j.common(da) && !j.variant(da) {
				j.same(da)
				r := da.add(linV(q.p), -1)
				j.imemo[key] = r
				return r
			}
		}
	}
	if len(a.t)+len(b.t) > 2 || j.sums {
		for i, q := range j.ints {
			for _, q2 := range j.ints[i:] {
				da, db := a.add(q.a, -1).add(q2.a, -1), b.add(q.b, -1).add(q2.b, -1)
				if da.eq(db) && j.common(da) && !j.variant(da) {
					j.same(da)
					r := da.add(linV(q.p), 1).add(linV(q2.p), 1)
					j.imemo[key] = r
					return r
				}
			}
		}
	}
	va, oka := a.single()
	vb, okb := b.single()
	var p VID
	if oka && okb {
		p = j.pairID(va, vb)
	} else {
		p = j.an.newID()
		f := &Fact{typ: t}
		if j.A.linFull(a) || j.B.linFull(b) {
			f.full = true
		}
		// byte sets
		for _, k := range []int64{0, -1} {
			if j.A.quick(&Cond{op: CEq, l: a.addK(-k)}) < 0 && j.B.quick(&Cond{op: CEq, l: b.addK(-k)}) < 0 {
				f.ne = append(f.ne, k)
			}
		}
		sa, sb := j.A.linBytes(a), j.B.linBytes(b)
		if sa != nil && sb != nil {
			u := sa.or(sb)
			f.bs = &u
		}
		j.R.facts[p] = f
	}
	j.ints = append(j.ints, intPair{p, a, b})
	r := linV(p)
	j.imemo[key] = r
	return r
}

// pairPlain: as one variable.
func (j *joiner) pairPlain(a, b *Lin) *Lin {
	if a.eq(b) && j.common(a) {
		j.same(a)
		return a
	}
	if r, ok := j.imemo[a.String()+"|"+b.String()]; ok && len(r.t) == 1 {
		return r
	}
	p := j.an.newID()
	j.R.facts[p] = &Fact{}
	j.ints = append(j.ints, intPair{p, a, b})
	return linV(p)
}

func (s *State) linFull(l *Lin) bool {
	for _, t := range l.t {
		if s.fact(t.v).full {
			return true
		}
	}
	return false
}

func (s *State) linBytes(l *Lin) *bset {
	if l.isConst() {
		if l.c >= 0 && l.c < 256 {
			var b bset
			b.add(int(l.c))
			return &b
		}
		return nil
	}
	if v, ok := l.single(); ok {
		return s.fact(v).bs
	}
	return nil
}

func (j *joiner) pairCond(a, b *Cond) *Cond {
	if a == b {
		if j.commonCond(a) {
			m := map[VID]bool{}
			condIDs(a, m)
			for _, v := range sortedVIDs(m) {
				j.pairID(v, v)
			}
			return a
		}
	}
	if a.op == b.op {
		switch a.op {
		case CConst:
			if a.b == b.b {
				return a
			}
		case CNot:
			return j.pairCond(a.x, b.x).not()
		case CVar:
			return &Cond{op: CVar, id: j.pairID(a.id, b.id)}
		case CLe, CEq:
			return &Cond{op: a.op, l: j.pairLin(a.l, b.l, nil)}
		case CNil:
			return &Cond{op: CNil, id: j.pairID(a.id, b.id)}
		case CStrEq:
			if a.s == b.s {
				return &Cond{op: CStrEq, s: a.s, id: j.pairID(a.id, b.id)}
			}
		case CType:
			if types.Identical(a.t, b.t) {
				return &Cond{op: CType, t: a.t, id: j.pairID(a.id, b.id)}
			}
		case CStrEq2, CRefEq:
			return &Cond{op: a.op, id: j.pairID(a.id, b.id), id2: j.pairID(a.id2, b.id2)}
		case COr, CAnd:
			return &Cond{op: a.op, x: j.pairCond(a.x, b.x), y: j.pairCond(a.y, b.y)}
		}
	}
	p := j.an.newID()
	f := &Fact{typ: types.Typ[types.Bool]}
	da, db := j.A.quick(a), j.B.quick(b)
	if da == db && da != 0 {
		return condB(da > 0)
	}
	j.R.facts[p] = f
	return &Cond{op: CVar, id: p}
}

func (j *joiner) commonCond(c *Cond) bool {
	m := map[VID]bool{}
	condIDs(c, m)
	for v := range m {
		if j.A.facts[v] == nil || j.B.facts[v] == nil {
			return false
		}
	}
	return true
}

func condIDs(c *Cond, m map[VID]bool) {
	if c == nil {
		return
	}
	if c.id != 0 {
		m[c.id] = true
	}
	if c.id2 != 0 {
		m[c.id2] = true
	}
	if c.l != nil {
		for _, t := range c.l.t {
			m[t.v] = true
		}
	}
	condIDs(c.x, m)
	condIDs(c.y, m)
}

func (j *joiner) pairVal(a, b Val, t types.Type) Val {
	if a.k == b.k {
		switch a.k {
		case KInt:
			return vInt(j.pairLin(a.lin, b.lin, t))
		case KBool:
			return vBool(j.pairCond(a.cond, b.cond))
		case KRef:
			return vRef(j.pairID(a.id, b.id))
		case KPtr:
			if a.path == b.path && (a.ix == nil || b.ix != nil && j.common(a.ix)) {
				if a.ix != nil {
					j.same(a.ix)
				}
				return Val{k: KPtr, id: j.pairID(a.id, b.id), path: a.path, fld: a.fld, ix: a.ix}
			}
			if a, b := a.star(), b.star(); a.path == b.path {
				return Val{k: KPtr, id: j.pairID(a.id, b.id), path: a.path, fld: a.fld}
			}
		case KTuple, KStruct:
			if len(a.elts) == len(b.elts) {
				v := Val{k: a.k}
				for i := range a.elts {
					v.elts = append(v.elts, j.pairVal(a.elts[i], b.elts[i], nil))
				}
				return v
			}
		}
	}
	// different shapes: unknown, but keep nilness
	if inv := j.an.inv; inv != nil {
		inv.lose(j.A, a)
		inv.lose(j.B, b)
	}
	if t == nil {
		t = types.Typ[types.Int]
		if a.k == KRef || a.k == KPtr {
			na, nb := j.A.nilness(a), j.B.nilness(b)
			id := j.an.newID()
			f := &Fact{}
			if na == nb {
				f.nl = na
			}
			j.R.facts[id] = f
			return vRef(id)
		}
	}
	v := j.R.fresh(t)
	if v.k == KRef && (a.k == KRef || a.k == KPtr) && (b.k == KRef || b.k == KPtr) {
		if na, nb := j.A.nilness(a), j.B.nilness(b); na == nb && na != 0 {
			j.R.upd(v.id, func(f *Fact) { f.nl = na })
		}
	}
	return v
}

func sameMemo(m, n tmemo) bool {
	return m.n == n.n && (m.t == nil && n.t == nil || m.t != nil && n.t != nil && types.Identical(m.t, n.t))
}

func identOrNil(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return types.Identical(a, b)
}

func (j *joiner) joinFact(a, b, r VID) {
	if a == b && j.A.facts[a] == j.B.facts[b] {
		f := j.A.facts[a]
		if f == nil {
			return
		}
		if f.len == nil && f.pay == nil && len(f.memo) == 0 && len(f.binds) == 0 && f.term == nil {
			j.R.facts[r] = f
			return
		}
	}
	fa, fb := j.A.fact(a), j.B.fact(b)
	f := &Fact{typ: fa.typ}
	if fa.typ == nil {
		f.typ = fb.typ
	}
	if fa.nl == fb.nl {
		f.nl = fa.nl
	}
	if fa.str != nil && fb.str != nil && *fa.str == *fb.str {
		f.str = fa.str
	}
	has := func(g *Fact, n string) bool {
		if g.str != nil && *g.str != n {
			return true
		}
		for _, x := range g.notStr {
			if x == n {
				return true
			}
		}
		return false
	}
	for _, n := range fa.notStr {
		if has(fb, n) {
			f.notStr = append(f.notStr, n)
		}
	}
	if fa.str != nil {
		for _, n := range fb.notStr {
			if has(fa, n) && !has(f, n) {
				f.notStr = append(f.notStr, n)
			}
		}
	}
	if fa.len != nil && fb.len != nil {
		f.len = j.pairLin(fa.len, fb.len, nil)
		j.lens = append(j.lens, [3]*Lin{fa.len, fb.len, f.len})
	}
	f.enn = (fa.enn || fa.nl == 1) && (fb.enn || fb.nl == 1)
	if fa.dyn != nil && fb.dyn != nil && types.Identical(fa.dyn, fb.dyn) {
		f.dyn = fa.dyn
		if fa.pay != nil && fb.pay != nil {
			v := j.pairVal(*fa.pay, *fb.pay, f.dyn)
			f.pay = &v
		}
	}
	not := func(g *Fact, t types.Type) bool {
		if g.nl == 1 || (g.dyn != nil && !types.Identical(g.dyn, t)) {
			return true
		}
		for _, x := range g.notDyn {
			if types.Identical(x, t) {
				return true
			}
		}
		return false
	}
	if f.dyn == nil {
		for _, t := range fa.notDyn {
			if not(fb, t) {
				f.notDyn = append(f.notDyn, t)
			}
		}
		for _, t := range fb.notDyn {
			if not(fa, t) && !not(f, t) {
				f.notDyn = append(f.notDyn, t)
			}
		}
	}
	for _, m := range fa.memo {
		for _, n := range fb.memo {
			if sameMemo(m, n) && m.v.k == n.v.k {
				f.memo = append(f.memo, tmemo{m.t, m.n, j.pairVal(m.v, n.v, m.t)})
			}
		}
	}
	if fa.bs != nil && fb.bs != nil {
		u := fa.bs.or(fb.bs)
		f.bs = &u
	}
	for _, k := range fa.ne {
		if j.B.neConst(b, k) {
			f.ne = append(f.ne, k)
		}
	}
	for _, k := range fb.ne {
		if j.A.neConst(a, k) && !hasInt(f.ne, k) {
			f.ne = append(f.ne, k)
		}
	}
	f.fresh = fa.fresh && fb.fresh
	f.full = fa.full || fb.full
	if fa.b == fb.b {
		f.b = fa.b
	}
	if fa.fn == fb.fn && len(fa.binds) == len(fb.binds) {
		f.fn = fa.fn
		for i := range fa.binds {
			f.binds = append(f.binds, j.pairVal(fa.binds[i], fb.binds[i], nil))
		}
	}
	if fa.term != nil && fb.term != nil && fa.term.op == fb.term.op && len(fa.term.args) == len(fb.term.args) {
		t := &Term{op: fa.term.op}
		for i := range fa.term.args {
			t.args = append(t.args, j.pairVal(fa.term.args[i], fb.term.args[i], nil))
		}
		f.term = t
	}
	if fa.org == fb.org {
		f.org = fa.org
	}
	j.R.facts[r] = f
}

var thresholds = []int64{-1, 0, 1, 2, 255, 256, 4095, 4096}

func widenUp(v int64) int64 {
	for _, t := range thresholds {
		if v <= t {
			return t
		}
	}
	return posInf
}

// zone builds the numeric part of the join.
func (j *joiner) zone(widen bool) {
	type ent struct {
		p    VID
		a, b *Lin
	}
	var es []ent
	seen := map[VID]bool{}
	for _, q := range j.ints {
		if !seen[q.p] {
			seen[q.p] = true
			es = append(es, ent{q.p, q.a, q.b})
		}
	}
	num := map[VID]bool{}
	mark := func(z *Zone) {
		for v := range z.lb {
			num[v] = true
		}
		for v := range z.ub {
			num[v] = true
		}
		for p := range z.d {
			num[p.x] = true
			num[p.y] = true
		}
	}
	mark(j.A.z)
	mark(j.B.z)
	for pr, r := range j.memo {
		if seen[r] {
			continue
		}
		if num[pr.a] && num[pr.b] || pr.a == pr.b && num[pr.a] {
			seen[r] = true
			es = append(es, ent{r, linV(pr.a), linV(pr.b)})
		}
	}
	sort.Slice(es, func(i, k int) bool { return es[i].p < es[k].p })
	R := j.R.z
	up := widenUp
	if j.an.hard {
		up = func(int64) int64 { return posInf }
	}
	for _, l := range j.A.z.ex {
		ok := !widen
		for _, t := range l.t {
			if r, has := j.memo[idPair{t.v, t.v}]; !has || r != t.v {
				ok = false
			}
		}
		if ok && j.B.z.ub_(l) <= 0 {
			R.addEx(l)
		}
	}
	isNew := func(e ent) bool {
		va, ok := e.a.single()
		return !ok || va != e.p
	}
	for _, e := range es {
		ha, hb := j.A.z.ub_(e.a), j.B.z.ub_(e.b)
		h := ha
		if hb > h {
			h = hb
			if widen {
				h = up(h)
			}
		}
		if h != posInf {
			R.ub[e.p] = h
		}
		la, lb := j.A.z.lb_(e.a), j.B.z.lb_(e.b)
		l := la
		if lb < l {
			l = lb
			if widen && l != negInf {
				if w := up(-l); w == posInf {
					l = negInf
				} else {
					l = -w
				}
			}
		}
		if l != negInf {
			R.lb[e.p] = l
		}
	}
	related := func(z *Zone, x, y VID) bool {
		_, ok := z.d[vpair{x, y}]
		return ok
	}
	for i, e := range es {
		for k, g := range es {
			if i == k {
				continue
			}
			var da, db int64
			if !isNew(e) && !isNew(g) {
				if !related(j.A.z, e.p, g.p) || !related(j.B.z, e.p, g.p) {
					// at least one side has it through bounds only
					if !related(j.A.z, e.p, g.p) && !related(j.B.z, e.p, g.p) {
						continue
					}
				}
				da, db = j.A.z.diff(e.p, g.p), j.B.z.diff(e.p, g.p)
			} else {
				da = j.A.z.ub_(e.a.add(g.a, -1))
				if da == posInf {
					continue
				}
				if va, ok := e.a.single(); ok && j.an.hard {
					if vb, ok := g.a.single(); ok && !related(j.A.z, va, vb) {
						continue
					}
				}
				db = j.B.z.ub_(e.b.add(g.b, -1))
			}
			if da == posInf || db == posInf {
				continue
			}
			d := da
			if db > d {
				d = db
				if widen {
					d = up(d)
				}
			}
			if d == posInf {
				continue
			}
			// only what the bounds do not say already
			if h, ok := R.ub[e.p]; ok {
				if l, ok := R.lb[g.p]; ok && h-l <= d {
					continue
				}
			}
			R.d[vpair{e.p, g.p}] = d
		}
	}
}

// ---- inclusion: every state of N is a state of A

type includer struct {
	N, A *State
	ints map[VID]*Lin
	refs map[VID]VID
	todo []idPair // (A id, N id)
	lost []Val    // of N
	fail string
}

func (an *An) leq(N, A *State) bool {
	c := &includer{N: N, A: A, ints: map[VID]*Lin{}, refs: map[VID]VID{}}
	tn, ta := N.top(), A.top()
	for id := range A.lowIDs() {
		c.ref(id, id)
	}
	for k, va := range ta.env {
		vn, ok := tn.env[k]
		if !ok {
			return false
		}
		if !c.val(va, vn) {
			return false
		}
	}
	if len(ta.defers) != len(tn.defers) {
		return false
	}
	for i := range ta.defers {
		if !c.val(ta.defers[i].fn, tn.defers[i].fn) {
			return false
		}
		for k := range ta.defers[i].args {
			if !c.val(ta.defers[i].args[k], tn.defers[i].args[k]) {
				return false
			}
		}
	}
	if A.gh != nil && !A.gh.leq(c, N.gh) {
		return false
	}
	idx := cellIndex(A)
	for len(c.todo) > 0 {
		p := c.todo[0]
		c.todo = c.todo[1:]
		if !c.facts(p.a, p.b) {
			return false
		}
		for _, x := range idx[p.a] {
			ca := A.cells[cellKey{p.a, x}]
			cn, ok := N.cells[cellKey{p.b, x}]
			if ca.ix != nil {
				if !ok {
					return false
				}
				for _, t := range ca.ix.t {
					if !c.ref(t.v, t.v) {
						return false
					}
				}
			}
			if !ok {
				v, ok := N.materialize(p.b, x, ca)
				if !ok {
					return false
				}
				cn = Cell{v: v}
			}
			if !c.val(ca.v, cn.v) {
				return false
			}
		}
	}
	for _, p := range A.pend {
		q, ok := substCond(p, func(v VID) *Lin {
			if l := c.ints[v]; l != nil {
				return l
			}
			if r, ok := c.refs[v]; ok {
				return linV(r)
			}
			return nil
		})
		if ok && !N.holds(q) {
			return false
		}
	}
	// an id can be both a reference and a number
	num := func(v VID) *Lin {
		if l := c.ints[v]; l != nil {
			return l
		}
		if r, ok := c.refs[v]; ok {
			return linV(r)
		}
		return nil
	}
	for _, l := range A.z.ex {
		if q, ok := l.subst(num); !ok || N.z.ub_(q) > 0 {
			return false
		}
	}
	for v, h := range A.z.ub {
		if l := num(v); l != nil && N.z.ub_(l) > h {
			return false
		}
	}
	for v, h := range A.z.lb {
		if l := num(v); l != nil && N.z.lb_(l) < h {
			return false
		}
	}
	for p, k := range A.z.d {
		lx, ly := num(p.x), num(p.y)
		if lx != nil && ly != nil && N.z.ub_(lx.add(ly, -1)) > k {
			return false
		}
	}
	if inv := an.inv; inv != nil {
		// what A does not name it takes to satisfy the invariants
		nx := cellIndex(N)
		for a, n := range c.refs {
			for _, x := range nx[n] {
				cn := N.cells[cellKey{n, x}]
				if cn.fld == nil || len(inv.by[cn.fld]) == 0 {
					continue
				}
				if _, ok := A.cells[cellKey{a, x}]; !ok && !inv.okCell(N, cellKey{n, x}, cn) {
					return false
				}
			}
		}
		for _, v := range c.lost {
			inv.lose(N, v)
		}
	}
	return true
}

func hasInt(l []int64, k int64) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// neConst: the integer id is not k.
func (s *State) neConst(id VID, k int64) bool {
	f := s.fact(id)
	return hasInt(f.ne, k) || s.z.lo(id) > k || s.z.hi(id) < k || f.bs != nil && !f.bs.has(int(k))
}

func (c *includer) ref(a, n VID) bool {
	if o, ok := c.refs[a]; ok {
		return o == n
	}
	c.refs[a] = n
	c.todo = append(c.todo, idPair{a, n})
	return true
}

func (c *includer) lin(a, n *Lin) bool {
	if a.isConst() {
		return n.eq(a) || n.add(a, -1).isConst() && n.add(a, -1).c == 0
	}
	// one unmapped id with coefficient 1 takes what is left
	var free *term
	rest := n.addK(-a.c)
	for i := range a.t {
		t := a.t[i]
		if l := c.ints[t.v]; l != nil {
			rest = rest.add(l, -t.c)
			continue
		}
		if r, ok := c.refs[t.v]; ok {
			rest = rest.add(linV(r), -t.c)
			continue
		}
		if _, ok := c.N.facts[t.v]; ok && len(a.t) > 1 {
			// the same id on both sides
			c.ints[t.v] = linV(t.v)
			c.todo = append(c.todo, idPair{t.v, t.v})
			c.refs[t.v] = t.v
			rest = rest.add(linV(t.v), -t.c)
			continue
		}
		if free != nil {
			return false
		}
		free = &a.t[i]
	}
	if free == nil {
		if rest.isConst() && rest.c == 0 {
			return true
		}
		return c.N.z.ub_(rest) == 0 && c.N.z.lb_(rest) == 0
	}
	if free.c == -1 {
		rest = rest.mul(-1)
	} else if free.c != 1 {
		return false
	}
	c.ints[free.v] = rest
	if v, ok := rest.single(); ok {
		c.refs[free.v] = v
		c.todo = append(c.todo, idPair{free.v, v})
	} else {
		// facts of the id must hold for the expression
		f := c.A.fact(free.v)
		for _, k := range f.ne {
			if c.N.quick(&Cond{op: CEq, l: rest.addK(-k)}) >= 0 {
				return false
			}
		}
		if f.bs != nil {
			b := c.N.linBytes(rest)
			if b == nil || !b.subset(f.bs) {
				return false
			}
		}
		if !f.full && c.N.linFull(rest) {
			return false
		}
	}
	return true
}

func (c *includer) cond(a, n *Cond) bool {
	if a.op == CVar {
		if n.op == CVar {
			return c.ref(a.id, n.id)
		}
		// an unknown boolean includes any
		if c.A.fact(a.id).b == 0 {
			if _, ok := c.refs[a.id]; ok {
				return false
			}
			c.refs[a.id] = -1
			return true
		}
		return false
	}
	if a.op == CConst {
		if a.b {
			return c.N.quick(n) > 0
		}
		return c.N.quick(n) < 0
	}
	if a.op != n.op {
		return false
	}
	switch a.op {
	case CConst:
		return a.b == n.b
	case CNot:
		return c.cond(a.x, n.x)
	case CLe, CEq:
		return c.lin(a.l, n.l)
	case CNil:
		return c.ref(a.id, n.id)
	case CStrEq:
		return a.s == n.s && c.ref(a.id, n.id)
	case CType:
		return types.Identical(a.t, n.t) && c.ref(a.id, n.id)
	case CStrEq2, CRefEq:
		return c.ref(a.id, n.id) && c.ref(a.id2, n.id2)
	case CIn:
		return a.set == n.set && c.ref(a.id, n.id)
	case CAnd, COr:
		return c.cond(a.x, n.x) && c.cond(a.y, n.y)
	}
	return false
}

func (c *includer) val(a, n Val) bool {
	if a.k != n.k {
		if a.k == KRef && n.k == KPtr {
			f := c.A.fact(a.id)
			if f.dyn == nil && f.len == nil && f.pay == nil && f.fn == nil && f.nl != 1 {
				c.lost = append(c.lost, n)
				return true
			}
			return false
		}
		return false
	}
	switch a.k {
	case KInt:
		return c.lin(a.lin, n.lin)
	case KBool:
		return c.cond(a.cond, n.cond)
	case KRef:
		return c.ref(a.id, n.id)
	case KPtr:
		if a.path != n.path {
			n = n.star()
		}
		if a.ix != nil && n.ix != nil {
			for _, t := range a.ix.t {
				if !c.ref(t.v, t.v) {
					return false
				}
			}
		}
		return a.path == n.path && c.ref(a.id, n.id)
	}
	if len(a.elts) != len(n.elts) {
		return false
	}
	for i := range a.elts {
		if !c.val(a.elts[i], n.elts[i]) {
			return false
		}
	}
	return true
}

func (c *includer) facts(a, n VID) bool {
	if n == -1 {
		return true
	}
	fa, fn := c.A.fact(a), c.N.fact(n)
	if fa == fn && a == n {
		if fa.len == nil && fa.pay == nil && len(fa.memo) == 0 && len(fa.binds) == 0 && fa.term == nil {
			return true
		}
	}
	if fa.nl != 0 && fa.nl != fn.nl {
		return false
	}
	if fa.str != nil && (fn.str == nil || *fn.str != *fa.str) {
		return false
	}
	for _, s := range fa.notStr {
		ok := fn.str != nil && *fn.str != s
		for _, t := range fn.notStr {
			if s == t {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if fa.len != nil {
		if fn.len == nil || !c.lin(fa.len, fn.len) {
			return false
		}
	}
	if fa.enn && !(fn.enn || fn.nl == 1) {
		return false
	}
	if fa.dyn != nil {
		if fn.dyn == nil || !types.Identical(fa.dyn, fn.dyn) {
			return false
		}
		if fa.pay != nil && (fn.pay == nil || !c.val(*fa.pay, *fn.pay)) {
			return false
		}
	}
	for _, t := range fa.notDyn {
		ok := fn.nl == 1 || (fn.dyn != nil && !types.Identical(fn.dyn, t))
		for _, u := range fn.notDyn {
			if types.Identical(t, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	for _, m := range fa.memo {
		ok := false
		for _, x := range fn.memo {
			if sameMemo(m, x) {
				ok = c.val(m.v, x.v)
			}
		}
		if !ok {
			return false
		}
	}
	if fa.bs != nil && (fn.bs == nil || !fn.bs.subset(fa.bs)) {
		return false
	}
	for _, k := range fa.ne {
		if !c.N.neConst(n, k) {
			return false
		}
	}
	if fa.fresh && !fn.fresh || !fa.full && fn.full {
		return false
	}
	if fa.b != 0 && fa.b != fn.b {
		return false
	}
	if fa.fn != nil {
		if fa.fn != fn.fn || len(fa.binds) != len(fn.binds) {
			return false
		}
		for i := range fa.binds {
			if !c.val(fa.binds[i], fn.binds[i]) {
				return false
			}
		}
	}
	if fa.term != nil {
		if fn.term == nil || fa.term.op != fn.term.op || len(fa.term.args) != len(fn.term.args) {
			return false
		}
		for i := range fa.term.args {
			if !c.val(fa.term.args[i], fn.term.args[i]) {
				return false
			}
		}
	}
	if fa.org != "" && fa.org != fn.org {
		return false
	}
	return true
}

// quick decides a condition from constants, flags and bounds only.
func (s *State) quick(c *Cond) int {
	switch c.op {
	case CConst:
		if c.b {
			return 1
		}
		return -1
	case CVar:
		switch s.fact(c.id).b {
		case 1:
			return -1
		case 2:
			return 1
		}
	case CNot:
		return -s.quick(c.x)
	case CLe:
		if s.z.ub_(c.l) <= 0 {
			return 1
		}
		if s.z.lb_(c.l) > 0 {
			return -1
		}
	case CEq:
		if s.z.lb_(c.l) > 0 || s.z.ub_(c.l) < 0 {
			return -1
		}
		if s.z.lb_(c.l) == 0 && s.z.ub_(c.l) == 0 {
			return 1
		}
		if b := s.linBytes(c.l); b != nil {
			if !b.has(0) {
				return -1
			}
		}
		if len(c.l.t) == 1 && (c.l.t[0].c == 1 || c.l.t[0].c == -1) {
			if hasInt(s.fact(c.l.t[0].v).ne, -c.l.c*c.l.t[0].c) {
				return -1
			}
		}
		if len(c.l.t) == 1 && c.l.t[0].c == 1 {
			if b := s.fact(c.l.t[0].v).bs; b != nil && !b.has(int(-c.l.c)) {
				return -1
			}
		}
	case CNil:
		switch s.fact(c.id).nl {
		case 1:
			return 1
		case 2:
			return -1
		}
	case CStrEq:
		f := s.fact(c.id)
		if f.str != nil {
			if *f.str == c.s {
				return 1
			}
			return -1
		}
		for _, n := range f.notStr {
			if n == c.s {
				return -1
			}
		}
		if f.len != nil && s.quick(&Cond{op: CEq, l: f.len.addK(-int64(len(c.s)))}) < 0 {
			return -1
		}
	case CType:
		f := s.fact(c.id)
		if f.nl == 1 {
			return -1
		}
		if f.dyn != nil {
			if types.Identical(f.dyn, c.t) {
				return 1
			}
			return -1
		}
		for _, n := range f.notDyn {
			if types.Identical(n, c.t) {
				return -1
			}
		}
	case CAnd:
		x, y := s.quick(c.x), s.quick(c.y)
		if x < 0 || y < 0 {
			return -1
		}
		if x > 0 && y > 0 {
			return 1
		}
	case COr:
		x, y := s.quick(c.x), s.quick(c.y)
		if x > 0 || y > 0 {
			return 1
		}
		if x < 0 && y < 0 {
			return -1
		}
	}
	return 0
}

// key partitions states: booleans, nilness and dynamic types of live values.
func (s *State) key(ints bool) string {
	var sb strings.Builder
	t := s.top()
	ks := make([]ssa.Value, 0, len(t.env))
	for k := range t.env {
		ks = append(ks, k)
	}
	s.a.sortVals(ks)
	var one func(v Val)
	one = func(v Val) {
		switch v.k {
		case KBool:
			switch s.quick(v.cond) {
			case 1:
				sb.WriteByte('T')
			case -1:
				sb.WriteByte('F')
			default:
				sb.WriteByte('?')
			}
		case KRef:
			f := s.fact(v.id)
			sb.WriteByte('0' + byte(f.nl))
			if f.str != nil && len(*f.str) < 12 && ints {
				sb.WriteByte('"')
				sb.WriteString(*f.str)
				sb.WriteByte('"')
			}
			if f.dyn != nil && ints {
				sb.WriteString(f.dyn.String())
			}
		case KInt:
			if ints {
				if v.lin.isConst() {
					fmt.Fprintf(&sb, "c%d", v.lin.c)
				} else if s.z.lb_(v.lin) > 0 {
					sb.WriteByte('+')
				} else {
					sb.WriteByte('i')
				}
			}
		case KTuple, KStruct:
			for _, e := range v.elts {
				one(e)
			}
		}
	}
	for _, k := range ks {
		one(t.env[k])
		sb.WriteByte(',')
	}
	fmt.Fprintf(&sb, "|d%d", len(t.defers))
	if s.gh != nil {
		sb.WriteString(s.gh.key(s))
	}
	return sb.String()
}
