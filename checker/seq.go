package main

// Lists of nodes as sequences: what a slice holds is followed as a sequence of
// parts of other lists (as they were when they were first seen) and of single
// elements, through slicing, append, copy and element assignment, in place or
// not.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type seg struct {
	base   Val // a list, from lo to hi; or
	lo, hi *Lin
	one    bool // the element base; or
	unk    bool // hi elements that are not known
}

func (g seg) n() *Lin {
	switch {
	case g.one:
		return linC(1)
	case g.unk:
		return g.hi
	}
	return g.hi.add(g.lo, -1)
}

func encSeq(l []seg) Val {
	v := Val{k: KTuple}
	for _, g := range l {
		switch {
		case g.one:
			v.elts = append(v.elts, tuple(g.base))
		case g.unk:
			v.elts = append(v.elts, tuple(vInt(g.hi), vInt(g.hi)))
		default:
			v.elts = append(v.elts, tuple(g.base, vInt(g.lo), vInt(g.hi)))
		}
	}
	return v
}

func decSeq(v Val) []seg {
	var l []seg
	for _, e := range v.elts {
		switch len(e.elts) {
		case 1:
			l = append(l, seg{one: true, base: e.elts[0]})
		case 2:
			l = append(l, seg{unk: true, hi: e.elts[0].lin})
		case 3:
			l = append(l, seg{base: e.elts[0], lo: e.elts[1].lin, hi: e.elts[2].lin})
		}
	}
	return l
}

func (s *State) eqLin(a, b *Lin) bool { return s.prove(&Cond{op: CEq, l: a.add(b, -1)}) }

// seqRoot: the list that v is a part of, and where the part begins.
func (s *State) seqRoot(v Val) (Val, *Lin) {
	off := linC(0)
	for d := 0; d < 8 && v.k == KRef; d++ {
		if _, ok := s.memoOf(v, "sq"); ok {
			break
		}
		t := s.fact(v.id).term
		if t == nil || t.op != "slice" || t.args[0].k != KRef {
			break
		}
		off = off.add(t.args[1].lin, 1)
		v = t.args[0]
	}
	return v, off
}

// seqOf is what a list holds.
func (s *State) seqOf(v Val) []seg {
	if v.k != KRef || s.nilness(v) == 1 {
		return nil
	}
	r, off := s.seqRoot(v)
	if s.nilness(r) == 1 {
		return nil
	}
	var l []seg
	if m, ok := s.memoOf(r, "sq"); ok {
		l = decSeq(m)
	} else {
		n := s.lenOf(r)
		if n == nil {
			return []seg{{unk: true, hi: linC(0)}}
		}
		l = []seg{{base: r, lo: linC(0), hi: n}}
		if n.isConst() && n.c >= 1 && n.c <= 4 {
			if e := s.literal(r, n.c); e != nil {
				l = e
			}
		}
	}
	if r.id == v.id {
		return l
	}
	n := s.lenOf(v)
	if n == nil {
		return []seg{{unk: true, hi: linC(0)}}
	}
	return s.subSeq(l, off, off.add(n, 1))
}

// literal: the elements of a list that has been written out.
func (s *State) literal(r Val, n int64) []seg {
	var l []seg
	for i := int64(0); i < n; i++ {
		c, ok := s.cells[cellKey{base: r.id, path: fmt.Sprintf("[%d]", i)}]
		if !ok || c.v.k != KRef {
			return nil
		}
		l = append(l, s.canon(c.v))
	}
	return l
}

// subSeq is the part from lo to hi.
func (s *State) subSeq(l []seg, lo, hi *Lin) []seg {
	var r []seg
	at := linC(0)
	for i, g := range l {
		n := g.n()
		end := at.add(n, 1)
		from, to := linC(0), n
		last := i == len(l)-1
		a, b := lo.add(at, -1), hi.add(at, -1)
		at = end
		if s.prove(le(n, a)) || s.prove(le(b, linC(0))) {
			continue
		}
		switch {
		case s.prove(le(a, linC(0))):
		case s.prove(le(linC(0), a)):
			from = a
		default:
			return []seg{{unk: true, hi: hi.add(lo, -1)}}
		}
		switch {
		case s.prove(le(n, b)):
		case last || s.prove(le(b, n)):
			to = b
		default:
			return []seg{{unk: true, hi: hi.add(lo, -1)}}
		}
		switch {
		case g.unk:
			r = append(r, seg{unk: true, hi: to.add(from, -1)})
		case g.one:
			r = append(r, g)
		default:
			r = append(r, seg{base: g.base, lo: g.lo.add(from, 1), hi: g.lo.add(to, 1)})
		}
	}
	return r
}

// canon: an element, as a part of a list if it was read from one.
func (s *State) canon(v Val) seg {
	for d := 0; d < 4; d++ {
		if m, ok := s.memoOf(v, "is"); ok {
			v = m
			continue
		}
		break
	}
	if m, ok := s.memoOf(v, "el"); ok {
		return seg{base: m.elts[0], lo: m.elts[1].lin, hi: m.elts[1].lin.addK(1)}
	}
	return seg{one: true, base: v}
}

// normSeq joins the parts that follow each other, and drops those that are empty.
func (s *State) normSeq(l []seg) []seg {
	var r []seg
	for _, g := range l {
		if g.one {
			g = s.canon(g.base)
		}
		if s.prove(le(g.n(), linC(0))) {
			continue
		}
		if n := len(r) - 1; n >= 0 && !g.one && !g.unk && !r[n].one && !r[n].unk && r[n].base.id == g.base.id && s.eqLin(r[n].hi, g.lo) {
			r[n].hi = g.hi
			continue
		}
		r = append(r, g)
	}
	return r
}

func (s *State) eqSeq(x, y []seg) bool {
	x, y = s.normSeq(x), s.normSeq(y)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		a, b := x[i], y[i]
		if a.unk || b.unk || a.one != b.one || a.base.k != b.base.k || a.base.id != b.base.id || a.base.path != b.base.path {
			return false
		}
		if !a.one && (!s.eqLin(a.lo, b.lo) || !s.eqLin(a.hi, b.hi)) {
			return false
		}
	}
	return true
}

func (s *State) showSeq(l []seg) string {
	r := "["
	for _, g := range s.normSeq(l) {
		switch {
		case g.unk:
			r += " ?"
		case g.one:
			r += " " + g.base.String()
		default:
			r += " " + g.base.String() + "[" + g.lo.String() + ":" + g.hi.String() + "]"
		}
	}
	return r + " ]"
}

// setSeq: the list now holds something else.
func (s *State) setSeq(root Val, l []seg) { s.setMemo(root.id, "sq", encSeq(l)) }

func isNodeList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := sl.Elem().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Graph"
}

// seqMode adds what is needed to follow lists to a mode.
func seqMode(m *Mode) *Mode {
	m.terms = true
	ap, ld, st, cp := m.appended, m.loaded, m.store, m.copied
	m.appended = func(s *State, ins ssa.Instruction, x, y Val, elems map[int64]Val, res Val) {
		if v, ok := ins.(ssa.Value); ok && isNodeList(v.Type()) {
			if x.k == 0 { // make
				if n := s.lenOf(res); n != nil {
					s.setSeq(res, []seg{{unk: true, hi: n}})
				}
			} else {
				l := append([]seg{}, s.seqOf(x)...)
				n := s.lenOf(y)
				if n != nil && n.isConst() && n.c > 0 && int64(len(elems)) == n.c {
					for i := int64(0); i < n.c; i++ {
						l = append(l, s.canon(elems[i]))
					}
				} else {
					l = append(l, s.seqOf(y)...)
				}
				// the rest of the list it was cut from may be overwritten
				if root, off := s.seqRoot(x); x.k == KRef && root.k == KRef && root.id != x.id && n != nil && !s.prove(le(n, linC(0))) {
					hi := off.add(s.lenOf(x), 1)
					rl := s.lenOf(root)
					switch {
					case rl == nil || s.eqLin(hi, rl):
					case s.prove(le(hi.add(n, 1), rl)):
						all := s.seqOf(root)
						w := append([]seg{}, s.subSeq(all, linC(0), hi)...)
						w = append(w, s.subSeq(l, s.lenOf(x), s.lenOf(x).add(n, 1))...)
						s.setSeq(root, append(w, s.subSeq(all, hi.add(n, 1), rl)...))
						s.parents(root)
					default:
						s.clobber(root, hi, rl)
					}
				}
				s.setSeq(res, l)
				if x.k == KRef && s.nilness(x) != 1 {
					s.setMemo(res.id, "par", x)
				}
			}
		}
		if ap != nil {
			ap(s, ins, x, y, elems, res)
		}
	}
	m.copied = func(s *State, ins ssa.Instruction, dst, src, n Val) {
		if c, ok := ins.(ssa.CallInstruction); ok && isNodeList(c.Common().Args[0].Type()) && dst.k == KRef {
			root, off := s.seqRoot(dst)
			if rl := s.lenOf(root); rl != nil && n.k == KInt {
				all := s.seqOf(root)
				var l []seg
				l = append(l, s.subSeq(all, linC(0), off)...)
				l = append(l, s.subSeq(s.seqOf(src), linC(0), n.lin)...)
				l = append(l, s.subSeq(all, off.add(n.lin, 1), rl)...)
				s.setSeq(root, l)
				s.parents(root)
			}
		}
		if cp != nil {
			cp(s, ins, dst, src, n)
		}
	}
	m.store = func(s *State, ins ssa.Instruction, ptr, v Val) {
		if i, ok := ins.(*ssa.Store); ok {
			if ia, ok := i.Addr.(*ssa.IndexAddr); ok && isNodeList(ia.X.Type()) {
				x, k := s.val(ia.X), s.val(ia.Index)
				if x.k == KRef && k.k == KInt {
					root, off := s.seqRoot(x)
					off = off.add(k.lin, 1)
					if rl := s.lenOf(root); rl != nil {
						all := s.seqOf(root)
						l := append([]seg{}, s.subSeq(all, linC(0), off)...)
						l = append(l, s.canon(v))
						l = append(l, s.subSeq(all, off.addK(1), rl)...)
						s.setSeq(root, l)
						s.parents(root)
					}
				}
			}
		}
		if st != nil {
			st(s, ins, ptr, v)
		}
	}
	m.loaded = func(s *State, ins ssa.Instruction, ptr, res Val) {
		if u, ok := ins.(*ssa.UnOp); ok && res.k == KRef {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && isNodeList(ia.X.Type()) {
				x, k := s.val(ia.X), s.val(ia.Index)
				if x.k == KRef && k.k == KInt {
					l := s.normSeq(s.subSeq(s.seqOf(x), k.lin, k.lin.addK(1)))
					if len(l) == 1 && !l[0].unk {
						if l[0].one {
							if l[0].base.id != res.id {
								s.setMemo(res.id, "is", l[0].base)
							}
						} else {
							s.setMemo(res.id, "el", tuple(l[0].base, vInt(l[0].lo)))
						}
					}
				}
			}
		}
		if ld != nil {
			ld(s, ins, ptr, res)
		}
	}
	return m
}

func (s *State) clobber(root Val, from, n *Lin) {
	l := append([]seg{}, s.subSeq(s.seqOf(root), linC(0), from)...)
	s.setSeq(root, append(l, seg{unk: true, hi: n.add(from, -1)}))
	s.parents(root)
}

// parents: the lists that may share memory with one that is changed in place.
func (s *State) parents(v Val) {
	for d := 0; d < 8; d++ {
		p, ok := s.memoOf(v, "par")
		if !ok {
			return
		}
		v, _ = s.seqRoot(p)
		if n := s.lenOf(v); n != nil {
			s.setSeq(v, []seg{{unk: true, hi: n}})
		}
	}
}
