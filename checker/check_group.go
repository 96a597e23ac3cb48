package main

// C17, the grouping: each operator of the level at hand takes the elements at
// its left and right as its operands, from left to right.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isGraphT(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Graph"
}

// outOf is a pointer to the list of a node.
func (p *Prog) outOf(v Val) Val {
	o := p.root.Scope().Lookup("Graph")
	st := structOf(o.Type())
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "Out" {
			return Val{k: KPtr, id: v.id, path: "." + f.Name(), fld: f}
		}
	}
	return Val{}
}

func (p *Prog) loadOut(s *State, v Val) Val {
	o := p.outOf(v)
	return s.load(o, o.fld.Type())
}

// without loops: can be analysed as a part of its caller, on each of its paths.
func (p *Prog) plain(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f.Blocks == nil || seen[f] || len(p.fi(f).loops) > 0 {
		return false
	}
	return true
}

func (p *Prog) plainTo(f, g *ssa.Function, d int) bool {
	if f == g {
		return true
	}
	if d == 0 || !p.isFn[f] || !p.plain(f, nil) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && h != f && p.plainTo(h, g, d-1) {
					return true
				}
			}
		}
	}
	return false
}

// textOf: a function that gives the text of a node, or of its content.
func textOf(p *Prog, f *ssa.Function) bool {
	if f == nil || !p.isFn[f] || f.Signature.Results().Len() == 0 || f.Signature.Results().At(0).Type().String() != "string" {
		return false
	}
	if f.Signature.Recv() != nil {
		return isGraphT(f.Signature.Recv().Type()) && (f.Signature.Params().Len() == 0 || f.Signature.Variadic())
	}
	if f.Signature.Params().Len() != 1 {
		return false
	}
	t := f.Signature.Params().At(0).Type()
	_, iface := t.Underlying().(*types.Interface)
	return iface || isGraphT(t)
}

// textCall: the text of a node remembers the node.
func textCall(s *State, c *callInfo) ([]exitSt, bool) {
	v := s.fresh(types.Typ[types.String])
	x := c.args[0]
	if m, ok := s.memoOf(x, "of"); ok {
		s.setMemo(v.id, "txt", m)
	} else if isGraphT(c.fn.Params[0].Type()) && x.k == KRef {
		s.setMemo(v.id, "txt", x)
	}
	if c.fn.Signature.Results().Len() > 1 {
		return nil, false
	}
	return ret(s, v), true
}

func thisLoaded(s *State, ins ssa.Instruction, ptr, res Val) {
	if ptr.fld != nil && ptr.fld.Name() == "This" && ptr.path == ".This" && (res.k == KRef) {
		s.setMemo(res.id, "of", vRef(ptr.id))
	}
}

func (r *Report) grouping(prec *ssa.Function) {
	p := r.p
	n := 0
	for _, f := range p.fns {
		if f.Blocks == nil || f.Signature.Recv() == nil || !isGraphT(f.Signature.Recv().Type()) {
			continue
		}
		var in *loopInfo
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || !p.plainTo(c.Common().StaticCallee(), prec, 3) {
					continue
				}
				if l := p.fi(f).inLoop[b]; l != nil && (in == nil || len(l.body) < len(in.body)) {
					in = l
				}
			}
		}
		if in != nil {
			n++
			r.saw(f)
			r.group(f, prec, in)
		}
	}
	r.ob(n > 0, "grouping", "instances", "", "no loop over the elements of an expression is found")
}

func (r *Report) group(f, prec *ssa.Function, in *loopInfo) {
	p := r.p
	m := newModeRun(r, f)
	fi := p.fi(f)
	ob := func(s *State, ins ssa.Instruction, what, bad string) {
		pos := p.pos(f.Pos())
		if ins != nil {
			pos = p.insPos(ins)
		}
		m.ob(s, bad == "", "grouping", what, pos, bad)
	}
	// the level at hand: a parameter, or what an outer loop counts
	levels := func(s *State) []*Lin {
		var r []*Lin
		env := s.frames[1].env
		for v, x := range env {
			if x.k != KInt {
				continue
			}
			switch v := v.(type) {
			case *ssa.Parameter:
				r = append(r, x.lin)
			case *ssa.Phi:
				for _, l := range fi.loops {
					if l != in && l.head == v.Block() && l.body[in.head] {
						r = append(r, x.lin)
					}
				}
			}
		}
		return r
	}
	rebase := func(s *State) {
		g, ok := s.gh.refs["g"]
		if !ok {
			return
		}
		v := p.loadOut(s, g)
		if v.k != KRef {
			return
		}
		_, has := s.memoOf(v, "sq")
		if root, _ := s.seqRoot(v); has || root.id != v.id {
			o := p.outOf(g)
			nv := s.fresh(o.fld.Type())
			l, nl := s.lenOf(v), s.fact(v.id).nl
			s.upd(nv.id, func(f *Fact) { f.len, f.nl = l, nl })
			s.cells[cellKey{o.id, o.path}] = Cell{v: nv, fld: o.fld, et: o.fld.Type()}
			v = nv
		}
		s.gh.refs["L"] = v
		delete(s.gh.refs, "node")
		delete(s.gh.refs, "kids")
		delete(s.gh.tags, "lvl")
		delete(s.gh.ints, "k")
		delete(s.gh.ints, "pv")
		s.gh.tags["test"] = "no"
	}
	iter := func(s *State, ins ssa.Instruction) {
		g, ok := s.gh.refs["g"]
		if !ok {
			return
		}
		L := s.gh.refs["L"]
		n := s.lenOf(L)
		cur := s.seqOf(p.loadOut(s, g))
		whole := []seg{{base: L, lo: linC(0), hi: n}}
		same := s.eqSeq(cur, whole)
		if s.gh.tags["test"] != "yes" {
			bad := ""
			if !same {
				bad = "elements are changed without an operator"
			}
			ob(s, ins, "an element that is not looked at", bad)
			return
		}
		k := s.gh.ints["k"]
		node, c0 := s.gh.refs["node"], s.gh.refs["kids"]
		kids := s.seqOf(p.loadOut(s, node))
		old := s.seqOf(c0)
		bad := ""
		switch {
		case same && s.eqSeq(kids, old):
			not := s.prove(le(k, linC(0))) || s.prove(le(n, k.addK(1)))
			not = not || strings.ContainsAny(s.gh.tags["lvl"], "<>")
			if !not {
				bad = "an operator of this level is passed over"
			}
			s.gh.ints["next"] = k.addK(1)
		default:
			is := strings.Contains(s.gh.tags["lvl"], "=")
			want := []seg{{base: L, lo: linC(0), hi: k.addK(-1)}, {base: L, lo: k, hi: k.addK(1)}, {base: L, lo: k.addK(2), hi: n}}
			ops := append(append([]seg{}, old...), seg{base: L, lo: k.addK(-1), hi: k}, seg{base: L, lo: k.addK(1), hi: k.addK(2)})
			switch {
			case !is:
				bad = "an operator of another level takes operands"
			case !s.eqSeq(kids, ops):
				bad = "its operands are not the elements at its left and right, in order, but " + s.showSeq(kids)
			case !s.eqSeq(cur, want):
				bad = "the operands are not just replaced by the operation, but there is " + s.showSeq(cur)
			}
			s.gh.ints["next"] = k
		}
		ob(s, ins, "an operator", bad)
	}
	m.run(seqMode(&Mode{name: "group", parts: 600, paths: true, loopPaths: true, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"] = linC(0)
			g.tags["test"], g.tags["first"] = "no", "yes"
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn == f && len(s.frames) <= 2 {
				if v := s.top().env[f.Params[0]]; v.k == KRef {
					s.gh.refs["g"] = v
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return fn != prec && fn != f && !textOf(p, fn)
		},
		loaded: thisLoaded,
		apart: func(s *State, a, b VID) bool {
			g := s.gh.refs["g"].id
			if b == g {
				a, b = b, a
			}
			if a != g || b == g {
				return false
			}
			_, ok := s.memoOf(vRef(b), "el")
			return ok
		},
		edge: func(s *State, fi2 *fnInfo, from, to *ssa.BasicBlock) {
			if fi2.fn != f || len(s.frames) != 2 {
				return
			}
			last := from.Instrs[len(from.Instrs)-1]
			switch {
			case to == in.head && !in.body[from]:
				s.gh.ints["next"] = linC(0)
				s.gh.tags["first"] = "yes"
				rebase(s)
			case to == in.head:
				iter(s, last)
				rebase(s)
			case in.body[from] && !in.body[to]:
				iter(s, last)
				if g, ok := s.gh.refs["g"]; ok {
					n := s.lenOf(p.loadOut(s, g))
					bad := ""
					// the first has nothing at its left, the last nothing at its right
					end := s.gh.ints["next"].addK(1)
					if s.gh.tags["first"] == "yes" {
						end = linC(2)
					}
					if n == nil || !s.prove(le(n, end)) {
						bad = "elements are left that have not been looked at"
					}
					ob(s, last, "the end", bad)
				}
				for _, k := range []string{"node", "kids", "L"} {
					delete(s.gh.refs, k)
				}
				s.gh.ints["next"] = linC(0)
				s.gh.tags["test"], s.gh.tags["first"] = "no", "yes"
				delete(s.gh.ints, "k")
				delete(s.gh.tags, "lvl")
				delete(s.gh.ints, "pv")
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) { delete(s.gh.tags, "path") },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn != nil && textOf(p, c.fn) {
				return textCall(s, c)
			}
			if c.fn != prec {
				if c.fn != nil && p.isFn[c.fn] && (c.fn == f || !(len(s.frames) < 8 && p.plain(c.fn, nil) && !p.reach([]*ssa.Function{c.fn})[f])) {
					s.havoc(s.a.modsOf(c.fn))
					return s.a.results(s, c), true
				}
				return nil, false
			}
			res := s.fresh(types.Typ[types.Int])
			L, ok := s.gh.refs["L"]
			if !ok {
				return ret(s, res), true
			}
			node, has := s.memoOf(c.args[0], "txt")
			e := s.canon(node)
			if !has || e.one || e.base.id != L.id {
				ob(s, ins, "what is looked at", "it is not followed which element is looked at")
				return ret(s, res), true
			}
			k := e.lo
			bad := ""
			g := s.gh
			switch {
			case g.tags["test"] == "yes":
				if !s.eqLin(k, g.ints["k"]) {
					bad = "two elements are looked at in one step"
				}
			case g.tags["first"] == "yes":
				if !s.prove(le(k, linC(1))) {
					bad = "it does not begin with the first operator"
				}
			default:
				if !s.eqLin(k, g.ints["next"]) {
					bad = "it does not go on with the next element"
				}
			}
			ob(s, ins, "the order", bad)
			if g.tags["test"] != "yes" {
				g.tags["test"], g.tags["first"] = "yes", "no"
				g.ints["k"], g.ints["pv"] = k, res.lin
				g.refs["node"] = node
				if id, ok := res.lin.single(); ok {
					s.upd(id, func(f *Fact) { f.full = false })
				}
				g.refs["kids"] = p.loadOut(s, node)
			} else {
				return ret(s, vInt(g.ints["pv"])), true
			}
			// of the level, above, or below
			sts := []*State{s}
			for i, l := range levels(s) {
				if i == 2 {
					break
				}
				var next []*State
				for _, t := range sts {
					for j, c := range []*Cond{{op: CEq, l: res.lin.add(l, -1)}, le(res.lin.addK(1), l), le(l.addK(1), res.lin)} {
						for _, u := range t.clone().assume(c, true) {
							u.gh.tags["lvl"] += []string{"=", "<", ">"}[j]
							next = append(next, u)
						}
					}
				}
				sts = next
			}
			var out []exitSt
			for _, t := range sts {
				out = append(out, ret(t, res)...)
			}
			return out, true
		},
	}))
}
