package main

// C35: renderings go through all subnodes, in their order.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C35"] = func(r *Report) {
		r.rule("visit", "a function that renders a node hands each element of its list of subnodes, from the first to the last and with none left out at any return, to a function that renders it, with the level one deeper (the same, if nothing is written for the node itself) and with the output as it is at that point; the entry points do so for the node they are given")
		p := r.p
		roots := r.named("(*ogdl.Graph).Text", "(*ogdl.Graph).Show", "(*ogdl.Graph).Html", "(*ogdl.Graph).JSON", "(*ogdl.Graph).Binary")
		in := p.reach(roots)
		isRoot := map[*ssa.Function]bool{}
		for _, f := range roots {
			isRoot[f] = true
		}
		n := 0
		for _, f := range p.fns {
			if !in[f] || f.Blocks == nil || f.Signature.Recv() == nil || !isGraphT(f.Signature.Recv().Type()) {
				continue
			}
			if !isRoot[f] && (!writer(f) || !p.reachPlus(f)[f]) {
				continue
			}
			n++
			r.saw(f)
			(&visit{r: r, f: f, in: in}).check()
		}
		r.ob(n >= 8, "visit", "functions", "", "the functions that render are not found")
		r.floor("visit", 20)
		r.assume = append(r.assume, "a nil subnode is left out", "what a function writes for the node itself is the matter of C11 and C20")
	}
}

// reachPlus: what f calls, f only if it calls itself.
func (p *Prog) reachPlus(f *ssa.Function) map[*ssa.Function]bool {
	var l []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && p.isFn[g] {
					l = append(l, g)
				}
			}
		}
	}
	return p.reach(l)
}

type visit struct {
	r  *Report
	f  *ssa.Function
	in map[*ssa.Function]bool
	m  *modeRun
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// outT: where the output goes.
func outT(t types.Type) bool {
	return isBytesT(t) || isNamedPtr(t, "bytes", "Buffer") || isNamedPtr(t, "strings", "Builder")
}

func isIntT2(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (q *visit) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := q.r.p.pos(q.f.Pos())
	if ins != nil {
		pos = q.r.p.insPos(ins)
	}
	q.m.ob(s, bad == "", "visit", what, pos, bad)
}

func (q *visit) check() {
	p, f := q.r.p, q.f
	q.m = newModeRun(q.r, f)
	g0 := func(s *State) (Val, bool) { v, ok := s.gh.refs["g"]; return v, ok }
	q.m.run(seqMode(&Mode{name: "visit", parts: 400, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"] = linC(0)
			g.tags["txt"], g.tags["all"], g.tags["wrote"] = "", "no", "no"
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			for i, x := range f.Params {
				v := env[x]
				switch {
				case i == 0:
					s.gh.refs["g"] = v
					s.gh.refs["L"] = p.loadOut(s, v)
				case outT(x.Type()):
					s.gh.refs["out"] = v
				case isIntT2(x.Type()) && v.k == KInt:
					if _, ok := s.gh.ints["lv"]; !ok {
						s.gh.ints["lv"] = v.lin
						if id, ok := v.lin.single(); ok {
							s.upd(id, func(f *Fact) { f.full = false })
						}
					}
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return fn != f && len(s.frames) < 8 && (p.plain(fn, nil) || writer(fn) && !p.reachPlus(fn)[fn])
		},
		loaded: thisLoaded,
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g, ok := g0(s)
			if o, has := s.gh.refs["out"]; has && !p.isFn[c.fn] {
				for _, x := range c.args {
					if isObj(x) && x.id == o.id {
						s.gh.tags["wrote"] = "yes"
					}
				}
			}
			if q.in[c.fn] && c.fn.Signature.Recv() != nil && isGraphT(c.fn.Signature.Recv().Type()) && ok {
				if e := s.canon(c.args[0]); !e.one && e.base.id == s.gh.refs["L"].id {
					return q.event(s, ins, c, e), true
				}
				if writer(c.fn) && (p.reachPlus(c.fn)[c.fn] || c.fn == f) && isObj(c.args[0]) {
					// the whole of it
					whole := s.wholeSeq(s.gh.refs["L"])
					bad := ""
					if c.args[0].id != g.id && !s.eqSeq(s.seqOf(p.loadOut(s, c.args[0])), whole) {
						bad = "what is rendered is not the node, or a node with the same subnodes"
					}
					if c.args[0].id == g.id && c.fn == f {
						bad = "it renders the node itself once more"
					}
					q.ob(s, ins, "the whole", bad)
					s.gh.tags["all"] = "yes"
					return q.after(s, c), true
				}
			}
			if textOf(p, c.fn) || q.bytesOf(c.fn) {
				v, has := s.memoOf(c.args[0], "of")
				if !has && len(c.fn.Params) > 0 && isGraphT(c.fn.Params[0].Type()) {
					v, has = c.args[0], true
				}
				if has && ok && v.id == g.id && c.fn.Signature.Results().Len() == 1 && s.gh.tags["txt"] == "" {
					// the text of the node itself: there is some, or not
					res := s.fresh(c.fn.Signature.Results().At(0).Type())
					n := s.lenOf(res)
					if n == nil {
						return nil, false
					}
					t := s.clone()
					var out []exitSt
					for _, x := range t.assume(le(n, linC(0)), true) {
						x.gh.tags["txt"] = "empty"
						out = append(out, ret(x, res)...)
					}
					for _, x := range s.assume(le(linC(1), n), true) {
						x.gh.tags["txt"] = "some"
						out = append(out, ret(x, res)...)
					}
					return out, true
				}
				return nil, false
			}
			if p.isFn[c.fn] && !(len(s.frames) < 8 && (p.plain(c.fn, nil) || writer(c.fn) && !p.reachPlus(c.fn)[c.fn])) {
				if o, has := s.gh.refs["out"]; has {
					for _, x := range c.args {
						if isObj(x) && x.id == o.id {
							s.gh.tags["wrote"] = "yes"
						}
					}
				}
				s.havoc(s.a.modsOf(c.fn))
				return s.a.results(s, c), true
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, x, y Val, elems map[int64]Val, res Val) {
			if o, ok := s.gh.refs["out"]; ok && x.k == KRef && o.id == x.id {
				s.gh.refs["out"] = res
				s.gh.tags["wrote"] = "yes"
			}
		},
		edge: func(s *State, fi *fnInfo, from, to *ssa.BasicBlock) {
			if fi.loops[to] != nil {
				s.gh.tags["last"] = ""
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			g, ok := g0(s)
			if !ok || s.nilness(g) == 1 {
				return
			}
			bad := ""
			L := s.gh.refs["L"]
			if s.gh.tags["all"] != "yes" && s.nilness(L) != 1 && !s.prove(le(s.lenOf(L), s.gh.ints["next"])) {
				bad = "it returns when subnodes are left that have not been rendered"
			}
			q.ob(s, nil, "the end", bad)
			if o, has := s.gh.refs["out"]; has && len(f.Params) > 0 && isBytesT(o.typOf(s)) && f.Signature.Results().Len() == 1 && isBytesT(f.Signature.Results().At(0).Type()) {
				bad := ""
				if v.k != KRef || v.id != o.id {
					bad = "it returns something else than the output"
				}
				q.ob(s, nil, "the output", bad)
			}
		},
	}))
}

func (v Val) typOf(s *State) types.Type {
	if t := s.fact(v.id).typ; t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

// bytesOf: a function that gives the bytes of the content of a node.
func (q *visit) bytesOf(f *ssa.Function) bool {
	sg := f.Signature
	return q.r.p.isFn[f] && sg.Recv() == nil && sg.Params().Len() == 1 && sg.Results().Len() == 1 && isIface(sg.Params().At(0).Type()) && isBytesT(sg.Results().At(0).Type())
}

// writer: a method that is given where to write.
func writer(f *ssa.Function) bool {
	for i, x := range f.Params {
		if i > 0 && outT(x.Type()) {
			return true
		}
	}
	return false
}

// event: an element is rendered.
func (q *visit) event(s *State, ins ssa.Instruction, c *callInfo, e seg) []exitSt {
	rec := q.r.p.reachPlus(c.fn)[c.fn]
	next := s.gh.ints["next"]
	bad := ""
	if !writer(c.fn) {
		// a question about the element
		if textOf(q.r.p, c.fn) {
			r, _ := textCall(s, c)
			if r != nil {
				return r
			}
		}
		s.havoc(s.a.modsOf(c.fn))
		return s.a.results(s, c)
	}
	again := s.eqLin(e.lo.addK(1), next) && s.gh.tags["last"] == "small"
	switch {
	case again:
	case !s.eqLin(e.lo, next):
		bad = "the subnodes are not rendered one after the other"
	}
	q.ob(s, ins, "the order", bad)
	s.gh.ints["next"] = e.lo.addK(1)
	s.gh.tags["last"] = "full"
	if !rec {
		// just the element, without what is below it
		s.gh.tags["last"] = "small"
	}
	bad = ""
	for i, x := range c.fn.Params {
		v := c.args[i]
		switch {
		case i == 0:
		case outT(x.Type()):
			if o, ok := s.gh.refs["out"]; ok && (!isObj(v) || v.id != o.id) {
				bad = "it is not written to where the rest is"
			} else if !ok && isObj(v) {
				s.gh.refs["out"] = v
			}
			q.ob(s, ins, "the output", bad)
		case isIntT2(x.Type()) && c.fn == q.f && v.k == KInt:
			lv, ok := s.gh.ints["lv"]
			bad := ""
			switch {
			case !ok:
			case s.gh.tags["wrote"] != "yes":
				// nothing is written for the node itself
				if !s.eqLin(v.lin, lv) {
					bad = "the level of a subnode is not that of its node, that is not written"
				}
			case !s.eqLin(v.lin, lv.addK(1)):
				bad = "the level of a subnode is not one more"
			}
			q.ob(s, ins, "the level", bad)
		}
	}
	return q.after(s, c)
}

func (q *visit) after(s *State, c *callInfo) []exitSt {
	s.havoc(s.a.modsOf(c.fn))
	res := s.a.results(s, c)
	if rs := c.fn.Signature.Results(); rs.Len() == 1 && isBytesT(rs.At(0).Type()) {
		for i := range res {
			res[i].s.gh.refs["out"] = res[i].v
		}
	}
	return res
}
