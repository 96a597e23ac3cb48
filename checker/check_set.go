package main

// C36: setting a value by path changes only what the path names.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C36"] = func(r *Report) {
		r.rule("set", "Set goes from the node along the elements of the path, each once and in order: to the subnode of that name as long as there is one, then to new nodes of those names, each added to the one before; an index element ends it, and is handed with the value to the function that sets by index; at the end of the path the list of the node reached becomes that of the value; nothing else is written")
		r.rule("setat", "the function that sets by index replaces the subnode at that index by a new node with the value, after adding new nodes until there is one, and changes nothing if the index is not valid")
		p := r.p
		roots := r.named("(*ogdl.Graph).Set")
		if len(roots) != 1 {
			return
		}
		ix, ok := p.strConstOf("TypeIndex")
		if !ok {
			r.fail("instances", "TypeIndex", "", "the constant is not found")
			return
		}
		var at *ssa.Function
		for _, f := range p.fns {
			if setsAt(f) {
				at = f
			}
		}
		r.saw(roots[0])
		(&setter{r: r, f: roots[0], index: ix}).check()
		if at == nil {
			r.fail("instances", "setting by index", "", "the function is not found")
			return
		}
		r.saw(at)
		(&edit{r: r, f: at, rule: "setat"}).check((*edit).xSetAt)
		r.floor("set", 7)
		r.floor("setat", 2)
		r.assume = append(r.assume, "the nodes form a tree (c13, c14)", "Node finds the first subnode of a name, and Add adds a new one (c34)")
	}
}

// setsAt: a method that is given an index and a value.
func setsAt(f *ssa.Function) bool {
	sg := f.Signature
	return sg.Recv() != nil && isGraphT(sg.Recv().Type()) && sg.Params().Len() == 2 && isIntegerT(sg.Params().At(0).Type()) && isIface(sg.Params().At(1).Type()) &&
		sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type())
}

// adds: a method that is given a value, and gives a node.
func adds(f *ssa.Function) bool {
	sg := f.Signature
	return sg.Recv() != nil && isGraphT(sg.Recv().Type()) && sg.Params().Len() == 1 && isIface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type())
}

type setter struct {
	r     *Report
	f     *ssa.Function
	m     *modeRun
	index string
}

func (q *setter) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := q.r.p.pos(q.f.Pos())
	if ins != nil {
		pos = q.r.p.insPos(ins)
	}
	q.m.ob(s, bad == "", "set", what, pos, bad)
}

// elem: a value is the element of the path that is next.
func (q *setter) elem(s *State, v Val) bool {
	pl, ok := s.gh.refs["PL"]
	if !ok || v.k != KRef {
		return false
	}
	e := s.canon(v)
	return !e.one && e.base.id == pl.id && s.eqLin(e.lo, s.gh.ints["i"])
}

// named: a value is the name of the element of the path that is next.
func (q *setter) named(s *State, v Val) bool {
	for d := 0; d < 3 && v.k == KRef; d++ {
		if m, ok := s.memoOf(v, "txt"); ok && q.elem(s, m) {
			return true
		}
		if m, ok := s.memoOf(v, "of"); ok && q.elem(s, m) {
			return true
		}
		p := s.fact(v.id).pay
		if p == nil {
			return false
		}
		v = *p
	}
	return false
}

func (q *setter) next(s *State, cur Val) {
	g := s.gh
	g.refs["cur"] = cur
	g.ints["i"] = g.ints["i"].addK(1)
	delete(g.tags, "ix")
	delete(g.tags, "self")
	delete(g.ints, "ixv")
}

func (q *setter) atEnd(s *State) bool {
	pl, ok := s.gh.refs["PL"]
	return ok && (s.nilness(pl) == 1 || s.prove(le(s.lenOf(pl), s.gh.ints["i"])))
}

// kinds: there is no value, or it is a graph (maybe nil), or it is something
// else.
func (q *setter) kinds(s *State) []*State {
	var out []*State
	val := s.gh.refs["val"]
	gt := q.f.Signature.Recv().Type()
	add := func(s *State, kind string) {
		s.gh.tags["kind"] = kind
		out = append(out, s)
	}
	for _, t := range s.clone().assume(&Cond{op: CNil, id: val.id}, true) {
		add(t, "none")
	}
	for _, s := range s.assume(&Cond{op: CNil, id: val.id}, false) {
		is := &Cond{op: CType, id: val.id, t: gt}
		for _, t := range s.clone().assume(is, false) {
			add(t, "other")
		}
		for _, t := range s.assume(is, true) {
			w := t.a.asserted(t, val, gt, false)
			u := t.clone()
			u.setNil(w.id, true)
			add(u, "none")
			t.setNil(w.id, false)
			t.gh.refs["pay"], t.gh.refs["VL"] = w, q.r.p.loadOut(t, w)
			add(t, "graph")
		}
	}
	return out
}

func (q *setter) check() {
	p, f := q.r.p, q.f
	q.m = newModeRun(q.r, f)
	q.m.run(seqMode(&Mode{name: "set", parts: 600, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["i"] = linC(0)
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			s.gh.refs["g"], s.gh.refs["cur"], s.gh.refs["path"], s.gh.refs["val"] = env[f.Params[0]], env[f.Params[0]], env[f.Params[1]], env[f.Params[2]]
		},
		inline: func(s *State, fn *ssa.Function) bool { return fn != f && len(s.frames) < 8 },
		loaded: thisLoaded,
		apart: func(s *State, a, b VID) bool {
			// the node reached is none of the path, and not the value if it
			// was looked at
			for i := 0; i < 2; i++ {
				if s.gh.refs["cur"].id == a {
					v, ok := s.gh.refs["pay"]
					return !ok || v.id != b || s.gh.tags["self"] == "no"
				}
				a, b = b, a
			}
			return false
		},
		branch: func(s *State, c *Cond, want bool) {
			if c.op == CNil && want && (c.id == s.gh.refs["g"].id || s.gh.refs["P"].k == KRef && c.id == s.gh.refs["P"].id) {
				s.gh.tags["none"] = "yes"
			}
			if v, ok := s.gh.refs["pay"]; ok && c.op == CRefEq {
				cur := s.gh.refs["cur"]
				if c.id == v.id && c.id2 == cur.id || c.id2 == v.id && c.id == cur.id {
					s.gh.tags["self"] = map[bool]string{true: "yes", false: "no"}[want]
				}
			}
		},
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if ptr.path == "" && s.fact(ptr.id).fresh {
				s.setMemo(ptr.id, "new", vInt(linC(0)))
			}
			if ptr.fld == nil {
				return
			}
			if n := ptr.fld.Name(); n != "Out" && n != "This" || ptr.path != "."+n {
				return
			}
			cur := s.gh.refs["cur"]
			if ptr.id != cur.id {
				if _, ok := s.memoOf(vRef(ptr.id), "new"); ok || s.fact(ptr.id).fresh {
					s.setMemo(ptr.id, "new", vInt(linC(0)))
					return
				}
			}
			bad := ""
			switch {
			case ptr.id != cur.id:
				bad = "a node is written to that is not the one that the path names"
			case ptr.fld.Name() == "This":
				bad = "the content of a node is changed"
			case !q.atEnd(s):
				bad = "the list of a node is changed before the end of the path"
			}
			q.ob(s, ins, "what is written", bad)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			g := s.gh
			sg := c.fn.Signature
			gotV := func(i int, n string) bool {
				return c.args[i].k == KRef && s.sameVal(c.args[i], g.refs[n])
			}
			isCur := c.args != nil && len(c.args) > 0 && isObj(c.args[0]) && c.args[0].id == g.refs["cur"].id
			switch {
			case sg.Recv() == nil && sg.Params().Len() == 1 && isStrT(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type()):
				bad := ""
				if !gotV(0, "path") || g.refs["P"].k == KRef {
					bad = "it is not the path given that is parsed, once"
				}
				q.ob(s, ins, "the path", bad)
				v := s.fresh(sg.Results().At(0).Type())
				t := s.clone()
				t.setNil(v.id, true)
				t.gh.refs["P"] = v
				t.gh.tags["none"] = "yes"
				s.setNil(v.id, false)
				s.gh.refs["P"] = v
				s.gh.refs["PL"] = p.loadOut(s, v)
				out := ret(t, v)
				for _, s := range q.kinds(s) {
					out = append(out, ret(s, v)...)
				}
				return out, true
			case setsAt(c.fn):
				bad := ""
				switch {
				case g.tags["ix"] != "yes":
					bad = "it sets by index at an element that is no index"
				case !isCur:
					bad = "it sets by index in another node than the one reached"
				case c.args[1].k != KInt || g.ints["ixv"] == nil || !s.eqLin(c.args[1].lin, g.ints["ixv"]):
					bad = "it sets at another index"
				case !gotV(2, "val"):
					bad = "it sets another value"
				case g.tags["done"] != "":
					bad = "it sets twice"
				}
				q.ob(s, ins, "by index", bad)
				g.tags["done"] = "at"
				v := s.fresh(sg.Results().At(0).Type())
				g.refs["res"] = v
				return ret(s, v), true
			case c.fn.Name() == "Int64" && len(c.args) > 0 && q.elem(s, c.args[0]):
				v := s.fresh(sg.Results().At(0).Type())
				if v.k == KInt {
					if id, ok := v.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
					}
					g.ints["ixv"] = v.lin
				}
				return ret(s, v), true
			case textOf(p, c.fn):
				x := c.args[0]
				if m, ok := s.memoOf(x, "of"); ok {
					x = m
				}
				if !q.elem(s, x) || sg.Recv() != nil && c.fn.Name() == "String" {
					return textCall(s, c)
				}
				str := func(s *State) exitSt {
					w := s.memoVal(x.id, "text", func() Val { return s.fresh(types.Typ[types.String]) })
					s.upd(w.id, func(f *Fact) { f.notStr = append(append([]string{}, f.notStr...), q.index) })
					s.setMemo(w.id, "txt", x)
					return exitSt{s, w, true}
				}
				switch g.tags["ix"] {
				case "yes":
					return ret(s, s.strConst(q.index)), true
				case "no":
					return []exitSt{str(s)}, true
				}
				t := s.clone()
				t.gh.tags["ix"], s.gh.tags["ix"] = "yes", "no"
				return append(ret(t, t.strConst(q.index)), str(s)), true
			case c.fn.Name() == "Node" && sg.Recv() != nil && isGraphT(sg.Recv().Type()):
				bad := ""
				switch {
				case !isCur:
					bad = "it looks for a subnode of another node than the one reached"
				case g.tags["ix"] == "yes":
					bad = "an index is taken for a name"
				case !q.named(s, c.args[1]):
					bad = "it looks for another name than that of the next element of the path"
				}
				q.ob(s, ins, "the way", bad)
				if bad != "" {
					return s.a.results(s, c), true
				}
				t := s.clone()
				n := t.zero(sg.Results().At(0).Type())
				t.gh.tags["missing"] = "yes"
				out := ret(t, n)
				if g.tags["missing"] == "" {
					v := s.fresh(sg.Results().At(0).Type())
					s.setNil(v.id, false)
					q.next(s, v)
					out = append(out, ret(s, v)...)
				}
				return out, true
			case adds(c.fn) && !gotV(1, "val"):
				bad := ""
				switch {
				case !isCur:
					bad = "it adds a node to another one than the one reached"
				case g.tags["missing"] == "":
					bad = "it adds a node without looking for it first"
				case g.tags["ix"] == "yes":
					bad = "an index is taken for a name"
				case !q.named(s, c.args[1]):
					bad = "what it adds is not the next element of the path"
				}
				q.ob(s, ins, "new nodes", bad)
				v := s.fresh(sg.Results().At(0).Type())
				s.setNil(v.id, false)
				if bad == "" {
					q.next(s, v)
				}
				return ret(s, v), true
			}
			if len(s.frames) >= 8 {
				s.havoc(s.a.modsOf(c.fn))
				return s.a.results(s, c), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			g := s.gh
			if g.tags["none"] == "yes" || s.nilness(g.refs["g"]) == 1 {
				return
			}
			if g.tags["done"] == "at" {
				bad := ""
				if !isObj(v) || v.id != g.refs["res"].id {
					bad = "the result is not that of setting by index"
				}
				q.ob(s, nil, "the result", bad)
				return
			}
			bad := ""
			if !q.atEnd(s) {
				bad = "it returns before the end of the path"
			}
			q.ob(s, nil, "the end", bad)
			if bad != "" {
				return
			}
			val, l := g.refs["val"], s.normSeq(s.seqOf(p.loadOut(s, g.refs["cur"])))
			switch g.tags["kind"] {
			case "none":
				if !s.eqSeq(l, nil) {
					bad = "the node has something although there is no value: " + s.showSeq(l)
				}
			case "graph":
				if !s.eqSeq(l, s.wholeSeq(g.refs["VL"])) && (g.tags["self"] != "yes" || !s.eqSeq(s.wholeSeq(p.loadOut(s, g.refs["pay"])), s.wholeSeq(g.refs["VL"]))) {
					bad = "the node does not have just the subnodes of the value: " + s.showSeq(l)
				}
			default:
				if len(l) != 1 || !l[0].one || !s.sameVal((&edit{r: q.r}).this(s, l[0].base), val) {
					bad = "the node does not have just the value: " + s.showSeq(l)
				}
			}
			q.ob(s, nil, "the value", bad)
		},
	}))
}

// xSetAt: the subnode at an index is replaced.
func (e *edit) xSetAt(s *State, ins ssa.Instruction, v Val) {
	i := s.gh.ints["a1"]
	l := e.cur(s)
	bad := ""
	if v.k == KRef && s.nilness(v) == 1 {
		if !s.eqSeq(l, e.whole(s)) {
			bad = "the list is changed although the result is nil"
		}
		e.ob(s, ins, "no valid index", bad)
		return
	}
	if i == nil {
		e.ob(s, ins, "the index", "it is not followed")
		return
	}
	n := linC(0)
	if s.nilness(s.gh.refs["L"]) != 1 {
		n = e.n(s)
	}
	out := e.r.p.loadOut(s, e.g(s))
	total := s.lenOf(out)
	switch {
	case !isObj(v) || total == nil:
		bad = "the result is not followed"
	case !s.prove(le(linC(0), i)):
		bad = "a negative index is set"
	case !s.prove(le(i.addK(1), total)):
		bad = "the list does not reach the index"
	}
	if bad == "" {
		mid := s.normSeq(s.subSeq(l, i, i.addK(1)))
		switch {
		case len(mid) != 1 || !mid[0].one || mid[0].base.id != v.id:
			bad = "the result is not the subnode at the index: " + s.showSeq(l)
		case !e.isNew(s, v.id) && !s.fact(v.id).fresh:
			bad = "what is set is no new node"
		case !s.sameVal(e.this(s, v), s.gh.refs["a2"]):
			bad = "what is set is not the value"
		}
	}
	e.ob(s, ins, "the list", bad)
	if bad != "" {
		return
	}
	// the others are as they were
	in := le(i.addK(1), n)
	for _, s := range s.clone().assume(in, true) {
		l, bad := e.cur(s), ""
		want := append(append(append([]seg{}, s.subSeq(e.whole(s), linC(0), i)...), seg{one: true, base: v}), s.subSeq(e.whole(s), i.addK(1), n)...)
		if !s.eqSeq(l, want) {
			bad = "the other subnodes are not as they were: " + s.showSeq(l)
		}
		e.ob(s, ins, "the others", bad)
	}
	for _, s := range s.clone().assume(in, false) {
		l, bad := e.cur(s), ""
		// what only grew begins with what there was
		if len(l) == 2 && !l[0].one && l[0].lo.isConst() && l[0].lo.c == 0 && s.prove(le(n, l[0].hi)) {
			if _, ok := s.memoOf(l[0].base, "pfx"); ok {
				l = append(append(append([]seg{}, e.whole(s)...), seg{base: l[0].base, lo: n, hi: l[0].hi}), l[1])
			}
		}
		if !s.eqSeq(s.subSeq(l, linC(0), n), e.whole(s)) {
			bad = "the subnodes before are not as they were: " + s.showSeq(l)
		} else if !s.eqLin(total, i.addK(1)) {
			bad = "there is more than is needed to reach the index"
		}
		e.ob(s, ins, "the others", bad)
	}
}
