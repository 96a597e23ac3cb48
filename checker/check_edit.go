package main

// C34: the operations on the list of subnodes of a node do what they say to
// that list, and nothing to any other node. Lists are followed as sequences
// (seq.go).

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = func(r *Report) {
		r.rule("edit", "at every return of an operation on a node, the list of its subnodes, seen as a sequence of parts of the lists there were before and of new nodes, and the value returned, are those that the operation names; no other node is written to")
		ops := map[string]func(e *edit, s *State, ins ssa.Instruction, v Val){
			"Len": (*edit).xLen, "GetAt": (*edit).xGetAt, "Clear": (*edit).xClear, "DeleteAt": (*edit).xDeleteAt,
			"Add": (*edit).xAdd, "AddNodes": (*edit).xAddNodes,
			"Node": (*edit).xNode, "NodeOrNew": (*edit).xNodeOrNew, "Create": (*edit).xCreate, "NodeSet": (*edit).xNodeSet,
			"Delete": (*edit).xDelete, "Equals": (*edit).xEquals, "Clone": (*edit).xClone, "Copy": (*edit).xCopy,
		}
		n := 0
		for _, f := range r.p.methodsOf("Graph") {
			if x := ops[f.Name()]; x != nil && isGraphT(f.Signature.Recv().Type()) {
				n++
				r.saw(f)
				(&edit{r: r, f: f}).check(x)
			}
		}
		r.ob(n == len(ops), "edit", "operations", "", "not all operations are there")
		r.floor("edit", 40)
		r.assume = append(r.assume, "the nodes form a tree: a node is not its own subnode (c13, c14)", "reflect.DeepEqual compares", "where a list is made in one loop, it is made from its first element to its last")
	}
}

type edit struct {
	r    *Report
	f    *ssa.Function
	m    *modeRun
	rule string
}

func (e *edit) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := e.r.p.pos(e.f.Pos())
	if ins != nil {
		pos = e.r.p.insPos(ins)
	}
	rule := e.rule
	if rule == "" {
		rule = "edit"
	}
	e.m.ob(s, bad == "", rule, what, pos, bad)
}

// placed: a subnode is placed at the index, or is one that was not there.
func (e *edit) placed(s *State, ins ssa.Instruction, ptr Val) {
	ix, i, n := elemIx(ptr), s.gh.ints["a1"], linC(0)
	if s.nilness(s.gh.refs["L"]) != 1 {
		n = e.n(s)
	}
	if c := s.canon(vRef(ptr.id)); ix != nil && !c.one && c.lo != nil {
		ix = ix.add(c.lo, 1)
	}
	bad := ""
	if ix == nil || i == nil || !s.eqLin(ix, i) && !s.prove(le(n, ix)) {
		bad = "another subnode is replaced than that at the index"
	}
	e.ob(s, ins, "what is written", bad)
}

func (e *edit) g(s *State) Val          { return s.gh.refs["g"] }
func (e *edit) cur(s *State) []seg      { return s.seqOf(e.r.p.loadOut(s, e.g(s))) }
func (e *edit) n(s *State) *Lin         { return s.lenOf(s.gh.refs["L"]) }
func (e *edit) whole(s *State) []seg    { return s.wholeSeq(s.gh.refs["L"]) }
func (e *edit) arg(s *State, i int) Val { return s.gh.refs[argKey(i)] }

func argKey(i int) string { return "a" + string(rune('0'+i)) }

func (s *State) wholeSeq(L Val) []seg {
	if s.nilness(L) == 1 {
		return nil
	}
	return []seg{{base: L, lo: linC(0), hi: s.lenOf(L)}}
}

// scan: the operations that look for a subnode.
func (e *edit) scan() bool {
	switch e.f.Name() {
	case "Node", "NodeOrNew", "Create", "NodeSet", "Delete":
		return true
	}
	return false
}

func (e *edit) check(x func(e *edit, s *State, ins ssa.Instruction, v Val)) {
	p, f := e.r.p, e.f
	e.m = newModeRun(e.r, f)
	known := func(s *State, id VID) (seg, bool) {
		for _, k := range []string{"L", "M"} {
			if L, ok := s.gh.refs[k]; ok {
				c := s.canon(vRef(id))
				if !c.one && c.base.id == L.id {
					return c, true
				}
			}
		}
		return seg{}, false
	}
	e.m.run(seqMode(&Mode{name: "edit", parts: 400, paths: true, loopPaths: true, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"] = linC(0)
			g.ints["put"] = linC(0)
			g.tags["hit"], g.tags["wrote"] = "no", ""
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			for i, q := range f.Params {
				if v := env[q]; v.k == KRef {
					s.gh.refs[argKey(i)] = v
				} else if v.k == KInt {
					s.gh.ints[argKey(i)] = v.lin
					if id, ok := v.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
					}
				}
			}
			if g := env[f.Params[0]]; g.k == KRef {
				s.gh.refs["g"] = g
				s.gh.refs["L"] = p.loadOut(s, g)
				s.gh.refs["T"] = e.this(s, g)
				if l := s.gh.refs["L"]; e.rule == "setat" && l.k == KRef {
					s.setMemo(l.id, "pfx", g)
				}
			}
			if len(f.Params) > 1 && isGraphT(f.Params[1].Type()) {
				if g := env[f.Params[1]]; g.k == KRef {
					s.gh.refs["M"] = p.loadOut(s, g)
					s.gh.refs["U"] = e.this(s, g)
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return fn != f && !textOf(p, fn) && len(s.frames) < 8 },
		loaded: thisLoaded,
		apart: func(s *State, a, b VID) bool {
			g := e.g(s).id
			for i := 0; i < 2; i++ {
				if _, ok := s.memoOf(vRef(a), "el"); ok && e.isNew(s, b) {
					return true
				}
				a, b = b, a
			}
			if b == g {
				a, b = b, a
			}
			if a != g || b == g {
				return false
			}
			_, ok := s.memoOf(vRef(b), "el")
			return ok
		},
		same: func(s *State, x, y Val) *Cond {
			if m, ok := s.memoOf(x, "ne"); ok && m.id == y.id {
				return condFalse
			}
			if m, ok := s.memoOf(y, "ne"); ok && m.id == x.id {
				return condFalse
			}
			return nil
		},
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if ptr.path == "" && s.fact(ptr.id).fresh {
				s.setMemo(ptr.id, "new", vInt(linC(0)))
			}
			if ptr.fld == nil {
				if _, ok := s.memoOf(s.canon(vRef(ptr.id)).base, "pfx"); ok && strings.HasPrefix(ptr.path, "[") {
					e.placed(s, ins, ptr)
				}
				return
			}
			if n := ptr.fld.Name(); n != "Out" && n != "This" || ptr.path != "."+n {
				return
			}
			if ptr.id == e.g(s).id {
				if ptr.fld.Name() == "This" {
					e.ob(s, ins, "what is written", "the content of the node itself is changed")
				}
				return
			}
			_, old := known(s, ptr.id)
			if a, ok := s.gh.refs["a1"]; ok && a.id == ptr.id {
				old = true
			}
			if !old && (s.fact(ptr.id).fresh || e.isNew(s, ptr.id)) {
				s.setMemo(ptr.id, "new", vInt(linC(0)))
				return
			}
			bad := "another node is written to"
			if (f.Name() == "Create" || f.Name() == "NodeSet") && ptr.fld.Name() == "Out" && s.gh.tags["hit"] == "yes" {
				if c, ok := known(s, ptr.id); ok && s.eqLin(c.lo, s.gh.ints["k"]) {
					bad = ""
					s.gh.refs["x"] = vRef(ptr.id)
				}
			}
			e.ob(s, ins, "what is written", bad)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			switch {
			case c.fn == nil:
				return nil, false
			case textOf(p, c.fn):
				return e.text(s, ins, c)
			case c.fn.Name() == "DeepEqual" && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "reflect":
				return e.deep(s, ins, c)
			case f.Name() == "Clone" && c.fn.Name() == "Copy" && p.isFn[c.fn]:
				// all subnodes are copied
				x, y := c.args[0], c.args[1]
				bad := ""
				if !isObj(x) || !e.isNew(s, x.id) || y.k != KRef || y.id != e.g(s).id || !s.eqSeq(s.seqOf(p.loadOut(s, x)), nil) {
					bad = "it is not the node itself that is copied"
				}
				e.ob(s, ins, "copies", bad)
				o := p.outOf(x)
				nv := s.fresh(o.fld.Type())
				n := e.n(s)
				s.upd(nv.id, func(f *Fact) { f.len = n })
				s.cells[cellKey{o.id, o.path}] = Cell{v: nv, fld: o.fld, et: o.fld.Type()}
				s.gh.ints["next"], s.gh.ints["put"] = n, n
				return ret(s, Val{}), true
			case c.fn == f || e.clone(c.fn):
				return e.rec(s, ins, c)
			case p.isFn[c.fn] && len(s.frames) >= 8:
				s.havoc(s.a.modsOf(c.fn))
				return s.a.results(s, c), true
			}
			return nil, false
		},
		edge: func(s *State, fi *fnInfo, from, to *ssa.BasicBlock) { e.edge(s, fi, from, to) },
		branch: func(s *State, c *Cond, want bool) {
			if e.lenDiff(s, c, want) {
				s.gh.tags["diff"] = "yes"
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) { delete(s.gh.tags, "path") },
		copied: func(s *State, ins ssa.Instruction, dst, src, n Val) {
			if dst.k != KRef {
				return
			}
			if _, ok := s.memoOf(s.canon(dst).base, "pfx"); ok {
				e.ob(s, ins, "what is written", "the subnodes are written over")
			}
		},
		appended: func(s *State, ins ssa.Instruction, a, b Val, elems map[int64]Val, res Val) {
			if v, ok := ins.(ssa.Value); ok && isNodeList(v.Type()) {
				if e.rule == "setat" {
					// lists that grew are kept apart from those that did not
					s.gh.tags["grown"] = "yes"
					if _, ok := s.memoOf(a, "pfx"); ok {
						s.setMemo(res.id, "pfx", s.gh.refs["g"])
					}
				}
				if n := s.lenOf(b); n != nil && n.isConst() && n.c == 1 && len(elems) == 1 {
					l := linC(0)
					if a.k == KRef && s.nilness(a) != 1 {
						l = s.lenOf(a)
					}
					e.put(s, ins, elems[0], l)
				}
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			if _, ok := s.gh.refs["g"]; !ok {
				return
			}
			x(e, s, nil, v)
		},
	}))
}

func (e *edit) this(s *State, g Val) Val {
	o := e.r.p.outOf(g)
	st := structOf(e.r.p.root.Scope().Lookup("Graph").Type())
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Name() == "This" {
			return s.load(Val{k: KPtr, id: o.id, path: "." + f.Name(), fld: f}, f.Type())
		}
	}
	return Val{}
}

func (e *edit) isNew(s *State, id VID) bool {
	_, ok := s.memoOf(vRef(id), "new")
	return ok
}

// clone: a function that gives a copy of a node.
func (e *edit) clone(f *ssa.Function) bool {
	return f.Name() == "Clone" && e.r.p.isFn[f] && f.Signature.Recv() != nil && isGraphT(f.Signature.Recv().Type())
}

// text of an element: it is the one looked for, or not.
func (e *edit) text(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
	a, ok := s.gh.refs["a1"]
	if !ok || !e.scan() || !isStr(s.fact(a.id).typ) {
		return textCall(s, c)
	}
	x, has := s.memoOf(c.args[0], "of")
	if !has && c.fn.Signature.Recv() != nil {
		x, has = c.args[0], true
	}
	if !has || c.fn.Signature.Results().Len() > 1 {
		return textCall(s, c)
	}
	return e.look(s, ins, x, func(t *State, hit bool) Val {
		if hit {
			return a
		}
		v := t.fresh(types.Typ[types.String])
		t.setMemo(v.id, "ne", a)
		return v
	})
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// look: an element is compared with what is looked for.
func (e *edit) look(s *State, ins ssa.Instruction, x Val, res func(t *State, hit bool) Val) ([]exitSt, bool) {
	c := s.canon(x)
	L := s.gh.refs["L"]
	bad := ""
	switch {
	case c.one || c.base.id != L.id:
		bad = "it is not followed which element is looked at"
	case s.gh.tags["hit"] == "yes":
		if !s.eqLin(c.lo, s.gh.ints["k"]) {
			bad = "it goes on after the element has been found"
		} else {
			return ret(s, res(s, true)), true
		}
	case s.gh.tags["miss"] == "yes" && s.eqLin(c.lo, s.gh.ints["next"].addK(-1)):
		return ret(s, res(s, false)), true
	case !s.eqLin(c.lo, s.gh.ints["next"]):
		bad = "the elements are not looked at one after the other"
	}
	e.ob(s, ins, "the order", bad)
	if bad != "" {
		return ret(s, res(s, false)), true
	}
	t := s.clone()
	t.gh.tags["hit"] = "yes"
	t.gh.ints["k"] = c.lo
	t.gh.refs["x"] = x
	r := ret(t, res(t, true))
	s.gh.ints["next"] = c.lo.addK(1)
	s.gh.tags["miss"] = "yes"
	return append(r, ret(s, res(s, false))...), true
}

func (e *edit) deep(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
	x, y := c.args[0], c.args[1]
	switch e.f.Name() {
	case "Delete":
		a := s.gh.refs["a1"]
		if x.k == KRef && x.id == a.id {
			x, y = y, x
		}
		of, ok := s.memoOf(x, "of")
		if ok && y.k == KRef && y.id == a.id {
			return e.look(s, ins, of, func(t *State, hit bool) Val { return vBool(condB(hit)) })
		}
	case "Equals":
		T, U := s.gh.refs["T"], s.gh.refs["U"]
		if x.id == U.id {
			x, y = y, x
		}
		if x.k == KRef && y.k == KRef && x.id == T.id && y.id == U.id {
			if s.gh.tags["this"] != "" {
				return ret(s, vBool(condB(s.gh.tags["this"] == "eq"))), true
			}
			t := s.clone()
			t.gh.tags["this"], s.gh.tags["this"] = "eq", "ne"
			return append(ret(t, vBool(condTrue)), ret(s, vBool(condFalse))...), true
		}
	}
	return ret(s, vBool(s.freshBool().cond)), true
}

// rec: the operation is applied to the subnodes.
func (e *edit) rec(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
	x := s.canon(c.args[0])
	L, M := s.gh.refs["L"], s.gh.refs["M"]
	next := s.gh.ints["next"]
	bad := ""
	switch {
	case e.f.Name() == "Equals" && c.fn == e.f:
		y := s.canon(c.args[1])
		if !y.one && y.base.id == L.id && L.id != M.id {
			x, y = y, x
		}
		if x.one || y.one || x.base.id != L.id || y.base.id != M.id || !s.eqLin(x.lo, y.lo) || !s.eqLin(x.lo, next) {
			bad = "the subnodes are not compared in pairs, one after the other"
		}
		e.ob(s, ins, "pairs", bad)
		t := s.clone()
		t.gh.ints["next"] = next.addK(1)
		s.gh.tags["diff"] = "yes"
		return append(ret(t, vBool(condTrue)), ret(s, vBool(condFalse))...), true
	case e.clone(c.fn):
		src := L
		if e.f.Name() == "Copy" {
			src = M
		}
		if x.one || x.base.id != src.id || !s.eqLin(x.lo, next) {
			bad = "the subnodes are not copied one after the other"
		}
		e.ob(s, ins, "copies", bad)
		res := s.fresh(c.fn.Signature.Results().At(0).Type())
		s.upd(res.id, func(f *Fact) { f.nl = 2 })
		s.setMemo(res.id, "new", vInt(linC(0)))
		s.setMemo(res.id, "clone", vInt(next))
		s.gh.ints["next"] = next.addK(1)
		s.gh.tags["made"] = "whole"
		return ret(s, res), true
	case e.f.Name() == "Copy":
		y := s.canon(c.args[1])
		switch {
		case y.one || y.base.id != M.id || !s.eqLin(y.lo, next):
			bad = "the subnodes are not copied one after the other"
		case !e.isNodeLike(s, c.args[0], c.args[1]):
			bad = "the subnodes are copied to a node that is not a new one that holds the same"
		}
		e.ob(s, ins, "copies", bad)
		if x := c.args[0]; isObj(x) {
			s.setMemo(x.id, "clone", vInt(next))
		}
		s.gh.ints["next"] = next.addK(1)
		return ret(s, Val{}), true
	}
	s.havoc(s.a.modsOf(c.fn))
	return s.a.results(s, c), true
}

// isNodeLike: x is a new node with the content of y and no subnodes.
func (e *edit) isNodeLike(s *State, x, y Val) bool {
	if !isObj(x) || !isObj(y) || s.nilness(x) == 1 {
		return false
	}
	if c := s.canon(x); !c.one {
		return false
	}
	a, b := e.this(s, x), e.this(s, y)
	return a.k == KRef && b.k == KRef && a.id == b.id && s.eqSeq(s.seqOf(e.r.p.loadOut(s, x)), nil)
}

// put: a subnode is added at position l of a list.
func (e *edit) put(s *State, ins ssa.Instruction, x Val, l *Lin) {
	if n := e.f.Name(); n != "Clone" && n != "Copy" || l == nil {
		return
	}
	at := s.gh.ints["put"]
	bad := ""
	if _, ok := s.gh.refs["put"]; ok {
		bad = "two copies of one subnode are added"
	} else if e.f.Name() == "Clone" && !s.eqLin(l, at) {
		bad = "a copy is not added at the position of the subnode"
	}
	e.ob(s, ins, "its place", bad)
	s.gh.refs["put"] = x
	s.gh.ints["put"] = at.addK(1)
}

// settled: what was added is a copy of the subnode at that position.
func (e *edit) settled(s *State, ins ssa.Instruction) {
	x, ok := s.gh.refs["put"]
	put := s.gh.ints["put"]
	bad := ""
	if !s.eqLin(put, s.gh.ints["next"]) {
		bad = "a subnode is copied that is not added, or added without what is below it"
	} else if ok {
		m, has := s.memoOf(x, "clone")
		if !has || m.k != KInt || !s.eqLin(m.lin.addK(1), put) {
			bad = "what is added is not a copy of the subnode"
		}
	}
	e.ob(s, ins, "the copy", bad)
	delete(s.gh.refs, "put")
}

func (e *edit) edge(s *State, fi *fnInfo, from, to *ssa.BasicBlock) {
	if _, ok := s.gh.refs["g"]; !ok {
		return
	}
	for _, k := range []string{"g", "a1"} {
		if v, ok := s.gh.refs[k]; ok && s.gh.tags["nil "+k] == "" {
			s.gh.tags["nil "+k] = []string{"", "nil", "no"}[s.nilness(v)]
		}
	}
	var in *loopInfo
	for _, l := range fi.loops {
		if l.head == to || l.body[from] && !l.body[to] {
			in = l
		}
	}
	if in == nil {
		return
	}
	p := e.r.p
	ins := from.Instrs[len(from.Instrs)-1]
	inner, head := in.body[from], in.head == to
	rebase := func(k string) {
		g := e.g(s)
		v := p.loadOut(s, g)
		if v.k != KRef {
			return
		}
		_, has := s.memoOf(v, "sq")
		if root, _ := s.seqRoot(v); has || root.id != v.id || k == "B" {
			o := p.outOf(g)
			nv := s.fresh(o.fld.Type())
			l, nl := s.lenOf(v), s.fact(v.id).nl
			if k != "B" {
				s.upd(nv.id, func(f *Fact) { f.len, f.nl = l, nl })
			}
			s.cells[cellKey{o.id, o.path}] = Cell{v: nv, fld: o.fld, et: o.fld.Type()}
			v = nv
		}
		s.gh.refs[k] = v
	}
	switch e.f.Name() {
	case "Clone":
		if head && inner {
			e.settled(s, ins)
		}
	case "Copy":
		switch {
		case head && !inner:
			bad := ""
			if !s.eqSeq(e.cur(s), e.whole(s)) {
				bad = "subnodes are changed"
			}
			e.ob(s, ins, "the subnodes there were", bad)
			rebase("B")
		case head:
			var want []seg
			want = append(want, s.wholeSeq(s.gh.refs["B"])...)
			if x, ok := s.gh.refs["put"]; ok {
				want = append(want, s.canon(x))
			}
			bad := ""
			if cur := e.cur(s); !s.eqSeq(cur, want) {
				bad = "the subnodes are not the same plus a copy, but " + s.showSeq(cur)
			}
			e.ob(s, ins, "the subnodes there were", bad)
			e.settled(s, ins)
			rebase("B")
		}
	case "Delete":
		L := s.gh.refs["L"]
		switch {
		case head && !inner:
			s.gh.ints["next"] = linC(0)
			s.gh.tags["acc"] = ""
			delete(s.gh.refs, "acc")
			for i, ph := range phisOf(to) {
				if v := s.val(ph); isNodeList(ph.Type()) && s.eqSeq(s.seqOf(v), nil) {
					s.gh.tags["acc"] = string(rune('0' + i))
					s.gh.refs["acc"] = e.anew(s, ph)
				}
			}
			rebase("L")
		case head && inner:
			hit, k := s.gh.tags["hit"] == "yes", s.gh.ints["k"]
			cur, want := e.cur(s), e.whole(s)
			acc, kept := s.gh.tags["acc"], []seg{}
			if hit {
				kept = append([]seg{}, seg{base: L, lo: linC(0), hi: k}, seg{base: L, lo: k.addK(1), hi: e.n(s)})
			} else {
				kept = want
			}
			bad := ""
			switch {
			case acc != "":
				now := s.val(phisOf(to)[acc[0]-'0'])
				w := append([]seg{}, s.wholeSeq(s.gh.refs["acc"])...)
				if s.gh.tags["miss"] == "yes" {
					n := s.gh.ints["next"]
					w = append(w, seg{base: L, lo: n.addK(-1), hi: n})
				}
				if got := s.seqOf(now); !s.eqSeq(got, w) {
					bad = "what is kept is not the same plus an element that differs, but " + s.showSeq(got)
				}
				s.gh.refs["acc"] = e.anew(s, phisOf(to)[acc[0]-'0'])
				if hit {
					s.gh.ints["next"] = k.addK(1)
				}
			case s.eqSeq(cur, kept):
				if hit {
					s.gh.ints["next"] = k
					rebase("L")
				}
			case hit:
				bad = "not just the element found is removed, but there is " + s.showSeq(cur)
			default:
				bad = "an element that was not found is removed, or others changed: " + s.showSeq(cur)
			}
			e.ob(s, ins, "an element", bad)
			s.gh.tags["hit"] = "no"
			delete(s.gh.tags, "miss")
			delete(s.gh.ints, "k")
			delete(s.gh.refs, "x")
		}
	}
}

// anew: what a variable holds is now seen as a list of its own.
func (e *edit) anew(s *State, ph *ssa.Phi) Val {
	v := s.val(ph)
	nv := s.fresh(ph.Type())
	l := linC(0)
	if v.k == KRef && s.nilness(v) != 1 {
		l = s.lenOf(v)
	}
	s.upd(nv.id, func(f *Fact) { f.len = l })
	s.top().env[ph] = nv
	return nv
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			r = append(r, p)
		}
	}
	return r
}

// ---- what each operation leaves behind

func (e *edit) isNilG(s *State) bool { return s.nilness(e.g(s)) == 1 }

func (e *edit) list(s *State, ins ssa.Instruction, want []seg) {
	bad := ""
	if cur := e.cur(s); !s.eqSeq(cur, want) {
		bad = "the subnodes are " + s.showSeq(cur) + " instead of " + s.showSeq(want)
	}
	e.ob(s, ins, "the subnodes", bad)
}

func (e *edit) res(s *State, ins ssa.Instruction, ok bool, bad string) {
	if ok {
		bad = ""
	}
	e.ob(s, ins, "the result", bad)
}

func isNilV(s *State, v Val) bool { return v.k == KRef && s.nilness(v) == 1 }

func (e *edit) xLen(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, v.k == KInt && s.prove(le(v.lin, linC(0))), "a nil node has subnodes")
		return
	}
	e.list(s, ins, e.whole(s))
	e.res(s, ins, v.k == KInt && s.eqLin(v.lin, e.n(s)), "it is not the number of subnodes")
}

// is: v is the element at i of L.
func (e *edit) is(s *State, v Val, i *Lin) bool {
	c := s.canon(v)
	return v.k == KRef && !c.one && c.base.id == s.gh.refs["L"].id && s.eqLin(c.lo, i)
}

func (e *edit) xGetAt(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has subnodes")
		return
	}
	e.list(s, ins, e.whole(s))
	i := s.gh.ints["a1"]
	if isNilV(s, v) {
		e.res(s, ins, s.prove(le(i.addK(1), linC(0))) || s.prove(le(e.n(s), i)), "no node is returned for an index in range")
		return
	}
	e.res(s, ins, e.is(s, v, i), "it is not the subnode at the index")
}

func (e *edit) xClear(s *State, ins ssa.Instruction, v Val) {
	if !e.isNilG(s) {
		e.list(s, ins, nil)
	}
}

func (e *edit) xDeleteAt(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		return
	}
	i, n := s.gh.ints["a1"], e.n(s)
	L := s.gh.refs["L"]
	switch {
	case s.prove(le(i.addK(1), linC(0))) || s.prove(le(n, i)) || s.nilness(L) == 1:
		e.list(s, ins, e.whole(s))
	case s.prove(le(linC(0), i)) && s.prove(le(i.addK(1), n)):
		e.list(s, ins, []seg{{base: L, lo: linC(0), hi: i}, {base: L, lo: i.addK(1), hi: n}})
	default:
		e.ob(s, ins, "the subnodes", "it is not looked whether the index is in range")
	}
}

// newNode: v is a new node that holds x and has no subnodes.
func (e *edit) newNode(s *State, v Val, x Val) bool {
	if !isObj(v) || s.nilness(v) != 2 {
		return false
	}
	c := s.canon(v)
	if !c.one || v.id == e.g(s).id || v.id == s.gh.refs["a1"].id {
		return false
	}
	t := e.this(s, v)
	if t.k != KRef || x.k != KRef || t.id != x.id && !e.boxed(s, t, x) {
		return false
	}
	return s.eqSeq(s.seqOf(e.r.p.loadOut(s, v)), nil)
}

// isObj: a pointer to an object, not to a part of it.
func isObj(v Val) bool { return v.k == KRef || v.k == KPtr && v.path == "" }

// boxed: t is an interface that holds x.
func (e *edit) boxed(s *State, t, x Val) bool {
	f := s.fact(t.id)
	return f.pay != nil && f.pay.k == x.k && f.pay.id == x.id
}

// added: the list after Add of the argument, and what it returns.
func (e *edit) added(s *State, ins ssa.Instruction, before []seg, v, x Val) {
	f := s.fact(x.id)
	if s.nilness(x) == 1 {
		e.list(s, ins, before)
		e.res(s, ins, isNilV(s, v), "there is a result without a node")
		return
	}
	if f.dyn != nil && isGraphT(f.dyn) {
		if f.pay == nil {
			e.ob(s, ins, "the result", "the node is not followed")
			return
		}
		if s.nilness(*f.pay) == 1 {
			e.list(s, ins, before)
			e.res(s, ins, isNilV(s, v), "there is a result without a node")
			return
		}
		e.list(s, ins, append(append([]seg{}, before...), s.canon(*f.pay)))
		e.res(s, ins, v.k == KRef && v.id == f.pay.id, "it is not the node added")
		return
	}
	e.list(s, ins, append(append([]seg{}, before...), s.canon(v)))
	e.res(s, ins, e.newNode(s, v, x), "it is not a new node with the value")
}

func (e *edit) xAdd(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has subnodes")
		return
	}
	e.added(s, ins, e.whole(s), v, e.arg(s, 1))
}

func (e *edit) xAddNodes(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has subnodes")
		return
	}
	if s.nilness(e.arg(s, 1)) == 1 {
		e.list(s, ins, e.whole(s))
		return
	}
	e.list(s, ins, append(append([]seg{}, e.whole(s)...), s.wholeSeq(s.gh.refs["M"])...))
	e.res(s, ins, v.k == KRef && v.id == e.g(s).id, "it is not the node")
}

// found: whether the element looked for is there; false in doubt.
func (e *edit) found(s *State, ins ssa.Instruction) bool {
	if s.gh.tags["hit"] == "yes" {
		return true
	}
	bad := ""
	if s.nilness(s.gh.refs["L"]) != 1 && !s.prove(le(e.n(s), s.gh.ints["next"])) {
		bad = "elements are left that have not been looked at"
	}
	e.ob(s, ins, "the end", bad)
	return false
}

func (e *edit) xNode(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has subnodes")
		return
	}
	e.list(s, ins, e.whole(s))
	if e.found(s, ins) {
		e.res(s, ins, e.is(s, v, s.gh.ints["k"]), "it is not the subnode found")
	} else {
		e.res(s, ins, isNilV(s, v), "there is a result but it was not found")
	}
}

func (e *edit) orNew(s *State, ins ssa.Instruction, v Val, empty bool) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has subnodes")
		return
	}
	if e.found(s, ins) {
		e.list(s, ins, e.whole(s))
		e.res(s, ins, e.is(s, v, s.gh.ints["k"]), "it is not the subnode found")
		if empty {
			e.res(s, ins, v.k == KRef && s.eqSeq(s.seqOf(e.r.p.loadOut(s, v)), nil), "it keeps its subnodes")
		}
		return
	}
	e.list(s, ins, append(append([]seg{}, e.whole(s)...), s.canon(v)))
	e.res(s, ins, e.newNode(s, v, e.arg(s, 1)), "it is not a new node with the text")
}

func (e *edit) xNodeOrNew(s *State, ins ssa.Instruction, v Val) { e.orNew(s, ins, v, false) }
func (e *edit) xCreate(s *State, ins ssa.Instruction, v Val)    { e.orNew(s, ins, v, true) }

func (e *edit) xNodeSet(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		return
	}
	var n Val
	if e.found(s, ins) {
		e.list(s, ins, e.whole(s))
		n = s.gh.refs["x"]
	} else {
		cur := s.normSeq(e.cur(s))
		if len(cur) == 0 || !cur[len(cur)-1].one {
			e.ob(s, ins, "the subnodes", "no node is added")
			return
		}
		n = cur[len(cur)-1].base
		e.list(s, ins, append(append([]seg{}, e.whole(s)...), s.canon(n)))
	}
	x := e.arg(s, 2)
	sub := &edit{r: e.r, f: e.f, m: e.m}
	f := s.fact(x.id)
	want := []seg{}
	ok := true
	switch {
	case s.nilness(x) == 1:
	case f.dyn != nil && isGraphT(f.dyn):
		if f.pay != nil && s.nilness(*f.pay) != 1 {
			want = append(want, s.canon(*f.pay))
			ok = v.k == KRef && v.id == f.pay.id
		}
	default:
		want = append(want, s.canon(v))
		ok = sub.newNode(s, v, x)
	}
	kids := s.seqOf(e.r.p.loadOut(s, n))
	if s.gh.tags["hit"] == "yes" {
		// the same node may have been read from the list more than once
		for _, id := range s.factIDs() {
			if c := s.canon(vRef(id)); !c.one && c.base.id == s.gh.refs["L"].id && s.eqLin(c.lo, s.gh.ints["k"]) {
				if l := s.seqOf(e.r.p.loadOut(s, vRef(id))); s.eqSeq(l, want) {
					kids = l
				}
			}
		}
	}
	e.res(s, ins, ok && s.eqSeq(kids, want), "its subnodes are "+s.showSeq(kids)+" instead of the value")
}

func (e *edit) xDelete(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		return
	}
	if s.gh.tags["hit"] == "yes" {
		e.ob(s, ins, "the end", "it ends with an element that has been found")
		return
	}
	e.found(s, ins)
	if acc, ok := s.gh.refs["acc"]; ok {
		e.list(s, ins, s.wholeSeq(acc))
		return
	}
	e.list(s, ins, e.whole(s))
}

// lenDiff: the condition says that the lists are not of the same length.
func (e *edit) lenDiff(s *State, c *Cond, want bool) bool {
	L, ok1 := s.gh.refs["L"]
	M, ok2 := s.gh.refs["M"]
	if c == nil || !ok1 || !ok2 {
		return false
	}
	if c.op == CNot {
		c, want = c.x, !want
	}
	n, m := s.lenOf(L), s.lenOf(M)
	if c.op != CEq || want || n == nil || m == nil {
		return false
	}
	z := func(l *Lin) bool { return l.isConst() && l.c == 0 }
	d := n.add(m, -1)
	return z(c.l.add(d, -1)) || z(c.l.add(d, 1))
}

func (e *edit) xEquals(s *State, ins ssa.Instruction, v Val) {
	if v.k != KBool {
		e.res(s, ins, false, "the result is not followed")
		return
	}
	for _, yes := range []bool{true, false} {
		for _, t := range s.clone().assume(v.cond, yes) {
			if e.lenDiff(t, v.cond, yes) {
				t.gh.tags["diff"] = "yes"
			}
			e.equal(t, ins, yes)
		}
	}
}

func (e *edit) equal(s *State, ins ssa.Instruction, yes bool) {
	g, c := e.g(s), e.arg(s, 1)
	gn, cn := s.nilness(g), s.nilness(c)
	switch {
	case gn == 1 && cn == 1 || g.id == c.id:
		e.res(s, ins, yes, "nodes that are the same are not equal")
		return
	case gn == 1 || cn == 1:
		if gn == 0 || cn == 0 {
			if yes {
				e.res(s, ins, s.prove(&Cond{op: CRefEq, id: g.id, id2: c.id}), "a node and nil are equal")
			}
			return
		}
		e.res(s, ins, !yes, "a node and nil are equal")
		return
	}
	e.list(s, ins, e.whole(s))
	n, m := e.n(s), s.lenOf(s.gh.refs["M"])
	if !yes {
		ok := s.gh.tags["this"] == "ne" || s.gh.tags["diff"] == "yes" || s.prove(le(n.addK(1), m)) || s.prove(le(m.addK(1), n)) || s.prove((&Cond{op: CEq, l: n.add(m, -1)}).not())
		e.res(s, ins, ok, "nodes differ without a difference")
		return
	}
	e.res(s, ins, s.gh.tags["this"] == "eq" && s.gh.tags["diff"] != "yes" && s.eqLin(n, m) && s.prove(le(n, s.gh.ints["next"])), "nodes are equal that may differ")
}

func (e *edit) xClone(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		e.res(s, ins, isNilV(s, v), "a nil node has a copy")
		return
	}
	e.list(s, ins, e.whole(s))
	if !isObj(v) || s.nilness(v) != 2 || v.id == e.g(s).id {
		e.res(s, ins, false, "it is not a new node")
		return
	}
	n := s.gh.ints["next"]
	out := e.r.p.loadOut(s, v)
	l := linC(0)
	if out.k == KRef && s.nilness(out) != 1 {
		l = s.lenOf(out)
	}
	e.res(s, ins, e.this(s, v).id == s.gh.refs["T"].id, "it does not hold the same")
	e.res(s, ins, s.eqLin(l, e.n(s)) && s.eqLin(n, e.n(s)) && s.eqLin(s.gh.ints["put"], n), "it does not have a copy of each subnode")
}

func (e *edit) xCopy(s *State, ins ssa.Instruction, v Val) {
	if e.isNilG(s) {
		return
	}
	if s.nilness(e.arg(s, 1)) == 1 {
		e.list(s, ins, e.whole(s))
		return
	}
	B, ok := s.gh.refs["B"]
	if !ok {
		e.ob(s, ins, "the subnodes", "nothing is copied")
		return
	}
	e.list(s, ins, s.wholeSeq(B))
	m := linC(0)
	if M := s.gh.refs["M"]; s.nilness(M) != 1 {
		m = s.lenOf(M)
	}
	e.res(s, ins, s.eqLin(s.gh.ints["next"], m) && s.eqLin(s.gh.ints["put"], m), "there is not a copy of each subnode")
}
