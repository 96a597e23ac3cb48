package main

// C37: everything that is read ends up in the tree.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C37"] = func(r *Report) {
		r.rule("token", "in each function of the parser, the value of a token that was read is added once, as it is, before another is read, another function of the parser is called, or the function returns; and nothing else is added but constants and what the function was given")
		r.rule("event", "adding to the event handler appends the value to its items and the level to its levels, and deleting removes the last of both; one more, one less and setting the level do just that")
		r.rule("tree", "the tree has a new node with each item, in their order, added once below the last node of the level above, or the root")
		p := r.p
		h := handlerOf(p)
		if h == nil {
			r.fail("instances", "event handler", "", "it is not found")
			return
		}
		n := 0
		for _, f := range p.fns {
			if f.Blocks == nil || !parses(p, f) || isToken(p, f) {
				continue
			}
			r.saw(f)
			x := &reading{r: r, f: f}
			if x.check() {
				n++
			}
		}
		if n < 3 {
			r.fail("instances", "functions that read tokens", "", "there are too few")
		}
		for _, f := range p.fns {
			if f.Blocks != nil && p.recvNamed(f, "SimpleEventHandler") {
				r.saw(f)
				h.check(r, f)
			}
		}
		r.floor("token", 10)
		r.floor("event", 9)
		r.floor("tree", 4)
		r.assume = append(r.assume, "tokens have the text that matched (c08)", "a node has a node of the level above before it (c09)")
	}
}

// parses: a function that has a parser.
func parses(p *Prog, f *ssa.Function) bool {
	for _, q := range f.Params {
		if isNamedPtr(q.Type(), p.root.Path(), "Parser") {
			return true
		}
	}
	return false
}

// isToken: what is read and if something was.
func isToken(p *Prog, f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() < 2 || !isBoolT(res.At(1).Type()) || !isStrT(res.At(0).Type()) && !isIface(res.At(0).Type()) || isErrorT(res.At(0).Type()) {
		return false
	}
	for _, q := range f.Params {
		if isNamedPtr(q.Type(), p.root.Path(), "Parser") || isNamedPtr(q.Type(), p.root.Path(), "Lexer") {
			return true
		}
	}
	return false
}

type reading struct {
	r *Report
	f *ssa.Function
	m *modeRun
}

func (x *reading) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := x.r.p.pos(x.f.Pos())
	if ins != nil {
		pos = x.r.p.insPos(ins)
	}
	x.m.ob(s, bad == "", "token", what, pos, bad)
}

func (x *reading) left(s *State, ins ssa.Instruction, what string) {
	bad := ""
	if s.gh.tags["read"] == "yes" {
		bad = "what was read before is not added"
	}
	x.ob(s, ins, what, bad)
}

// elemIx: the index of an element.
func elemIx(ptr Val) *Lin {
	if ptr.ix != nil {
		return ptr.ix
	}
	if k, err := strconv.Atoi(strings.Trim(ptr.path, "[]")); err == nil && strings.HasPrefix(ptr.path, "[") {
		return linC(int64(k))
	}
	return nil
}

func unbox(s *State, v Val) Val {
	for d := 0; d < 3 && v.k == KRef; d++ {
		p := s.fact(v.id).pay
		if p == nil {
			break
		}
		v = *p
	}
	return v
}

func (x *reading) check() bool {
	p, f := x.r.p, x.f
	x.m = newModeRun(x.r, f)
	some := false
	x.m.run(&Mode{name: "token", parts: 400, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost { return newGhost() },
		entry: func(s *State, fn *ssa.Function) {
			if fn == f && len(s.frames) == 1 {
				for i, q := range f.Params {
					if v := s.top().env[q]; v.k == KRef && i > 0 {
						s.gh.refs[argKey(i)] = v
					}
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return parses(p, fn) },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			g := s.gh
			switch {
			case p.recvNamed(c.fn, "SimpleEventHandler"):
				at := contentArg(c.fn)
				if at < 0 {
					return s.a.results(s, c), true
				}
				v, bad := unbox(s, c.args[at]), ""
				tok, ok := g.refs["tok"]
				switch {
				case ok && g.tags["read"] == "yes" && s.sameVal(v, unbox(s, tok)):
					g.tags["read"] = "no"
				case v.k == KRef && s.fact(v.id).str != nil:
				default:
					bad = "what is added is not what was read, or is added again"
					for i := range f.Params {
						if a, ok := g.refs[argKey(i)]; ok && s.sameVal(v, unbox(s, a)) {
							bad = ""
						}
					}
				}
				x.ob(s, ins, "what is added", bad)
				return s.a.results(s, c), true
			case parses(p, c.fn) && len(s.frames) < 6 && x.helper(c.fn):
				return nil, false
			case isToken(p, c.fn):
				some = true
				x.left(s, ins, "reading on")
				var out []exitSt
				for _, e := range s.a.results(s, c) {
					if e.v.k != KTuple || len(e.v.elts) < 2 || e.v.elts[1].k != KBool {
						out = append(out, e)
						continue
					}
					ok := e.v.elts[1].cond
					for _, t := range e.s.clone().assume(ok, false) {
						t.gh.tags["read"] = "no"
						out = append(out, exitSt{t, e.v, true})
					}
					for _, t := range e.s.assume(ok, true) {
						t.gh.tags["read"], t.gh.refs["tok"] = "yes", e.v.elts[0]
						out = append(out, exitSt{t, e.v, true})
					}
				}
				return out, true
			case parses(p, c.fn):
				x.left(s, ins, "going on")
			}
			return s.a.results(s, c), true
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn == f && len(s.frames) <= 2 {
				x.left(s, nil, "the end")
			}
		},
	})
	return some
}

// helper: a function that is not exported, and is not recursive.
func (x *reading) helper(f *ssa.Function) bool {
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	return !x.r.p.reachPlus(f)[f]
}

// contentArg: the parameter with what is added, or -1.
func contentArg(f *ssa.Function) int {
	for i, q := range f.Params {
		t := q.Type()
		if i > 0 && (isStrT(t) || isIface(t) || isBytesT(t)) {
			return i
		}
	}
	return -1
}

// handler: the fields of an event handler.
type handler struct {
	items, levels, cur *types.Var
	typ                types.Type
}

func handlerOf(p *Prog) *handler {
	o := p.root.Scope().Lookup("SimpleEventHandler")
	if o == nil {
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	h := &handler{typ: o.Type()}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if sl, ok := v.Type().Underlying().(*types.Slice); ok {
			if isIface(sl.Elem()) {
				h.items = v
			} else if isIntegerT(sl.Elem()) {
				h.levels = v
			}
		}
	}
	if f := p.method("SimpleEventHandler", "Level"); f != nil {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if a, ok := i.(*ssa.FieldAddr); ok {
					h.cur = st.Field(a.Field)
				}
			}
		}
	}
	if h.items == nil || h.levels == nil || h.cur == nil {
		return nil
	}
	return h
}

func (h *handler) get(s *State, e Val, fld *types.Var) Val {
	return s.load(Val{k: KPtr, id: e.id, path: "." + fld.Name(), fld: fld}, fld.Type())
}

func (h *handler) check(r *Report, f *ssa.Function) {
	p := r.p
	m := newModeRun(r, f)
	tree := false
	if res := f.Signature.Results(); res.Len() == 1 && isGraphT(res.At(0).Type()) {
		tree = true
	}
	ob := func(s *State, rule string, ins ssa.Instruction, what, bad string) {
		pos := p.pos(f.Pos())
		if ins != nil {
			pos = p.insPos(ins)
		}
		m.ob(s, bad == "", rule, what, pos, bad)
	}
	t := &treeRun{p: p, h: h, ob: func(s *State, ins ssa.Instruction, what, bad string) { ob(s, "tree", ins, what, bad) }}
	mode := &Mode{name: "event", parts: 400, noOb: true, terms: true, paths: true, noGC: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			for _, k := range []string{"next", "off", "lv"} {
				g.ints[k] = linC(0)
			}
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			e := env[f.Params[0]]
			s.setNil(e.id, false)
			g := s.gh
			g.refs["e"] = e
			for i, q := range f.Params {
				if v := env[q]; v.k == KRef {
					g.refs[argKey(i)] = v
				} else if v.k == KInt {
					g.ints[argKey(i)] = v.lin
				}
			}
			g.refs["items"], g.refs["levels"] = h.get(s, e, h.items), h.get(s, e, h.levels)
			if c := h.get(s, e, h.cur); c.k == KInt {
				if id, ok := c.lin.single(); ok {
					s.upd(id, func(f *Fact) { f.full = false })
				}
				g.ints["cur"] = c.lin
			}
			if i, l := s.lenOf(g.refs["items"]), s.lenOf(g.refs["levels"]); i != nil && l != nil {
				s.z.assumeLe(i.add(l, -1))
				s.z.assumeLe(l.add(i, -1))
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return fn != f && p.recvNamed(fn, "SimpleEventHandler") && len(s.frames) < 6
		},
		appended: func(s *State, ins ssa.Instruction, a, b Val, elems map[int64]Val, res Val) {
			n := s.lenOf(b)
			if n == nil || !n.isConst() || n.c != 1 || len(elems) != 1 || res.k != KRef {
				return
			}
			of := a
			if a.k != KRef || s.nilness(a) == 1 {
				of = vRef(nilID)
			}
			s.setMemo(res.id, "app of", of)
			s.setMemo(res.id, "app", elems[0])
		},
		sliced: func(s *State, ins ssa.Instruction, x Val, lo, hi *Lin, res Val) {
			if x.k != KRef || res.k != KRef || lo == nil || hi == nil || !s.eqLin(lo, linC(0)) {
				return
			}
			s.setMemo(res.id, "cut of", x)
			s.setMemo(res.id, "cut", vInt(hi))
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			if tree {
				t.exit(s, v)
				return
			}
			ob(s, "event", nil, "the items", h.after(s, f))
		},
	}
	if tree {
		t.hooks(mode)
	}
	m.run(mode)
}

// after: what is wrong with the handler after a method.
func (h *handler) after(s *State, f *ssa.Function) string {
	g := s.gh
	e := g.refs["e"]
	items, levels, cur := h.get(s, e, h.items), h.get(s, e, h.levels), h.get(s, e, h.cur)
	old := g.ints["cur"]
	if old == nil || cur.k != KInt {
		return "the level is not followed"
	}
	var level *Lin
	for i := range f.Params {
		if v, ok := g.ints[argKey(i)]; ok && i > 0 {
			level = v
		}
	}
	isOld := func(v Val, k string) bool { return v.k == KRef && v.id == g.refs[k].id }
	at := contentArg(f)
	same := isOld(items, "items") && isOld(levels, "levels")
	switch {
	case at >= 0:
		if level == nil {
			level = old
		}
		arg := g.refs[argKey(at)]
		added := func(v Val, k string, is func(Val) bool) bool {
			of, ok := s.memoOf(v, "app of")
			w, ok2 := s.memoOf(v, "app")
			return ok && ok2 && (of.id == g.refs[k].id || s.nilness(g.refs[k]) == 1 && s.nilness(of) == 1) && is(w)
		}
		switch {
		case !added(items, "items", func(v Val) bool { return s.sameVal(unbox(s, v), unbox(s, arg)) }):
			return "the value is not added after the others"
		case !added(levels, "levels", func(v Val) bool { return v.k == KInt && s.eqLin(v.lin, level) }):
			return "the level of the value is not added after the others"
		case !s.eqLin(cur.lin, old):
			return "the current level is changed"
		}
	case f.Name() == "Delete":
		cut := func(v Val, k string) bool {
			of, ok := s.memoOf(v, "cut of")
			n, ok2 := s.memoOf(v, "cut")
			return ok && ok2 && of.id == g.refs[k].id && n.k == KInt && s.eqLin(n.lin, s.lenOf(of).addK(-1))
		}
		n := s.lenOf(g.refs["items"])
		if same {
			if n != nil && !s.prove(le(n, linC(0))) && s.nilness(g.refs["items"]) != 1 {
				return "nothing is deleted"
			}
		} else if !cut(items, "items") || !cut(levels, "levels") {
			return "it is not the last one that is deleted"
		}
		if !s.eqLin(cur.lin, old) {
			return "the current level is changed"
		}
	case !same:
		return "the items or their levels are changed"
	case f.Name() == "SetLevel":
		if level == nil || !s.eqLin(cur.lin, level) {
			return "the level is not the one given"
		}
	case f.Name() == "Inc":
		if !s.eqLin(cur.lin, old.addK(1)) {
			return "the level is not one more"
		}
	case f.Name() == "Dec":
		if !s.eqLin(cur.lin, old.addK(-1)) && !(s.eqLin(cur.lin, old) && s.prove(le(old, linC(0)))) {
			return "the level is not one less"
		}
	case f.Name() == "Level":
		if !s.eqLin(cur.lin, old) {
			return "the level is changed"
		}
	}
	return ""
}

// treeRun: the nodes are added one after the other.
type treeRun struct {
	p  *Prog
	h  *handler
	ob func(s *State, ins ssa.Instruction, what, bad string)
}

func (t *treeRun) step(s *State) {
	g := s.gh
	if g.tags["att"] == "yes" && g.tags["put"] == "yes" {
		g.ints["next"] = g.ints["next"].addK(1)
		delete(g.tags, "att")
		delete(g.tags, "put")
		delete(g.tags, "lv")
	}
}

func (t *treeRun) this(s *State, v Val) Val {
	return (&edit{r: &Report{p: t.p}}).this(s, v)
}

func (t *treeRun) hooks(m *Mode) {
	m.loaded = func(s *State, ins ssa.Instruction, ptr, res Val) {
		g := s.gh
		ix := elemIx(ptr)
		if ix == nil || !s.eqLin(ix, g.ints["next"]) {
			return
		}
		if ptr.id == g.refs["levels"].id && res.k == KInt {
			if id, ok := res.lin.single(); ok {
				s.upd(id, func(f *Fact) { f.full = false })
			}
			g.ints["lv"], g.tags["lv"] = res.lin, "yes"
		}
		if ptr.id == g.refs["items"].id && res.k == KRef {
			g.refs["item"] = res
		}
	}
	m.mapped = func(s *State, ins ssa.Instruction, mp, k, v Val, write bool) {
		g := s.gh
		if k.k != KInt {
			return
		}
		if !write {
			if v.k == KRef {
				s.setMemo(v.id, "at", k)
				s.setMemo(v.id, "in", mp)
			}
			return
		}
		n, isNode := g.refs["node"]
		bad := ""
		switch {
		case g.tags["root"] == "":
			if !isObj(v) || !k.lin.isConst() {
				bad = "the first node is not the root"
			} else {
				g.tags["root"] = "yes"
				g.refs["root"], g.refs["map"], g.ints["off"] = v, mp, k.lin
			}
			t.ob(s, ins, "the root", bad)
			return
		case mp.id != g.refs["map"].id:
			bad = "there is more than one map"
		case g.tags["put"] == "yes":
			bad = "a node is put twice"
		case g.tags["lv"] != "yes" || !s.eqLin(k.lin, g.ints["lv"].add(g.ints["off"], 1).addK(1)):
			bad = "the node is not put at its level"
		case !isNode || g.tags["att"] == "yes" && !(isObj(v) && v.id == n.id):
			if isNode || !isObj(v) {
				bad = "it is not the node with the item that is put"
			} else {
				g.refs["node"] = v
			}
		case g.tags["att"] == "":
			g.refs["node"] = v
		}
		t.ob(s, ins, "the last nodes", bad)
		g.tags["put"] = "yes"
		t.step(s)
	}
	m.inline = func(s *State, fn *ssa.Function) bool {
		return len(s.frames) < 6 && !adds(fn)
	}
	m.call = func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
		if c.fn == nil || !t.p.isFn[c.fn] || !adds(c.fn) {
			return nil, false
		}
		g := s.gh
		par, v := c.args[0], unbox(s, c.args[1])
		at, ok := s.memoOf(par, "at")
		in, ok2 := s.memoOf(par, "in")
		bad := ""
		item, hasItem := g.refs["item"]
		switch {
		case g.tags["root"] == "" || !ok || !ok2 || in.id != g.refs["map"].id:
			bad = "it is not a node of the level above that it is added to"
		case g.tags["lv"] != "yes" || at.k != KInt || !s.eqLin(at.lin, g.ints["lv"].add(g.ints["off"], 1)):
			bad = "it is added at another level"
		case g.tags["att"] == "yes":
			bad = "a node is added twice"
		case !isObj(v) || !s.fact(v.id).fresh && v.k != KPtr:
			bad = "what is added is no new node"
		case !hasItem || !s.sameVal(t.this(s, v), item):
			bad = "what is added is not the next item"
		case g.tags["put"] == "yes" && g.refs["node"].id != v.id:
			bad = "what is added is not what was put"
		}
		t.ob(s, ins, "each item", bad)
		g.tags["att"] = "yes"
		g.refs["node"] = v
		t.step(s)
		return s.a.results(s, c), true
	}
}

func (t *treeRun) exit(s *State, v Val) {
	g := s.gh
	bad := ""
	n := s.lenOf(g.refs["items"])
	switch {
	case g.tags["att"] != "" || g.tags["put"] != "":
		bad = "a node is added without being put, or put without being added"
	case !isObj(v) || v.id != g.refs["root"].id:
		bad = "the result is not the root"
	case s.nilness(g.refs["items"]) != 1 && (n == nil || !s.prove(le(n, g.ints["next"]))):
		bad = "it ends before the last item"
	}
	t.ob(s, nil, "the tree", bad)
}
