package main

// C18, the rest: a list of nodes is rendered from its first to its last, each
// once, and a for renders its body for each element of its list.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Report) tmplAll(root *ssa.Function, consts map[string]string) {
	p := r.p
	r.rule("all", "the function that renders a list of nodes takes each of them once, in order; what is no directive is written once, a path is evaluated and its result written once, an expression is evaluated once and nothing written")
	r.rule("for", "a for renders its body once for each subnode of the list that its expression gives, in order, with its variable holding just that one, until a break")
	kinds := map[string]string{}
	for k, v := range consts {
		kinds[k] = v
	}
	for _, k := range []string{"TypePath", "TypeExpression"} {
		c, ok := p.strConstOf(k)
		if !ok {
			r.fail("instances", k, "", "the constant is not found")
			return
		}
		kinds[k] = c
	}
	m := newModeRun(r, root)
	var ctxP, bufP int
	for i, q := range root.Params {
		if i > 0 && p.isGraphPtr(q.Type()) {
			ctxP = i
		}
		if isBuf(q.Type()) {
			bufP = i
		}
	}
	pos := p.pos(root.Pos())
	ob := func(s *State, ins ssa.Instruction, rule, what, bad string) {
		at := pos
		if ins != nil {
			at = p.insPos(ins)
		}
		m.ob(s, bad == "", rule, p.short(root)+": "+what, at, bad)
	}
	clear := func(s *State) {
		g := s.gh
		for _, k := range []string{"kind", "wrote", "eval", "list", "wrap", "brk", "failed"} {
			delete(g.tags, k)
		}
		for _, k := range []string{"node", "fl", "gi", "fv", "it"} {
			delete(g.refs, k)
		}
		delete(g.ints, "fn")
	}
	end := func(s *State) {
		g := s.gh
		kind := g.tags["kind"]
		if kind == "" {
			return
		}
		bad := ""
		w, ev := g.tags["wrote"], g.tags["eval"]
		switch kind {
		case "TypePath":
			switch {
			case ev != "1":
				bad = "a path is not evaluated once"
			case w != "1":
				bad = "the result of a path is not written once"
			}
		case "TypeExpression":
			switch {
			case ev != "1":
				bad = "an expression is not evaluated once"
			case w != "":
				bad = "something is written at an expression"
			}
		case "TypeIf", "TypeElseIf", "TypeElse", "TypeFor", "TypeBreak":
			if w != "" {
				bad = "something is written for a directive"
			}
		case "TypeEnd":
			if w == "2" || ev != "" {
				bad = "an end does something"
			}
		default:
			switch {
			case ev != "":
				bad = "a text is evaluated"
			case w != "1":
				bad = "a text is not written once"
			}
		}
		ob(s, nil, "all", strings.TrimPrefix(kind, "Type"), bad)
		if kind == "TypeFor" {
			bad := ""
			it, has := g.refs["it"]
			switch {
			case g.tags["list"] == "":
				bad = "its list is not evaluated"
			case g.tags["brk"] == "yes", g.tags["list"] == "no", g.tags["failed"] == "yes", has && s.nilness(it) == 1:
			default:
				fl, ok := g.refs["fl"]
				n := g.ints["fn"]
				if n == nil {
					n = linC(0)
				}
				if !ok {
					bad = "it does not look at the elements of the list that it is given"
				} else if l := s.lenOf(fl); s.nilness(fl) != 1 && (l == nil || !s.prove(le(l, n))) {
					bad = "it ends before the last element, without a break"
				}
			}
			ob(s, nil, "for", "the end of a for", bad)
		}
		clear(s)
	}
	// the functions that are gone into
	follow := func(fn *ssa.Function) bool {
		if helper(fn, root) {
			return true
		}
		rc := fn.Signature.Recv()
		if rc == nil || !p.isGraphPtr(rc.Type()) || !p.plain(fn, nil) || fn.Name() == "ThisString" || p.fi(fn).nIns > 150 {
			return false
		}
		for _, g := range callees(fn) {
			if p.isFn[g] && !(g.Signature.Recv() != nil && p.isGraphPtr(g.Signature.Recv().Type())) || g == root {
				return false
			}
		}
		return true
	}
	splitWrap := func(s *State, v Val) []exitSt {
		t := s.clone()
		t.gh.tags["wrap"] = "yes"
		delete(t.gh.refs, "fl")
		s.gh.tags["wrap"] = "no"
		w := s.fresh(types.Typ[types.String])
		s.upd(w.id, func(f *Fact) { f.notStr = append(append([]string{}, f.notStr...), "[") })
		return append(ret(t, t.strConst("[")), ret(s, w)...)
	}
	m.run(seqMode(&Mode{name: "template lists", parts: 600, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"] = linC(0)
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != root || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			s.gh.refs["g"] = env[root.Params[0]]
			s.gh.refs["ctx"], s.gh.refs["buf"] = env[root.Params[ctxP]], env[root.Params[bufP]]
			s.gh.refs["L"] = p.loadOut(s, env[root.Params[0]])
		},
		inline: func(s *State, fn *ssa.Function) bool {
			if fn == root || len(s.frames) > 7 {
				return false
			}
			return follow(fn)
		},
		apart: func(s *State, a, b VID) bool {
			// what is modified here is the variable and the context
			for i := 0; i < 2; i++ {
				if it, ok := s.gh.refs["it"]; ok && it.id == a {
					return true
				}
				if s.gh.refs["ctx"].id == a {
					return true
				}
				a, b = b, a
			}
			return false
		},
		same: func(s *State, x, y Val) *Cond {
			if it, ok := s.gh.refs["it"]; ok && x.k == KRef && y.k == KRef && (it.id == x.id || it.id == y.id) {
				return &Cond{op: CRefEq, id: x.id, id2: y.id}
			}
			return nil
		},
		branch: func(s *State, c *Cond, want bool) {
			for c.op == CNot {
				c, want = c.x, !want
			}
			if c.op == CNil && want && (c.id == s.gh.refs["g"].id || c.id == s.gh.refs["L"].id) {
				s.gh.tags["none"] = "yes"
			}
			it, ok := s.gh.refs["it"]
			if c.op == CNil && want && ok && c.id == it.id {
				s.gh.tags["failed"] = "yes"
			}
			fl, ok2 := s.gh.refs["fl"]
			if c.op != CRefEq || !want || !ok || !ok2 {
				return
			}
			e, o := vRef(c.id), vRef(c.id2)
			if e.id == it.id {
				e, o = o, e
			}
			if o.id != it.id {
				return
			}
			if q := s.canon(e); !q.one && q.base.id == fl.id && s.eqLin(q.lo, s.fnext()) {
				s.gh.ints["fn"] = q.lo.addK(1)
			}
		},
		loaded: func(s *State, ins ssa.Instruction, ptr, res Val) {
			thisLoaded(s, ins, ptr, res)
			if ptr.fld == nil || ptr.fld.Name() != "Out" || ptr.path != ".Out" || s.gh.tags["wrap"] != "yes" {
				return
			}
			gi, ok := s.gh.refs["gi"]
			if _, has := s.gh.refs["fl"]; !ok || has {
				return
			}
			if q := s.canon(vRef(ptr.id)); !q.one && q.base.id == gi.id && s.eqLin(q.lo, linC(0)) {
				s.gh.refs["fl"] = res
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g := s.gh
			if !p.isFn[c.fn] {
				for _, x := range c.args {
					if isObj(x) && x.id == g.refs["buf"].id && strings.HasPrefix(c.fn.Name(), "Write") {
						g.tags["wrote"] = map[string]string{"": "1", "1": "2", "2": "2"}[g.tags["wrote"]]
						if g.tags["kind"] == "other" && len(c.args) == 2 && isStrT(c.args[1].typOf(s)) {
							bad := ""
							if o, ok := s.memoOf(c.args[1], "txt"); !ok || o.id != g.refs["node"].id {
								bad = "what is written is not the text of the node"
							}
							ob(s, ins, "all", "the text", bad)
						}
					}
				}
				return nil, false
			}
			sg := c.fn.Signature
			recv := sg.Recv() != nil && p.isGraphPtr(sg.Recv().Type())
			switch {
			case recv && c.fn.Name() == "ThisString":
				if c.args[0].k != KRef {
					return nil, false
				}
				e := s.canon(c.args[0])
				if !e.one && e.base.id == g.refs["L"].id {
					node, has := g.refs["node"]
					if has && node.id == c.args[0].id {
						return tagTxt(m.kindSplit(s, c.args[0], kinds), c.args[0]), true
					}
					end(s)
					bad := ""
					if !s.eqLin(e.lo, g.ints["next"]) {
						bad = "the nodes are not taken one after the other"
					}
					ob(s, ins, "all", "the order", bad)
					g.ints["next"] = e.lo.addK(1)
					return tagTxt(m.kindSplit(s, c.args[0], kinds), c.args[0]), true
				}
				if fv, ok := g.refs["fv"]; ok && fv.id == c.args[0].id && g.tags["wrap"] == "" {
					return splitWrap(s, fv), true
				}
				return ret(s, s.fresh(sg.Results().At(0).Type())), true
			case c.fn == root:
				kind := g.tags["kind"]
				if kind == "TypeFor" {
					it, ok := g.refs["it"]
					fl, ok2 := g.refs["fl"]
					bad := ""
					switch {
					case g.tags["list"] == "no":
					case !ok:
						bad = "the variable of the loop is not known"
					case !ok2:
						bad = "what the body is rendered for is no element of the list"
					case !s.eqSeq(s.seqOf(p.loadOut(s, it)), []seg{{base: fl, lo: s.fnext(), hi: s.fnext().addK(1)}}):
						bad = "the variable does not hold just the next element: " + s.showSeq(s.seqOf(p.loadOut(s, it)))
					}
					ob(s, ins, "for", "the body of a for", bad)
					g.ints["fn"] = s.fnext().addK(1)
				}
				if it, ok := g.refs["it"]; ok && kind == "TypeFor" && s.nilness(it) != 1 {
					// the body may assign to it
					o := p.outOf(it)
					s.setCell(o, s.fresh(o.fld.Type()), o.fld.Type())
				}
				f := s.clone()
				if kind == "TypeFor" {
					s.gh.tags["brk"] = "yes"
				}
				return []exitSt{{s, vBool(condTrue), true}, {f, vBool(condTrue.not()), true}}, true
			case recv && sg.Params().Len() == 1 && p.isGraphPtr(sg.Params().At(0).Type()) && sg.Results().Len() == 2 && isIface(sg.Results().At(0).Type()):
				// an evaluation
				if g.tags["kind"] == "" {
					return nil, false
				}
				g.tags["eval"] = map[string]string{"": "1", "1": "2", "2": "2"}[g.tags["eval"]]
				if g.tags["kind"] != "TypeFor" {
					return s.a.results(s, c), true
				}
				if g.tags["list"] != "" {
					ob(s, ins, "for", "its list", "the list is evaluated more than once")
					return s.a.results(s, c), true
				}
				var out []exitSt
				for _, e := range s.a.results(s.clone(), c) {
					e.s.gh.tags["list"] = "no"
					e.s.gh.ints["fn"] = linC(0)
					out = append(out, e)
				}
				t := s.clone()
				t.gh.tags["list"] = "yes"
				t.gh.ints["fn"] = linC(0)
				v := t.fresh(sg.Recv().Type())
				t.setNil(v.id, false)
				x := t.fresh(sg.Results().At(0).Type())
				t.upd(x.id, func(f *Fact) { f.dyn, f.nl, f.pay = sg.Recv().Type(), 2, &v })
				o := p.loadOut(t, v)
				t.setNil(o.id, false)
				t.gh.refs["fv"], t.gh.refs["gi"], t.gh.refs["fl"] = v, o, o
				for _, u := range t.assume(le(linC(1), t.lenOf(o)), true) {
					if !u.z.bad {
						out = append(out, ret(u, tuple(x, u.errVal(true)))...)
					}
				}
				return out, true
			case recv && sg.Params().Len() == 1 && p.isGraphPtr(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isBoolT(sg.Results().At(0).Type()) && !helper(c.fn, root):
				// a condition
				return s.a.results(s, c), true
			case recv && c.fn.Name() == "Add" && g.tags["kind"] == "TypeFor" && c.args[0].k == KRef && c.args[0].id == g.refs["ctx"].id:
				// the variable
				v := s.fresh(sg.Results().At(0).Type())
				g.refs["it"] = v
				return ret(s, v), true
			}
			if !follow(c.fn) || len(s.frames) > 7 {
				return s.a.results(s, c), true
			}
			return nil, false
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			if head.Parent() == root && outermost(p.fi(root), head) {
				end(s)
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KBool {
				return
			}
			if s.quick(v.cond) > 0 {
				return
			}
			end(s)
			g, ok := s.gh.refs["g"]
			L := s.gh.refs["L"]
			bad := ""
			if ok && s.gh.tags["none"] == "" && s.nilness(g) != 1 && s.nilness(L) != 1 && !s.prove(le(s.lenOf(L), s.gh.ints["next"])) {
				bad = "it returns when nodes are left, without a break"
			}
			ob(s, nil, "all", "the end", bad)
		},
	}))
	r.floor("all", 6)
	r.floor("for", 2)
	r.assume = append(r.assume, "evaluating and rendering something does not change the list that is being gone through", fmt.Sprintf("the result of an indexed path is the element below a node named %q", "["))
}

func (s *State) fnext() *Lin {
	if n, ok := s.gh.ints["fn"]; ok {
		return n
	}
	return linC(0)
}

// tagTxt notes whose text a string is.
func tagTxt(l []exitSt, v Val) []exitSt {
	for _, e := range l {
		if e.v.k == KRef {
			e.s.setMemo(e.v.id, "txt", v)
		}
	}
	return l
}
