package main

// C43: finding, substituting and merging apply to the nodes that match.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C43"] = func(r *Report) {
		r.rule("find", "Find looks at each subnode once and in order, adds it to the result exactly if the expression given matches its own text, and gives nothing if none does")
		r.rule("substitute", "Substitute goes into each subnode once, gives it the new content exactly if its own text is the one given, and writes to nothing else")
		r.rule("merge", "Merge looks, for each subnode of the other graph in order, for the subnode of its own text; if there is one, it is emptied and the other is merged into it, unless it is the same node, and if there is none, a copy is added; nothing else is written")
		for _, n := range []string{"Find", "Substitute", "Merge"} {
			if l := r.named("(*ogdl.Graph)." + n); len(l) == 1 {
				r.saw(l[0])
				(&matcher{r: r, f: l[0], rule: map[string]string{"Find": "find", "Substitute": "substitute", "Merge": "merge"}[n]}).check()
			}
		}
		r.floor("find", 5)
		r.floor("substitute", 3)
		r.floor("merge", 5)
		r.assume = append(r.assume, "regexp does what it says", "Node, Add and Clone do what they say (c34, c13)", "the graphs that are merged share no nodes, other than subnodes at the same place of both")
	}
}

type matcher struct {
	r    *Report
	f    *ssa.Function
	rule string
	m    *modeRun
}

func (q *matcher) ob(s *State, ins ssa.Instruction, what, bad string) {
	if s.gh.tags["dead"] == "yes" {
		return
	}
	pos := q.r.p.pos(q.f.Pos())
	if ins != nil {
		pos = q.r.p.insPos(ins)
	}
	q.m.ob(s, bad == "", q.rule, what, pos, bad)
}

// elem: a value is the subnode that is next.
func (q *matcher) elem(s *State, v Val) bool {
	l, ok := s.gh.refs["PL"]
	if !ok || v.k != KRef {
		return false
	}
	e := s.canon(v)
	return !e.one && e.base.id == l.id && s.eqLin(e.lo, s.gh.ints["i"])
}

// text: a value is the text of the subnode that is next.
func (q *matcher) text(s *State, v Val) bool {
	for d := 0; d < 3 && v.k == KRef; d++ {
		if m, ok := s.memoOf(v, "txt"); ok {
			return q.elem(s, m)
		}
		p := s.fact(v.id).pay
		if p == nil {
			return false
		}
		v = *p
	}
	return false
}

func (q *matcher) is(s *State, v Val, n string) bool {
	w, ok := s.gh.refs[n]
	return ok && v.k == KRef && v.id == w.id
}

func (q *matcher) payload(s *State, v Val) Val {
	for d := 0; d < 3 && v.k == KRef; d++ {
		p := s.fact(v.id).pay
		if p == nil {
			break
		}
		v = *p
	}
	return v
}

// next: all that is to be done with a subnode has been done.
func (q *matcher) next(s *State) {
	g := s.gh
	g.ints["i"] = g.ints["i"].addK(1)
	for _, k := range []string{"eq", "rec", "sub", "look", "self", "clr", "hit"} {
		g.tags[k] = ""
	}
	delete(g.refs, "n")
	delete(g.refs, "w")
}

func (q *matcher) substituted(s *State) {
	g := s.gh
	if g.tags["rec"] == "yes" && (g.tags["eq"] == "no" || g.tags["sub"] == "yes") {
		q.next(s)
	}
}

func (q *matcher) check() {
	p, f := q.r.p, q.f
	gt := f.Signature.Recv().Type()
	q.m = newModeRun(q.r, f)
	q.m.run(seqMode(&Mode{name: q.rule, parts: 600, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["i"] = linC(0)
			for _, k := range []string{"eq", "rec", "sub", "look", "self", "clr", "hit", "any", "err", "dead", "none"} {
				g.tags[k] = ""
			}
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			env := s.top().env
			for i, a := range f.Params {
				if v := env[a]; v.k == KRef {
					s.gh.refs[argKey(i)] = v
				}
			}
			from := env[f.Params[0]]
			if q.rule == "merge" {
				from = env[f.Params[1]]
			}
			s.gh.refs["from"] = from
			s.gh.refs["PL"] = p.loadOut(s, from)
		},
		inline: func(s *State, fn *ssa.Function) bool { return fn != f && len(s.frames) < 8 },
		loaded: thisLoaded,
		apart: func(s *State, a, b VID) bool {
			n, ok := s.gh.refs["n"]
			return ok && (n.id == a || n.id == b) && s.gh.tags["self"] == "no"
		},
		same: func(s *State, x, y Val) *Cond {
			g := s.gh
			w, ok := g.refs["w"]
			a1 := g.refs[argKey(1)].id
			if ok && g.tags["eq"] == "no" && (x.id == w.id && y.id == a1 || x.id == a1 && y.id == w.id) {
				return condFalse // it was taken to differ
			}
			return nil
		},
		branch: func(s *State, c *Cond, want bool) {
			g := s.gh
			for c.op == CNot {
				c, want = c.x, !want
			}
			switch c.op {
			case CNil:
				if want && (c.id == g.refs[argKey(0)].id || c.id == g.refs["from"].id || c.id == g.refs["PL"].id) {
					g.tags["none"] = "yes"
				}
			case CRefEq:
				n, ok := g.refs["n"]
				if !ok || g.tags["look"] != "some" {
					return
				}
				o := c.id2
				if c.id2 == n.id {
					o = c.id
				} else if c.id != n.id {
					return
				}
				if q.elem(s, vRef(o)) {
					if want {
						q.next(s)
					} else {
						g.tags["self"] = "no"
					}
				}
			}
		},
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if ptr.path == "" && s.fact(ptr.id).fresh {
				s.setMemo(ptr.id, "new", vInt(linC(0)))
			}
			if ptr.fld == nil {
				return
			}
			if n := ptr.fld.Name(); n != "Out" && n != "This" || ptr.path != "."+n {
				return
			}
			if _, ok := s.memoOf(vRef(ptr.id), "new"); ok || s.fact(ptr.id).fresh {
				s.setMemo(ptr.id, "new", vInt(linC(0)))
				return
			}
			g := s.gh
			bad := ""
			switch {
			case q.rule == "substitute" && ptr.fld.Name() == "This":
				switch {
				case !q.elem(s, vRef(ptr.id)):
					bad = "a node is given the content that is not the one that was looked at"
				case g.tags["eq"] != "yes":
					bad = "a node is given the content though its text may not be the one given"
				case !s.sameVal(v, g.refs[argKey(2)]):
					bad = "a node is given another content"
				}
				g.tags["sub"] = "yes"
				q.ob(s, ins, "what is substituted", bad)
				q.substituted(s)
				return
			case q.rule == "merge" && ptr.fld.Name() == "Out" && g.tags["look"] == "some" && q.is(s, vRef(ptr.id), "n"):
				switch {
				case g.tags["self"] != "no":
					bad = "the subnode that is emptied may be the one that is to be merged"
				case s.nilness(v) != 1 && !s.prove(&Cond{op: CEq, l: s.lenOf(v)}):
					bad = "the subnode found is not emptied"
				}
				g.tags["clr"] = "yes"
				q.ob(s, ins, "emptying", bad)
				return
			}
			q.ob(s, ins, "what is written", "a node is written to that is none of those that match")
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g := s.gh
			sg := c.fn.Signature
			if !p.isFn[c.fn] {
				switch c.fn.RelString(nil) {
				case "regexp.Compile":
					bad := ""
					if !q.is(s, c.args[0], argKey(1)) {
						bad = "it is not the expression given that is used"
					}
					q.ob(s, ins, "the expression", bad)
					v := s.fresh(sg.Results().At(0).Type())
					t := s.clone()
					t.setNil(v.id, true)
					t.gh.tags["err"] = "yes"
					s.setNil(v.id, false)
					g.tags["err"] = "no"
					g.refs["exp"] = v
					return []exitSt{{s, tuple(v, s.errVal(true)), true}, {t, tuple(v, t.errVal(false)), true}}, true
				case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
					bad := ""
					switch {
					case !q.is(s, c.args[0], "exp"):
						bad = "it is not the expression given that is matched"
					case !q.text(s, c.args[1]):
						bad = "it is not the own text of the next subnode that is matched"
					}
					q.ob(s, ins, "what is matched", bad)
					t := s.clone()
					t.gh.tags["hit"] = "yes"
					q.next(s)
					return append(ret(s, vBool(condFalse)), ret(t, vBool(condTrue))...), true
				}
				return nil, false
			}
			switch {
			case c.fn == f && q.rule != "find":
				bad := ""
				switch {
				case q.rule == "substitute":
					switch {
					case !q.elem(s, c.args[0]):
						bad = "it does not go into the next subnode"
					case g.tags["rec"] != "":
						bad = "it goes into a subnode twice"
					case !q.is(s, c.args[1], argKey(1)) || !s.sameVal(c.args[2], g.refs[argKey(2)]):
						bad = "it goes into a subnode with something else"
					}
					g.tags["rec"] = "yes"
					q.ob(s, ins, "the subnodes", bad)
					q.substituted(s)
				default:
					switch {
					case g.tags["look"] != "some" || !q.is(s, c.args[0], "n"):
						bad = "it merges into another node than the one found"
					case !q.elem(s, c.args[1]):
						bad = "it merges something else than the next subnode"
					case g.tags["clr"] != "yes":
						bad = "what is merged into has not been emptied"
					}
					q.ob(s, ins, "merging", bad)
					q.next(s)
				}
				return []exitSt{{s, Val{}, false}}, true
			case textOf(p, c.fn):
				x := c.args[0]
				m, ok := s.memoOf(x, "of")
				if ok {
					x = m
				}
				// the value of a node is something else than its own text
				if sg.Recv() != nil && c.fn.Name() != "ThisString" {
					return ret(s, s.fresh(types.Typ[types.String])), true
				}
				if !ok && sg.Recv() == nil {
					if m := q.payload(s, x); isGraphT(sg.Params().At(0).Type()) {
						x = m
					} else {
						return ret(s, s.fresh(types.Typ[types.String])), true
					}
				}
				w := s.fresh(types.Typ[types.String])
				s.setMemo(w.id, "txt", x)
				if q.rule == "substitute" && q.elem(s, x) {
					if g.tags["eq"] == "" {
						t := s.clone()
						t.gh.tags["eq"] = "yes"
						s.gh.tags["eq"] = "no"
						s.gh.refs["w"] = w
						out := ret(t, t.gh.refs[argKey(1)])
						q.substituted(s)
						return append(out, ret(s, w)...), true
					} else if g.tags["eq"] == "yes" {
						return ret(s, g.refs[argKey(1)]), true
					}
				}
				return ret(s, w), true
			case q.rule == "merge" && c.fn.Name() == "Clone" && sg.Recv() != nil && isGraphT(sg.Recv().Type()):
				v := s.fresh(gt)
				s.setNil(v.id, false)
				s.setMemo(v.id, "clone", c.args[0])
				return ret(s, v), true
			case q.rule == "merge" && c.fn.Name() == "Node" && sg.Recv() != nil && isGraphT(sg.Recv().Type()):
				bad := ""
				switch {
				case !q.is(s, c.args[0], argKey(0)):
					bad = "it looks for a subnode of another node"
				case g.tags["look"] != "":
					bad = "it looks twice"
				case !q.text(s, c.args[1]):
					bad = "it looks for something else than the own text of the next subnode"
				}
				q.ob(s, ins, "looking for it", bad)
				v := s.fresh(gt)
				t := s.clone()
				t.setNil(v.id, true)
				t.gh.tags["look"] = "none"
				s.setNil(v.id, false)
				g.tags["look"] = "some"
				g.refs["n"] = v
				return append(ret(t, v), ret(s, v)...), true
			case q.rule == "merge" && adds(c.fn):
				bad := ""
				m, ok := s.memoOf(q.payload(s, c.args[1]), "clone")
				switch {
				case !q.is(s, c.args[0], argKey(0)):
					bad = "it adds to another node"
				case g.tags["look"] != "none":
					bad = "it adds a subnode without having looked for it"
				case !ok || !q.elem(s, m):
					bad = "what it adds is no copy of the next subnode"
				}
				q.ob(s, ins, "adding", bad)
				q.next(s)
				v := s.fresh(gt)
				s.setNil(v.id, false)
				return ret(s, v), true
			case q.rule == "find" && adds(c.fn):
				bad := ""
				switch {
				case !q.elem(s, q.payload(s, c.args[1])):
					bad = "it adds something else than the next subnode"
				case g.tags["hit"] != "yes":
					bad = "it adds a subnode that may not match"
				case g.refs["r"].k == KRef && !q.is(s, c.args[0], "r"):
					bad = "it adds to another node than the result"
				case q.is(s, c.args[0], argKey(0)) || !isObj(c.args[0]):
					bad = "it adds to the graph"
				}
				q.ob(s, ins, "adding", bad)
				g.refs["r"] = c.args[0]
				g.tags["any"] = "yes"
				q.next(s)
				return nil, false
			case q.rule == "find" && sg.Recv() == nil && sg.Params().Len() == 1 && isIface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type()):
				v := s.fresh(gt)
				s.setNil(v.id, false)
				s.upd(v.id, func(f *Fact) { f.fresh = true })
				s.setMemo(v.id, "new", vInt(linC(0)))
				o := p.loadOut(s, v)
				s.setNil(o.id, true)
				g.refs["r"] = v
				return ret(s, v), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) != 2 {
				return
			}
			g := s.gh
			pl := g.refs["PL"]
			none := g.tags["none"] == "yes" || s.nilness(g.refs[argKey(0)]) == 1 || s.nilness(g.refs["from"]) == 1
			end := none || s.nilness(pl) == 1 || s.prove(le(s.lenOf(pl), g.ints["i"]))
			if q.rule == "find" && s.nilness(v.elts[1]) != 1 {
				bad := ""
				if g.tags["err"] != "yes" {
					bad = "there is an error though the expression is valid"
				}
				q.ob(s, nil, "the error", bad)
				return
			}
			bad := ""
			if q.rule == "find" && g.tags["err"] == "yes" {
				bad = "there is no error though the expression is not valid"
			} else if !end {
				bad = "it may end before all subnodes have been dealt with"
			}
			q.ob(s, nil, "all subnodes", bad)
			if q.rule != "find" {
				return
			}
			bad = ""
			if g.tags["any"] == "yes" {
				if !q.is(s, v.elts[0], "r") {
					bad = "the result is not the node with those that match"
				}
			} else if s.nilness(v.elts[0]) != 1 {
				bad = "there is a result though nothing matches"
			}
			q.ob(s, nil, "the result", bad)
		},
	}))
}
