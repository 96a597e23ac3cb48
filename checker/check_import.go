package main

// C38: importing JSON leaves out nothing.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C38"] = func(r *Report) {
		r.rule("result", "what FromJSON gives for a document without errors is the converted value, or its only subnode if it is no list")
		r.rule("convert", "a list is converted by converting each element once, in order, and adding it; an object by adding a node of each key with the converted value of that key; anything else by adding it, numbers as numbers")
		p := r.p
		roots := r.named("ogdl.FromJSON")
		if len(roots) != 1 {
			return
		}
		var conv *ssa.Function
		for f := range p.reach(roots) {
			if converts(f) && p.reachPlus(f)[f] && (conv == nil || f.Pos() < conv.Pos()) {
				conv = f
			}
		}
		if conv == nil {
			r.fail("instances", "conversion", "", "the function is not found")
			return
		}
		r.saw(roots[0])
		r.saw(conv)
		(&importing{r: r, f: conv, conv: conv}).convert()
		(&importing{r: r, f: roots[0], conv: conv}).result()
		r.floor("result", 1)
		r.floor("convert", 6)
		r.assume = append(r.assume, "encoding/json gives the value of the document", "sort.Strings only reorders")
	}
}

// converts: a function from a value to a node.
func converts(f *ssa.Function) bool {
	sg := f.Signature
	return sg.Recv() == nil && sg.Params().Len() == 1 && isIface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type())
}

type importing struct {
	r       *Report
	f, conv *ssa.Function
	m       *modeRun
}

func (x *importing) ob(s *State, rule string, ins ssa.Instruction, what, bad string) {
	pos := x.r.p.pos(x.f.Pos())
	if ins != nil {
		pos = x.r.p.insPos(ins)
	}
	x.m.ob(s, bad == "", rule, what, pos, bad)
}

func isValueList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isIface(sl.Elem())
}

func isStrList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isStrT(sl.Elem())
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// result: FromJSON.
func (x *importing) result() {
	p, f := x.r.p, x.f
	x.m = newModeRun(x.r, f)
	x.m.run(&Mode{name: "result", parts: 200, noOb: true, paths: true, noGC: true,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		inline: func(s *State, fn *ssa.Function) bool { return fn != f && fn != x.conv && len(s.frames) < 6 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			g := s.gh
			switch {
			case c.fn == x.conv:
				bad := ""
				if _, again := g.refs["R"]; again {
					bad = "it converts twice"
				}
				x.ob(s, "result", ins, "the value", bad)
				v := s.fresh(c.fn.Signature.Results().At(0).Type())
				s.setNil(v.id, false)
				g.refs["R"], g.refs["v"] = v, c.args[0]
				// lists are kept apart
				var out []exitSt
				for _, l := range []bool{true, false} {
					for _, t := range s.clone().assume(&Cond{op: CType, id: c.args[0].id, t: types.NewSlice(types.NewInterfaceType(nil, nil))}, l) {
						t.gh.tags["list"] = map[bool]string{true: "yes", false: "no"}[l]
						out = append(out, ret(t, v)...)
					}
				}
				return out, true
			case c.fn.Name() == "GetAt" && g.refs["R"].k == KRef && c.args[0].id == g.refs["R"].id:
				v := s.fresh(c.fn.Signature.Results().At(0).Type())
				if c.args[1].k == KInt && s.eqLin(c.args[1].lin, linC(0)) {
					s.setMemo(v.id, "only", g.refs["R"])
				}
				return ret(s, v), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 || v.k != KTuple || len(v.elts) != 2 {
				return
			}
			g, bad := s.gh, ""
			if s.nilness(v.elts[1]) != 1 {
				return
			}
			w := v.elts[0]
			r, ok := g.refs["R"]
			_, only := s.memoOf(w, "only")
			switch {
			case !ok:
				bad = "nothing is converted"
			case isObj(w) && w.id == r.id:
			case !only:
				bad = "the result is not the converted value"
			case g.tags["list"] != "no":
				bad = "only the first element of a list is returned"
			}
			x.ob(s, "result", nil, "the result", bad)
		},
	})
}

// rangesMap: a block that gets the next entry of a map.
func rangesMap(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		if n, ok := i.(*ssa.Next); ok && !n.IsString {
			return true
		}
	}
	return false
}

// kinds: the value is a list, an object, or something else.
func (x *importing) kinds(s *State) []*State {
	v := s.gh.refs["v"]
	any := types.NewInterfaceType(nil, nil)
	rest := []*State{s}
	var out []*State
	for k, t := range []types.Type{types.NewSlice(any), types.NewMap(types.Typ[types.String], any)} {
		is := &Cond{op: CType, id: v.id, t: t}
		var no []*State
		for _, s := range rest {
			for _, u := range s.clone().assume(is, true) {
				u.a.asserted(u, v, t, false)
				u.gh.tags["kind"] = []string{"list", "map"}[k]
				out = append(out, u)
			}
			no = append(no, s.assume(is, false)...)
		}
		rest = no
	}
	return append(out, rest...)
}

// convert: the conversion of a value.
func (x *importing) convert() {
	p, f := x.r.p, x.f
	x.m = newModeRun(x.r, f)
	in := func(s *State, v Val, k string) bool {
		w, ok := s.gh.refs[k]
		return ok && isObj(v) && isObj(w) && v.id == w.id
	}
	// of: the list or map is the value
	of := func(s *State, v Val) bool {
		pay := s.fact(s.gh.refs["v"].id).pay
		return isObj(v) && (pay != nil && pay.id == v.id)
	}
	x.m.run(&Mode{name: "convert", parts: 400, noOb: true, noGC: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"], g.ints["mk"] = linC(0), linC(0)
			g.refs["K"] = vRef(nilID)
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn == f && len(s.frames) == 1 {
				s.gh.refs["v"] = s.top().env[f.Params[0]]
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return fn != x.conv && len(s.frames) < 6 && fn.Signature.Recv() == nil
		},
		branch: func(s *State, c *Cond, want bool) {},
		mapped: func(s *State, ins ssa.Instruction, m, k, v Val, write bool) {
			g := s.gh
			if write || !of(s, m) {
				return
			}
			if _, ok := ins.(*ssa.Next); ok {
				g.refs["key"], g.tags["got"] = k, "no"
				return
			}
			if v.k == KRef {
				s.setMemo(v.id, "at", k)
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			if s.gh.tags["got"] != "" && rangesMap(head) {
				bad := ""
				if s.gh.tags["got"] == "no" {
					bad = "a key is not kept"
				}
				x.ob(s, "convert", nil, "the keys", bad)
				delete(s.gh.tags, "got")
			}
		},
		appended: func(s *State, ins ssa.Instruction, a, b Val, elems map[int64]Val, res Val) {
			v, ok := ins.(ssa.Value)
			if !ok || !isStrList(v.Type()) || res.k != KRef {
				return
			}
			g := s.gh
			if a.k == 0 {
				if n := s.lenOf(res); n != nil && s.eqLin(n, linC(0)) {
					g.refs["K"] = res
				}
				return
			}
			k, ok := g.refs["key"]
			if g.tags["got"] == "no" && ok && len(elems) == 1 && s.sameVal(elems[0], k) && (in(s, a, "K") || s.nilness(a) == 1 && s.nilness(g.refs["K"]) == 1) {
				g.tags["got"] = "yes"
				g.refs["K"] = res
			}
		},
		loaded: func(s *State, ins ssa.Instruction, ptr, res Val) {
			g, ix := s.gh, elemIx(ptr)
			if ix == nil || res.k != KRef {
				return
			}
			if ptr.id == g.refs["K"].id && s.eqLin(ix, g.ints["mk"]) {
				g.refs["ck"] = res
			}
			if pay := s.fact(g.refs["v"].id).pay; pay != nil && pay.id == ptr.id && s.eqLin(ix, g.ints["next"]) {
				g.refs["el"] = res
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			g, sg := s.gh, c.fn.Signature
			switch {
			case c.fn == x.conv:
				v := s.fresh(sg.Results().At(0).Type())
				s.setNil(v.id, false)
				bad := ""
				at, ok := s.memoOf(c.args[0], "at")
				switch {
				case in(s, c.args[0], "el"):
					s.setMemo(v.id, "el", vInt(g.ints["next"]))
				case ok && in(s, at, "ck"):
					s.setMemo(v.id, "val", vInt(g.ints["mk"]))
				default:
					bad = "it is not the next element, or the value of the next key, that is converted"
				}
				x.ob(s, "convert", ins, "the parts", bad)
				return ret(s, v), true
			case converts(c.fn) && !p.reachPlus(c.fn)[x.conv]:
				// a new node
				v := s.fresh(sg.Results().At(0).Type())
				s.setNil(v.id, false)
				if _, ok := g.refs["g"]; ok {
					return ret(s, v), true
				}
				g.refs["g"] = v
				var out []exitSt
				for _, t := range x.kinds(s) {
					out = append(out, ret(t, v)...)
				}
				return out, true
			case adds(c.fn):
				v := s.fresh(sg.Results().At(0).Type())
				s.setNil(v.id, false)
				w, bad := unbox(s, c.args[1]), ""
				n, isEl := s.memoOf(w, "el")
				top := in(s, c.args[0], "g")
				switch {
				case isEl:
					switch {
					case !top:
						bad = "an element is added to another node"
					case n.k != KInt || !s.eqLin(n.lin, g.ints["next"]):
						bad = "an element is added twice"
					}
					g.ints["next"] = g.ints["next"].addK(1)
				case in(s, w, "ck"):
					if !in(s, c.args[0], "obj") {
						bad = "a key is added to another node"
					}
					g.refs["kn"] = v
				case w.k == KRef && s.fact(w.id).str != nil:
					if _, ok := g.refs["obj"]; ok || !top {
						bad = "more than one node is added for an object"
					}
					g.refs["obj"] = v
				case in(s, c.args[1], "v") || s.sameVal(w, unbox(s, g.refs["v"])):
					if !top || g.tags["added"] != "" {
						bad = "the value is not added once to the result"
					}
					g.tags["added"] = "yes"
				case w.k == KInt || w.k != KRef && w.k != KPtr || isFloatT(s.fact(w.id).typ):
					if !top || g.tags["added"] != "" {
						bad = "the value is not added once to the result"
					}
					g.tags["added"] = "yes"
				default:
					bad = "what is added is not a part of the value"
				}
				x.ob(s, "convert", ins, "what is added", bad)
				return ret(s, v), true
			case sg.Recv() != nil && sg.Params().Len() == 1 && isGraphT(sg.Params().At(0).Type()) && sg.Results().Len() == 1:
				bad := ""
				n, ok := s.memoOf(c.args[1], "val")
				switch {
				case !in(s, c.args[0], "kn"):
					bad = "the value of a key is added to another node"
				case !ok || n.k != KInt || !s.eqLin(n.lin, g.ints["mk"]):
					bad = "it is not the value of the key that is added"
				}
				x.ob(s, "convert", ins, "the values of keys", bad)
				g.ints["mk"] = g.ints["mk"].addK(1)
				delete(g.refs, "kn")
				return s.a.results(s, c), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			g := s.gh
			bad := ""
			if !in(s, v, "g") {
				bad = "the result is not the node that was added to"
			}
			x.ob(s, "convert", nil, "the result", bad)
			fv := s.fact(g.refs["v"].id)
			bad = ""
			switch {
			case g.tags["kind"] == "list" && fv.pay != nil:
				if n := s.lenOf(*fv.pay); s.nilness(*fv.pay) != 1 && (n == nil || !s.prove(le(n, g.ints["next"]))) {
					bad = "it ends before the last element"
				}
				x.ob(s, "convert", nil, "lists", bad)
			case g.tags["kind"] == "map" && fv.pay != nil:
				n := s.lenOf(g.refs["K"])
				switch {
				case g.refs["obj"].k == 0:
					bad = "there is no node for an object"
				case s.nilness(g.refs["K"]) != 1 && (n == nil || !s.prove(le(n, g.ints["mk"]))):
					bad = "it ends before the last key"
				}
				x.ob(s, "convert", nil, "objects", bad)
			default:
				if g.tags["added"] != "yes" {
					bad = "the value is not added"
				}
				x.ob(s, "convert", nil, "other values", bad)
			}
		},
	})
}
