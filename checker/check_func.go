package main

// C28: calls of functions of the user. The functions that call through
// reflection are analysed with the arguments whose type was shown to be that
// of the parameter counted.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// typeIs: the value is of the type of parameter ix of a function type, which it gives.
func (s *State) typeIs(e Val, ix *Lin) (Val, bool) {
	memo := func(v Val, n string) (Val, bool) {
		for _, m := range s.fact(v.id).memo {
			if m.n == n {
				return m.v, true
			}
		}
		return Val{}, false
	}
	ty, ok := memo(e, "type")
	if !ok || ty.k != KRef {
		return Val{}, false
	}
	in := func(v Val) (Val, bool) {
		t := s.fact(v.id).term
		if t == nil || t.op != "in" || t.args[1].k != KInt || !s.prove(&Cond{op: CEq, l: t.args[1].lin.add(ix, -1)}) {
			return Val{}, false
		}
		return t.args[0], true
	}
	if t, ok := in(ty); ok {
		return t, true
	}
	// a comparison that is known to be true
	for _, id := range s.factIDs() {
		t := s.fact(id).term
		if t == nil || t.op != "==" || len(t.args) != 2 || t.args[0].k != KRef || t.args[1].k != KRef || s.quick(&Cond{op: CVar, id: id}) <= 0 {
			continue
		}
		for k := 0; k < 2; k++ {
			if t.args[k].id == ty.id {
				if f, ok := in(t.args[1-k]); ok {
					return f, true
				}
			}
		}
	}
	return Val{}, false
}

func isRefl(t types.Type, name string) bool { return t.String() == "reflect."+name }

func init() {
	checks["C28"] = func(r *Report) {
		p := r.p
		r.rule("arguments", "at each call through reflection, every argument was made for, or compared with, the type of the parameter at its place, of the function that is called, and there are as many as parameters")
		r.rule("order", "the argument at each place is the value of the expression at that place, or the zero value where that is nil or missing")
		r.rule("number", "a function that takes anything but one graph is called with exactly the arguments that were written")
		r.rule("error", "where a function or a method was found and is not called, an error is returned")
		r.rule("once", "a function is called at most once")
		calls := func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && (g.RelString(nil) == "(reflect.Value).Call" || g.RelString(nil) == "(reflect.Value).CallSlice") {
							return true
						}
					}
				}
			}
			return false
		}
		n := 0
		var roots []*ssa.Function
		for _, f := range p.fns {
			if !calls(f) {
				continue
			}
			n++
			// a helper is analysed in the functions that use it
			root := f
			for d := 0; d < 3; d++ {
				takes := false
				for i := 0; i < root.Signature.Params().Len(); i++ {
					if t := root.Signature.Params().At(i).Type(); isRefl(t, "Value") || t.String() == "[]reflect.Value" {
						takes = true
					}
				}
				if !takes {
					break
				}
				var up *ssa.Function
				for _, g := range p.fns {
					if g != root && leadsTo(g, root, 0) {
						if up != nil && up != g {
							r.fail("arguments", p.short(f), p.pos(f.Pos()), "it calls what it is given, and is used in several functions")
						}
						up = g
					}
				}
				if up == nil {
					break
				}
				root = up
			}
			dup := false
			for _, g := range roots {
				dup = dup || g == root
			}
			if !dup {
				roots = append(roots, root)
			}
		}
		for _, f := range roots {
			r.saw(f)
			r.reflCalls(f)
		}
		r.ob(n > 0, "arguments", "instances", "", "no call through reflection is found")
		r.floor("arguments", 2)
		r.floor("error", 1)
		r.assume = []string{"methods are given the zero value for arguments that are missing, and arguments that follow the last parameter are left out", "types compare as pointers", "the reflect package implements its documentation"}
	}
}

func (r *Report) reflCalls(root *ssa.Function) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	gp := "*" + p.root.Path() + ".Graph"
	// one argument more is known to be of the right type
	grow := func(s *State, what string, e Val) bool {
		t, ok := s.typeIs(e, s.gh.ints[what])
		if !ok {
			return false
		}
		if f, has := s.gh.refs["fn"]; !has || f.id != t.id {
			return false
		}
		s.gh.ints[what] = s.gh.ints[what].add(linC(1), 1)
		return true
	}
	memo := func(s *State, v Val, n string) (Val, bool) {
		if v.k == KRef {
			for _, e := range s.fact(v.id).memo {
				if e.n == n {
					return e.v, true
				}
			}
		}
		return Val{}, false
	}
	// at: the value is the element of the list at the index
	at := func(s *State, list VID, ix *Lin, v func(Val) bool) bool {
		for _, k := range sortedCells(s.cells) {
			c := s.cells[k]
			if k.base != list && list != 0 {
				continue
			}
			i := c.ix
			if n, ok := pathIndex(k.path); ok {
				i = linC(n)
			}
			if i != nil && v(c.v) && s.prove(&Cond{op: CEq, l: i.add(ix, -1)}) {
				return true
			}
		}
		return false
	}
	// placed: the argument is that of the place
	placed := func(s *State, ins ssa.Instruction, e Val, ix *Lin) {
		bad := ""
		vals, ok := s.gh.refs["vals"]
		of, has := memo(s, e, "of")
		switch {
		case !ok:
			bad = "the values of the arguments are not kept in one list"
		case s.gh.tags["remote"] != "yes" && !s.prove(&Cond{op: CEq, l: s.lenOf(vals).add(s.gh.ints["evals"], -1)}):
			bad = "the list of values may not have one for each expression, in their order"
		case has:
			if !at(s, vals.id, ix, func(v Val) bool { return v.k == of.k && v.id == of.id }) {
				bad = "it is made of the value of another argument, or of something else"
			}
		case s.prove(le(s.lenOf(vals), ix)):
		case at(s, vals.id, ix, func(v Val) bool { return v.k == KRef && s.nilness(v) == 1 }):
		default:
			bad = "it is not made of the value of the argument, which may be there and not nil"
		}
		m.ob(s, bad == "", "order", name, p.insPos(ins), bad)
	}
	takesRefl := func(fn *ssa.Function) bool {
		sg := fn.Signature
		for i := 0; i < sg.Params().Len(); i++ {
			if t := sg.Params().At(i).Type(); isRefl(t, "Value") || isRefl(t, "Type") || t.String() == "[]reflect.Value" {
				return true
			}
		}
		for i := 0; i < sg.Results().Len(); i++ {
			if t := sg.Results().At(i).Type().String(); t == "[]reflect.Value" || t == "[]interface{}" {
				return true
			}
		}
		return false
	}
	m.run(&Mode{name: "reflect", terms: true, parts: 2000, noGC: true, paths: true, loopPaths: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["made"], g.ints["seen"], g.ints["evals"] = linC(0), linC(0), linC(0)
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return len(s.frames) <= 4 && takesRefl(fn)
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn == root && len(s.frames) <= 2 {
				s.gh.refs["args"] = s.zero(types.NewSlice(types.Typ[types.Int]))
				s.gh.refs["vals"] = s.gh.refs["args"]
				for _, q := range root.Params {
					if isIface(q.Type()) && !isErrorT(q.Type()) {
						s.gh.refs["item"] = s.top().env[q]
					}
				}
			}
		},
		// whether a function takes one graph is a case
		same: func(s *State, x, y Val) *Cond {
			fn, ok := s.gh.refs["fn"]
			if !ok || x.id != fn.id && y.id != fn.id {
				return nil
			}
			if y.id == fn.id {
				x, y = y, x
			}
			for _, id := range s.factIDs() {
				if t, ok := memo(s, vRef(id), "type"); !ok || t.id != y.id {
					continue
				}
				if of, ok := memo(s, vRef(id), "of"); ok && of.k == KRef {
					if d := s.fact(of.id).dyn; d != nil && d.String() == "func("+gp+") ("+gp+", error)" {
						return condB(s.gh.tags["remote"] == "yes")
					}
				}
			}
			return nil
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			full := c.fn.RelString(nil)
			switch full {
			case "(reflect.Value).Call", "(reflect.Value).CallSlice":
				at := p.insPos(ins)
				m.ob(s, s.gh.tags["called"] == "", "once", name, at, "a function was called before")
				s.gh.tags["called"] = "yes"
				ty, has := Val{}, false
				for _, e := range s.fact(c.args[0].id).memo {
					if e.n == "type" {
						ty, has = e.v, true
					}
				}
				bad := ""
				switch {
				case !has:
					bad = "the type of what is called is not looked at"
				default:
					n := s.memoVal(ty.id, "NumIn", func() Val { return s.freshRange(tInt, 0, posInf) })
					l := s.lenOf(c.args[1])
					v, ok := s.gh.refs["args"]
					fn, ok2 := s.gh.refs["fn"]
					switch {
					case !s.prove(&Cond{op: CEq, l: n.lin.add(l, -1)}):
						bad = "the number of arguments may not be that of the parameters"
					case s.prove(&Cond{op: CEq, l: n.lin}):
					case !ok || v.id != c.args[1].id:
						bad = "the arguments are not those whose types were looked at"
					case !ok2 || fn.id != ty.id:
						bad = "no argument was looked at, or with the types of another function"
					case !s.prove(le(n.lin, s.gh.ints["made"])) && !s.prove(le(n.lin, s.gh.ints["seen"])):
						bad = "an argument may not be of the type of its parameter"
					}
				}
				if f, ok := s.gh.refs["found"]; ok && f.id == c.args[0].id && s.gh.tags["remote"] == "no" {
					vals, ok := s.gh.refs["vals"]
					n := s.gh.ints["evals"]
					m.ob(s, ok && s.prove(&Cond{op: CEq, l: s.lenOf(c.args[1]).add(n, -1)}) && s.prove(&Cond{op: CEq, l: s.lenOf(vals).add(n, -1)}),
						"number", name, at, "the number of arguments may not be that of the expressions")
				}
				m.ob(s, bad == "", "arguments", name+": "+strings.TrimPrefix(full, "(reflect.Value)."), at, bad)
				return nil, false
			case "reflect.ValueOf", "(reflect.Value).MethodByName":
				out, ok := s.a.reflectCall(s, ins, c, full)
				for _, x := range out {
					// the type is that of the value, whenever it is asked for
					t := x.s
					if x.v.k != KRef || t.nilness(x.v) != 2 {
						continue
					}
					k := t.rKind(x.v.id)
					id := t.newRef(nil, 2)
					t.setMemo(id, "kind", k)
					t.setMemo(id, "NumIn", t.freshRange(tInt, 0, posInf))
					t.setMemo(x.v.id, "type", vRef(id))
					if full != "reflect.ValueOf" {
						t.gh.refs["fn"] = vRef(id)
					}
				}
				if e, has := s.gh.refs["item"]; has && full == "reflect.ValueOf" && c.args[0].k == KRef && c.args[0].id == e.id {
					for _, x := range out {
						x.s.gh.refs["found"] = x.v
						for _, e := range x.s.fact(x.v.id).memo {
							if e.n == "type" {
								x.s.gh.refs["fn"] = e.v
							}
						}
					}
				}
				// a function that takes one graph, or another one
				if e, has := s.gh.refs["item"]; has && full == "reflect.ValueOf" && c.args[0].k == KRef && c.args[0].id == e.id {
					var two []exitSt
					for _, x := range out {
						y := exitSt{x.s.clone(), x.v, x.has}
						x.s.gh.tags["remote"], y.s.gh.tags["remote"] = "no", "yes"
						two = append(two, x, y)
					}
					out = two
				}
				return out, ok
			case "(reflect.Value).Kind":
				e, has := s.gh.refs["found"]
				if !has || c.args[0].k != KRef || c.args[0].id != e.id {
					return nil, false
				}
				// one state for each kind that matters
				var out []exitSt
				l := s.rKind(e.id).lin
				for _, w := range [][2]int64{{0, rkFunc - 1}, {rkFunc, rkFunc}, {rkFunc + 1, rkPtr - 1}, {rkPtr, rkPtr}, {rkPtr + 1, 26}} {
					for _, t := range s.clone().assume(le(linC(w[0]), l), true) {
						for _, u := range t.assume(le(l, linC(w[1])), true) {
							if u.gh.tags["kind"] == "" {
								u.gh.tags["kind"] = "other"
							}
							if w[0] == rkFunc || w[0] == rkPtr {
								u.gh.tags["kind"] = "callable"
								if w[0] == rkPtr && u.gh.tags["remote"] == "yes" {
									continue
								}
								if !u.setNil(e.id, false) {
									continue
								}
							}
							out = append(out, exitSt{u, vInt(l), true})
						}
					}
				}
				return out, true
			}
			if p.isFn[c.fn] && !takesRefl(c.fn) {
				eval := shape(c.fn) == gp+" bool -> any error" || shape(c.fn) == gp+" -> any error"
				// before the call, which may change what is known of lists
				eval = eval && at(s, 0, s.gh.ints["evals"], func(v Val) bool { return v.k == KRef && v.id == c.args[1].id })
				out := s.skip(ins, c)
				for _, x := range out {
					switch {
					case eval && x.v.k == KTuple:
						// the value of the next argument
						x.s.gh.refs["last"] = x.v.elts[0]
					case len(c.args) > 0 && c.fn.Signature.Results().Len() == 1 && isRefl(c.fn.Signature.Results().At(0).Type(), "Value") && x.v.k == KRef:
						x.s.setMemo(x.v.id, "of", c.args[0])
					}
				}
				return out, true
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, x, y Val, elems map[int64]Val, res Val) {
			t, ok := ins.(ssa.Value)
			if ok && t.Type().String() == "[]interface{}" {
				last, has := s.gh.refs["last"]
				e, one := elems[0]
				v, was := s.gh.refs["vals"]
				if s.gh.tags["remote"] == "yes" {
				} else if x.k == KRef && has && one && e.k == KRef && e.id == last.id && s.prove(&Cond{op: CEq, l: s.lenOf(x).add(s.gh.ints["evals"], -1)}) && was && v.id == x.id {
					s.gh.ints["evals"] = s.gh.ints["evals"].add(linC(1), 1)
				} else {
					s.gh.ints["evals"] = linC(-1)
				}
				delete(s.gh.refs, "last")
				s.gh.refs["vals"] = res
				return
			}
			if !ok || t.Type().String() != "[]reflect.Value" {
				return
			}
			v, has := s.gh.refs["args"]
			if x.k != KRef || s.prove(&Cond{op: CEq, l: s.lenOf(x)}) {
				s.gh.ints["made"], s.gh.ints["seen"] = linC(0), linC(0)
			} else if !has || v.id != x.id {
				s.gh.ints["made"], s.gh.ints["seen"] = linC(-1), linC(-1)
			}
			s.gh.refs["args"] = res
			if x.k != KRef || !s.prove(&Cond{op: CEq, l: s.gh.ints["made"].add(s.lenOf(x), -1)}) || !s.prove(&Cond{op: CEq, l: s.lenOf(y).addK(-1)}) {
				return
			}
			if e, ok := elems[0]; ok && e.k == KRef {
				placed(s, ins, e, s.gh.ints["made"])
				grow(s, "made", e)
			}
		},
		store: func(s *State, ins ssa.Instruction, ptr Val, v Val) {
			if e, ok := s.gh.refs["args"]; ok && ptr.id == e.id {
				ix := ptr.ix
				if n, ok := pathIndex(ptr.path); ok {
					ix = linC(n)
				}
				if ix != nil && v.k == KRef {
					if s.prove(&Cond{op: CEq, l: ix.add(s.gh.ints["made"], -1)}) {
						placed(s, ins, v, s.gh.ints["made"])
						grow(s, "made", v)
						return
					}
				}
				s.gh.ints["made"], s.gh.ints["seen"] = linC(-1), linC(-1)
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			delete(s.gh.tags, "path")
			e, ok := s.gh.refs["args"]
			if !ok {
				return
			}
			for b := range p.fi(head.Parent()).loops[head].body {
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok && v.Type().String() == "[]reflect.Value" {
						if c, ok := ins.(*ssa.Call); ok && c.Common().Value.Name() == "append" {
							return
						}
					}
				}
			}
			for _, k := range sortedCells(s.cells) {
				c := s.cells[k]
				if k.base != e.id || c.v.k != KRef {
					continue
				}
				ix := c.ix
				if n, ok := pathIndex(k.path); ok {
					ix = linC(n)
				}
				if ix != nil && s.prove(&Cond{op: CEq, l: ix.add(s.gh.ints["seen"], -1)}) && grow(s, "seen", c.v) {
					return
				}
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KTuple || s.gh.tags["called"] == "yes" {
				return
			}
			last := v.elts[len(v.elts)-1]
			// neither a function nor a pointer: nothing to call
			other := s.gh.tags["kind"] == "other"
			if e, ok := s.gh.refs["item"]; ok && s.nilness(e) == 1 {
				other = true
			}
			m.ob(s, other || s.nilness(last) == 2, "error", name, p.pos(root.Pos()), "nothing is called and no error is returned")
		},
	})
}
