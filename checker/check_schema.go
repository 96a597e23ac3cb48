package main

// C29: schema checking. The function that compares a list of nodes with a
// schema is analysed with the comparison of single nodes and of what is below
// them as events; the comparison of single nodes with conversions as cases.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// indexOf: the node is the one at an index of the list of another.
func (s *State) indexOf(v, list Val) (*Lin, bool) {
	if v.k != KRef {
		return nil, false
	}
	if t := s.fact(v.id).term; t != nil && t.op == "at" && t.args[0].id == list.id && t.args[1].k == KInt {
		return t.args[1].lin, true
	}
	out, ok := s.fieldOf(list.id, "Out")
	if !ok {
		return nil, false
	}
	for _, k := range sortedCells(s.cells) {
		c := s.cells[k]
		if k.base != out.id || c.v.k != KRef || c.v.id != v.id {
			continue
		}
		if c.ix != nil {
			return c.ix, true
		}
		if n, ok := pathIndex(k.path); ok {
			return linC(n), true
		}
	}
	return nil, false
}

func pathIndex(path string) (int64, bool) {
	var n int64
	if len(path) < 3 || path[0] != '[' || path[len(path)-1] != ']' {
		return 0, false
	}
	for _, c := range path[1 : len(path)-1] {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int64(c-'0')
	}
	return n, true
}

func (p *Prog) graphMethod(f *ssa.Function, name, sh string) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg == p.root && f.Signature.Recv() != nil && p.isGraphPtr(f.Signature.Recv().Type()) && (name == "" || f.Name() == name) && (sh == "" || shape(f) == sh)
}

func init() {
	checks["C29"] = func(r *Report) {
		p := r.p
		r.rule("every node", "a list of nodes is accepted only after each node of the schema, from the first to the last, was compared with the node at the same place, and what is below the one with what is below the other, and both were accepted")
		r.rule("conforms", "a single node is accepted only if it exists and, for a schema node that names a type, its content was converted to that type with success (or is text, or bytes); or, for a literal, its text is that of the schema node")
		gp := "*" + p.root.Path() + ".Graph"
		var check, node *ssa.Function
		for _, f := range p.fns {
			if f.Blocks == nil {
				continue
			}
			if p.graphMethod(f, "Check", gp+" -> bool string") {
				check = f
			}
		}
		for _, f := range p.fns {
			if f.Blocks != nil && check != nil && p.graphMethod(f, "", gp+" -> bool") && leadsTo(check, f, 2) {
				node = f
			}
		}
		if check == nil || node == nil {
			r.fail("instances", "Check", "", "the functions that check are not found")
			return
		}
		r.schemaList(check, node)
		r.schemaNode(node)
		r.floor("every node", 4)
		r.floor("conforms", 6)
		r.assume = []string{"the schema is not changed while it is used (C12)", "the name that ThisType gives is that of the type of the content; what is below a schema node that is nil is not specified"}
	}
}

func leadsTo(f, g *ssa.Function, d int) bool {
	if d < 0 || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				h := c.Common().StaticCallee()
				if h == g || h != nil && h != f && leadsTo(h, g, d-1) {
					return true
				}
			}
		}
	}
	return false
}

func (r *Report) schemaList(root, node *ssa.Function) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	n := 0
	helps := func(f *ssa.Function) bool {
		return f != root && f != node && (leadsTo(f, node, 1) || leadsTo(f, root, 0))
	}
	m.run(&Mode{name: "schema", terms: true, parts: 300,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["next"] = linC(0)
			return g
		},
		entry: keepParams(root, "schema", "doc"),
		inline: func(s *State, fn *ssa.Function) bool {
			return len(s.frames) < 5 && helps(fn)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			at := p.insPos(ins)
			sg := c.fn.Signature
			pair := func(what string) {
				a, ok1 := s.indexOf(c.args[0], s.gh.refs["schema"])
				b, ok2 := s.indexOf(c.args[1], s.gh.refs["doc"])
				ok := ok1 && ok2 && s.prove(&Cond{op: CEq, l: a.add(s.gh.ints["next"], -1)}) && s.prove(&Cond{op: CEq, l: b.add(s.gh.ints["next"], -1)})
				m.ob(s, ok, "every node", name+": "+what, at, "what is compared is not the next node of the schema and the node at the same place")
				s.gh.refs["ns"] = c.args[0]
			}
			switch {
			case p.graphMethod(c.fn, "GetAt", ""):
				v := s.fresh(sg.Results().At(0).Type())
				if c.args[0].id == s.gh.refs["schema"].id && c.args[1].k == KInt && s.prove(&Cond{op: CEq, l: c.args[1].lin.add(s.gh.ints["next"], -1)}) {
					s.gh.refs["ns"] = v
				}
				return ret(s, s.term(v, "at", c.args[0], c.args[1])), true
			case c.fn == node:
				n++
				pair("node")
				f := s.clone()
				f.gh.tags["node"], s.gh.tags["node"] = "no", "yes"
				if s.nilness(c.args[0]) == 0 {
					// nil is accepted by nothing
					if !s.setNil(c.args[0].id, false) {
						return []exitSt{{f, vBool(condTrue.not()), true}}, true
					}
				}
				return []exitSt{{s, vBool(condTrue), true}, {f, vBool(condTrue.not()), true}}, true
			case c.fn == root:
				pair("below")
				f := s.clone()
				f.gh.tags["below"], s.gh.tags["below"] = "no", "yes"
				str := sg.Results().At(1).Type()
				return []exitSt{{s, tuple(vBool(condTrue), s.fresh(str)), true}, {f, tuple(vBool(condTrue.not()), f.fresh(str)), true}}, true
			case c.fn.Name() == "Len" && p.graphMethod(c.fn, "Len", ""):
				if c.args[0].id != s.gh.refs["schema"].id {
					return ret(s, s.freshRange(types.Typ[types.Int], 0, posInf)), true
				}
				l, ok := s.gh.ints["len"]
				if !ok {
					l = s.freshRange(types.Typ[types.Int], 0, posInf).lin
					s.gh.ints["len"] = l
				}
				return ret(s, vInt(l)), true
			}
			if !helps(c.fn) {
				return s.skip(ins, c), true
			}
			return nil, false
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			if head.Parent() != root || !outermost(p.fi(root), head) {
				return
			}
			e, has := s.gh.refs["ns"]
			nilNode := has && s.nilness(e) == 1
			if out, ok := s.fieldOf(s.gh.refs["schema"].id, "Out"); ok && !has {
				// a schema node that is nil may be passed over
				for _, k := range sortedCells(s.cells) {
					if c := s.cells[k]; k.base == out.id && c.ix != nil && c.v.k == KRef && s.nilness(c.v) == 1 && s.prove(&Cond{op: CEq, l: c.ix.add(s.gh.ints["next"], -1)}) {
						nilNode = true
					}
				}
			}
			m.ob(s, nilNode || s.gh.tags["node"] == "yes" && s.gh.tags["below"] == "yes", "every node", name+": next", p.pos(root.Pos()), "the next node is taken although one was not accepted, or not compared (node: "+s.gh.tags["node"]+", below: "+s.gh.tags["below"]+")")
			s.gh.ints["next"] = s.gh.ints["next"].add(linC(1), 1)
			delete(s.gh.tags, "node")
			delete(s.gh.tags, "below")
			delete(s.gh.refs, "ns")
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KTuple {
				return
			}
			q := s.truth(v.elts[0].cond)
			if q < 0 {
				return
			}
			bad := ""
			switch {
			case q == 0:
				bad = "the result is not known to tell whether the nodes were accepted"
			case s.gh.tags["node"] != "" || s.gh.tags["below"] != "":
				bad = "the list is accepted before its end"
			default:
				g := s.gh.refs["schema"]
				out, ok := s.fieldOf(g.id, "Out")
				if l, ok := s.gh.ints["len"]; ok && s.prove(le(l, s.gh.ints["next"])) {
					break
				}
				if s.nilness(g) != 1 && (!ok || s.fact(out.id).len == nil || !s.prove(le(s.fact(out.id).len, s.gh.ints["next"]))) && !(ok && s.nilness(out) == 1) {
					bad = "the list is accepted before the last node of the schema was compared"
				}
			}
			m.ob(s, bad == "", "every node", name+": accepted", p.pos(root.Pos()), bad)
		},
	})
	r.ob(n > 0, "every node", name+": nodes", p.pos(root.Pos()), "no node is compared")
}

func (r *Report) schemaNode(root *ssa.Function) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	got := map[string]bool{}
	look := func(s *State) {
		if s.gh.has("content") || s.nilness(s.gh.refs["doc"]) == 1 {
			return
		}
		if v, ok := s.fieldOf(s.gh.refs["doc"].id, "This"); ok {
			s.gh.refs["content"] = v
		}
	}
	m.run(&Mode{name: "schema", terms: true, paths: true, noGC: true, parts: 3000,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		entry:  keepParams(root, "schema", "doc"),
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 6 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			look(s)
			if k := p.convPrim(c.fn); k != "" && c.args[0].k == KRef {
				return s.conv(c, k), true
			}
			if p.graphMethod(c.fn, "ThisString", "") || p.graphMethod(c.fn, "ThisType", "") {
				if c.args[0].k == KRef && s.nilness(c.args[0]) == 2 {
					v := s.memoVal(c.args[0].id, c.fn.Name(), func() Val { return s.fresh(types.Typ[types.String]) })
					for _, k := range []string{"schema", "doc"} {
						if s.gh.refs[k].id == c.args[0].id {
							s.gh.refs[k+" "+c.fn.Name()] = v
						}
					}
					return ret(s, v), true
				}
				return ret(s, s.fresh(types.Typ[types.String])), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KBool || s.truth(v.cond) < 0 {
				return
			}
			for _, t := range s.clone().assume(v.cond, true) {
				look(t)
				bad, what := t.conforms(v.cond)
				got[what] = true
				m.ob(t, bad == "", "conforms", name+": "+what, p.pos(root.Pos()), bad)
			}
		},
	})
	for _, k := range []string{"literal", "!int", "!float", "!bool", "!string", "!binary"} {
		r.ob(got[k], "conforms", name+": "+k+" is accepted", p.pos(root.Pos()), "there is no path on which it is")
	}
}

// conforms tells why a node should not be accepted.
func (s *State) conforms(cond *Cond) (bad, what string) {
	g := s.gh
	if s.nilness(g.refs["schema"]) != 2 || s.nilness(g.refs["doc"]) != 2 {
		return "a node that may not exist is accepted", "nil"
	}
	sc, ok := g.refs["schema ThisString"]
	if !ok {
		return "a node is accepted without looking at the schema", "any"
	}
	f := s.fact(sc.id)
	if f.str != nil && strings.HasPrefix(*f.str, "!") {
		kind := map[string]string{"!int": "int", "!float": "float", "!bool": "bool", "!string": "string", "!binary": "bytes"}[*f.str]
		switch kind {
		case "":
			return "a type that is not known is accepted", *f.str
		case "string", "bytes":
			e, ok := g.refs["content"]
			if ok {
				if d := s.fact(e.id).dyn; d != nil && scalarKind(d) == kind {
					return "", *f.str
				}
			}
			if ty, ok := g.refs["doc ThisType"]; ok {
				if w := s.fact(ty.id); w.str != nil && *w.str == map[string]string{"string": "string", "bytes": "[]byte"}[kind] {
					return "", *f.str
				}
				if w := s.fact(ty.id); w.str != nil && kind == "bytes" && *w.str == "[]uint8" {
					return "", *f.str
				}
			}
			return "content that may be of another type is accepted", *f.str
		}
		for k, v := range g.tags {
			if (strings.HasPrefix(k, "is content "+kind+" ") || strings.HasPrefix(k, "is doc "+kind+" ")) && v == "yes" {
				return "", *f.str
			}
		}
		return "content that may not convert to the type is accepted", *f.str
	}
	// a literal
	b := s.strByte(sc, linC(0))
	l := f.len
	switch {
	case f.str != nil:
	case l != nil && s.prove(&Cond{op: CEq, l: l}):
	case b.k == KInt && (s.prove(&Cond{op: CLe, l: b.lin.addK(-32)}) || s.prove(&Cond{op: CLe, l: linC(34).add(b.lin, -1)}) || s.prove((&Cond{op: CEq, l: b.lin.addK(-33)}).not())):
	default:
		return "a node is accepted as a literal although the schema may name a type", "literal"
	}
	sx, ok := g.refs["doc ThisString"]
	same := ok && cond.op == CStrEq2 && (cond.id == sx.id && cond.id2 == sc.id || cond.id == sc.id && cond.id2 == sx.id)
	if t := s.termOf(vBool(cond)); ok && t != nil && t.op == "==" && len(t.args) == 2 {
		x, y := t.args[0], t.args[1]
		same = same || s.valIs(x, sx) && s.valIs(y, sc) || s.valIs(x, sc) && s.valIs(y, sx)
	}
	if ok && !same {
		a, b := s.fact(sx.id).str, f.str
		same = a != nil && b != nil && *a == *b || s.sameVal(sx, sc) || s.prove(&Cond{op: CStrEq2, id: sx.id, id2: sc.id})
	}
	if !same {
		return "a node is accepted whose text may differ from the literal", "literal"
	}
	return "", "literal"
}
