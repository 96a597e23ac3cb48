package main

// C39: importing XML follows the nesting of the document.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C39"] = func(r *Report) {
		r.rule("import", "for each token of the document that is the start of an element one node named after it is added to the node on the top of the stack and pushed, with a node of each attribute that has its value; for text that is not only space a node with it is added to the node on the top; at the end of an element one node is popped; and nothing else is done with the stack or added")
		roots := r.named("io/gxml.FromXML")
		if len(roots) != 1 {
			return
		}
		x := &xmlImport{r: r, f: roots[0], kinds: map[string]types.Type{}}
		for f := range r.p.reach(roots) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if t, ok := i.(*ssa.TypeAssert); ok {
						if n, ok := t.AssertedType.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml" {
							x.kinds[n.Obj().Name()] = n
						}
					}
				}
			}
		}
		for _, k := range []string{"StartElement", "CharData", "EndElement"} {
			if x.kinds[k] == nil {
				r.fail("import", k, r.p.pos(x.f.Pos()), "tokens of this kind are not told from others")
			}
		}
		r.saw(x.f)
		x.check()
		r.floor("import", 8)
		r.assume = append(r.assume, "encoding/xml gives the tokens of the document, with starts and ends that match", "transformations of names and texts give what they should")
	}
}

type xmlImport struct {
	r     *Report
	f     *ssa.Function
	m     *modeRun
	kinds map[string]types.Type
}

func (x *xmlImport) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := x.r.p.pos(x.f.Pos())
	if ins != nil {
		pos = x.r.p.insPos(ins)
	}
	x.m.ob(s, bad == "", "import", what, pos, bad)
}

// made: a value is made of another.
func (x *xmlImport) made(s *State, v Val, of VID, d int) bool {
	v = unbox(s, v)
	if v.k != KRef || d > 8 {
		return false
	}
	if v.id == of {
		return true
	}
	if w, ok := s.memoOf(v, "from"); ok && w.id == of {
		return true
	}
	if t := s.fact(v.id).term; t != nil {
		for _, a := range t.args {
			if x.made(s, a, of, d+1) {
				return true
			}
		}
	}
	return false
}

// indexOf: the index of the element that is read, or that is read from.
func (x *xmlImport) indexOf(s *State, ins ssa.Instruction) *Lin {
	u, ok := ins.(*ssa.UnOp)
	if !ok {
		return nil
	}
	v := u.X
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
			continue
		case *ssa.IndexAddr:
			if ix := s.val(a.Index); ix.k == KInt {
				return ix.lin
			}
		}
		return nil
	}
}

// split: the kinds of tokens.
func (x *xmlImport) split(s *State, tok Val) []*State {
	var out []*State
	rest := []*State{s}
	for _, k := range []string{"StartElement", "CharData", "EndElement"} {
		t := x.kinds[k]
		if t == nil {
			continue
		}
		is := &Cond{op: CType, id: tok.id, t: t}
		var no []*State
		for _, s := range rest {
			for _, u := range s.clone().assume(is, true) {
				w := u.a.asserted(u, tok, t, false)
				g := u.gh
				g.tags["kind"] = k
				switch {
				case k == "StartElement" && w.k == KStruct && len(w.elts) == 2 && w.elts[0].k == KStruct && len(w.elts[0].elts) == 2:
					g.refs["of"], g.refs["AL"] = w.elts[0].elts[1], w.elts[1]
				case k == "CharData" && w.k == KRef:
					g.refs["of"] = w
				}
				out = append(out, u)
			}
			no = append(no, s.assume(is, false)...)
		}
		rest = no
	}
	for _, s := range rest {
		s.gh.tags["kind"] = "other"
	}
	return append(out, rest...)
}

// done: what belongs to a token was done.
func (x *xmlImport) done(s *State) string {
	g := s.gh
	switch g.tags["kind"] {
	case "StartElement":
		if g.tags["node"] != "yes" || g.tags["stack"] != "push" {
			return "no node is added and pushed for an element"
		}
		if al := g.refs["AL"]; al.k == KRef && s.nilness(al) != 1 {
			if n := s.lenOf(al); g.tags["att"] != "" || n == nil || !s.prove(le(n, g.ints["att"])) {
				return "an attribute is left out"
			}
		}
	case "CharData":
		if g.tags["node"] != "yes" {
			v, ok := g.refs["text"]
			if n := s.lenOf(v); !ok || n == nil || !s.prove(le(n, linC(0))) {
				return "text is left out"
			}
		}
		if g.tags["stack"] != "" {
			return "text changes the stack"
		}
	case "EndElement":
		if g.tags["stack"] != "pop" {
			return "no node is popped at the end of an element"
		}
	default:
		if g.tags["stack"] != "" {
			return "something else changes the stack"
		}
	}
	return ""
}

func (x *xmlImport) check() {
	p, f := x.r.p, x.f
	x.m = newModeRun(x.r, f)
	moved := func(s *State, ins ssa.Instruction, how string, res Val) {
		g := s.gh
		bad := ""
		want := map[string]string{"StartElement": "push", "EndElement": "pop"}[g.tags["kind"]]
		if want != how || g.tags["stack"] != "" {
			bad = "the stack is changed where it should not be"
		}
		x.ob(s, ins, "the stack", bad)
		g.tags["stack"] = how
		g.refs["S"] = res
	}
	x.m.run(&Mode{name: "import", parts: 400, noOb: true, terms: true, noGC: true, bases: true, open: "encoding/xml",
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["att"] = linC(0)
			g.refs["S"] = vRef(nilID)
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return fn != f && len(s.frames) < 6 && fn.Package() == f.Package()
		},
		appended: func(s *State, ins ssa.Instruction, a, b Val, elems map[int64]Val, res Val) {
			v, ok := ins.(ssa.Value)
			if !ok || !isNodeList(v.Type()) || a.k == 0 || res.k != KRef {
				return
			}
			g := s.gh
			if !(a.id == g.refs["S"].id || s.nilness(a) == 1 && s.nilness(g.refs["S"]) == 1) {
				return
			}
			if g.tags["begun"] == "" {
				bad := ""
				if e, ok := elems[0]; ok && len(elems) == 1 {
					g.refs["root"] = e
				} else {
					bad = "the stack does not begin with the root"
				}
				x.ob(s, ins, "the stack", bad)
				g.tags["begun"] = "yes"
				g.refs["S"] = res
				return
			}
			n, ok := g.refs["n"]
			bad := ""
			if e, has := elems[0]; !has || len(elems) != 1 || !ok || !isObj(e) || e.id != n.id {
				bad = "what is pushed is not the node of the element"
			}
			x.ob(s, ins, "the stack", bad)
			moved(s, ins, "push", res)
		},
		sliced: func(s *State, ins ssa.Instruction, v Val, lo, hi *Lin, res Val) {
			g := s.gh
			if v.k != KRef || v.id != g.refs["S"].id || s.nilness(v) == 1 {
				return
			}
			bad := ""
			if !s.eqLin(lo, linC(0)) || !s.eqLin(hi, s.lenOf(v).addK(-1)) {
				bad = "not just the node on the top is popped"
			}
			x.ob(s, ins, "the stack", bad)
			moved(s, ins, "pop", res)
		},
		loaded: func(s *State, ins ssa.Instruction, ptr, res Val) {
			g, ix := s.gh, x.indexOf(s, ins)
			if ix == nil {
				return
			}
			if ptr.id == g.refs["S"].id && isObj(res) {
				if n := s.lenOf(g.refs["S"]); n != nil && s.eqLin(ix, n.addK(-1)) {
					g.refs["top"] = res
				} else {
					delete(g.refs, "top")
				}
			}
			if al, ok := g.refs["AL"]; ok && ptr.id == al.id && s.eqLin(ix, g.ints["att"]) {
				switch {
				case res.k == KStruct && len(res.elts) == 2:
					if n := res.elts[0]; n.k == KStruct && len(n.elts) == 2 {
						g.refs["an"], g.refs["av"] = n.elts[1], res.elts[1]
					}
				case strings.HasSuffix(ptr.path, "].Name.Local"):
					g.refs["an"] = res
				case strings.HasSuffix(ptr.path, "].Value"):
					g.refs["av"] = res
				}
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			g := s.gh
			if c.fn == nil || !p.isFn[c.fn] {
				if c.fn != nil && c.fn.Name() == "Token" && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "encoding/xml" {
					if _, ok := g.tags["kind"]; ok {
						x.ob(s, ins, "each token", x.done(s))
					}
					for _, k := range []string{"stack", "node", "att"} {
						delete(g.tags, k)
					}
					for _, k := range []string{"top", "n", "of", "AL", "text", "an", "av", "a"} {
						delete(g.refs, k)
					}
					g.ints["att"] = linC(0)
					var out []exitSt
					for _, e := range s.a.results(s, c) {
						if e.v.k != KTuple || len(e.v.elts) != 2 {
							out = append(out, e)
							continue
						}
						for _, t := range x.split(e.s, e.v.elts[0]) {
							out = append(out, exitSt{t, e.v, true})
						}
					}
					return out, true
				}
				// what others make of the name or text
				src, ok := g.refs["of"]
				if !ok {
					return nil, false
				}
				for _, a := range c.args {
					if x.made(s, a, src.id, 0) {
						out := s.a.results(s, c)
						for _, e := range out {
							vs := []Val{e.v}
							if e.v.k == KTuple {
								vs = e.v.elts
							}
							for _, v := range vs {
								if v.k == KRef && isStrT(e.s.fact(v.id).typ) {
									e.s.setMemo(v.id, "from", src)
									e.s.gh.refs["text"] = v
								}
							}
						}
						return out, true
					}
				}
				return nil, false
			}
			if !adds(c.fn) {
				return nil, false
			}
			v := s.fresh(c.fn.Signature.Results().At(0).Type())
			s.setNil(v.id, false)
			par, w, bad := c.args[0], c.args[1], ""
			on := func(k string) bool {
				t, ok := g.refs[k]
				return ok && isObj(par) && isObj(t) && t.id == par.id
			}
			src := g.refs["of"]
			kind := g.tags["kind"]
			switch {
			case kind == "StartElement" && on("n"):
				an, ok := g.refs["an"]
				switch {
				case !ok || !x.made(s, w, an.id, 0):
					bad = "what is added to the node of an element is not the next attribute"
				case g.tags["att"] != "":
					bad = "an attribute is added twice"
				}
				g.tags["att"] = "name"
				g.refs["a"] = v
			case kind == "StartElement" && on("a"):
				av, ok := g.refs["av"]
				if !ok || !x.made(s, w, av.id, 0) || g.tags["att"] != "name" {
					bad = "what is added to an attribute is not its value"
				}
				delete(g.tags, "att")
				delete(g.refs, "an")
				delete(g.refs, "av")
				g.ints["att"] = g.ints["att"].addK(1)
			case kind == "StartElement" || kind == "CharData":
				switch {
				case !on("top"):
					bad = "it is added to another node than that on the top of the stack"
				case g.tags["node"] == "yes":
					bad = "it is added twice"
				case src.k == 0 || !x.made(s, w, src.id, 0):
					bad = "what is added is not the name of the element, or the text"
				case g.tags["stack"] != "":
					bad = "it is added after the stack was changed"
				}
				g.tags["node"] = "yes"
				g.refs["n"] = v
			default:
				bad = "something is added that is neither an element nor text"
			}
			x.ob(s, ins, "what is added", bad)
			return ret(s, v), true
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) > 2 {
				return
			}
			bad := ""
			r, ok := s.gh.refs["root"]
			switch {
			case !ok || !isObj(v) || v.id != r.id:
				bad = "the result is not the root"
			case s.gh.tags["kind"] != "other":
				bad = "it ends at a token: " + fmt.Sprint(strings.ToLower(s.gh.tags["kind"]))
			}
			x.ob(s, nil, "the result", bad)
		},
	})
}
