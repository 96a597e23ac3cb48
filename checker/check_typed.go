package main

// C31: typed parsing. The function that reads a typed scalar is analysed with
// the reading of quoted text and words, and the conversions, as cases; the
// functions that use it with its results as events.

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Prog) recvNamed(f *ssa.Function, names ...string) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	for _, n := range names {
		if isNamedPtr(f.Signature.Recv().Type(), p.root.Path(), n) {
			return true
		}
	}
	return false
}

// shape of a signature, for recognising the functions of the lexer.
func shape(f *ssa.Function) string {
	var l []string
	for i := 0; i < f.Signature.Params().Len(); i++ {
		l = append(l, f.Signature.Params().At(i).Type().String())
	}
	l = append(l, "->")
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if isIface(t) && !isErrorT(t) {
			l = append(l, "any")
			continue
		}
		l = append(l, t.String())
	}
	return strings.Join(l, " ")
}

func init() {
	checks["C31"] = func(r *Report) {
		p := r.p
		r.rule("scalar", "on every path of the function that reads a typed scalar: quoted text is returned as it is, as a string; a word is returned as the integer, the number, the truth value or the string it is, in that order of preference")
		r.rule("used", "where scalars are read, the typed function is used if and only if typed parsing was asked for, and what it gives is added to the tree before anything else is read; what is asked for is handed on unchanged to what is nested")
		r.rule("asked", "the functions for typed parsing ask for it")
		var typed, plain *ssa.Function
		for _, f := range p.fns {
			if p.recvNamed(f, "Lexer") && f.Blocks != nil {
				switch shape(f) {
				case "int -> any bool":
					typed = f
				case "int -> string bool":
					if f.Name() == "Scalar" {
						plain = f
					}
				}
			}
		}
		if typed == nil || plain == nil {
			r.fail("instances", "scalar", "", "the functions that read a scalar are not found")
			return
		}
		r.typedScalar(typed)
		// the functions that use them, and those that lead there with a flag
		family := map[*ssa.Function]int{} // index of the flag
		for _, f := range p.fns {
			if f.Blocks == nil || f == plain || !calls(f, typed) {
				continue
			}
			flag := -1
			for i, q := range f.Params {
				if isBoolT(q.Type()) {
					flag = i
				}
			}
			if flag < 0 {
				r.fail("used", p.short(f), p.pos(f.Pos()), "a typed scalar is read, not subject to what was asked for")
				continue
			}
			family[f] = flag
		}
		for again := true; again; {
			again = false
			for _, f := range p.fns {
				if _, ok := family[f]; ok || f.Blocks == nil {
					continue
				}
				for i, q := range f.Params {
					if !isBoolT(q.Type()) {
						continue
					}
					for g, k := range family {
						if passes(f, g, k, q) {
							family[f] = i
							again = true
						}
					}
				}
			}
		}
		for _, f := range p.fns {
			if k, ok := family[f]; ok {
				r.typedUse(f, k, family, typed, plain)
			}
		}
		// who asks
		asks := map[*ssa.Function]map[string]bool{}
		for _, f := range p.fns {
			if _, ok := family[f]; ok || f.Blocks == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					k, ok := family[c.Common().StaticCallee()]
					if !ok {
						continue
					}
					if asks[f] == nil {
						asks[f] = map[string]bool{}
					}
					w := "?"
					if x, ok := c.Common().Args[k].(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.Bool {
						w = x.Value.String()
					}
					asks[f][w] = true
				}
			}
		}
		for _, f := range p.fns {
			if f.Pkg == nil || f.Pkg.Pkg != p.root || f.Object() == nil || !f.Object().Exported() || !strings.HasSuffix(f.Name(), "Types") || f.Blocks == nil {
				continue
			}
			got := map[string]bool{}
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function)
			walk = func(g *ssa.Function) {
				if seen[g] || g.Blocks == nil {
					return
				}
				seen[g] = true
				for w := range asks[g] {
					got[w] = true
				}
				if _, ok := family[g]; ok {
					return
				}
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && p.isFn[c.Common().StaticCallee()] {
							walk(c.Common().StaticCallee())
						}
					}
				}
			}
			walk(f)
			r.saw(f)
			r.ob(len(got) == 1 && got["true"], "asked", p.short(f), p.pos(f.Pos()), "it does not ask for typed parsing, or not always: "+strings.Join(sortedKeys(got), ", "))
		}
		r.floor("scalar", 5)
		r.floor("used", 4)
		r.floor("asked", 2)
		r.assume = []string{"strconv.ParseInt(s, 10, 64) and strconv.ParseFloat(s, 64) tell whether a text is an integer or a number, and its value; malformed quoted text is not specified"}
	}
}

// passes: f hands its flag q on to parameter k of g.
func passes(f, g *ssa.Function, k int, q *ssa.Parameter) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g && k < len(c.Common().Args) && c.Common().Args[k] == q {
				return true
			}
		}
	}
	return false
}

// truth of a condition: 1, -1 or not known.
func (s *State) truth(c *Cond) int {
	if q := s.quick(c); q != 0 {
		return q
	}
	if s.prove(c) {
		return 1
	}
	if s.prove(c.not()) {
		return -1
	}
	if c.op == CStrEq {
		if w := s.fact(c.id); w.str != nil {
			if *w.str == c.s {
				return 1
			}
			return -1
		}
	}
	if c.op == CNot {
		return -s.truth(c.x)
	}
	return 0
}

func (r *Report) typedScalar(root *ssa.Function) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	n := map[string]int{}
	m.run(&Mode{name: "typed", terms: true, paths: true, parts: 2000,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		entry:  keepParams(root, "lexer", "n"),
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 6 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			at := p.insPos(ins)
			str := types.Typ[types.String]
			if c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "strconv" {
				what := map[string]string{"ParseInt": "int", "Atoi": "int", "ParseFloat": "float"}[c.fn.Name()]
				if what == "" || !s.gh.has("word") {
					return nil, false
				}
				ok := s.valIs(c.args[0], s.gh.refs["word"])
				for i, want := range map[string][]int64{"ParseInt": {10, 64}, "ParseFloat": {64}}[c.fn.Name()] {
					a := c.args[i+1]
					ok = ok && a.k == KInt && a.lin.isConst() && (a.lin.c == want || want == 64 && i == 1 && a.lin.c == 0 && false)
				}
				m.ob(s, ok, "scalar", name+": "+what, at, "what is converted is not the word, or not as a decimal number of 64 bits")
				rt := c.fn.Signature.Results().At(0).Type()
				yes := func(t *State) exitSt {
					var v Val
					if what == "int" {
						l, has := t.gh.ints["int"]
						if !has {
							v = t.fresh(rt)
							t.gh.ints["int"] = v.lin
						} else {
							v = vInt(l)
						}
					} else {
						v = t.gh.refs["float"]
						if !t.gh.has("float") {
							v = t.fresh(rt)
							t.gh.refs["float"] = v
						}
					}
					t.gh.tags[what] = "yes"
					return exitSt{t, tuple(v, t.errVal(true)), true}
				}
				no := func(t *State) exitSt {
					t.gh.tags[what] = "no"
					if what == "float" {
						t.gh.tags["int"] = "no"
					}
					return exitSt{t, tuple(t.fresh(rt), t.errVal(false)), true}
				}
				switch {
				case s.gh.tags[what] == "yes" || what == "float" && s.gh.tags["int"] == "yes":
					return []exitSt{yes(s)}, true
				case s.gh.tags[what] == "no":
					return []exitSt{no(s)}, true
				}
				return []exitSt{yes(s.clone()), no(s)}, true
			}
			if !p.recvNamed(c.fn, "Lexer") {
				return nil, false
			}
			switch shape(c.fn) {
			case "int -> string bool error":
				m.ob(s, s.gh.tags["quoted"] == "" && s.sameVal(c.args[1], s.gh.refs["n"]), "scalar", name+": quoted text", at, "it is read twice, or with another indentation")
				e := s.clone()
				e.gh.tags["quoted"] = "error"
				y := s.clone()
				y.gh.tags["quoted"] = "yes"
				q := y.fresh(str)
				y.gh.refs["quoted"] = q
				s.gh.tags["quoted"] = "no"
				return []exitSt{
					{y, tuple(q, vBool(condTrue), y.errVal(true)), true},
					{s, tuple(s.strConst(""), vBool(condTrue.not()), s.errVal(true)), true},
					{e, tuple(e.strConst(""), vBool(condTrue.not()), e.errVal(false)), true}}, true
			case "-> string bool":
				m.ob(s, s.gh.tags["quoted"] != "" && s.gh.tags["quoted"] != "yes" && s.gh.tags["word"] == "", "scalar", name+": word", at, "a word is read before quoted text was tried, after it was found, or twice")
				y := s.clone()
				y.gh.tags["word"] = "yes"
				w := y.fresh(str)
				y.upd(w.id, func(f *Fact) {})
				y.gh.refs["word"] = w
				s.gh.tags["word"] = "no"
				return []exitSt{{y, tuple(w, vBool(condTrue)), true}, {s, tuple(s.strConst(""), vBool(condTrue.not())), true}}, true
			}
			return s.skip(ins, c), true
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KTuple || len(v.elts) != 2 {
				return
			}
			g := s.gh
			ok := 0
			if v.elts[1].k == KBool {
				ok = s.quick(v.elts[1].cond)
			}
			f := s.fact(v.elts[0].id)
			kind := ""
			if f.dyn != nil && f.pay != nil {
				kind = scalarKind(f.dyn)
			}
			var pay Val
			if f.pay != nil {
				pay = *f.pay
			}
			if e, has := g.refs["word"]; has {
				if w := s.fact(e.id); w.str != nil {
					// a text that is known
					if _, err := strconv.ParseInt(*w.str, 10, 64); err != nil {
						g.tags["int"] = "no"
					}
					if _, err := strconv.ParseFloat(*w.str, 64); err != nil {
						g.tags["float"] = "no"
					}
				}
			}
			what, bad := "", ""
			switch {
			case g.tags["quoted"] == "error":
				return
			case g.tags["quoted"] == "yes":
				what = "quoted text"
				if ok <= 0 || kind != "string" || !s.valIs(pay, g.refs["quoted"]) {
					bad = "quoted text is not returned as the string it is"
				}
			case g.tags["word"] == "no":
				what = "nothing"
				if ok >= 0 {
					bad = "success although there is neither quoted text nor a word"
				}
			case g.tags["word"] != "yes":
				what, bad = "nothing", "a result without looking for a word"
			case ok <= 0:
				what, bad = "word", "no success for a word"
			case g.tags["int"] == "yes":
				what = "integer"
				if kind != "int" || pay.k != KInt || !s.prove(&Cond{op: CEq, l: pay.lin.add(g.ints["int"], -1)}) {
					bad = "an integer is not returned as such"
				}
			case g.tags["int"] != "no" || g.tags["float"] == "":
				what, bad = "word", "the result ("+kind+") does not depend on whether the word is a number"
			case g.tags["float"] == "yes":
				what = "number"
				if kind != "float" || !s.sameVal(pay, g.refs["float"]) {
					bad = "a number that is no integer is not returned as such"
				}
			default:
				w := s.fact(g.refs["word"].id)
				if w.str != nil && (*w.str == "true" || *w.str == "false") {
					what = *w.str
					q := 0
					if pay.k == KBool {
						q = s.truth(pay.cond)
					}
					if kind != "bool" || (q > 0) != (what == "true") || q == 0 {
						bad = "the word " + what + " is not returned as the truth value"
					}
					break
				}
				what = "text"
				not := " " + strings.Join(w.notStr, " ") + " "
				if w.str == nil && (!strings.Contains(not, " true ") || !strings.Contains(not, " false ")) {
					bad = "a string is returned although the word may be true or false"
				}
				if kind != "string" || !s.valIs(pay, g.refs["word"]) {
					bad = "another text is not returned as the string it is"
				}
			}
			n[what]++
			m.ob(s, bad == "", "scalar", name+": "+what, p.pos(root.Pos()), bad)
		},
	})
	for _, k := range []string{"quoted text", "integer", "number", "true", "false", "text"} {
		r.ob(n[k] > 0, "scalar", name+": "+k+" is recognised", p.pos(root.Pos()), "no path on which the scalar is "+k)
	}
}

// typedUse checks a function that has a flag for typed parsing.
func (r *Report) typedUse(root *ssa.Function, flag int, family map[*ssa.Function]int, typed, plain *ssa.Function) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	names := make([]string, len(root.Params))
	for i := range names {
		names[i] = "param"
	}
	names[flag] = "flag"
	uses := func(f *ssa.Function) bool { return calls(f, typed) || calls(f, plain) }
	// a function that hands the scalar to its caller
	gives := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		return rs.Len() == 2 && isIface(rs.At(0).Type()) && isBoolT(rs.At(1).Type()) && uses(f)
	}
	pending := func(s *State, what, at string) {
		m.ob(s, s.gh.tags["item"] != "read", "used", name+": scalar kept", at, "a scalar that was read is not added to the tree before "+what)
		s.gh.tags["item"] = ""
		delete(s.gh.refs, "item")
	}
	m.run(&Mode{name: "typed", terms: true, parts: 400,
		ghost: func(fn *ssa.Function) *Ghost { return newGhost() },
		entry: keepParams(root, names...),
		inline: func(s *State, fn *ssa.Function) bool {
			return len(s.frames) < 5 && fn != root && (uses(fn) || len(fn.Blocks) == 1 && fn.Signature.Recv() == nil)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			at := p.insPos(ins)
			fl := s.gh.refs["flag"]
			for _, a := range c.args {
				if e, ok := s.gh.refs["item"]; ok && p.recvNamed(c.fn, "SimpleEventHandler") {
					f := s.fact(a.id)
					if s.valIs(a, e) || f.pay != nil && s.valIs(*f.pay, e) {
						s.gh.tags["item"] = "added"
						return s.skip(ins, c), true
					}
				}
			}
			if k, ok := family[c.fn]; ok && !gives(c.fn) {
				q := s.quick(fl.cond)
				b := c.args[k]
				m.ob(s, b.k == KBool && (b.cond.String() == fl.cond.String() || q != 0 && q == s.quick(b.cond)), "used", name+": "+p.short(c.fn), at, "what is nested is not parsed as was asked for")
				pending(s, p.short(c.fn), at)
				return s.skip(ins, c), true
			}
			if c.fn == typed || c.fn == plain {
				pending(s, p.short(c.fn), at)
				q := s.quick(fl.cond)
				m.ob(s, c.fn == typed && q > 0 || c.fn == plain && q < 0, "used", name+": "+p.short(c.fn), at, "a scalar is not read as was asked for")
				f := s.clone()
				rt := c.fn.Signature.Results().At(0).Type()
				v := s.fresh(rt)
				s.gh.tags["item"] = "read"
				s.gh.refs["item"] = v
				return []exitSt{{s, tuple(v, vBool(condTrue)), true}, {f, tuple(f.fresh(rt), vBool(condTrue.not())), true}}, true
			}
			if p.recvNamed(c.fn, "Lexer", "Parser") && !uses(c.fn) {
				pending(s, p.short(c.fn), at)
			}
			if !uses(c.fn) {
				return s.skip(ins, c), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn == root && len(s.frames) == 2 && !gives(root) {
				pending(s, "the end of "+name, p.pos(root.Pos()))
			}
		},
	})
	if calls(root, typed) {
		for _, f := range []*ssa.Function{typed, plain} {
			r.ob(calls(root, f), "used", name+": "+p.short(f)+" is used", p.pos(root.Pos()), "it is not used")
		}
	}
}
