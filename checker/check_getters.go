package main

// C19: typed getters. Each getter is analysed with the conversions as opaque
// operations on the content of the node; each conversion is analysed on its own.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldOf gives what a cell of an object holds.
func (s *State) fieldOf(id VID, name string) (Val, bool) {
	for _, k := range sortedCells(s.cells) {
		c := s.cells[k]
		if k.base == id && c.fld != nil && c.fld.Name() == name {
			return c.v, true
		}
	}
	return Val{}, false
}

// content of a node: what its first subnode holds.
func (s *State) content(n Val) (Val, bool) {
	out, ok := s.fieldOf(n.id, "Out")
	if !ok || out.k != KRef {
		return Val{}, false
	}
	for _, k := range sortedCells(s.cells) {
		c := s.cells[k]
		if k.base == out.id && k.path == "[0]" && c.v.k == KRef {
			return s.fieldOf(c.v.id, "This")
		}
	}
	return Val{}, false
}

// missing: the node is nil or has no content.
func (s *State) missing(n Val) bool {
	if s.nilness(n) == 1 {
		return true
	}
	out, ok := s.fieldOf(n.id, "Out")
	if !ok || out.k != KRef {
		return false
	}
	if s.nilness(out) == 1 {
		return true
	}
	l := s.fact(out.id).len
	return l != nil && s.prove(&Cond{op: CEq, l: l})
}

func scalarKind(t types.Type) string {
	switch {
	case isStrT(t):
		return "string"
	case isByteSlice(t):
		return "bytes"
	case isFloatT(t):
		return "float"
	case isBoolT(t):
		return "bool"
	case isIntT(t):
		return "int"
	}
	return ""
}

// emptyText: an interface value that holds the empty text.
func (s *State) emptyText(v Val) bool {
	f := s.fact(v.id)
	if f.pay == nil || f.pay.k != KRef || f.dyn == nil || !isStrT(f.dyn) {
		return false
	}
	l := s.fact(f.pay.id).len
	return l != nil && s.prove(&Cond{op: CEq, l: l})
}

// getterMode: node is the label of the node that holds the content.
func getterMode(m *modeRun, param *ssa.Parameter, exit func(s *State, v Val)) *Mode {
	p := m.r.p
	this := strings.HasPrefix(m.root.Name(), "This")
	node := func(s *State) (Val, bool) {
		if e, ok := s.gh.refs["found"]; ok {
			return e, true
		}
		if param != nil {
			return Val{}, false
		}
		return s.gh.refs["recv"], true
	}
	look := func(s *State) {
		n, ok := node(s)
		if !ok {
			return
		}
		if this {
			if v, ok := s.fieldOf(n.id, "This"); s.nilness(n) == 1 || ok && s.nilness(v) == 1 {
				s.gh.tags["missing"] = "yes"
			} else if ok && !s.gh.has("content") {
				s.gh.refs["content"] = v
			}
			return
		}
		if s.missing(n) {
			s.gh.tags["missing"] = "yes"
			return
		}
		if v, ok := s.content(n); ok && v.k == KRef && !s.gh.has("content") {
			s.gh.refs["content"] = v
		}
	}
	return &Mode{name: "getter", terms: true, paths: true, parts: 5000,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		entry:  keepParams(m.root, "recv", "param"),
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 8 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			sg := c.fn.Signature
			if k := p.convPrim(c.fn); k != "" && c.args[0].k == KRef {
				look(s)
				if s.nilness(c.args[0]) == 1 || sg.Results().Len() == 2 && s.emptyText(c.args[0]) {
					// nothing converts to nothing: shown for each conversion
					if sg.Results().Len() == 2 {
						v := s.fresh(sg.Results().At(0).Type())
						return ret(s, tuple(v, vBool(condTrue.not()))), true
					}
					if isStrT(sg.Results().At(0).Type()) {
						return ret(s, s.strConst("")), true
					}
				}
				return s.conv(c, k), true
			}
			if param != nil && sg.Recv() != nil && p.isGraphPtr(sg.Recv().Type()) && sg.Params().Len() == 1 && isStrT(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && p.isGraphPtr(sg.Results().At(0).Type()) {
				same := c.args[0].id == s.gh.refs["recv"].id && c.args[1].id == s.gh.refs["param"].id
				m.ob(s, same, "found", p.short(m.root)+": lookup", p.insPos(ins), "the path of the caller is not what is looked up in the graph")
				f := s.clone()
				v := s.fresh(sg.Results().At(0).Type())
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				s.gh.refs["found"] = v
				return []exitSt{{f, f.nilVal(sg.Results().At(0).Type()), true}, {s, v, true}}, true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			look(s)
			if fn == m.root && len(s.frames) == 2 {
				exit(s, v)
			}
		},
	}
}

// keepParams remembers the parameters of the function analysed.
func keepParams(root *ssa.Function, names ...string) func(s *State, fn *ssa.Function) {
	return func(s *State, fn *ssa.Function) {
		if fn == root && len(s.frames) <= 2 {
			for i, n := range names {
				s.gh.refs[n] = s.top().env[root.Params[i]]
			}
		}
	}
}

func resType(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() != 1 {
		return types.Typ[types.Invalid]
	}
	return f.Signature.Results().At(0).Type()
}

func calls(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

func (g *Ghost) has(k string) bool { _, ok := g.refs[k]; return ok }

// isConverted tells why a value is not the content converted to a kind.
func (s *State) isConverted(v Val, kind string) string {
	e, ok := s.gh.refs["content"]
	if !ok {
		return "not computed from the content of the node"
	}
	if s.valIs(v, e) {
		return ""
	}
	k, via := s.operand(v)
	if k != "content" {
		return "not a conversion of the content of the node"
	}
	if len(via) == 0 || !strings.HasPrefix(via[0], "as "+kind) && !strings.HasPrefix(via[0], "conv ") && kind != "bytes" {
		return "not converted to its type"
	}
	for i := 0; i < 12; i++ {
		t := s.termOf(v)
		if t == nil || len(t.args) != 1 {
			return ""
		}
		a := t.args[0]
		if strings.HasPrefix(t.op, "as ") && a.k == KRef {
			for _, m := range s.fact(a.id).memo {
				if m.n == "ok "+t.op[3:] && s.quick(m.v.cond) <= 0 {
					return "the result of a conversion that may have failed"
				}
			}
		}
		v = a
		if v.k == KRef {
			if f := s.fact(v.id); f.term == nil && f.pay != nil {
				v = *f.pay
			}
		}
	}
	return ""
}

func (s *State) valIs(a, b Val) bool { return a.k == KRef && b.k == KRef && a.id == b.id }

// failedConv: a conversion of the content to the kind is known to fail, or to
// give an empty text.
func (s *State) failedConv(kind string) bool {
	e, ok := s.gh.refs["content"]
	if !ok {
		return false
	}
	for k, v := range s.gh.tags {
		if strings.HasPrefix(k, "is content ") && v == "no" && strings.Contains(k, " "+kind+" ") {
			return true
		}
	}
	for _, m := range s.fact(e.id).memo {
		if strings.HasPrefix(m.n, "as string") && m.v.k == KRef {
			if l := s.fact(m.v.id).len; l != nil && s.prove(&Cond{op: CEq, l: l}) {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C19"] = func(r *Report) {
		p := r.p
		r.rule("found", "an error getter looks up its own path in its own graph; on every path to a nil error, for a path that is not empty, the node was found and the value returned is the content of its first subnode, through conversions that succeeded")
		r.rule("default", "a getter with a default returns it on every path on which it is given and the content is missing or its conversion fails (for texts: is empty), and only there; on the other paths with content it returns the content, converted")
		r.rule("conversion", "a conversion reports success only with the value its argument holds, a text parsed without error, or the truth value that the argument stands for")
		for _, f := range p.fns {
			if f.Pkg == nil || f.Pkg.Pkg != p.root || f.Signature.Recv() == nil || !p.isGraphPtr(f.Signature.Recv().Type()) || f.Object() == nil || !f.Object().Exported() || f.Blocks == nil {
				continue
			}
			sg := f.Signature
			if sg.Results().Len() == 2 && isErrorT(sg.Results().At(1).Type()) && sg.Params().Len() == 1 && isStrT(sg.Params().At(0).Type()) && !sg.Variadic() {
				k := scalarKind(sg.Results().At(0).Type())
				if k == "" {
					continue
				}
				r.errGetter(f, k)
			}
			if sg.Results().Len() == 1 && sg.Variadic() && sg.Params().Len() == 1 && strings.Contains(" Int64 Float64 Bool String ThisString ", " "+f.Name()+" ") {
				r.defGetter(f, scalarKind(sg.Results().At(0).Type()))
			}
		}
		for _, f := range p.fns {
			if f.Pkg != nil && f.Pkg.Pkg == p.root && f.Blocks != nil && f.Signature.Results().Len() == 2 && p.convPrim(f) != "" {
				r.conversion(f, p.convPrim(f))
			} else if f.Pkg != nil && f.Pkg.Pkg == p.root && f.Blocks != nil && p.convPrim(f) == "string" {
				for _, g := range p.fns {
					if k := scalarKind(resType(g)); k == "string" && strings.HasSuffix(g.Name(), "String") && calls(g, f) {
						r.nothing(f, "string")
						break
					}
				}
			}
		}
		r.floor("found", 5)
		r.floor("default", 4)
		r.floor("conversion", 4)
		r.assume = []string{"Get is the path lookup of C15; strconv parses a text if and only if it returns no error; content of type uint64 wraps to int64, as in Go"}
	}
}

func (r *Report) errGetter(f *ssa.Function, kind string) {
	p := r.p
	m := newModeRun(r, f)
	n := 0
	m.run(getterMode(m, f.Params[1], func(s *State, v Val) {
		if v.k != KTuple || len(v.elts) != 2 {
			return
		}
		n++
		bad := ""
		if s.nilness(v.elts[1]) != 2 {
			pl := s.fact(s.gh.refs["param"].id).len
			switch {
			case pl != nil && s.prove(&Cond{op: CEq, l: pl}):
				return
			case !s.gh.has("found"):
				bad = "no error although nothing was found"
			default:
				if bad = s.isConverted(v.elts[0], kind); bad != "" {
					bad = "no error with a value that is " + bad
				}
			}
		}
		m.ob(s, bad == "", "found", p.short(f)+": result", p.pos(f.Pos()), bad)
	}))
	r.ob(n > 0, "found", p.short(f)+": paths", p.pos(f.Pos()), "no result analysed")
}

func (r *Report) defGetter(f *ssa.Function, kind string) {
	p := r.p
	m := newModeRun(r, f)
	n := 0
	m.run(getterMode(m, nil, func(s *State, v Val) {
		n++
		def := s.gh.refs["param"]
		dl := s.fact(def.id).len
		given := 0 // not known
		if dl != nil {
			if s.prove(&Cond{op: CEq, l: dl}) {
				given = -1
			} else if s.z.lb_(dl) >= 1 {
				given = 1
			}
		}
		if s.nilness(def) == 1 {
			given = -1
		}
		isDef := false
		for k, c := range s.cells {
			if k.base == def.id && k.path == "[0]" && s.sameVal(c.v, v) {
				isDef = true
			}
		}
		missing := s.gh.tags["missing"] == "yes"
		failed := s.failedConv(kind)
		bad := ""
		switch {
		case isDef:
			if !missing && !failed {
				bad = "the default is returned although there may be content that converts"
			}
		case missing || failed && kind != "string":
			if given >= 0 {
				bad = fmt.Sprintf("the default may be given and is not returned (content missing: %v, conversion failed: %v)", missing, failed)
			}
		default:
			if bad = s.isConverted(v, kind); bad != "" {
				bad = "the value returned is " + bad
			} else if kind == "string" && given >= 0 {
				l := s.fact(v.id).len
				if l == nil || s.z.lb_(l) < 1 {
					bad = "an empty text is returned although a default may be given"
				}
			}
		}
		m.ob(s, bad == "", "default", p.short(f)+": result", p.pos(f.Pos()), bad)
	}))
	r.ob(n > 0, "default", p.short(f)+": paths", p.pos(f.Pos()), "no result analysed")
}

// conversion checks one conversion.
func (r *Report) conversion(f *ssa.Function, kind string) {
	p := r.p
	m := newModeRun(r, f)
	n := 0
	m.run(&Mode{name: "conversion", terms: true, noGC: true, paths: true, parts: 5000,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		entry:  keepParams(f, "arg"),
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 6 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			if c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "strconv" && strings.HasPrefix(c.fn.Name(), "Parse") {
				g := s.clone()
				rt := c.fn.Signature.Results().At(0).Type()
				if l := s.fact(c.args[0].id).len; l != nil && s.prove(&Cond{op: CEq, l: l}) {
					return ret(s, tuple(s.fresh(rt), s.errVal(false))), true
				}
				s.gh.tags["parsed"] = "yes"
				v := s.term(s.fresh(rt), "parse "+kind, c.args[0])
				return []exitSt{{g, tuple(g.fresh(rt), g.errVal(false)), true}, {s, tuple(v, s.errVal(true)), true}}, true
			}
			if k := p.convPrim(c.fn); (k == "string" || k == "bytes") && c.fn != f && c.args[0].k == KRef {
				return s.conv(c, k), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != m.root || len(s.frames) != 2 || v.k != KTuple {
				return
			}
			n++
			if q := s.quick(v.elts[1].cond); q <= 0 {
				why := ""
				for _, t := range s.clone().assume(v.elts[1].cond, false) {
					if why == "" {
						why = t.convertible(t.gh.refs["arg"], kind, 0)
					}
					if why == "" && t.gh.tags["parsed"] == "yes" {
						why = "a text that was parsed"
					}
				}
				m.ob(s, why == "", "conversion", p.short(f)+": failure", p.pos(f.Pos()), "no success for "+why)
				if q < 0 {
					return
				}
			}
			bad := ""
			for _, t := range s.clone().assume(v.elts[1].cond, true) {
				if bad == "" {
					bad = t.convertedFrom(v.elts[0], t.gh.refs["arg"], kind)
				}
			}
			m.ob(s, bad == "", "conversion", p.short(f)+": value", p.pos(f.Pos()), bad)
		},
	})
	r.ob(n > 0, "conversion", p.short(f)+": paths", p.pos(f.Pos()), "no result analysed")
	r.nothing(f, kind)
}

// nothing: nil and the empty text are not converted.
func (r *Report) nothing(f *ssa.Function, kind string) {
	p := r.p
	for _, what := range []string{"nil", "the empty text"} {
		m := newModeRun(r, f)
		n := 0
		m.run(&Mode{name: "nothing", terms: true, paths: true, parts: 5000,
			ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
			inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 8 },
			entry: func(s *State, fn *ssa.Function) {
				if fn != f || len(s.frames) > 2 {
					return
				}
				t := f.Params[0].Type()
				if what == "nil" {
					s.top().env[f.Params[0]] = s.nilVal(t)
					return
				}
				v, e := s.fresh(t), s.strConst("")
				s.upd(v.id, func(f *Fact) { f.nl = 2; f.dyn = types.Typ[types.String]; f.pay = &e })
				s.top().env[f.Params[0]] = v
			},
			call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
				if c.fn != nil && c.fn.Pkg != nil && c.fn.Pkg.Pkg.Path() == "strconv" && strings.HasPrefix(c.fn.Name(), "Parse") {
					if l := s.fact(c.args[0].id).len; l != nil && s.prove(&Cond{op: CEq, l: l}) {
						return ret(s, tuple(s.fresh(c.fn.Signature.Results().At(0).Type()), s.errVal(false))), true
					}
				}
				return nil, false
			},
			exit: func(s *State, fn *ssa.Function, v Val) {
				if fn != f || len(s.frames) != 2 {
					return
				}
				n++
				ok := false
				if v.k == KTuple {
					ok = s.quick(v.elts[1].cond) < 0
				} else if v.k == KRef {
					l := s.fact(v.id).len
					ok = s.nilness(v) == 1 || l != nil && s.prove(&Cond{op: CEq, l: l})
				}
				m.ob(s, ok, "conversion", p.short(f)+": "+what, p.pos(f.Pos()), what+" is converted to something")
			},
		})
		r.ob(n > 0, "conversion", p.short(f)+": "+what+", paths", p.pos(f.Pos()), "no result analysed")
	}
}

var kindTypes = map[string][]types.BasicKind{
	"int":   {types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64},
	"float": {types.Float32, types.Float64},
	"bool":  {types.Bool},
}

// convertible: the argument may hold a value of the kind itself.
func (s *State) convertible(arg Val, kind string, depth int) string {
	f := s.fact(arg.id)
	if s.nilness(arg) == 1 {
		return ""
	}
	if f.dyn != nil {
		if f.pay != nil && f.pay.k == KRef && depth < 3 {
			if th, ok := s.fieldOf(f.pay.id, "This"); ok {
				return s.convertible(th, kind, depth+1)
			}
		}
		for _, k := range kindTypes[kind] {
			if types.Identical(f.dyn, types.Typ[k]) {
				return "a value of type " + f.dyn.String()
			}
		}
		return ""
	}
	for _, k := range kindTypes[kind] {
		no := false
		for _, t := range f.notDyn {
			no = no || types.Identical(t, types.Typ[k])
		}
		if !no {
			return "a value that may be of type " + types.Typ[k].String()
		}
	}
	return ""
}

// convertedFrom: the value is what the argument holds, or parsed from it.
func (s *State) convertedFrom(v, arg Val, kind string) string {
	from := func(x Val) bool {
		for i := 0; i < 12; i++ {
			if x.k == KRef && x.id == arg.id {
				return true
			}
			if s.held(x, arg, 0) {
				return true
			}
			t := s.termOf(x)
			if t == nil || len(t.args) != 1 {
				return false
			}
			x = t.args[0]
		}
		return false
	}
	if kind != "bool" {
		if from(v) {
			return ""
		}
		return "success with a value that does not come from the argument"
	}
	// a truth value
	if s.held(v, arg, 0) {
		return ""
	}
	for _, b := range []bool{true, false} {
		for _, t := range s.clone().assume(v.cond, b) {
			if !t.standsFor(b, arg, 0) {
				return fmt.Sprintf("success with %v for an argument that does not stand for it", b)
			}
		}
	}
	return ""
}

// payloads of an interface value.
func (s *State) payloads(arg Val) []Val {
	f := s.fact(arg.id)
	var r []Val
	if f.pay != nil {
		r = append(r, *f.pay)
	}
	for _, m := range f.memo {
		if m.t != nil {
			r = append(r, m.v)
		}
	}
	return r
}

// held: the value is what the interface value holds, or what a node in it holds.
func (s *State) held(v, arg Val, depth int) bool {
	if depth > 3 || arg.k != KRef {
		return false
	}
	for _, w := range s.payloads(arg) {
		if s.sameVal(w, v) {
			return true
		}
		if w.k == KRef {
			if th, ok := s.fieldOf(w.id, "This"); ok && (s.valIs(th, v) || s.held(v, th, depth+1)) {
				return true
			}
		}
	}
	return false
}

// standsFor: the argument is known to be the truth value, its text, or a
// number that is (not) zero.
func (s *State) standsFor(b bool, arg Val, depth int) bool {
	if depth > 3 || arg.k != KRef {
		return false
	}
	for _, w := range s.payloads(arg) {
		switch w.k {
		case KBool:
			if q := s.quick(w.cond); q != 0 && q > 0 == b {
				return true
			}
		case KInt:
			z := &Cond{op: CEq, l: w.lin}
			if b && s.prove(z.not()) || !b && s.prove(z) {
				return true
			}
		case KRef:
			f := s.fact(w.id)
			if f.str != nil && *f.str == fmt.Sprint(b) {
				return true
			}
			// a text made of it
			for _, g := range s.facts {
				if g.str != nil && *g.str == fmt.Sprint(b) && g.term != nil && len(g.term.args) == 1 && s.valIs(g.term.args[0], w) {
					return true
				}
			}
			if th, ok := s.fieldOf(w.id, "This"); ok && s.standsFor(b, th, depth+1) {
				return true
			}
		}
	}
	return false
}
