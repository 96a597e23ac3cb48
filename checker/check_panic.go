package main

// C01 - C05: no panics, by abstract interpretation of the whole program.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var ruleText = map[string]string{
	"nil":        "a pointer, function or interface that is used is not nil",
	"index":      "an index is within the bounds of what it indexes",
	"slice":      "slice bounds are in order and within the capacity",
	"typeassert": "a type assertion without ok is made on a value of that type",
	"divzero":    "an integer divisor is not zero",
	"shift":      "a shift count is not negative",
	"makeslice":  "the size of a new slice is not negative",
	"compare":    "interfaces that are compared do not hold values that cannot be compared",
	"panic":      "an explicit panic is not reached",
	"nilelem":    "no nil node is put in a list of nodes (what all uses of the lists rely on)",
	"reflect":    "a reflect operation that can panic is used on a valid value of the right kind, with valid arguments",
}

// panicRun analyses the whole program, from every entry point.
func panicRun(r *Report) *An {
	p := r.p
	inv := newInvs(p)
	roots := append(p.apiRoots(), p.valueRoots()...)
	a, rounds := runAll(p, &Mode{name: "panic"}, roots, inv, false)
	if a.over {
		r.fail("analysis", "fixpoint", "", "the analysis does not stabilise: "+a.overWhy)
	}
	var is []string
	for _, c := range inv.cands {
		if !c.dead {
			is = append(is, c.String())
		}
	}
	r.extra["invariants_found"] = is
	r.extra["abstract_steps"] = a.steps
	r.extra["rounds"] = rounds
	return a
}

// reach is what can be called from some functions, in the repository.
func (p *Prog) reach(roots []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var q []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && p.isFn[f] && !m[f] {
			m[f] = true
			q = append(q, f)
		}
	}
	for _, f := range roots {
		add(f)
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.calleesOf(c.Common()) {
						add(g)
					}
				}
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if v.Synthetic != "" {
							// wrappers and bound methods
							for _, bb := range v.Blocks {
								for _, i2 := range bb.Instrs {
									if c, ok := i2.(ssa.CallInstruction); ok {
										add(c.Common().StaticCallee())
									}
								}
							}
						}
						add(v)
					case *ssa.MakeClosure:
						add(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return m
}

// calleesOf a call, in the repository: static ones, wrappers looked through,
// methods of the types of the repository that implement an interface.
func (p *Prog) calleesOf(c *ssa.CallCommon) []*ssa.Function {
	var r []*ssa.Function
	var add func(f *ssa.Function, d int)
	add = func(f *ssa.Function, d int) {
		if f == nil {
			return
		}
		if p.isFn[f] {
			r = append(r, f)
			return
		}
		if f.Synthetic != "" && d < 3 {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(ssa.CallInstruction); ok {
						add(x.Common().StaticCallee(), d+1)
					}
				}
			}
		}
	}
	if c.IsInvoke() {
		for _, f := range p.fns {
			rv := f.Signature.Recv()
			if rv == nil || f.Name() != c.Method.Name() {
				continue
			}
			if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(rv.Type(), it) {
				r = append(r, f)
			}
		}
		return r
	}
	if f := c.StaticCallee(); f != nil {
		add(f, 0)
		// functions given to other packages (sort.Sort, sort.Slice)
		for _, x := range c.Args {
			for _, g := range p.methodsGiven(x, []*ssa.Function{f}) {
				add(g, 0)
			}
		}
		return r
	}
	for _, g := range p.handlers {
		if types.Identical(g.Signature, c.Signature()) {
			r = append(r, g)
		}
	}
	return r
}

// methodsOf are the exported methods of a type of package ogdl.
func (p *Prog) methodsOf(typ string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.fns {
		if rv := f.Signature.Recv(); rv != nil && exportedAPI(f) {
			if n, ok := deref(rv.Type()).(*types.Named); ok && n.Obj().Name() == typ && n.Obj().Pkg() == p.root {
				r = append(r, f)
			}
		}
	}
	return r
}

func (r *Report) named(names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		if f := r.fn(n); f != nil {
			out = append(out, f)
		}
	}
	return out
}

// panicObs turns the obligations that arise below the roots into those of a property.
func panicObs(r *Report, a *An, roots []*ssa.Function, want func(o *Obl) bool) {
	in := r.p.reach(roots)
	for _, x := range a.obligations() {
		if !want(x.o) {
			continue
		}
		n := 0
		var bad *Obl
		var fs []*ssa.Function
		for f := range x.in {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return r.p.name(fs[i]) < r.p.name(fs[j]) })
		for _, f := range fs {
			if in[f] && in[x.o.fn] {
				n++
				if o := x.bad[f]; o != nil && bad == nil {
					bad = o
				}
			}
		}
		if n == 0 {
			continue
		}
		r.saw(x.o.fn)
		key := r.p.short(x.o.fn) + ": " + x.o.what
		if bad != nil {
			r.fail(x.o.rule, key, bad.pos, fmt.Sprintf("%s, in the calls %s", bad.why, bad.trace))
		} else {
			r.ob(true, x.o.rule, key, x.o.pos, "")
		}
		r.rule(x.o.rule, ruleText[x.o.rule])
	}
}

func allRules(*Obl) bool { return true }

var panicAssume = []string{
	"no child of a node is a nil pointer, and graphs are finite trees without cycles, as everything in the package builds them",
	"parsers, lexers, event handlers, logs and clients are made with their constructors, and are not nil",
	"readers respect the io.Reader contract for the count returned; methods of the standard library do not panic on the arguments they document as valid",
	"functions supplied by users do not panic; values they return are arbitrary",
	"counters and lengths do not overflow 64 bits; memory and stack suffice",
	"two error values that are compared hold comparable types",
}

func init() {
	checks["C01"] = func(r *Report) {
		p := r.p
		roots := p.methodsOf("Graph")
		if len(roots) < 50 {
			r.fail("instances", "methods of Graph", "", fmt.Sprintf("only %d exported methods of Graph found", len(roots)))
		}
		a := panicRun(r)
		panicObs(r, a, roots, func(o *Obl) bool {
			return o.rule == "nil" || o.rule == "index" || o.rule == "slice" || o.rule == "panic"
		})
		neutral(r, roots)
		r.assume = panicAssume
		r.floor("nil", 100)
		r.floor("neutral", 50)
	}
	checks["C02"] = func(r *Report) {
		p := r.p
		a := panicRun(r)
		roots := append(append(p.methodsOf("Lexer"), p.methodsOf("Parser")...), p.methodsOf("SimpleEventHandler")...)
		roots = append(roots, r.named("ogdl.NewLexer", "ogdl.NewParser", "ogdl.NewStringParser", "ogdl.NewBytesParser",
			"ogdl.FromString", "ogdl.FromStringTypes", "ogdl.FromBytes", "ogdl.FromReader", "ogdl.FromFile",
			"ogdl.NewPath", "ogdl.NewExpression", "ogdl.NewTemplate", "ogdl.NewTemplateFromBytes")...)
		panicObs(r, a, roots, allRules)
		r.assume = panicAssume
		r.floor("nil", 60)
		r.floor("index", 10)
	}
	checks["C03"] = func(r *Report) {
		a := panicRun(r)
		var roots []*ssa.Function
		for _, n := range []string{"Eval", "Process", "Get", "GetAt", "GetString", "GetInt64", "GetFloat64", "GetBool", "GetBytes",
			"Set", "Create", "Node", "NodeSet", "NodeOrNew", "Substitute", "Html"} {
			roots = append(roots, r.named("(*ogdl.Graph)."+n)...)
		}
		roots = append(roots, r.named("ogdl.NewExpression", "ogdl.NewPath", "ogdl.NewTemplate")...)
		panicObs(r, a, roots, allRules)
		r.assume = panicAssume
		r.floor("nil", 60)
		r.floor("index", 10)
		r.floor("divzero", 1)
	}
	checks["C04"] = func(r *Report) {
		p := r.p
		a := panicRun(r)
		roots := append(p.methodsOf("Graph"), r.named("ogdl.New", "ogdl.FromJSON", "io/gxml.Simplify")...)
		panicObs(r, a, roots, allRules)
		r.assume = panicAssume
		r.floor("nil", 100)
		r.floor("index", 20)
		r.floor("compare", 1)
	}
	checks["C05"] = func(r *Report) {
		a := panicRun(r)
		roots := r.named("ogdl.FromBinary", "ogdl.FromBinaryReader", "ogdl.FromBinaryBufioReader", "ogdl.FromBinaryFile",
			"(*ogdl.Log).Get", "(*ogdl.Log).GetBinary", "(*ogdlrf.Client).Call", "ogdlrf.Serve", "ogdlrf.Serve1", "(*ogdlrf.Server).Serve")
		panicObs(r, a, roots, allRules)
		endsRule(r, r.named("ogdl.FromBinary", "ogdl.FromBinaryReader", "ogdl.FromBinaryBufioReader", "ogdl.FromBinaryFile", "(*ogdl.Log).Get", "(*ogdl.Log).GetBinary"))
		r.assume = panicAssume
		r.floor("nil", 20)
		r.floor("ends", 3)
	}
}

// neutral analyses every method with a nil receiver, and looks at the results.
func neutral(r *Report, roots []*ssa.Function) {
	p := r.p
	r.rule("neutral", "called on a nil node, a method returns nil, an empty string or list, zero (-1 for the length, not-a-number), false, the default given by the caller, or an error")
	var cur *ssa.Function
	type res struct {
		n   int
		bad string
	}
	got := map[*ssa.Function]*res{}
	// what cannot be neutral, and why
	exempt := map[string]string{
		"(*Graph).Check": "a nil schema has no constraints",
		"(*Graph).Eval":  "an expression can be evaluated without a context",
	}
	wrote := false
	mode := &Mode{name: "neutral", noOb: true, terms: true,
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			f := c.com.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "bytes" {
				return nil, false
			}
			// a buffer nothing was written to is empty
			switch n := f.Name(); {
			case strings.HasPrefix(n, "Write") || n == "ReadFrom" || strings.HasPrefix(n, "NewBuffer"):
				wrote = true
			case (n == "Bytes" || n == "String") && !wrote:
				v := s.fresh(f.Signature.Results().At(0).Type())
				s.upd(v.id, func(f *Fact) { f.len = linC(0) })
				return ret(s, v), true
			}
			return nil, false
		},
		entry: func(s *State, fn *ssa.Function) {
			v := s.top().env[fn.Params[0]]
			if fn != cur {
				return
			}
			s.upd(v.id, func(f *Fact) { f.nl = 1 })
			if fn.Name() == "Equals" {
				// nil only equals nil
				s.upd(s.top().env[fn.Params[1]].id, func(f *Fact) { f.nl = 2 })
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != cur || len(s.frames) != 2 {
				return
			}
			g := got[fn]
			g.n++
			if why := s.isNeutral(fn, v); why != "" && g.bad == "" {
				g.bad = why
			}
		},
	}
	for _, f := range roots {
		if f.Signature.Results().Len() == 0 {
			r.ob(true, "neutral", p.short(f), p.pos(f.Pos()), "")
			continue
		}
		if why := exempt[p.short(f)]; why != "" {
			r.notes = append(r.notes, "neutral: "+p.short(f)+" is exempt: "+why)
			continue
		}
		cur = f
		wrote = false
		got[f] = &res{}
		a := newAn(p)
		a.m = mode
		a.addRoot(f)
		a.solve()
		g := got[f]
		r.saw(f)
		switch {
		case a.over:
			r.fail("analysis", p.short(f), "", a.overWhy)
		case g.n == 0:
			r.fail("neutral", p.short(f), p.pos(f.Pos()), "does not return on a nil node")
		default:
			r.ob(g.bad == "", "neutral", p.short(f), p.pos(f.Pos()), "on a nil node returns "+g.bad)
		}
	}
}

// isNeutral tells why a result is not neutral ("" if it is).
func (s *State) isNeutral(fn *ssa.Function, v Val) string {
	vals := []Val{v}
	if v.k == KTuple {
		vals = v.elts
	}
	res := fn.Signature.Results()
	// an error excuses everything
	for i, x := range vals {
		if isErrorT(res.At(i).Type()) && s.nilness(x) == 2 {
			return ""
		}
	}
	def := map[VID]bool{}
	for _, x := range fn.Params[1:] {
		if pv, ok := s.frames[0].env[x]; ok && pv.k == KRef {
			def[pv.id] = true
		}
	}
	for i, x := range vals {
		t := res.At(i).Type()
		if s.neutralVal(x, t) {
			continue
		}
		ok := false
		for k, c := range s.cells {
			if def[k.base] && strings.HasPrefix(k.path, "[") && s.sameVal(c.v, x) {
				ok = true
			}
		}
		if !ok {
			return fmt.Sprintf("%s that is not known to be neutral (%s)", t, x)
		}
	}
	return ""
}

func (s *State) neutralVal(x Val, t types.Type) bool {
	switch x.k {
	case KInt:
		return x.lin.isConst() && (x.lin.c == 0 || x.lin.c == -1)
	case KBool:
		return s.quick(x.cond) < 0
	case KRef:
		if s.nilness(x) == 1 {
			return true
		}
		f := s.fact(x.id)
		if f.term != nil && (f.term.op == "const 0" || f.term.op == "NaN") {
			return true
		}
		if f.pay != nil && f.dyn != nil {
			return s.neutralVal(*f.pay, f.dyn)
		}
		if l := s.lenOf(x); l != nil && s.z.ub_(l) <= 0 {
			return true
		}
		if isErrorT(t) {
			return true
		}
	}
	return false
}

func (s *State) sameVal(x, y Val) bool {
	switch {
	case x.k != y.k:
		return false
	case x.k == KInt:
		return x.lin.eq(y.lin)
	case x.k == KBool:
		return x.cond == y.cond || x.cond != nil && y.cond != nil && x.cond.op == CVar && y.cond.op == CVar && x.cond.id == y.cond.id
	case x.k == KRef:
		return x.id == y.id
	}
	return false
}
