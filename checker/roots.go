package main

// Entry points, and the whole-program run of the abstract interpreter.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func exportedAPI(f *ssa.Function) bool {
	o, ok := f.Object().(*types.Func)
	if !ok || !o.Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n, ok := deref(r.Type()).(*types.Named)
		return ok && n.Obj().Exported()
	}
	return f.Parent() == nil
}

// apiRoots are the functions that the users of the packages can call, and the
// main functions.
func (p *Prog) apiRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.fns {
		if f.Pkg == nil || f.Parent() != nil {
			continue
		}
		if f.Pkg.Pkg.Name() == "main" {
			if f.Name() == "main" {
				r = append(r, f)
			}
			continue
		}
		if exportedAPI(f) {
			r = append(r, f)
		}
	}
	return r
}

// onlyCalled: a function value that is only called where it can be seen.
func (p *Prog) onlyCalled(v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			c := i.Common()
			for _, x := range c.Args {
				if x == v {
					g := c.StaticCallee()
					if g == nil {
						return false
					}
					if models[g.RelString(nil)] == nil && !p.isFn[g] {
						// called there with any arguments, see extEffects
						continue
					}
					if p.isFn[g] {
						for k, x := range c.Args {
							if x == v && k < len(g.Params) && !p.onlyCalled(g.Params[k], depth+1) {
								return false
							}
						}
					}
				}
			}
		case *ssa.Store:
			al, ok := i.Addr.(*ssa.Alloc)
			if !ok || i.Val != v {
				return false
			}
			for _, q := range *al.Referrers() {
				switch u := q.(type) {
				case *ssa.Store:
					if u.Addr != ssa.Value(al) {
						return false
					}
				case *ssa.UnOp:
					if !p.onlyCalled(u, depth+1) {
						return false
					}
				case *ssa.MakeClosure:
					for k, b := range u.Bindings {
						if b == ssa.Value(al) {
							fv := u.Fn.(*ssa.Function).FreeVars[k]
							for _, w := range *fv.Referrers() {
								ld, ok := w.(*ssa.UnOp)
								if !ok || !p.onlyCalled(ld, depth+1) {
									return false
								}
							}
						}
					}
				case *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.Phi:
			if !p.onlyCalled(i, depth+1) {
				return false
			}
		case *ssa.ChangeType:
			if !p.onlyCalled(i, depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// valueRoots are the functions used as values that something unknown may call.
func (p *Prog) valueRoots() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					if !p.onlyCalled(mc, 0) {
						set[g] = true
					}
					continue
				}
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || ssa.Value(g) == callee {
						continue
					}
					// a plain function as a value: see how the using value is used
					if v, ok := ins.(ssa.Value); ok {
						if _, isCall := ins.(ssa.CallInstruction); !isCall && p.onlyCalled(v, 0) {
							continue
						}
					}
					if c, ok := ins.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil && !p.isFn[h] {
							continue
						}
					}
					set[g] = true
				}
			}
		}
	}
	var r []*ssa.Function
	p.handlers = nil
	for _, f := range p.fns {
		if !set[f] || f.Blocks == nil {
			continue
		}
		// only functions of this program can call it, where a function of
		// its type is called
		if !p.givenAway(f) && p.calledAs(f.Signature) {
			p.handlers = append(p.handlers, f)
			continue
		}
		r = append(r, f)
	}
	return r
}

// givenAway: the function (or a closure of it) is an argument of a function of
// another package, or stored in something that is.
func (p *Prog) givenAway(f *ssa.Function) bool {
	for _, g := range p.fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					v := *op
					if mc, ok := v.(*ssa.MakeClosure); ok {
						v = mc.Fn
					}
					if v != ssa.Value(f) {
						continue
					}
					switch i := ins.(type) {
					case *ssa.MakeClosure, *ssa.ChangeType, *ssa.Return, *ssa.Phi, *ssa.Store, *ssa.DebugRef, *ssa.MapUpdate:
					case ssa.CallInstruction:
						if c := i.Common().StaticCallee(); c == nil || !p.isFn[c] {
							if i.Common().Value != *op {
								return true
							}
						}
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

// calledAs: an unknown function of this type is called somewhere.
func (p *Prog) calledAs(sig *types.Signature) bool {
	for _, g := range p.fns {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() && c.Common().StaticCallee() == nil {
					if _, ok := c.Common().Value.(*ssa.Builtin); !ok && types.Identical(c.Common().Signature(), sig) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *An) addRoot(f *ssa.Function) {
	m := a.sum(f)
	m.root = true
	s := &State{a: a, facts: map[VID]*Fact{}, z: newZone(), cells: map[cellKey]Cell{}}
	s.nilVal(nil)
	if a.m.ghost != nil {
		s.gh = a.m.ghost(f)
	}
	env := map[ssa.Value]Val{}
	s.frames = []*Frame{{fn: f, env: env}}
	for i, p := range f.Params {
		v := s.fresh(p.Type())
		env[p] = v
		if v.k != KRef {
			continue
		}
		nn := false
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			// graphs may be nil; parsers, logs, clients are made by the constructors
			nn = !a.p.isGraphPtr(p.Type())
		case *types.Signature:
			nn = true
		case *types.Interface:
			nn = t.NumMethods() > 0 && !isErrorT(p.Type())
		}
		if structOf(p.Type()) != nil {
			nn = true
		}
		_ = i
		if nn {
			s.upd(v.id, func(f *Fact) { f.nl = 2 })
		}
	}
	s.bindFree(f, env)
	if a.m.entry != nil {
		a.m.entry(s, f)
	}
	a.enterSum(m, s)
}

// runAll analyses from the roots until the invariants and summaries are stable.
func runAll(p *Prog, m *Mode, roots []*ssa.Function, inv *Invs, dbg bool) (*An, int) {
	rounds := 0
	for {
		rounds++
		a := newAn(p)
		a.m = m
		a.inv = inv
		a.dbg = dbg
		k := 0
		if inv != nil {
			k = inv.kills
		}
		for _, f := range roots {
			a.addRoot(f)
		}
		a.solve()
		if a.over || inv == nil || inv.kills == k {
			return a, rounds
		}
	}
}

// obligations of all summaries, merged.
type OblSet struct {
	o   *Obl
	in  map[*ssa.Function]bool // summaries it arises in
	bad map[*ssa.Function]*Obl
}

func (a *An) obligations() []*OblSet {
	m := map[string]*OblSet{}
	for _, s := range a.sums {
		for k, o := range s.obl {
			x := m[k]
			if x == nil {
				x = &OblSet{o: o, in: map[*ssa.Function]bool{}, bad: map[*ssa.Function]*Obl{}}
				m[k] = x
			}
			x.in[s.fn] = true
			if !o.ok {
				x.bad[s.fn] = o
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*OblSet
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}
