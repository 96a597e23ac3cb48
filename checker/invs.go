package main

// Invariants of the fields of structs, found by elimination: every candidate
// is assumed until an object that breaks it becomes visible.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type invCand struct {
	kind string // nonnil, ge0, ge-1, le, len, same, or
	st   string
	f, g *types.Var
	k    int64
	dead bool
	why  string
	n    int
}

func (c *invCand) String() string {
	switch c.kind {
	case "nonnil":
		return c.st + "." + c.f.Name() + " != nil"
	case "ge":
		return fmt.Sprintf("%s.%s >= %d", c.st, c.f.Name(), c.k)
	case "small":
		return c.st + "." + c.f.Name() + " is a count"
	case "le":
		return fmt.Sprintf("%s.%s <= %d", c.st, c.f.Name(), c.k)
	case "len":
		return fmt.Sprintf("len(%s.%s) == %d", c.st, c.f.Name(), c.k)
	case "same":
		return fmt.Sprintf("len(%s.%s) == len(%s)", c.st, c.f.Name(), c.g.Name())
	case "or":
		return fmt.Sprintf("%s.%s <= %d or %s <= %d", c.st, c.f.Name(), c.k, c.g.Name(), c.k)
	}
	return c.kind
}

type Invs struct {
	p     *Prog
	cands []*invCand
	by    map[*types.Var][]*invCand
	kills int
}

// newInvs lists the candidates: for unexported fields of the repository's structs.
func newInvs(p *Prog) *Invs {
	v := &Invs{p: p, by: map[*types.Var][]*invCand{}}
	// constants of makes, per struct
	lens := map[*types.Var]map[int64]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fld := structOf(deref(fa.X.Type())).Field(fa.Field)
				if n, ok := constLen(st.Val); ok {
					if lens[fld] == nil {
						lens[fld] = map[int64]bool{}
					}
					lens[fld][n] = true
				}
			}
		}
	}
	for _, pkg := range p.pkgs {
		sc := pkg.Types.Scope()
		names := sc.Names()
		for _, n := range names {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st := structOf(tn.Type())
			if st == nil {
				continue
			}
			zeroOK := tn.Exported() && sc.Lookup("New"+n) == nil && sc.Lookup("Open"+n) == nil
			var ints, slices []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if f.Exported() {
					continue
				}
				if _, ok := f.Type().Underlying().(*types.Slice); ok {
					slices = append(slices, f)
				}
				if isIntT(f.Type()) {
					ints = append(ints, f)
				}
				if isNillable(f.Type()) && !zeroOK {
					v.add(&invCand{kind: "nonnil", st: n, f: f})
				}
				if isIntT(f.Type()) {
					v.add(&invCand{kind: "small", st: n, f: f})
					v.add(&invCand{kind: "ge", st: n, f: f})
					v.add(&invCand{kind: "ge", st: n, f: f, k: -1})
				}
				if len(lens[f]) == 1 && !zeroOK {
					for k := range lens[f] {
						v.add(&invCand{kind: "len", st: n, f: f, k: k})
					}
				}
			}
			for i, f := range slices {
				for _, g := range slices[i+1:] {
					v.add(&invCand{kind: "same", st: n, f: f, g: g})
				}
			}
			ks := map[int64]bool{}
			for _, f := range slices {
				for k := range lens[f] {
					ks[k] = true
				}
			}
			var kk []int64
			for k := range ks {
				kk = append(kk, k)
			}
			sort.Slice(kk, func(i, j int) bool { return kk[i] < kk[j] })
			if len(kk) > 2 {
				kk = kk[:2]
			}
			for _, k := range kk {
				for i, f := range ints {
					v.add(&invCand{kind: "le", st: n, f: f, k: k})
					v.add(&invCand{kind: "le", st: n, f: f, k: k - 1})
					for _, g := range ints[i+1:] {
						v.add(&invCand{kind: "or", st: n, f: f, g: g, k: k - 1})
					}
				}
			}
		}
	}
	return v
}

func constLen(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		if c, ok := x.Len.(*ssa.Const); ok {
			return c.Int64(), true
		}
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Low == nil {
			if a, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				if x.High == nil {
					return a.Len(), true
				}
				if c, ok := x.High.(*ssa.Const); ok {
					return c.Int64(), true
				}
			}
		}
	}
	return 0, false
}

func (v *Invs) add(c *invCand) {
	v.cands = append(v.cands, c)
	v.by[c.f] = append(v.by[c.f], c)
	if c.g != nil {
		v.by[c.g] = append(v.by[c.g], c)
	}
}

// assume applies the candidates when the unknown content of a field is first seen.
func (v *Invs) assume(s *State, base VID, path string, fld *types.Var, val Val) {
	pre := path[:len(path)-len(fld.Name())]
	for _, c := range v.by[fld] {
		if c.dead {
			continue
		}
		switch c.kind {
		case "nonnil":
			if val.k == KRef {
				s.upd(val.id, func(f *Fact) { f.nl = 2 })
			}
		case "small":
			if id, ok := val.lin.single(); val.k == KInt && ok {
				s.upd(id, func(f *Fact) { f.full = false })
			}
		case "ge":
			if val.k == KInt {
				s.z.assumeLe(linC(c.k).add(val.lin, -1))
			}
		case "le":
			if val.k == KInt {
				s.z.assumeLe(val.lin.addK(-c.k))
			}
		case "len":
			if val.k == KRef {
				s.upd(val.id, func(f *Fact) { f.len = linC(c.k); f.nl = 2 })
			}
		case "same", "or":
			o := c.g
			if o == fld {
				o = c.f
			}
			oc, ok := s.cells[cellKey{base, pre + o.Name()}]
			if !ok {
				continue
			}
			if cond := v.rel(s, c, val, oc.v); cond != nil {
				if c.kind == "same" {
					s.z.assumeLe(cond.l)
					s.z.assumeLe(cond.l.mul(-1))
				} else if s.quick(cond) == 0 && !s.holds(cond) {
					s.pend = append(s.pend, cond)
					s.propagate()
				}
			}
		}
	}
	// integers that are bounded are not arbitrary numbers
	if val.k == KInt {
		if id, ok := val.lin.single(); ok {
			if s.z.lo(id) != negInf && s.z.hi(id) != posInf {
				s.upd(id, func(f *Fact) { f.full = false })
			}
		}
	}
}

func (v *Invs) rel(s *State, c *invCand, x, y Val) *Cond {
	if c.kind == "same" {
		lx, ly := s.lenOf(x), s.lenOf(y)
		if lx == nil || ly == nil {
			return nil
		}
		return &Cond{op: CEq, l: lx.add(ly, -1)}
	}
	if x.k != KInt || y.k != KInt {
		return nil
	}
	return &Cond{op: COr, x: &Cond{op: CLe, l: x.lin.addK(-c.k)}, y: &Cond{op: CLe, l: y.lin.addK(-c.k)}}
}

// partners materializes the fields related to one that is about to be written.
func (v *Invs) partners(s *State, base VID, path string, fld *types.Var) {
	pre := path[:len(path)-len(fld.Name())]
	for _, c := range v.by[fld] {
		if c.dead || c.g == nil {
			continue
		}
		for _, f := range []*types.Var{c.f, c.g} {
			k := cellKey{base, pre + f.Name()}
			if _, ok := s.cells[k]; !ok {
				s.materialize(base, k.path, Cell{fld: f, et: f.Type()})
			}
		}
	}
}

// checkObj checks the candidates on what is known of an object.
func (v *Invs) checkObj(s *State, id VID, ins ssa.Instruction) {
	for _, k := range sortedCells(s.cells) {
		if k.base != id {
			continue
		}
		c := s.cells[k]
		if c.fld != nil {
			v.checkCell(s, k, c, ins)
		}
	}
}

func (v *Invs) checkCell(s *State, k cellKey, cell Cell, ins ssa.Instruction) {
	for _, c := range v.by[cell.fld] {
		if c.dead || c.f != cell.fld {
			continue
		}
		c.n++
		if !v.holds(s, c, k, cell) {
			if os.Getenv("OGDLCHECK_KILL") == c.String() {
				fmt.Printf("KILL %s [%s]\n%s%s", c, s.trace(s.a), s.dump(), debug.Stack())
			}
			c.dead = true
			v.kills++
			w := "?"
			if ins != nil {
				w = v.p.insPos(ins) + " in " + v.p.short(ins.Parent())
			}
			c.why = w + " (" + cell.v.String() + ")"
		}
	}
}

// okCell: what is known of a field satisfies the candidates.
func (v *Invs) okCell(s *State, k cellKey, cell Cell) bool {
	for _, c := range v.by[cell.fld] {
		if !c.dead && c.f == cell.fld && !v.holds(s, c, k, cell) {
			return false
		}
	}
	return true
}

func (v *Invs) holds(s *State, c *invCand, k cellKey, cell Cell) bool {
	switch c.kind {
	case "nonnil":
		return s.nilness(cell.v) == 2
	case "small":
		return cell.v.k == KInt && !s.linFull(cell.v.lin)
	case "ge":
		return cell.v.k == KInt && s.z.lb_(cell.v.lin) >= c.k
	case "le":
		return cell.v.k == KInt && s.z.ub_(cell.v.lin) <= c.k
	case "len":
		l := s.lenOf(cell.v)
		return l != nil && s.z.ub_(l) == c.k && s.z.lb_(l) == c.k
	case "same", "or":
		pre := k.path[:len(k.path)-len(c.f.Name())]
		oc, has := s.cells[cellKey{k.base, pre + c.g.Name()}]
		if !has {
			return true
		}
		cond := v.rel(s, c, cell.v, oc.v)
		return cond != nil && (s.holds(cond) || s.prove(cond))
	}
	return true
}

// lose: a value is forgotten, and what it leads to will be taken to satisfy
// the candidates from here on.
func (v *Invs) lose(s *State, x Val) {
	if x.k != KRef && x.k != KPtr {
		return
	}
	m := map[VID]bool{}
	s.markVal(x, m)
	for again := true; again; {
		again = false
		for k, c := range s.cells {
			if m[k.base] {
				n := len(m)
				s.markVal(c.v, m)
				again = again || len(m) != n
			}
		}
	}
	delete(m, nilID)
	s.checkOut(func(k cellKey) bool { return m[k.base] })
}

// checkOut checks the candidates on cells that are about to be forgotten.
func (s *State) checkOut(which func(k cellKey) bool) {
	v := s.a.inv
	if v == nil {
		return
	}
	for k, c := range s.cells {
		if c.fld != nil && len(v.by[c.fld]) > 0 && which(k) {
			v.checkCell(s, k, c, s.curIns())
		}
	}
}

// globalNonNil: a package variable that is only assigned non nil values, by init.
func (p *Prog) globalNonNil(g *ssa.Global) bool {
	if g.Pkg == nil || !p.repoPkg[g.Pkg.Pkg] {
		return true // os.Stdin, io.EOF
	}
	if v, ok := p.globNN[g]; ok {
		return v
	}
	n, ok := 0, true
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, isSt := ins.(*ssa.Store)
				if !isSt || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				switch x := st.Val.(type) {
				case *ssa.Alloc, *ssa.MakeInterface, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.Slice:
				case *ssa.Call:
					c := x.Call.StaticCallee()
					if c == nil || p.isFn[c] || c.Signature.Results().Len() != 1 {
						ok = false
					}
				case *ssa.UnOp:
					g2, isG := x.X.(*ssa.Global)
					if x.Op != token.MUL || !isG || g2 == g || !p.globalNonNil(g2) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	if n == 0 {
		ok = false
	}
	p.globNN[g] = ok
	return ok
}
