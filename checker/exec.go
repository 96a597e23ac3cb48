package main

// Abstract execution of SSA.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An is one analysis.
type An struct {
	p        *Prog
	nextID   VID
	strs     map[string]VID
	globs    map[*ssa.Global]VID
	valOrd   map[ssa.Value]int
	steps    int
	maxSteps int
	over     bool

	inv     *Invs
	sums    map[sumKey]*Summary
	cur     *Summary // function being analysed
	m       *Mode
	mods    map[*ssa.Function]*modset
	cons    map[string]bool // constraints on call
	dbg     bool
	hard    bool // widening keeps nothing that grows
	maxPart int

	curIns  ssa.Instruction
	curRoot *ssa.Function
	overWhy string
	dirty   map[*ssa.Function]bool
	queue   []*ssa.Function
}

// Mode tells what a particular analysis tracks.
type Mode struct {
	sums bool // the ghost integers may be sums of two others
	name string
	// call can take over a call. It returns false if it does not.
	call func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool)
	// inline decides if a function of the repository is analysed in its caller.
	inline func(s *State, fn *ssa.Function) bool
	// enter and leave are called around inlined functions, loop heads at each iteration
	back  func(s *State, head *ssa.BasicBlock, from *ssa.BasicBlock)
	exit  func(s *State, fn *ssa.Function, v Val)
	store func(s *State, ins ssa.Instruction, ptr Val, v Val)
	// after an append of y to x
	// same: whether two interface values are known to be equal, by the mode
	same     func(s *State, x, y Val) *Cond
	sliced   func(s *State, ins ssa.Instruction, x Val, lo, hi *Lin, res Val)
	appended func(s *State, ins ssa.Instruction, x, y Val, elems map[int64]Val, res Val)
	ghost    func(fn *ssa.Function) *Ghost
	entry    func(s *State, fn *ssa.Function)
	// loaded: a value is read from memory; copied: by the builtin
	loaded func(s *State, ins ssa.Instruction, ptr, res Val)
	copied func(s *State, ins ssa.Instruction, dst, src, n Val)
	// apart: two objects are known to be distinct, by the mode
	apart func(s *State, a, b VID) bool
	// branch: a condition is now known to hold, or not
	branch func(s *State, c *Cond, want bool)
	// edge: from one block to the next
	edge func(s *State, fi *fnInfo, from, to *ssa.BasicBlock)
	// open: a package whose structures are followed like those of the repository
	open string
	// mapped: an entry of a map is read or written
	mapped func(s *State, ins ssa.Instruction, m, k, v Val, write bool)
	noOb   bool
	// bases: slices remember what they are a slice of
	bases bool
	// noWrap: conversions of lengths keep the value
	noWrap bool
	terms  bool
	nopart bool
	// how many states are kept apart at a point, if not the usual number
	parts int
	// in functions without loops, keep the states of each path apart
	paths bool
	// and in the bodies of loops; the mode forgets the tag "path" at their ends
	loopPaths bool
	// keep what is known of values that are no longer used
	noGC bool
}

type exitSt struct {
	s   *State
	v   Val
	has bool
}

type callInfo struct {
	com  *ssa.CallCommon
	fn   *ssa.Function // static or resolved callee
	args []Val
	fv   Val // function value
	typ  types.Type
}

// Obl is one proof obligation: it must hold in every state that reaches it.
type Obl struct {
	key   string
	fn    *ssa.Function
	rule  string
	what  string
	pos   string
	ok    bool
	n     int
	why   string
	trace string
}

func newAn(p *Prog) *An {
	return &An{p: p, nextID: nilID, strs: map[string]VID{}, globs: map[*ssa.Global]VID{}, valOrd: map[ssa.Value]int{},
		sums: map[sumKey]*Summary{}, maxSteps: 40000000, mods: map[*ssa.Function]*modset{}, m: &Mode{}, maxPart: 48}
}

func (a *An) inRepo(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && a.m != nil && a.m.open != "" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == a.m.open {
		return true
	}
	return a.p.inRepo(t)
}

// elemsNonNil: the type of list whose elements are never nil.
func (a *An) elemsNonNil(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && a.p.isGraphPtr(s.Elem())
}

func (a *An) strID(s string) VID {
	if id, ok := a.strs[s]; ok {
		return id
	}
	id := a.newID()
	a.strs[s] = id
	return id
}

func (a *An) sortVals(ks []ssa.Value) {
	ord := func(v ssa.Value) int {
		if o, ok := a.valOrd[v]; ok {
			return o
		}
		if v.Parent() != nil {
			f := v.Parent()
			n := 1
			for _, p := range f.Params {
				a.valOrd[p] = n
				n++
			}
			for _, p := range f.FreeVars {
				a.valOrd[p] = n
				n++
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if x, ok := i.(ssa.Value); ok {
						a.valOrd[x] = n
						n++
					}
				}
			}
		}
		return a.valOrd[v]
	}
	sort.Slice(ks, func(i, j int) bool { return ord(ks[i]) < ord(ks[j]) })
}

// ---- values

func (s *State) val(v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return s.constVal(c)
	case *ssa.Global:
		id, ok := s.a.globs[c]
		if !ok {
			id = s.a.newID()
			s.a.globs[c] = id
		}
		if s.facts[id] == nil {
			s.facts[id] = &Fact{typ: c.Type(), nl: 2}
		}
		return Val{k: KPtr, id: id}
	case *ssa.Function:
		id := s.a.newID()
		s.facts[id] = &Fact{typ: c.Type(), nl: 2, fn: c}
		return vRef(id)
	case *ssa.Builtin:
		return vRef(nilID)
	}
	if r, ok := s.top().env[v]; ok {
		return r
	}
	// not defined on this path (dead after pruning): unknown
	r := s.fresh(v.Type())
	s.top().env[v] = r
	return r
}

func (s *State) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if isNillable(t) {
			return s.nilVal(t)
		}
		return s.zero(t)
	}
	switch {
	case isIntT(t):
		if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return vInt(linC(n))
		}
		return s.freshInt(t)
	case isBoolT(t):
		return vBool(condB(constant.BoolVal(c.Value)))
	case isStrT(t):
		return s.strConst(constant.StringVal(c.Value))
	}
	id := s.newRef(t, 2)
	if s.a.m.terms {
		s.upd(id, func(f *Fact) { f.term = &Term{op: "const " + c.Value.ExactString()} })
	}
	return vRef(id)
}

// ---- memory

// base of a pointer value
func (s *State) asPtr(v Val) Val {
	if v.k == KRef {
		return Val{k: KPtr, id: v.id}
	}
	return v
}

// materialize makes the unknown content of a cell.
func (s *State) materialize(base VID, path string, like Cell) (Val, bool) {
	if like.et == nil {
		return Val{}, false
	}
	f := s.fact(base)
	if f.nl == 1 {
		return Val{}, false
	}
	if f.fresh {
		// contents of fresh objects are all known, except after a loss
		if strings.HasPrefix(path, "$") {
			return Val{}, false
		}
	}
	v := s.fresh(like.et)
	s.cells[cellKey{base, path}] = Cell{v: v, fld: like.fld, et: like.et, ix: like.ix}
	if like.fld != nil && s.a.inv != nil {
		s.a.inv.assume(s, base, path, like.fld, v)
	}
	if like.fld == nil && path == "[*]" || strings.HasPrefix(path, "[") {
		if f.enn {
			if v.k == KRef {
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
			}
		}
	}
	return v, true
}

func (s *State) load(ptr Val, t types.Type) Val {
	ptr = s.asPtr(ptr)
	if st := structOf(t); st != nil && s.a.inRepo(t) {
		v := Val{k: KStruct}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			v.elts = append(v.elts, s.load(Val{k: KPtr, id: ptr.id, path: ptr.path + "." + f.Name(), fld: f}, f.Type()))
		}
		return v
	}
	if strings.HasSuffix(ptr.path, "[*]") {
		v := s.fresh(t)
		if s.fact(ptr.id).enn && v.k == KRef {
			s.upd(v.id, func(f *Fact) { f.nl = 2 })
		}
		return v
	}
	k := cellKey{ptr.id, ptr.path}
	if c, ok := s.cells[k]; ok {
		return c.v
	}
	if g := s.a.globalOf(ptr); g != nil {
		v := s.fresh(t)
		if v.k == KRef && isNillable(t) && s.a.p.globalNonNil(g) {
			s.upd(v.id, func(f *Fact) { f.nl = 2 })
		}
		s.cells[k] = Cell{v: v, et: t}
		return v
	}
	v, _ := s.materialize(ptr.id, ptr.path, Cell{fld: ptr.fld, et: t, ix: ptr.ix})
	return v
}

func (a *An) globalOf(ptr Val) *ssa.Global {
	if ptr.path != "" {
		return nil
	}
	for g, id := range a.globs {
		if id == ptr.id {
			return g
		}
	}
	return nil
}

func (s *State) setCell(ptr Val, v Val, t types.Type) {
	ptr = s.asPtr(ptr)
	if st := structOf(t); st != nil && s.a.inRepo(t) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			var e Val
			if v.k == KStruct && i < len(v.elts) {
				e = v.elts[i]
			} else {
				e = s.fresh(f.Type())
			}
			s.setCell(Val{k: KPtr, id: ptr.id, path: ptr.path + "." + f.Name(), fld: f}, e, f.Type())
		}
		return
	}
	s.kill(ptr, t)
	if strings.HasSuffix(ptr.path, "[*]") {
		return
	}
	s.cells[cellKey{ptr.id, ptr.path}] = Cell{v: v, fld: ptr.fld, et: t, ix: ptr.ix}
}

// kill forgets the cells that a store through ptr can change.
func (s *State) kill(ptr Val, t types.Type) {
	f := s.fact(ptr.id)
	elem := strings.HasSuffix(ptr.path, "]")
	for k, c := range s.cells {
		if k.base == ptr.id {
			if elem && strings.HasSuffix(k.path, "]") {
				if c.ix == nil && ptr.ix == nil && k.path != ptr.path && !strings.HasSuffix(ptr.path, "[*]") {
					continue // different constant positions
				}
				delete(s.cells, k)
			}
			continue
		}
		if elem {
			if c.fld == nil && strings.HasPrefix(k.path, "[") && c.et != nil && types.Identical(c.et, t) {
				delete(s.cells, k)
			}
			continue
		}
		if ptr.fld != nil && c.fld == ptr.fld && (s.isKid(ptr.id, k.base) || s.isKid(k.base, ptr.id)) {
			continue
		}
		if f.fresh || s.fact(k.base).fresh || s.a.m.apart != nil && s.a.m.apart(s, ptr.id, k.base) {
			continue
		}
		if ptr.fld != nil {
			if c.fld == ptr.fld {
				s.checkOut(func(x cellKey) bool { return x == k })
				delete(s.cells, k)
			}
		} else if c.fld == nil && !strings.HasPrefix(k.path, "[") && !strings.HasPrefix(k.path, "$") && c.et != nil && types.Identical(c.et, t) {
			// plain variables: distinct ids made by Alloc are distinct
			if s.fact(ptr.id).org != "var" || s.fact(k.base).org != "var" {
				delete(s.cells, k)
			}
		}
	}
}

// kid: a node that was read from the list of another is another node, as
// graphs have no cycles.
func (s *State) kid(list, v Val) {
	if list.k != KRef || v.k != KRef {
		return
	}
	for k, c := range s.cells {
		if k.path == ".Out" && c.v.k == KRef && c.v.id == list.id && c.fld != nil {
			s.setMemo(v.id, "kid", vRef(k.base))
			return
		}
	}
}

func (s *State) isKid(a, b VID) bool {
	m, ok := s.memoOf(vRef(a), "kid")
	return ok && m.k == KRef && m.id == b
}

// escape: an object becomes reachable from elsewhere.
func (s *State) escape(v Val) {
	switch v.k {
	case KTuple, KStruct:
		for _, e := range v.elts {
			s.escape(e)
		}
	case KRef, KPtr:
		f := s.fact(v.id)
		if f.pay != nil {
			s.escape(*f.pay)
		}
		for _, b := range f.binds {
			s.escape(b)
		}
		if f.fresh {
			s.upd(v.id, func(f *Fact) { f.fresh = false })
			for k, c := range s.cells {
				if k.base == v.id {
					s.escape(c.v)
				}
			}
			if s.a.inv != nil {
				s.a.inv.checkObj(s, v.id, s.curIns())
			}
		}
	}
}

func (s *State) curIns() ssa.Instruction { return s.a.curIns }

func (s *State) store(ptr Val, v Val, t types.Type, ins ssa.Instruction) {
	ptr = s.asPtr(ptr)
	if s.a.m.store != nil {
		s.a.m.store(s, ins, ptr, v)
	}
	if s.a.inv != nil && ptr.fld != nil && !s.fact(ptr.id).fresh {
		s.a.inv.partners(s, ptr.id, ptr.path, ptr.fld)
	}
	s.setCell(ptr, v, t)
	if !s.fact(ptr.id).fresh {
		s.escape(v)
	}
}

// ---- running functions

type accEnt struct {
	s *State
	n int
}

func (a *An) isRecursive(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// runFn runs the function of the top frame. The frame is popped in the exits.
func (a *An) runFn(st *State) []exitSt {
	fn := st.top().fn
	fi := a.p.fi(fn)
	depth := len(st.frames)
	pend := make([][]*State, len(fi.order))
	acc := map[*ssa.BasicBlock]map[string]*accEnt{}
	var exits []exitSt
	idx := func(b *ssa.BasicBlock) int { return fi.rpo[b] }
	pend[0] = []*State{st}
	push := func(s *State, from, to *ssa.BasicBlock) {
		if s.enter(fi, from, to) {
			if a.m.edge != nil {
				a.m.edge(s, fi, from, to)
			}
			if a.m.back != nil && fi.loops[to] != nil && fi.loops[to].body[from] {
				a.m.back(s, to, from)
			}
			i := idx(to)
			pend[i] = append(pend[i], s)
		}
	}
	for {
		i := -1
		for k := range pend {
			if len(pend[k]) > 0 {
				i = k
				break
			}
		}
		if i < 0 {
			break
		}
		b := fi.order[i]
		sts := pend[i]
		pend[i] = nil
		if fi.loops[b] != nil {
			m := acc[b]
			if m == nil {
				m = map[string]*accEnt{}
				acc[b] = m
			}
			var chg []string
			isChg := map[string]bool{}
			for _, s := range sts {
				k := s.key(false)
				if len(m) > a.maxPart/2 && m[k] == nil {
					k = "*"
				}
				e := m[k]
				if e == nil {
					m[k] = &accEnt{s, 1}
				} else {
					if a.leq(s, e.s) {
						continue
					}
					e.n++
					w := e.n > 3
					if a.dbg && e.n > 55 {
						fmt.Printf("==== loop %s block %d n=%d\nA:\n%sN:\n%s", a.p.name(fn), b.Index, e.n, e.s.dump(), s.dump())
					}
					a.hard = e.n > 30
					e.s = a.join(e.s, s, w)
					a.hard = false
					e.s.gc()
					if e.n > 80 {
						a.over = true
						a.overWhy = "loop in " + a.p.name(fn) + " does not stabilise"
						return exits
					}
				}
				if !isChg[k] {
					isChg[k] = true
					chg = append(chg, k)
				}
			}
			sts = nil
			for _, k := range chg {
				sts = append(sts, m[k].s.clone())
			}
		} else {
			sts = a.mergeStates(sts)
		}
		for _, s := range sts {
			if traced != "" && a.p.name(fn) == traced {
				fmt.Printf("TRACE %s block %d [%s]\n%s", traced, b.Index, s.trace(a), s.dump())
			}
			a.block(s, fi, b, push, &exits, depth)
			if a.over {
				return exits
			}
		}
	}
	return a.mergeExits(exits)
}

// traced prints the states of one function, for debugging.
var traced = os.Getenv("OGDLCHECK_TRACE")

func (a *An) mergeStates(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	group := func(ints bool) []*State {
		m := map[string]*State{}
		var ks []string
		for _, s := range sts {
			k := s.key(ints)
			if o := m[k]; o != nil {
				if a.leq(s, o) {
					continue
				}
				j := a.join(o, s, false)
				j.gc()
				m[k] = j
			} else {
				m[k] = s
				ks = append(ks, k)
			}
		}
		var r []*State
		for _, k := range ks {
			r = append(r, m[k])
		}
		return r
	}
	r := group(true)
	if len(r) > a.maxPart {
		sts = r
		r = group(false)
	}
	if len(r) > a.maxPart {
		o := r[0]
		for _, s := range r[1:] {
			o = a.join(o, s, false)
		}
		o.gc()
		r = []*State{o}
	}
	return r
}

// resKey partitions the exits of a function by what is known of the results.
func (s *State) resKey(v Val, has bool) string {
	if !has {
		if s.gh != nil {
			return s.gh.key(s)
		}
		return ""
	}
	t := s.top()
	sv := t.env
	t.env = map[ssa.Value]Val{resVal: v}
	k := s.key(true)
	t.env = sv
	return k
}

// resVal stands for the result of a call while exits are merged.
var resVal ssa.Value = &ssa.Builtin{}

func (a *An) mergeExits(ex []exitSt) []exitSt {
	if len(ex) < 2 {
		return ex
	}
	group := func(key func(e exitSt) string) []exitSt {
		m := map[string]exitSt{}
		var ks []string
		for _, e := range ex {
			k := key(e)
			if o, ok := m[k]; ok {
				m[k] = a.joinExit(o, e)
			} else {
				m[k] = e
				ks = append(ks, k)
			}
		}
		var r []exitSt
		for _, k := range ks {
			r = append(r, m[k])
		}
		return r
	}
	r := group(func(e exitSt) string { return e.s.resKey(e.v, e.has) })
	if len(r) > 16 && len(r) > a.m.parts {
		ex = r
		r = group(func(e exitSt) string { return "" })
	}
	return r
}

func (a *An) joinExit(x, y exitSt) exitSt {
	if !x.has {
		j := a.join(x.s, y.s, false)
		j.gc()
		return exitSt{s: j}
	}
	x.s.top().env[resVal] = x.v
	y.s.top().env[resVal] = y.v
	j := a.join(x.s, y.s, false)
	j.gc()
	v := j.top().env[resVal]
	delete(j.top().env, resVal)
	delete(x.s.top().env, resVal)
	delete(y.s.top().env, resVal)
	return exitSt{s: j, v: v, has: true}
}

// enter moves a state over an edge: phis, then only what is live.
func (s *State) enter(fi *fnInfo, from, to *ssa.BasicBlock) bool {
	env := s.top().env
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var ps []pv
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, pv{ph, s.val(ph.Edges[pi])})
	}
	live := fi.liveIn[to.Index]
	for v := range env {
		if !live[v] {
			delete(env, v)
		}
	}
	for _, p := range ps {
		env[p.p] = p.v
	}
	s.gc()
	return true
}

func (a *An) block(st *State, fi *fnInfo, b *ssa.BasicBlock, push func(s *State, from, to *ssa.BasicBlock), exits *[]exitSt, depth int) {
	cur := []*State{st}
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		var next []*State
		for _, s := range cur {
			a.steps++
			if a.steps > a.maxSteps {
				a.over = true
				a.overWhy = "step limit"
				return
			}
			a.curIns = ins
			switch ins := ins.(type) {
			case *ssa.If:
				c := s.val(ins.Cond)
				cond := c.cond
				if c.k != KBool {
					cond = s.freshBool().cond
				}
				mark := func(s *State, to string) {
					if a.m.paths && s.gh != nil && (len(fi.loops) == 0 || a.m.loopPaths && fi.inLoop[b] != nil && fi.inLoop[b].head != b) {
						s.gh.tags["path"] += fmt.Sprintf(" %s.%d%s", fi.fn.Name(), b.Index, to)
					}
				}
				switch s.quick(cond) {
				case 1:
					mark(s, "")
					for _, t := range s.assume(cond, true) {
						if a.m.branch != nil {
							a.m.branch(t, cond, true)
						}
						push(t, b, b.Succs[0])
					}
				case -1:
					mark(s, "!")
					for _, t := range s.assume(cond, false) {
						if a.m.branch != nil {
							a.m.branch(t, cond, false)
						}
						push(t, b, b.Succs[1])
					}
				default:
					f := s.clone()
					mark(s, "")
					mark(f, "!")
					for _, t := range s.assume(cond, true) {
						if a.m.branch != nil {
							a.m.branch(t, cond, true)
						}
						push(t, b, b.Succs[0])
					}
					for _, t := range f.assume(cond, false) {
						if a.m.branch != nil {
							a.m.branch(t, cond, false)
						}
						push(t, b, b.Succs[1])
					}
				}
			case *ssa.Jump:
				push(s, b, b.Succs[0])
			case *ssa.Return:
				var v Val
				has := len(ins.Results) > 0
				if len(ins.Results) == 1 {
					v = s.val(ins.Results[0])
				} else if has {
					v = Val{k: KTuple}
					for _, r := range ins.Results {
						v.elts = append(v.elts, s.val(r))
					}
				}
				if a.m.exit != nil {
					a.m.exit(s, fi.fn, v)
				}
				s.frames = s.frames[:depth-1]
				if len(s.frames) > 0 {
					// own the caller's frame again
					n := make([]*Frame, len(s.frames))
					copy(n, s.frames)
					n[len(n)-1] = n[len(n)-1].clone()
					s.frames = n
				}
				*exits = append(*exits, exitSt{s, v, has})
			case *ssa.Panic:
				a.ob(s, ins, "panic", "explicit panic", false, "reachable")
			default:
				next = append(next, a.step(s, ins)...)
			}
			if a.over {
				return
			}
		}
		cur = next
		if _, ok := ins.(ssa.CallInstruction); ok && len(cur) > 8 && len(cur) > a.m.parts {
			cur = a.mergeStates(cur)
		}
	}
}

// ---- obligations

func (a *An) ob(s *State, ins ssa.Instruction, rule, what string, ok bool, why string) {
	if a.m.noOb || a.cur == nil {
		return
	}
	fn := ins.Parent()
	key := fmt.Sprintf("%s|%s|%s|%s", a.p.name(fn), rule, what, a.p.insPos(ins))
	o := a.cur.obl[key]
	if o == nil {
		o = &Obl{key: key, fn: fn, rule: rule, what: what, pos: a.p.insPos(ins), ok: true}
		a.cur.obl[key] = o
	}
	o.n++
	if !ok && o.ok {
		o.ok = false
		o.why = why
		o.trace = s.trace(a)
	}
}

func (s *State) trace(a *An) string {
	var r []string
	for i, f := range s.frames {
		if f.fn == nil {
			continue
		}
		n := a.p.short(f.fn)
		if i > 0 && f.site != nil {
			n += "@" + a.p.insPos(f.site)
		}
		r = append(r, n)
	}
	return strings.Join(r, " > ")
}

// prove tries to show that a condition holds, splitting on pending disjunctions.
func (s *State) prove(c *Cond) bool {
	if s.quick(c) > 0 {
		return true
	}
	t := s.clone().assume(c, false)
	if len(t) == 0 {
		return true
	}
	for i, p := range s.pend {
		ok := true
		for _, half := range []*Cond{p.x, p.y} {
			h := s.clone()
			h.pend = append(append([]*Cond{}, s.pend[:i]...), s.pend[i+1:]...)
			for _, u := range h.assume(half, true) {
				if len(u.assume(c, false)) > 0 {
					ok = false
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func le(x, y *Lin) *Cond { return &Cond{op: CLe, l: x.add(y, -1)} }
func lt(x, y *Lin) *Cond { return &Cond{op: CLe, l: x.add(y, -1).addK(1)} }

// need records an obligation and continues under the assumption that it holds.
func (a *An) need(s *State, ins ssa.Instruction, rule, what string, c *Cond) []*State {
	ok := s.prove(c)
	a.ob(s, ins, rule, what, ok, "cannot show "+c.String())
	return s.assume(c, true)
}

// notNil is the obligation that a pointer is not nil.
func (a *An) notNil(s *State, ins ssa.Instruction, v Val, what string) bool {
	if v.k != KRef {
		return true
	}
	nl := s.fact(v.id).nl
	why := "may be nil"
	if nl == 1 {
		why = "is nil"
	}
	a.ob(s, ins, "nil", what, nl == 2, why)
	return s.setNil(v.id, false)
}

func (a *An) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
		return "call"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return a.describe(x.X)
		}
	case *ssa.FieldAddr:
		st := structOf(deref(x.X.Type()))
		return a.describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return a.describe(x.X) + "[]"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Extract:
		return a.describe(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Global:
		return x.Name()
	case *ssa.MakeInterface:
		return a.describe(x.X)
	case *ssa.TypeAssert:
		return a.describe(x.X) + ".(type)"
	case *ssa.Slice:
		return a.describe(x.X) + "[:]"
	case *ssa.Const:
		return x.Name()
	}
	return v.Type().String()
}

// ---- instructions

func (a *An) step(s *State, ins ssa.Instruction) []*State {
	env := s.top().env
	one := []*State{s}
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := deref(i.Type())
		id := s.a.newID()
		f := &Fact{typ: i.Type(), nl: 2, fresh: true}
		if structOf(t) == nil {
			f.org = "var"
		}
		s.facts[id] = f
		env[i] = Val{k: KPtr, id: id}
		if arr, ok := t.Underlying().(*types.Array); ok {
			s.upd(id, func(f *Fact) { f.len = linC(arr.Len()); f.enn = false })
			if arr.Len() <= 64 {
				for k := int64(0); k < arr.Len(); k++ {
					s.cells[cellKey{id, fmt.Sprintf("[%d]", k)}] = Cell{v: s.zero(arr.Elem()), et: arr.Elem()}
				}
			}
			return one
		}
		if structOf(t) != nil && !a.inRepo(t) {
			s.upd(id, func(f *Fact) { f.typ = t })
			return one
		}
		s.setCell(Val{k: KPtr, id: id}, s.zero(t), t)
		return one
	case *ssa.BinOp:
		r, sts := a.binop(s, i)
		_ = r
		return sts
	case *ssa.UnOp:
		return a.unop(s, i)
	case *ssa.ChangeType:
		env[i] = s.val(i.X)
		return one
	case *ssa.ChangeInterface:
		env[i] = s.val(i.X)
		return one
	case *ssa.Convert:
		env[i] = s.convert(s.val(i.X), i.X.Type(), i.Type())
		return one
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		if v, ok := ins.(ssa.Value); ok {
			env[v] = s.fresh(v.Type())
		}
		return one
	case *ssa.MakeInterface:
		v := s.val(i.X)
		id := a.newID()
		s.facts[id] = &Fact{typ: i.Type(), nl: 2, dyn: i.X.Type(), pay: &v}
		env[i] = vRef(id)
		return one
	case *ssa.MakeClosure:
		id := a.newID()
		f := &Fact{typ: i.Type(), nl: 2, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, s.val(b))
		}
		s.facts[id] = f
		env[i] = vRef(id)
		return one
	case *ssa.MakeMap:
		env[i] = vRef(s.newRef(i.Type(), 2))
		return one
	case *ssa.MakeSlice:
		l := s.val(i.Len)
		r := one
		if l.k == KInt {
			r = nil
			for _, t := range a.need(s, i, "makeslice", "make "+a.describe(i.Len), le(linC(0), l.lin)) {
				id := t.newRef(i.Type(), 2)
				zn := false
				t.upd(id, func(f *Fact) { f.len = l.lin; f.enn = l.lin.isConst() && l.lin.c == 0; f.fresh = true; f.org = "zero" })
				_ = zn
				t.top().env[i] = vRef(id)
				if a.elemsNonNil(i.Type()) {
					// nil elements: the list must be filled, which is not followed
					a.ob(t, i, "nilelem", "list of graphs made with nil elements", l.lin.isConst() && l.lin.c == 0, "elements are nil")
				}
				if a.m.appended != nil {
					a.m.appended(t, i, Val{}, Val{}, nil, vRef(id))
				}
				r = append(r, t)
			}
		}
		return r
	case *ssa.Slice:
		return a.slice(s, i)
	case *ssa.FieldAddr:
		x := s.val(i.X)
		st := structOf(deref(i.X.Type()))
		f := st.Field(i.Field)
		if !a.notNil(s, i, x, a.describe(i.X)+"."+f.Name()) {
			return nil
		}
		p := s.asPtr(x)
		env[i] = Val{k: KPtr, id: p.id, path: p.path + "." + f.Name(), fld: f}
		return one
	case *ssa.Field:
		x := s.val(i.X)
		if x.k == KStruct && i.Field < len(x.elts) {
			env[i] = x.elts[i.Field]
		} else {
			env[i] = s.fresh(i.Type())
		}
		return one
	case *ssa.IndexAddr:
		x := s.val(i.X)
		ix := s.val(i.Index)
		if ix.k != KInt {
			ix = s.freshInt(types.Typ[types.Int])
		}
		var l *Lin
		id := x.id
		pre := ""
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if !a.notNil(s, i, x, a.describe(i.X)) {
				return nil
			}
			l = linC(pt.Elem().Underlying().(*types.Array).Len())
			pre = x.path
		} else {
			l = s.lenOf(x)
		}
		var out []*State
		for _, t := range a.inBounds(s, i, a.describe(i.X), ix.lin, l) {
			pv := Val{k: KPtr, id: id, path: fmt.Sprintf("%s[%s]", pre, ix.lin)}
			if !ix.lin.isConst() {
				pv.ix = ix.lin
				if et := deref(i.Type()); structOf(et) != nil && !a.opaque(et) {
					pv = pv.star()
				}
			}
			t.top().env[i] = pv
			out = append(out, t)
		}
		return out
	case *ssa.Index:
		x := s.val(i.X)
		ix := s.val(i.Index)
		if isStrT(i.X.Type()) {
			if ix.k != KInt {
				ix = s.freshInt(types.Typ[types.Int])
			}
			var out []*State
			for _, t := range a.inBounds(s, i, a.describe(i.X), ix.lin, t0(s.lenOf(x))) {
				t.top().env[i] = t.strByte(x, ix.lin)
				out = append(out, t)
			}
			return out
		}
		env[i] = s.fresh(i.Type())
		return one
	case *ssa.Lookup:
		env[i] = s.fresh(i.Type())
		x := s.val(i.Index)
		if a.m.mapped != nil {
			a.m.mapped(s, i, s.val(i.X), x, env[i], false)
		}
		if isIface(i.Index.Type()) {
			a.comparable(s, i, x, x, "map key")
		}
		return one
	case *ssa.MapUpdate:
		m := s.val(i.Map)
		if !a.notNil(s, i, m, "write to map "+a.describe(i.Map)) {
			return nil
		}
		if a.m.mapped != nil {
			a.m.mapped(s, i, m, s.val(i.Key), s.val(i.Value), true)
		}
		s.escape(s.val(i.Value))
		s.escape(s.val(i.Key))
		return one
	case *ssa.Range:
		env[i] = s.val(i.X)
		return one
	case *ssa.Next:
		ok := s.freshBool()
		v := Val{k: KTuple, elts: []Val{ok}}
		tt := i.Type().(*types.Tuple)
		if i.IsString {
			k := s.freshRange(types.Typ[types.Int], 0, posInf)
			r := s.freshRange(types.Typ[types.Rune], 0, 0x10ffff)
			v.elts = append(v.elts, k, r)
			env[i] = v
			// k < len when ok
			x := s.val(i.Iter)
			f := s.clone()
			var out []*State
			for _, t := range s.assume(ok.cond, true) {
				if l := t.lenOf(x); l != nil {
					out = append(out, t.assume(lt(k.lin, l), true)...)
				} else {
					out = append(out, t)
				}
			}
			return append(out, f.assume(ok.cond, false)...)
		}
		for k := 1; k < tt.Len(); k++ {
			v.elts = append(v.elts, s.fresh(tt.At(k).Type()))
		}
		if a.m.mapped != nil && len(v.elts) == 3 {
			a.m.mapped(s, i, s.val(i.Iter), v.elts[1], v.elts[2], false)
		}
		env[i] = v
		return one
	case *ssa.Extract:
		v := s.val(i.Tuple)
		if v.k == KTuple && i.Index < len(v.elts) {
			env[i] = v.elts[i.Index]
		} else {
			env[i] = s.fresh(i.Type())
		}
		return one
	case *ssa.TypeAssert:
		return a.typeAssert(s, i)
	case *ssa.Store:
		p := s.val(i.Addr)
		if !a.notNil(s, i, p, "store to "+a.describe(i.Addr)) {
			return nil
		}
		v := s.val(i.Val)
		// elements of lists of graphs are never nil
		if ia, ok := i.Addr.(*ssa.IndexAddr); ok && a.p.isGraphPtr(i.Val.Type()) {
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				a.ob(s, i, "nilelem", "nil element in "+a.describe(ia.X), s.nilness(v) == 2, "may be nil")
			}
		}
		s.store(p, v, i.Val.Type(), i)
		if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
			_ = ia
			if f := s.fact(p.id); f.enn && isNillable(i.Val.Type()) && s.nilness(v) != 2 {
				s.upd(p.id, func(f *Fact) { f.enn = false })
			}
		}
		return one
	case *ssa.Defer:
		d := deferred{ins: i, fn: Val{k: KRef, id: nilID}}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fn = s.val(i.Call.Value)
			}
		} else {
			d.fn = s.val(i.Call.Value)
		}
		for _, x := range i.Call.Args {
			d.args = append(d.args, s.val(x))
		}
		s.top().defers = append(s.top().defers, d)
		return one
	case *ssa.RunDefers:
		cur := one
		for {
			var next []*State
			more := false
			for _, t := range cur {
				n := len(t.top().defers)
				if n == 0 {
					next = append(next, t)
					continue
				}
				more = true
				d := t.top().defers[n-1]
				t.top().defers = append([]deferred{}, t.top().defers[:n-1]...)
				ci := &callInfo{com: &d.ins.Call, args: d.args, fv: d.fn, typ: d.ins.Call.Signature().Results()}
				for _, e := range a.call(t, d.ins, ci) {
					next = append(next, e.s)
				}
			}
			cur = next
			if !more {
				return cur
			}
		}
	case *ssa.Go:
		ci := a.mkCall(s, &i.Call)
		for _, v := range ci.args {
			s.escape(v)
		}
		if a.m.call != nil {
			if r, ok := a.m.call(s, i, ci); ok {
				var out []*State
				for _, e := range r {
					out = append(out, e.s)
				}
				return out
			}
		}
		a.goCall(s, i, ci)
		return one
	case *ssa.Call:
		ci := a.mkCall(s, &i.Call)
		var out []*State
		ex := a.call(s, i, ci)
		for _, e := range ex {
			if e.has {
				e.s.top().env[i] = e.v
			} else {
				delete(e.s.top().env, i)
			}
			out = append(out, e.s)
		}
		return out
	}
	if v, ok := ins.(ssa.Value); ok {
		env[v] = s.fresh(v.Type())
	}
	return one
}

func t0(l *Lin) *Lin { return l }

func (s *State) lenOf(x Val) *Lin {
	if x.k != KRef && x.k != KPtr {
		return nil
	}
	f := s.fact(x.id)
	if f.nl == 1 {
		return linC(0)
	}
	if f.len == nil {
		l := s.freshRange(nil, 0, posInf)
		s.upd(x.id, func(f *Fact) { f.len = l.lin })
		return l.lin
	}
	return f.len
}

// strByte is a byte of a string or byte slice; constant positions are remembered.
func (s *State) strByte(x Val, ix *Lin) Val {
	f := s.fact(x.id)
	if f.str != nil && ix.isConst() && ix.c >= 0 && ix.c < int64(len(*f.str)) {
		return vInt(linC(int64((*f.str)[ix.c])))
	}
	n := "byte " + ix.String()
	for _, m := range f.memo {
		if m.n == n {
			return m.v
		}
	}
	v := s.freshInt(types.Typ[types.Uint8])
	if f.str != nil {
		var b bset
		for k := 0; k < len(*f.str); k++ {
			b.add(int((*f.str)[k]))
		}
		id, _ := v.lin.single()
		s.refineBytes(id, &b, true)
	}
	if ix.isConst() {
		s.upd(x.id, func(f *Fact) { f.memo = append(append([]tmemo{}, f.memo...), tmemo{nil, n, v}) })
	}
	return v
}

func (a *An) inBounds(s *State, ins ssa.Instruction, what string, ix, l *Lin) []*State {
	if l == nil {
		l = s.freshRange(nil, 0, posInf).lin
	}
	c := &Cond{op: CAnd, x: le(linC(0), ix), y: lt(ix, l)}
	ok := s.prove(c.x) && s.prove(c.y)
	a.ob(s, ins, "index", what+"[]", ok, fmt.Sprintf("cannot show 0 <= %s < %s", ix, l))
	return s.assume(c, true)
}

func (a *An) slice(s *State, i *ssa.Slice) []*State {
	x := s.val(i.X)
	var l, capl *Lin
	isArr := false
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if !a.notNil(s, i, x, a.describe(i.X)) {
			return nil
		}
		l = linC(pt.Elem().Underlying().(*types.Array).Len())
		isArr = true
	} else {
		l = s.lenOf(x)
	}
	capl = l
	lo, hi := linC(0), l
	if i.Low != nil {
		if v := s.val(i.Low); v.k == KInt {
			lo = v.lin
		} else {
			lo = s.freshInt(types.Typ[types.Int]).lin
		}
	}
	if i.High != nil {
		if v := s.val(i.High); v.k == KInt {
			hi = v.lin
		} else {
			hi = s.freshInt(types.Typ[types.Int]).lin
		}
	}
	cur := []*State{s}
	if i.Low != nil || i.High != nil {
		c1, c2, c3 := le(linC(0), lo), le(lo, hi), le(hi, capl)
		ok := s.prove(c1) && s.prove(c2) && s.prove(c3)
		a.ob(s, i, "slice", a.describe(i.X)+"[:]", ok, fmt.Sprintf("cannot show 0 <= %s <= %s <= %s", lo, hi, capl))
		cur = nil
		for _, t := range s.assume(c1, true) {
			for _, u := range t.assume(c2, true) {
				cur = append(cur, u.assume(c3, true)...)
			}
		}
	}
	for _, t := range cur {
		f := t.fact(x.id)
		if isStrT(i.X.Type()) && f.str != nil && lo.isConst() && hi.isConst() && lo.c >= 0 && hi.c <= int64(len(*f.str)) && lo.c <= hi.c {
			t.top().env[i] = t.strConst((*f.str)[lo.c:hi.c])
			continue
		}
		id := t.newRef(i.Type(), f.nl)
		if isStrT(i.Type()) || isArr {
			t.upd(id, func(g *Fact) { g.nl = 2 })
		}
		enn := f.enn
		if isArr {
			// an array whose elements are all known not nil
			at := deref(i.X.Type()).Underlying().(*types.Array)
			enn = true
			if isNillable(at.Elem()) || a.opaque(at.Elem()) {
				for k := int64(0); k < at.Len(); k++ {
					c, ok := t.cells[cellKey{x.id, fmt.Sprintf("%s[%d]", x.path, k)}]
					if !ok || t.nilness(c.v) != 2 {
						enn = false
					}
				}
			}
			if a.elemsNonNil(i.Type()) {
				a.ob(t, i, "nilelem", "list literal with a nil graph", enn, "an element may be nil")
			}
		}
		t.upd(id, func(g *Fact) {
			g.len = hi.add(lo, -1)
			g.enn = enn
			g.org = f.org
		})
		if isArr && lo.c == 0 && lo.isConst() {
			// element cells
			for _, k := range sortedCells(t.cells) {
				if k.base == x.id && strings.HasPrefix(k.path, x.path+"[") {
					t.cells[cellKey{id, k.path[len(x.path):]}] = t.cells[k]
				}
			}
		}
		if lo.isConst() && lo.c == 0 {
			var ms []tmemo
			for _, m := range f.memo {
				if strings.HasPrefix(m.n, "byte ") {
					ms = append(ms, m)
				}
			}
			t.upd(id, func(g *Fact) { g.memo = ms })
			if a.m.bases {
				t.setMemo(id, "base", vRef(t.baseOf(x)))
			}
		}
		t.top().env[i] = t.term(vRef(id), "slice", x, vInt(lo), vInt(hi))
		if a.m.sliced != nil {
			a.m.sliced(t, i, x, lo, hi, vRef(id))
		}
	}
	return cur
}

// opaque struct types of other packages are kept by reference, with nilness as validity
func (a *An) opaque(t types.Type) bool {
	return structOf(t) != nil && !a.inRepo(t)
}

func (a *An) comparable(s *State, ins ssa.Instruction, x, y Val, what string) {
	safe := func(v Val) bool {
		if v.k != KRef {
			return true
		}
		f := s.fact(v.id)
		return f.nl == 1 || (f.dyn != nil && types.Comparable(f.dyn) && structOf(f.dyn) == nil)
	}
	a.ob(s, ins, "compare", "comparison of interface values "+what, safe(x) || safe(y), "the dynamic type may not be comparable")
}

func (a *An) typeAssert(s *State, i *ssa.TypeAssert) []*State {
	x := s.val(i.X)
	if x.k != KRef {
		s.top().env[i] = s.fresh(i.Type())
		return []*State{s}
	}
	var cond *Cond
	toIface := isIface(i.AssertedType)
	if toIface {
		f := s.fact(x.id)
		switch {
		case f.nl == 1:
			cond = condFalse
		case f.dyn != nil:
			cond = condB(types.Implements(f.dyn, i.AssertedType.Underlying().(*types.Interface)))
		default:
			cond = s.freshBool().cond
		}
	} else {
		cond = &Cond{op: CType, id: x.id, t: i.AssertedType}
	}
	if !i.CommaOk {
		ok := s.prove(cond)
		a.ob(s, i, "typeassert", a.describe(i.X)+".("+types.TypeString(i.AssertedType, func(p *types.Package) string { return p.Name() })+")", ok, "the dynamic type is not known")
		sts := s.assume(cond, true)
		for _, t := range sts {
			t.top().env[i] = a.asserted(t, x, i.AssertedType, toIface)
		}
		return sts
	}
	f := s.clone()
	sts := s.assume(cond, true)
	for _, t := range sts {
		t.top().env[i] = Val{k: KTuple, elts: []Val{a.asserted(t, x, i.AssertedType, toIface), vBool(condTrue)}}
	}
	for _, t := range f.assume(cond, false) {
		t.top().env[i] = Val{k: KTuple, elts: []Val{t.zero(i.AssertedType), vBool(condFalse)}}
		sts = append(sts, t)
	}
	return sts
}

// asserted is the value of a successful type assertion.
func (a *An) asserted(s *State, x Val, t types.Type, toIface bool) Val {
	if toIface {
		s.setNil(x.id, false)
		return x
	}
	f := s.fact(x.id)
	if f.pay != nil {
		return *f.pay
	}
	for _, m := range f.memo {
		if m.n == "" && m.t != nil && types.Identical(m.t, t) {
			return m.v
		}
	}
	v := s.fresh(t)
	s.upd(x.id, func(f *Fact) {
		f.dyn = t
		f.pay = &v
		f.nl = 2
	})
	return v
}

func (a *An) unop(s *State, i *ssa.UnOp) []*State {
	env := s.top().env
	x := s.val(i.X)
	switch i.Op {
	case token.MUL:
		if !a.notNil(s, i, x, "*"+a.describe(i.X)) {
			return nil
		}
		env[i] = s.load(x, i.Type())
		if ia, ok := i.X.(*ssa.IndexAddr); ok && isNodeList(ia.X.Type()) {
			s.kid(s.val(ia.X), env[i])
		}
		if a.m.loaded != nil {
			a.m.loaded(s, i, x, env[i])
		}
		return []*State{s}
	case token.NOT:
		if x.k == KBool {
			env[i] = vBool(x.cond.not())
			return []*State{s}
		}
	case token.SUB:
		if x.k == KInt {
			env[i] = s.arith(x.lin.mul(-1), i.Type())
			return []*State{s}
		}
	}
	env[i] = s.fresh(i.Type())
	if a.m.terms && env[i].k == KRef {
		id := env[i].id
		s.upd(id, func(f *Fact) { f.term = &Term{op: "un" + i.Op.String(), args: []Val{x}} })
	}
	return []*State{s}
}

// arith is an integer result, or an unknown one if it can wrap around.
func (s *State) arith(l *Lin, t types.Type) Val {
	if l.isConst() {
		return vInt(l)
	}
	lo, hi, full := intRange(t)
	ub, lb := s.z.ub_(l), s.z.lb_(l)
	if !full {
		if ub <= hi && lb >= lo {
			return vInt(l)
		}
		return s.freshInt(t)
	}
	if lo == 0 && lb < 0 { // unsigned
		return s.freshInt(t)
	}
	// values that are not user supplied 64 bit numbers are lengths, indexes and
	// counters, far from the limits
	okHi, okLo := ub != posInf, lb != negInf
	if !s.linFull(l) {
		return vInt(l)
	}
	if !okHi {
		okHi = s.boundedBy(l, true)
	}
	if !okLo {
		okLo = s.boundedBy(l, false)
	}
	if okHi && okLo {
		return vInt(l)
	}
	return s.freshInt(t)
}

// boundedBy tells if l is at most (least) some id that cannot be near the limits.
func (s *State) boundedBy(l *Lin, up bool) bool {
	for p := range s.z.d {
		y := p.y
		if !up {
			y = p.x
		}
		if s.fact(y).full {
			continue
		}
		if up && s.z.ub_(l.add(linV(y), -1)) != posInf {
			return true
		}
		if !up && s.z.lb_(l.add(linV(y), -1)) != negInf {
			return true
		}
	}
	return false
}

func (s *State) term(v Val, op string, args ...Val) Val {
	if !s.a.m.terms {
		return v
	}
	switch v.k {
	case KInt:
		if id, ok := v.lin.single(); ok {
			s.upd(id, func(f *Fact) { f.term = &Term{op: op, args: args} })
		}
	case KRef:
		s.upd(v.id, func(f *Fact) { f.term = &Term{op: op, args: args} })
	case KBool:
		if v.cond.op == CVar {
			s.upd(v.cond.id, func(f *Fact) { f.term = &Term{op: op, args: args} })
		}
	}
	return v
}

func (a *An) binop(s *State, i *ssa.BinOp) (Val, []*State) {
	x, y := s.val(i.X), s.val(i.Y)
	set := func(v Val) []*State {
		s.top().env[i] = v
		return []*State{s}
	}
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		c := a.equal(s, i, x, y, t)
		if i.Op == token.NEQ {
			c = c.not()
		}
		return Val{}, set(vBool(c))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.k == KInt && y.k == KInt {
			var c *Cond
			switch i.Op {
			case token.LSS:
				c = lt(x.lin, y.lin)
			case token.LEQ:
				c = le(x.lin, y.lin)
			case token.GTR:
				c = lt(y.lin, x.lin)
			case token.GEQ:
				c = le(y.lin, x.lin)
			}
			if c.l.isConst() {
				c = condB(c.l.c <= 0)
			}
			return Val{}, set(vBool(c))
		}
		return Val{}, set(s.term(s.freshBool(), i.Op.String(), x, y))
	}
	if isStrT(i.Type()) && i.Op == token.ADD {
		fx, fy := s.fact(x.id), s.fact(y.id)
		if fx.str != nil && fy.str != nil {
			return Val{}, set(s.strConst(*fx.str + *fy.str))
		}
		v := s.fresh(i.Type())
		l := s.lenOf(x).add(s.lenOf(y), 1)
		s.upd(v.id, func(f *Fact) { f.len = l })
		return Val{}, set(s.term(v, "+", x, y))
	}
	if !isIntT(i.Type()) || x.k != KInt || y.k != KInt {
		return Val{}, set(s.term(s.fresh(i.Type()), i.Op.String(), x, y))
	}
	T := i.Type()
	switch i.Op {
	case token.ADD:
		if s.a.m.terms && s.linFull(x.lin.add(y.lin, 1)) {
			return Val{}, set(s.term(s.freshInt(T), "+", x, y))
		}
		return Val{}, set(s.arith(x.lin.add(y.lin, 1), T))
	case token.SUB:
		if s.a.m.terms && s.linFull(x.lin.add(y.lin, 1)) {
			return Val{}, set(s.term(s.freshInt(T), "-", x, y))
		}
		return Val{}, set(s.arith(x.lin.add(y.lin, -1), T))
	case token.MUL:
		if y.lin.isConst() {
			return Val{}, set(s.arith(x.lin.mul(y.lin.c), T))
		}
		if x.lin.isConst() {
			return Val{}, set(s.arith(y.lin.mul(x.lin.c), T))
		}
	case token.QUO, token.REM:
		c := &Cond{op: CEq, l: y.lin}
		ok := s.prove(c.not())
		a.ob(s, i, "divzero", a.describe(i.Y), ok, "the divisor may be zero")
		sts := s.assume(c.not(), true)
		for _, u := range sts {
			var v Val
			lx, hx := u.z.lb_(x.lin), u.z.ub_(x.lin)
			if x.lin.isConst() && y.lin.isConst() && y.lin.c != 0 {
				if i.Op == token.QUO {
					v = vInt(linC(x.lin.c / y.lin.c))
				} else {
					v = vInt(linC(x.lin.c % y.lin.c))
				}
			} else if y.lin.isConst() && y.lin.c > 0 && lx >= 0 {
				if i.Op == token.QUO {
					h := int64(posInf)
					if hx != posInf {
						h = hx / y.lin.c
					}
					v = u.freshRange(T, lx/y.lin.c, h)
				} else {
					v = u.freshRange(T, 0, y.lin.c-1)
				}
			} else {
				v = u.freshInt(T)
			}
			u.top().env[i] = u.term(v, i.Op.String(), x, y)
		}
		return Val{}, sts
	}
	lx, hx := s.z.lb_(x.lin), s.z.ub_(x.lin)
	ly, hy := s.z.lb_(y.lin), s.z.ub_(y.lin)
	v := s.freshInt(T)
	switch i.Op {
	case token.AND:
		if x.lin.isConst() && y.lin.isConst() {
			v = vInt(linC(x.lin.c & y.lin.c))
		} else if ly >= 0 && lx >= 0 {
			h := hx
			if hy < h {
				h = hy
			}
			v = s.freshRange(T, 0, h)
		} else if y.lin.isConst() && y.lin.c >= 0 {
			v = s.freshRange(T, 0, y.lin.c)
		} else if x.lin.isConst() && x.lin.c >= 0 {
			v = s.freshRange(T, 0, x.lin.c)
		}
	case token.OR, token.XOR:
		if x.lin.isConst() && y.lin.isConst() {
			if i.Op == token.OR {
				v = vInt(linC(x.lin.c | y.lin.c))
			} else {
				v = vInt(linC(x.lin.c ^ y.lin.c))
			}
		} else if lx >= 0 && ly >= 0 && hx < 1<<60 && hy < 1<<60 {
			m := int64(1)
			for m <= hx || m <= hy {
				m <<= 1
			}
			lo := int64(0)
			if i.Op == token.OR {
				lo = lx
				if ly > lo {
					lo = ly
				}
			}
			v = s.freshRange(T, lo, m-1)
		}
	case token.SHL:
		if x.lin.isConst() && y.lin.isConst() && y.lin.c < 62 && x.lin.c < 1<<(61-uint(y.lin.c)) && x.lin.c >= 0 {
			v = vInt(linC(x.lin.c << uint(y.lin.c)))
		} else if y.lin.isConst() && y.lin.c < 40 && lx >= 0 && hx < 1<<22 {
			v = s.arith(x.lin.mul(1<<uint(y.lin.c)), T)
		}
		if ly < 0 {
			c := le(linC(0), y.lin)
			if _, _, full := intRange(i.Y.Type()); full || true {
				if b, ok := i.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
					a.ob(s, i, "shift", a.describe(i.Y), s.prove(c), "the shift count may be negative")
				}
			}
		}
	case token.SHR:
		if x.lin.isConst() && y.lin.isConst() && y.lin.c < 63 {
			v = vInt(linC(x.lin.c >> uint(y.lin.c)))
		} else if y.lin.isConst() && lx >= 0 {
			h := int64(posInf)
			if hx != posInf {
				h = hx >> uint(y.lin.c)
			}
			v = s.freshRange(T, lx>>uint(y.lin.c), h)
		}
	}
	return Val{}, set(s.term(v, i.Op.String(), x, y))
}

func (a *An) equal(s *State, ins ssa.Instruction, x, y Val, t types.Type) *Cond {
	if x.k == KInt && y.k == KInt {
		l := x.lin.add(y.lin, -1)
		if l.isConst() {
			return condB(l.c == 0)
		}
		return &Cond{op: CEq, l: l}
	}
	if x.k == KBool && y.k == KBool {
		if x.cond.op == CConst {
			x, y = y, x
		}
		if y.cond.op == CConst {
			if y.cond.b {
				return x.cond
			}
			return x.cond.not()
		}
		return s.freshBool().cond
	}
	if x.k == KPtr || y.k == KPtr {
		if x.k == KPtr && y.k == KPtr && x.id == y.id && x.path == y.path {
			return condTrue
		}
		if x.k == KPtr && s.nilness(y) == 1 || y.k == KPtr && s.nilness(x) == 1 {
			return condFalse
		}
		return s.freshBool().cond
	}
	if x.k == KRef && y.k == KRef {
		fx, fy := s.fact(x.id), s.fact(y.id)
		if isIface(t) {
			if x.id == nilID {
				x, y = y, x
				fx, fy = fy, fx
			}
			if y.id == nilID || fy.nl == 1 {
				return &Cond{op: CNil, id: x.id}
			}
			if fx.nl == 1 {
				return &Cond{op: CNil, id: y.id}
			}
			// types and errors compare as pointers
			if !isErrorT(t) && t.String() != "reflect.Type" {
				a.comparable(s, ins, x, y, "")
			}
			if fx.dyn != nil && fy.dyn != nil && fx.pay != nil && fy.pay != nil && types.Identical(fx.dyn, fy.dyn) && isStrT(fx.dyn) {
				return a.equal(s, ins, *fx.pay, *fy.pay, fx.dyn)
			}
			if x.id == y.id {
				return condTrue
			}
			// a known type on one side tells the type of the other, when equal
			if a.m.same != nil {
				if c := a.m.same(s, x, y); c != nil {
					return c
				}
			}
			if a.m.terms && t.String() == "reflect.Type" {
				return s.term(s.freshBool(), "==", x, y).cond
			}
			return s.freshBool().cond
		}
		if isStrT(t) {
			switch {
			case x.id == y.id:
				return condTrue
			case fy.str != nil:
				return &Cond{op: CStrEq, id: x.id, s: *fy.str}
			case fx.str != nil:
				return &Cond{op: CStrEq, id: y.id, s: *fx.str}
			}
			if a.m.same != nil {
				if c := a.m.same(s, x, y); c != nil {
					return c
				}
			}
			if a.m.terms {
				return s.term(s.freshBool(), "==", x, y).cond
			}
			return &Cond{op: CStrEq2, id: x.id, id2: y.id}
		}
		if isNillable(t) {
			if y.id == nilID || fy.nl == 1 {
				return &Cond{op: CNil, id: x.id}
			}
			if x.id == nilID || fx.nl == 1 {
				return &Cond{op: CNil, id: y.id}
			}
			return &Cond{op: CRefEq, id: x.id, id2: y.id}
		}
	}
	return s.term(s.freshBool(), "==", x, y).cond
}

func (s *State) convert(x Val, from, to types.Type) Val {
	switch {
	case isIntT(from) && isIntT(to):
		if x.k != KInt {
			return s.freshInt(to)
		}
		lo, hi, full := intRange(to)
		fl, fh, ffull := intRange(from)
		_ = fl
		_ = fh
		if full && lo == negInf { // int, int64
			if !ffull || fl != 0 || !s.linFull(x.lin) {
				return x
			}
			if s.z.ub_(x.lin) != posInf {
				return x
			}
			return s.term(s.freshInt(to), "conv "+to.String(), x)
		}
		if full { // uint
			if s.z.lb_(x.lin) >= 0 {
				return x
			}
			return s.freshInt(to)
		}
		if s.z.lb_(x.lin) >= lo && s.z.ub_(x.lin) <= hi {
			return x
		}
		if s.a.m.noWrap && s.z.lb_(x.lin) >= lo && lo == 0 {
			return x
		}
		return s.term(s.freshInt(to), "conv "+to.String(), x)
	case isStrT(to) && !isStrT(from):
		if _, ok := from.Underlying().(*types.Slice); ok {
			f := s.fact(x.id)
			v := s.fresh(to)
			l := s.lenOf(x)
			byteSl := isByteSlice(from)
			s.upd(v.id, func(g *Fact) {
				if byteSl {
					g.len = l
					for _, m := range f.memo {
						if strings.HasPrefix(m.n, "byte ") {
							g.memo = append(g.memo, m)
						}
					}
					if f.str != nil {
						g.str = f.str
					}
				}
			})
			if !byteSl {
				// at least one byte per rune
				nl := s.fact(v.id).len
				s.z.assumeLe(l.add(nl, -1))
				// and empty only if there are none: len <= 4*l
				if l.isConst() && l.c == 0 {
					return s.strConst("")
				}
			}
			return s.term(v, "string", x)
		}
		v := s.fresh(to)
		return s.term(v, "string", x)
	case isStrT(from) && !isStrT(to):
		if _, ok := to.Underlying().(*types.Slice); ok {
			id := s.newRef(to, 2)
			l := s.lenOf(x)
			f := s.fact(x.id)
			if !isByteSlice(to) {
				l = s.freshRange(nil, 0, posInf).lin
				s.z.assumeLe(l.add(s.lenOf(x), -1))
			}
			s.upd(id, func(g *Fact) {
				g.len = l
				g.fresh = true
				if isByteSlice(to) {
					g.str = f.str
				}
			})
			return s.term(vRef(id), "bytes", x)
		}
	case isStrT(from) && isStrT(to):
		return x
	}
	n := "conv " + to.String()
	id, has := x.id, x.k == KRef
	if x.k == KInt && s.a.m.terms {
		id, has = x.lin.single()
	}
	if has {
		for _, m := range s.fact(id).memo {
			if m.n == n {
				return m.v
			}
		}
	}
	v := s.fresh(to)
	s.term(v, n, x)
	if has {
		s.upd(id, func(f *Fact) { f.memo = append(append([]tmemo{}, f.memo...), tmemo{nil, n, v}) })
	}
	return v
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// baseOf: what a slice starts at.
func (s *State) baseOf(x Val) VID {
	for _, m := range s.fact(x.id).memo {
		if m.n == "base" {
			return m.v.id
		}
	}
	return x.id
}
