package main

// Calls: builtins, functions of the repository (in place or by summary), and
// everything else.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *An) mkCall(s *State, c *ssa.CallCommon) *callInfo {
	ci := &callInfo{com: c, typ: c.Signature().Results()}
	if c.IsInvoke() {
		ci.fv = s.val(c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		ci.fv = s.val(c.Value)
	}
	for _, x := range c.Args {
		ci.args = append(ci.args, s.val(x))
	}
	return ci
}

// result makes an unknown result.
func (s *State) result(ci *callInfo) (Val, bool) {
	t, _ := ci.typ.(*types.Tuple)
	if t == nil || t.Len() == 0 {
		return Val{}, false
	}
	if t.Len() == 1 {
		return s.fresh(t.At(0).Type()), true
	}
	return s.fresh(t), true
}

func ret(s *State, v Val) []exitSt { return []exitSt{{s, v, true}} }
func ret0(s *State) []exitSt       { return []exitSt{{s: s}} }

// resolve finds the function called, if it is known.
func (a *An) resolve(s *State, ci *callInfo) (fn *ssa.Function, args []Val, binds []Val) {
	c := ci.com
	if c.IsInvoke() {
		f := s.fact(ci.fv.id)
		if f.dyn == nil {
			return nil, nil, nil
		}
		sel := a.p.ssa.MethodSets.MethodSet(f.dyn).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			return nil, nil, nil
		}
		m := a.p.ssa.MethodValue(sel)
		var recv Val
		if f.pay != nil {
			recv = *f.pay
		} else {
			recv = s.fresh(f.dyn)
		}
		return m, append([]Val{recv}, ci.args...), nil
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
			return f, ci.args, s.fact(ci.fv.id).binds
		}
		return f, ci.args, nil
	}
	if ci.fv.k == KRef {
		f := s.fact(ci.fv.id)
		if f.fn != nil {
			return f.fn, ci.args, f.binds
		}
	}
	return nil, nil, nil
}

func (a *An) call(s *State, ins ssa.Instruction, ci *callInfo) []exitSt {
	if b, ok := ci.com.Value.(*ssa.Builtin); ok && !ci.com.IsInvoke() {
		return a.builtin(s, ins, b.Name(), ci)
	}
	fn, args, binds := a.resolve(s, ci)
	ci.fn = fn
	if fn != nil {
		ci.args = args
	}
	if a.m.call != nil {
		if r, ok := a.m.call(s, ins, ci); ok {
			return r
		}
	}
	if ci.com.IsInvoke() {
		if !a.notNil(s, ins, ci.fv, a.describe(ci.com.Value)+"."+ci.com.Method.Name()+"()") {
			return nil
		}
	} else if ci.com.StaticCallee() == nil {
		if !a.notNil(s, ins, ci.fv, "call of "+a.describe(ci.com.Value)) {
			return nil
		}
	}
	if fn != nil {
		if a.p.isFn[fn] {
			if a.inlineOK(s, fn) {
				return a.inlineCall(s, ins, fn, args, binds)
			}
			return a.callSummary(s, ins, fn, args, binds)
		}
		if fn.Synthetic != "" && fn.Blocks != nil && a.callsRepo(fn) {
			// wrappers of promoted methods, bound methods
			return a.inlineCall(s, ins, fn, args, binds)
		}
		return a.external(s, ins, ci, fn.RelString(nil))
	}
	if ci.com.IsInvoke() {
		return a.external(s, ins, ci, "invoke "+ifaceName(ci.com))
	}
	// unknown function
	for _, v := range ci.args {
		s.escape(v)
	}
	for _, g := range a.p.handlers {
		if types.Identical(g.Signature, ci.com.Signature()) {
			a.enterHandler(s, ins, g, ci.args)
		}
	}
	s.havocAll()
	v, has := s.result(ci)
	return []exitSt{{s, v, has}}
}

// enterHandler: an unknown function that is called may be fn.
func (a *An) enterHandler(s *State, ins ssa.Instruction, fn *ssa.Function, args []Val) {
	e := s.clone()
	for _, v := range args {
		e.escapeQuiet(v)
	}
	e.havocAll()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	e.bindFree(fn, env)
	e.frames = []*Frame{{fn: fn, env: env}}
	m := a.sum(fn)
	a.enterSum(m, e)
	if a.cur != nil {
		m.callers[a.cur] = true
	}
}

// bindFree gives the captured variables of a closure unknown contents.
func (s *State) bindFree(fn *ssa.Function, env map[ssa.Value]Val) {
	for i, p := range fn.FreeVars {
		v := s.fresh(p.Type())
		env[p] = v
		if v.k != KRef {
			continue
		}
		s.upd(v.id, func(f *Fact) { f.nl = 2 })
		if capturedParam(fn, i) {
			t := deref(p.Type())
			c := s.fresh(t)
			if c.k == KRef && structOf(deref(t)) != nil && !s.a.p.isGraphPtr(t) {
				s.upd(c.id, func(f *Fact) { f.nl = 2 })
			}
			s.setCell(v, c, t)
		}
	}
}

// capturedParam: the variable captured is a parameter of the enclosing
// function that is never assigned.
func capturedParam(fn *ssa.Function, k int) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	for _, b := range par.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			al, ok := mc.Bindings[k].(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, r := range *al.Referrers() {
				switch i := r.(type) {
				case *ssa.Store:
					if _, isP := i.Val.(*ssa.Parameter); !isP || i.Addr != ssa.Value(al) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.MakeClosure:
					g := i.Fn.(*ssa.Function)
					for j, b := range i.Bindings {
						if b != ssa.Value(al) {
							continue
						}
						for _, w := range *g.FreeVars[j].Referrers() {
							switch w.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							default:
								return false
							}
						}
					}
				default:
					return false
				}
			}
			return n == 1
		}
	}
	return false
}

func (a *An) callsRepo(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && a.p.isFn[f] {
					return true
				}
			}
		}
	}
	return false
}

func ifaceName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	n := types.TypeString(t, nil)
	return "(" + n + ")." + c.Method.Name()
}

func (a *An) goCall(s *State, ins *ssa.Go, ci *callInfo) {
	fn, args, binds := a.resolve(s, ci)
	if fn == nil || !a.p.isFn[fn] {
		s.havocAll()
		return
	}
	t := s.clone()
	a.callSummary(t, ins, fn, args, binds)
	s.havoc(a.modsOf(fn))
}

func (a *An) inlineOK(s *State, fn *ssa.Function) bool {
	if a.isRecursive(s, fn) {
		return false
	}
	if a.m.inline != nil {
		return a.m.inline(s, fn)
	}
	if len(s.frames) > 12 {
		return false
	}
	fi := a.p.fi(fn)
	return len(fi.loops) == 0 && fi.nIns <= 150
}

func (a *An) inlineCall(s *State, ins ssa.Instruction, fn *ssa.Function, args, binds []Val) []exitSt {
	f := &Frame{fn: fn, site: ins, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = s.fresh(p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			f.env[p] = binds[i]
		} else {
			f.env[p] = s.fresh(p.Type())
		}
	}
	fr := make([]*Frame, len(s.frames), len(s.frames)+1)
	copy(fr, s.frames)
	s.frames = append(fr, f)
	r := a.runFn(s)
	a.curIns = ins
	return r
}

// ---- summaries

type Summary struct {
	fn      *ssa.Function
	entry   *State
	nEntry  int
	rows    map[string]*State
	order   []string
	nRow    map[string]int
	callers map[*Summary]bool
	obl     map[string]*Obl
	dirty   bool
	running bool
	runs    int
	root    bool
	odd     string // its callers break an invariant
}

func (a *An) sum(fn *ssa.Function) *Summary { return a.sum1(sumKey{fn, ""}) }

// sumKey: the calls of a function that find the invariants broken (of an
// object that is being made, say) are analysed apart from the others.
type sumKey struct {
	fn  *ssa.Function
	odd string
}

func (a *An) sum1(k sumKey) *Summary {
	m := a.sums[k]
	if m == nil {
		m = &Summary{fn: k.fn, odd: k.odd, rows: map[string]*State{}, nRow: map[string]int{}, callers: map[*Summary]bool{}, obl: map[string]*Obl{}}
		a.sums[k] = m
	}
	return m
}

// broken: what the state knows of some object does not satisfy the invariants.
func (s *State) broken(args []Val) string {
	v := s.a.inv
	if v == nil {
		return ""
	}
	for k, c := range s.cells {
		if c.fld != nil && !v.okCell(s, k, c) {
			r := "odd"
			for _, x := range args {
				r += " "
				if x.k == KPtr {
					r += "&" + x.path
				}
			}
			return r
		}
	}
	return ""
}

// enterSum adds a state in which the function is called.
func (a *An) enterSum(m *Summary, e *State) {
	e.gc()
	switch {
	case m.entry == nil:
		m.entry = e
		m.dirty = true
	case a.leq(e, m.entry):
	default:
		m.nEntry++
		m.entry = a.join(m.entry, e, m.nEntry > 3)
		m.entry.gc()
		m.dirty = true
		if m.nEntry > 80 {
			a.over = true
			a.overWhy = "the calls of " + a.p.name(m.fn) + " do not stabilise"
		}
	}
}

// watch prints the calls of one function, for debugging.
var watch = os.Getenv("OGDLCHECK_WATCH")

func (a *An) callSummary(s *State, ins ssa.Instruction, fn *ssa.Function, args, binds []Val) []exitSt {
	for _, v := range args {
		s.escapeQuiet(v)
	}
	for _, v := range binds {
		s.escapeQuiet(v)
	}
	e := s.clone()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = e.fresh(p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		} else {
			env[p] = e.fresh(p.Type())
		}
	}
	e.frames = []*Frame{{fn: fn, env: env}}
	if watch != "" && a.p.name(fn) == watch {
		fmt.Printf("ENTER %s from %s [%s]\n%s", watch, a.p.insPos(ins), s.trace(a), e.dump())
	}
	e.gc()
	m := a.sum1(sumKey{fn, e.broken(args)})
	a.enterSum(m, e)
	if a.cur != nil {
		m.callers[a.cur] = true
	}
	a.ensure(m)
	a.curIns = ins
	if a.over {
		return nil
	}
	var out []exitSt
	for i, k := range m.order {
		t := s
		if i < len(m.order)-1 {
			t = s.clone()
		}
		t.havoc1(a.modsOf(fn), false)
		if x, ok := a.applyRow(t, m.rows[k], fn, args); ok {
			out = append(out, x)
		}
	}
	return out
}

// ensure runs the analysis of a function until its summary is stable, unless
// that is being done already.
func (a *An) ensure(m *Summary) {
	if m.running {
		return
	}
	m.running = true
	sr, si, st := a.curRoot, a.curIns, a.cur
	for m.dirty && !a.over {
		m.dirty = false
		m.runs++
		if m.runs > 120 {
			a.over = true
			a.overWhy = "the summary of " + a.p.name(m.fn) + " does not stabilise"
			break
		}
		a.curRoot = m.fn
		a.cur = m
		m.obl = map[string]*Obl{}
		s := m.entry.clone()
		// the parameters stay alive below
		low := s.frames[0].clone()
		low.fn = nil
		s.frames = []*Frame{low, s.frames[0]}
		if a.dbg {
			fmt.Printf("run %s (%d) steps %d\n", a.p.name(m.fn), m.runs, a.steps)
		}
		ex := a.runFn(s)
		if a.over {
			break
		}
		a.update(m, ex)
	}
	m.running = false
	a.curRoot, a.curIns, a.cur = sr, si, st
}

func (a *An) update(m *Summary, ex []exitSt) {
	changed := false
	fresh := map[string]*State{}
	for _, x := range ex {
		if a.inv != nil {
			// what the caller can see satisfies the invariants
			t := x.s.clone()
			if x.has {
				t.gc(x.v)
			} else {
				t.gc()
			}
			done := map[VID]bool{}
			for _, k := range sortedCells(t.cells) {
				if !done[k.base] {
					done[k.base] = true
					a.inv.checkObj(t, k.base, lastIns(m.fn))
				}
			}
		}
		k := x.s.resKey(x.v, x.has)
		t := x.s.clone()
		t.cells = map[cellKey]Cell{}
		t.pend = nil
		if x.has {
			t.top().env[resVal] = x.v
		}
		t.gc()
		if o := fresh[k]; o != nil {
			fresh[k] = a.join(o, t, false)
			fresh[k].gc()
		} else {
			fresh[k] = t
		}
	}
	if len(m.rows)+len(fresh) > 24 {
		// too many: one row
		var all *State
		add := func(t *State) {
			if all == nil {
				all = t
			} else {
				all = a.join(all, t, false)
				all.gc()
			}
		}
		if m.rows["*"] == nil || len(m.rows) > 1 {
			for _, k := range m.order {
				add(m.rows[k])
			}
			changed = true
		} else {
			add(m.rows["*"])
			m.rows["*"] = all
		}
		var nw *State
		for _, k := range sortedKeys(fresh) {
			if nw == nil {
				nw = fresh[k]
			} else {
				nw = a.join(nw, fresh[k], false)
				nw.gc()
			}
		}
		if all == nil {
			all = nw
			changed = true
		}
		m.rows = map[string]*State{"*": all}
		m.order = []string{"*"}
		fresh = map[string]*State{"*": nw}
	} else if len(m.order) == 1 && m.order[0] == "*" {
		var nw *State
		for _, k := range sortedKeys(fresh) {
			if nw == nil {
				nw = fresh[k]
			} else {
				nw = a.join(nw, fresh[k], false)
				nw.gc()
			}
		}
		fresh = map[string]*State{"*": nw}
	}
	for _, k := range sortedKeys(fresh) {
		t := fresh[k]
		if t == nil {
			continue
		}
		o := m.rows[k]
		if o == nil {
			m.rows[k] = t
			m.order = append(m.order, k)
			changed = true
			continue
		}
		if a.leq(t, o) {
			continue
		}
		m.nRow[k]++
		m.rows[k] = a.join(o, t, m.nRow[k] > 3)
		m.rows[k].gc()
		changed = true
	}
	if changed {
		for c := range m.callers {
			c.dirty = true
		}
	}
}

func lastIns(f *ssa.Function) ssa.Instruction {
	b := f.Blocks[len(f.Blocks)-1]
	return b.Instrs[len(b.Instrs)-1]
}

// solve analyses until nothing changes.
func (a *An) solve() {
	for !a.over {
		var d []*Summary
		for _, m := range a.sums {
			if m.dirty && m.entry != nil {
				d = append(d, m)
			}
		}
		if len(d) == 0 {
			return
		}
		sort.Slice(d, func(i, j int) bool {
			x, y := a.p.name(d[i].fn), a.p.name(d[j].fn)
			return x < y || x == y && d[i].odd < d[j].odd
		})
		for _, m := range d {
			if m.dirty {
				a.ensure(m)
			}
			if a.over {
				return
			}
		}
	}
}

// importer translates a row of a summary to the state of a caller.
type importer struct {
	R, T *State
	refs map[VID]VID
	ints map[VID]*Lin
	bad  bool
}

func (a *An) applyRow(t *State, row *State, fn *ssa.Function, args []Val) (exitSt, bool) {
	im := &importer{R: row, T: t, refs: map[VID]VID{nilID: nilID}, ints: map[VID]*Lin{}}
	t.nilVal(nil)
	env := row.top().env
	for i, p := range fn.Params {
		if i < len(args) {
			if v, ok := env[p]; ok {
				im.bind(v, args[i])
			}
		}
	}
	if im.bad {
		return exitSt{}, false
	}
	v, has := env[resVal]
	var out Val
	if has {
		out = im.val(v)
	}
	if row.gh != nil && t.gh != nil {
		im.ghost(row.gh)
	}
	im.bounds()
	if im.bad || t.z.bad {
		return exitSt{}, false
	}
	if len(t.pend) > 0 && !t.propagate() {
		return exitSt{}, false
	}
	return exitSt{t, out, has}, true
}

func (im *importer) ghost(g *Ghost) {
	n := newGhost()
	for k, v := range g.tags {
		n.tags[k] = v
	}
	for k, v := range g.refs {
		n.refs[k] = im.val(v)
	}
	for k, l := range g.ints {
		n.ints[k] = im.val(vInt(l)).lin
	}
	im.T.gh = n
}

func (im *importer) assume(c *Cond, want bool) {
	if im.bad {
		return
	}
	if len(im.T.assume1(c, want)) == 0 {
		im.bad = true
	}
}

func (im *importer) bind(v, w Val) {
	if im.bad {
		return
	}
	switch {
	case v.k == KInt && w.k == KInt:
		if v.lin.isConst() {
			im.assume(&Cond{op: CEq, l: w.lin.addK(-v.lin.c)}, true)
		} else if id, ok := v.lin.single(); ok {
			im.ints[id] = w.lin
			for _, k := range im.R.fact(id).ne {
				im.assume(&Cond{op: CEq, l: w.lin.addK(-k)}, false)
			}
			if im.bad {
				return
			}
			if b := im.R.fact(id).bs; b != nil {
				if x, ok := w.lin.single(); ok {
					if !im.T.refineBytes(x, b, true) {
						im.bad = true
					}
				}
			}
		}
	case v.k == KBool && w.k == KBool:
		switch im.R.quick(v.cond) {
		case 1:
			im.assume(w.cond, true)
		case -1:
			im.assume(w.cond, false)
		}
	case v.k == KRef && w.k == KRef:
		im.refs[v.id] = w.id
		if _, ok := im.ints[v.id]; !ok {
			im.ints[v.id] = linV(w.id)
		}
		f := im.R.fact(v.id)
		if f.nl != 0 {
			im.assume(&Cond{op: CNil, id: w.id}, f.nl == 1)
		}
		if im.bad {
			return
		}
		if f.str != nil {
			im.assume(&Cond{op: CStrEq, id: w.id, s: *f.str}, true)
		}
		for _, n := range f.notStr {
			im.assume(&Cond{op: CStrEq, id: w.id, s: n}, false)
		}
		if f.dyn != nil {
			im.assume(&Cond{op: CType, id: w.id, t: f.dyn}, true)
			if f.pay != nil && !im.bad {
				if g := im.T.fact(w.id); g.pay != nil {
					im.bind(*f.pay, *g.pay)
				}
			}
		}
		for _, n := range f.notDyn {
			im.assume(&Cond{op: CType, id: w.id, t: n}, false)
		}
		if im.bad {
			return
		}
		if f.len != nil {
			if l := im.T.lenOf(w); l != nil {
				if f.len.isConst() {
					im.assume(&Cond{op: CEq, l: l.addK(-f.len.c)}, true)
				} else if id, ok := f.len.single(); ok {
					im.ints[id] = l
				}
			}
		}
		for _, m := range f.memo {
			for _, n := range im.T.fact(w.id).memo {
				if sameMemo(m, n) {
					im.bind(m.v, n.v)
				}
			}
		}
	case v.k == KStruct && w.k == KStruct:
		for i := range v.elts {
			if i < len(w.elts) {
				im.bind(v.elts[i], w.elts[i])
			}
		}
	}
}

func (im *importer) lin(l *Lin) *Lin {
	r, _ := l.subst(func(v VID) *Lin {
		if x := im.ints[v]; x != nil {
			return x
		}
		id := im.T.a.newID()
		f := im.R.fact(v)
		im.T.facts[id] = &Fact{typ: f.typ, full: f.full, bs: f.bs, ne: f.ne}
		im.ints[v] = linV(id)
		return im.ints[v]
	})
	return r
}

func (im *importer) val(v Val) Val {
	switch v.k {
	case KInt:
		return vInt(im.lin(v.lin))
	case KBool:
		switch im.R.quick(v.cond) {
		case 1:
			return vBool(condTrue)
		case -1:
			return vBool(condFalse)
		}
		return im.T.freshBool()
	case KRef:
		return vRef(im.ref(v.id))
	case KPtr:
		id := im.ref(v.id)
		if v.ix != nil {
			v = v.star()
		}
		return Val{k: KPtr, id: id, path: v.path, fld: v.fld}
	}
	n := Val{k: v.k}
	for _, e := range v.elts {
		n.elts = append(n.elts, im.val(e))
	}
	return n
}

func (im *importer) ref(id VID) VID {
	if r, ok := im.refs[id]; ok {
		return r
	}
	f := im.R.fact(id)
	if f.str != nil {
		r := im.T.strConst(*f.str).id
		im.refs[id] = r
		return r
	}
	r := im.T.a.newID()
	im.refs[id] = r
	if _, ok := im.ints[id]; !ok {
		im.ints[id] = linV(r)
	}
	n := *f
	n.fresh = false
	n.memo = nil
	n.binds = nil
	n.fn = nil
	n.term = nil
	if len(f.binds) == 0 {
		n.fn = f.fn
	}
	im.T.facts[r] = &n
	if f.len != nil {
		n.len = im.lin(f.len)
	}
	if f.pay != nil {
		p := im.val(*f.pay)
		n.pay = &p
	}
	for _, m := range f.memo {
		n.memo = append(n.memo, tmemo{m.t, m.n, im.val(m.v)})
	}
	for _, b := range f.binds {
		n.binds = append(n.binds, im.val(b))
	}
	if len(f.binds) > 0 {
		n.fn = f.fn
	}
	if f.term != nil {
		t := &Term{op: f.term.op}
		for _, x := range f.term.args {
			t.args = append(t.args, im.val(x))
		}
		n.term = t
	}
	im.T.facts[r] = &n
	return r
}

// bounds transfers what is known of the numbers.
func (im *importer) bounds() {
	z := im.R.z
	for v, h := range z.ub {
		if l := im.ints[v]; l != nil {
			im.T.z.assumeLe(l.addK(-h))
		}
	}
	for v, h := range z.lb {
		if l := im.ints[v]; l != nil {
			im.T.z.assumeLe(l.mul(-1).addK(h))
		}
	}
	for p, k := range z.d {
		lx, ly := im.ints[p.x], im.ints[p.y]
		if lx != nil && ly != nil {
			im.T.z.assumeLe(lx.add(ly, -1).addK(-k))
		}
	}
}

// ---- effects on memory

type modset struct {
	flds  map[*types.Var]bool
	elems map[string]bool
	vars  map[string]bool
	all   bool
}

func newModset() *modset {
	return &modset{flds: map[*types.Var]bool{}, elems: map[string]bool{}, vars: map[string]bool{}}
}

func (m *modset) add(o *modset) bool {
	n := len(m.flds) + len(m.elems) + len(m.vars)
	ch := o.all && !m.all
	m.all = m.all || o.all
	for k := range o.flds {
		m.flds[k] = true
	}
	for k := range o.elems {
		m.elems[k] = true
	}
	for k := range o.vars {
		m.vars[k] = true
	}
	return ch || n != len(m.flds)+len(m.elems)+len(m.vars)
}

// callees of an instruction, within the repository; unknown is true if it can
// be anything.
func (p *Prog) callees(c *ssa.CallCommon) (fns []*ssa.Function, unknown bool) {
	if c.IsInvoke() {
		// repository types that implement the interface
		for _, t := range p.named() {
			for _, u := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(u, c.Value.Type().Underlying().(*types.Interface)) {
					sel := p.ssa.MethodSets.MethodSet(u).Lookup(c.Method.Pkg(), c.Method.Name())
					if sel != nil {
						if f := p.ssa.MethodValue(sel); f != nil {
							fns = append(fns, f)
						}
					}
				}
			}
		}
		return fns, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}, false
	}
	return nil, true
}

func (p *Prog) named() []types.Type {
	if p.namedT != nil {
		return p.namedT
	}
	for _, pkg := range p.pkgs {
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 && !isIface(nt) {
					p.namedT = append(p.namedT, nt)
				}
			}
		}
	}
	return p.namedT
}

func (a *An) modsOf(fn *ssa.Function) *modset {
	if m := a.mods[fn]; m != nil {
		return m
	}
	// all at once
	fns := append([]*ssa.Function{}, a.p.fns...)
	have := map[*ssa.Function]bool{}
	for _, f := range fns {
		have[f] = true
	}
	if !have[fn] {
		fns = append(fns, fn)
		have[fn] = true
	}
	edges := map[*ssa.Function][]*ssa.Function{}
	for i := 0; i < len(fns); i++ {
		f := fns[i]
		m := newModset()
		a.mods[f] = m
		a.localMods(f, m)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cs, unk := a.p.callees(c.Common())
				if unk {
					m.all = true
				}
				for _, g := range cs {
					if a.p.isFn[g] || g.Synthetic != "" && g.Blocks != nil {
						if !have[g] {
							have[g] = true
							fns = append(fns, g)
						}
						edges[f] = append(edges[f], g)
					}
				}
				// repository types given to other packages, as interfaces
				for _, x := range c.Common().Args {
					for _, g := range a.p.methodsGiven(x, cs) {
						if have[g] {
							edges[f] = append(edges[f], g)
						}
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fns {
			for _, g := range edges[f] {
				if a.mods[f].add(a.mods[g]) {
					ch = true
				}
			}
		}
	}
	return a.mods[fn]
}

// methodsGiven lists the methods of a value of the repository that is passed
// as an interface to another package, which may call them. String and Error
// methods, called by fmt, count too.
func (p *Prog) methodsGiven(x ssa.Value, callee []*ssa.Function) []*ssa.Function {
	mi, ok := x.(*ssa.MakeInterface)
	if !ok || len(callee) == 1 && p.isFn[callee[0]] {
		return nil
	}
	var r []*ssa.Function
	ms := p.ssa.MethodSets.MethodSet(mi.X.Type())
	for i := 0; i < ms.Len(); i++ {
		if it, ok := mi.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			found := false
			for k := 0; k < it.NumMethods(); k++ {
				if it.Method(k).Name() == ms.At(i).Obj().Name() {
					found = true
				}
			}
			if !found {
				continue
			}
		}
		if f := p.ssa.MethodValue(ms.At(i)); f != nil && p.isFn[f] {
			r = append(r, f)
		}
	}
	return r
}

func localAlloc(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

func (a *An) localMods(f *ssa.Function, m *modset) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if localAlloc(i.Addr) {
					continue
				}
				a.addrMods(i.Addr, i.Val.Type(), m)
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "copy":
						if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							m.elems[st.Elem().String()] = true
						}
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && (a.p.isFn[g] || g.Synthetic != "") {
					continue
				}
				// other packages write through the pointers and slices given
				for _, x := range c.Args {
					v := x
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					switch t := v.Type().Underlying().(type) {
					case *types.Pointer:
						if !a.p.inRepo(t.Elem()) || structOf(t.Elem()) == nil {
							if !localAlloc(v) {
								a.addrMods(v, t.Elem(), m)
							}
						}
					case *types.Slice:
						m.elems[t.Elem().String()] = true
					}
				}
				if g := c.StaticCallee(); g != nil && callsBack(g) {
					m.all = true
				}
			}
		}
	}
}

func callsBack(g *ssa.Function) bool {
	n := g.RelString(nil)
	return n == "(reflect.Value).Call" || n == "(reflect.Value).CallSlice"
}

func (a *An) addrMods(addr ssa.Value, t types.Type, m *modset) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		fld := structOf(deref(x.X.Type())).Field(x.Field)
		m.flds[fld] = true
		a.structMods(fld.Type(), m)
	case *ssa.IndexAddr:
		m.elems[t.String()] = true
	default:
		if st := structOf(t); st != nil && a.p.inRepo(t) {
			a.structMods(t, m)
			return
		}
		m.vars[t.String()] = true
	}
}

func (a *An) structMods(t types.Type, m *modset) {
	if st := structOf(t); st != nil && a.p.inRepo(t) {
		for i := 0; i < st.NumFields(); i++ {
			m.flds[st.Field(i)] = true
			a.structMods(st.Field(i).Type(), m)
		}
	}
}

// havoc: code that is not followed writes. It takes what it finds to satisfy
// the invariants.
func (s *State) havoc(m *modset) { s.havoc1(m, true) }

func (s *State) havoc1(m *modset, check bool) {
	if m.all {
		s.havocAll()
		return
	}
	for k, c := range s.cells {
		if s.fact(k.base).fresh || s.a.extGlobal(k.base) {
			continue
		}
		switch {
		case c.fld != nil:
			if m.flds[c.fld] {
				if check {
					s.checkOut(func(x cellKey) bool { return x == k })
				}
				delete(s.cells, k)
			}
		case strings.Contains(k.path, "["):
			if c.et != nil && m.elems[c.et.String()] {
				delete(s.cells, k)
			}
		default:
			if c.et != nil && m.vars[c.et.String()] {
				delete(s.cells, k)
			}
		}
	}
}

func (s *State) havocAll() {
	s.checkOut(func(k cellKey) bool { return !s.fact(k.base).fresh && !s.a.extGlobal(k.base) })
	for k := range s.cells {
		if !s.fact(k.base).fresh && !s.a.extGlobal(k.base) {
			delete(s.cells, k)
		}
	}
}

// extGlobal: a variable of another package (os.Args), that nothing here assigns.
func (a *An) extGlobal(id VID) bool {
	for g, x := range a.globs {
		if x == id {
			return g.Pkg != nil && !a.p.repoPkg[g.Pkg.Pkg]
		}
	}
	return false
}

// escapeQuiet makes what is reachable from v visible to a callee.
func (s *State) escapeQuiet(v Val) {
	i := s.a.inv
	s.a.inv = nil
	s.escape(v)
	s.a.inv = i
}

// ---- builtins

func (a *An) builtin(s *State, ins ssa.Instruction, name string, ci *callInfo) []exitSt {
	c := ci.com
	arg := func(i int) Val { return ci.args[i] }
	switch name {
	case "len", "cap":
		x := arg(0)
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Pointer); ok {
			return ret(s, vInt(linC(t.(*types.Pointer).Elem().Underlying().(*types.Array).Len())))
		}
		if x.k == KRef {
			if name == "len" {
				if _, ok := t.(*types.Map); ok {
					return ret(s, s.freshRange(types.Typ[types.Int], 0, posInf))
				}
				return ret(s, vInt(s.lenOf(x)))
			}
			v := s.freshRange(types.Typ[types.Int], 0, posInf)
			if l := s.lenOf(x); l != nil {
				s.z.assumeLe(l.add(v.lin, -1))
			}
			return ret(s, v)
		}
		return ret(s, s.freshRange(types.Typ[types.Int], 0, posInf))
	case "append":
		return a.appendCall(s, ins, ci)
	case "copy":
		n := s.freshRange(types.Typ[types.Int], 0, posInf)
		ld, ls := s.lenOf(arg(0)), s.lenOf(arg(1))
		if ld != nil {
			s.z.assumeLe(n.lin.add(ld, -1))
		}
		if ls != nil {
			s.z.assumeLe(n.lin.add(ls, -1))
		}
		if ld != nil && ls != nil && s.prove(le(ls, ld)) {
			n = vInt(ls)
		} else if ld != nil && ls != nil && s.prove(le(ld, ls)) {
			n = vInt(ld)
		}
		if a.m.copied != nil {
			a.m.copied(s, ins, arg(0), arg(1), n)
		}
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			s.kill(Val{k: KPtr, id: arg(0).id, path: "[*]"}, st.Elem())
			f, g := s.fact(arg(0).id), s.fact(arg(1).id)
			if f.enn && !g.enn {
				s.upd(arg(0).id, func(f *Fact) { f.enn = false })
			}
		}
		return ret(s, n)
	case "delete", "print", "println", "clear":
		return ret0(s)
	case "close":
		return ret0(s)
	case "recover":
		return ret(s, s.fresh(types.NewInterfaceType(nil, nil)))
	case "panic":
		a.ob(s, ins, "panic", "explicit panic", false, "reachable")
		return nil
	case "min", "max":
		if arg(0).k == KInt {
			v := s.freshRange(c.Signature().Results().At(0).Type(), negInf, posInf)
			all := linC(0)
			for _, x := range ci.args {
				d := v.lin.add(x.lin, -1)
				if name == "max" {
					d = d.mul(-1)
				}
				s.z.assumeLe(d)
				all = x.lin
			}
			// and it is one of them: bounds of the weakest
			lo, hi := int64(posInf), int64(negInf)
			for _, x := range ci.args {
				if l := s.z.lb_(x.lin); l < lo {
					lo = l
				}
				if h := s.z.ub_(x.lin); h > hi {
					hi = h
				}
			}
			_ = all
			id, _ := v.lin.single()
			if lo != negInf {
				s.z.setLo(id, lo)
			}
			if hi != posInf {
				s.z.setHi(id, hi)
			}
			return ret(s, v)
		}
	case "ssa:wrapnilchk":
		a.notNil(s, ins, arg(0), "method value")
		return ret(s, arg(0))
	}
	v, has := s.result(ci)
	return []exitSt{{s, v, has}}
}

func (a *An) appendCall(s *State, ins ssa.Instruction, ci *callInfo) []exitSt {
	x := ci.args[0]
	t := ci.com.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	if len(ci.args) == 1 {
		return ret(s, x)
	}
	y := ci.args[1]
	lx, ly := s.lenOf(x), s.lenOf(y)
	fx, fy := s.fact(x.id), s.fact(y.id)
	elems := map[int64]Val{}
	for _, k := range sortedCells(s.cells) {
		if n, ok := pathIndex(k.path); ok && k.base == y.id {
			elems[n] = s.cells[k].v
		}
	}
	// an append in place can overwrite elements seen through other slices
	if !fx.fresh && fx.nl != 1 {
		s.kill(Val{k: KPtr, id: x.id, path: "[*]"}, el)
	}
	id := s.newRef(t, 0)
	enn := (fx.enn || fx.nl == 1) && (fy.enn || fy.nl == 1)
	if isStrT(ci.com.Args[1].Type()) {
		enn = true
	}
	if a.elemsNonNil(t) {
		a.ob(s, ins, "nilelem", "nil element appended to "+a.describe(ci.com.Args[0]), fy.enn || fy.nl == 1, "may be nil")
		enn = true
	}
	l := lx.add(ly, 1)
	nl := int8(0)
	if fx.nl == 2 || s.z.lb_(l) > 0 {
		nl = 2
	}
	s.upd(id, func(f *Fact) { f.len = l; f.enn = enn; f.nl = nl; f.fresh = true })
	// elements that are known
	if lx.isConst() {
		for _, k := range sortedCells(s.cells) {
			if k.base == x.id && strings.HasPrefix(k.path, "[") {
				s.cells[cellKey{id, k.path}] = s.cells[k]
			}
			var n int64
			if k.base == y.id {
				if _, err := fmt.Sscanf(k.path, "[%d]", &n); err == nil && k.path == fmt.Sprintf("[%d]", n) {
					s.cells[cellKey{id, fmt.Sprintf("[%d]", n+lx.c)}] = s.cells[k]
				}
			}
		}
	}
	if !s.fact(x.id).fresh {
		s.upd(id, func(f *Fact) { f.fresh = false })
		for _, k := range sortedCells(s.cells) {
			if k.base == y.id {
				s.escape(s.cells[k].v)
			}
		}
	}
	if a.m.terms && isByteSlice(t) {
		s.upd(id, func(f *Fact) { f.term = &Term{op: "append", args: []Val{x, y}} })
	}
	if a.m.appended != nil {
		a.m.appended(s, ins, x, y, elems, vRef(id))
	}
	return ret(s, vRef(id))
}

var _ = token.NoPos
