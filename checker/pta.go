package main

// Points-to and effect analysis: inclusion based, flow insensitive, with call
// strings as contexts (recursive calls keep the context of their caller). What
// the parameters of the roots can reach is summarised by regions: one object
// per parameter and type. Every write is an event with the object written to.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PObj struct {
	label  string
	root   string // region it belongs to, "" for what the analysed code allocates
	opq    bool   // content of unknown type
	ext    bool   // made by code that is not analysed
	fn     *ssa.Function
	t      types.Type
	global *ssa.Global
}

type PElem struct {
	o  *PObj
	f  string
	pt types.Type // type of the place pointed to
	dt types.Type // type of the value, when it is in an interface
}

type pset map[PElem]bool

// pvar is a set that grows, with the function instances that read it.
type pvar struct {
	s  pset
	rd map[*pst]bool
}

type pst struct {
	pinst
	dirty bool
}

type okey struct {
	kind string
	v    interface{}
	x    string
}

type evkey struct {
	ins ssa.Instruction
	o   *PObj
	f   string
}

type pnode struct {
	v   ssa.Value
	ctx string
	i   int
}

type ploc struct {
	o *PObj
	f string
}

type pevent struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	obj  *PObj
	f    string
	ctx  string
	what string
}

type pinst struct {
	fn  *ssa.Function
	ctx string
}

type PTA struct {
	p      *Prog
	k      int
	vals   map[pnode]*pvar
	cells  map[ploc]*pvar
	objs   map[okey]*PObj
	insts  map[pinst]*pst
	queue  []*pst
	cur    *pst
	blk    *ssa.BasicBlock
	refm   map[*ssa.Function]map[ssa.Value][]prefine
	byObj  map[*PObj][]ploc
	insNo  map[ssa.Instruction]int
	canon  map[string]types.Type
	events map[evkey]pevent
	scc    map[*ssa.Function]int
	prune  func(b *ssa.BasicBlock) bool
	calls  map[string]bool // external functions seen
	steps  int
	over   bool
}

func newPTA(p *Prog) *PTA {
	return &PTA{p: p, k: 2, vals: map[pnode]*pvar{}, cells: map[ploc]*pvar{}, objs: map[okey]*PObj{}, insts: map[pinst]*pst{},
		byObj: map[*PObj][]ploc{}, insNo: map[ssa.Instruction]int{}, refm: map[*ssa.Function]map[ssa.Value][]prefine{}, canon: map[string]types.Type{}, events: map[evkey]pevent{}, scc: p.sccs(), calls: map[string]bool{}}
}

// sccs numbers the strongly connected components of the call graph.
func (p *Prog) sccs() map[*ssa.Function]int {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	res := map[*ssa.Function]int{}
	var st []*ssa.Function
	n, comp := 0, 0
	succ := func(f *ssa.Function) []*ssa.Function {
		var r []*ssa.Function
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					r = append(r, p.calleesOf(c.Common())...)
				}
				if c, ok := ins.(*ssa.MakeClosure); ok {
					r = append(r, c.Fn.(*ssa.Function))
				}
			}
		}
		return r
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		for _, g := range succ(f) {
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			comp++
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				res[g] = comp
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range p.fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return res
}

func (a *PTA) ct(t types.Type) types.Type {
	t = types.Unalias(t)
	k := types.TypeString(t, nil)
	if c := a.canon[k]; c != nil {
		return c
	}
	a.canon[k] = t
	return t
}

func (a *PTA) obj(key okey, mk func() *PObj) *PObj {
	if o := a.objs[key]; o != nil {
		return o
	}
	o := mk()
	if o.label == "" {
		o.label = fmt.Sprintf("%s %v%s", key.kind, key.v, key.x)
	}
	a.objs[key] = o
	return o
}

func (a *PTA) region(root string, t types.Type) *PObj {
	return a.obj(okey{"region", a.ct(t), root}, func() *PObj {
		return &PObj{root: root, ext: strings.HasPrefix(root, "ext"), t: t}
	})
}

// regionVal is what a place of type t of a region holds.
func (a *PTA) regionVal(root string, t types.Type) []PElem {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []PElem{{a.region(root, u.Elem()), "", a.ct(u.Elem()), nil}}
	case *types.Slice:
		return []PElem{{a.region(root, t.Underlying()), "[]", a.ct(u.Elem()), nil}}
	case *types.Map:
		return []PElem{{a.region(root, t), "", a.ct(t), nil}}
	case *types.Chan:
		return []PElem{{a.region(root, t), "", a.ct(t), nil}}
	case *types.Interface, *types.Signature:
		o := a.obj(okey{"opaque", nil, root}, func() *PObj { return &PObj{root: root, opq: true, ext: strings.HasPrefix(root, "ext")} })
		return []PElem{{o, "", nil, nil}}
	case *types.Struct:
		var r []PElem
		for i := 0; i < u.NumFields(); i++ {
			if !types.Identical(u.Field(i).Type(), t) {
				r = append(r, a.regionVal(root, u.Field(i).Type())...)
			}
		}
		return r
	case *types.Array:
		return a.regionVal(root, u.Elem())
	case *types.Tuple:
		var r []PElem
		for i := 0; i < u.Len(); i++ {
			r = append(r, a.regionVal(root, u.At(i).Type())...)
		}
		return r
	}
	return nil
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}

// fits tells if a value can be of type t.
func (a *PTA) fits(e PElem, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		return e.dt == nil && e.pt != nil && types.Identical(e.pt, a.ct(u.Elem()))
	case *types.Slice:
		return e.dt == nil && e.pt != nil && strings.HasSuffix(e.f, "[]") && types.Identical(e.pt, u.Elem())
	case *types.Map, *types.Chan:
		return e.dt == nil && e.pt != nil && types.Identical(e.pt.Underlying(), u)
	case *types.Interface:
		if e.o.opq {
			return true
		}
		return e.dt != nil && (u.NumMethods() == 0 || types.Implements(e.dt, u))
	case *types.Signature:
		return e.o.fn != nil || e.o.opq
	}
	return true // structs, arrays, tuples: the union of their parts
}

func (a *PTA) add(s *pvar, e PElem) {
	if s == nil || s.s[e] {
		return
	}
	s.s[e] = true
	if ptaTrace != "" && strings.Contains(e.o.label, ptaTrace) && a.cur != nil {
		a.traceAdd(s, e)
	}
	for i := range s.rd {
		a.mark(i)
	}
}

func (a *PTA) mark(i *pst) {
	if !i.dirty {
		i.dirty = true
		a.queue = append(a.queue, i)
	}
}

func (a *PTA) read(s *pvar) pset {
	if a.cur != nil {
		s.rd[a.cur] = true
	}
	return s.s
}

func (a *PTA) node(v ssa.Value, ctx string, i int) *pvar {
	k := pnode{v, ctx, i}
	s := a.vals[k]
	if s == nil {
		s = &pvar{pset{}, map[*pst]bool{}}
		a.vals[k] = s
	}
	return s
}

// get is what a value can point to.
func (a *PTA) get(v ssa.Value, ctx string) pset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, nil:
		return nil
	case *ssa.Global:
		o := a.obj(okey{"global", v, ""}, func() *PObj { return &PObj{root: "global", t: deref(v.Type()), label: v.String(), global: v} })
		return pset{PElem{o, "", a.ct(deref(v.Type())), nil}: true}
	case *ssa.Function:
		o := a.obj(okey{"func", v, ""}, func() *PObj { return &PObj{fn: v} })
		return pset{PElem{o, "", nil, nil}: true}
	}
	s := a.read(a.node(v, ctx, 0))
	if a.blk == nil || !isIface(v.Type()) {
		return s
	}
	for _, rf := range a.refs(a.blk.Parent())[v] {
		if !rf.head.Dominates(a.blk) {
			continue
		}
		n := pset{}
		for e := range s {
			if e.o.opq || (e.dt != nil && types.Identical(e.dt, rf.t)) == rf.pos {
				n[e] = true
			}
		}
		s = n
	}
	return s
}

// prefine: in the blocks below head, an interface holds (or not) a type.
type prefine struct {
	head *ssa.BasicBlock
	t    types.Type
	pos  bool
}

func (a *PTA) refs(f *ssa.Function) map[ssa.Value][]prefine {
	if m, ok := a.refm[f]; ok {
		return m
	}
	m := map[ssa.Value][]prefine{}
	a.refm[f] = m
	for _, b := range f.Blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, neg := ifi.Cond, false
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		ex, ok := cond.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			continue
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || isIface(ta.AssertedType) {
			continue
		}
		for i, s := range b.Succs {
			if len(s.Preds) == 1 {
				m[ta.X] = append(m[ta.X], prefine{s, ta.AssertedType, (i == 0) != neg})
			}
		}
	}
	return m
}

func (a *PTA) cell(o *PObj, f string, t types.Type) *pvar {
	k := ploc{o, f}
	s := a.cells[k]
	if s == nil {
		s = &pvar{pset{}, map[*pst]bool{}}
		a.cells[k] = s
		a.byObj[o] = append(a.byObj[o], k)
		if o.root != "" && t != nil {
			for _, e := range a.regionVal(o.root, t) {
				s.s[e] = true
			}
		}
	}
	return s
}

// load reads a place.
func (a *PTA) load(e PElem, t types.Type) pset {
	r := pset{}
	a.loadInto(r, e.o, e.f, t, 0)
	return r
}

func (a *PTA) loadInto(r pset, o *PObj, f string, t types.Type, d int) {
	if d > 6 || o.opq {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				a.loadInto(r, o, f+"."+u.Field(i).Name(), u.Field(i).Type(), d+1)
			}
		}
		return
	case *types.Array:
		a.loadInto(r, o, f+"[]", u.Elem(), d+1)
		return
	}
	for e := range a.read(a.cell(o, f, t)) {
		r[e] = true
	}
}

func (a *PTA) storeInto(o *PObj, f string, t types.Type, v pset, d int) {
	if d > 6 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				a.storeInto(o, f+"."+u.Field(i).Name(), u.Field(i).Type(), v, d+1)
			}
		}
		return
	case *types.Array:
		a.storeInto(o, f+"[]", u.Elem(), v, d+1)
		return
	}
	if !hasPtr(t) {
		return
	}
	c := a.cell(o, f, t)
	for e := range v {
		if a.fits(e, t) {
			a.add(c, e)
		}
	}
}

func (a *PTA) event(fn *ssa.Function, ins ssa.Instruction, ctx string, e PElem, what string) {
	k := evkey{ins, e.o, e.f}
	if _, ok := a.events[k]; !ok {
		a.events[k] = pevent{fn, ins, e.o, e.f, ctx, what}
	}
}

func (a *PTA) call(fn *ssa.Function, ctx string) {
	i := pinst{fn, ctx}
	if a.insts[i] == nil {
		n := &pst{pinst: i}
		a.insts[i] = n
		a.mark(n)
	}
}

// addRoot analyses a function, whose parameters are regions.
func (a *PTA) addRoot(f *ssa.Function) {
	for _, x := range f.Params {
		for _, e := range a.regionVal(x.Name(), x.Type()) {
			a.add(a.node(x, "", 0), e)
		}
	}
	for _, x := range f.FreeVars {
		for _, e := range a.regionVal("captured "+x.Name(), x.Type()) {
			a.add(a.node(x, "", 0), e)
		}
	}
	a.call(f, "")
}

func (a *PTA) solve() {
	for len(a.queue) > 0 {
		in := a.queue[0]
		a.queue = a.queue[1:]
		in.dirty = false
		a.cur = in
		a.run(in.pinst)
		a.cur, a.blk = nil, nil
		if len(a.insts) > 60000 || a.steps > 200000000 {
			a.over = true
			return
		}
	}
}

func (a *PTA) run(in pinst) {
	for _, b := range in.fn.Blocks {
		if a.prune != nil && a.prune(b) {
			continue
		}
		a.blk = b
		for _, ins := range b.Instrs {
			a.steps++
			a.instr(in.fn, in.ctx, ins)
		}
	}
}

func (a *PTA) copyTo(dst *pvar, src pset, t types.Type) {
	for e := range src {
		if t == nil || a.fits(e, t) {
			a.add(dst, e)
		}
	}
}

func (a *PTA) push(ctx string, caller, callee *ssa.Function, ins ssa.Instruction) string {
	if a.scc[caller] == a.scc[callee] {
		return ctx
	}
	if a.insNo[ins] == 0 {
		n := 0
		for _, b := range caller.Blocks {
			for _, x := range b.Instrs {
				n++
				a.insNo[x] = n
			}
		}
	}
	n := a.insNo[ins]
	c := fmt.Sprintf("%s:%d", a.p.name(caller), n)
	l := []string{c}
	if ctx != "" {
		l = append(l, strings.Split(ctx, "<")...)
	}
	if len(l) > a.k {
		l = l[:a.k]
	}
	return strings.Join(l, "<")
}

func (a *PTA) instr(fn *ssa.Function, ctx string, ins ssa.Instruction) {
	var out *pvar
	v, isVal := ins.(ssa.Value)
	if isVal {
		out = a.node(v, ctx, 0)
	}
	site := func(kind string, t types.Type) *PObj {
		return a.obj(okey{kind, ins, ctx}, func() *PObj {
			return &PObj{label: fmt.Sprintf("%s at %s in %s [%s]", kind, a.p.insPos(ins), a.p.short(fn), ctx), t: t}
		})
	}
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := deref(i.Type())
		a.add(out, PElem{site("alloc", t), "", a.ct(t), nil})
	case *ssa.MakeSlice:
		a.add(out, PElem{site("array", i.Type()), "[]", a.ct(i.Type().Underlying().(*types.Slice).Elem()), nil})
	case *ssa.MakeMap:
		a.add(out, PElem{site("map", i.Type()), "", a.ct(i.Type()), nil})
	case *ssa.MakeChan:
		a.add(out, PElem{site("chan", i.Type()), "", a.ct(i.Type()), nil})
	case *ssa.MakeClosure:
		o := site("closure", i.Type())
		o.fn = i.Fn.(*ssa.Function)
		a.add(out, PElem{o, "", nil, nil})
		for k, b := range i.Bindings {
			a.storeInto(o, fmt.Sprintf("fv%d", k), b.Type(), a.get(b, ctx), 0)
		}
	case *ssa.FieldAddr:
		st := structOf(deref(i.X.Type()))
		fl := st.Field(i.Field)
		for e := range a.get(i.X, ctx) {
			if a.fits(e, i.X.Type()) {
				a.add(out, PElem{e.o, e.f + "." + fl.Name(), a.ct(fl.Type()), nil})
			}
		}
	case *ssa.Field:
		a.copyTo(out, a.get(i.X, ctx), i.Type())
	case *ssa.IndexAddr:
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			a.copyTo(out, a.get(i.X, ctx), nil)
		case *types.Pointer:
			el := u.Elem().Underlying().(*types.Array).Elem()
			for e := range a.get(i.X, ctx) {
				a.add(out, PElem{e.o, e.f + "[]", a.ct(el), nil})
			}
		}
	case *ssa.Index:
		a.copyTo(out, a.get(i.X, ctx), i.Type())
	case *ssa.Lookup:
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			for e := range a.get(i.X, ctx) {
				a.copyTo(out, a.load(PElem{e.o, e.f + "{}", nil, nil}, m.Elem()), nil)
			}
		}
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			if hasPtr(i.Type()) {
				for e := range a.get(i.X, ctx) {
					if a.fits(e, i.X.Type()) {
						a.copyTo(out, a.load(e, i.Type()), nil)
					}
				}
			}
		case token.ARROW:
			for e := range a.get(i.X, ctx) {
				a.copyTo(out, a.load(PElem{e.o, "<>", nil, nil}, i.X.Type().Underlying().(*types.Chan).Elem()), nil)
			}
		}
	case *ssa.Store:
		for e := range a.get(i.Addr, ctx) {
			a.event(fn, ins, ctx, e, "assignment")
			a.storeInto(e.o, e.f, deref(i.Addr.Type()), a.get(i.Val, ctx), 0)
		}
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		for e := range a.get(i.Map, ctx) {
			a.event(fn, ins, ctx, e, "map assignment")
			a.storeInto(e.o, e.f+"{}", m.Elem(), a.get(i.Value, ctx), 0)
			a.storeInto(e.o, e.f+"{k}", m.Key(), a.get(i.Key, ctx), 0)
		}
	case *ssa.Send:
		for e := range a.get(i.Chan, ctx) {
			a.storeInto(e.o, "<>", i.X.Type(), a.get(i.X, ctx), 0)
		}
	case *ssa.Slice:
		if u, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			el := u.Elem().Underlying().(*types.Array).Elem()
			for e := range a.get(i.X, ctx) {
				a.add(out, PElem{e.o, e.f + "[]", a.ct(el), nil})
			}
		} else if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
			a.copyTo(out, a.get(i.X, ctx), nil)
		}
	case *ssa.Phi:
		for k, x := range i.Edges {
			if a.prune != nil && a.prune(i.Block().Preds[k]) {
				continue
			}
			a.blk = i.Block().Preds[k]
			a.copyTo(out, a.get(x, ctx), nil)
			a.blk = i.Block()
		}
	case *ssa.ChangeType:
		a.copyTo(out, a.get(i.X, ctx), nil)
	case *ssa.ChangeInterface:
		a.copyTo(out, a.get(i.X, ctx), nil)
	case *ssa.Convert:
		if sl, ok := i.Type().Underlying().(*types.Slice); ok {
			if _, ok := i.X.Type().Underlying().(*types.Basic); ok {
				a.add(out, PElem{site("array", i.Type()), "[]", a.ct(sl.Elem()), nil})
				return
			}
		}
		a.copyTo(out, a.get(i.X, ctx), nil)
	case *ssa.MakeInterface:
		t := a.ct(i.X.Type())
		for e := range a.get(i.X, ctx) {
			e.dt = t
			a.add(out, e)
		}
		if !isPtrLike(t) {
			// the value itself, so that its methods are found
			o := a.obj(okey{"box", t, ""}, func() *PObj { return &PObj{t: t} })
			a.add(out, PElem{o, "", nil, t})
		}
	case *ssa.TypeAssert:
		it, isI := i.AssertedType.Underlying().(*types.Interface)
		for e := range a.get(i.X, ctx) {
			switch {
			case e.o.opq:
				if isI {
					a.add(out, e)
				} else {
					for _, n := range a.regionVal(contentRoot(e.o.root), i.AssertedType) {
						a.add(out, n)
					}
				}
			case isI:
				if e.dt != nil && types.Implements(e.dt, it) {
					a.add(out, e)
				}
			case e.dt != nil && types.Identical(e.dt, i.AssertedType):
				e.dt = nil
				a.add(out, e)
			}
		}
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			a.copyTo(out, a.read(a.node(c, ctx, i.Index+1)), i.Type())
		}
		a.copyTo(out, a.get(i.Tuple, ctx), i.Type())
	case *ssa.Range:
		a.copyTo(out, a.get(i.X, ctx), nil)
	case *ssa.Next:
		if rg, ok := i.Iter.(*ssa.Range); ok && !i.IsString {
			m := rg.X.Type().Underlying().(*types.Map)
			for e := range a.get(i.Iter, ctx) {
				a.copyTo(out, a.load(PElem{e.o, e.f + "{}", nil, nil}, m.Elem()), nil)
				a.copyTo(out, a.load(PElem{e.o, e.f + "{k}", nil, nil}, m.Key()), nil)
			}
		}
	case *ssa.Return:
		// results are kept at the function, under the context
		for k, x := range i.Results {
			s := a.retNode(fn, ctx, k)
			a.copyTo(s, a.get(x, ctx), nil)
		}
	case ssa.CallInstruction:
		a.doCall(fn, ctx, ins, i.Common(), out)
	}
}

// contentRoot is the region of what the content of nodes points to.
func contentRoot(root string) string {
	if strings.HasPrefix(root, "ext ") || strings.HasSuffix(root, "'s content") || root == "global" {
		return root
	}
	return root + "'s content"
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

func (a *PTA) retNode(fn *ssa.Function, ctx string, k int) *pvar { return a.node(fn, ctx, k+1) }

func (a *PTA) doCall(fn *ssa.Function, ctx string, ins ssa.Instruction, c *ssa.CallCommon, out *pvar) {
	var args []pset
	var argT []types.Type
	for _, x := range c.Args {
		args = append(args, a.get(x, ctx))
		argT = append(argT, x.Type())
	}
	call, _ := ins.(*ssa.Call)
	into := func(g *ssa.Function, args []pset, clo *PObj, cloCtx string) {
		nctx := a.push(ctx, fn, g, ins)
		for k, x := range g.Params {
			if k < len(args) {
				a.copyTo(a.node(x, nctx, 0), args[k], x.Type())
			}
		}
		if clo != nil {
			for k, x := range g.FreeVars {
				a.copyTo(a.node(x, nctx, 0), a.read(a.cell(clo, fmt.Sprintf("fv%d", k), x.Type())), x.Type())
			}
		}
		a.call(g, nctx)
		if call != nil {
			n := g.Signature.Results().Len()
			for k := 0; k < n; k++ {
				dst := out
				if n > 1 {
					dst = a.node(call, ctx, k+1)
				}
				a.copyTo(dst, a.read(a.retNode(g, nctx, k)), nil)
			}
		}
	}
	var target func(g *ssa.Function, args []pset, argT []types.Type, clo *PObj, d int)
	target = func(g *ssa.Function, args []pset, argT []types.Type, clo *PObj, d int) {
		if a.p.isFn[g] || g.Synthetic != "" && g.Blocks != nil && g.Pkg == nil {
			into(g, args, clo, ctx)
			return
		}
		a.external(fn, ctx, ins, g, nil, args, argT, out)
	}
	if c.IsInvoke() {
		for e := range a.get(c.Value, ctx) {
			if e.o.opq {
				a.external(fn, ctx, ins, nil, c.Method, append([]pset{{e: true}}, args...), append([]types.Type{c.Value.Type()}, argT...), out)
				continue
			}
			if e.dt == nil {
				continue
			}
			sel := a.p.ssa.MethodSets.MethodSet(e.dt).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			g := a.p.ssa.MethodValue(sel)
			rec := pset{}
			for x := range a.get(c.Value, ctx) {
				if x.dt != nil && types.Identical(x.dt, e.dt) {
					x.dt = nil
					rec[x] = true
				}
			}
			na, nt := append([]pset{rec}, args...), append([]types.Type{e.dt}, argT...)
			if g != nil && a.p.repoFn(g) {
				into(g, na, nil, ctx)
			} else {
				a.external(fn, ctx, ins, g, c.Method, na, nt, out)
			}
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(fn, ctx, ins, b.Name(), c, args, out)
		return
	}
	if g := c.StaticCallee(); g != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for e := range a.get(mc, ctx) {
				if e.o.fn == g {
					into(g, args, e.o, ctx)
				}
			}
			return
		}
		target(g, args, argT, nil, 0)
		return
	}
	for e := range a.get(c.Value, ctx) {
		switch {
		case e.o.fn != nil && a.p.repoFn(e.o.fn):
			into(e.o.fn, args, e.o, ctx)
		case e.o.fn != nil:
			a.external(fn, ctx, ins, e.o.fn, nil, args, argT, out)
		case e.o.opq:
			// a function of the user: its effects are not ours, it returns anything
			a.results(ins, c.Signature().Results(), nil, nil, out)
		}
	}
}

func (p *Prog) repoFn(g *ssa.Function) bool {
	if p.isFn[g] {
		return true
	}
	// wrappers and bound methods of functions of the repository
	if g.Synthetic == "" || g.Blocks == nil {
		return false
	}
	for _, b := range g.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if h := c.Common().StaticCallee(); h != nil && p.isFn[h] {
					return true
				}
			}
		}
	}
	return false
}

// results of a call to code that is not analysed: new things, and what was given
func (a *PTA) results(ins ssa.Instruction, res *types.Tuple, args []pset, argT []types.Type, out *pvar) {
	if out == nil {
		return
	}
	root := fmt.Sprintf("ext %s", a.p.insPos(ins))
	for k := 0; k < res.Len(); k++ {
		t := res.At(k).Type()
		for _, e := range a.regionVal(root, t) {
			a.add(out, e)
		}
		if isErrorT(t) {
			continue
		}
		for j, s := range args {
			for e := range s {
				switch t.Underlying().(type) {
				case *types.Struct, *types.Interface:
					// a value or an interface may wrap what was given
					if e.dt == nil && !e.o.opq {
						if _, isI := t.Underlying().(*types.Interface); isI {
							if j >= len(argT) || !types.Implements(argT[j], t.Underlying().(*types.Interface)) {
								continue
							}
							e.dt = a.ct(argT[j])
						}
					}
					a.add(out, e)
				default:
					if a.fits(e, t) {
						a.add(out, e)
					}
				}
			}
		}
	}
}

// packages whose functions do not write to what they are given
var purePkg = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true,
	"reflect": true, "regexp": true, "time": true, "runtime": true, "path": true, "path/filepath": true, "cmp": true, "unicode/utf16": true}

var pureFn = map[string]bool{"bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true, "bytes.IndexByte": true, "bytes.Index": true,
	"bytes.Equal": true, "bytes.Compare": true, "bytes.TrimRight": true, "bytes.TrimLeft": true, "bytes.TrimSpace": true, "bytes.Contains": true,
	"bytes.ContainsAny": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Trim": true, "bytes.Split": true, "bytes.Join": true,
	"fmt.Sprint": true, "fmt.Sprintf": true, "fmt.Sprintln": true, "fmt.Errorf": true, "fmt.Print": true, "fmt.Printf": true, "fmt.Println": true,
	"bufio.NewReader": true, "json.Marshal": true, "json.Valid": true, "sort.SearchStrings": true, "sort.Search": true, "sort.SearchInts": true,
	"slices.Contains": true, "slices.Index": true, "maps.Keys": true, "slices.Sorted": true, "slices.Equal": true, "slices.Clone": true, "html.EscapeString": true,
	"sort.IsSorted": true, "sort.SliceIsSorted": true, "sort.StringsAreSorted": true, "json.NewEncoder": true, "json.NewDecoder": true,
	"io.NopCloser": true, "io.LimitReader": true, "io.MultiReader": true, "io.TeeReader": true, "bytes.Runes": true, "bytes.ToLower": true, "bytes.Clone": true}

// writers: only the arguments given by position are written to
var writesTo = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {}, "sort.Stable": {},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0},
	"fmt.Fprint": {0}, "fmt.Fprintf": {0}, "fmt.Fprintln": {0}, "io.ReadFull": {0, 1}, "io.Copy": {0, 1}, "io.WriteString": {0},
}

func (a *PTA) external(fn *ssa.Function, ctx string, ins ssa.Instruction, g *ssa.Function, m *types.Func, args []pset, argT []types.Type, out *pvar) {
	name, pkg, recv := "", "", false
	var sig *types.Signature
	if g != nil {
		sig = g.Signature
		name = g.Name()
		if o := g.Origin(); o != nil {
			g = o
			name = g.Name()
		}
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		} else if o := g.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		recv = g.Signature.Recv() != nil
	} else {
		sig = m.Type().(*types.Signature)
		name = m.Name()
		if m.Pkg() != nil {
			pkg = m.Pkg().Path()
		}
		recv = true
	}
	last := pkg[strings.LastIndex(pkg, "/")+1:]
	full := last + "." + name
	if recv {
		full = last + ".method." + name
	}
	a.calls[full] = true
	// functions given are called, with unknown arguments
	for j, s := range args {
		for e := range s {
			if e.o.fn != nil && a.p.repoFn(e.o.fn) {
				h := e.o.fn
				nctx := a.push(ctx, fn, h, ins)
				for _, x := range h.Params {
					for _, s2 := range args {
						// e.g. slices.SortFunc: elements of what was given
						for e2 := range s2 {
							if strings.HasSuffix(e2.f, "[]") && e2.pt != nil {
								a.copyTo(a.node(x, nctx, 0), a.load(e2, e2.pt), x.Type())
							}
						}
					}
				}
				for k, x := range h.FreeVars {
					a.copyTo(a.node(x, nctx, 0), a.read(a.cell(e.o, fmt.Sprintf("fv%d", k), x.Type())), x.Type())
				}
				a.call(h, nctx)
			}
			// the methods of the repository of a value given as a sorter
			if e.dt != nil && (full == "sort.Sort" || full == "sort.Stable" || full == "heap.Init" || full == "heap.Push" || full == "heap.Pop") {
				ms := a.p.ssa.MethodSets.MethodSet(e.dt)
				for k := 0; k < ms.Len(); k++ {
					h := a.p.ssa.MethodValue(ms.At(k))
					if h == nil || !a.p.repoFn(h) {
						continue
					}
					nctx := a.push(ctx, fn, h, ins)
					if len(h.Params) > 0 {
						x := e
						x.dt = nil
						a.copyTo(a.node(h.Params[0], nctx, 0), pset{x: true}, h.Params[0].Type())
					}
					a.call(h, nctx)
				}
			}
		}
		_ = j
	}
	w := map[int]bool{}
	idx, listed := writesTo[full]
	switch {
	case listed:
		for _, k := range idx {
			w[k] = true
		}
	case !recv && (purePkg[pkg] || pureFn[full]):
	case recv && pkg == "reflect":
		if strings.HasPrefix(name, "Set") || name == "Clear" || name == "Grow" || strings.HasPrefix(name, "Append") {
			w[0] = true
		}
	case recv && purePkg[pkg]:
	case recv:
		// methods change their receiver, and what they read into
		w[0] = true
		if strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "Decode") || strings.HasPrefix(name, "Scan") || strings.HasPrefix(name, "Unmarshal") || m != nil && pkg == "" {
			for k := range args {
				w[k] = true
			}
		} else if !strings.HasPrefix(name, "Write") && !strings.HasPrefix(name, "Set") && !strings.HasPrefix(name, "Encode") {
			for k := range args {
				w[k] = true
			}
		}
	default:
		for k := range args {
			w[k] = true
		}
	}
	for k, s := range args {
		if !w[k] {
			continue
		}
		for e := range s {
			if e.o.opq && !recv {
				continue
			}
			a.event(fn, ins, ctx, e, "call of "+full)
			// what is written there
			if e.pt != nil && !e.o.opq {
				root := fmt.Sprintf("ext %s", a.p.insPos(ins))
				v := pset{}
				for _, x := range a.regionVal(root, e.pt) {
					v[x] = true
				}
				// sorting only moves elements
				if !listed && hasPtr(e.pt) && a.p.inRepo(e.pt) || !listed && isIface(e.pt) {
					a.storeInto(e.o, e.f, e.pt, v, 0)
				}
			}
		}
	}
	a.results(ins, sig.Results(), args, argT, out)
}

func (a *PTA) builtin(fn *ssa.Function, ctx string, ins ssa.Instruction, name string, c *ssa.CallCommon, args []pset, out *pvar) {
	switch name {
	case "append":
		sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		o := a.obj(okey{"append", ins, ctx}, func() *PObj {
			return &PObj{label: fmt.Sprintf("array grown at %s in %s [%s]", a.p.insPos(ins), a.p.short(fn), ctx), t: c.Args[0].Type()}
		})
		ne := PElem{o, "[]", a.ct(sl.Elem()), nil}
		vals := pset{}
		if len(args) > 1 {
			for e := range args[1] {
				for x := range a.load(e, sl.Elem()) {
					vals[x] = true
				}
			}
		}
		for e := range args[0] {
			a.event(fn, ins, ctx, e, "append")
			a.storeInto(e.o, e.f, sl.Elem(), vals, 0)
			a.storeInto(o, "[]", sl.Elem(), a.load(e, sl.Elem()), 0)
			a.add(out, e)
		}
		a.storeInto(o, "[]", sl.Elem(), vals, 0)
		a.add(out, ne)
	case "copy":
		sl, ok := c.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for e := range args[0] {
			a.event(fn, ins, ctx, e, "copy")
			for x := range args[1] {
				a.storeInto(e.o, e.f, sl.Elem(), a.load(x, sl.Elem()), 0)
			}
		}
	case "delete", "clear":
		for e := range args[0] {
			a.event(fn, ins, ctx, e, name)
		}
	case "ssa:wrapnilchk":
		a.copyTo(out, args[0], nil)
	case "recover":
		for _, e := range a.regionVal("ext recover", types.NewInterfaceType(nil, nil)) {
			a.add(out, e)
		}
	}
}

// reachable from some values, through fields whose name is accepted.
func (a *PTA) reachable(from pset, follow func(f string) bool) map[ploc]bool {
	seen := map[ploc]bool{}
	objs := map[*PObj]bool{}
	var q []PElem
	for e := range from {
		q = append(q, e)
	}
	for len(q) > 0 {
		e := q[len(q)-1]
		q = q[:len(q)-1]
		seen[ploc{e.o, e.f}] = true
		if objs[e.o] {
			continue
		}
		objs[e.o] = true
		for _, k := range a.byObj[e.o] {
			if follow(k.f) {
				for x := range a.cells[k].s {
					q = append(q, x)
				}
			}
		}
		// fields of regions that were not read
		if e.o.root != "" && e.o.t != nil {
			if st := structOf(e.o.t); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					f := "." + st.Field(i).Name()
					if _, ok := a.cells[ploc{e.o, f}]; !ok && follow(f) {
						for _, x := range a.regionVal(e.o.root, st.Field(i).Type()) {
							q = append(q, x)
						}
					}
				}
			}
		}
	}
	return seen
}

func (a *PTA) sortedEvents() []pevent {
	var r []pevent
	for _, e := range a.events {
		r = append(r, e)
	}
	sort.Slice(r, func(i, j int) bool {
		x, y := a.p.insPos(r[i].ins)+r[i].obj.label+r[i].f, a.p.insPos(r[j].ins)+r[j].obj.label+r[j].f
		return x < y
	})
	return r
}
