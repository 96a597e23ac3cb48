package main

// C14: no two nodes share a list of children. Where does every list that is
// stored in a node come from?

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type srcKind int

const (
	srcFresh   srcKind = iota // made by instruction v
	srcOwn                    // the list of the node v
	srcParam                  // the list given as parameter v
	srcDeref                  // the list at the address given as parameter v
	srcUnknown                // something else: why
)

type lsrc struct {
	k   srcKind
	v   ssa.Value
	why string
}

func (s lsrc) String() string {
	n := ""
	if s.v != nil {
		n = s.v.Name()
		if f := s.v.Parent(); f != nil {
			n = f.Name() + "." + n
		}
	}
	return [...]string{"a new list ", "the list of ", "the list given as ", "the list at ", ""}[s.k] + n + s.why
}

type lstore struct {
	ins ssa.Instruction
	dst lsrc // srcOwn or srcDeref
	src map[lsrc]bool
}

type shareAn struct {
	p    *Prog
	ret  map[*ssa.Function][]map[lsrc]bool
	strs map[*ssa.Function][]ssa.Instruction // stores of lists, by function
	busy map[*ssa.Function]bool
}

func (p *Prog) isListT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && p.isGraphPtr(s.Elem())
}

// outAddr: the address of the list of a node.
func (p *Prog) outAddr(v ssa.Value) (ssa.Value, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !p.isGraphPtr(fa.X.Type()) {
		return nil, false
	}
	st := structOf(deref(fa.X.Type()))
	return fa.X, st != nil && p.isListT(st.Field(fa.Field).Type())
}

func stripPtr(v ssa.Value) ssa.Value {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Phi:
			var one ssa.Value
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				if one != nil && one != e {
					return v
				}
				one = e
			}
			if one == nil {
				return v
			}
			v = one
			continue
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			// a variable that is set once
			var al ssa.Value = x.X
			if fv, ok := al.(*ssa.FreeVar); ok {
				al = bindingOf(fv)
			}
			if a, ok := al.(*ssa.Alloc); ok {
				if w := onlyStore(a); w != nil {
					v = w
					continue
				}
			}
		case *ssa.FreeVar:
			if b := bindingOf(x); b != nil {
				if _, ok := b.(*ssa.Alloc); !ok {
					v = b
					continue
				}
			}
		}
		return v
	}
	return v
}

// bindingOf: what a captured variable is, if there is one place that makes the closure.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	i := -1
	for k, x := range f.FreeVars {
		if x == fv {
			i = k
		}
	}
	var r ssa.Value
	if f.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				if r != nil && r != mc.Bindings[i] {
					return nil
				}
				r = mc.Bindings[i]
			}
		}
	}
	return r
}

// allocStores: the values stored in a local variable, also by closures. The
// address must not be used otherwise.
func allocStores(v ssa.Value, d int) ([]ssa.Value, bool) {
	if v.Referrers() == nil || d > 4 {
		return nil, false
	}
	var r []ssa.Value
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != v {
				return nil, false
			}
			r = append(r, u.Val)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range u.Bindings {
				if b == v {
					x, ok := allocStores(u.Fn.(*ssa.Function).FreeVars[i], d+1)
					if !ok {
						return nil, false
					}
					r = append(r, x...)
				}
			}
		default:
			return nil, false
		}
	}
	return r, true
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	w, ok := allocStores(a, 0)
	if !ok || len(w) != 1 {
		return nil
	}
	return w[0]
}

// complit: a local node that is only filled and then read as a whole.
func (sa *shareAn) complit(v ssa.Value) ([]*ssa.Store, bool) {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var st []*ssa.Store
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			_, isOut := sa.p.outAddr(u)
			for _, w := range *u.Referrers() {
				s, ok := w.(*ssa.Store)
				if !ok || s.Addr != u {
					if _, ok := w.(*ssa.DebugRef); ok {
						continue
					}
					return nil, false
				}
				if isOut {
					st = append(st, s)
				}
			}
		default:
			return nil, false
		}
	}
	return st, true
}

func (sa *shareAn) prov(v ssa.Value, seen map[ssa.Value]bool) map[lsrc]bool {
	r := map[lsrc]bool{}
	if seen[v] {
		return r
	}
	seen[v] = true
	join := func(m map[lsrc]bool) {
		for k := range m {
			r[k] = true
		}
	}
	unk := func(s string) { r[lsrc{srcUnknown, nil, s}] = true }
	switch v := v.(type) {
	case *ssa.Const:
	case *ssa.Phi:
		for _, e := range v.Edges {
			join(sa.prov(e, seen))
		}
	case *ssa.Slice:
		if c, ok := v.Max.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
			return r
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			r[lsrc{srcFresh, al, ""}] = true
			return r
		}
		join(sa.prov(v.X, seen))
	case *ssa.MakeSlice:
		r[lsrc{srcFresh, v, ""}] = true
	case *ssa.ChangeType:
		join(sa.prov(v.X, seen))
	case *ssa.Parameter:
		r[lsrc{srcParam, v, ""}] = true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			unk("an unknown value")
			break
		}
		if x, ok := sa.p.outAddr(v.X); ok {
			if st, ok := sa.complit(x); ok {
				for _, s := range st {
					join(sa.prov(s.Val, seen))
				}
				break
			}
			r[lsrc{srcOwn, stripPtr(x), ""}] = true
			break
		}
		var al ssa.Value = v.X
		if fv, ok := al.(*ssa.FreeVar); ok {
			if b := bindingOf(fv); b != nil {
				al = b
			}
		}
		switch x := al.(type) {
		case *ssa.Alloc:
			w, ok := allocStores(x, 0)
			if !ok {
				unk("a variable whose address is used")
			}
			for _, y := range w {
				join(sa.prov(y, seen))
			}
		case *ssa.Parameter:
			r[lsrc{srcDeref, x, ""}] = true
		case *ssa.Global:
			unk("the list in the variable " + x.Name())
		case *ssa.FieldAddr:
			unk("the list in the field " + structOf(deref(x.X.Type())).Field(x.Field).Name())
		default:
			unk("a list kept elsewhere")
		}
	case *ssa.Call:
		join(sa.call(v, 0, seen))
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			join(sa.call(c, v.Index, seen))
		} else {
			unk("a list kept elsewhere")
		}
	case *ssa.Field:
		// the list of a node that is a value
		if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			join(sa.whole(u, seen))
		} else {
			unk("the list of a node value")
		}
	default:
		unk("a list kept elsewhere")
	}
	return r
}

// whole: the list of a node that is read as a whole.
func (sa *shareAn) whole(v ssa.Value, seen map[ssa.Value]bool) map[lsrc]bool {
	r := map[lsrc]bool{}
	if _, ok := v.(*ssa.Const); ok {
		return r
	}
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		r[lsrc{srcUnknown, nil, "the list of a node value"}] = true
		return r
	}
	if st, ok := sa.complit(u.X); ok {
		for _, s := range st {
			for k := range sa.prov(s.Val, seen) {
				r[k] = true
			}
		}
		return r
	}
	r[lsrc{srcOwn, stripPtr(u.X), ""}] = true
	return r
}

func (sa *shareAn) call(c *ssa.Call, i int, seen map[ssa.Value]bool) map[lsrc]bool {
	r := map[lsrc]bool{}
	cm := c.Common()
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			r[lsrc{srcFresh, c, ""}] = true
			for k := range sa.prov(cm.Args[0], seen) {
				r[k] = true
			}
			return r
		}
		r[lsrc{srcUnknown, nil, "the result of " + b.Name()}] = true
		return r
	}
	if f := cm.StaticCallee(); f != nil && !sa.p.isFn[f] {
		n := f.RelString(nil)
		if f.Origin() != nil {
			n = f.Origin().RelString(nil)
		}
		if strings.HasPrefix(n, "slices.") && len(cm.Args) > 0 {
			r[lsrc{srcFresh, c, ""}] = true
			switch n {
			case "slices.Clone", "slices.Concat", "slices.Repeat", "slices.Sorted", "slices.Collect":
			case "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Compact", "slices.CompactFunc", "slices.Grow", "slices.Clip", "slices.Replace":
				for k := range sa.prov(cm.Args[0], seen) {
					r[k] = true
				}
			default:
				r[lsrc{srcUnknown, nil, "the result of " + n}] = true
			}
			return r
		}
	}
	cs := sa.p.calleesOf(cm)
	if len(cs) == 0 {
		r[lsrc{srcUnknown, nil, "the result of a call of " + cm.Description()}] = true
		return r
	}
	for _, f := range cs {
		for s := range sa.returns(f, i) {
			for k := range sa.mapSrc(s, f, cm, c, seen) {
				r[k] = true
			}
		}
	}
	return r
}

// argOf: the argument that a parameter of f is bound to.
func argOf(f *ssa.Function, cm *ssa.CallCommon, v ssa.Value) ssa.Value {
	args := cm.Args
	if cm.IsInvoke() {
		args = append([]ssa.Value{cm.Value}, args...)
	}
	for i, x := range f.Params {
		if x == v && len(args) == len(f.Params) {
			return args[i]
		}
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		return bindingOf(fv)
	}
	return nil
}

func (sa *shareAn) mapSrc(s lsrc, f *ssa.Function, cm *ssa.CallCommon, c ssa.Value, seen map[ssa.Value]bool) map[lsrc]bool {
	r := map[lsrc]bool{}
	switch s.k {
	case srcFresh:
		if c == nil {
			r[s] = true
		} else {
			r[lsrc{srcFresh, c, ""}] = true
		}
	case srcUnknown:
		r[s] = true
	default:
		a := argOf(f, cm, s.v)
		if a == nil {
			r[s] = true
			return r
		}
		switch s.k {
		case srcOwn:
			r[lsrc{srcOwn, stripPtr(a), ""}] = true
		case srcParam:
			return sa.prov(a, map[ssa.Value]bool{})
		case srcDeref:
			if x, ok := sa.p.outAddr(a); ok {
				r[lsrc{srcOwn, stripPtr(x), ""}] = true
			} else if q, ok := a.(*ssa.Parameter); ok {
				r[lsrc{srcDeref, q, ""}] = true
			} else {
				r[lsrc{srcUnknown, nil, "a list whose address is given away"}] = true
			}
		}
	}
	return r
}

func (sa *shareAn) returns(f *ssa.Function, i int) map[lsrc]bool {
	if r := sa.ret[f]; r != nil {
		if i < len(r) {
			return r[i]
		}
		return nil
	}
	if sa.busy[f] {
		return nil
	}
	sa.busy[f] = true
	n := f.Signature.Results().Len()
	r := make([]map[lsrc]bool, n)
	for k := range r {
		r[k] = map[lsrc]bool{}
	}
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for k, v := range rt.Results {
			if sa.p.isListT(v.Type()) {
				for s := range sa.prov(v, map[ssa.Value]bool{}) {
					r[k][s] = true
				}
			}
		}
	}
	sa.busy[f] = false
	sa.ret[f] = r
	if i < n {
		return r[i]
	}
	return nil
}

// readOnlyTemp: a node that only the function that makes it uses, for reading.
func (sa *shareAn) readOnlyTemp(al *ssa.Alloc, f *ssa.Function) bool {
	a := newPTA(sa.p)
	a.addRoot(f)
	a.solve()
	if a.over {
		return false
	}
	obj := map[*PObj]bool{}
	for in := range a.insts {
		if in.fn == al.Parent() {
			for e := range a.get(al, in.ctx) {
				obj[e.o] = true
			}
		}
	}
	all := func(string) bool { return true }
	out := pset{}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		for e := range a.retNode(f, "", i).s {
			out[e] = true
		}
	}
	for _, q := range f.Params {
		for e := range a.get(q, "") {
			out[e] = true
		}
	}
	for _, o := range a.objs {
		if o.root == "global" || o.global != nil {
			out[PElem{o, "", nil, nil}] = true
		}
	}
	for l := range a.reachable(out, all) {
		if obj[l.o] {
			return false
		}
	}
	for _, e := range a.sortedEvents() {
		if isParamRoot(e.obj) {
			return false
		}
		if obj[e.obj] {
			// only what fills it when it is made
			st, ok := e.ins.(*ssa.Store)
			if !ok {
				return false
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != al || st.Block() != al.Block() {
				return false
			}
		}
	}
	return true
}

// moved: the node that the list is taken from is given another one at once.
func (sa *shareAn) moved(st *ssa.Store, from ssa.Value) bool {
	after := false
	for _, ins := range st.Block().Instrs {
		if ins == st {
			after = true
			continue
		}
		if !after {
			continue
		}
		switch x := ins.(type) {
		case *ssa.Store:
			if b, ok := sa.p.outAddr(x.Addr); ok && stripPtr(b) == from {
				for s := range sa.prov(x.Val, map[ssa.Value]bool{}) {
					if s.k != srcFresh {
						return false
					}
				}
				return true
			}
		case *ssa.FieldAddr, *ssa.DebugRef, *ssa.MakeSlice, *ssa.Alloc, *ssa.Slice:
		default:
			return false
		}
	}
	return false
}

// cycle: can the block be executed again without executing the other first?
func again(s, without *ssa.BasicBlock) bool {
	if s == without {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		for _, x := range b.Succs {
			if x == without {
				continue
			}
			if x == s {
				return true
			}
			if !seen[x] {
				seen[x] = true
				if dfs(x) {
					return true
				}
			}
		}
		return false
	}
	return dfs(s)
}

func init() {
	checks["C14"] = func(r *Report) {
		p := r.p
		r.rule("own list", "a list that is stored as the children of a node was made for it, or comes from that same node")
		r.rule("one owner", "a new list is stored as the children of one node only")
		sa := &shareAn{p: p, ret: map[*ssa.Function][]map[lsrc]bool{}, busy: map[*ssa.Function]bool{}}
		type pend struct {
			fn   *ssa.Function
			ins  ssa.Instruction
			dst  lsrc
			src  lsrc
			path string
		}
		var work []pend
		owners := map[ssa.Value]map[string]ssa.Instruction{}
		addOwner := func(s lsrc, who string, ins ssa.Instruction) {
			if owners[s.v] == nil {
				owners[s.v] = map[string]ssa.Instruction{}
			}
			owners[s.v][who] = ins
		}
		callers := map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						for _, g := range p.calleesOf(c.Common()) {
							callers[g] = append(callers[g], c)
						}
					}
				}
			}
		}
		nst := 0
		for _, f := range p.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.MapUpdate:
						if p.isListT(x.Value.Type()) {
							for s := range sa.prov(x.Value, map[ssa.Value]bool{}) {
								if s.k == srcFresh {
									addOwner(s, "a map", ins)
								}
							}
						}
					case *ssa.Return:
						for _, v := range x.Results {
							if p.isListT(v.Type()) {
								for s := range sa.prov(v, map[ssa.Value]bool{}) {
									if s.k == srcFresh {
										addOwner(s, "the caller", ins)
									}
								}
							}
						}
					case *ssa.MakeInterface:
						if p.isListT(x.X.Type()) {
							for s := range sa.prov(x.X, map[ssa.Value]bool{}) {
								if s.k == srcFresh {
									addOwner(s, "an interface", ins)
								}
							}
						}
					case *ssa.Store:
						var dst lsrc
						var src map[lsrc]bool
						if base, ok := p.outAddr(x.Addr); ok {
							if _, ok := sa.complit(base); ok {
								// counted where the whole is stored; harmless if it is not
								continue
							}
							dst = lsrc{srcOwn, stripPtr(base), ""}
							src = sa.prov(x.Val, map[ssa.Value]bool{})
						} else if types.Identical(x.Val.Type(), p.graphT) {
							dst = lsrc{srcOwn, stripPtr(x.Addr), ""}
							src = sa.whole(x.Val, map[ssa.Value]bool{})
							if _, ok := x.Addr.(*ssa.Alloc); ok && len(src) == 0 {
								continue
							}
						} else if p.isListT(x.Val.Type()) {
							src = sa.prov(x.Val, map[ssa.Value]bool{})
							switch a := x.Addr.(type) {
							case *ssa.Alloc, *ssa.FreeVar:
								continue // a variable: its readers see the sources
							case *ssa.Parameter:
								dst = lsrc{srcDeref, a, ""}
							default:
								for s := range src {
									if s.k == srcFresh {
										addOwner(s, "a field or variable", ins)
									}
								}
								continue
							}
						} else {
							continue
						}
						nst++
						r.saw(f)
						if len(src) == 0 {
							r.ob(true, "own list", r.p.short(f)+": nil", p.insPos(ins), "")
						}
						var ss []lsrc
						for s := range src {
							ss = append(ss, s)
						}
						sort.Slice(ss, func(i, j int) bool { return ss[i].String() < ss[j].String() })
						for _, s := range ss {
							work = append(work, pend{f, ins, dst, s, ""})
							if s.k == srcFresh {
								addOwner(s, dst.String(), ins)
								fb := s.v.(ssa.Instruction).Block()
								if fb.Parent() == f && again(ins.Block(), fb) {
									// stored repeatedly: only if always in the same node
									db := dst.v.Parent() == f
									if di, ok := dst.v.(ssa.Instruction); db && ok && !again(ins.Block(), di.Block()) {
										r.fail("one owner", p.short(f)+": "+s.String(), p.insPos(ins), fmt.Sprintf("%s can become the children of several nodes, one in each iteration", s))
									}
								}
							}
						}
					}
				}
			}
		}
		done := map[string]bool{}
		for len(work) > 0 {
			w := work[0]
			work = work[1:]
			key := fmt.Sprintf("%s: %s = %s", p.short(w.fn), w.dst, w.src)
			id := fmt.Sprintf("%p %p %v %v", w.fn, w.ins, w.dst, w.src)
			if done[id] {
				continue
			}
			done[id] = true
			switch {
			case w.src.k == srcFresh, w.src.k == w.dst.k && w.src.v == w.dst.v:
				r.ob(true, "own list", key, p.insPos(w.ins), "")
				continue
			}
			if st, ok := w.ins.(*ssa.Store); ok && w.src.k == srcOwn {
				if sa.moved(st, w.src.v) {
					r.ob(true, "own list", key+" (moved)", p.insPos(w.ins), "")
					continue
				}
				if al, ok := w.dst.v.(*ssa.Alloc); ok && sa.readOnlyTemp(al, w.fn) {
					r.ob(true, "own list", key+" (temporary node, only read)", p.insPos(w.ins), "")
					continue
				}
			}
			// the callers decide
			isPar := func(s lsrc) bool {
				if s.k == srcDeref || s.k == srcParam {
					return true
				}
				return false
			}
			if (isPar(w.src) || isPar(w.dst)) && w.src.k != srcUnknown && len(callers[w.fn]) > 0 && len(w.path) < 200 && !(w.fn.Object() != nil && w.fn.Object().Exported()) {
				ok := true
				var next []pend
				for _, c := range callers[w.fn] {
					seen := map[ssa.Value]bool{}
					for d := range sa.mapSrc(w.dst, w.fn, c.Common(), nil, seen) {
						for s := range sa.mapSrc(w.src, w.fn, c.Common(), nil, map[ssa.Value]bool{}) {
							if d.k != srcOwn && d.k != srcDeref {
								continue // a local variable of the caller
							}
							next = append(next, pend{c.Parent(), w.ins, d, s, w.path + p.short(w.fn) + " < "})
						}
					}
				}
				if ok {
					work = append(work, next...)
					r.ob(true, "own list", key+" (decided at the calls)", p.insPos(w.ins), "")
					continue
				}
			}
			r.fail("own list", key, p.insPos(w.ins), fmt.Sprintf("in %s%s, %s is stored as the children of another node (%s)", w.path, p.short(w.fn), w.src, w.dst))
		}
		var ks []ssa.Value
		for v := range owners {
			ks = append(ks, v)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Pos() < ks[j].Pos() })
		for _, v := range ks {
			var who []string
			var at ssa.Instruction
			for k, i := range owners[v] {
				who = append(who, k)
				at = i
			}
			sort.Strings(who)
			key := p.short(v.Parent()) + ": " + strings.Join(who, ", ")
			node := 0
			for _, k := range who {
				if strings.HasPrefix(k, "the list") {
					node++
				}
			}
			r.ob(len(who) < 2 || node == 0, "one owner", key, p.insPos(at), "one new list is kept in several places")
		}
		r.extra["stores_of_lists"] = nst
		r.floor("own list", 15)
		r.assume = []string{"users do not store the list of one node in another themselves", "no unsafe pointer arithmetic"}
	}
}
