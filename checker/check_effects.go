package main

// C12, C13, C15, C22: who can write to what, by points-to analysis.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var assignOps = map[string]bool{"=": true, "+=": true, "-=": true, "*=": true, "/=": true, "%=": true}

// assignCond tells if a condition, when it has the value want, implies that
// some string is an assignment operator.
func (p *Prog) assignCond(v ssa.Value, want bool, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		if v.Op == token.EQL && want || v.Op == token.NEQ && !want {
			for _, x := range []ssa.Value{v.X, v.Y} {
				if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && assignOps[constant.StringVal(c.Value)] {
					return true
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return p.assignCond(v.X, !want, d+1)
		}
	case *ssa.Phi:
		n := 0
		for i, e := range v.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != want {
				continue
			}
			if !p.assignCond(e, want, d+1) && !p.assignEdge(v.Block().Preds[i], v.Block(), d+1) {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil || !p.isFn[f] {
			return false
		}
		n := 0
		for _, b := range f.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || len(rt.Results) != 1 {
				continue
			}
			r := rt.Results[0]
			if c, ok := r.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != want {
				continue
			}
			if !p.assignCond(r, want, d+1) && !p.assignBlock(b, d+1) {
				return false
			}
			n++
		}
		return n > 0
	case *ssa.Extract:
		// presence in a table of assignment operators
		if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 1 && want {
			return p.assignTable(lk.X)
		}
	case *ssa.Lookup:
		return want && p.assignTable(v.X)
	}
	return false
}

func (p *Prog) assignTable(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return false
	}
	n := 0
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type(), ld.Type()) {
					c, ok := mu.Key.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.String || !assignOps[constant.StringVal(c.Value)] {
						return false
					}
					n++
				}
			}
		}
	}
	_ = g
	return n > 0
}

func (p *Prog) assignEdge(from, to *ssa.BasicBlock, d int) bool {
	if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		if p.assignCond(i.Cond, to == from.Succs[0], d) {
			return true
		}
	}
	return p.assignBlock(from, d+1)
}

// assignBlock: the block is only reached when an operator is an assignment.
func (p *Prog) assignBlock(b *ssa.BasicBlock, d int) bool {
	if d > 12 || len(b.Preds) == 0 {
		return false
	}
	for _, q := range b.Preds {
		if !p.assignEdge(q, b, d+1) {
			return false
		}
	}
	return true
}

func (p *Prog) assignPrune() func(b *ssa.BasicBlock) bool {
	m := map[*ssa.BasicBlock]int{}
	return func(b *ssa.BasicBlock) bool {
		if m[b] == 0 {
			m[b] = 1
			if p.assignBlock(b, 0) {
				m[b] = 2
			}
		}
		return m[b] == 2
	}
}

// evKey names a write without line numbers.
func (r *Report) evKey(e pevent) string {
	return fmt.Sprintf("%s: %s to %s%s", r.p.short(e.fn), e.what, e.obj.rootName(), e.f)
}

func (o *PObj) rootName() string {
	t := ""
	if o.t != nil {
		t = types.TypeString(o.t, func(p *types.Package) string { return p.Name() })
	}
	if o.root != "" {
		return o.root + " (" + t + ")"
	}
	return "fresh " + t
}

func (r *Report) ptaStats(a *PTA) {
	fs := map[*ssa.Function]bool{}
	for i := range a.insts {
		fs[i.fn] = true
		r.saw(i.fn)
	}
	if a.over {
		r.fail("analysis", "points-to", "", "the points-to analysis does not stabilise")
	}
	add := func(k string, n int) {
		m, _ := r.extra[k].(int)
		r.extra[k] = m + n
	}
	add("function_contexts", len(a.insts))
	add("abstract_objects", len(a.objs))
	add("write_events", len(a.events))
	add("pta_steps", a.steps)
}

// noWrites: none of the functions writes to what it was given.
func (r *Report) noWrites(f *ssa.Function, rule string, old func(o *PObj) bool, prune func(b *ssa.BasicBlock) bool) *PTA {
	var a *PTA
	var bad []pevent
	// more context is only taken where less does not decide
	for k := 1; k <= 3; k++ {
		a = newPTA(r.p)
		a.k = k
		a.prune = prune
		a.addRoot(f)
		a.solve()
		bad = nil
		for _, e := range a.sortedEvents() {
			if old(e.obj) {
				bad = append(bad, e)
			}
		}
		if len(bad) == 0 {
			break
		}
	}
	r.ptaStats(a)
	n := len(bad)
	for _, e := range bad {
		r.fail(rule, r.p.short(f)+" -> "+r.evKey(e), r.p.insPos(e.ins), fmt.Sprintf("%s writes to %s%s, which %s was given (%s in the context %s)", r.p.short(e.fn), e.obj.rootName(), e.f, r.p.short(f), e.what, e.ctx))
	}
	if n == 0 {
		r.ob(true, rule, r.p.short(f), r.p.pos(f.Pos()), "")
	}
	if r.dbg {
		a.dump()
		fmt.Println(r.p.short(f), len(a.insts), "instances", len(a.events), "events", a.steps, "steps")
		if n > 0 {
			for c := range a.calls {
				fmt.Print(" ", c)
			}
			fmt.Println()
		}
	}
	return a
}

var queryMethods = strings.Fields(`Binary Bool Bytes Check Clone Equals Eval Find Float64 Get GetAt GetBool GetBytes GetFloat64 GetInt64 GetString
 Html Int64 Interface JSON Len Node Number Scalar Show String StringCSV StringTxt Strings Text ThisBytes ThisFloat64 ThisInt64
 ThisNumber ThisScalar ThisString ThisType ThisValue Value`)

var effAssume = []string{
	"functions of the user that are found in a graph, and methods of content held in nodes, are not counted: what they do is theirs",
	"functions of the standard library write only to their receiver and to the arguments that they document as written",
	"no unsafe pointer arithmetic and no assembly",
}

func isParamRoot(o *PObj) bool {
	return o.root != "" && !strings.HasPrefix(o.root, "ext ") && o.root != "global" && !o.opq
}

func init() {
	checks["C12"] = func(r *Report) {
		r.rule("no write", "no store, map update, append to existing storage, copy, delete, sort or external writer that can be reached from a query writes to the receiver, an argument, or anything reachable from them; the branches that only an assignment operator reaches are left out")
		prune := r.p.assignPrune()
		for _, n := range queryMethods {
			f := r.fn("(*ogdl.Graph)." + n)
			if f == nil {
				continue
			}
			r.noWrites(f, "no write", func(o *PObj) bool {
				// what parsed expressions hold as content are no graphs
				return isParamRoot(o) && !(n == "Eval" && o.root == f.Params[1].Name()+"'s content")
			}, prune)
		}
		// the sources of copies are only read
		for _, n := range []string{"Copy", "AddNodes"} {
			f := r.fn("(*ogdl.Graph)." + n)
			if f == nil || len(f.Params) < 2 {
				continue
			}
			src := f.Params[1].Name()
			r.noWrites(f, "no write", func(o *PObj) bool { return isParamRoot(o) && o.root == src }, prune)
		}
		np := 0
		for _, f := range r.p.fns {
			for _, b := range f.Blocks {
				if prune(b) {
					np++
				}
			}
		}
		r.extra["blocks_only_for_assignment_operators"] = np
		r.floor("no write", 35)
		r.assume = effAssume
	}
	checks["C13"] = func(r *Report) {
		r.rule("no shared node", "no node and no list of children that was reachable from the original before the call is reachable, through lists of children, from what Clone returns or from what Copy adds")
		p := r.p
		follow := func(f string) bool { return strings.HasSuffix(f, ".Out") || strings.HasSuffix(f, "[]") }
		graphish := func(l ploc) bool {
			if l.o.opq || l.o.t == nil {
				return false
			}
			if types.Identical(l.o.t, p.graphT) {
				return true
			}
			s, ok := l.o.t.Underlying().(*types.Slice)
			return ok && p.isGraphPtr(s.Elem())
		}
		if f := r.fn("(*ogdl.Graph).Clone"); f != nil {
			a := newPTA(p)
			a.addRoot(f)
			a.solve()
			r.ptaStats(a)
			res := a.retNode(f, "", 0).s
			shared := 0
			fresh := 0
			for l := range a.reachable(res, follow) {
				if !graphish(l) {
					continue
				}
				if isParamRoot(l.o) || l.o.root == "global" {
					shared++
					r.fail("no shared node", "Clone: "+l.o.rootName(), p.pos(f.Pos()), "the clone can contain "+l.o.rootName()+l.f+" of the original")
				} else {
					fresh++
					r.ob(true, "no shared node", "Clone: "+l.o.label, p.pos(f.Pos()), "")
				}
			}
			if fresh == 0 {
				r.fail("no shared node", "Clone: nothing", p.pos(f.Pos()), "Clone returns no new node")
			}
		}
		if f := r.fn("(*ogdl.Graph).Copy"); f != nil && len(f.Params) == 2 {
			a := newPTA(p)
			a.addRoot(f)
			a.solve()
			r.ptaStats(a)
			g, c := f.Params[0], f.Params[1]
			from := a.get(g, "")
			n := 0
			for l := range a.reachable(from, follow) {
				if !graphish(l) {
					continue
				}
				n++
				if l.o.root == c.Name() {
					r.fail("no shared node", "Copy: "+l.o.rootName(), p.pos(f.Pos()), "after Copy the receiver can contain "+l.o.rootName()+l.f+" of the source")
				} else {
					r.ob(true, "no shared node", "Copy: "+l.o.label, p.pos(f.Pos()), "")
				}
			}
			// nor the other way round
			for l := range a.reachable(a.get(c, ""), follow) {
				if graphish(l) && l.o.root != c.Name() {
					r.fail("no shared node", "Copy: source: "+l.o.rootName(), p.pos(f.Pos()), "after Copy the source can contain "+l.o.rootName()+l.f)
				}
			}
			r.noWrites(f, "source unchanged", func(o *PObj) bool { return isParamRoot(o) && o.root == c.Name() }, nil)
		}
		if f := r.p.lookup("(*ogdl.Graph).Clone"); f != nil {
			r.noWrites(f, "source unchanged", isParamRoot, nil)
		}
		r.rule("source unchanged", "cloning and copying do not write to the original")
		r.assume = append([]string{"pointers that are the content of a node are shared by design: only nodes and lists of children count"}, effAssume...)
		r.floor("no shared node", 3)
	}
	checks["C15"] = func(r *Report) {
		r.rule("template unchanged", "no write that can be reached from Process writes to the template, or to anything reachable from it, also after parts of it have become reachable from the context")
		if f := r.fn("(*ogdl.Graph).Process"); f != nil && len(f.Params) == 2 {
			t := f.Params[0].Name()
			a := r.noWrites(f, "template unchanged", func(o *PObj) bool { return isParamRoot(o) && o.root == t }, nil)
			// every write of Process is an obligation
			n := 0
			for _, e := range a.sortedEvents() {
				if !(isParamRoot(e.obj) && e.obj.root == t) {
					n++
					r.ob(true, "template unchanged", r.evKey(e), r.p.insPos(e.ins), "")
				}
			}
			if n < 5 {
				r.fail("instances", "writes of Process", "", fmt.Sprintf("only %d writes seen below Process", n))
			}
			// no node of the template becomes part of the context
			r.rule("template not linked", "no node of the template becomes reachable from the context through lists of children, where the user of the context could change it")
			c := f.Params[1]
			bad := false
			for l := range a.reachable(a.get(c, ""), func(f string) bool { return strings.HasSuffix(f, ".Out") || strings.HasSuffix(f, "[]") }) {
				if isParamRoot(l.o) && l.o.root == t {
					bad = true
					r.fail("template not linked", l.o.rootName()+l.f, r.p.pos(f.Pos()), "after Process the context can contain "+l.o.rootName()+l.f+" of the template")
				}
			}
			if !bad {
				r.ob(true, "template not linked", "Process", r.p.pos(f.Pos()), "")
			}
		}
		r.assume = effAssume
	}
	checks["C22"] = func(r *Report) {
		p := r.p
		r.rule("no global state", "outside initialisation nothing is written to a package level variable, or to anything reachable from one")
		r.rule("no shared capture", "a handler that is called from several goroutines does not write to the variables it captures")
		// what initialisation leaves in the variables
		ini := newPTA(p)
		ini.k = 1
		for _, f := range p.fns {
			if f.Name() == "init" && f.Signature.Recv() == nil {
				ini.call(f, "")
			}
		}
		ini.solve()
		r.ptaStats(ini)
		a := newPTA(p)
		a.k = 1
		old := map[*PObj]bool{}
		nglob := 0
		for k, o := range ini.objs {
			g, ok := k.v.(*ssa.Global)
			if k.kind != "global" || !ok || g.Pkg == nil || !p.repoPkg[g.Pkg.Pkg] {
				continue
			}
			nglob++
			a.objs[k] = o
			for l := range ini.reachable(pset{PElem{o, "", ini.ct(o.t), nil}: true}, func(string) bool { return true }) {
				old[l.o] = true
			}
		}
		for k, v := range ini.cells {
			if old[k.o] {
				n := &pvar{pset{}, map[*pst]bool{}}
				for e := range v.s {
					n.s[e] = true
				}
				a.cells[k] = n
				a.byObj[k.o] = append(a.byObj[k.o], k)
			}
		}
		r.extra["package_variables"] = nglob
		r.extra["objects_reachable_from_package_variables"] = len(old)
		nroot := 0
		for _, f := range append(p.apiRoots(), p.valueRoots()...) {
			if f.Name() == "init" {
				continue
			}
			nroot++
			a.addRoot(f)
		}
		a.solve()
		r.ptaStats(a)
		r.extra["entry_points"] = nroot
		for _, e := range a.sortedEvents() {
			bad := old[e.obj]
			if g := e.obj.global; g != nil && g.Pkg != nil && p.repoPkg[g.Pkg.Pkg] {
				bad = true
			}
			key := r.evKey(e)
			if bad {
				r.fail("no global state", key, p.insPos(e.ins), fmt.Sprintf("%s writes to %s%s, which is reachable from package level variables (%s in the context %s)", p.short(e.fn), e.obj.label, e.f, e.what, e.ctx))
			} else {
				r.ob(true, "no global state", key, p.insPos(e.ins), "")
			}
		}
		r.floor("no global state", 100)
		// closures that are used as handlers of connections
		for _, f := range p.fns {
			if f.Parent() == nil || len(f.FreeVars) == 0 {
				continue
			}
			if !p.isHandlerSig(f) {
				continue
			}
			r.noWrites(f, "no shared capture", func(o *PObj) bool { return strings.HasPrefix(o.root, "captured ") }, nil)
		}
		r.floor("no shared capture", 1)
		r.assume = append([]string{"the state of the packages used (log, flag, os) is synchronised by them"}, effAssume...)
	}
}

func (p *Prog) isHandlerSig(f *ssa.Function) bool {
	for _, pk := range p.pkgs {
		if pk.Types.Name() == "ogdlrf" {
			if o := pk.Types.Scope().Lookup("Function"); o != nil {
				return types.Identical(f.Signature, o.Type().Underlying())
			}
		}
	}
	return false
}
