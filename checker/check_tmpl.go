package main

// C18: control flow of templates. The function that renders a list of nodes is
// analysed with the kind of each node as a case, conditions and nested
// rendering as events; the function that nests the nodes likewise.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the kinds of nodes: constants of the package
var tmplKinds = []string{"TypeIf", "TypeElseIf", "TypeElse", "TypeFor", "TypeBreak", "TypeEnd"}

func (p *Prog) strConstOf(name string) (string, bool) {
	c, ok := p.root.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Val()), true
}

// from gives the way from a node to one of its descendants, as indexes.
func (s *State) from(v, node Val) ([]int64, bool) {
	var way []int64
	for i := 0; i < 6; i++ {
		if v.k != KRef {
			return nil, false
		}
		if v.id == node.id {
			for a, b := 0, len(way)-1; a < b; a, b = a+1, b-1 {
				way[a], way[b] = way[b], way[a]
			}
			return way, true
		}
		if t := s.fact(v.id).term; t != nil && t.op == "at" && t.args[1].k == KInt && t.args[1].lin.isConst() {
			way = append(way, t.args[1].lin.c)
			v = t.args[0]
			continue
		}
		found := false
		for _, k := range sortedCells(s.cells) {
			c := s.cells[k]
			if c.v.k != KRef || c.v.id != v.id || !strings.HasPrefix(k.path, "[") {
				continue
			}
			var n int64
			if _, err := fmt.Sscanf(k.path, "[%d]", &n); err != nil {
				continue
			}
			for _, kl := range sortedCells(s.cells) {
				l := s.cells[kl]
				if l.v.k == KRef && l.v.id == k.base && l.fld != nil && l.fld.Name() == "Out" {
					way = append(way, n)
					v = vRef(kl.base)
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return nil, false
}

// elemOf: the node is an element of the list of another, and at which index.
func (s *State) elemOf(v, g Val) (*Lin, bool) {
	out, ok := s.fieldOf(g.id, "Out")
	was, ok2 := s.gh.refs["out"]
	if !ok && !ok2 {
		return nil, false
	}
	for _, k := range sortedCells(s.cells) {
		c := s.cells[k]
		if (ok && k.base == out.id || ok2 && k.base == was.id) && c.v.k == KRef && c.v.id == v.id {
			s.gh.refs["out"] = vRef(k.base)
			if c.ix != nil {
				return c.ix, true
			}
			var n int64
			if _, err := fmt.Sscanf(k.path, "[%d]", &n); err == nil {
				return linC(n), true
			}
		}
	}
	return nil, false
}

// helper: a function that takes part in the work of another: it leads to it,
// writes to a buffer, or evaluates a condition, or is a small one of its own.
func helper(f, root *ssa.Function) bool {
	if len(f.Blocks) <= 4 {
		leaf := true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if _, ok := c.Call.Value.(*ssa.Builtin); !ok {
						leaf = false
					}
				}
			}
		}
		if leaf {
			return true
		}
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isBuf(f.Signature.Params().At(i).Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g == root {
					return true
				}
				sg := g.Signature
				if sg.Recv() != nil && g.Pkg == root.Pkg && sg.Results().Len() == 1 && isBoolT(sg.Results().At(0).Type()) && sg.Params().Len() == 1 && types.Identical(sg.Params().At(0).Type(), root.Signature.Recv().Type()) {
					return true
				}
			}
		}
	}
	return false
}

func isBuf(t types.Type) bool { return t.String() == "*bytes.Buffer" }

func outermost(fi *fnInfo, b *ssa.BasicBlock) bool {
	for h, l := range fi.loops {
		if h != b && l.body[b] {
			return false
		}
	}
	return true
}

// kindSplit is the call of ThisString on a node: one state for each kind.
func (m *modeRun) kindSplit(s *State, v Val, consts map[string]string) []exitSt {
	var out []exitSt
	if n, ok := s.gh.refs["node"]; ok && n.id == v.id && s.gh.tags["kind"] != "" {
		if k := s.gh.tags["kind"]; k != "other" {
			return ret(s, s.strConst(consts[k]))
		}
		w := s.memoVal(v.id, "text", func() Val { return s.fresh(types.Typ[types.String]) })
		return ret(s, w)
	}
	for _, k := range append(sortedKeys(consts), "other") {
		t := s.clone()
		t.gh.tags["kind"] = k
		t.gh.refs["node"] = v
		if k != "other" {
			out = append(out, exitSt{t, t.strConst(consts[k]), true})
			continue
		}
		w := t.memoVal(v.id, "text", func() Val { return t.fresh(types.Typ[types.String]) })
		t.upd(w.id, func(f *Fact) {
			for _, c := range sortedKeys(consts) {
				f.notStr = append(append([]string{}, f.notStr...), consts[c])
			}
		})
		out = append(out, exitSt{t, w, true})
	}
	return out
}

func (r *Report) tmplFns() (proc, flow, simp *ssa.Function) {
	p := r.p
	ifs, _ := p.strConstOf("TypeIf")
	for _, f := range p.fns {
		if f.Pkg == nil || f.Pkg.Pkg != p.root || f.Blocks == nil || f.Signature.Recv() == nil || !p.isGraphPtr(f.Signature.Recv().Type()) {
			continue
		}
		sg := f.Signature
		bufs, graphs := 0, 0
		for i := 0; i < sg.Params().Len(); i++ {
			if isBuf(sg.Params().At(i).Type()) {
				bufs++
			}
			if p.isGraphPtr(sg.Params().At(i).Type()) {
				graphs++
			}
		}
		self := false
		uses := false
		stores := false
		// with the functions it calls
		seen := map[*ssa.Function]bool{}
		var visit func(g *ssa.Function, d int)
		visit = func(g *ssa.Function, d int) {
			if seen[g] || d > 2 || g.Blocks == nil {
				return
			}
			seen[g] = true
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if h := c.Common().StaticCallee(); h != nil {
							if h == f {
								self = true
							} else if p.isFn[h] {
								visit(h, d+1)
							}
						}
					}
					for _, o := range ins.Operands(nil) {
						if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == ifs {
							uses = true
							if _, ok := ins.(*ssa.MakeInterface); ok && g == f {
								stores = true
							}
						}
					}
				}
			}
		}
		visit(f, 0)
		switch {
		case bufs == 1 && graphs >= 1 && self && uses && sg.Results().Len() == 1 && isBoolT(sg.Results().At(0).Type()):
			proc = f
		case bufs == 0 && graphs == 2 && self && uses && sg.Results().Len() == 1 && isIntT(sg.Results().At(0).Type()):
			flow = f
		case sg.Params().Len() == 0 && sg.Results().Len() == 0 && uses && stores:
			simp = f
		}
	}
	return
}

func init() {
	checks["C18"] = func(r *Report) {
		p := r.p
		r.rule("branch", "in the function that renders a list of nodes: an if evaluates its condition once and renders its branch if and only if it is true; an elseif and an else do so only if no condition of the chain was true; nothing else renders a branch")
		r.rule("break", "the function returns true only at a break or when a branch returned true, always then, and goes on to the next node otherwise; in a for, nothing more is rendered in it after its body returned true, and the function itself does not return true")
		r.rule("nest", "the function that nests nodes puts each node in the current list, what follows an if or for up to its end in a list below it, and an else or elseif in the list of its if with what follows it below; it takes each node exactly once, in order")
		r.rule("keyword", "a node becomes a directive of a kind only where its word is that of the kind")
		consts := map[string]string{}
		for _, k := range tmplKinds {
			c, ok := p.strConstOf(k)
			if !ok {
				r.fail("instances", k, "", "the constant is not found")
				return
			}
			consts[k] = c
		}
		proc, flow, simp := r.tmplFns()
		for i, f := range []*ssa.Function{proc, flow, simp} {
			if f == nil {
				r.fail("instances", []string{"rendering", "nesting", "keywords"}[i], "", "the function is not found")
				return
			}
			r.saw(f)
		}
		r.tmplProcess(proc, consts)
		r.tmplAll(proc, consts)
		r.tmplFlow(flow, consts)
		r.tmplSimplify(simp, consts)
		r.floor("branch", 4)
		r.floor("break", 3)
		r.floor("nest", 4)
		r.floor("keyword", 5)
		r.assume = append(r.assume, []string{"an elseif or else that follows no if, and a second else, are not specified", "evaluating a condition does not change the template"}...)
	}
}

func (r *Report) tmplProcess(root *ssa.Function, consts map[string]string) {
	p := r.p
	m := newModeRun(r, root)
	var ctxP, bufP int
	for i, q := range root.Params {
		if i > 0 && p.isGraphPtr(q.Type()) {
			ctxP = i
		}
		if isBuf(q.Type()) {
			bufP = i
		}
	}
	names := make([]string, len(root.Params))
	for i := range names {
		names[i] = fmt.Sprintf("param%d", i)
	}
	names[0], names[ctxP], names[bufP] = "list", "ctx", "buf"
	rendered := map[string]int{}
	key := func(what string) string { return p.short(root) + ": " + what }
	pos := p.pos(root.Pos())
	// what an iteration did, at its end
	end := func(s *State) {
		g := s.gh
		kind, cond, done, brk, chain := g.tags["kind"], g.tags["cond"], g.tags["rendered"] == "yes", g.tags["brk"] == "yes", g.tags["chain"]
		if kind == "" {
			return
		}
		bad := ""
		switch kind {
		case "TypeIf":
			switch {
			case cond == "":
				bad = "its condition is not evaluated"
			case (cond == "true") != done:
				bad = fmt.Sprintf("condition %s, branch rendered: %v", cond, done)
			}
			g.tags["chain"] = "open"
			if cond == "true" {
				g.tags["chain"] = "done"
			}
		case "TypeElseIf":
			switch chain {
			case "done":
				if done {
					bad = "its branch is rendered although an earlier condition was true"
				}
			case "open":
				switch {
				case cond == "":
					bad = "its condition is not evaluated"
				case (cond == "true") != done:
					bad = fmt.Sprintf("condition %s, branch rendered: %v", cond, done)
				}
				if cond == "true" {
					g.tags["chain"] = "done"
				}
			}
		case "TypeElse":
			if chain == "open" && !done {
				bad = "no condition was true and its branch is not rendered"
			}
			if chain == "done" && done {
				bad = "its branch is rendered although a condition was true"
			}
			g.tags["chain"] = ""
		case "TypeFor":
			g.tags["chain"] = ""
		case "TypeBreak":
			m.ob(s, false, "break", key("a break"), pos, "the node after a break is processed")
			g.tags["chain"] = ""
		default:
			if done {
				bad = "something is rendered below it"
			}
			g.tags["chain"] = ""
		}
		m.ob(s, bad == "", "branch", key(strings.TrimPrefix(kind, "Type")), pos, bad)
		if kind != "TypeFor" {
			m.ob(s, !brk, "break", key("break in "+strings.TrimPrefix(kind, "Type")), pos, "a branch met a break, and the next node is processed")
		}
		for _, k := range []string{"kind", "cond", "rendered", "brk"} {
			delete(g.tags, k)
		}
		delete(g.refs, "node")
	}
	m.run(&Mode{name: "template", terms: true, parts: 400,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		entry:  keepParams(root, names...),
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 5 && helper(fn, root) },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			sg := c.fn.Signature
			recv := sg.Recv() != nil && p.isGraphPtr(sg.Recv().Type())
			node, has := s.gh.refs["node"]
			at := p.insPos(ins)
			switch {
			case recv && c.fn.Name() == "ThisString":
				if _, ok := s.elemOf(c.args[0], s.gh.refs["list"]); ok || has && node.id == c.args[0].id {
					return m.kindSplit(s, c.args[0], consts), true
				}
				return ret(s, s.fresh(types.Typ[types.String])), true
			case recv && c.fn.Name() == "GetAt" && len(c.args) == 2:
				v := s.fresh(sg.Results().At(0).Type())
				return ret(s, s.term(v, "at", c.args[0], c.args[1])), true
			case c.fn == root:
				kind := s.gh.tags["kind"]
				way, ok := s.from(c.args[0], node)
				want := int64(1)
				if kind == "TypeElse" {
					want = 0
				}
				m.ob(s, has && ok && len(way) == 1 && way[0] == want, "branch", key("what is rendered at "+strings.TrimPrefix(kind, "Type")), at, "what is rendered is not the branch of the node")
				m.ob(s, s.sameVal(c.args[ctxP], s.gh.refs["ctx"]) && s.sameVal(c.args[bufP], s.gh.refs["buf"]), "branch", key("where "+strings.TrimPrefix(kind, "Type")+" renders"), at, "a branch is rendered with another context or into another buffer")
				if kind == "TypeFor" {
					m.ob(s, s.gh.tags["brk"] != "yes", "break", key("for"), at, "the body of the loop is rendered again after a break")
				} else {
					m.ob(s, s.gh.tags["rendered"] != "yes", "branch", key("once, "+strings.TrimPrefix(kind, "Type")), at, "a branch is rendered twice")
				}
				rendered[kind]++
				s.gh.tags["rendered"] = "yes"
				f := s.clone()
				s.gh.tags["brk"] = "yes"
				return []exitSt{{s, vBool(condTrue), true}, {f, vBool(condTrue.not()), true}}, true
			case recv && sg.Params().Len() == 1 && p.isGraphPtr(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isBoolT(sg.Results().At(0).Type()) && !helper(c.fn, root):
				if !has {
					return nil, false
				}
				way, ok := s.from(c.args[1], node)
				kind := s.gh.tags["kind"]
				m.ob(s, ok && len(way) >= 1 && way[0] == 0 && s.sameVal(c.args[0], s.gh.refs["ctx"]), "branch", key("condition of "+strings.TrimPrefix(kind, "Type")), at, "what is evaluated is not the condition of the node in the context")
				m.ob(s, s.gh.tags["cond"] == "", "branch", key("condition of "+strings.TrimPrefix(kind, "Type")+", once"), at, "the condition is evaluated twice")
				f := s.clone()
				s.gh.tags["cond"], f.gh.tags["cond"] = "true", "false"
				return []exitSt{{s, vBool(condTrue), true}, {f, vBool(condTrue.not()), true}}, true
			}
			if !helper(c.fn, root) {
				return s.skip(ins, c), true
			}
			return nil, false
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			if head.Parent() == root && outermost(s.a.p.fi(root), head) {
				end(s)
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KBool {
				return
			}
			q := s.quick(v.cond)
			kind, brk := s.gh.tags["kind"], s.gh.tags["brk"] == "yes"
			bad := ""
			switch {
			case q == 0:
				bad = "the result is not known to tell whether there was a break"
			case q > 0 && kind != "TypeBreak" && (!brk || kind == "TypeFor" || kind == ""):
				bad = "true is returned although there was no break here (at " + kind + ")"
			case q > 0:
				// the rules of the node hold as well
				if kind != "TypeBreak" {
					delete(s.gh.tags, "brk")
					end(s)
				}
			case q < 0 && kind != "":
				bad = "rendering stops at a node (" + kind + ")"
				if brk {
					bad = "a break is not reported"
				}
			}
			m.ob(s, bad == "", "break", key("result"), pos, bad)
		},
	})
	for _, k := range []string{"TypeIf", "TypeElseIf", "TypeElse", "TypeFor"} {
		r.ob(rendered[k] > 0, "branch", key(strings.TrimPrefix(k, "Type")+" has a branch"), pos, "its branch is never rendered")
	}
}

// tmplFlow checks the function that nests nodes.
func (r *Report) tmplFlow(root *ssa.Function, consts map[string]string) {
	p := r.p
	m := newModeRun(r, root)
	var gs []int
	startP := 0
	for i, q := range root.Params {
		if i > 0 && p.isGraphPtr(q.Type()) {
			gs = append(gs, i)
		}
		if isIntT(q.Type()) {
			startP = i
		}
	}
	if startP == 0 {
		r.fail("instances", "nesting", p.pos(root.Pos()), "the function has no start index")
		return
	}
	names := make([]string, len(root.Params))
	for i := range names {
		names[i] = fmt.Sprintf("param%d", i)
	}
	names[0], names[gs[0]], names[gs[1]] = "list", "cur", "prev"
	key := func(what string) string { return p.short(root) + ": " + what }
	pos := p.pos(root.Pos())
	eq := func(s *State, a, b *Lin) bool {
		return a != nil && b != nil && s.prove(&Cond{op: CEq, l: a.add(b, -1)})
	}
	nodes := 0
	end := func(s *State) {
		g := s.gh
		kind := g.tags["kind"]
		if kind == "" {
			return
		}
		k := strings.TrimPrefix(kind, "Type")
		bad := ""
		to := "cur"
		switch kind {
		case "TypeIf", "TypeFor":
			if g.tags["nested"] != "yes" {
				bad = "what follows it is not put below it"
			}
		case "TypeElse", "TypeElseIf":
			to = "prev"
			if g.has("child") {
				g.refs["cur"] = g.refs["child"]
			} else {
				bad = "what follows it is not put below it"
			}
		case "TypeEnd":
			bad = "the nesting goes on after an end"
		}
		if g.tags["put"] != to && kind != "TypeEnd" {
			bad = fmt.Sprintf("it is put in %q instead of %q (the current list, or that of the if)", g.tags["put"], to)
		}
		m.ob(s, bad == "", "nest", key(k), pos, bad)
		for _, k := range []string{"kind", "put", "nested"} {
			delete(g.tags, k)
		}
		delete(g.refs, "node")
		delete(g.refs, "child")
		delete(g.ints, "i")
	}
	m.run(&Mode{name: "nest", terms: true, parts: 400,
		ghost: func(fn *ssa.Function) *Ghost { return newGhost() },
		entry: func(s *State, fn *ssa.Function) {
			keepParams(root, names...)(s, fn)
			if fn == root && len(s.frames) <= 2 {
				s.top().env[root.Params[startP]] = s.freshRange(types.Typ[types.Int], 0, 1<<60)
				s.gh.ints["next"] = s.top().env[root.Params[startP]].lin
				delete(s.gh.refs, names[startP])
				s.setNil(s.gh.refs["list"].id, false)
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 5 && helper(fn, root) },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			sg := c.fn.Signature
			recv := sg.Recv() != nil && p.isGraphPtr(sg.Recv().Type())
			node, has := s.gh.refs["node"]
			at := p.insPos(ins)
			k := strings.TrimPrefix(s.gh.tags["kind"], "Type")
			switch {
			case recv && c.fn.Name() == "ThisString":
				if has && node.id == c.args[0].id {
					return m.kindSplit(s, c.args[0], consts), true
				}
				if ix, ok := s.elemOf(c.args[0], s.gh.refs["list"]); ok {
					nodes++
					m.ob(s, eq(s, ix, s.gh.ints["next"]), "nest", key("order"), at, "the node taken is not the one after the last")
					s.gh.ints["i"] = ix
					s.gh.ints["next"] = ix.add(linC(1), 1)
					return m.kindSplit(s, c.args[0], consts), true
				}
				return ret(s, s.fresh(types.Typ[types.String])), true
			case recv && sg.Params().Len() == 1 && isIface(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && p.isGraphPtr(sg.Results().At(0).Type()) && has:
				// something is added to a node
				arg := c.args[1]
				if f := s.fact(arg.id); f.pay != nil && f.pay.k == KRef && f.pay.id == node.id {
					to := "something else"
					for _, n := range []string{"prev", "cur"} {
						if e, ok := s.gh.refs[n]; ok && e.id == c.args[0].id {
							to = n
						}
					}
					// both may be the same
					if want := map[string]string{"Else": "prev", "ElseIf": "prev"}[k]; want != "" && s.gh.refs[want].id == c.args[0].id {
						to = want
					}
					m.ob(s, s.gh.tags["put"] == "", "nest", key(k+", once"), at, "the node is put in two lists")
					s.gh.tags["put"] = to
					return ret(s, node), true
				}
				v := s.fresh(sg.Results().At(0).Type())
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				m.ob(s, c.args[0].id == node.id && !s.gh.has("child"), "nest", key("list of "+k), at, "a list is made that is not the one below the node")
				s.gh.refs["child"] = v
				return ret(s, v), true
			case c.fn == root:
				child, ok := s.gh.refs["child"]
				ok = ok && c.args[0].id == s.gh.refs["list"].id && c.args[gs[0]].id == child.id && c.args[gs[1]].id == s.gh.refs["cur"].id
				m.ob(s, ok, "nest", key("below "+k), at, "what follows is not put in the list below the node, or an else of it not in the current list")
				m.ob(s, s.gh.tags["nested"] == "" && eq(s, c.args[startP].lin, s.gh.ints["next"]), "nest", key("start of "+k), at, "the nodes below do not start with the next one")
				w := s.freshRange(types.Typ[types.Int], -1, 1<<60)
				s.gh.tags["nested"] = "yes"
				s.gh.ints["next"] = w.lin.add(linC(1), 1)
				return ret(s, w), true
			}
			if !helper(c.fn, root) {
				return s.skip(ins, c), true
			}
			return nil, false
		},
		back: func(s *State, head, from *ssa.BasicBlock) {
			if head.Parent() == root && outermost(s.a.p.fi(root), head) {
				end(s)
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KInt {
				return
			}
			bad := ""
			switch kind := s.gh.tags["kind"]; {
			case kind == "TypeEnd":
				if s.gh.tags["put"] != "" || !eq(s, v.lin, s.gh.ints["i"]) {
					bad = "the index returned is not that of the end"
				}
			case kind != "":
				bad = "the nesting stops at a node (" + kind + ")"
			default:
				out, ok := s.fieldOf(s.gh.refs["list"].id, "Out")
				nilList := s.nilness(s.gh.refs["list"]) == 1
				if !nilList && (!ok || s.fact(out.id).len == nil || !s.prove(le(s.fact(out.id).len, v.lin))) {
					bad = "the nesting stops before the last node"
				}
			}
			m.ob(s, bad == "", "nest", key("result"), pos, bad)
		},
	})
	r.ob(nodes > 0, "nest", key("nodes"), pos, "no node is taken")
}

// tmplSimplify checks the function that makes directives of words.
func (r *Report) tmplSimplify(root *ssa.Function, consts map[string]string) {
	p := r.p
	m := newModeRun(r, root)
	words := map[string]string{}
	for _, k := range tmplKinds {
		words[consts[k]] = strings.ToLower(strings.TrimPrefix(k, "Type"))
	}
	got := map[string]bool{}
	m.run(&Mode{name: "keyword", terms: true, parts: 400,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		inline: func(s *State, fn *ssa.Function) bool { return false },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			sg := c.fn.Signature
			if sg.Recv() != nil && c.fn.Name() == "ThisString" {
				v := s.fresh(types.Typ[types.String])
				if t := s.fact(c.args[0].id).term; t != nil && t.op == "at" {
					s.gh.refs["word"] = v
				}
				return ret(s, v), true
			}
			if sg.Recv() != nil && c.fn.Name() == "GetAt" && len(c.args) == 2 {
				return ret(s, s.term(s.fresh(sg.Results().At(0).Type()), "at", c.args[0], c.args[1])), true
			}
			return nil, false
		},
		store: func(s *State, ins ssa.Instruction, ptr Val, v Val) {
			if v.k != KRef {
				return
			}
			f := s.fact(v.id)
			if f.pay == nil || f.pay.k != KRef {
				return
			}
			g := s.fact(f.pay.id)
			if g.str == nil {
				return
			}
			w, ok := words[*g.str]
			if !ok {
				return
			}
			got[w] = true
			known := false
			if e, ok := s.gh.refs["word"]; ok {
				x := s.fact(e.id)
				known = x.str != nil && *x.str == w
			}
			m.ob(s, known, "keyword", p.short(root)+": "+w, p.insPos(ins), "a node becomes "+*g.str+" although its word may be another than "+w)
		},
	})
	for _, k := range tmplKinds {
		r.ob(got[words[consts[k]]], "keyword", p.short(root)+": "+words[consts[k]]+" is made", p.pos(root.Pos()), "no node becomes "+consts[k])
	}
}
