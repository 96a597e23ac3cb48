package main

// C07: what is parsed depends on the bytes of the stream only. The window of the
// lexer is followed from its reader to the byte that is handed out: ghost
// counters say where the window begins in the stream and how many bytes have
// been received.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = func(r *Report) {
		p := r.p
		r.rule("received", "bytes are received right after those that came before, none is skipped or overwritten, and the end of the window is where the received bytes end")
		r.rule("end", "the window ends before its buffer only when the reader reported an error or made no progress several times, and only then is the end of the stream reported")
		r.rule("position", "a byte that is handed out is the one at the read position, which advances by one; unreading goes back by one")
		r.rule("only", "the window, its reader and its error are used by nothing else")
		x := &refill{r: r, p: p}
		lx := p.root.Scope().Lookup("Lexer")
		if lx == nil {
			r.ob(false, "received", "instances", "", "there is no Lexer")
			return
		}
		x.lx = lx.Type()
		st := structOf(x.lx)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch {
			case isByteSlice(f.Type()):
				x.buf = append(x.buf, f)
			case f.Type().String() == "io.Reader":
				x.rd = append(x.rd, f)
			case f.Type().String() == "error":
				x.err = append(x.err, f)
			}
		}
		unread := p.method("Lexer", "UnreadByte")
		read := p.method("Lexer", "Byte")
		if len(x.buf) != 1 || len(x.rd) != 1 || unread == nil || read == nil {
			r.ob(false, "received", "instances", "", "the window of the lexer is not found")
			return
		}
		// the read position is what unreading changes; the end is the other
		pos := x.stored(unread, 2)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if isIntegerT(f.Type()) {
				if pos[f] {
					x.r0 = append(x.r0, f)
				} else {
					x.end = append(x.end, f)
				}
			}
		}
		if len(x.r0) != 1 || len(x.end) != 1 {
			r.ob(false, "received", "instances", "", "the position and the end of the window are not found")
			return
		}
		var makers []*ssa.Function
		for _, f := range p.fns {
			if f.Blocks == nil || f.Parent() != nil {
				continue
			}
			if x.makes(f) {
				makers = append(makers, f)
			}
		}
		for _, f := range makers {
			r.saw(f)
			x.run(f, "make")
		}
		r.ob(x.size > 0, "received", "the size of the window", p.pos(read.Pos()), "it is not always the same")
		r.saw(read)
		r.saw(unread)
		x.run(read, "byte")
		x.run(unread, "unread")
		x.only(append([]*ssa.Function{read, unread}, makers...))
		r.floor("received", 3)
		r.floor("end", 3)
		r.floor("position", 3)
		r.floor("only", 5)
		r.assume = []string{"a reader keeps to the contract of io.Reader, and reports the end of the stream again when it is read once more"}
	}
}

type refill struct {
	r                     *Report
	p                     *Prog
	lx                    types.Type
	buf, rd, err, r0, end []*types.Var
	size                  int64
}

func (p *Prog) method(typ, name string) *ssa.Function {
	for _, f := range p.fns {
		if f.Name() == name && f.Parent() == nil && p.recvNamed(f, typ) && f.Blocks != nil {
			return f
		}
	}
	return nil
}

// stored: the fields that a function, or what it calls, stores to.
func (x *refill) stored(f *ssa.Function, depth int) map[*types.Var]bool {
	m := map[*types.Var]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok {
					m[fieldVar(fa)] = true
				}
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g != nil && depth > 0 && x.p.isFn[g] {
					for v := range x.stored(g, depth-1) {
						m[v] = true
					}
				}
			}
		}
	}
	return m
}

func (x *refill) is(v *types.Var, l ...[]*types.Var) bool {
	for _, k := range l {
		for _, w := range k {
			if v == w {
				return true
			}
		}
	}
	return false
}

// touches: the fields of the window that a function uses.
func (x *refill) touches(f *ssa.Function) (win, er bool) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.FieldAddr:
				v := fieldVar(i)
				win = win || x.is(v, x.buf, x.rd, x.r0, x.end)
				er = er || x.is(v, x.err)
			case *ssa.Field:
				v := structOf(i.X.Type()).Field(i.Field)
				win = win || x.is(v, x.buf, x.rd, x.r0, x.end)
				er = er || x.is(v, x.err)
			}
		}
	}
	return
}

// makes: it makes a lexer and returns it, or something that embeds it.
func (x *refill) makes(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 || f.Signature.Recv() != nil {
		return false
	}
	st := structOf(deref(rs.At(0).Type()))
	if st == nil || !x.embeds(deref(rs.At(0).Type())) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && x.embeds(deref(a.Type())) {
				return true
			}
		}
	}
	return false
}

func (x *refill) embeds(t types.Type) bool {
	if types.Identical(t, x.lx) {
		return true
	}
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && types.Identical(st.Field(i).Type(), x.lx) {
				return true
			}
		}
	}
	return false
}

// path of the lexer in what is at v.
func (x *refill) lexer(s *State, v Val, t types.Type) Val {
	v = s.asPtr(v)
	if !types.Identical(t, x.lx) {
		if st := structOf(t); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); types.Identical(f.Type(), x.lx) {
					v.path += "." + f.Name()
				}
			}
		}
	}
	return v
}

func (x *refill) field(s *State, lx Val, f []*types.Var) Val {
	return s.load(Val{k: KPtr, id: lx.id, path: lx.path + "." + f[0].Name(), fld: f[0]}, f[0].Type())
}

func (x *refill) run(root *ssa.Function, kind string) {
	p, r := x.p, x.r
	m := newModeRun(r, root)
	name := p.short(root)
	ob := func(s *State, ins ssa.Instruction, rule, what, bad string) {
		pos := p.pos(root.Pos())
		if ins != nil {
			pos = p.insPos(ins)
		}
		m.ob(s, bad == "", rule, name+": "+what, pos, bad)
	}
	eq := func(s *State, a, b *Lin) bool { return s.prove(&Cond{op: CEq, l: a.add(b, -1)}) }
	// the buffer is the one of the lexer
	isBuf := func(s *State, v Val) (lo, hi *Lin, ok bool) {
		b, has := s.gh.refs["buf"]
		if !has || v.k != KRef {
			return
		}
		if v.id == b.id {
			return linC(0), s.lenOf(b), true
		}
		lo, hi = linC(0), s.lenOf(v)
		for d := 0; d < 6 && v.k == KRef; d++ {
			if v.id == b.id {
				return lo, lo.add(hi, 1), true
			}
			t := s.fact(v.id).term
			if t == nil || t.op != "slice" {
				break
			}
			lo = lo.add(t.args[1].lin, 1)
			v = t.args[0]
		}
		return
	}
	m.run(&Mode{name: "refill", terms: true, parts: 1000, noGC: true, paths: true, loopPaths: true,
		back: func(s *State, head, from *ssa.BasicBlock) { delete(s.gh.tags, "path") },
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			for _, n := range []string{"base", "got", "P", "L", "c", "cix", "empty", "drop"} {
				g.ints[n] = linC(0)
			}
			g.ints["cix"] = linC(-1)
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool { return p.recvNamed(fn, "Lexer") || x.makes(fn) },
		entry: func(s *State, fn *ssa.Function) {
			if fn != root || len(s.frames) > 2 || kind == "make" {
				return
			}
			g := s.gh
			lx := x.lexer(s, s.top().env[root.Params[0]], x.lx)
			b, pos, end := x.field(s, lx, x.buf), x.field(s, lx, x.r0), x.field(s, lx, x.end)
			g.refs["buf"] = b
			g.refs["lx"] = s.top().env[root.Params[0]]
			if l := s.lenOf(b); x.size > 0 {
				s.z.assumeLe(l.addK(-x.size))
				s.z.assumeLe(l.mul(-1).addK(x.size))
			}
			g.ints["P"], g.ints["got"], g.ints["L"] = pos.lin, end.lin, end.lin
			for _, v := range []Val{pos, end} {
				if id, ok := v.lin.single(); ok {
					s.upd(id, func(f *Fact) { f.full = false })
				}
				s.z.assumeLe(v.lin.mul(-1))
				s.z.assumeLe(v.lin.add(s.lenOf(b), -1))
			}
			s.z.assumeLe(pos.lin.add(end.lin, -1).addK(-1))
		},
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if ptr.fld != nil && x.is(ptr.fld, x.buf) {
				s.gh.refs["buf"] = v
			}
		},
		loaded: func(s *State, ins ssa.Instruction, ptr, res Val) {
			u, ok := ins.(*ssa.UnOp)
			if !ok || res.k != KInt {
				return
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok {
				return
			}
			off, _, ok := isBuf(s, s.val(ia.X))
			if !ok {
				return
			}
			g := s.gh
			i := s.val(ia.Index).lin.add(off, 1)
			end := g.ints["got"].add(g.ints["base"], -1)
			bad := ""
			if !s.prove(le(i.addK(1), end)) && !s.full(end, g.refs["buf"]) {
				bad = "a byte that was not received may be used"
			}
			ob(s, ins, "position", "use", bad)
			g.ints["c"], g.ints["cix"] = res.lin, i.add(g.ints["base"], 1)
		},
		copied: func(s *State, ins ssa.Instruction, dst, src, n Val) {
			lo, _, ok := isBuf(s, dst)
			if !ok {
				return
			}
			g := s.gh
			from, hi, ok2 := isBuf(s, src)
			bad := ""
			switch {
			case !ok2:
				bad = "something that was not received is put into the window"
			case !s.prove(&Cond{op: CEq, l: lo}) || !eq(s, hi, s.lenOf(g.refs["buf"])) && !s.prove(le(g.ints["got"].add(g.ints["base"], -1), hi)):
				bad = "a part of the window may be lost"
			default:
				g.ints["base"] = g.ints["base"].add(from, 1)
			}
			g.tags["moved"] = "yes"
			ob(s, ins, "received", "kept", bad)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			whole := c.fn != nil && c.fn.RelString(nil) == "io.ReadFull"
			if !whole && (!c.com.IsInvoke() || c.com.Method.Name() != "Read" || c.com.Value.Type().String() != "io.Reader") {
				return nil, false
			}
			g := s.gh
			var lo, hi *Lin
			ok := false
			for _, a := range c.args {
				if l, h, is := isBuf(s, a); is {
					lo, hi, ok = l, h, true
				}
			}
			bad := ""
			switch {
			case !ok:
				bad = "it is received somewhere else"
				lo, hi = linC(0), linC(1<<40)
			case !eq(s, lo.add(g.ints["base"], 1), g.ints["got"]):
				bad = "it is not received right after what came before"
			}
			ob(s, ins, "received", "place", bad)
			g.tags["moved"] = "yes"
			var out []exitSt
			rs := c.com.Signature().Results()
			for k := 0; k < 4; k++ {
				t := s.clone()
				n := t.freshRange(types.Typ[types.Int], 0, posInf)
				t.z.assumeLe(n.lin.add(hi, -1).add(lo, 1))
				if k&1 == 0 {
					n = vInt(linC(0))
					t.gh.ints["empty"], t.gh.ints["drop"] = t.gh.ints["empty"].addK(1), t.gh.ints["drop"].addK(-1)
				} else {
					t.z.assumeLe(linC(1).add(n.lin, -1))
					t.gh.ints["empty"], t.gh.ints["drop"] = linC(0), linC(0)
				}
				if t.z.bad || whole && k == 0 {
					continue
				}
				if whole && k == 1 {
					// all of it
					n = vInt(hi.add(lo, -1))
				}
				t.gh.ints["got"] = t.gh.ints["got"].add(n.lin, 1)
				e := t.fresh(rs.At(1).Type())
				if k&2 == 0 {
					e = t.zero(rs.At(1).Type())
				} else {
					t.upd(e.id, func(f *Fact) { f.nl = 2 })
					t.gh.tags["err"] = "yes"
				}
				out = append(out, exitSt{t, tuple(n, e), true})
			}
			return out, true
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 {
				return
			}
			g := s.gh
			var lx Val
			if kind == "make" {
				o := v
				if v.k == KTuple && len(v.elts) > 0 {
					o = v.elts[0]
				}
				if s.nilness(o) == 1 || o.k != KRef && o.k != KPtr {
					return
				}
				lx = x.lexer(s, o, deref(root.Signature.Results().At(0).Type()))
			} else {
				lx = x.lexer(s, g.refs["lx"], x.lx)
			}
			b, pos, end := x.field(s, lx, x.buf), x.field(s, lx, x.r0), x.field(s, lx, x.end)
			at := pos.lin.add(g.ints["base"], 1)
			bad := ""
			if w := g.refs["buf"]; b.k != KRef || b.id != w.id {
				bad = "the window is replaced in a way that is not followed"
			} else if !eq(s, end.lin.add(g.ints["base"], 1), g.ints["got"]) {
				bad = "the window may not end where the received bytes end"
			}
			ob(s, nil, "received", "window", bad)
			bad = ""
			switch {
			case g.tags["moved"] == "" && kind != "make":
				if !eq(s, end.lin, g.ints["L"]) {
					bad = "the end of the window is changed though nothing is received"
				}
			case g.tags["err"] == "yes" || s.prove(le(linC(2), g.ints["empty"])) || s.prove(le(g.ints["drop"], linC(-2))) || s.full(end.lin, b):
			default:
				bad = "the window may end though the reader gave no error, and made progress"
			}
			if bad == "" && !s.prove(le(pos.lin.addK(1), s.lenOf(b))) && !s.prove(le(end.lin.addK(1), s.lenOf(b))) && kind != "unread" {
				bad = "the window may be used up without being filled"
			}
			ob(s, nil, "end", "window", bad)
			bad = ""
			P := g.ints["P"]
			switch kind {
			case "make":
				switch l := s.lenOf(b); {
				case !l.isConst() || x.size != 0 && x.size != l.c:
					x.size = -1
				default:
					x.size = l.c
				}
				if !s.prove(&Cond{op: CEq, l: at}) {
					bad = "reading may not begin at the first byte"
				}
			case "unread":
				if !eq(s, at, P.addK(-1)) && !(eq(s, at, P) && s.prove(le(P, linC(0)))) {
					bad = "it may not go back by one byte"
				}
			case "byte":
				if v.k != KTuple || len(v.elts) != 2 {
					bad = "not followed"
					break
				}
				switch s.nilness(v.elts[1]) {
				case 2:
					if bad := ""; true {
						if !s.prove(le(end.lin.addK(1), s.lenOf(b))) || !s.prove(le(g.ints["got"], P)) {
							bad = "the end of the stream may be reported though there are bytes left"
						}
						ob(s, nil, "end", "reported", bad)
					}
					if !eq(s, at, g.ints["got"].addK(1)) {
						bad = "after the end of the stream the position may not be one beyond it"
					}
				case 1:
					if v.elts[0].k != KInt || !eq(s, v.elts[0].lin, g.ints["c"]) || !eq(s, g.ints["cix"], P) {
						bad = "the byte that is handed out may not be the one at the position"
					} else if !eq(s, at, P.addK(1)) {
						bad = "the position may not advance by one"
					}
				default:
					bad = "it is not known whether the end is reported"
				}
			}
			ob(s, nil, "position", kind, bad)
		},
	})
}

// full: the end is the end of the buffer.
func (s *State) full(end *Lin, b Val) bool {
	return s.prove(le(s.lenOf(b), end))
}

// only: nothing else uses the window.
func (x *refill) only(roots []*ssa.Function) {
	p, r := x.p, x.r
	callers := map[*ssa.Function][]*ssa.Function{}
	addr := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
						for _, a := range c.Common().Args {
							if h, ok := a.(*ssa.Function); ok {
								addr[h] = true
							}
						}
						continue
					}
				}
				for _, o := range ins.Operands(nil) {
					if h, ok := (*o).(*ssa.Function); ok {
						addr[h] = true
					}
				}
			}
		}
	}
	ok := map[*ssa.Function]bool{}
	for _, f := range roots {
		ok[f] = true
	}
	var allowed func(f *ssa.Function, depth int) bool
	allowed = func(f *ssa.Function, depth int) bool {
		if ok[f] {
			return true
		}
		if depth == 0 || addr[f] || len(callers[f]) == 0 {
			return false
		}
		for _, g := range callers[f] {
			if g != f && !allowed(g, depth-1) {
				return false
			}
		}
		return true
	}
	for _, f := range p.fns {
		if f.Blocks == nil || f.Synthetic != "" {
			continue
		}
		win, er := x.touches(f)
		if win {
			r.ob(allowed(f, 4), "only", p.short(f), p.pos(f.Pos()), "it uses the window of the lexer besides reading and unreading bytes")
		}
		if er && !win {
			r.ob(x.errOnly(f), "only", p.short(f)+": error", p.pos(f.Pos()), "what is done depends on the error of the reader, which may come with the last bytes or after them")
		}
		// other readers of streams in what parses
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Read" || f.Pkg == nil || f.Pkg.Pkg != p.root {
					continue
				}
				r.ob(allowed(f, 4), "only", p.short(f)+": Read", p.insPos(ins), "a stream is read without regard to how many bytes are returned")
			}
		}
	}
}

// errOnly: the error is returned, or cleared.
func (x *refill) errOnly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok || !x.is(fieldVar(fa), x.err) {
				continue
			}
			for _, u := range *fa.Referrers() {
				switch l := u.(type) {
				case *ssa.Store:
				case *ssa.UnOp:
					for _, w := range *l.Referrers() {
						switch w.(type) {
						case *ssa.Return, *ssa.DebugRef:
						default:
							return false
						}
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

var _ = fmt.Sprint
