package main

// C06, C08, C09: the productions of the parsers, followed over a tape. Ghost
// counters hold how far a production has read since it began, and how far the
// stream goes; each production gets a summary of how it can end: with which
// results, having consumed something or not, and for which first bytes. The
// summaries of productions that use each other are computed together.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tkey struct {
	fn  *ssa.Function
	run bool // the integer parameter is the number of spaces that follow
}

type tcase struct {
	out   string // the results: T F for bool, n e for error, * for others
	prog  bool   // something is consumed
	end   bool   // it began at the end of the stream
	past  bool   // the end of the stream has been read
	first bset   // the bytes that it can begin with
}

type tsum struct {
	cases map[string]*tcase
	cnt   map[int]bool // results that are the number of bytes consumed
}

type tape struct {
	r                                *Report
	p                                *Prog
	byteFn, unread, runeFn, unreadRn *ssa.Function
	space                            *ssa.Function
	scan                             map[*ssa.Function]bool
	rec                              map[*ssa.Function]bool
	reads                            map[*ssa.Function]bool
	sums                             map[tkey]*tsum
	want                             map[tkey]bool
	neg                              map[*ssa.Function]bool // may be called with a negative number
	edges                            map[tkey]map[tkey]string
	changed                          bool
	m                                *modeRun
	cur                              tkey
	prop                             string
	level, evField                   *types.Var
	exported                         bool
}

func newTape(r *Report, prop string) *tape {
	p := r.p
	x := &tape{r: r, p: p, prop: prop, scan: map[*ssa.Function]bool{}, rec: map[*ssa.Function]bool{}, reads: map[*ssa.Function]bool{}, sums: map[tkey]*tsum{},
		want: map[tkey]bool{}, neg: map[*ssa.Function]bool{}, edges: map[tkey]map[tkey]string{}}
	x.byteFn, x.unread = p.method("Lexer", "Byte"), p.method("Lexer", "UnreadByte")
	x.runeFn, x.unreadRn = p.method("Lexer", "Rune"), p.method("Lexer", "UnreadRune")
	if x.byteFn == nil || x.unread == nil || x.runeFn == nil || x.unreadRn == nil || p.method("Parser", "Ogdl") == nil {
		return nil
	}
	prim := map[*ssa.Function]bool{x.byteFn: true, x.unread: true, x.runeFn: true, x.unreadRn: true}
	// what reads: has a lexer or a parser, and leads to reading a byte
	cand := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		if f.Blocks == nil || prim[f] || f.Synthetic != "" {
			continue
		}
		for _, q := range f.Params {
			if isNamedPtr(q.Type(), p.root.Path(), "Lexer") || isNamedPtr(q.Type(), p.root.Path(), "Parser") {
				cand[f] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f := range cand {
			if x.scan[f] {
				continue
			}
			for _, g := range callees(f) {
				if prim[g] || x.scan[g] {
					x.scan[f] = true
					ch = true
				}
			}
		}
	}
	for f := range x.scan {
		x.reads[f] = x.reaches(f, x.byteFn, map[*ssa.Function]bool{}) || x.reaches(f, x.runeFn, map[*ssa.Function]bool{})
		if x.reaches(f, f, map[*ssa.Function]bool{}) {
			x.rec[f] = true
		}
	}
	for _, f := range p.fns {
		if x.scan[f] && p.recvNamed(f, "Lexer") && shape(f) == "-> int byte" {
			x.space = f
		}
	}
	if st := structOf(deref(p.method("Parser", "Ogdl").Signature.Recv().Type())); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if isNamedPtr(st.Field(i).Type(), p.root.Path(), "SimpleEventHandler") {
				x.evField = st.Field(i)
			}
		}
	}
	if f := p.method("SimpleEventHandler", "Level"); f != nil {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					x.level = fieldVar(fa)
				}
			}
		}
	}
	return x
}

func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func (x *tape) reaches(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	for _, h := range callees(f) {
		if h == g {
			return true
		}
		if x.scan[h] && !seen[h] {
			seen[h] = true
			if x.reaches(h, g, seen) {
				return true
			}
		}
	}
	return false
}

func (x *tape) sorted() []*ssa.Function {
	var l []*ssa.Function
	for f := range x.scan {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return x.p.short(l[i]) < x.p.short(l[j]) })
	return l
}

// solve computes the summaries.
func (x *tape) solve() {
	for _, f := range x.sorted() {
		if f.Object() != nil && f.Object().Exported() {
			x.want[tkey{f, false}] = true
		}
	}
	for n := 0; n < 40; n++ {
		x.changed = false
		x.edges = map[tkey]map[tkey]string{}
		var ks []tkey
		for k := range x.want {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			a, b := x.p.short(ks[i].fn), x.p.short(ks[j].fn)
			return a < b || a == b && !ks[i].run && ks[j].run
		})
		for _, k := range ks {
			x.one(k, nil)
		}
		if !x.changed && len(ks) == len(x.want) {
			x.r.extra["rounds"] = n + 1
			return
		}
	}
	x.r.ob(false, "analysis", "summaries", "", "the summaries of the productions do not stabilise")
}

// one runs a production from each way it can begin.
func (x *tape) one(k tkey, m *modeRun) {
	if x.sums[k] == nil {
		x.sums[k] = &tsum{cases: map[string]*tcase{}, cnt: map[int]bool{}}
		rs := k.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isIntegerT(rs.At(i).Type()) && rs.At(i).Type().String() == "int" {
				x.sums[k].cnt[i] = true
			}
		}
		x.changed = true
	}
	x.cur = k
	for _, past := range []bool{false, true} {
		if past && k.run {
			continue
		}
		x.m = m
		mr := m
		if mr == nil {
			mr = newModeRun(x.r, k.fn)
			mr.quiet = true
		}
		mr.hold = true
		x.m = mr
		x.runTape(mr, k, past)
	}
}

// intParam: the parameter that counts spaces.
func intParam(f *ssa.Function) int {
	n := -1
	for i, q := range f.Params {
		if q.Type().String() == "int" {
			if n >= 0 {
				return -1
			}
			n = i
		}
	}
	return n
}

func (x *tape) eq(s *State, a, b *Lin) bool { return s.prove(&Cond{op: CEq, l: a.add(b, -1)}) }

var windowKeys = []string{"w-2", "w-1", "w0", "w1", "w2"}

func clearWindow(g *Ghost) {
	for _, k := range windowKeys {
		delete(g.ints, k)
	}
}

func shiftWindow(g *Ghost, by int) {
	old := map[string]*Lin{}
	for _, k := range windowKeys {
		if l, ok := g.ints[k]; ok {
			old[k] = l
		}
	}
	clearWindow(g)
	for i := range windowKeys {
		if j := i + by; j >= 0 && j < len(windowKeys) {
			if l, ok := old[windowKeys[j]]; ok {
				g.ints[windowKeys[i]] = l
			}
		}
	}
}

// nm: what, of a function that may not be the production itself.
func (x *tape) nm(f *ssa.Function, what string) string {
	if f == x.cur.fn {
		return what
	}
	return x.p.short(f) + ": " + what
}

// moved notes since which points something has been consumed.
func (x *tape) moved(s *State) {
	g := s.gh
	for _, k := range sortedKeys(g.ints) {
		if strings.HasPrefix(k, "h:") {
			if x.after(s, k[2:]) {
				g.tags["m:"+k[2:]] = "yes"
			} else {
				g.tags["m:"+k[2:]] = ""
			}
		}
	}
}

// after: more has been consumed than when the mark was set.
func (x *tape) after(s *State, n string) bool {
	g := s.gh
	return s.prove(le(g.ints["h:"+n].addK(1), g.ints["pos"])) || s.prove(le(g.ints["z:h:"+n].addK(1), g.ints["z:pos"]))
}

// more: at least n bytes have been consumed.
func (x *tape) more(s *State, n int64) bool {
	return s.prove(le(linC(n), s.gh.ints["pos"])) || s.prove(le(linC(n), s.gh.ints["z:pos"]))
}

// mark sets a mark.
func (x *tape) mark(g *Ghost, n string) {
	g.ints["h:"+n], g.ints["z:h:"+n] = g.ints["pos"], g.ints["z:pos"]
	g.tags["m:"+n] = ""
}

// step moves the position.
func (x *tape) step(s *State, d *Lin) {
	g := s.gh
	g.ints["pos"] = g.ints["pos"].add(d, 1)
	z := g.ints["z:pos"]
	if d.isConst() {
		g.ints["z:pos"] = z.addK(d.c)
		return
	}
	w := s.freshRange(types.Typ[types.Int], -1<<40, 1<<40).lin
	if lo := s.z.lb_(d); lo != negInf {
		s.z.assumeLe(z.addK(lo).add(w, -1))
	}
	if hi := s.z.ub_(d); hi != posInf {
		s.z.assumeLe(w.addK(-hi).add(z, -1))
	}
	s.z.assumeLe(w.add(g.ints["E"], -1))
	g.ints["z:pos"] = w
}

// begin notes what the first byte is, if nothing has been read yet.
func (x *tape) begin(s *State, c *Lin) {
	g := s.gh
	if g.tags["first"] != "" || !s.prove(&Cond{op: CEq, l: g.ints["pos"]}) {
		return
	}
	if c == nil {
		g.tags["first"] = "eos"
		return
	}
	g.tags["first"] = "byte"
	g.ints["f0"] = c
}

// next gives the states in which a byte follows, with the byte, and the one at the end.
func (x *tape) next(s *State) (in *State, c Val, end *State) {
	g := s.gh
	if g.tags["past"] == "yes" {
		x.begin(s, nil)
		return nil, Val{}, s
	}
	t := s.clone()
	for _, u := range t.assume(le(t.gh.ints["E"], t.gh.ints["pos"]), true) {
		if !u.z.bad {
			u.gh.tags["past"] = "yes"
			x.begin(u, nil)
			end = u
		}
	}
	for _, u := range s.assume(le(g.ints["pos"].addK(1), g.ints["E"]), true) {
		if u.z.bad {
			continue
		}
		in = u
		if l, ok := u.gh.ints["w0"]; ok {
			c = vInt(l)
		} else {
			c = u.fresh(types.Typ[types.Byte])
			u.gh.ints["w0"] = c.lin
		}
		x.begin(u, c.lin)
	}
	return
}

func (x *tape) advance(s *State) {
	shiftWindow(s.gh, 1)
	x.step(s, linC(1))
	x.moved(s)
}

func (x *tape) back(s *State) {
	g := s.gh
	if g.tags["past"] == "yes" {
		g.tags["past"] = ""
		return
	}
	shiftWindow(g, -1)
	x.step(s, linC(-1))
	x.pending(s, "unread")
	x.moved(s)
}

func (x *tape) readByte(s *State, ins ssa.Instruction) []exitSt {
	delete(s.gh.tags, "rune")
	in, c, end := x.next(s)
	var out []exitSt
	if in != nil {
		in.gh.ints["lc"], in.gh.ints["lsz"] = c.lin, linC(1)
		x.advance(in)
		x.pending(in, "read")
		out = append(out, exitSt{in, tuple(c, in.errVal(true)), true})
	}
	if end != nil {
		delete(end.gh.ints, "lc")
		out = append(out, exitSt{end, tuple(vInt(linC(0)), end.errVal(false)), true})
	}
	return out
}

func (x *tape) readRune(s *State, ins ssa.Instruction) []exitSt {
	in, c, end := x.next(s)
	var out []exitSt
	if end != nil {
		end.gh.tags["rune"] = "eos"
		delete(end.gh.ints, "lc")
		out = append(out, exitSt{end, tuple(vInt(linC(0)), end.errVal(false)), true})
	}
	if in == nil {
		return out
	}
	for k := 0; k < 3; k++ {
		u := in.clone()
		sts := u.assume(le(c.lin, linC(127)), k == 0)
		for _, t := range sts {
			if t.z.bad {
				continue
			}
			if k == 0 {
				t.gh.tags["rune"] = "1"
				t.gh.ints["lc"], t.gh.ints["lsz"] = c.lin, linC(1)
				x.advance(t)
				x.pending(t, "read")
				out = append(out, exitSt{t, tuple(c, t.errVal(true)), true})
				continue
			}
			g := t.gh
			v := vInt(linC(0xfffd))
			size := t.freshRange(types.Typ[types.Int], 1, 3)
			if k == 1 {
				v = t.freshRange(types.Typ[types.Rune], 128, 0x10ffff)
				size = t.freshRange(types.Typ[types.Int], 2, 4)
			}
			t.z.assumeLe(g.ints["pos"].add(size.lin, 1).add(g.ints["E"], -1))
			if t.z.bad {
				continue
			}
			g.tags["rune"] = "n"
			g.ints["rs"], g.ints["rw"] = size.lin, c.lin
			g.ints["lc"], g.ints["lsz"] = v.lin, size.lin
			clearWindow(g)
			x.step(t, size.lin)
			x.pending(t, "read")
			x.moved(t)
			out = append(out, exitSt{t, tuple(v, t.errVal(true)), true})
		}
	}
	return out
}

func (x *tape) unreadRune(s *State, ins ssa.Instruction) []exitSt {
	g := s.gh
	switch g.tags["rune"] {
	case "eos", "1":
		x.back(s)
	case "n":
		if g.tags["past"] == "yes" {
			g.tags["past"] = ""
		}
		clearWindow(g)
		x.step(s, g.ints["rs"].mul(-1))
		x.pending(s, "unread")
		g.ints["w0"] = g.ints["rw"]
		x.moved(s)
	default:
		x.note(s, ins, "unread", "", "it may unread a rune that is not the last thing that was read")
		clearWindow(g)
		g.ints["pos"] = s.freshRange(types.Typ[types.Int], -1<<40, 1<<40).lin
		g.ints["z:pos"] = g.ints["pos"]
	}
	delete(g.tags, "rune")
	return ret(s, s.errVal(true))
}

// note reports a failure that is not about one property only.
func (x *tape) note(s *State, ins ssa.Instruction, rule, what, bad string) {
	pos := x.p.pos(x.cur.fn.Pos())
	if ins != nil {
		pos = x.p.insPos(ins)
	}
	x.m.ob(s, bad == "", rule, x.nm(x.cur.fn, what), pos, bad)
}

func (x *tape) lev(s *State) (Val, bool) {
	ev, ok := s.gh.refs["ev"]
	if !ok || x.level == nil {
		return Val{}, false
	}
	pv := s.asPtr(ev)
	pv.path += "." + x.level.Name()
	pv.fld = x.level
	return pv, true
}

// plainBuf: a buffer to which only single characters are written.
func plainBuf(al *ssa.Alloc) bool {
	t := deref(al.Type()).String()
	if t != "bytes.Buffer" && t != "strings.Builder" || al.Block() != al.Parent().Blocks[0] {
		return false
	}
	for _, u := range *al.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		c, ok := u.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(al) {
			return false
		}
		switch c.Call.StaticCallee().Name() {
		case "WriteByte", "WriteRune", "Len", "String", "Bytes":
		default:
			return false
		}
	}
	return true
}

// bufKey: the call is of a method of such a buffer.
func bufKey(root *ssa.Function, ins ssa.Instruction) string {
	if c, ok := ins.(*ssa.Call); ok && ins.Parent() == root && len(c.Call.Args) > 0 {
		if al, ok := c.Call.Args[0].(*ssa.Alloc); ok && plainBuf(al) {
			return "buf:" + al.Name()
		}
	}
	return ""
}

// inlined: the call of a production is followed instead of summarised.
func (x *tape) inlined(s *State, fn *ssa.Function) bool {
	if len(s.frames) > 7 {
		return false
	}
	hidden := fn.Object() == nil || !fn.Object().Exported()
	if x.rec[fn] {
		if !hidden || len(x.p.fi(fn).loops) > 0 || len(s.frames) > 4 {
			return false
		}
		for _, f := range s.frames {
			if f.fn == fn {
				return false
			}
		}
		return true
	}
	if len(x.p.fi(fn).loops) == 0 || !x.reads[fn] {
		return true
	}
	for _, q := range fn.Params {
		if _, ok := q.Type().Underlying().(*types.Signature); ok && hidden {
			return true
		}
	}
	return false
}

// contract applies the summary of a production.
func (x *tape) contract(s *State, ins ssa.Instruction, c *callInfo) []exitSt {
	g := s.gh
	k := tkey{c.fn, false}
	if i := intParam(c.fn); i >= 0 && i < len(c.args) && c.args[i].k == KInt {
		a := c.args[i].lin
		if ra, ok := g.ints["ra"]; ok && x.eq(s, ra, g.ints["pos"]) && x.eq(s, g.ints["rl"], a) && s.prove(le(linC(1), a)) && g.tags["past"] != "yes" {
			k.run = true
		}
		if !c.fn.Object().Exported() && !x.neg[c.fn] && !s.prove(le(linC(0), a)) {
			x.neg[c.fn] = true
			x.changed = true
		}
	}
	kind := "zero"
	if x.more(s, 1) {
		kind = "progress"
	} else if !x.more(s, 0) {
		kind = "back"
	}
	if x.edges[x.cur] == nil {
		x.edges[x.cur] = map[tkey]string{}
	}
	if o := x.edges[x.cur][k]; o == "" || kind != "progress" {
		x.edges[x.cur][k] = kind
	}
	x.pending(s, "many")
	x.want[k] = true
	sum := x.sums[k]
	if sum == nil {
		return []exitSt{}
	}
	same := false
	if ra, ok := g.ints["ra"]; ok && c.fn == x.space && x.eq(s, ra, g.ints["pos"]) {
		same = true
	}
	var lv Val
	lp, hasLev := x.lev(s)
	if hasLev {
		lv = s.load(lp, x.level.Type())
	}
	var out []exitSt
	for _, n := range sortedKeys(sum.cases) {
		cs := sum.cases[n]
		t := s.clone()
		h := t.gh
		if cs.end {
			if h.tags["past"] != "yes" {
				sts := t.assume(le(h.ints["E"], h.ints["pos"]), true)
				if len(sts) == 0 || sts[0].z.bad {
					continue
				}
				t = sts[0]
				h = t.gh
			}
			x.begin(t, nil)
		} else {
			if h.tags["past"] == "yes" {
				continue
			}
			sts := t.assume(le(h.ints["pos"].addK(1), h.ints["E"]), true)
			if len(sts) == 0 || sts[0].z.bad {
				continue
			}
			t = sts[0]
			h = t.gh
			w, ok := h.ints["w0"]
			if !ok {
				w = t.fresh(types.Typ[types.Byte]).lin
				h.ints["w0"] = w
			}
			if !x.within(t, w, &cs.first) {
				continue
			}
			x.begin(t, w)
		}
		for _, a := range c.args {
			t.escape(a)
		}
		t.havoc(t.a.modsOf(c.fn))
		if hasLev {
			t.setCell(lp, lv, x.level.Type())
			if pr, ok := g.refs["par"]; ok && x.fixed() {
				pv, ft := x.evPtr(t, pr)
				t.setCell(pv, g.refs["ev"], ft)
			}
		}
		delete(h.tags, "rune")
		delete(h.ints, "lc")
		from := h.ints["pos"]
		if same {
			// as many as before
			cond := le(linC(1), h.ints["rl"])
			sts := t.assume(cond, cs.prog)
			if len(sts) == 0 || sts[0].z.bad {
				continue
			}
			t = sts[0]
			h = t.gh
		}
		if cs.prog {
			d := t.freshRange(types.Typ[types.Int], 1, 1<<40).lin
			if same {
				d = h.ints["rl"]
			}
			clearWindow(h)
			x.step(t, d)
			t.z.assumeLe(h.ints["pos"].add(h.ints["E"], -1))
			if t.z.bad {
				continue
			}
		}
		h.tags["past"] = ""
		if cs.past {
			h.tags["past"] = "yes"
			t.z.assumeLe(h.ints["E"].add(h.ints["pos"], -1))
			if t.z.bad {
				continue
			}
		}
		x.moved(t)
		rs := c.fn.Signature.Results()
		var vs []Val
		for i := 0; i < rs.Len(); i++ {
			var v Val
			switch cs.out[i] {
			case 'T':
				v = vBool(condTrue)
			case 'F':
				v = vBool(condFalse)
			case 'n', 'e':
				v = t.errVal(cs.out[i] == 'n')
				if cs.out[i] == 'e' {
					h.tags["broken"] = "yes"
				}
			default:
				v = t.fresh(rs.At(i).Type())
				if sum.cnt[i] {
					v = vInt(h.ints["pos"].add(from, -1))
				}
			}
			vs = append(vs, v)
		}
		if c.fn == x.space {
			h.ints["ra"], h.ints["rl"] = from, h.ints["pos"].add(from, -1)
		}
		switch len(vs) {
		case 0:
			out = append(out, exitSt{t, Val{}, false})
		case 1:
			out = append(out, exitSt{t, vs[0], true})
		default:
			out = append(out, exitSt{t, tuple(vs...), true})
		}
	}
	if out == nil {
		out = []exitSt{}
	}
	return out
}

// within: a byte is one of a set.
func (x *tape) within(s *State, l *Lin, set *bset) bool {
	if l.isConst() {
		return l.c >= 0 && l.c < 256 && set.has(int(l.c))
	}
	id, ok := l.single()
	if !ok {
		return true
	}
	if s.fact(id).bs == nil {
		return true
	}
	return s.refineBytes(id, set, true)
}

func loopName(fn *ssa.Function, l *loopInfo) string {
	return fmt.Sprintf("%s.%d", fn.Name(), l.head.Index)
}

// size of a value that can rank a loop.
func (s *State) size(v Val) *Lin {
	switch v.k {
	case KInt:
		return v.lin
	case KRef:
		if t := s.fact(v.id).typ; t != nil {
			if isStrT(t) {
				return s.lenOf(v)
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				return s.lenOf(v)
			}
		}
	}
	return nil
}

func (x *tape) edge(s *State, fi *fnInfo, from, to *ssa.BasicBlock) {
	g := s.gh
	if g == nil || len(fi.loops) == 0 {
		return
	}
	for _, l := range fi.loops {
		n := loopName(fi.fn, l)
		in := l.body[from]
		if in && !l.body[to] {
			delete(g.ints, "h:"+n)
			delete(g.ints, "z:h:"+n)
			delete(g.tags, "m:"+n)
			delete(g.tags, "b:"+n)
			for _, k := range sortedKeys(g.ints) {
				if strings.HasPrefix(k, "v:"+n+":") {
					delete(g.ints, k)
				}
			}
			continue
		}
		if to != l.head {
			continue
		}
		if in {
			ok := false
			if _, has := g.ints["h:"+n]; has {
				ok = x.after(s, n)
			}
			// one iteration that achieves nothing is allowed, if none such
			// can follow it
			switch {
			case ok:
				g.tags["b:"+n] = ""
			case x.ranked(s, fi, l, n):
				ok = true
			case g.tags["b:"+n] == "":
				g.tags["b:"+n] = "idle"
				ok = true
			}
			bad := ""
			if !ok {
				bad = "an iteration may consume nothing of the stream, and nothing else is seen to come to an end"
			}
			pos := x.p.pos(fi.fn.Pos())
			for _, i := range l.head.Instrs {
				if i.Pos().IsValid() {
					pos = x.p.insPos(i)
					break
				}
			}
			if x.prop == "C06" {
				x.m.ob(s, bad == "", "loops", x.nm(fi.fn, "loop"), pos, bad)
			}
		}
		if !in {
			g.tags["b:"+n] = ""
		}
		x.mark(g, n)
		for _, i := range l.head.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				if v, ok := s.top().env[ph]; ok {
					if z := s.size(v); z != nil {
						g.ints["v:"+n+":"+ph.Name()] = z
					}
				}
			}
		}
	}
}

// ranked: something other than the stream comes to an end.
func (x *tape) ranked(s *State, fi *fnInfo, l *loopInfo, n string) bool {
	for b := range l.body {
		for _, i := range b.Instrs {
			if nx, ok := i.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok && !l.body[r.Block()] {
					return true
				}
			}
		}
	}
	for _, i := range l.head.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		old, has := s.gh.ints["v:"+n+":"+ph.Name()]
		v, ok := s.top().env[ph]
		if !has || !ok {
			continue
		}
		now := s.size(v)
		if now == nil {
			continue
		}
		if s.prove(le(now.addK(1), old)) && s.z.lb_(old) != negInf {
			return true
		}
		if s.prove(le(old.addK(1), now)) {
			if s.z.ub_(old) != posInf {
				return true
			}
			for w, e := range s.top().env {
				if d, ok := w.(ssa.Instruction); ok && l.body[d.Block()] {
					continue
				}
				if z := s.size(e); z != nil && s.prove(le(old, z)) {
					return true
				}
			}
		}
	}
	return false
}

func (x *tape) runTape(m *modeRun, k tkey, past bool) {
	root := k.fn
	p := x.p
	verb := x.verbatim(root)
	m.run(&Mode{name: "tape", terms: true, sums: true, parts: 4000, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["pos"], g.ints["z:pos"], g.ints["n"] = linC(0), linC(0), linC(0)
			x.mark(g, "e")
			g.tags["m:e"], g.tags["first"], g.tags["past"] = "", "", ""
			g.tags["kept"] = "ok"
			if verb {
				g.tags["pend"] = ""
			}
			if past {
				g.tags["past"], g.tags["past0"] = "yes", "yes"
				g.ints["E"] = linC(0)
			}
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != root || len(s.frames) > 2 {
				return
			}
			g := s.gh
			if !past {
				g.ints["E"] = s.freshRange(types.Typ[types.Int], 0, 1<<40).lin
			}
			g.refs["tok"] = s.zero(types.NewSlice(types.Typ[types.Byte]))
			for _, i := range root.Blocks[0].Instrs {
				if al, ok := i.(*ssa.Alloc); ok && plainBuf(al) {
					g.ints["buf:"+al.Name()], g.tags["buf"] = linC(0), ""
				}
			}
			for _, q := range root.Params {
				if isNamedPtr(q.Type(), p.root.Path(), "Parser") {
					if v, ok := x.handler(s, s.top().env[q]); ok {
						g.refs["ev"], g.refs["par"] = v, s.top().env[q]
						if lp, ok := x.lev(s); ok {
							l := s.load(lp, x.level.Type())
							if id, ok := l.lin.single(); ok {
								s.upd(id, func(f *Fact) { f.full = false })
							}
							s.z.assumeLe(l.lin.mul(-1))
							g.ints["l0"] = l.lin
						}
					}
				}
			}
			if i := intParam(root); i >= 0 && root.Object() != nil && !root.Object().Exported() {
				if v := s.top().env[root.Params[i]]; v.k == KInt {
					if id, ok := v.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
					}
					if !x.neg[root] {
						s.z.assumeLe(v.lin.mul(-1))
					}
					if k.run {
						s.z.assumeLe(linC(1).add(v.lin, -1))
						s.z.assumeLe(v.lin.add(g.ints["E"], -1))
						g.ints["ra"], g.ints["rl"] = linC(0), v.lin
					}
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			if fn.Blocks == nil || len(s.frames) > 7 {
				return false
			}
			if len(p.fi(fn).loops) > 0 {
				return x.scan[fn] && x.inlined(s, fn)
			}
			if x.scan[fn] {
				return x.inlined(s, fn)
			}
			if p.recvNamed(fn, "SimpleEventHandler") || p.recvNamed(fn, "Parser") || p.recvNamed(fn, "Lexer") {
				return true
			}
			return fn.Signature.Recv() == nil && p.isFn[fn] && p.fi(fn).nIns < 60
		},
		edge: func(s *State, fi *fnInfo, from, to *ssa.BasicBlock) { x.edge(s, fi, from, to) },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			switch c.fn {
			case x.byteFn:
				return x.readByte(s, ins), true
			case x.unread:
				delete(s.gh.tags, "rune")
				delete(s.gh.ints, "lc")
				x.back(s)
				return []exitSt{{s, Val{}, false}}, true
			case x.runeFn:
				return x.readRune(s, ins), true
			case x.unreadRn:
				return x.unreadRune(s, ins), true
			}
			if x.scan[c.fn] && !x.inlined(s, c.fn) {
				return x.contract(s, ins, c), true
			}
			if k := bufKey(root, ins); k != "" {
				g := s.gh
				switch c.fn.Name() {
				case "WriteByte":
					g.ints[k], g.tags["buf"] = g.ints[k].addK(1), "yes"
				case "WriteRune":
					g.tags["buf"] = "yes"
					g.ints[k] = g.ints[k].add(s.freshRange(types.Typ[types.Int], 1, 4).lin, 1)
				case "Len":
					return ret(s, vInt(g.ints[k])), true
				}
			}
			if verb {
				switch full := c.fn.RelString(nil); full {
				case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
					x.keep(s, c.args[1])
				case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
					out := s.a.results(s, c)
					for _, e := range out {
						if e.v.k == KRef {
							e.s.setMemo(e.v.id, "kept", vInt(linC(1)))
						}
					}
					return out, true
				}
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, a, y Val, elems map[int64]Val, res Val) {
			if !verb {
				return
			}
			v, ok := ins.(ssa.Value)
			if !ok {
				return
			}
			sl, ok := v.Type().Underlying().(*types.Slice)
			if !ok || !isIntegerT(sl.Elem()) {
				return
			}
			t := s.gh.refs["tok"]
			if l := s.lenOf(y); !l.isConst() || l.c != 1 || len(elems) != 1 || a.k == KRef && a.id != t.id && !s.prove(&Cond{op: CEq, l: s.lenOf(a)}) {
				if a.k == KRef && a.id != t.id {
					return // something else
				}
				s.gh.tags["kept"] = "no"
				return
			}
			x.keep(s, elems[0])
			s.gh.refs["tok"] = res
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 {
				return
			}
			x.exit(s, k, v)
		},
	})
}

// pending notes how many characters have been read and not been kept.
func (x *tape) pending(s *State, how string) {
	p, ok := s.gh.tags["pend"]
	if !ok {
		return
	}
	switch how {
	case "read":
		if p == "" {
			how = "one"
		} else {
			how = "many"
		}
	case "unread":
		if how = "many"; p == "one" {
			how = ""
		}
	}
	s.gh.tags["pend"] = how
}

func (x *tape) nonePending(s *State) bool {
	p, ok := s.gh.tags["pend"]
	return ok && p == ""
}

// keep: a character is added to the token.
func (x *tape) keep(s *State, c Val) {
	g := s.gh
	lc, ok := g.ints["lc"]
	switch {
	case !ok || c.k != KInt || !x.eq(s, lc, c.lin):
		g.tags["kept"] = "no"
	case g.tags["pend"] != "one" && !x.eq(s, g.ints["n"].add(g.ints["lsz"], 1), g.ints["pos"]):
		g.tags["kept"] = "no"
	}
	x.pending(s, "")
	g.ints["n"] = g.ints["pos"]
	delete(g.ints, "lc")
}

// evPtr: where a parser has its event handler.
func (x *tape) evPtr(s *State, v Val) (Val, types.Type) {
	if v.k != KRef && v.k != KPtr || x.evField == nil {
		return Val{}, nil
	}
	pv := s.asPtr(v)
	pv.path += "." + x.evField.Name()
	pv.fld = x.evField
	return pv, x.evField.Type()
}

// handler: the event handler of a parser.
func (x *tape) handler(s *State, v Val) (Val, bool) {
	pv, t := x.evPtr(s, v)
	if t == nil {
		return Val{}, false
	}
	e := s.load(pv, t)
	s.upd(e.id, func(f *Fact) { f.nl = 2 })
	return e, true
}

// fixed: what reads never changes the event handler of a parser.
func (x *tape) fixed() bool {
	for _, f := range x.p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVar(fa) != x.evField {
					if n, ok := st.Val.Type().(*types.Named); ok && n.Obj().Name() == "Parser" && n.Obj().Pkg() == x.p.root {
						if _, ok := st.Addr.(*ssa.Alloc); !ok {
							return false
						}
					}
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return true
}

// verbatim: productions whose text is what they consume.
func (x *tape) verbatim(f *ssa.Function) bool {
	if !x.p.recvNamed(f, "Lexer") {
		return false
	}
	switch f.Name() {
	case "String", "StringStop", "Token8", "Integer", "Operator", "TemplateText":
		return true
	}
	return false
}

func (x *tape) exit(s *State, k tkey, v Val) {
	g := s.gh
	sum := x.sums[k]
	rs := k.fn.Signature.Results()
	var vs []Val
	switch {
	case rs.Len() == 1:
		vs = []Val{v}
	case rs.Len() > 1:
		vs = v.elts
	}
	// one case per value of the bools
	type st struct {
		s   *State
		out string
	}
	sts := []st{{s, ""}}
	for i := 0; i < rs.Len(); i++ {
		var next []st
		for _, u := range sts {
			t := rs.At(i).Type()
			switch {
			case isBoolT(t) && vs[i].k == KBool:
				for _, w := range []bool{true, false} {
					for _, z := range u.s.clone().assume(vs[i].cond, w) {
						if z.z.bad {
							continue
						}
						c := "F"
						if w {
							c = "T"
						}
						next = append(next, st{z, u.out + c})
					}
				}
			case t.String() == "error":
				switch u.s.nilness(vs[i]) {
				case 1:
					next = append(next, st{u.s, u.out + "n"})
				case 2:
					next = append(next, st{u.s, u.out + "e"})
				default:
					next = append(next, st{u.s, u.out + "*"})
				}
			default:
				next = append(next, st{u.s, u.out + "*"})
			}
		}
		sts = next
	}
	for i := range vs {
		if sum.cnt[i] && (vs[i].k != KInt || !x.eq(s, vs[i].lin, g.ints["pos"])) {
			sum.cnt[i] = false
			x.changed = true
		}
	}
	for _, u := range sts {
		x.ended(u.s, k, u.out, vs)
	}
}

func (x *tape) ended(s *State, k tkey, out string, vs []Val) {
	g := s.gh
	sum := x.sums[k]
	pos := g.ints["pos"]
	var progs []bool
	yes := x.more(s, 1)
	if yes || !s.prove(le(pos, linC(0))) && !s.prove(le(g.ints["z:pos"], linC(0))) {
		progs = append(progs, true)
	}
	if !yes {
		progs = append(progs, false)
	}
	at := x.p.pos(k.fn.Pos())
	if !x.more(s, 0) {
		x.m.ob(s, false, "back", "back", at, "it may go back to before where it began")
	}
	var ends []bool
	if g.tags["first"] != "byte" {
		ends = append(ends, true)
	}
	if g.tags["first"] != "eos" {
		ends = append(ends, false)
	}
	for _, pr := range progs {
		for _, e := range ends {
			if e && pr {
				continue
			}
			c := &tcase{out: out, prog: pr, end: e, past: g.tags["past"] == "yes"}
			if !e {
				c.first = fullSet
				if f0, ok := g.ints["f0"]; ok && g.tags["first"] == "byte" {
					if b := s.linBytes(f0); b != nil {
						c.first = *b
					}
				}
			}
			n := fmt.Sprintf("%s %v %v %v", c.out, c.prog, c.end, c.past)
			o := sum.cases[n]
			if o == nil {
				sum.cases[n] = c
				x.changed = true
			} else if w := o.first.or(&c.first); w != o.first {
				o.first = w
				x.changed = true
			}
		}
	}
	x.judge(s, k, out, vs, progs)
}

// judge: what the properties say of how a production ends.
func (x *tape) judge(s *State, k tkey, out string, vs []Val, progs []bool) {
	g := s.gh
	at := x.p.pos(k.fn.Pos())
	switch x.prop {
	case "C09":
		lp, ok := x.lev(s)
		l0, has := g.ints["l0"]
		if !ok || !has {
			return
		}
		l := s.load(lp, x.level.Type())
		x.m.ob(s, x.eq(s, l.lin, l0), "level", "level", at, "the level may not be what it was at the beginning")
	case "C08":
		f := k.fn
		if !x.p.recvNamed(f, "Lexer") || f.Object() == nil || !f.Object().Exported() {
			return
		}
		rs := f.Signature.Results()
		moved := len(progs) != 1 || progs[0]
		over := g.tags["past"] == "yes" && g.tags["past0"] != "yes"
		last := rs.Len() - 1
		for last >= 0 && out[last] != 'T' && out[last] != 'F' {
			last--
		}
		switch {
		case strings.HasPrefix(f.Name(), "Peek"):
			x.m.ob(s, !moved && !over, "peek", "peek", at, "it may consume something")
		case shape(f) == "-> int byte" || shape(f) == "int -> int byte":
			ok := vs[0].k == KInt && x.eq(s, vs[0].lin, g.ints["pos"])
			x.m.ob(s, ok, "count", "count", at, "the number of characters that is returned may not be what was consumed")
		case last < 0:
		case out[last] == 'F':
			if strings.Contains(out, "e") || g.tags["broken"] == "yes" {
				return
			}
			x.m.ob(s, !moved && !over, "no match", "no match", at, "it may have consumed something though it did not match")
		case x.verbatim(f):
			res := Val{k: KTuple}
			for i := 0; i < rs.Len(); i++ {
				if isStrT(rs.At(i).Type()) {
					res = vs[i]
				}
			}
			bad := ""
			tok := g.refs["tok"]
			t := (*Term)(nil)
			if res.k == KRef {
				t = s.fact(res.id).term
			}
			_, memo := s.memoOf(res, "kept")
			switch {
			case g.tags["kept"] != "ok":
				bad = "something may be kept that is not what was read"
			case !x.eq(s, g.ints["n"], g.ints["pos"]) && !x.nonePending(s):
				bad = "not all that was consumed may be kept"
			case !memo && (t == nil || t.op != "string" || t.args[0].k != KRef || t.args[0].id != tok.id):
				bad = "something else than what was read is returned"
			}
			x.m.ob(s, bad == "", "text", "text", at, bad)
		}
	}
}

// acyclic: productions that call each other without consuming anything.
func (x *tape) acyclic() {
	var ks []tkey
	for k := range x.edges {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := x.p.short(ks[i].fn), x.p.short(ks[j].fn)
		return a < b || a == b && !ks[i].run && ks[j].run
	})
	var reach func(from, to tkey, seen map[tkey]bool) bool
	reach = func(from, to tkey, seen map[tkey]bool) bool {
		for k, kind := range x.edges[from] {
			if kind == "progress" || seen[k] {
				continue
			}
			if k == to {
				return true
			}
			seen[k] = true
			if reach(k, to, seen) {
				return true
			}
		}
		return false
	}
	for _, k := range ks {
		if !x.rec[k.fn] {
			continue
		}
		x.r.ob(!reach(k, k, map[tkey]bool{}), "recursion", x.p.short(k.fn)+": recursion", x.p.pos(k.fn.Pos()), "it may call itself again without anything having been consumed")
	}
}

func (x *tape) final() {
	var ks []tkey
	for k := range x.want {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := x.p.short(ks[i].fn), x.p.short(ks[j].fn)
		return a < b || a == b && !ks[i].run && ks[j].run
	})
	for _, k := range ks {
		x.r.saw(k.fn)
		m := newModeRun(x.r, k.fn)
		x.one(k, m)
		m.report()
	}
}

func init() {
	for _, id := range []string{"C06", "C08", "C09"} {
		id := id
		checks[id] = func(r *Report) {
			r.rule("back", "a production never goes back to before where it began")
			r.rule("unread", "a rune is unread only right after it was read")
			r.rule("anchors", "the constructs that the rules refer to are found")
			switch id {
			case "C06":
				r.rule("loops", "each iteration of a loop of the parsers ends with more of the stream consumed than when it began, or something else that comes to an end has become less")
				r.rule("recursion", "a production does not reach itself again without anything of the stream having been consumed")
			case "C08":
				r.rule("no match", "a production that reports that it did not match has consumed nothing")
				r.rule("text", "the text that a verbatim production returns is what it consumed, character by character")
				r.rule("count", "the number of characters that is reported is the number of characters consumed")
				r.rule("rune", "the size of a rune is noted when it is read, and unreading it goes back by that")
				r.rule("peek", "looking ahead consumes nothing")
			case "C09":
				r.rule("level", "the nesting level is at the end what it was at the beginning")
			}
			x := newTape(r, id)
			if x == nil {
				r.fail("anchors", "Lexer", "", "the reading of bytes and runes is not found")
				return
			}
			x.solve()
			x.final()
			switch id {
			case "C06":
				x.acyclic()
				r.floor("loops", 8)
				r.floor("recursion", 2)
			case "C08":
				x.runes()
				r.floor("rune", 2)
				r.floor("no match", 8)
				r.floor("text", 4)
				r.floor("count", 1)
				r.floor("peek", 1)
			case "C09":
				r.floor("level", 6)
				if x.level == nil || x.evField == nil {
					r.fail("anchors", "SimpleEventHandler", "", "the nesting level is not found")
				}
			}
			r.assume = []string{"Byte and UnreadByte move the read position by one (C07)", "what is unread is still in the window: the number of bytes that are unread in a row is not bounded here", "readers report the end of the stream at some time"}
		}
	}
}

// runes: reading a rune notes how many bytes it has, and unreading goes back by
// what was noted last.
func (x *tape) runes() {
	for _, f := range []*ssa.Function{x.runeFn, x.unreadRn} {
		f := f
		m := newModeRun(x.r, f)
		x.cur, x.m = tkey{fn: f}, m
		m.run(&Mode{name: "runes", terms: true, sums: true, parts: 400, noOb: true,
			ghost: func(fn *ssa.Function) *Ghost {
				g := newGhost()
				g.ints["pos"], g.ints["z:pos"] = linC(0), linC(0)
				g.tags["first"], g.tags["past"] = "", ""
				return g
			},
			entry: func(s *State, fn *ssa.Function) {
				if fn == f && len(s.frames) <= 2 {
					s.gh.ints["E"] = s.freshRange(types.Typ[types.Int], 0, 1<<40).lin
				}
			},
			inline: func(s *State, fn *ssa.Function) bool {
				return fn.Blocks != nil && x.p.isFn[fn] && len(s.frames) < 6
			},
			call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
				switch c.fn {
				case nil:
				case x.byteFn:
					return x.readByte(s, ins), true
				case x.unread:
					x.back(s)
					return []exitSt{{s, Val{}, false}}, true
				}
				return nil, false
			},
			loaded: func(s *State, ins ssa.Instruction, ptr, res Val) {
				if v, ok := ins.(ssa.Value); ok && f == x.unreadRn && v.Type().String() == "int" && res.k == KInt && s.gh.ints["last"] == nil {
					// what is noted is at least 1
					if id, ok := res.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
					}
					s.z.assumeLe(linC(1).add(res.lin, -1))
					s.gh.ints["last"] = res.lin
				}
			},
			appended: func(s *State, ins ssa.Instruction, a, y Val, elems map[int64]Val, res Val) {
				v, ok := ins.(ssa.Value)
				if !ok || v.Type().String() != "[]int" {
					return
				}
				s.gh.tags["noted"] = "no"
				if e, ok := elems[0]; ok && len(elems) == 1 && e.k == KInt && s.gh.ints["size"] == nil {
					s.gh.tags["noted"] = "yes"
					s.gh.ints["size"] = e.lin
				}
			},
			exit: func(s *State, fn *ssa.Function, v Val) {
				if fn != f || len(s.frames) != 2 {
					return
				}
				g := s.gh
				bad := ""
				if f == x.unreadRn {
					switch {
					case s.nilness(v) == 2:
						if !x.eq(s, g.ints["pos"], linC(0)) {
							bad = "it may go back though it reports an error"
						}
					case g.ints["last"] == nil || !x.eq(s, g.ints["pos"], g.ints["last"].mul(-1)):
						bad = "it may not go back by the size of the last rune"
					}
				} else {
					n := g.ints["pos"]
					if g.tags["past"] == "yes" {
						n = n.addK(1)
					}
					switch {
					case g.tags["noted"] != "yes":
						bad = "the size of the rune may not be noted"
					case !x.eq(s, g.ints["size"], n) || !s.prove(le(linC(1), n)):
						bad = "the size that is noted may not be what was consumed"
					}
				}
				m.ob(s, bad == "", "rune", "size", x.p.pos(f.Pos()), bad)
			},
		})
	}
}
