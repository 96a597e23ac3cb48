package main

// C11: the framing of nodes in the binary form. The writer and the reader are
// each followed as an automaton: what is appended to the output, and what is
// read from the stream, must come in the order of the format, with lengths and
// contents that agree.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = func(r *Report) {
		p := r.p
		r.rule("writer", "a node is written as its level, then its content, as it is if it has no zero byte and does not begin with 1, else as 1 and chunks preceded by their lengths, from 1 to 0xfffffff, that together are the content, and then a zero; its children follow, one level deeper")
		r.rule("document", "a document is the header, the nodes from level 1, and a zero")
		r.rule("reader", "a node is read as its level, then either 1 and chunks of exactly the announced lengths until a length of zero, or text until a zero byte, and what is returned is each byte of the content once, in order, with its level and kind")
		r.rule("delivered", "each node that is read is added to the tree once, with its content in the form it was sent, at its level")
		var encs, decs []*ssa.Function
		for _, f := range p.fns {
			if f.Blocks == nil || f.Parent() != nil {
				continue
			}
			sh := shape(f)
			if f.Signature.Recv() == nil && (sh == "int -> []byte" || sh == "[]byte int -> []byte") && bitwise(f) {
				encs = append(encs, f)
			}
			if p.recvNamed(f, "binParser") && (sh == "-> int" || sh == "-> int bool" || sh == "-> int error") && (bitwise(f) || p.readsBytes(f)) {
				decs = append(decs, f)
			}
		}
		if len(encs) != 1 || len(decs) != 1 {
			r.ob(false, "writer", "instances", "", "the variable integers are not found")
			return
		}
		x := &framing{r: r, p: p, enc: encs[0], dec: decs[0]}
		for _, f := range p.fns {
			if f.Blocks == nil || f.Parent() != nil || f.Signature.Recv() == nil {
				continue
			}
			switch {
			case x.recursive(f) && isRecvGraph(p, f) && leadsTo(f, x.enc, 4):
				x.nodes = append(x.nodes, f)
			case p.recvNamed(f, "binParser") && x.lineShape(f) && leadsTo(f, x.dec, 2):
				x.lines = append(x.lines, f)
			}
		}
		for _, f := range p.fns {
			if f.Blocks == nil || f.Parent() != nil {
				continue
			}
			if p.graphMethod(f, "", "-> []byte") && !x.isNode(f) && x.usesNode(f) {
				x.docs = append(x.docs, f)
			}
			if p.recvNamed(f, "binParser") && shape(f) == "-> *"+p.root.Path()+".Graph" {
				x.parses = append(x.parses, f)
			}
		}
		for _, f := range x.nodes {
			r.saw(f)
			x.writer(f, false)
		}
		for _, f := range x.docs {
			r.saw(f)
			x.writer(f, true)
		}
		for _, f := range x.lines {
			r.saw(f)
			x.reader(f)
		}
		for _, f := range x.parses {
			r.saw(f)
			x.parse(f)
		}
		for what, n := range map[string]int{"writer": len(x.nodes), "document": len(x.docs), "reader": len(x.lines), "delivered": len(x.parses)} {
			r.ob(n > 0, what, "instances", "", "none is found")
		}
		r.floor("writer", 6)
		r.floor("document", 3)
		r.floor("reader", 8)
		r.floor("delivered", 3)
		r.assume = []string{"variable integers decode to what was encoded (C10)", "trees are less than 0xfffffff levels deep"}
	}
}

type framing struct {
	r                          *Report
	p                          *Prog
	enc, dec                   *ssa.Function
	nodes, docs, lines, parses []*ssa.Function
}

func isRecvGraph(p *Prog, f *ssa.Function) bool { return p.recvNamed(f, "Graph") }

func (x *framing) recursive(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && (g == f || g != x.enc && x.p.isFn[g] && g.Blocks != nil && calls(g, f)) {
					return true
				}
			}
		}
	}
	return false
}

func (x *framing) isNode(f *ssa.Function) bool {
	for _, g := range x.nodes {
		if g == f {
			return true
		}
	}
	return false
}

func (x *framing) usesNode(f *ssa.Function) bool {
	for _, g := range x.nodes {
		if leadsTo(f, g, 2) {
			return true
		}
	}
	return false
}

func (x *framing) lineShape(f *ssa.Function) bool {
	rs := f.Signature.Results()
	n := map[string]int{}
	for i := 0; i < rs.Len(); i++ {
		n[rs.At(i).Type().String()]++
	}
	return n["int"] == 1 && n["bool"] == 1 && n["[]byte"] == 1
}

const maxVar = 0xfffffff

// writer follows the function that writes a node, or the document.
func (x *framing) writer(root *ssa.Function, doc bool) {
	p, r := x.p, x.r
	m := newModeRun(r, root)
	name := p.short(root)
	rule := "writer"
	if doc {
		rule = "document"
	}
	// one piece of the output
	bytesPut := func(s *State, ins ssa.Instruction, v Val) {
		g := s.gh
		bad := ""
		st := g.tags["st"]
		c, isC := int64(-1), false
		if v.k == KInt {
			for _, w := range []int64{0, 1, 'G'} {
				if s.prove(&Cond{op: CEq, l: v.lin.addK(-w)}) {
					c, isC = w, true
				}
			}
		}
		switch {
		case !isC:
			bad = "a byte that is not known is written"
		case doc && st == "" && c == 1:
			g.tags["st"] = "head1"
		case doc && st == "head1" && c == 'G':
			g.tags["st"] = "headG"
		case doc && st == "headG" && c == 0:
			g.tags["st"] = "idle"
		case doc && st == "idle" && c == 0:
			g.tags["st"] = "end"
		case st == "level" && c == 1:
			g.tags["st"] = "bin"
		case st == "text" && c == 0:
			g.tags["st"] = "idle"
			g.tags["wrote"] = "yes"
		case st == "bin" && c == 0:
			if !s.gh.has("rest") || !s.prove(&Cond{op: CEq, l: g.ints["off"].add(s.lenOf(g.refs["rest"]), -1)}) {
				bad = "the content may end before all of it is written"
			}
			g.tags["st"] = "idle"
			g.tags["wrote"] = "yes"
		default:
			bad = fmt.Sprintf("a byte %d is written where it does not belong (%s)", c, st)
		}
		m.ob(s, bad == "", rule, name+": byte", p.insPos(ins), bad)
	}
	varint := func(s *State, ins ssa.Instruction, v Val) {
		g := s.gh
		bad := ""
		switch st := g.tags["st"]; {
		case !doc && st == "idle" && g.tags["wrote"] == "":
			if l, ok := g.ints["level"]; !ok || v.k != KInt || !s.prove(&Cond{op: CEq, l: v.lin.add(l, -1)}) {
				bad = "a level that is not that of the node is written"
			}
			g.tags["st"] = "level"
		case st == "bin":
			switch {
			case v.k != KInt:
				bad = "a length that is not known is written"
			case !s.prove(le(linC(1), v.lin)):
				bad = "a length that may be zero is written, which ends the content"
			case !s.prove(le(v.lin, linC(maxVar))):
				bad = "a length that may be too high to be encoded is written"
			}
			if v.k == KInt {
				g.ints["len"] = v.lin
			}
			g.tags["st"] = "length"
		default:
			bad = "an integer is written where it does not belong (" + st + ")"
		}
		m.ob(s, bad == "", rule, name+": integer", p.insPos(ins), bad)
	}
	// what is known of the first byte, before what follows forgets it
	note := func(s *State) {
		if e, ok := s.gh.refs["rest"]; ok && s.gh.tags["zero"] != "yes" && s.prove(&Cond{op: CEq, l: s.gh.ints["off"]}) && s.notOne(e) {
			s.gh.tags["first"] = "no"
		}
	}
	content := func(s *State, ins ssa.Instruction, v Val, elems map[int64]Val) {
		g := s.gh
		if e, ok := elems[0]; ok && e.k == KInt && g.tags["st"] == "level" && s.prove((&Cond{op: CEq, l: e.lin.addK(-1)}).not()) {
			g.tags["first"] = "no"
		}
		bad := ""
		rest, has := g.refs["rest"]
		// which part of the rest it is
		var lo, hi *Lin
		if has && v.id == rest.id {
			lo, hi = linC(0), s.lenOf(rest)
		} else if t := s.fact(v.id).term; has && t != nil && t.op == "slice" && t.args[0].k == KRef && t.args[0].id == rest.id {
			lo, hi = t.args[1].lin, t.args[2].lin
		} else if t != nil && (t.op == "string" || t.op == "bytes") && has && t.args[0].k == KRef && t.args[0].id == rest.id {
			lo, hi = linC(0), s.lenOf(rest)
		}
		switch st := g.tags["st"]; {
		case lo == nil:
			bad = "something that is not the content of the node is written"
		case st == "level":
			switch {
			case !s.prove(&Cond{op: CEq, l: lo}) || !s.prove(&Cond{op: CEq, l: g.ints["off"]}) || !s.prove(&Cond{op: CEq, l: hi.add(s.lenOf(rest), -1)}):
				bad = "only a part of the content is written as text"
			case g.tags["zero"] != "no":
				bad = "a content that may have a zero byte is written as text"
			case g.tags["first"] != "no":
				bad = "a content that may begin with 1 is written as text"
			}
			g.tags["st"] = "text"
		case st == "length":
			switch n := g.ints["len"]; {
			case !s.prove(&Cond{op: CEq, l: lo.add(g.ints["off"], -1)}):
				bad = "a chunk does not begin where the last one ended"
			case !s.prove(&Cond{op: CEq, l: hi.add(lo, -1).add(n, -1)}):
				bad = "a chunk may not be of the length that was written"
			}
			g.ints["off"] = hi
			g.tags["st"] = "bin"
		default:
			bad = "content is written where it does not belong (" + st + ")"
		}
		m.ob(s, bad == "", rule, name+": content", p.insPos(ins), bad)
	}
	piece := func(s *State, ins ssa.Instruction, y Val, elems map[int64]Val) {
		if v, ok := s.memoOf(y, "varint"); ok {
			varint(s, ins, v)
			return
		}
		if l := s.lenOf(y); l.isConst() && int64(len(elems)) == l.c && l.c > 0 {
			for i := int64(0); i < l.c; i++ {
				bytesPut(s, ins, elems[i])
			}
			return
		}
		content(s, ins, y, elems)
	}
	small := func(fn *ssa.Function) bool {
		sg := fn.Signature
		if fn.Blocks == nil || fn == x.enc || x.isNode(fn) || sg.Recv() != nil && !leadsTo(fn, x.enc, 2) && !x.usesNode(fn) {
			return false
		}
		for i := 0; i < sg.Params().Len(); i++ {
			if isByteSlice(sg.Params().At(i).Type()) {
				return true
			}
		}
		return leadsTo(fn, x.enc, 2) || x.usesNode(fn)
	}
	m.run(&Mode{name: "frame", terms: true, parts: 2000, noGC: true, paths: true, loopPaths: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["off"] = linC(0)
			if !doc {
				g.tags["st"] = "idle"
			}
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) <= 5 && small(fn) },
		entry: func(s *State, fn *ssa.Function) {
			if fn != root || len(s.frames) > 2 {
				return
			}
			for _, q := range root.Params {
				v := s.top().env[q]
				switch {
				case isByteSlice(q.Type()):
					s.gh.refs["buf"] = v
				case v.k == KInt && isIntegerT(q.Type()):
					s.gh.ints["level"] = v.lin
					s.z.assumeLe(linC(1).add(v.lin, -1))
					s.z.assumeLe(v.lin.addK(-maxVar))
					if id, ok := v.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
					}
				}
			}
			if doc {
				s.gh.refs["buf"] = s.zero(types.NewSlice(types.Typ[types.Byte]))
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) { delete(s.gh.tags, "path") },
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if n, ok := pathIndex(ptr.path); ok && doc && n < 16 && v.k == KInt {
				s.gh.ints[fmt.Sprintf("h%d.%d", ptr.id, n)] = v.lin
			}
		},
		sliced: func(s *State, ins ssa.Instruction, v Val, lo, hi *Lin, res Val) {
			if e, ok := s.gh.refs["rest"]; ok && v.k == KRef && e.id == v.id && s.prove(&Cond{op: CEq, l: lo.add(s.gh.ints["off"], -1)}) &&
				s.prove(&Cond{op: CEq, l: hi.add(s.lenOf(v), -1)}) && s.prove(le(linC(1), lo)) {
				s.gh.refs["rest"] = res
				s.gh.ints["off"] = linC(0)
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			full := c.fn.RelString(nil)
			g := s.gh
			note(s)
			switch {
			case c.fn == x.enc:
				if len(c.args) == 2 {
					// it adds to the buffer
					b, ok := g.refs["buf"]
					m.ob(s, ok && c.args[0].k == KRef && b.id == c.args[0].id, rule, name+": buffer", p.insPos(ins), "it is added to something else than what was written before")
					varint(s, ins, c.args[1])
					out := s.skip(ins, c)
					for _, e := range out {
						e.s.gh.refs["buf"] = e.v
					}
					return out, true
				}
				out := s.skip(ins, c)
				for _, e := range out {
					if e.v.k == KRef {
						e.s.setMemo(e.v.id, "varint", c.args[0])
					}
				}
				return out, true
			case x.isNode(c.fn):
				bad := ""
				var lv, buf Val
				for _, a := range c.args {
					switch {
					case a.k == KInt:
						lv = a
					case a.k == KRef && s.fact(a.id).typ != nil && isByteSlice(s.fact(a.id).typ):
						buf = a
					}
				}
				b, ok := g.refs["buf"]
				want := linC(1)
				if !doc {
					want = g.ints["level"]
					if g.tags["wrote"] == "yes" {
						want = want.addK(1)
					}
				} else {
					s.headBytes(bytesPut, ins, buf)
				}
				switch {
				case g.tags["st"] != "idle":
					bad = "a node is written in the middle of something (" + g.tags["st"] + ")"
				case lv.k != KInt || !s.prove(&Cond{op: CEq, l: lv.lin.add(want, -1)}):
					bad = "it is not written at the level that follows"
				case doc:
				case !ok || buf.k != KRef || buf.id != b.id:
					bad = "it is added to something else than what was written before"
				}
				m.ob(s, bad == "", rule, name+": node", p.insPos(ins), bad)
				out := s.skip(ins, c)
				for _, e := range out {
					e.s.gh.refs["buf"] = e.v
				}
				return out, true
			case full == "bytes.IndexByte" || full == "bytes.ContainsRune" || full == "bytes.IndexRune" || full == "bytes.Contains" || full == "bytes.Index":
				e, ok := g.refs["rest"]
				if !ok || c.args[0].k != KRef || c.args[0].id != e.id || !s.isZeroArg(c.args[1]) || g.tags["zero"] != "" || !s.prove(&Cond{op: CEq, l: g.ints["off"]}) {
					return nil, false
				}
				t := s.clone()
				s.gh.tags["zero"], t.gh.tags["zero"] = "no", "yes"
				if strings.HasPrefix(full, "bytes.Index") {
					return []exitSt{{s, vInt(linC(-1)), true}, {t, t.freshRange(types.Typ[types.Int], 0, posInf), true}}, true
				}
				return []exitSt{{s, vBool(condFalse), true}, {t, vBool(condTrue), true}}, true
			}
			if x.p.isFn[c.fn] && !small(c.fn) {
				out := s.skip(ins, c)
				sg := c.fn.Signature
				if sg.Results().Len() == 1 && isByteSlice(sg.Results().At(0).Type()) && !g.has("rest") && len(c.args) == 1 {
					for _, e := range out {
						e.s.gh.refs["rest"] = e.v
					}
				}
				return out, true
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, a, y Val, elems map[int64]Val, res Val) {
			v, ok := ins.(ssa.Value)
			if !ok || !isByteSlice(v.Type()) || a.k != KRef {
				return
			}
			b, has := s.gh.refs["buf"]
			if doc && s.gh.tags["st"] == "" {
				s.headBytes(bytesPut, ins, a)
			} else {
				m.ob(s, has && a.id == b.id, rule, name+": buffer", p.insPos(ins), "it is added to something else than what was written before")
			}
			piece(s, ins, y, elems)
			s.gh.refs["buf"] = res
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 {
				return
			}
			b, has := s.gh.refs["buf"]
			st := s.gh.tags["st"]
			bad := ""
			switch {
			case doc && s.nilness(v) == 1 && st == "":
				return
			case doc && st != "end":
				bad = "the document may not be complete (" + st + ")"
			case !doc && st != "idle":
				bad = "the node may not be complete (" + st + ")"
			case !has || v.k != KRef || v.id != b.id:
				bad = "something else than what was written is returned"
			case !doc && s.gh.tags["wrote"] == "" && s.gh.has("rest") && !s.prove(&Cond{op: CEq, l: s.lenOf(s.gh.refs["rest"])}):
				bad = "a node with content may not be written"
			case !doc && s.gh.tags["wrote"] == "" && !s.gh.has("rest") && p.readsThis(root):
				bad = "the content is not looked at"
			}
			m.ob(s, bad == "", rule, name+": end", p.pos(root.Pos()), bad)
		},
	})
}

// headBytes: what is in a buffer before anything is added.
func (s *State) headBytes(put func(*State, ssa.Instruction, Val), ins ssa.Instruction, buf Val) {
	if s.gh.tags["st"] != "" || buf.k != KRef {
		return
	}
	l := s.lenOf(buf)
	if !l.isConst() || l.c > 16 {
		return
	}
	for i := int64(0); i < l.c; i++ {
		v := vInt(linC(0)) // as it was made
		ids := []VID{buf.id}
		if t := s.fact(buf.id).term; t != nil && t.op == "slice" && (t.args[0].k == KPtr || t.args[0].k == KRef) {
			ids = append(ids, t.args[0].id)
		}
		for _, id := range ids {
			if l, ok := s.gh.ints[fmt.Sprintf("h%d.%d", id, i)]; ok {
				v = vInt(l)
			}
		}
		put(s, ins, v)
	}
}

// notOne: the first byte is not 1.
func (s *State) notOne(b Val) bool {
	c, ok := s.cells[cellKey{b.id, "[0]"}]
	return ok && c.v.k == KInt && s.prove((&Cond{op: CEq, l: c.v.lin.addK(-1)}).not())
}

// isZeroArg: a zero byte, or a list of one.
func (s *State) isZeroArg(v Val) bool {
	if v.k == KInt {
		return s.prove(&Cond{op: CEq, l: v.lin})
	}
	if v.k == KRef {
		if f := s.fact(v.id); f.str != nil {
			return *f.str == "\x00"
		}
		c, ok := s.cells[cellKey{v.id, "[0]"}]
		l := s.lenOf(v)
		return ok && l.isConst() && l.c == 1 && c.v.k == KInt && s.prove(&Cond{op: CEq, l: c.v.lin})
	}
	return false
}

func (x *framing) isReader(f *ssa.Function) bool {
	if f == nil || f == x.dec || !x.p.recvNamed(f, "binParser") || f.Blocks == nil {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.At(0).Type().String() != "int" || f.Signature.Params().Len() != 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil && g.RelString(nil) == "(*bufio.Reader).ReadByte" {
					return true
				}
			}
		}
	}
	return false
}

// reader follows the function that reads a node.
func (x *framing) reader(root *ssa.Function) {
	p, r := x.p, x.r
	m := newModeRun(r, root)
	name := p.short(root)
	// whether contents are wanted
	wanted := func(s *State) bool {
		for _, q := range root.Params {
			if isBoolT(q.Type()) {
				v := s.gh.refs["want"]
				_ = v
				if c, ok := s.frames[1].env[q]; ok && c.k == KBool {
					return s.quick(c.cond) >= 0
				}
				return s.gh.tags["want"] != "no"
			}
		}
		return true
	}
	ob := func(s *State, ins ssa.Instruction, what, bad string) {
		pos := p.pos(root.Pos())
		if ins != nil {
			pos = p.insPos(ins)
		}
		m.ob(s, bad == "", "reader", name+": "+what, pos, bad)
	}
	// settle decides what the last byte was, now that something else happens
	settle := func(s *State) string {
		g := s.gh
		c := g.ints["c"]
		switch g.tags["st"] {
		case "data", "textc":
			if wanted(s) && g.tags["put"] != "yes" {
				return "a byte of the content may be left out"
			}
			low := int64(0)
			if g.tags["st"] == "textc" {
				low = 1
			}
			if !s.prove(le(linC(low), c)) {
				return "it may go on after the end"
			}
		case "first":
			// text of at least a byte, that is not 1
			if !s.prove(le(linC(1), c)) {
				return "it may go on after the end of an empty text"
			}
			if !s.prove((&Cond{op: CEq, l: c.addK(-1)}).not()) {
				return "a content that begins with 1 may be taken for text"
			}
			if wanted(s) && g.tags["put"] != "yes" {
				return "the first byte of a text may be left out"
			}
		}
		return ""
	}
	put := func(s *State, ins ssa.Instruction, v Val) {
		g := s.gh
		bad := ""
		c, ok := g.ints["c"]
		switch st := g.tags["st"]; {
		case st != "data" && st != "textc" && st != "first":
			bad = "a byte is kept where there is none (" + st + ")"
		case g.tags["put"] == "yes":
			bad = "a byte is kept twice"
		case !ok || v.k != KInt || !s.prove(&Cond{op: CEq, l: v.lin.add(c, -1)}):
			bad = "what is kept is not the byte that was read"
		case st == "data" && !s.prove(le(linC(0), c)), st != "data" && !s.prove(le(linC(1), c)):
			bad = "the end may be kept as content"
		}
		g.tags["put"] = "yes"
		ob(s, ins, "content", bad)
	}
	read := func(s *State, ins ssa.Instruction) Val {
		g := s.gh
		bad := settle(s)
		switch st := g.tags["st"]; st {
		case "level":
			g.tags["st"] = "first"
			if l, ok := g.ints["level"]; !ok || !s.prove(le(linC(1), l)) {
				bad = "the content is read after a level that may be the end"
			}
		case "first", "textc":
			g.tags["st"] = "textc"
		case "length", "data":
			if !s.prove(le(linC(1), g.ints["left"])) && !s.prove(le(g.ints["got"].addK(1), g.ints["n"])) {
				bad = "more bytes may be read than were announced"
			}
			g.ints["left"], g.ints["got"] = g.ints["left"].addK(-1), g.ints["got"].addK(1)
			g.tags["st"] = "data"
		default:
			bad = "a byte is read where it does not belong (" + st + ")"
		}
		v := s.freshRange(types.Typ[types.Int], -1, 255)
		g.ints["c"] = v.lin
		delete(g.tags, "put")
		ob(s, ins, "byte", bad)
		return v
	}
	varint := func(s *State, ins ssa.Instruction) Val {
		g := s.gh
		bad := ""
		v := s.freshRange(types.Typ[types.Int], -(1 << 40), 1<<40)
		switch st := g.tags["st"]; st {
		case "":
			g.tags["st"] = "level"
			g.ints["level"] = v.lin
		case "first":
			if !s.prove(&Cond{op: CEq, l: g.ints["c"].addK(-1)}) {
				bad = "a length is read though the content may not begin with 1"
			}
			if g.tags["put"] == "yes" {
				bad = "the mark of a binary content is kept"
			}
			g.tags["st"] = "length"
			g.ints["left"], g.ints["n"], g.ints["got"] = v.lin, v.lin, linC(0)
		case "length", "data":
			bad = settle(s)
			if !s.prove(&Cond{op: CEq, l: g.ints["left"]}) && !s.prove(&Cond{op: CEq, l: g.ints["n"].add(g.ints["got"], -1)}) {
				bad = "fewer bytes may be read than were announced"
			} else if !s.prove(le(linC(1), g.ints["n"])) {
				bad = "it may go on after a length of zero"
			}
			g.tags["st"] = "length"
			g.ints["left"], g.ints["n"], g.ints["got"] = v.lin, v.lin, linC(0)
		default:
			bad = "a length is read where it does not belong (" + st + ")"
		}
		delete(g.tags, "put")
		ob(s, ins, "integer", bad)
		return v
	}
	m.run(&Mode{name: "unframe", terms: true, parts: 2000, noGC: true, paths: true, loopPaths: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			for _, n := range []string{"level", "left", "n", "c", "got"} {
				g.ints[n] = linC(0)
			}
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return len(s.frames) <= 4 && fn != x.dec && !x.isReader(fn) && (leadsTo(fn, x.dec, 2) || p.readsBytes(fn))
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != root || len(s.frames) > 2 {
				return
			}
			for _, q := range root.Params {
				if v := s.top().env[q]; v.k == KBool && isBoolT(q.Type()) {
					s.gh.refs["want"] = v
				}
			}
		},
		back: func(s *State, head, from *ssa.BasicBlock) { delete(s.gh.tags, "path") },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			switch full := c.fn.RelString(nil); {
			case c.fn == x.dec:
				s.havoc(s.a.modsOf(c.fn))
				return x.one(s, c, varint(s, ins)), true
			case x.isReader(c.fn):
				s.havoc(s.a.modsOf(c.fn))
				return x.one(s, c, read(s, ins)), true
			case full == "(*bytes.Buffer).WriteByte":
				put(s, ins, c.args[1])
				return nil, false
			case strings.HasPrefix(full, "(*bytes.Buffer).Write"), strings.HasPrefix(full, "(*bytes.Buffer).Truncate"), strings.HasPrefix(full, "(*bytes.Buffer).Reset"), strings.HasPrefix(full, "(*bytes.Buffer).Read"):
				ob(s, ins, "content", "what is kept of the content is changed in a way that is not followed")
				return nil, false
			case full == "(*bytes.Buffer).Bytes":
				out := s.a.results(s, c)
				for _, e := range out {
					if e.v.k == KRef {
						e.s.setMemo(e.v.id, "content", vInt(linC(1)))
					}
				}
				return out, true
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, a, y Val, elems map[int64]Val, res Val) {
			v, ok := ins.(ssa.Value)
			if !ok || !isByteSlice(v.Type()) || a.k != KRef {
				return
			}
			if l := s.lenOf(y); !l.isConst() || l.c != 1 || len(elems) != 1 {
				ob(s, ins, "content", "more than a byte is kept at a time")
				return
			}
			put(s, ins, elems[0])
			s.setMemo(res.id, "content", vInt(linC(1)))
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || v.k != KTuple {
				return
			}
			g := s.gh
			var level, bin, content Val
			for _, e := range v.elts {
				switch e.k {
				case KInt:
					level = e
				case KBool:
					bin = e
				case KRef:
					content = e
				}
			}
			kind := 0
			if bin.k == KBool {
				kind = s.quick(bin.cond)
			}
			lv := level.k == KInt && s.prove(&Cond{op: CEq, l: level.lin.add(g.ints["level"], -1)})
			c := g.ints["c"]
			bad := ""
			_, kept := s.memoOf(content, "content")
			if l := s.lenOf(content); content.k == KRef && s.prove(&Cond{op: CEq, l: l}) {
				kept = kept || g.tags["st"] != "data" && g.tags["st"] != "textc"
			}
			switch st := g.tags["st"]; {
			case st == "level":
				if level.k != KInt || !s.prove(le(level.lin, linC(0))) || !s.prove(le(g.ints["level"], linC(0))) {
					bad = "it may stop before the content"
				}
				ob(s, nil, "end", bad)
				return
			case !lv:
				bad = "a level that is not the one that was read is returned"
			case !kept && wanted(s):
				bad = "something else than what was read is returned"
			case st == "first":
				switch {
				case !s.prove(le(c, linC(0))):
					bad = "it may stop at the beginning of the content"
				case kind >= 0:
					bad = "an empty text is returned as binary"
				}
			case st == "textc":
				switch {
				case g.tags["put"] == "yes" || !s.prove(le(c, linC(0))):
					bad = "a text may be returned before its end"
				case kind >= 0:
					bad = "a text is returned as binary"
				}
			case st == "length" || st == "data":
				switch {
				case kind <= 0:
					bad = "a binary content is returned as text"
				case st == "length" && !s.prove(le(g.ints["n"], linC(0))):
					bad = "it may stop before the bytes that were announced"
				case st == "data" && (g.tags["put"] == "yes" || !s.prove(le(c, linC(-1)))):
					bad = "it may stop before the end of the content"
				}
			default:
				bad = "nothing is read (" + st + ")"
			}
			ob(s, nil, "end", bad)
		},
	})
}

// one: the results of a call whose first result is known.
func (x *framing) one(s *State, c *callInfo, v Val) []exitSt {
	rs := c.fn.Signature.Results()
	if rs.Len() == 1 {
		return ret(s, v)
	}
	t := []Val{v}
	for i := 1; i < rs.Len(); i++ {
		t = append(t, s.fresh(rs.At(i).Type()))
	}
	return ret(s, tuple(t...))
}

func (x *framing) isLine(f *ssa.Function) bool {
	for _, g := range x.lines {
		if f == g {
			return true
		}
	}
	return false
}

// parse follows the function that builds the tree.
func (x *framing) parse(root *ssa.Function) {
	p, r := x.p, x.r
	m := newModeRun(r, root)
	name := p.short(root)
	ob := func(s *State, ins ssa.Instruction, what, bad string) {
		pos := p.pos(root.Pos())
		if ins != nil {
			pos = p.insPos(ins)
		}
		m.ob(s, bad == "", "delivered", name+": "+what, pos, bad)
	}
	m.run(&Mode{name: "deliver", terms: true, parts: 2000, noGC: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["level"] = linC(0)
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool {
			return len(s.frames) <= 4 && !x.isLine(fn) && p.recvNamed(fn, "binParser") && leadsTo(fn, x.lines[0], 2)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g := s.gh
			switch {
			case x.isLine(c.fn):
				bad := ""
				if g.tags["node"] == "yes" {
					bad = "a node that was read may not be added"
				}
				for i, a := range c.args {
					if a.k == KBool && isBoolT(c.fn.Params[i].Type()) && s.quick(a.cond) <= 0 {
						bad = "the content is not asked for"
					}
				}
				ob(s, ins, "read", bad)
				s.havoc(s.a.modsOf(c.fn))
				// the end, a text, or a binary content
				var out []exitSt
				rs := c.fn.Signature.Results()
				for _, k := range []string{"end", "text", "bin"} {
					t := s.clone()
					var l []Val
					for i := 0; i < rs.Len(); i++ {
						v := t.fresh(rs.At(i).Type())
						switch {
						case v.k == KBool:
							v = vBool(condFalse)
							if k == "bin" {
								v = vBool(condTrue)
							}
						case v.k == KInt:
							v = t.freshRange(types.Typ[types.Int], 1, 1<<40)
							if k == "end" {
								v = vInt(linC(0))
							}
							t.gh.ints["level"] = v.lin
						case v.k == KRef:
							t.gh.refs["content"] = v
						}
						l = append(l, v)
					}
					t.gh.tags["kind"] = k
					t.gh.tags["node"] = "yes"
					if k == "end" {
						t.gh.tags["node"] = "end"
					}
					out = append(out, exitSt{t, tuple(l...), true})
				}
				return out, true
			case p.recvNamed(c.fn, "SimpleEventHandler"):
				sg := c.fn.Signature
				if sg.Params().Len() == 0 {
					return s.skip(ins, c), true
				}
				bad := ""
				if g.tags["node"] != "yes" {
					bad = "something is added that is not a node that was read, or twice"
				}
				lv := false
				for i := 1; i < len(c.args); i++ {
					a := c.args[i]
					switch t := c.fn.Params[i].Type(); {
					case a.k == KInt:
						lv = s.prove(&Cond{op: CEq, l: a.lin.addK(1).add(g.ints["level"], -1)})
					case isIface(t):
						f := s.fact(a.id)
						if f.dyn == nil || f.pay == nil || !x.contentIs(s, *f.pay, f.dyn) {
							bad = "what is added is not the content, in the form it was sent"
						}
					default:
						if !x.contentIs(s, a, t) {
							bad = "what is added is not the content, in the form it was sent"
						}
					}
				}
				if bad == "" && !lv {
					bad = "it is not added at its level"
				}
				g.tags["node"] = "added"
				ob(s, ins, "add", bad)
				return s.skip(ins, c), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 || s.nilness(v) == 1 && s.gh.tags["node"] == "" {
				return
			}
			bad := ""
			if s.gh.tags["node"] != "end" {
				bad = "it may stop before the end"
			}
			ob(s, nil, "end", bad)
		},
	})
}

// contentIs: the content that was read, as text or bytes as it was sent.
func (x *framing) contentIs(s *State, v Val, t types.Type) bool {
	c, ok := s.gh.refs["content"]
	if !ok || v.k != KRef {
		return false
	}
	if s.gh.tags["kind"] == "bin" {
		return isByteSlice(t) && v.id == c.id
	}
	w := s.fact(v.id).term
	return isStrT(t) && w != nil && w.op == "string" && w.args[0].k == KRef && w.args[0].id == c.id
}

// readsThis: f, or what it calls and does not call it, reads the content of a node.
func (p *Prog) readsThis(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && isGraphT(fa.X.Type()) {
					if st := structOf(deref(fa.X.Type())); st != nil && st.Field(fa.Field).Name() == "This" {
						return true
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil && p.isFn[h] && !p.reach([]*ssa.Function{h})[f] && walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}
