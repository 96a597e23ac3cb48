package main

// C05, the second half: decoding does not loop once the stream has ended. Each
// loop that reads is followed with what is known of the stream (whether a read
// has failed) next to the values of the program.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// after so many iterations that read nothing, or that begin after the end of
// the stream, the loop is taken not to stop.
const endsMax = 8

type ends struct {
	p    *Prog
	r    *Report
	memo map[*ssa.Function]bool
}

func isStreamT(t types.Type) bool {
	switch t.String() {
	case "*bufio.Reader", "io.Reader", "*os.File", "*bytes.Reader", "*bytes.Buffer", "*strings.Reader", "io.ByteReader", "net.Conn",
		"io.ReadCloser", "io.ReadSeeker", "*bufio.ReadWriter", "*io.LimitedReader", "io.RuneReader", "io.ByteScanner":
		return true
	}
	return false
}

// read: a call that takes bytes from a stream.
func (x *ends) read(c *ssa.CallCommon) bool {
	name := ""
	var recv types.Type
	if c.IsInvoke() {
		name, recv = c.Method.Name(), c.Value.Type()
	} else {
		f := c.StaticCallee()
		if f == nil || x.p.isFn[f] {
			return false
		}
		name = f.Name()
		if f.Signature.Recv() != nil {
			recv = f.Signature.Recv().Type()
		}
	}
	if recv != nil {
		switch name {
		case "Read", "ReadByte", "ReadRune", "ReadBytes", "ReadString", "ReadSlice", "ReadLine", "Discard", "Next":
			return isStreamT(recv)
		}
		return false
	}
	f := c.StaticCallee()
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() + "." + name {
	case "io.ReadFull", "io.ReadAtLeast", "io.CopyN", "encoding/binary.ReadUvarint", "encoding/binary.ReadVarint", "encoding/binary.Read":
		return true
	}
	return false
}

// moves: a call that changes the position in a stream without reading.
func (x *ends) moves(c *ssa.CallCommon) bool {
	n := ""
	if c.IsInvoke() {
		n = c.Method.Name()
	} else if f := c.StaticCallee(); f != nil && !x.p.isFn[f] && f.Signature.Recv() != nil {
		n = f.Name()
	}
	return n == "Seek" || n == "UnreadByte" || n == "UnreadRune"
}

func (x *ends) reads(f *ssa.Function) bool {
	if v, ok := x.memo[f]; ok {
		return v
	}
	x.memo[f] = false
	for _, b := range f.Blocks {
		if x.blockReads(b) {
			x.memo[f] = true
			break
		}
	}
	return x.memo[f]
}

func (x *ends) blockReads(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		c, ok := ins.(ssa.CallInstruction)
		if !ok {
			continue
		}
		if x.read(c.Common()) || x.moves(c.Common()) {
			return true
		}
		for _, g := range x.p.calleesOf(c.Common()) {
			if x.p.isFn[g] && x.reads(g) {
				return true
			}
		}
	}
	return false
}

func (x *ends) loops(f *ssa.Function) []*loopInfo {
	var r []*loopInfo
	for _, b := range f.Blocks {
		if l := x.p.fi(f).loops[b]; l != nil {
			for k := range l.body {
				if x.blockReads(k) {
					r = append(r, l)
					break
				}
			}
		}
	}
	return r
}

// counted: the loop has a number that changes by the same amount each time, and
// a test of it that leaves.
func counted(l *loopInfo) bool {
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		step := false
		for i, p := range l.head.Preds {
			if l.body[p] {
				b, ok := ph.Edges[i].(*ssa.BinOp)
				if !ok {
					step = false
					break
				}
				_, k := b.Y.(*ssa.Const)
				step = k && b.X == ph
			}
		}
		if !step {
			continue
		}
		for _, u := range *ph.Referrers() {
			cmp, ok := u.(*ssa.BinOp)
			if !ok || !l.body[cmp.Block()] {
				continue
			}
			for _, v := range *cmp.Referrers() {
				if i, ok := v.(*ssa.If); ok && (!l.body[i.Block().Succs[0]] || !l.body[i.Block().Succs[1]]) {
					return true
				}
			}
		}
	}
	return false
}

func (x *ends) pos(l *loopInfo) string {
	for _, ins := range l.head.Instrs {
		if ins.Pos().IsValid() {
			return x.p.insPos(ins)
		}
	}
	for _, b := range l.head.Succs {
		for _, ins := range b.Instrs {
			if l.body[b] && ins.Pos().IsValid() {
				return x.p.insPos(ins)
			}
		}
	}
	return x.p.pos(l.head.Parent().Pos())
}

func endsRule(r *Report, roots []*ssa.Function) {
	p := r.p
	r.rule("ends", "a loop that reads from the stream is left once a read has failed, and does not go on without reading")
	x := &ends{p: p, r: r, memo: map[*ssa.Function]bool{}}
	n := 0
	in := p.reach(roots)
	for _, f := range p.fns {
		if !in[f] || len(x.loops(f)) == 0 {
			continue
		}
		n++
		x.run(f)
	}
	r.ob(n > 0, "ends", "instances", "", "no loop that reads is found")
}

func (x *ends) run(root *ssa.Function) {
	p := x.p
	m := newModeRun(x.r, root)
	x.r.saw(root)
	name := func(fn *ssa.Function, l *loopInfo) string { return fmt.Sprintf("%s.%d", fn.Name(), l.head.Index) }
	num := func(g *Ghost, k string) int { n, _ := strconv.Atoi(g.tags[k]); return n }
	ate := func(s *State) {
		for k := range s.gh.tags {
			if strings.HasPrefix(k, "ate:") {
				s.gh.tags[k] = "yes"
			}
		}
	}
	m.run(&Mode{name: "ends", terms: true, parts: 600, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.tags["end"] = "no"
			return g
		},
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) <= 8 && x.reads(fn) },
		edge: func(s *State, fi *fnInfo, from, to *ssa.BasicBlock) {
			g := s.gh
			if g == nil {
				return
			}
			for _, l := range x.loops(fi.fn) {
				pos := x.pos(l)
				n := name(fi.fn, l)
				switch {
				case l.body[from] && !l.body[to]:
					for _, k := range []string{"start:", "ate:", "idle:", "aft:"} {
						delete(g.tags, k+n)
					}
				case to != l.head:
				case !l.body[from]:
					g.tags["start:"+n], g.tags["ate:"+n], g.tags["idle:"+n], g.tags["aft:"+n] = g.tags["end"], "no", "0", "0"
				default:
					what := "loop of " + p.short(fi.fn)
					bad := ""
					if g.tags["end"] == "yes" {
						if g.tags["start:"+n] == "yes" {
							if k := num(g, "aft:"+n); k >= endsMax {
								bad = "it goes on after the stream has ended"
							} else {
								g.tags["aft:"+n] = strconv.Itoa(k + 1)
							}
						}
						g.tags["start:"+n] = "yes"
						g.tags["idle:"+n] = "0"
					} else if g.tags["ate:"+n] == "no" {
						if k := num(g, "idle:"+n); k >= endsMax {
							if !counted(l) {
								bad = "it can go on without reading"
							}
						} else {
							g.tags["idle:"+n] = strconv.Itoa(k + 1)
						}
					} else {
						g.tags["idle:"+n] = "0"
					}
					g.tags["ate:"+n] = "no"
					m.ob(s, bad == "", "ends", what, pos, bad)
				}
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			g := s.gh
			if c.fn != nil && p.isFn[c.fn] && x.reads(c.fn) && len(s.frames) > 8 {
				m.ob(s, false, "ends", "depth", p.insPos(ins), "the functions that read are nested too deep")
				return nil, false
			}
			if c.com.IsInvoke() && c.com.Method.Name() == "Seek" || c.fn != nil && strings.HasSuffix(c.fn.RelString(nil), ").Seek") {
				g.tags["end"] = "no"
				return nil, false
			}
			if c.fn != nil && strings.HasPrefix(c.fn.Name(), "Unread") && !p.isFn[c.fn] {
				for k := range g.tags {
					if strings.HasPrefix(k, "ate:") {
						g.tags[k] = "no"
					}
				}
				return nil, false
			}
			if !x.read(c.com) {
				return nil, false
			}
			// nothing may have been asked for
			var out []exitSt
			for i, a := range c.args {
				if !c.com.IsInvoke() && i == 0 && c.com.Signature().Recv() != nil {
					continue
				}
				var l *Lin
				if t := argType(c, i); a.k == KInt && (t.String() == "int" || t.String() == "int64") {
					l = a.lin
				} else if a.k == KRef && isByteSlice(t) {
					l = s.lenOf(a)
				}
				if l == nil {
					continue
				}
				for _, t := range s.clone().assume(le(l, linC(0)), true) {
					out = append(out, x.outcome(t, ins, c, true, true)...)
				}
				if t := s.assume(le(l, linC(0)), false); len(t) != 1 {
					return out, true
				} else {
					s = t[0]
				}
			}
			t := s.clone()
			t.gh.tags["end"] = "yes"
			out = append(out, x.outcome(t, ins, c, false, false)...)
			if s.gh.tags["end"] == "no" {
				ate(s)
				out = append(out, x.outcome(s, ins, c, true, false)...)
			}
			return out, true
		},
	})
}

func argType(c *callInfo, i int) types.Type {
	if c.com.IsInvoke() {
		i-- // the receiver comes first
		if i < 0 {
			return c.com.Value.Type()
		}
	}
	if i < len(c.com.Args) {
		return c.com.Args[i].Type()
	}
	return types.Typ[types.Invalid]
}

// outcome of a read: everything that was asked for, or an error.
func (x *ends) outcome(s *State, ins ssa.Instruction, c *callInfo, ok, none bool) []exitSt {
	s.a.extEffects(s, ins, c)
	t, _ := c.typ.(*types.Tuple)
	if t == nil {
		return ret(s, s.fresh(c.typ))
	}
	v := Val{k: KTuple}
	for i := 0; i < t.Len(); i++ {
		y := t.At(i).Type()
		if isErrorT(y) {
			v.elts = append(v.elts, s.errVal(ok))
			continue
		}
		e := s.fresh(y)
		name := ""
		if c.com.IsInvoke() {
			name = c.com.Method.Name()
		} else if c.fn != nil {
			name = c.fn.Name()
		}
		if e.k == KInt && y.String() == "int" && (name == "Read" || name == "ReadFull" || name == "ReadAtLeast") {
			lo := linC(0)
			if ok && !none {
				lo = linC(1)
			}
			if name == "ReadFull" && ok {
				for j, a := range c.args {
					if isByteSlice(argType(c, j)) && a.k == KRef {
						e = vInt(s.lenOf(a))
					}
				}
			} else {
				s.z.assumeLe(lo.add(e.lin, -1))
				for j, a := range c.args {
					if isByteSlice(argType(c, j)) && a.k == KRef {
						s.z.assumeLe(e.lin.add(s.lenOf(a), -1))
					}
				}
			}
		} else if name == "ReadByte" && !ok && e.k == KInt {
			e = vInt(linC(0))
		}
		v.elts = append(v.elts, e)
	}
	if t.Len() == 1 {
		return ret(s, v.elts[0])
	}
	return ret(s, v)
}
