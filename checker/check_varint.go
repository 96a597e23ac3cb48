package main

// C10: variable integers. The encoder is followed for a symbolic integer,
// whose bits are tracked one by one through shifts, masks and conversions; the
// decoder is followed for the bytes that come out of it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bit: 0, 1, unknown, or a bit of the integer.
type bit int8

const (
	bit0 bit = -3
	bit1 bit = -2
	bitX bit = -1
)

type bvec [64]bit

// bval is a value: an integer by its bits, a list of bytes, a pointer, or nothing known.
type bval struct {
	k    byte // 'i' integer, 's' slice, 'p' pointer, 'n' nil, 't' tuple, '?' unknown
	v    bvec
	obj  int // slices: the array
	off  int
	n    int
	path string
	elts []bval
	in   bool // the integer itself
}

type bstate struct {
	lo, hi int64 // the integer is in this range
	arr    map[int][]bval
	mem    map[string]bval
	tape   []bval // bytes to read
	pos    int
	next   int
}

func (s *bstate) clone() *bstate {
	n := *s
	n.arr = map[int][]bval{}
	for k, v := range s.arr {
		n.arr[k] = append([]bval{}, v...)
	}
	n.mem = map[string]bval{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return &n
}

func bconst(c int64) bval {
	b := bval{k: 'i'}
	for i := range b.v {
		b.v[i] = bit0
		if c>>uint(i)&1 == 1 {
			b.v[i] = bit1
		}
	}
	return b
}

func bunknown() bval {
	b := bval{k: 'i'}
	for i := range b.v {
		b.v[i] = bitX
	}
	return b
}

func bitlen(h int64) int {
	n := 0
	for ; h > 0; h >>= 1 {
		n++
	}
	return n
}

// norm: the bits that the range fixes.
func (s *bstate) norm(b bval) bval {
	if b.k != 'i' || s.lo < 0 {
		return b
	}
	n := bitlen(s.hi)
	for i, x := range b.v {
		if x >= 0 && int(x) >= n {
			b.v[i] = bit0
		}
	}
	return b
}

func (s *bstate) con(b bval) (int64, bool) {
	b = s.norm(b)
	var c int64
	for i, x := range b.v {
		switch x {
		case bit1:
			c |= 1 << uint(i)
		case bit0:
		default:
			return 0, false
		}
	}
	return c, b.k == 'i'
}

// bounds of a value that is not negative.
func (s *bstate) bounds(b bval) (int64, int64, bool) {
	b = s.norm(b)
	if b.k != 'i' {
		return 0, 0, false
	}
	if c, ok := s.con(b); ok {
		return c, c, true
	}
	if b.in {
		return s.lo, s.hi, true
	}
	if b.v[63] != bit0 {
		return 0, 0, false
	}
	var lo, hi int64
	for i, x := range b.v {
		if x == bit1 {
			lo |= 1 << uint(i)
		}
		if x != bit0 {
			hi |= 1 << uint(i)
		}
	}
	return lo, hi, true
}

type bpath struct {
	s   *bstate
	res []bval
	bad string
}

// bexec follows a function; it forks where the range of the integer decides.
type bexec struct {
	p    *Prog
	n    int
	seen map[*ssa.Function]bool
}

func (e *bexec) width(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	}
	return 64, false
}

// cut: the value in a type, with its sign.
func (e *bexec) cut(b bval, t types.Type) bval {
	w, sg := e.width(t)
	if w == 0 || w == 64 {
		return b
	}
	top := bit0
	if sg {
		top = b.v[w-1]
	}
	b.in = false
	for i := w; i < 64; i++ {
		b.v[i] = top
	}
	return b
}

func (e *bexec) binop(s *bstate, op token.Token, x, y bval, t types.Type) bval {
	if x.k != 'i' || y.k != 'i' {
		return bval{k: '?'}
	}
	x, y = s.norm(x), s.norm(y)
	r := bval{k: 'i'}
	cy, yc := s.con(y)
	cx, xc := s.con(x)
	if xc && !yc && (op == token.MUL || op == token.ADD || op == token.OR || op == token.AND) {
		x, y, cx, cy, xc, yc = y, x, cy, cx, yc, xc
	}
	if xc && yc {
		switch op {
		case token.ADD:
			return e.cut(bconst(cx+cy), t)
		case token.SUB:
			return e.cut(bconst(cx-cy), t)
		case token.MUL:
			return e.cut(bconst(cx*cy), t)
		case token.QUO:
			if cy != 0 {
				return e.cut(bconst(cx/cy), t)
			}
		case token.REM:
			if cy != 0 {
				return e.cut(bconst(cx%cy), t)
			}
		}
	}
	pow := func() (int, bool) {
		if yc && cy > 0 && cy&(cy-1) == 0 {
			return bitlen(cy) - 1, true
		}
		return 0, false
	}
	shl := func(n int) bval {
		for i := range r.v {
			r.v[i] = bit0
			if i >= n {
				r.v[i] = x.v[i-n]
			}
		}
		return e.cut(r, t)
	}
	shr := func(n int) bval {
		top := x.v[63]
		if _, sg := e.width(t); !sg {
			top = bit0
		}
		for i := range r.v {
			r.v[i] = top
			if i+n < 64 {
				r.v[i] = x.v[i+n]
			}
		}
		return r
	}
	switch op {
	case token.SHL:
		if yc && cy >= 0 && cy < 64 {
			return shl(int(cy))
		}
	case token.SHR:
		if yc && cy >= 0 && cy < 64 {
			return shr(int(cy))
		}
	case token.MUL:
		if n, ok := pow(); ok {
			return shl(n)
		}
	case token.QUO:
		if n, ok := pow(); ok && x.v[63] == bit0 {
			return shr(n)
		}
	case token.REM:
		if _, ok := pow(); ok && x.v[63] == bit0 {
			return e.binop(s, token.AND, x, bconst(cy-1), t)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := range r.v {
			a, b := x.v[i], y.v[i]
			if op == token.AND_NOT {
				switch b {
				case bit0:
					b = bit1
				case bit1:
					b = bit0
				default:
					b = bitX
				}
			}
			r.v[i] = bitX
			switch {
			case op == token.XOR && a == bit0:
				r.v[i] = b
			case op == token.XOR && b == bit0:
				r.v[i] = a
			case op == token.XOR && a == b && a != bitX:
				r.v[i] = bit0
			case op == token.XOR:
			case op == token.OR && (a == bit1 || b == bit1):
				r.v[i] = bit1
			case op == token.OR && a == bit0:
				r.v[i] = b
			case op == token.OR && b == bit0:
				r.v[i] = a
			case op == token.OR && a == b:
				r.v[i] = a
			case op == token.OR:
			case a == bit0 || b == bit0:
				r.v[i] = bit0
			case a == bit1:
				r.v[i] = b
			case b == bit1:
				r.v[i] = a
			case a == b:
				r.v[i] = a
			}
		}
		return e.cut(r, t)
	case token.ADD:
		// bits that do not meet
		for i := range r.v {
			a, b := x.v[i], y.v[i]
			if a != bit0 && b != bit0 {
				return e.cut(bunknown(), t)
			}
			r.v[i] = a
			if a == bit0 {
				r.v[i] = b
			}
		}
		return e.cut(r, t)
	case token.SUB:
		// a constant that is set in the other
		if yc && cy >= 0 {
			for i := range r.v {
				r.v[i] = x.v[i]
				if y.v[i] == bit1 {
					if x.v[i] != bit1 {
						return e.cut(bunknown(), t)
					}
					r.v[i] = bit0
				}
			}
			return e.cut(r, t)
		}
	}
	return e.cut(bunknown(), t)
}

// compare: 1 true, -1 false, 0 either; and the range for which it is true, if
// the integer is compared with a constant.
func (e *bexec) compare(s *bstate, op token.Token, x, y bval) (int, *[2]int64) {
	if x.k == 'n' || y.k == 'n' {
		eq := 0
		if x.k == 'n' && y.k == 'n' {
			eq = 1
		} else if x.k == 's' || y.k == 's' || x.k == 'p' || y.k == 'p' {
			eq = -1
		}
		if op == token.NEQ {
			eq = -eq
		}
		return eq, nil
	}
	if y.in && !x.in {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		return e.compare(s, flip[op], y, x)
	}
	const big = int64(1) << 62
	if x.in {
		if c, ok := s.con(y); ok {
			lo, hi := int64(-big), int64(big)
			switch op {
			case token.LSS:
				hi = c - 1
			case token.LEQ:
				hi = c
			case token.GTR:
				lo = c + 1
			case token.GEQ:
				lo = c
			case token.EQL:
				lo, hi = c, c
			default:
				return 0, nil
			}
			switch {
			case s.lo >= lo && s.hi <= hi:
				return 1, nil
			case s.lo > hi || s.hi < lo:
				return -1, nil
			}
			return 0, &[2]int64{lo, hi}
		}
	}
	lx, hx, ok := s.bounds(x)
	ly, hy, ok2 := s.bounds(y)
	if !ok || !ok2 {
		return 0, nil
	}
	dec := func(yes, no bool) (int, *[2]int64) {
		if yes {
			return 1, nil
		}
		if no {
			return -1, nil
		}
		// the high bits of the integer decide: x is made of them
		return 0, nil
	}
	switch op {
	case token.LSS:
		return dec(hx < ly, lx >= hy)
	case token.LEQ:
		return dec(hx <= ly, lx > hy)
	case token.GTR:
		return dec(lx > hy, hx <= ly)
	case token.GEQ:
		return dec(lx >= hy, hx < ly)
	case token.EQL, token.NEQ:
		same := lx == hx && ly == hy && lx == ly
		diff := hx < ly || hy < lx
		// a bit that is 1 in one and 0 in the other
		a, b := s.norm(x), s.norm(y)
		for i := range a.v {
			if a.v[i] == bit1 && b.v[i] == bit0 || a.v[i] == bit0 && b.v[i] == bit1 {
				diff = true
			}
		}
		if op == token.NEQ {
			same, diff = diff, same
		}
		return dec(same, diff)
	}
	return 0, nil
}

func (e *bexec) run(f *ssa.Function, args []bval, s *bstate, depth int) []bpath {
	if f.Blocks == nil || depth > 6 {
		return []bpath{{s, nil, "it calls a function that is not known"}}
	}
	e.seen[f] = true
	env := map[ssa.Value]bval{}
	for i, q := range f.Params {
		env[q] = args[i]
	}
	return e.block(f, f.Blocks[0], nil, env, s, depth)
}

func (e *bexec) val(env map[ssa.Value]bval, v ssa.Value) bval {
	if c, ok := v.(*ssa.Const); ok {
		if c.IsNil() {
			return bval{k: 'n'}
		}
		if c.Value != nil && c.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.Value); ok {
				return bconst(n)
			}
		}
		if c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return bconst(1)
			}
			return bconst(0)
		}
		return bval{k: '?'}
	}
	if r, ok := env[v]; ok {
		return r
	}
	return bval{k: '?'}
}

func (e *bexec) block(f *ssa.Function, b, from *ssa.BasicBlock, env map[ssa.Value]bval, s *bstate, depth int) []bpath {
	e.n++
	if e.n > 200000 {
		return []bpath{{s, nil, "it takes too many steps"}}
	}
	phis := map[ssa.Value]bval{}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, q := range b.Preds {
			if q == from {
				phis[p] = e.val(env, p.Edges[i])
			}
		}
	}
	for k, v := range phis {
		env[k] = v
	}
	return e.rest(f, b, 0, env, s, depth)
}

// rest goes on at an instruction.
func (e *bexec) rest(f *ssa.Function, b *ssa.BasicBlock, n int, env map[ssa.Value]bval, s *bstate, depth int) []bpath {
	fail := func(why string) []bpath { return []bpath{{s, nil, why}} }
	for ; n < len(b.Instrs); n++ {
		ins := b.Instrs[n]
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			x, y := e.val(env, i.X), e.val(env, i.Y)
			switch i.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				c, rg := e.compare(s, i.Op, x, y)
				switch {
				case c == 1:
					env[i] = bconst(1)
				case c == -1:
					env[i] = bconst(0)
				case rg != nil:
					// both sides of the range
					var out []bpath
					for _, w := range [][3]int64{{rg[0], rg[1], 1}, {-(1 << 62), rg[0] - 1, 0}, {rg[1] + 1, 1 << 62, 0}} {
						t := s.clone()
						if w[0] > t.lo {
							t.lo = w[0]
						}
						if w[1] < t.hi {
							t.hi = w[1]
						}
						if t.lo > t.hi {
							continue
						}
						env2 := map[ssa.Value]bval{}
						for k, v := range env {
							env2[k] = v
						}
						env2[i] = bconst(w[2])
						out = append(out, e.rest(f, b, n+1, env2, t, depth)...)
					}
					return out
				default:
					env[i] = bval{k: '?'}
				}
			default:
				env[i] = e.binop(s, i.Op, x, y, i.Type())
			}
		default:
			out, done := e.instr(f, b, n, ins, env, s, depth)
			if done {
				return out
			}
		}
	}
	return fail("a block has no end")
}

func (e *bexec) instr(f *ssa.Function, b *ssa.BasicBlock, n int, ins ssa.Instruction, env map[ssa.Value]bval, s *bstate, depth int) ([]bpath, bool) {
	fail := func(why string) ([]bpath, bool) { return []bpath{{s, nil, why}}, true }
	fork := func() map[ssa.Value]bval {
		m := map[ssa.Value]bval{}
		for k, v := range env {
			m[k] = v
		}
		return m
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.If:
		c := e.val(env, i.Cond)
		if v, ok := s.con(c); ok {
			if v != 0 {
				return e.block(f, b.Succs[0], b, env, s, depth), true
			}
			return e.block(f, b.Succs[1], b, env, s, depth), true
		}
		out := e.block(f, b.Succs[0], b, fork(), s.clone(), depth)
		return append(out, e.block(f, b.Succs[1], b, env, s, depth)...), true
	case *ssa.Jump:
		return e.block(f, b.Succs[0], b, env, s, depth), true
	case *ssa.Return:
		var res []bval
		for _, r := range i.Results {
			res = append(res, e.val(env, r))
		}
		return []bpath{{s, res, ""}}, true
	case *ssa.Convert:
		x := e.val(env, i.X)
		if w, _ := e.width(i.Type()); w > 0 && x.k == 'i' {
			if fw, _ := e.width(i.X.Type()); fw > 0 {
				env[i] = e.cut(s.norm(x), i.Type())
				if w == 64 {
					env[i] = e.cut(x, i.Type())
				}
				return nil, false
			}
		}
		env[i] = bval{k: '?'}
	case *ssa.ChangeType:
		env[i] = e.val(env, i.X)
	case *ssa.UnOp:
		x := e.val(env, i.X)
		switch i.Op {
		case token.MUL:
			env[i] = e.load(s, x)
		case token.NOT:
			env[i] = bval{k: '?'}
			if c, ok := s.con(x); ok {
				env[i] = bconst(1 - c)
			}
		default:
			env[i] = bval{k: '?'}
		}
	case *ssa.Alloc:
		s.next++
		env[i] = bval{k: 'p', obj: s.next}
		if a, ok := deref(i.Type()).Underlying().(*types.Array); ok && a.Len() <= 64 {
			for k := int64(0); k < a.Len(); k++ {
				s.arr[s.next] = append(s.arr[s.next], bconst(0))
			}
		}
	case *ssa.MakeSlice:
		l, ok := s.con(e.val(env, i.Len))
		if !ok || l < 0 || l > 64 {
			return fail("it makes a list of a length that is not known")
		}
		s.next++
		for k := int64(0); k < l; k++ {
			s.arr[s.next] = append(s.arr[s.next], bconst(0))
		}
		env[i] = bval{k: 's', obj: s.next, n: int(l)}
	case *ssa.Slice:
		x := e.val(env, i.X)
		if x.k != 's' && (x.k != 'p' || s.arr[x.obj] == nil) {
			env[i] = bval{k: '?'}
			return nil, false
		}
		if x.k == 'p' {
			x = bval{k: 's', obj: x.obj, n: len(s.arr[x.obj])}
		}
		lo, hi := int64(0), int64(x.n)
		ok := true
		if i.Low != nil {
			lo, ok = s.con(e.val(env, i.Low))
		}
		if i.High != nil && ok {
			hi, ok = s.con(e.val(env, i.High))
		}
		if !ok || lo < 0 || hi < lo || int(hi)+x.off > len(s.arr[x.obj]) {
			return fail("it takes a part of a list that is not known")
		}
		env[i] = bval{k: 's', obj: x.obj, off: x.off + int(lo), n: int(hi - lo)}
	case *ssa.IndexAddr:
		x := e.val(env, i.X)
		ix, ok := s.con(e.val(env, i.Index))
		n := x.n
		if x.k == 'p' {
			n = len(s.arr[x.obj])
		}
		if x.k != 's' && x.k != 'p' || !ok || ix < 0 || int(ix) >= n {
			return fail("it uses an element that is not known")
		}
		env[i] = bval{k: 'p', obj: x.obj, off: x.off + int(ix), path: "[]"}
	case *ssa.FieldAddr:
		x := e.val(env, i.X)
		env[i] = bval{k: 'p', obj: x.obj, path: x.path + fmt.Sprintf(".%d", i.Field)}
	case *ssa.Store:
		a := e.val(env, i.Addr)
		v := e.val(env, i.Val)
		if a.k == 'p' && a.path == "[]" {
			s.arr[a.obj][a.off] = s.norm(v)
		} else if a.k == 'p' {
			s.mem[fmt.Sprint(a.obj, a.path)] = v
		}
	case *ssa.Extract:
		t := e.val(env, i.Tuple)
		env[i] = bval{k: '?'}
		if t.k == 't' && i.Index < len(t.elts) {
			env[i] = t.elts[i.Index]
		}
	case *ssa.Call:
		g := i.Common().StaticCallee()
		var args []bval
		for _, a := range i.Common().Args {
			args = append(args, e.val(env, a))
		}
		if bi, ok := i.Common().Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				x, y := args[0], bval{k: 'n'}
				if len(args) > 1 {
					y = args[1]
				}
				if x.k == 'n' {
					x = bval{k: 's'}
				}
				if y.k == 'n' {
					y = bval{k: 's'}
				}
				if x.k != 's' || y.k != 's' {
					return fail("it adds to a list that is not known")
				}
				s.next++
				l := append([]bval{}, s.arr[x.obj][x.off:x.off+x.n]...)
				l = append(l, s.arr[y.obj][y.off:y.off+y.n]...)
				s.arr[s.next] = l
				env[i] = bval{k: 's', obj: s.next, n: len(l)}
			case "len":
				env[i] = bval{k: '?'}
				if args[0].k == 's' {
					env[i] = bconst(int64(args[0].n))
				}
				if args[0].k == 'n' {
					env[i] = bconst(0)
				}
			default:
				env[i] = bval{k: '?'}
			}
			return nil, false
		}
		if g != nil && g.RelString(nil) == "(*bufio.Reader).ReadByte" {
			if s.pos >= len(s.tape) {
				s.pos++
				env[i] = bval{k: 't', elts: []bval{bconst(0), {k: 'p', obj: -1}}}
				return nil, false
			}
			env[i] = bval{k: 't', elts: []bval{s.tape[s.pos], {k: 'n'}}}
			s.pos++
			return nil, false
		}
		if g != nil && e.p.isFn[g] {
			var out []bpath
			for _, r := range e.run(g, args, s, depth+1) {
				if r.bad != "" {
					out = append(out, r)
					continue
				}
				m := fork()
				switch len(r.res) {
				case 0:
				case 1:
					m[i] = r.res[0]
				default:
					m[i] = bval{k: 't', elts: r.res}
				}
				out = append(out, e.rest(f, b, n+1, m, r.s, depth)...)
			}
			return out, true
		}
		env[i] = bval{k: '?'}
	default:
		if v, ok := ins.(ssa.Value); ok {
			env[v] = bval{k: '?'}
		}
	}
	return nil, false
}

func (e *bexec) load(s *bstate, a bval) bval {
	if a.k != 'p' {
		return bval{k: '?'}
	}
	if a.path == "[]" {
		return s.arr[a.obj][a.off]
	}
	if v, ok := s.mem[fmt.Sprint(a.obj, a.path)]; ok {
		return v
	}
	return bval{k: '?'}
}

func init() {
	checks["C10"] = func(r *Report) {
		p := r.p
		r.rule("covers", "every integer from 0 to 0xfffffff is encoded")
		r.rule("inverse", "the decoder gives back each bit of each integer that is encoded, and nothing else, from exactly the bytes of its code")
		var encs, decs []*ssa.Function
		for _, f := range p.fns {
			if f.Blocks == nil || f.Parent() != nil {
				continue
			}
			sh := shape(f)
			if f.Signature.Recv() == nil && (sh == "int -> []byte" || sh == "[]byte int -> []byte") && bitwise(f) {
				encs = append(encs, f)
			}
			if p.recvNamed(f, "binParser") && (sh == "-> int" || sh == "-> int bool" || sh == "-> int error") && (bitwise(f) || p.readsBytes(f)) {
				decs = append(decs, f)
			}
		}
		r.ob(len(encs) == 1 && len(decs) == 1, "covers", "instances", "", fmt.Sprintf("%d encoders and %d decoders of variable integers are found", len(encs), len(decs)))
		if len(encs) == 0 || len(decs) == 0 {
			return
		}
		for _, enc := range encs {
			r.varint(enc, decs[0])
		}
		r.floor("covers", 2)
		r.floor("inverse", 4)
		r.assume = []string{"int has 64 bits", "ReadByte of bufio returns the bytes of the stream one by one"}
	}
}

// readsBytes: the function reads through another one that reads a byte.
func (p *Prog) readsBytes(f *ssa.Function) bool {
	read := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if g := c.Common().StaticCallee(); g != nil && g.RelString(nil) == "(*bufio.Reader).ReadByte" {
						return true
					}
				}
			}
		}
		return false
	}
	if read(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil && p.isFn[g] && read(g) {
					return true
				}
			}
		}
	}
	return false
}

// bitwise: the function, or one that it calls, takes integers apart.
func bitwise(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if o, ok := ins.(*ssa.BinOp); ok {
				switch o.Op {
				case token.SHL, token.SHR:
					return true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil && g != f && g.Pkg == f.Pkg && g.Blocks != nil && g.Signature.Recv() == nil && len(g.Blocks) < 20 {
					for _, b := range g.Blocks {
						for _, ins := range b.Instrs {
							if o, ok := ins.(*ssa.BinOp); ok && (o.Op == token.SHL || o.Op == token.SHR) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (r *Report) varint(enc, dec *ssa.Function) {
	p := r.p
	e := &bexec{p: p, seen: map[*ssa.Function]bool{}}
	r.saw(enc)
	r.saw(dec)
	in := bval{k: 'i', in: true}
	for k := range in.v {
		in.v[k] = bit(k)
	}
	s := &bstate{lo: -(1 << 62), hi: 1 << 62, arr: map[int][]bval{}, mem: map[string]bval{}, next: 1}
	var args []bval
	for _, q := range enc.Params {
		if isByteSlice(q.Type()) {
			args = append(args, bval{k: 's'})
		} else {
			args = append(args, in)
		}
	}
	const max = 0xfffffff
	ename, dname := p.short(enc), p.short(dec)
	covered := map[int64]int64{}
	for _, w := range e.run(enc, args, s, 0) {
		rg := fmt.Sprintf("%#x..%#x", w.s.lo, w.s.hi)
		if w.s.lo <= -(1<<61) || w.s.hi >= 1<<61 {
			rg = fmt.Sprintf("from %#x", w.s.lo)
			if w.s.lo <= -(1 << 61) {
				rg = fmt.Sprintf("up to %#x", w.s.hi)
			}
		}
		what := ename + ": " + rg
		if w.bad != "" {
			r.ob(false, "inverse", what, p.pos(enc.Pos()), w.bad)
			continue
		}
		out := w.res[0]
		if out.k == 'n' || out.k == 's' && out.n == 0 {
			r.ob(w.s.hi < 0 || w.s.lo > max, "covers", what, p.pos(enc.Pos()), "these are not encoded")
			continue
		}
		if out.k != 's' {
			r.ob(false, "inverse", what, p.pos(enc.Pos()), "what is emitted is not known")
			continue
		}
		if w.s.lo >= 0 {
			covered[w.s.lo] = w.s.hi
		}
		// the decoder on these bytes, followed by others
		d := w.s.clone()
		d.tape = append([]bval{}, d.arr[out.obj][out.off:out.off+out.n]...)
		byteT := types.Typ[types.Uint8]
		for k := 0; k < 8; k++ {
			d.tape = append(d.tape, e.cut(bunknown(), byteT))
		}
		bad := ""
		n := 0
		for _, v := range e.run(dec, []bval{{k: 'p', obj: 0, path: "p"}}, d, 0) {
			n++
			switch {
			case v.bad != "":
				bad = v.bad
			case v.s.pos != out.n:
				bad = fmt.Sprintf("%d bytes are emitted and %d are read", out.n, v.s.pos)
			default:
				bad = sameBits(v.s, v.res[0])
			}
			if bad != "" {
				break
			}
		}
		r.ob(bad == "" && n > 0, "inverse", what+" with "+dname, p.pos(dec.Pos()), bad)
	}
	// no gaps
	at := int64(0)
	for again := true; again; {
		again = false
		if h, ok := covered[at]; ok && at <= max {
			at, again = h+1, true
		}
	}
	r.ob(at > max, "covers", ename, p.pos(enc.Pos()), fmt.Sprintf("%#x is not encoded", at))
	var l []string
	for f := range e.seen {
		l = append(l, p.short(f))
	}
	r.notes = append(r.notes, "followed: "+strings.Join(sortedStrings(l), ", "))
}

// sameBits: the value is the integer, or why not.
func sameBits(s *bstate, v bval) string {
	if v.k != 'i' {
		return "what is read is not known"
	}
	if s.lo < 0 {
		return "a negative integer is encoded"
	}
	n := bitlen(s.hi)
	v = s.norm(v)
	for i, x := range v.v {
		switch {
		case i < n && x != bit(i):
			if s.lo == s.hi && (x == bit1) == (s.lo>>uint(i)&1 == 1) && x != bitX && x < 0 {
				continue
			}
			return fmt.Sprintf("bit %d of the integer is not read back as it was", i)
		case i >= n && x != bit0:
			return fmt.Sprintf("bit %d of what is read may be set", i)
		}
	}
	return ""
}

func sortedStrings(l []string) []string {
	sort.Strings(l)
	return l
}
