package main

// Abstract values, facts and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kind uint8

const (
	KInt kind = iota
	KBool
	KRef // anything known by id: pointers, slices, strings, interfaces, funcs, floats...
	KPtr // address of a field or element inside object id
	KTuple
	KStruct
)

// Val is an abstract value.
type Val struct {
	k    kind
	lin  *Lin
	cond *Cond
	id   VID
	path string
	ix   *Lin // symbolic index in path, if any
	fld  *types.Var
	elts []Val
}

func (v Val) String() string {
	switch v.k {
	case KInt:
		return v.lin.String()
	case KBool:
		return v.cond.String()
	case KRef:
		return fmt.Sprintf("r%d", v.id)
	case KPtr:
		return fmt.Sprintf("&r%d%s", v.id, v.path)
	}
	var s []string
	for _, e := range v.elts {
		s = append(s, e.String())
	}
	return "(" + strings.Join(s, ",") + ")"
}

type bset [4]uint64

func (b *bset) has(i int) bool { return i >= 0 && i < 256 && b[i>>6]&(1<<uint(i&63)) != 0 }
func (b *bset) add(i int)      { b[i>>6] |= 1 << uint(i&63) }
func (b *bset) del(i int)      { b[i>>6] &^= 1 << uint(i&63) }
func (b *bset) empty() bool    { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b *bset) min() int {
	for i := 0; i < 256; i++ {
		if b.has(i) {
			return i
		}
	}
	return 256
}
func (b *bset) max() int {
	for i := 255; i >= 0; i-- {
		if b.has(i) {
			return i
		}
	}
	return -1
}
func (b bset) and(c *bset) bset {
	for i := range b {
		b[i] &= c[i]
	}
	return b
}
func (b bset) or(c *bset) bset {
	for i := range b {
		b[i] |= c[i]
	}
	return b
}
func (b bset) not() bset {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b *bset) subset(c *bset) bool {
	for i := range b {
		if b[i]&^c[i] != 0 {
			return false
		}
	}
	return true
}

var fullSet = bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type condOp uint8

const (
	CConst condOp = iota
	CVar          // unknown boolean with identity
	CNot
	CLe     // l <= 0
	CEq     // l == 0
	CNil    // id is nil
	CStrEq  // id == s
	CStrEq2 // id == id2 (strings)
	CRefEq  // id == id2 (references)
	CType   // dynamic type of id is exactly t
	CIn     // byte id in set
	CAnd
	COr
)

type Cond struct {
	op      condOp
	b       bool
	id, id2 VID
	l       *Lin
	s       string
	t       types.Type
	x, y    *Cond
	set     *bset
}

var condTrue = &Cond{op: CConst, b: true}
var condFalse = &Cond{op: CConst, b: false}

func condB(b bool) *Cond {
	if b {
		return condTrue
	}
	return condFalse
}

func (c *Cond) not() *Cond {
	switch c.op {
	case CConst:
		return condB(!c.b)
	case CNot:
		return c.x
	}
	return &Cond{op: CNot, x: c}
}

func (c *Cond) String() string {
	switch c.op {
	case CConst:
		return fmt.Sprint(c.b)
	case CVar:
		return fmt.Sprintf("b%d", c.id)
	case CNot:
		return "!" + c.x.String()
	case CLe:
		return "(" + c.l.String() + "<=0)"
	case CEq:
		return "(" + c.l.String() + "==0)"
	case CNil:
		return fmt.Sprintf("nil(r%d)", c.id)
	case CStrEq:
		return fmt.Sprintf("r%d==%q", c.id, c.s)
	case CStrEq2, CRefEq:
		return fmt.Sprintf("r%d==r%d", c.id, c.id2)
	case CType:
		return fmt.Sprintf("type(r%d)=%s", c.id, c.t)
	case CIn:
		return fmt.Sprintf("r%d in set", c.id)
	case CAnd:
		return "(" + c.x.String() + "&&" + c.y.String() + ")"
	case COr:
		return "(" + c.x.String() + "||" + c.y.String() + ")"
	}
	return "?"
}

type tmemo struct {
	t types.Type
	n string // name of a pure operation, "" for the value of a type assertion
	v Val
}

// Term records how a value was computed (used by the operator checks).
type Term struct {
	op   string
	args []Val
}

// Fact is what is known about an id. Immutable once stored in a state.
type Fact struct {
	typ    types.Type
	nl     int8 // 0 unknown, 1 nil, 2 not nil
	str    *string
	notStr []string
	len    *Lin
	enn    bool // elements are not nil
	dyn    types.Type
	pay    *Val
	notDyn []types.Type
	memo   []tmemo
	bs     *bset
	ne     []int64 // an integer that is none of these
	fresh  bool    // an object allocated here that nothing else refers to
	full   bool    // any value of its integer type: arithmetic can wrap
	b      int8    // boolean ids: 0 unknown, 1 false, 2 true
	fn     *ssa.Function
	binds  []Val
	term   *Term
	org    string // origin note, kept through joins only if equal
}

type cellKey struct {
	base VID
	path string
}

type Cell struct {
	v   Val
	ix  *Lin       // index in the path, when it is not constant
	fld *types.Var // field, or nil for elements and plain variables
	et  types.Type // type of the content
}

type deferred struct {
	ins  *ssa.Defer
	fn   Val
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	site   ssa.Instruction // call site in the parent
}

type State struct {
	a      *An
	frames []*Frame
	facts  map[VID]*Fact
	z      *Zone
	cells  map[cellKey]Cell
	gh     *Ghost
	pend   []*Cond // disjunctions known to hold
}

func (f *Frame) clone() *Frame {
	g := &Frame{fn: f.fn, site: f.site, env: make(map[ssa.Value]Val, len(f.env)), defers: append([]deferred{}, f.defers...)}
	for k, v := range f.env {
		g.env[k] = v
	}
	return g
}

const nilID VID = 1

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{a: s.a, z: s.z.clone()}
	n.pend = append([]*Cond{}, s.pend...)
	n.frames = make([]*Frame, len(s.frames))
	copy(n.frames, s.frames)
	// the frames of the callers do not change while a callee runs
	if k := len(s.frames) - 1; k >= 0 {
		n.frames[k] = s.frames[k].clone()
	}
	n.facts = make(map[VID]*Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.cells = make(map[cellKey]Cell, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	if s.gh != nil {
		n.gh = s.gh.clone()
	}
	return n
}

func (s *State) fact(id VID) *Fact {
	if f := s.facts[id]; f != nil {
		return f
	}
	return &Fact{}
}

// upd modifies a copy of the fact of an id.
func (s *State) upd(id VID, f func(*Fact)) {
	n := *s.fact(id)
	f(&n)
	s.facts[id] = &n
}

func (a *An) newID() VID { a.nextID++; return a.nextID }

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

// nillable types
func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil
	}
	return false
}

// intRange gives the range of an integer type; full is true for the 64 bit
// types, whose range is not kept as bounds.
func intRange(t types.Type) (lo, hi int64, full bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return -128, 127, false
	case types.Uint8:
		return 0, 255, false
	case types.Int16:
		return -32768, 32767, false
	case types.Uint16:
		return 0, 65535, false
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, false
	case types.Uint32:
		return 0, 1<<32 - 1, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf, true
	}
	return negInf, posInf, true
}

func vInt(l *Lin) Val   { return Val{k: KInt, lin: l} }
func vBool(c *Cond) Val { return Val{k: KBool, cond: c} }
func vRef(id VID) Val   { return Val{k: KRef, id: id} }

// freshInt makes an unknown integer of a type.
func (s *State) freshInt(t types.Type) Val {
	id := s.a.newID()
	f := &Fact{typ: t}
	if t != nil {
		lo, hi, full := intRange(t)
		if lo != negInf {
			s.z.setLo(id, lo)
		}
		if hi != posInf {
			s.z.setHi(id, hi)
		}
		f.full = full
		if lo == 0 && hi == 255 {
			b := fullSet
			f.bs = &b
		}
	}
	s.facts[id] = f
	return vInt(linV(id))
}

func (s *State) freshRange(t types.Type, lo, hi int64) Val {
	id := s.a.newID()
	s.facts[id] = &Fact{typ: t}
	if lo != negInf {
		s.z.setLo(id, lo)
	}
	if hi != posInf {
		s.z.setHi(id, hi)
	}
	return vInt(linV(id))
}

func (s *State) freshBool() Val {
	id := s.a.newID()
	s.facts[id] = &Fact{typ: types.Typ[types.Bool]}
	return vBool(&Cond{op: CVar, id: id})
}

// fresh makes an unknown value of a type.
func (s *State) fresh(t types.Type) Val {
	if t == nil {
		return vRef(s.newRef(nil, 0))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return s.freshInt(t)
		case u.Info()&types.IsBoolean != 0:
			return s.freshBool()
		case u.Info()&types.IsString != 0:
			id := s.newRef(t, 2)
			l := s.freshRange(nil, 0, posInf)
			s.upd(id, func(f *Fact) { f.len = l.lin })
			return vRef(id)
		}
		return vRef(s.newRef(t, 2))
	case *types.Tuple:
		v := Val{k: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.elts = append(v.elts, s.fresh(u.At(i).Type()))
		}
		return v
	case *types.Struct:
		if !s.a.inRepo(t) {
			return vRef(s.newRef(t, 0)) // opaque (reflect.Value, time.Time): nl means validity
		}
		v := Val{k: KStruct}
		for i := 0; i < u.NumFields(); i++ {
			v.elts = append(v.elts, s.fresh(u.Field(i).Type()))
		}
		return v
	case *types.Slice:
		id := s.newRef(t, 0)
		l := s.freshRange(nil, 0, posInf)
		s.upd(id, func(f *Fact) { f.len = l.lin; f.enn = s.a.elemsNonNil(t) })
		return vRef(id)
	case *types.Map, *types.Chan:
		return vRef(s.newRef(t, 0))
	case *types.Array:
		return vRef(s.newRef(t, 2))
	}
	return vRef(s.newRef(t, 0))
}

func (s *State) newRef(t types.Type, nl int8) VID {
	id := s.a.newID()
	s.facts[id] = &Fact{typ: t, nl: nl}
	return id
}

func (s *State) nilVal(t types.Type) Val {
	if _, ok := s.facts[nilID]; !ok {
		s.facts[nilID] = &Fact{nl: 1, enn: true, len: linC(0)}
	}
	return vRef(nilID)
}

func (s *State) strConst(str string) Val {
	id := s.a.strID(str)
	if _, ok := s.facts[id]; !ok {
		c := str
		s.facts[id] = &Fact{typ: types.Typ[types.String], nl: 2, str: &c, len: linC(int64(len(str)))}
	}
	return vRef(id)
}

// zero makes the zero value of a type.
func (s *State) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return vInt(linC(0))
		case u.Info()&types.IsBoolean != 0:
			return vBool(condFalse)
		case u.Info()&types.IsString != 0:
			return s.strConst("")
		}
		return vRef(s.newRef(t, 2))
	case *types.Struct:
		if !s.a.inRepo(t) {
			return vRef(s.newRef(t, 1))
		}
		v := Val{k: KStruct}
		for i := 0; i < u.NumFields(); i++ {
			v.elts = append(v.elts, s.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return vRef(s.newRef(t, 2))
	}
	return s.nilVal(t)
}

func (s *State) nilness(v Val) int8 {
	switch v.k {
	case KPtr:
		return 2
	case KRef:
		return s.fact(v.id).nl
	}
	return 2
}

// setNil refines; returns false when infeasible.
func (s *State) setNil(id VID, isNil bool) bool {
	f := s.fact(id)
	if isNil {
		if f.nl == 2 {
			return false
		}
		if f.len != nil {
			s.z.assumeLe(f.len)
			if s.z.bad {
				return false
			}
		}
		s.upd(id, func(f *Fact) { f.nl = 1 })
		return true
	}
	if f.nl == 1 {
		return false
	}
	s.upd(id, func(f *Fact) { f.nl = 2 })
	return true
}

// assume refines the state with a condition. The receiver is consumed.
func (s *State) assume(c *Cond, want bool) []*State {
	r := s.assume1(c, want)
	if len(s.pend) == 0 {
		return r
	}
	var out []*State
	for _, t := range r {
		if t.propagate() {
			out = append(out, t)
		}
	}
	return out
}

// propagate resolves disjunctions one side of which became false.
func (s *State) propagate() bool {
	for i := 0; i < len(s.pend); i++ {
		c := s.pend[i]
		x, y := s.quick(c.x), s.quick(c.y)
		var do *Cond
		switch {
		case x > 0 || y > 0:
		case x < 0 && y < 0:
			return false
		case x < 0:
			do = c.y
		case y < 0:
			do = c.x
		default:
			continue
		}
		s.pend = append(append([]*Cond{}, s.pend[:i]...), s.pend[i+1:]...)
		i--
		if do != nil {
			if len(s.assume1(do, true)) == 0 {
				return false
			}
			i = -1
		}
	}
	return true
}

func (s *State) assume1(c *Cond, want bool) []*State {
	one := func(ok bool) []*State {
		if !ok || s.z.bad {
			return nil
		}
		return []*State{s}
	}
	switch c.op {
	case CConst:
		return one(c.b == want)
	case CVar:
		f := s.fact(c.id)
		w := int8(1)
		if want {
			w = 2
		}
		if f.b != 0 {
			return one(f.b == w)
		}
		s.upd(c.id, func(f *Fact) { f.b = w })
		return one(true)
	case CNot:
		return s.assume(c.x, !want)
	case CLe:
		if want {
			s.z.assumeLe(c.l)
		} else {
			s.z.assumeLe(c.l.mul(-1).addK(1))
		}
		s.syncBytes(c.l)
		return one(true)
	case CEq:
		return s.assumeEq(c.l, want)
	case CNil:
		return one(s.setNil(c.id, want))
	case CStrEq:
		f := s.fact(c.id)
		if f.str != nil {
			return one((*f.str == c.s) == want)
		}
		if want {
			for _, n := range f.notStr {
				if n == c.s {
					return nil
				}
			}
			if f.len != nil {
				d := f.len.addK(-int64(len(c.s)))
				s.z.assumeLe(d)
				s.z.assumeLe(d.mul(-1))
			}
			str := c.s
			s.upd(c.id, func(f *Fact) { f.str = &str })
			for _, m := range f.memo {
				// the name of a builtin type tells the type
				if m.n == "tyof" {
					if o, ok := types.Universe.Lookup(c.s).(*types.TypeName); ok && !isIface(o.Type()) {
						if len(s.assume1(&Cond{op: CType, id: m.v.id, t: o.Type()}, true)) == 0 {
							return nil
						}
					}
				}
			}
			return one(true)
		}
		if c.s == "" && f.len != nil {
			s.z.assumeLe(linC(1).add(f.len, -1))
		}
		s.upd(c.id, func(f *Fact) { f.notStr = append(append([]string{}, f.notStr...), c.s) })
		return one(true)
	case CStrEq2:
		f1, f2 := s.fact(c.id), s.fact(c.id2)
		if f1.str != nil {
			return s.assume(&Cond{op: CStrEq, id: c.id2, s: *f1.str}, want)
		}
		if f2.str != nil {
			return s.assume(&Cond{op: CStrEq, id: c.id, s: *f2.str}, want)
		}
		if want && f1.len != nil && f2.len != nil {
			d := f1.len.add(f2.len, -1)
			s.z.assumeLe(d)
			s.z.assumeLe(d.mul(-1))
		}
		return one(true)
	case CRefEq:
		if c.id == c.id2 {
			return one(want)
		}
		n1, n2 := s.fact(c.id).nl, s.fact(c.id2).nl
		if n1 == 1 {
			return one(s.setNil(c.id2, want))
		}
		if n2 == 1 {
			return one(s.setNil(c.id, want))
		}
		if want {
			if n1 == 2 {
				return one(s.setNil(c.id2, false))
			}
			if n2 == 2 {
				return one(s.setNil(c.id, false))
			}
		}
		return one(true)
	case CType:
		f := s.fact(c.id)
		if f.nl == 1 {
			return one(!want)
		}
		if f.dyn != nil {
			return one(types.Identical(f.dyn, c.t) == want)
		}
		for _, n := range f.notDyn {
			if types.Identical(n, c.t) {
				return one(!want)
			}
		}
		if want {
			s.upd(c.id, func(f *Fact) { f.dyn = c.t; f.nl = 2 })
		} else {
			s.upd(c.id, func(f *Fact) { f.notDyn = append(append([]types.Type{}, f.notDyn...), c.t) })
		}
		return one(true)
	case CIn:
		return one(s.refineBytes(c.id, c.set, want))
	case CAnd, COr:
		if (c.op == CAnd) == want {
			var r []*State
			for _, t := range s.assume(c.x, want) {
				r = append(r, t.assume(c.y, want)...)
			}
			return r
		}
		// !(x && y) = !x || (x && !y)
		t := s.clone()
		r := s.assume(c.x, want)
		for _, u := range t.assume(c.x, !want) {
			r = append(r, u.assume(c.y, want)...)
		}
		return r
	}
	return one(true)
}

func (s *State) refineBytes(id VID, set *bset, in bool) bool {
	f := s.fact(id)
	if f.bs == nil {
		if in {
			// not known to be a byte, but now it is
			n := *set
			s.upd(id, func(f *Fact) { f.bs = &n })
			s.z.setLo(id, int64(n.min()))
			s.z.setHi(id, int64(n.max()))
			return !n.empty() && !s.z.bad
		}
		return true
	}
	var n bset
	if in {
		n = f.bs.and(set)
	} else {
		c := set.not()
		n = f.bs.and(&c)
	}
	if n.empty() {
		return false
	}
	s.upd(id, func(f *Fact) { f.bs = &n })
	s.z.setLo(id, int64(n.min()))
	s.z.setHi(id, int64(n.max()))
	return !s.z.bad
}

// syncBytes narrows byte sets after the bounds of the ids in l changed.
func (s *State) syncBytes(l *Lin) {
	for _, t := range l.t {
		f := s.fact(t.v)
		if f.bs == nil {
			continue
		}
		lo, hi := s.z.lo(t.v), s.z.hi(t.v)
		if int64(f.bs.min()) >= lo && int64(f.bs.max()) <= hi {
			continue
		}
		n := *f.bs
		for i := 0; i < 256; i++ {
			if int64(i) < lo || int64(i) > hi {
				n.del(i)
			}
		}
		if n.empty() {
			s.z.bad = true
			return
		}
		s.upd(t.v, func(f *Fact) { f.bs = &n })
		s.z.setLo(t.v, int64(n.min()))
		s.z.setHi(t.v, int64(n.max()))
	}
}

func (s *State) assumeEq(l *Lin, want bool) []*State {
	if l.isConst() {
		if (l.c == 0) == want {
			return []*State{s}
		}
		return nil
	}
	if len(l.t) == 1 && (l.t[0].c == 1 || l.t[0].c == -1) {
		v := l.t[0].v
		k := -l.c * l.t[0].c
		if s.fact(v).bs != nil {
			var set bset
			if k < 0 || k > 255 {
				if want {
					return nil
				}
				return []*State{s}
			}
			set.add(int(k))
			if s.refineBytes(v, &set, want) {
				return []*State{s}
			}
			return nil
		}
	}
	if len(l.t) == 1 && (l.t[0].c == 1 || l.t[0].c == -1) {
		v, k := l.t[0].v, -l.c*l.t[0].c
		if want && hasInt(s.fact(v).ne, k) {
			return nil
		}
		if !want && !s.neConst(v, k) {
			s.upd(v, func(f *Fact) {
				f.ne = append(append([]int64{}, f.ne...), k)
				if len(f.ne) > 6 {
					f.ne = f.ne[len(f.ne)-6:]
				}
			})
		}
	}
	if want {
		s.z.assumeLe(l)
		s.z.assumeLe(l.mul(-1))
		s.syncBytes(l)
		// two bytes that are equal have the same set
		if len(l.t) == 2 && l.c == 0 {
			f1, f2 := s.fact(l.t[0].v), s.fact(l.t[1].v)
			if f1.bs != nil && f2.bs != nil {
				if !s.refineBytes(l.t[0].v, f2.bs, true) || !s.refineBytes(l.t[1].v, f1.bs, true) {
					return nil
				}
			}
		}
		if s.z.bad {
			return nil
		}
		return []*State{s}
	}
	if s.z.ub_(l) == 0 {
		s.z.assumeLe(l.addK(1))
	}
	if !s.z.bad && s.z.lb_(l) == 0 {
		s.z.assumeLe(l.mul(-1).addK(1))
	}
	if !s.z.bad && len(l.t) == 2 && l.c == 0 {
		// x != y where one is a single byte
		for i := 0; i < 2; i++ {
			x, y := l.t[i].v, l.t[1-i].v
			fx, fy := s.fact(x), s.fact(y)
			if fx.bs != nil && fy.bs != nil && fx.bs.min() == fx.bs.max() {
				if !s.refineBytes(y, fx.bs, false) {
					return nil
				}
			}
		}
	}
	s.syncBytes(l)
	if s.z.bad {
		return nil
	}
	return []*State{s}
}

// decide returns +1 (true), -1 (false) or 0 for a condition.
func (s *State) decide(c *Cond) int {
	switch c.op {
	case CConst:
		if c.b {
			return 1
		}
		return -1
	case CVar:
		switch s.fact(c.id).b {
		case 1:
			return -1
		case 2:
			return 1
		}
		return 0
	case CNot:
		return -s.decide(c.x)
	}
	t := len(s.clone().assume(c, true)) > 0
	f := len(s.clone().assume(c, false)) > 0
	switch {
	case t && !f:
		return 1
	case f && !t:
		return -1
	}
	return 0
}

// ---- reachability and garbage

func (s *State) markVal(v Val, m map[VID]bool) {
	switch v.k {
	case KInt:
		for _, t := range v.lin.t {
			s.markID(t.v, m)
		}
	case KBool:
		s.markCond(v.cond, m)
	case KRef, KPtr:
		s.markID(v.id, m)
		if v.ix != nil {
			for _, t := range v.ix.t {
				s.markID(t.v, m)
			}
		}
	default:
		for _, e := range v.elts {
			s.markVal(e, m)
		}
	}
}

func (s *State) markCond(c *Cond, m map[VID]bool) {
	if c == nil {
		return
	}
	if c.id != 0 {
		s.markID(c.id, m)
	}
	if c.id2 != 0 {
		s.markID(c.id2, m)
	}
	if c.l != nil {
		for _, t := range c.l.t {
			s.markID(t.v, m)
		}
	}
	s.markCond(c.x, m)
	s.markCond(c.y, m)
}

func (s *State) markID(id VID, m map[VID]bool) {
	if m[id] {
		return
	}
	m[id] = true
	f := s.facts[id]
	if f == nil {
		return
	}
	if f.len != nil {
		for _, t := range f.len.t {
			s.markID(t.v, m)
		}
	}
	if f.pay != nil {
		s.markVal(*f.pay, m)
	}
	for _, e := range f.memo {
		s.markVal(e.v, m)
	}
	for _, b := range f.binds {
		s.markVal(b, m)
	}
	if f.term != nil {
		for _, b := range f.term.args {
			s.markVal(b, m)
		}
	}
}

// gc drops what is not reachable. extra values are roots too.
func (s *State) gc(extra ...Val) {
	if s.a.m.noGC {
		return
	}
	m := s.globCells()
	m[nilID] = true
	for _, f := range s.frames {
		for _, v := range f.env {
			s.markVal(v, m)
		}
		for _, d := range f.defers {
			s.markVal(d.fn, m)
			for _, v := range d.args {
				s.markVal(v, m)
			}
		}
	}
	for _, v := range extra {
		s.markVal(v, m)
	}
	for _, c := range s.pend {
		s.markCond(c, m)
	}
	if s.gh != nil {
		s.gh.mark(s, m)
	}
	for again := true; again; {
		again = false
		for k, c := range s.cells {
			if m[k.base] && c.ixIn(m) {
				n := len(m)
				s.markVal(c.v, m)
				if len(m) != n {
					again = true
				}
			}
		}
	}
	s.checkOut(func(k cellKey) bool { return !m[k.base] && !s.fact(k.base).fresh })
	for k, c := range s.cells {
		if !m[k.base] || !c.ixIn(m) {
			delete(s.cells, k)
		}
	}
	for id := range s.facts {
		if !m[id] {
			delete(s.facts, id)
		}
	}
	s.z.keep(m)
}

// ixIn: the index of the cell can still be named.
func (c Cell) ixIn(m map[VID]bool) bool {
	if c.ix != nil {
		for _, t := range c.ix.t {
			if !m[t.v] {
				return false
			}
		}
	}
	return true
}

// star is a pointer to some element of the same list.
func (v Val) star() Val {
	if i := strings.LastIndex(v.path, "["); i >= 0 && strings.HasSuffix(v.path, "]") {
		v.path = v.path[:i] + "[*]"
		v.ix = nil
	}
	return v
}

func sortedCells(m map[cellKey]Cell) []cellKey {
	var r []cellKey
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].base != r[j].base {
			return r[i].base < r[j].base
		}
		return r[i].path < r[j].path
	})
	return r
}

func (s *State) factIDs() []VID {
	var r []VID
	for id := range s.facts {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
