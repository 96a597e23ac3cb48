package main

// Models of the functions of other packages.

import (
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func isErrorT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// exempt receivers: methods that accept a nil pointer.
var nilSafeRecv = map[string]bool{
	"os.File": true, "runtime.Func": true, "time.Location": true, "net/url.Userinfo": true,
	"bytes.Buffer": false,
}

func (a *An) external(s *State, ins ssa.Instruction, ci *callInfo, name string) []exitSt {
	c := ci.com
	// a nil pointer as the receiver
	if ci.fn != nil && ci.fn.Signature.Recv() != nil && len(ci.args) > 0 && !c.IsInvoke() {
		rt := ci.fn.Signature.Recv().Type()
		if _, ok := rt.Underlying().(*types.Pointer); ok {
			n := types.TypeString(deref(rt), nil)
			if !nilSafeRecv[n] {
				if !a.notNil(s, ins, ci.args[0], a.describe(c.Args[0])+"."+ci.fn.Name()+"()") {
					return nil
				}
			}
		}
	}
	if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "invoke (reflect.Type).") {
		if r, ok := a.reflectCall(s, ins, ci, name); ok {
			return r
		}
	}
	if m := models[name]; m != nil {
		if r, ok := m(a, s, ins, ci); ok {
			return r
		}
	}
	// Read, ReadAt and Write of any type: at most the length of the slice
	if k := strings.LastIndex(name, "."); k >= 0 {
		switch name[k+1:] {
		case "Read", "ReadAt", "Write", "WriteAt", "WriteString":
			if r := c.Signature().Results(); r.Len() == 2 && isIntT(r.At(0).Type()) && isErrorT(r.At(1).Type()) {
				if r, ok := readModel(false)(a, s, ins, ci); ok {
					return r
				}
			}
		}
	}
	return a.unknownExt(s, ins, ci)
}

// effects on memory of an unknown function of another package
func (a *An) extEffects(s *State, ins ssa.Instruction, ci *callInfo) {
	for i, v := range ci.args {
		s.escape(v)
		var t types.Type
		if k := len(ci.args) - len(ci.com.Args); i-k >= 0 && i-k < len(ci.com.Args) {
			t = ci.com.Args[i-k].Type()
		} else {
			continue
		}
		s.extWrites(v, t)
		if f := s.fact(v.id); v.k == KRef && f.pay != nil && f.dyn != nil {
			s.extWrites(*f.pay, f.dyn)
		}
		var cs []*ssa.Function
		if ci.fn != nil {
			cs = []*ssa.Function{ci.fn}
		}
		if k := len(ci.args) - len(ci.com.Args); i-k >= 0 {
			for _, g := range a.p.methodsGiven(ci.com.Args[i-k], cs) {
				s.havoc(a.modsOf(g))
			}
		}
		// functions given may be called
		if v.k == KRef {
			if f := s.fact(v.id); f.fn != nil && a.p.isFn[f.fn] {
				a.callAny(s, ins, f.fn, f.binds)
				s.havoc(a.modsOf(f.fn))
			}
		}
	}
	if ci.fn != nil && callsBack(ci.fn) {
		s.havocAll()
	}
}

// callAny analyses a function that may be called with any arguments.
func (a *An) callAny(s *State, ins ssa.Instruction, fn *ssa.Function, binds []Val) {
	t := s.clone()
	var args []Val
	for _, p := range fn.Params {
		args = append(args, t.fresh(p.Type()))
	}
	a.callSummary(t, ins, fn, args, binds)
	a.curIns = ins
}

func (s *State) extWrites(v Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if structOf(u.Elem()) != nil && s.a.inRepo(u.Elem()) {
			return
		}
		if v.k == KPtr || v.k == KRef {
			for k := range s.cells {
				if k.base == v.id && (v.k == KRef || strings.HasPrefix(k.path, v.path)) {
					delete(s.cells, k)
				}
			}
			s.kill(s.asPtr(v), u.Elem())
		}
	case *types.Slice:
		s.kill(Val{k: KPtr, id: v.id, path: "[*]"}, u.Elem())
	}
}

func (a *An) unknownExt(s *State, ins ssa.Instruction, ci *callInfo) []exitSt {
	a.extEffects(s, ins, ci)
	return a.results(s, ci)
}

// results of a function of another package: either there is an error or the
// pointers and interfaces returned are not nil.
func (a *An) results(s *State, ci *callInfo) []exitSt {
	t, _ := ci.typ.(*types.Tuple)
	if t == nil || t.Len() == 0 {
		return ret0(s)
	}
	good := func(s *State, v Val, t types.Type) {
		if v.k != KRef {
			return
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Map, *types.Chan:
			s.upd(v.id, func(f *Fact) { f.nl = 2 })
		case *types.Interface:
			if !isErrorT(t) && t.Underlying().(*types.Interface).NumMethods() > 0 {
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
			}
		}
		if structOf(t) != nil {
			s.upd(v.id, func(f *Fact) { f.nl = 2 })
		}
	}
	n := t.Len()
	if n == 1 {
		v := s.fresh(t.At(0).Type())
		good(s, v, t.At(0).Type())
		return ret(s, v)
	}
	mk := func(s *State, ok bool, e int8) Val {
		v := Val{k: KTuple}
		for i := 0; i < n; i++ {
			x := s.fresh(t.At(i).Type())
			if i == n-1 && e != 0 {
				s.upd(x.id, func(f *Fact) { f.nl = e })
			} else if ok {
				good(s, x, t.At(i).Type())
			}
			v.elts = append(v.elts, x)
		}
		return v
	}
	if isErrorT(t.At(n - 1).Type()) {
		f := s.clone()
		return []exitSt{{s, mk(s, true, 1), true}, {f, mk(f, false, 2), true}}
	}
	return ret(s, mk(s, true, 0))
}

type model func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool)

func (s *State) errVal(isNil bool) Val {
	if isNil {
		return s.nilVal(nil)
	}
	v := s.fresh(types.Universe.Lookup("error").Type())
	s.upd(v.id, func(f *Fact) { f.nl = 2 })
	return v
}

func tuple(v ...Val) Val { return Val{k: KTuple, elts: v} }

// parseModel: an empty string is not a number.
func parseModel(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	l := s.lenOf(ci.args[0])
	if l == nil {
		return nil, false
	}
	var out []exitSt
	f := s.clone()
	for _, t := range s.assume(le(linC(1), l), true) {
		out = append(out, a.results(t, ci)...)
	}
	for _, t := range f.assume(le(linC(1), l), false) {
		out = append(out, exitSt{t, tuple(t.fresh(ci.typ.(*types.Tuple).At(0).Type()), t.errVal(false)), true})
	}
	return out, true
}

var tInt = types.Typ[types.Int]

// noReturn: the program ends.
func newError(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	a.extEffects(s, ins, ci)
	return ret(s, s.errVal(false)), true
}

func noReturn(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	return nil, true
}

// readN: reads at most len(p) bytes into the k-th argument from the end.
func readModel(full bool) model {
	return func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
		for i, v := range ci.args {
			s.escape(v)
			_ = i
		}
		var buf Val
		var bt types.Type
		k := len(ci.args) - len(ci.com.Args)
		for i := range ci.com.Args {
			if isByteSlice(ci.com.Args[i].Type()) {
				buf, bt = ci.args[i+k], ci.com.Args[i].Type()
				break
			}
		}
		if bt == nil {
			return nil, false
		}
		s.extWrites(buf, bt)
		l := s.lenOf(buf)
		n := s.freshRange(tInt, 0, posInf)
		s.z.assumeLe(n.lin.add(l, -1))
		if !full {
			e := s.fresh(types.Universe.Lookup("error").Type())
			return ret(s, tuple(n, e)), true
		}
		f := s.clone()
		out := []exitSt{{s, tuple(vInt(l), s.errVal(true)), true}}
		for _, t := range f.assume(lt(n.lin, l), true) {
			out = append(out, exitSt{t, tuple(n, t.errVal(false)), true})
		}
		return out, true
	}
}

func runeSet(f func(rune) bool) *bset {
	var b bset
	for i := 0; i < 256; i++ {
		if f(rune(i)) {
			b.add(i)
		}
	}
	return &b
}

func runeModel(f func(rune) bool) model {
	set := runeSet(f)
	return func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
		x := ci.args[0]
		if x.k != KInt {
			return nil, false
		}
		if x.lin.isConst() {
			return ret(s, vBool(condB(f(rune(x.lin.c))))), true
		}
		id, ok := x.lin.single()
		if !ok || s.fact(id).bs == nil {
			return nil, false
		}
		return ret(s, vBool(&Cond{op: CIn, id: id, set: set})), true
	}
}

// indexModel: -1, or a position in the first argument.
func indexModel(byteArg bool) model {
	return func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
		x, y := ci.args[0], ci.args[1]
		l := s.lenOf(x)
		if l == nil {
			return nil, false
		}
		f := s.fact(x.id)
		if byteArg && y.k == KInt {
			var set *bset
			if f.str != nil {
				var b bset
				for i := 0; i < len(*f.str); i++ {
					b.add(int((*f.str)[i]))
				}
				set = &b
			}
			if set != nil {
				if y.lin.isConst() {
					return ret(s, vInt(linC(int64(strings.IndexByte(*f.str, byte(y.lin.c)))))), true
				}
				if id, ok := y.lin.single(); ok && s.fact(id).bs != nil {
					var out []exitSt
					t := s.clone()
					if s.refineBytes(id, set, true) {
						n := s.freshRange(tInt, 0, int64(len(*f.str))-1)
						out = append(out, exitSt{s, n, true})
					}
					if t.refineBytes(id, set, false) {
						out = append(out, exitSt{t, vInt(linC(-1)), true})
					}
					return out, true
				}
			}
		}
		t := s.clone()
		out := ret(s, vInt(linC(-1)))
		n := t.freshRange(tInt, 0, posInf)
		w := linC(1)
		if !byteArg && y.k == KRef {
			if ly := t.lenOf(y); ly != nil {
				w = ly
			}
		}
		// n + len(y) <= len(x)
		t.z.assumeLe(n.lin.add(w, 1).add(l, -1))
		if !t.z.bad {
			out = append(out, exitSt{t, n, true})
		}
		return out, true
	}
}

// subModel: a part of the first argument.
func subModel(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	x := ci.args[0]
	l := s.lenOf(x)
	t := ci.typ.(*types.Tuple).At(0).Type()
	v := s.fresh(t)
	if r := s.lenOf(v); r != nil && l != nil {
		s.z.assumeLe(r.add(l, -1))
	}
	s.upd(v.id, func(f *Fact) { f.org = s.fact(x.id).org })
	s.term(v, "part", x)
	return ret(s, v), true
}

func sortModel(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	x := ci.args[0]
	if x.k != KRef {
		return nil, false
	}
	f := s.fact(x.id)
	if f.dyn == nil || f.pay == nil {
		return nil, false
	}
	s.escape(x)
	get := func(n string) *ssa.Function {
		sel := a.p.ssa.MethodSets.MethodSet(f.dyn).Lookup(nil, n)
		if sel == nil {
			return nil
		}
		return a.p.ssa.MethodValue(sel)
	}
	L, le1, sw := get("Len"), get("Less"), get("Swap")
	if L == nil || le1 == nil || sw == nil || L.Blocks == nil {
		return nil, false
	}
	recv := *f.pay
	var all []*State
	var run func(t *State, fn *ssa.Function, args []Val) []exitSt
	run = func(t *State, fn *ssa.Function, args []Val) []exitSt {
		if a.p.isFn[fn] || fn.Synthetic != "" && a.callsRepo(fn) {
			return a.inlineCall(t, ins, fn, args, nil)
		}
		if fn.Blocks == nil {
			v, has := t.result(&callInfo{typ: fn.Signature.Results()})
			return []exitSt{{t, v, has}}
		}
		return a.inlineCall(t, ins, fn, args, nil)
	}
	for _, e := range run(s, L, []Val{recv}) {
		t := e.s
		all = append(all, t.clone())
		if e.v.k != KInt {
			continue
		}
		for _, fn := range []*ssa.Function{le1, sw} {
			u := t.clone()
			i, j := u.freshRange(tInt, 0, posInf), u.freshRange(tInt, 0, posInf)
			u.z.assumeLe(i.lin.add(e.v.lin, -1).addK(1))
			u.z.assumeLe(j.lin.add(e.v.lin, -1).addK(1))
			if u.z.bad {
				continue
			}
			run(u, fn, []Val{recv, i, j})
		}
	}
	a.curIns = ins
	var out []exitSt
	for _, t := range all {
		t.havoc(a.modsOf(sw))
		t.havoc(a.modsOf(le1))
		out = append(out, exitSt{s: t})
	}
	return out, true
}

// sort.Slice(x, less)
func sortSliceModel(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	x, f := ci.args[0], ci.args[1]
	if x.k != KRef || f.k != KRef {
		return nil, false
	}
	fx, ff := s.fact(x.id), s.fact(f.id)
	if fx.pay == nil || ff.fn == nil || !a.p.isFn[ff.fn] {
		return nil, false
	}
	s.escapeQuiet(x)
	l := s.lenOf(*fx.pay)
	u := s.clone()
	i, j := u.freshRange(tInt, 0, posInf), u.freshRange(tInt, 0, posInf)
	if l != nil {
		u.z.assumeLe(i.lin.add(l, -1).addK(1))
		u.z.assumeLe(j.lin.add(l, -1).addK(1))
	}
	if !u.z.bad {
		a.inlineCall(u, ins, ff.fn, []Val{i, j}, ff.binds)
		a.curIns = ins
	}
	s.havoc(a.modsOf(ff.fn))
	if st, ok := fx.dyn.Underlying().(*types.Slice); ok {
		s.kill(Val{k: KPtr, id: fx.pay.id, path: "[*]"}, st.Elem())
	}
	return ret0(s), true
}

func minLenArg(k int, n int64) model {
	return func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
		x := ci.args[k]
		l := s.lenOf(x)
		if l == nil {
			return nil, false
		}
		var out []exitSt
		for _, t := range a.need(s, ins, "index", "bytes given to "+ci.fn.Name(), le(linC(n), l)) {
			a.extEffects(t, ins, ci)
			out = append(out, a.results(t, ci)...)
		}
		return out, true
	}
}

func nonNeg(k int) model {
	return func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
		x := ci.args[k]
		if x.k != KInt {
			return nil, false
		}
		var out []exitSt
		for _, t := range a.need(s, ins, "panic", "count given to "+ci.fn.Name(), le(linC(0), x.lin)) {
			out = append(out, a.results(t, ci)...)
		}
		return out, true
	}
}

var models map[string]model

func init() {
	models = map[string]model{
		"errors.New":                               newError,
		"fmt.Errorf":                               newError,
		"os.Exit":                                  noReturn,
		"log.Fatal":                                noReturn,
		"log.Fatalf":                               noReturn,
		"log.Fatalln":                              noReturn,
		"runtime.Goexit":                           noReturn,
		"invoke (io.Reader).Read":                  readModel(false),
		"(*os.File).Read":                          readModel(false),
		"(*os.File).ReadAt":                        readModel(false),
		"(*bufio.Reader).Read":                     readModel(false),
		"invoke (net.Conn).Read":                   readModel(false),
		"invoke (net.Conn).Write":                  readModel(false),
		"io.ReadFull":                              readModel(true),
		"unicode.IsDigit":                          runeModel(unicode.IsDigit),
		"unicode.IsNumber":                         runeModel(unicode.IsNumber),
		"unicode.IsLetter":                         runeModel(unicode.IsLetter),
		"unicode.IsSpace":                          runeModel(unicode.IsSpace),
		"unicode.IsControl":                        runeModel(unicode.IsControl),
		"unicode.IsUpper":                          runeModel(unicode.IsUpper),
		"unicode.IsLower":                          runeModel(unicode.IsLower),
		"unicode.IsPunct":                          runeModel(unicode.IsPunct),
		"unicode.IsPrint":                          runeModel(unicode.IsPrint),
		"bytes.IndexByte":                          indexModel(true),
		"strings.IndexByte":                        indexModel(true),
		"strings.IndexRune":                        indexModel(true),
		"bytes.IndexRune":                          indexModel(true),
		"strings.Index":                            indexModel(false),
		"strings.LastIndex":                        indexModel(false),
		"bytes.Index":                              indexModel(false),
		"bytes.LastIndex":                          indexModel(false),
		"strings.LastIndexByte":                    indexModel(true),
		"bytes.LastIndexByte":                      indexModel(true),
		"strings.IndexAny":                         indexModel(true),
		"bytes.IndexAny":                           indexModel(true),
		"strings.TrimSpace":                        subModel,
		"strings.Trim":                             subModel,
		"strings.TrimLeft":                         subModel,
		"strings.TrimRight":                        subModel,
		"strings.TrimPrefix":                       subModel,
		"strings.TrimSuffix":                       subModel,
		"bytes.TrimSpace":                          subModel,
		"bytes.Trim":                               subModel,
		"bytes.TrimLeft":                           subModel,
		"bytes.TrimRight":                          subModel,
		"bytes.TrimPrefix":                         subModel,
		"bytes.TrimSuffix":                         subModel,
		"sort.Sort":                                sortModel,
		"sort.Stable":                              sortModel,
		"sort.Slice":                               sortSliceModel,
		"sort.SliceStable":                         sortSliceModel,
		"strings.Repeat":                           nonNeg(1),
		"bytes.Repeat":                             nonNeg(1),
		"(encoding/binary.bigEndian).PutUint32":    minLenArg(1, 4),
		"(encoding/binary.bigEndian).Uint32":       minLenArg(1, 4),
		"(encoding/binary.bigEndian).PutUint16":    minLenArg(1, 2),
		"(encoding/binary.bigEndian).Uint16":       minLenArg(1, 2),
		"(encoding/binary.bigEndian).PutUint64":    minLenArg(1, 8),
		"(encoding/binary.bigEndian).Uint64":       minLenArg(1, 8),
		"(encoding/binary.littleEndian).PutUint32": minLenArg(1, 4),
		"(encoding/binary.littleEndian).Uint32":    minLenArg(1, 4),
		"unicode/utf8.DecodeRune":                  decodeRune,
		"unicode/utf8.DecodeRuneInString":          decodeRune,
		"unicode/utf8.DecodeLastRune":              decodeRune,
		"unicode/utf8.DecodeLastRuneInString":      decodeRune,
		"unicode/utf8.RuneLen": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return ret(s, s.freshRange(tInt, -1, 4)), true
		},
		"(*bytes.Buffer).Len": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return ret(s, s.freshRange(tInt, 0, posInf)), true
		},
		"strconv.ParseInt":   parseModel,
		"strconv.ParseUint":  parseModel,
		"strconv.ParseFloat": parseModel,
		"strconv.ParseBool":  parseModel,
		"strconv.Atoi":       parseModel,
		"math.NaN": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			v := s.fresh(types.Typ[types.Float64])
			if a.m.terms {
				s.upd(v.id, func(f *Fact) { f.term = &Term{op: "NaN"} })
			}
			return ret(s, v), true
		},
		"flag.Args": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return ret(s, s.flagArgs()), true
		},
		"flag.NArg": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return ret(s, vInt(s.lenOf(s.flagArgs()))), true
		},
		"flag.Parse": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			s.havocAll()
			return ret0(s), true
		},
		"strings.Split": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			v := s.fresh(ci.typ.(*types.Tuple).At(0).Type())
			return ret(s, v), true
		},
		"strings.HasPrefix": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return a.affix(s, ci)
		},
		"strings.HasSuffix": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return a.affix(s, ci)
		},
		"bytes.HasPrefix": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return a.affix(s, ci)
		},
		"bytes.HasSuffix": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return a.affix(s, ci)
		},
		"fmt.Sprint": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			return nil, false
		},
		"runtime.FuncForPC": func(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
			v, _ := s.result(ci)
			return ret(s, v), true
		},
	}
}

func (s *State) flagArgs() Val {
	if v, ok := s.cells[cellKey{nilID, "$flagargs"}]; ok {
		return v.v
	}
	s.nilVal(nil)
	v := s.fresh(types.NewSlice(types.Typ[types.String]))
	s.cells[cellKey{nilID, "$flagargs"}] = Cell{v: v}
	return v
}

func (a *An) affix(s *State, ci *callInfo) ([]exitSt, bool) {
	x, y := ci.args[0], ci.args[1]
	lx, ly := s.lenOf(x), s.lenOf(y)
	if lx == nil || ly == nil {
		return nil, false
	}
	b := s.freshBool()
	t := s.clone()
	var out []exitSt
	for _, u := range s.assume(le(ly, lx), true) {
		for _, w := range u.assume(b.cond, true) {
			out = append(out, exitSt{w, vBool(condTrue), true})
		}
	}
	for _, w := range t.assume(b.cond, false) {
		out = append(out, exitSt{w, vBool(condFalse), true})
	}
	return out, true
}

func decodeRune(a *An, s *State, ins ssa.Instruction, ci *callInfo) ([]exitSt, bool) {
	l := s.lenOf(ci.args[0])
	if l == nil {
		return nil, false
	}
	r := s.freshRange(types.Typ[types.Rune], 0, 0x10ffff)
	t := s.clone()
	var out []exitSt
	// empty
	for _, u := range s.assume(le(l, linC(0)), true) {
		out = append(out, exitSt{u, tuple(vInt(linC(0xfffd)), vInt(linC(0))), true})
	}
	for _, u := range t.assume(le(linC(1), l), true) {
		n := u.freshRange(tInt, 1, 4)
		u.z.assumeLe(n.lin.add(l, -1))
		out = append(out, exitSt{u, tuple(r, n), true})
	}
	return out, true
}

// ---- reflect

const (
	rkFunc      = 19
	rkInterface = 20
	rkMap       = 21
	rkPtr       = 22
	rkSlice     = 23
	rkStruct    = 25
)

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return rkFunc
	case *types.Map:
		return rkMap
	case *types.Pointer:
		return rkPtr
	case *types.Slice:
		return rkSlice
	case *types.Struct:
		return rkStruct
	}
	return -1
}

// memoVal keeps a derived value with an object.
func (s *State) memoVal(id VID, n string, mk func() Val) Val {
	for _, m := range s.fact(id).memo {
		if m.n == n {
			return m.v
		}
	}
	v := mk()
	s.upd(id, func(f *Fact) { f.memo = append(append([]tmemo{}, f.memo...), tmemo{nil, n, v}) })
	return v
}

func (s *State) setMemo(id VID, n string, v Val) {
	s.upd(id, func(f *Fact) {
		var r []tmemo
		for _, m := range f.memo {
			if m.n != n {
				r = append(r, m)
			}
		}
		f.memo = append(r, tmemo{nil, n, v})
	})
}

// rKind is the kind of a reflect.Value or reflect.Type.
func (s *State) rKind(id VID) Val {
	return s.memoVal(id, "kind", func() Val { return s.freshRange(types.Typ[types.Uint], 0, 26) })
}

func (a *An) reflectCall(s *State, ins ssa.Instruction, ci *callInfo, name string) ([]exitSt, bool) {
	what := name
	if strings.HasPrefix(name, "invoke ") {
		what = name[7:]
	}
	valid := func(x Val) bool {
		if x.k != KRef {
			return true
		}
		ok := s.fact(x.id).nl == 2
		a.ob(s, ins, "reflect", what+" on "+a.describe(ci.com.Args[0]), ok, "the value may be invalid")
		return s.setNil(x.id, false)
	}
	kindIn := func(x Val, ks ...int64) bool {
		k := s.rKind(x.id)
		var b bset
		for _, n := range ks {
			b.add(int(n))
		}
		ok := false
		if k.k == KInt {
			lo, hi := s.z.lb_(k.lin), s.z.ub_(k.lin)
			if lo >= 0 && hi < 64 {
				ok = true
				for n := lo; n <= hi; n++ {
					if !b.has(int(n)) {
						ok = false
					}
				}
			}
		}
		a.ob(s, ins, "reflect", what+" on "+a.describe(ci.com.Args[0])+" of the right kind", ok, "the kind is not known")
		return true
	}
	typeT := func() types.Type {
		return ci.typ.(*types.Tuple).At(0).Type()
	}
	mkValid := func(t types.Type) Val { return vRef(s.newRef(t, 2)) }
	switch name {
	case "reflect.ValueOf", "reflect.TypeOf":
		x := ci.args[0]
		s.escape(x)
		if x.k != KRef {
			return nil, false
		}
		mk := func(s *State, nl int8) Val {
			id := s.newRef(typeT(), nl)
			f := s.fact(x.id)
			if nl == 2 {
				if f.dyn != nil {
					if k := kindOf(f.dyn); k >= 0 {
						s.setMemo(id, "kind", vInt(linC(k)))
					}
					if f.pay != nil && s.nilness(*f.pay) == 2 {
						s.setMemo(id, "nonnil", vBool(condTrue))
					}
				} else if isIface(ci.com.Args[0].Type()) {
					s.setMemo(id, "kind", s.freshRange(types.Typ[types.Uint], 1, 26))
				}
				s.setMemo(id, "of", x)
			} else {
				s.setMemo(id, "kind", vInt(linC(0)))
			}
			return vRef(id)
		}
		t := s.clone()
		var out []exitSt
		if s.setNil(x.id, true) {
			out = append(out, exitSt{s, mk(s, 1), true})
		}
		if t.setNil(x.id, false) {
			out = append(out, exitSt{t, mk(t, 2), true})
		}
		return out, true
	case "reflect.Zero":
		if !a.notNil(s, ins, ci.args[0], "type given to reflect.Zero") {
			return nil, true
		}
		v := mkValid(typeT())
		s.setMemo(v.id, "type", ci.args[0])
		return ret(s, v), true
	case "reflect.DeepEqual":
		return ret(s, s.freshBool()), true
	}
	if !strings.HasPrefix(name, "(reflect.Value).") && !strings.HasPrefix(name, "invoke (reflect.Type).") {
		return nil, false
	}
	x := ci.fv
	if !ci.com.IsInvoke() {
		x = ci.args[0]
	}
	if x.k != KRef {
		return nil, false
	}
	switch name {
	case "(reflect.Value).IsValid":
		return ret(s, vBool((&Cond{op: CNil, id: x.id}).not())), true
	case "(reflect.Value).Kind":
		k := s.rKind(x.id)
		switch s.fact(x.id).nl {
		case 2:
			for _, t := range s.assume(le(linC(1), k.lin), true) {
				return ret(t, k), true
			}
			return nil, true
		case 1:
			return ret(s, vInt(linC(0))), true
		}
		t := s.clone()
		var out []exitSt
		if s.setNil(x.id, true) {
			for _, u := range s.assume(&Cond{op: CEq, l: k.lin}, true) {
				out = append(out, exitSt{u, vInt(linC(0)), true})
			}
		}
		if t.setNil(x.id, false) {
			for _, u := range t.assume(le(linC(1), k.lin), true) {
				out = append(out, exitSt{u, k, true})
			}
		}
		return out, true
	case "(reflect.Value).Type":
		if !valid(x) {
			return nil, true
		}
		k := s.rKind(x.id)
		v := s.memoVal(x.id, "type", func() Val {
			id := s.newRef(typeT(), 2)
			s.setMemo(id, "kind", k)
			return vRef(id)
		})
		return ret(s, v), true
	case "invoke (reflect.Type).String":
		v := s.memoVal(x.id, "String", func() Val {
			v := s.fresh(typeT())
			for _, m := range s.fact(x.id).memo {
				if m.n == "of" {
					if f := s.fact(m.v.id); f.dyn != nil {
						return s.strConst(types.TypeString(f.dyn, func(p *types.Package) string { return p.Name() }))
					}
					s.setMemo(v.id, "tyof", m.v)
				}
			}
			return v
		})
		return ret(s, v), true
	case "invoke (reflect.Type).Kind":
		return ret(s, s.rKind(x.id)), true
	case "(reflect.Value).IsNil":
		if !valid(x) {
			return nil, true
		}
		kindIn(x, 18, rkFunc, rkInterface, rkMap, rkPtr, rkSlice, 26)
		for _, m := range s.fact(x.id).memo {
			if m.n == "nonnil" {
				return ret(s, vBool(m.v.cond.not())), true
			}
		}
		b := s.memoVal(x.id, "nonnil", func() Val { return s.freshBool() })
		return ret(s, vBool(b.cond.not())), true
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer":
		if !valid(x) {
			return nil, true
		}
		kindIn(x, 18, rkFunc, rkMap, rkPtr, rkSlice, 26)
		return ret(s, s.fresh(typeT())), true
	case "(reflect.Value).Interface":
		if !valid(x) {
			return nil, true
		}
		return ret(s, s.fresh(typeT())), true
	case "(reflect.Value).MethodByName":
		if !valid(x) {
			return nil, true
		}
		v := s.fresh(typeT())
		s.setMemo(v.id, "kind?", vInt(linC(rkFunc)))
		s.setMemo(v.id, "nonnil", vBool(condTrue))
		t := s.clone()
		s.setNil(v.id, true)
		s.setMemo(v.id, "kind", vInt(linC(0)))
		t.setNil(v.id, false)
		t.setMemo(v.id, "kind", vInt(linC(rkFunc)))
		return []exitSt{{s, v, true}, {t, v, true}}, true
	case "(reflect.Value).FieldByName", "(reflect.Value).NumField", "(reflect.Value).Field":
		if !valid(x) {
			return nil, true
		}
		kindIn(x, rkStruct)
		return ret(s, s.fresh(typeT())), true
	case "invoke (reflect.Type).NumIn":
		kindInType(a, s, ins, ci, x, what)
		return ret(s, s.memoVal(x.id, "NumIn", func() Val { return s.freshRange(tInt, 0, posInf) })), true
	case "invoke (reflect.Type).IsVariadic":
		kindInType(a, s, ins, ci, x, what)
		return ret(s, s.memoVal(x.id, "IsVariadic", func() Val { return s.freshBool() })), true
	case "invoke (reflect.Type).In":
		kindInType(a, s, ins, ci, x, what)
		n := s.memoVal(x.id, "NumIn", func() Val { return s.freshRange(tInt, 0, posInf) })
		i := ci.args[0]
		if i.k != KInt {
			return nil, false
		}
		var out []exitSt
		for _, t := range a.inBounds(s, ins, "reflect.Type.In", i.lin, n.lin) {
			v := t.fresh(typeT())
			t.upd(v.id, func(f *Fact) { f.nl = 2 })
			if a.m.terms {
				v = t.term(v, "in", x, i)
			}
			out = append(out, exitSt{t, v, true})
		}
		return out, true
	case "(reflect.Value).Call", "(reflect.Value).CallSlice":
		if !valid(x) {
			return nil, true
		}
		kindIn(x, rkFunc)
		nn := s.memoVal(x.id, "nonnil", func() Val { return s.freshBool() })
		a.ob(s, ins, "reflect", what+" on a function that is not nil", s.prove(nn.cond), "the function may be nil")
		k := s.rKind(x.id)
		ty := s.memoVal(x.id, "type", func() Val {
			id := s.newRef(nil, 2)
			s.setMemo(id, "kind", k)
			return vRef(id)
		})
		n := s.memoVal(ty.id, "NumIn", func() Val { return s.freshRange(tInt, 0, posInf) })
		l := s.lenOf(ci.args[1])
		ok := s.prove(le(n.lin, l)) && s.prove(le(l, n.lin))
		a.ob(s, ins, "reflect", what+" with as many arguments as parameters", ok, "the number of arguments may differ")
		f := s.fact(ci.args[1].id)
		a.ob(s, ins, "reflect", what+" with valid arguments", f.enn || s.z.ub_(l) <= 0, "an argument may be the zero Value")
		for _, v := range ci.args {
			s.escape(v)
		}
		s.havocAll()
		v := s.fresh(typeT())
		s.upd(v.id, func(f *Fact) { f.enn = true })
		return ret(s, v), true
	}
	if strings.HasPrefix(name, "(reflect.Value).") && !valid(x) {
		return nil, true
	}
	return nil, false
}

func kindInType(a *An, s *State, ins ssa.Instruction, ci *callInfo, x Val, what string) {
	k := s.rKind(x.id)
	ok := s.z.lb_(k.lin) == rkFunc && s.z.ub_(k.lin) == rkFunc
	a.ob(s, ins, "reflect", what+" on the type of a function", ok, "the kind is not known")
}
