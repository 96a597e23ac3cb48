package main

// C25, C26, C27: remote functions. Abstract interpretation with the state of
// the connection, of the message being sent or received and of the deadline
// as ghost state.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const netPkgSuffix = "/ogdlrf"

func isConnT(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "net" {
		return false
	}
	switch n.Obj().Name() {
	case "Conn", "TCPConn", "UnixConn":
		return true
	}
	return false
}

// holdsConn: a connection, or a structure or variable with one.
func holdsConn(t types.Type, depth int) bool {
	if isConnT(t) {
		return true
	}
	if depth == 0 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsConn(u.Elem(), depth-1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsConn(u.Field(i).Type(), depth-1) {
				return true
			}
		}
	}
	return false
}

func wraps(n string) bool {
	switch n {
	case "bufio.NewReader", "bufio.NewReaderSize", "io.LimitReader", "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReadWriter", "io.TeeReader":
		return true
	}
	return false
}

// connish: the values of the package that are a connection or read from or
// write to one.
func (p *Prog) connish(fns []*ssa.Function) map[ssa.Value]bool {
	m := map[ssa.Value]bool{}
	flds := map[*types.Var]bool{}
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	is := func(v ssa.Value) bool { return v != nil && (isConnT(v.Type()) || m[v]) }
	for ch := true; ch; {
		ch = false
		set := func(v ssa.Value) {
			if v != nil && !m[v] {
				m[v] = true
				ch = true
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch i := ins.(type) {
					case *ssa.MakeInterface:
						if is(i.X) {
							set(i)
						}
					case *ssa.ChangeInterface:
						if is(i.X) {
							set(i)
						}
					case *ssa.ChangeType:
						if is(i.X) {
							set(i)
						}
					case *ssa.TypeAssert:
						if is(i.X) {
							set(i)
						}
					case *ssa.Extract:
						if m[i.Tuple] && i.Index == 0 {
							set(i)
						}
					case *ssa.Phi:
						for _, e := range i.Edges {
							if is(e) {
								set(i)
							}
						}
					case *ssa.UnOp:
						if m[i.X] {
							set(i)
						}
						if fa, ok := i.X.(*ssa.FieldAddr); ok && flds[fieldVar(fa)] {
							set(i)
						}
					case *ssa.Store:
						if is(i.Val) {
							switch a := i.Addr.(type) {
							case *ssa.Alloc:
								set(a)
							case *ssa.FieldAddr:
								if !flds[fieldVar(a)] {
									flds[fieldVar(a)] = true
									ch = true
								}
							}
						}
					case *ssa.MakeClosure:
						g := i.Fn.(*ssa.Function)
						for k, x := range i.Bindings {
							if m[x] || isConnT(deref(x.Type())) {
								set(g.FreeVars[k])
							}
						}
					}
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					com := c.Common()
					if wraps(callName(com)) {
						for _, x := range com.Args {
							if is(x) {
								if v, ok := ins.(ssa.Value); ok {
									set(v)
								}
							}
						}
					}
					if g := com.StaticCallee(); g != nil && in[g] {
						for k, x := range com.Args {
							if is(x) && k < len(g.Params) {
								set(g.Params[k])
							}
						}
						for _, gb := range g.Blocks {
							if r, ok := gb.Instrs[len(gb.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && is(r.Results[0]) {
								if v, ok := ins.(ssa.Value); ok {
									set(v)
								}
							}
						}
					}
				}
			}
		}
	}
	return m
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	return structOf(deref(fa.X.Type())).Field(fa.Field)
}

type netAn struct {
	r     *Report
	fns   []*ssa.Function
	con   map[ssa.Value]bool
	touch map[*ssa.Function]bool
	order map[string]bool // byte orders used
}

func (na *netAn) is(v ssa.Value) bool { return isConnT(v.Type()) || na.con[v] }

// op: what a call does to a connection: "", close, read, write, readfull,
// deadline, nodeadline, dial, accept, wrap.
func (na *netAn) op(c *ssa.CallCommon, n string) (string, int) {
	switch n {
	case "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.DialTCP":
		return "dial", -1
	case "(net.Listener).Accept", "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP":
		return "accept", -1
	}
	if c.IsInvoke() || strings.HasPrefix(n, "(*net.") || strings.HasPrefix(n, "(*bufio.") {
		recv := c.Value
		if !c.IsInvoke() {
			if len(c.Args) == 0 {
				return "", -1
			}
			recv = c.Args[0]
		}
		if !na.is(recv) {
			return "", -1
		}
		m := n[strings.LastIndex(n, ".")+1:]
		switch {
		case m == "Close":
			return "close", -1
		case m == "SetDeadline", m == "SetReadDeadline":
			return "deadline", -1
		case m == "Read":
			return "read", -1
		case m == "Write":
			return "write", -1
		case strings.HasPrefix(m, "Read"), m == "Peek", m == "Discard", m == "Fill":
			return "rawread", -1
		case strings.HasPrefix(m, "Write"), m == "Flush":
			return "rawwrite", -1
		}
		return "", -1
	}
	for k, x := range c.Args {
		if !na.is(x) {
			continue
		}
		g := c.StaticCallee()
		if g == nil {
			return "", -1 // a handler
		}
		for _, f := range na.fns {
			if f == g {
				return "", -1
			}
		}
		switch {
		case n == "io.ReadFull":
			return "readfull", k
		case n == "io.ReadAtLeast":
			return "rawread", k
		case n == "encoding/binary.Write":
			return "binwrite", k
		case n == "io.WriteString", strings.HasPrefix(n, "fmt.Fprint"), n == "(*net.Buffers).WriteTo":
			return "rawwrite", k
		case wraps(n):
			return "wrap", k
		case strings.HasPrefix(n, "log."), strings.HasPrefix(n, "fmt."):
			return "", -1
		}
		return "rawread", k
	}
	return "", -1
}

// decodes: a function of the root package that makes a graph from bytes.
func (na *netAn) decodes(f *ssa.Function) bool {
	p := na.r.p
	if f == nil || !p.isFn[f] || f.Pkg == nil || f.Pkg.Pkg != p.root {
		return false
	}
	sg := f.Signature
	return sg.Recv() == nil && sg.Params().Len() == 1 && isByteSlice(sg.Params().At(0).Type()) && sg.Results().Len() >= 1 && p.isGraphPtr(sg.Results().At(0).Type())
}

func (na *netAn) order4(n string) (string, bool) {
	for _, o := range []string{"bigEndian", "littleEndian"} {
		if n == "(encoding/binary."+o+").PutUint32" {
			na.order[o] = true
			return "put", true
		}
		if n == "(encoding/binary."+o+").Uint32" {
			na.order[o] = true
			return "get", true
		}
	}
	return "", false
}

func (na *netAn) mode(m *modeRun, client bool) *Mode {
	p := m.r.p
	one := func(s *State, k string) *Lin {
		if l, ok := s.gh.ints[k]; ok {
			return l
		}
		return linC(0)
	}
	zero := func(s *State, l *Lin) bool { return l != nil && s.prove(&Cond{op: CEq, l: l}) }
	same := func(s *State, v Val) bool {
		c, ok := s.gh.refs["conn"]
		return ok && (c.id == v.id || s.quick(&Cond{op: CRefEq, id: c.id, id2: v.id}) > 0)
	}
	reset := func(s *State) {
		for _, k := range []string{"bad", "rd", "wr", "dl", "proto", "hdr", "phase", "used", "val"} {
			s.gh.tags[k] = "no"
		}
		s.gh.ints["got"] = linC(0)
		s.gh.ints["left"] = linC(0)
		delete(s.gh.ints, "ann")
		delete(s.gh.ints, "hv")
		delete(s.gh.refs, "hb")
	}
	use := func(s *State, at, what string) {
		m.ob(s, s.gh.tags["bad"] == "no", "after error", what, at, "the connection is used after a failed read or write on it")
		if client {
			m.ob(s, s.gh.tags["st"] != "closed", "after error", what+" on an open connection", at, "the connection may have been closed")
		}
		s.gh.tags["used"] = "yes"
	}
	proto := func(s *State, pr, at string) {
		if s.gh.tags["proto"] == "no" {
			s.gh.tags["proto"] = pr
		}
		m.ob(s, s.gh.tags["proto"] == pr, "framing", "one kind of framing", at, "messages with a length and messages without are mixed in one exchange")
	}
	wrote := func(s *State, ins ssa.Instruction, b Val, at string) {
		use(s, at, "write")
		if client {
			m.ob(s, s.gh.tags["rd"] == "no", "reuse", "request", at, "a request is sent on a connection that was used for another one in the same call, which must have failed")
		}
		s.gh.tags["wr"] = "yes"
		l := s.lenOf(b)
		hb, has := s.gh.refs["hb"]
		switch {
		case l == nil:
			m.ob(s, false, "framing", "message sent", at, "length of what is written is not known")
		case s.gh.tags["hdr"] == "body":
			s.gh.ints["left"] = one(s, "left").add(l, -1)
			ok := zero(s, s.gh.ints["left"])
			m.ob(s, ok || s.prove(&Cond{op: CLe, l: linC(0).add(one(s, "left"), -1)}), "framing", "bytes after the length", at, "the number of bytes written is not known to be the length sent")
			if ok {
				s.gh.tags["hdr"] = "no"
				s.gh.ints["left"] = linC(0)
			}
		case has && s.baseOf(hb) == s.baseOf(b):
			proto(s, "framed", at)
			s.gh.ints["left"] = one(s, "hv").addK(4).add(l, -1)
			s.gh.tags["hdr"] = "body"
			ok := zero(s, l.addK(-4))
			done := zero(s, s.gh.ints["left"])
			m.ob(s, ok || done, "framing", "length sent", at, "neither the four bytes of the length nor a whole message")
			if done {
				s.gh.tags["hdr"] = "no"
				s.gh.ints["left"] = linC(0)
			}
		default:
			proto(s, "raw", at)
		}
		if !client {
			s.gh.tags["dl"] = "stale"
		}
	}
	reads := func(s *State, at string) {
		use(s, at, "read")
		m.ob(s, s.gh.tags["dl"] == "set", "deadline", "read", at, "reads from the connection; deadline for this exchange: "+s.gh.tags["dl"])
		m.ob(s, s.gh.tags["hdr"] != "body", "framing", "message complete before reading", at, "the message announced has not been written completely")
		s.gh.tags["rd"] = "yes"
		if hb, ok := s.gh.refs["hb"]; ok {
			_ = hb
			delete(s.gh.refs, "hb")
			delete(s.gh.ints, "hv")
		}
	}
	fails := func(s *State) { s.gh.tags["bad"] = "yes" }
	return &Mode{name: "net", noOb: true, bases: true, noWrap: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.ints["got"] = linC(0)
			g.ints["left"] = linC(0)
			for _, k := range []string{"bad", "rd", "wr", "dl", "proto", "hdr", "phase", "used", "val"} {
				g.tags[k] = "no"
			}
			g.tags["st"] = "none"
			g.tags["new"] = "no"
			g.tags["old"] = "no"
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != m.root {
				return
			}
			if client {
				s.gh.tags["st"] = "open"
				s.gh.refs["conn"] = Val{k: KRef, id: s.newRef(connField(fn).Type(), 0)}
				recv := s.top().env[fn.Params[0]]
				s.setCell(Val{k: KPtr, id: recv.id, path: fieldPath(fn), fld: connField(fn)}, s.gh.refs["conn"], connField(fn).Type())
				return
			}
			for _, q := range fn.Params {
				if holdsConn(q.Type(), 2) {
					s.gh.tags["st"] = "open"
				}
			}
			for _, q := range fn.FreeVars {
				if holdsConn(q.Type(), 3) {
					s.gh.tags["st"] = "open"
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return na.touch[fn] && len(s.frames) < 14 },
		store: func(s *State, ins ssa.Instruction, ptr Val, v Val) {
			st, ok := ins.(*ssa.Store)
			if !client || !ok || !isConnT(st.Val.Type()) {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldVar(fa) != connField(m.root) {
				return
			}
			at := p.insPos(ins)
			old := s.gh.refs["conn"]
			m.ob(s, s.gh.tags["old"] == "no", "release", "connection replaced", at, "the connection held before may still be open")
			if s.gh.tags["st"] != "closed" && s.nilness(old) != 1 {
				// it must be closed before returning
				s.gh.tags["old"] = "open"
				s.gh.refs["old"] = old
			}
			switch {
			case s.nilness(v) == 1:
				s.gh.tags["st"] = "none"
				s.gh.refs["conn"] = v
				s.gh.tags["used"] = "no"
			case s.gh.tags["new"] == "yes" && s.gh.refs["new"].id == v.id:
				reset(s)
				s.gh.tags["st"] = "open"
				s.gh.tags["new"] = "no"
				s.gh.refs["conn"] = v
				delete(s.gh.refs, "new")
			default:
				m.ob(s, false, "release", "connection stored", at, "not known which connection is stored")
			}
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn != nil && p.isFn[c.fn] && !na.decodes(c.fn) {
				if _, isGo := ins.(*ssa.Go); !isGo {
					if na.touch[c.fn] {
						return nil, false
					}
				}
			}
			n := callName(c.com)
			if c.fn != nil && c.com.IsInvoke() {
				n = "(" + types.TypeString(c.com.Value.Type(), nil) + ")." + c.com.Method.Name()
			}
			at := p.insPos(ins)
			if _, isGo := ins.(*ssa.Go); isGo {
				hand := false
				for _, x := range c.com.Args {
					hand = hand || holdsConn(x.Type(), 2)
				}
				if mc, ok := c.com.Value.(*ssa.MakeClosure); ok {
					for _, x := range mc.Bindings {
						hand = hand || holdsConn(x.Type(), 3)
					}
				}
				if hand {
					s.gh.tags["st"] = "none"
				}
				return nil, false
			}
			if na.decodes(c.fn) && len(c.args) == 1 {
				if s.gh.tags["rd"] == "yes" {
					_, isC := c.com.Args[0].(*ssa.Const)
					if !isC {
						ann, ok := s.gh.ints["ann"]
						ok = ok && s.gh.tags["phase"] == "body" && s.gh.tags["bad"] == "no"
						l := s.lenOf(c.args[0])
						m.ob(s, ok && l != nil && zero(s, ann.add(one(s, "got"), -1)) && zero(s, ann.add(l, -1)), "complete", "decoded after all bytes", at, "a message is decoded that is not known to be complete")
						s.gh.tags["phase"] = "no"
						s.gh.ints["got"] = linC(0)
						delete(s.gh.ints, "ann")
					}
				}
				return s.skip(ins, c), true
			}
			if k, ok := na.order4(n); ok {
				if k == "put" {
					s.gh.refs["hb"] = c.args[1]
					if v := c.args[2]; v.k == KInt {
						s.gh.ints["hv"] = v.lin
					}
					return ret0(s), true
				}
				m.ob(s, zero(s, one(s, "got").addK(-4)) && s.gh.tags["bad"] == "no", "complete", "length decoded", at, "the length is decoded without its four bytes having been read")
				v := s.freshRange(types.Typ[types.Uint32], 0, 1<<32-1)
				s.gh.ints["ann"] = v.lin
				s.gh.ints["got"] = linC(0)
				s.gh.tags["phase"] = "body"
				proto(s, "framed", at)
				return ret(s, v), true
			}
			o, k := na.op(c.com, n)
			switch o {
			case "", "wrap":
				if c.fn != nil && p.isFn[c.fn] && !na.touch[c.fn] {
					return s.skip(ins, c), true
				}
				return nil, false
			case "dial":
				m.ob(s, s.gh.tags["new"] == "no", "release", "connection dialed", at, "a connection just made is dropped")
				v := s.fresh(c.typ.(*types.Tuple).At(0).Type())
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				f := s.clone()
				s.gh.tags["new"] = "yes"
				s.gh.refs["new"] = v
				return []exitSt{{s, tuple(v, s.errVal(true)), true}, {f, tuple(f.nilVal(c.typ.(*types.Tuple).At(0).Type()), f.errVal(false)), true}}, true
			case "accept":
				m.ob(s, s.gh.tags["st"] != "open", "release", "connection accepted", at, "the connection accepted before is neither handled nor closed")
				v := s.fresh(c.typ.(*types.Tuple).At(0).Type())
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				f := s.clone()
				reset(s)
				s.gh.tags["st"] = "open"
				return []exitSt{{s, tuple(v, s.errVal(true)), true}, {f, tuple(f.nilVal(c.typ.(*types.Tuple).At(0).Type()), f.errVal(false)), true}}, true
			case "close":
				recv := c.fv
				if !c.com.IsInvoke() {
					recv = c.args[0]
				}
				if client {
					if nw, ok := s.gh.refs["new"]; ok && nw.id == recv.id {
						s.gh.tags["new"] = "no"
						delete(s.gh.refs, "new")
					} else if o, ok := s.gh.refs["old"]; ok && s.gh.tags["old"] == "open" && o.id == recv.id {
						s.gh.tags["old"] = "no"
						delete(s.gh.refs, "old")
					} else if same(s, recv) {
						s.gh.tags["st"] = "closed"
					}
				} else {
					s.gh.tags["st"] = "closed"
				}
				return nil, false
			case "deadline":
				x := c.com.Args[len(c.com.Args)-1]
				if na.future(x, 0, map[ssa.Value]bool{}) {
					s.gh.tags["dl"] = "set"
				} else {
					s.gh.tags["dl"] = "no (the time given is not known to be one)"
				}
				return nil, false
			case "write":
				b := c.args[len(c.args)-1]
				f := s.clone()
				wrote(s, ins, b, at)
				fails(f)
				f.gh.tags["used"] = "yes"
				l := s.lenOf(b)
				n := f.freshRange(tInt, 0, posInf)
				out := []exitSt{{s, tuple(vInt(l), s.errVal(true)), true}}
				for _, t := range f.assume(le(n.lin, l), true) {
					out = append(out, exitSt{t, tuple(n, t.errVal(false)), true})
				}
				return out, true
			case "read", "readfull":
				reads(s, at)
				b := c.args[len(c.args)-1]
				s.extWrites(b, types.NewSlice(types.Typ[types.Byte]))
				l := s.lenOf(b)
				f := s.clone()
				fails(f)
				nf := f.freshRange(tInt, 0, posInf)
				var out []exitSt
				if o == "readfull" {
					s.gh.ints["got"] = one(s, "got").add(l, 1)
					out = append(out, exitSt{s, tuple(vInt(l), s.errVal(true)), true})
					for _, t := range f.assume(lt(nf.lin, l), true) {
						t.gh.ints["got"] = one(t, "got").add(nf.lin, 1)
						out = append(out, exitSt{t, tuple(nf, t.errVal(false)), true})
					}
					return out, true
				}
				n := s.freshRange(tInt, 0, posInf)
				for _, t := range s.assume(le(n.lin, l), true) {
					t.gh.ints["got"] = one(t, "got").add(n.lin, 1)
					out = append(out, exitSt{t, tuple(n, t.errVal(true)), true})
				}
				for _, t := range f.assume(le(nf.lin, l), true) {
					t.gh.ints["got"] = one(t, "got").add(nf.lin, 1)
					out = append(out, exitSt{t, tuple(nf, t.errVal(false)), true})
				}
				return out, true
			case "binwrite":
				// the length, written as a number
				use(s, at, "write")
				m.ob(s, s.gh.tags["hdr"] != "body", "framing", "message complete before the next", at, "the message announced has not been written completely")
				l := na.binValue(s, c)
				ok := l != nil
				m.ob(s, ok, "framing", "length sent", at, "not known to be a 32 bit length")
				proto(s, "framed", at)
				f := s.clone()
				fails(f)
				if ok {
					s.gh.ints["left"] = l
					s.gh.tags["hdr"] = "body"
				}
				if !client {
					s.gh.tags["dl"] = "stale"
				}
				return []exitSt{{s, s.errVal(true), true}, {f, f.errVal(false), true}}, true
			case "rawread":
				_ = k
				reads(s, at)
				proto(s, "raw", at)
				if c.fn != nil && p.isFn[c.fn] {
					return s.skip(ins, c), true
				}
				return nil, false
			case "rawwrite":
				use(s, at, "write")
				m.ob(s, s.gh.tags["hdr"] != "body", "framing", n, at, "not known how many bytes are written")
				proto(s, "raw", at)
				if !client {
					s.gh.tags["dl"] = "stale"
				}
				return nil, false
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != m.root || len(s.frames) != 2 {
				return
			}
			pos := p.pos(fn.Pos())
			if !client {
				m.ob(s, s.gh.tags["st"] != "open" && s.gh.tags["st"] != unkTag, "release", "closed on exit", pos, "returns with the connection open")
				return
			}
			m.ob(s, s.gh.tags["new"] == "no", "release", "new connection kept", pos, "a connection just made is dropped without being closed")
			m.ob(s, s.gh.tags["old"] == "no", "release", "old connection closed", pos, "the connection dropped may still be open")
			conn := s.gh.refs["conn"]
			gone := s.nilness(conn) == 1
			m.ob(s, gone || s.gh.tags["st"] == "open", "reuse", "connection kept is open", pos, "a closed connection is kept for the next call")
			m.ob(s, gone || s.gh.tags["bad"] == "no", "reuse", "connection kept has not failed", pos, "a connection is kept for the next call after a failed read or write")
			vals := []Val{v}
			if v.k == KTuple {
				vals = v.elts
			}
			res := fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if !isErrorT(res.At(i).Type()) {
					continue
				}
				nl := s.nilness(vals[i])
				if s.gh.tags["used"] == "yes" {
					m.ob(s, gone || nl == 1, "reuse", "connection kept after success only", pos, "a connection is kept for the next call although this one may return an error")
				}
				if nl != 2 && s.gh.tags["used"] == "yes" {
					m.ob(s, s.gh.tags["bad"] == "no", "after error", "failure reported", pos, "no error is returned after a failed read or write")
					m.ob(s, s.gh.tags["hdr"] != "body" && s.gh.tags["phase"] != "body", "complete", "exchange complete", pos, "no error is returned although the exchange is not complete")
				}
			}
		},
	}
}

// binValue: the number given to binary.Write, a uint32.
func (na *netAn) binValue(s *State, c *callInfo) *Lin {
	if len(c.com.Args) != 3 {
		return nil
	}
	mi, ok := c.com.Args[2].(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	b, ok := mi.X.Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Uint32 && b.Kind() != types.Int32 {
		return nil
	}
	if f := s.fact(c.args[2].id); f.pay != nil && f.pay.k == KInt {
		if strings.Contains(c.com.Args[1].String(), "ittle") {
			na.order["littleEndian"] = true
		} else {
			na.order["bigEndian"] = true
		}
		return f.pay.lin
	}
	return nil
}

// future: a time computed from the current one.
func (na *netAn) future(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if depth > 20 {
		return false
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	all := func(vs []ssa.Value) bool {
		for _, x := range vs {
			if !na.future(x, depth+1, seen) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch n := callName(&x.Call); n {
		case "time.Now":
			return true
		case "(time.Time).Add", "(time.Time).Round", "(time.Time).UTC", "(time.Time).Local", "(time.Time).Truncate", "(time.Time).AddDate":
			return na.future(x.Call.Args[0], depth+1, seen)
		}
		if g := x.Call.StaticCallee(); g != nil && na.r.p.isFn[g] {
			var vs []ssa.Value
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					vs = append(vs, r.Results[0])
				}
			}
			return all(vs)
		}
	case *ssa.Phi:
		return all(x.Edges)
	case *ssa.ChangeType:
		return na.future(x.X, depth+1, seen)
	case *ssa.UnOp:
		var vs []ssa.Value
		switch a := x.X.(type) {
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					vs = append(vs, st.Val)
				}
			}
			return all(vs)
		case *ssa.FieldAddr:
			for _, f := range na.r.p.fns {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa) == fieldVar(a) {
								vs = append(vs, st.Val)
							}
						}
					}
				}
			}
			return all(vs)
		}
	case *ssa.Parameter:
		var vs []ssa.Value
		for _, f := range na.r.p.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == x.Parent() {
						for k, q := range x.Parent().Params {
							if q == x && k < len(c.Common().Args) {
								vs = append(vs, c.Common().Args[k])
							}
						}
					}
				}
			}
		}
		return all(vs)
	}
	return false
}

// connField: the connection of the receiver of a method of a client.
func connField(fn *ssa.Function) *types.Var {
	if fn.Signature.Recv() == nil {
		return nil
	}
	st := structOf(deref(fn.Signature.Recv().Type()))
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isConnT(st.Field(i).Type()) {
			return st.Field(i)
		}
	}
	return nil
}

func fieldPath(fn *ssa.Function) string { return "." + connField(fn).Name() }

func netCheck(r *Report, rules map[string]string, floors map[string]int) {
	for k, v := range rules {
		r.rule(k, v)
	}
	p := r.p
	na := &netAn{r: r, order: map[string]bool{}}
	for _, f := range p.fns {
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), netPkgSuffix) && f.Name() != "init" {
			na.fns = append(na.fns, f)
		}
	}
	if len(na.fns) < 5 {
		r.fail("instances", "package ogdlrf", "", fmt.Sprintf("only %d functions found", len(na.fns)))
		return
	}
	na.con = p.connish(na.fns)
	in := map[*ssa.Function]bool{}
	for _, f := range na.fns {
		in[f] = true
	}
	all := p.touching(func(c *ssa.CallCommon, n string) bool {
		o, _ := na.op(c, n)
		if o != "" {
			return true
		}
		_, ok := na.order4(n)
		return ok
	})
	na.touch = map[*ssa.Function]bool{}
	for f := range all {
		if in[f] {
			na.touch[f] = true
		}
	}
	na.order = map[string]bool{}
	// the functions that start on their own
	var roots []*ssa.Function
	seen := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, f := range na.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch c := ins.(type) {
				case *ssa.Go:
					if g := c.Call.StaticCallee(); g != nil && in[g] && !seen[g] {
						seen[g] = true
						roots = append(roots, g)
					}
				case ssa.CallInstruction:
					if g := c.Common().StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	clients := 0
	for _, f := range na.fns {
		if f.Object() != nil && f.Object().Exported() && !seen[f] && (na.touch[f]) {
			seen[f] = true
			roots = append(roots, f)
		}
	}
	tmp := &Report{p: r.p, id: r.id, rules: r.rules, fnsSeen: r.fnsSeen, extra: r.extra, dbg: r.dbg}
	for _, f := range roots {
		m := newModeRun(tmp, f)
		cl := connField(f) != nil && f.Object() != nil && f.Object().Exported()
		if cl {
			clients++
		}
		m.run(na.mode(m, cl))
	}
	if clients < 3 {
		r.fail("instances", "methods of the client", "", fmt.Sprintf("only %d methods of a client that use its connection found", clients))
	}
	for _, o := range tmp.obs {
		if rules[o.Rule] != "" || o.Rule == "analysis" {
			r.obs = append(r.obs, o)
		}
	}
	if rules["order"] != "" {
		r.ob(len(na.order) == 1, "order", "byte order of lengths", "", fmt.Sprintf("lengths are sent and received in different byte orders: %v", sortedKeys(na.order)))
	}
	for k, v := range floors {
		r.floor(k, v)
	}
	r.assume = []string{"a connection that returns fewer bytes than written also returns an error (contract of io.Writer)",
		"a message is shorter than 4 GiB", "the handler given by the user neither reads nor writes messages of its own on the connection",
		"the handler of a connection deals with one connection", "no panic ends a handler (a panic of a handler ends the process)"}
}

func init() {
	checks["C25"] = func(r *Report) {
		netCheck(r, map[string]string{
			"release":     "each connection accepted is handed to a handler or closed, each handler closes it on every exit, and a client closes its connection before dropping or replacing it",
			"reuse":       "a client sends no second request on a connection whose exchange failed, and keeps no connection for the next call after an error",
			"after error": "after a failed read or write the connection is only closed, and an error is returned",
		}, map[string]int{"release": 4, "reuse": 4, "after error": 4})
	}
	checks["C26"] = func(r *Report) {
		netCheck(r, map[string]string{
			"framing":     "what is written after a length is shown to have that length, before anything is read or returned; messages with and without length are not mixed",
			"complete":    "a length is decoded after exactly four bytes were read, and a message after exactly the number of bytes announced, without error",
			"after error": "after a failed read or write the connection is only closed, and an error is returned",
			"order":       "lengths are sent and received in one byte order",
		}, map[string]int{"framing": 6, "complete": 6, "after error": 4, "order": 1})
	}
	checks["C27"] = func(r *Report) {
		netCheck(r, map[string]string{
			"deadline": "on every path, a read from a connection happens after a deadline computed from the current time was set for it, since the connection was taken or, on the server, since the last response",
		}, map[string]int{"deadline": 6})
	}
}
