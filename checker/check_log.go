package main

// C23, C24: the log. Abstract interpretation with the position in the file,
// the bytes consumed and what is not yet synced as ghost state.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// touching: the functions of the repository that can reach a call of the kind given.
func (p *Prog) touching(is func(c *ssa.CallCommon, n string) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.fns {
			if m[f] {
				continue
			}
		scan:
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					hit := is(c.Common(), callName(c.Common()))
					for _, g := range p.calleesOf(c.Common()) {
						hit = hit || m[g]
					}
					if hit {
						m[f] = true
						ch = true
						break scan
					}
				}
			}
		}
	}
	return m
}

// skip: the call of a function whose effects do not matter here.
func (s *State) skip(ins ssa.Instruction, ci *callInfo) []exitSt {
	for _, v := range ci.args {
		s.escape(v)
	}
	s.havoc(s.a.modsOf(ci.fn))
	return s.a.results(s, ci)
}

func isNamedPtr(t types.Type, pkg, name string) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

type modeFail struct {
	rule, key, pos, msg string
}

// modeRun analyses one root in a mode and collects what its hooks report.
type modeRun struct {
	r    *Report
	root *ssa.Function
	// per obligation: the first failure, or ""
	obs map[string]*modeFail
	cnt map[string]int
	// the obligations are reported later, or not at all
	hold  bool
	quiet bool
}

func newModeRun(r *Report, root *ssa.Function) *modeRun {
	return &modeRun{r: r, root: root, obs: map[string]*modeFail{}, cnt: map[string]int{}}
}

func (m *modeRun) ob(s *State, ok bool, rule, what, pos, msg string) {
	k := rule + "|" + what + "|" + pos
	m.cnt[k]++
	o := m.obs[k]
	if o == nil {
		o = &modeFail{rule, m.r.p.short(m.root) + ": " + what, pos, ""}
		m.obs[k] = o
	}
	if !ok && o.msg == "" {
		o.msg = msg + " (in " + s.trace(s.a) + ")"
		if m.r.dbg && !m.quiet {
			fmt.Println(o.key, o.pos, o.msg)
			fmt.Println(s.dump())
		}
	}
}

func (m *modeRun) run(mode *Mode) {
	a := newAn(m.r.p)
	a.m = mode
	if mode.parts > 0 {
		a.maxPart = mode.parts
	}
	a.addRoot(m.root)
	a.solve()
	if a.over {
		m.r.fail("analysis", m.r.p.short(m.root), "", a.overWhy)
	}
	st, _ := m.r.extra["abstract_steps"].(int)
	m.r.extra["abstract_steps"] = st + a.steps
	for f := range a.sums {
		f := f.fn
		m.r.saw(f)
	}
	if !m.hold {
		m.report()
	}
}

func (m *modeRun) report() {
	for _, k := range sortedKeys(m.obs) {
		o := m.obs[k]
		m.r.ob(o.msg == "", o.rule, o.key, o.pos, o.msg)
	}
}

func logIO(c *ssa.CallCommon, n string) bool {
	if strings.HasPrefix(n, "(*os.File).") || strings.HasPrefix(n, "os.") || strings.HasPrefix(n, "(*bufio.") || strings.HasPrefix(n, "bufio.") || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "(io.") {
		return true
	}
	if strings.HasPrefix(n, "(*bytes.Buffer).") && len(c.Args) > 0 {
		return ownBuffer(c.Args[0])
	}
	for _, a := range c.Args {
		if isNamedPtr(a.Type(), "os", "File") {
			return true
		}
	}
	return false
}

// ownBuffer: a buffer that is a field of a Log.
func ownBuffer(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		n, ok := deref(x.X.Type()).(*types.Named)
		return ok && n.Obj().Name() == "Log"
	case *ssa.UnOp:
		return ownBuffer(x.X)
	case *ssa.MakeInterface:
		return ownBuffer(x.X)
	case *ssa.Parameter:
		return isNamedPtr(x.Type(), "bytes", "Buffer") && x.Parent().Signature.Recv() != nil && isNamedPtr(x.Parent().Signature.Recv().Type(), "github.com/rveen/ogdl", "Log")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ownBuffer(e) {
				return true
			}
		}
	}
	return false
}

// logMode tracks the file and the buffer of a log.
func logMode(m *modeRun, touch map[*ssa.Function]bool) *Mode {
	p := m.r.p
	tInt64 := types.Typ[types.Int64]
	errT := types.Universe.Lookup("error").Type()
	wrote := func(s *State, ins ssa.Instruction, b Val) {
		at := p.insPos(ins)
		m.ob(s, s.gh.tags["pos"] == "end", "append", "write at the end", at, "the file is written to without having moved to its end: position is "+s.gh.tags["pos"])
		if s.gh.tags["rec"] == "no" {
			s.gh.tags["rec"] = "file"
			if l, ok := s.gh.ints["pos"]; ok {
				s.gh.ints["rec"] = l
			}
		}
		s.gh.tags["dirty"] = "yes"
		if l, ok := s.gh.ints["pos"]; ok {
			if n := s.lenOf(b); n != nil {
				s.gh.ints["pos"] = l.add(n, 1)
			} else {
				delete(s.gh.ints, "pos")
			}
		}
	}
	return &Mode{name: "log", noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			g.tags["pos"] = "unknown"
			g.tags["dirty"] = "no"
			g.tags["rec"] = "no"
			g.tags["read"] = "no"
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			// positions are far from the limits of their type
			for _, q := range fn.Params {
				if v := s.top().env[q]; v.k == KInt && fn == m.root {
					if id, ok := v.lin.single(); ok {
						s.upd(id, func(f *Fact) { f.full = false })
						s.z.setLo(id, -1<<40)
						s.z.setHi(id, 1<<60)
					}
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return touch[fn] && len(s.frames) < 14 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if _, ok := ins.(*ssa.Go); ok {
				// what another goroutine does is not done when this one returns
				if c.fn != nil && touch[c.fn] || logIO(c.com, callName(c.com)) {
					for _, rule := range []string{"append", "sync"} {
						m.ob(s, false, rule, "goroutine", p.insPos(ins), "the file of the log is used by another goroutine, not known to have ended before returning")
					}
				}
				return []exitSt{{s, Val{}, false}}, true
			}
			if c.fn != nil && p.isFn[c.fn] {
				if touch[c.fn] {
					return nil, false
				}
				return s.skip(ins, c), true
			}
			n := callName(c.com)
			if c.fn != nil && !p.isFn[c.fn] && c.com.IsInvoke() {
				n = c.fn.RelString(nil)
			}
			at := p.insPos(ins)
			switch n {
			case "(*os.File).Seek":
				off, wh := c.args[1].lin, c.args[2].lin
				f := s.clone()
				res := s.fresh(tInt64)
				s.gh.tags["read"] = "no"
				switch {
				case wh.isConst() && wh.c == 2 && off.isConst() && off.c == 0:
					s.gh.tags["pos"] = "end"
					s.gh.ints["pos"] = res.lin
				case wh.isConst() && wh.c == 0:
					s.gh.tags["pos"] = "given"
					s.gh.ints["pos"] = off
					res = vInt(off)
				case wh.isConst() && wh.c == 1 && off.isConst() && off.c == 0:
					if l, ok := s.gh.ints["pos"]; ok {
						res = vInt(l)
					}
				default:
					s.gh.tags["pos"] = "unknown"
					delete(s.gh.ints, "pos")
				}
				out := []exitSt{{s, tuple(res, s.errVal(true)), true}}
				if !(wh.isConst() && wh.c == 2) {
					// moving to the end of an open file does not fail
					f.gh.tags["pos"] = "unknown"
					delete(f.gh.ints, "pos")
					out = append(out, exitSt{f, tuple(f.fresh(tInt64), f.errVal(false)), true})
				}
				return out, true
			case "(*os.File).Write", "(*os.File).WriteString":
				wrote(s, ins, c.args[1])
				f := s.clone()
				f.gh.tags["err"] = "yes"
				l := s.lenOf(c.args[1])
				r := vInt(l)
				if l == nil {
					r = s.fresh(tInt)
				}
				return []exitSt{{s, tuple(r, s.errVal(true)), true}, {f, tuple(f.fresh(tInt), f.errVal(false)), true}}, true
			case "(*os.File).Sync":
				s.gh.tags["dirty"] = "no"
				v, has := s.result(c)
				return []exitSt{{s, v, has}}, true
			case "(*os.File).Truncate", "(*os.File).WriteAt", "os.Truncate", "os.Create", "os.Remove", "os.RemoveAll", "os.Rename", "os.WriteFile", "io/ioutil.WriteFile":
				m.ob(s, false, "append", n, at, n+" can destroy what the log holds")
				return nil, false
			case "(*os.File).ReadAt":
				s.gh.tags["readat"] = "yes"
				s.gh.ints["readat"] = c.args[2].lin
				return nil, false
			case "(*os.File).Close", "(*os.File).Name", "(*os.File).Fd", "(*os.File).Stat", "(*os.File).Chmod":
				return nil, false
			case "(*os.File).Read", "io.ReadFull", "io.ReadAll", "io.Copy", "io.CopyN", "io.ReadAtLeast", "io/ioutil.ReadAll":
				s.gh.tags["pos"] = "unknown"
				delete(s.gh.ints, "pos")
				s.gh.tags["read"] = "yes"
				return nil, false
			case "bufio.NewReader", "bufio.NewReaderSize":
				s.gh.tags["pos"] = "reader"
				s.gh.ints["cons"] = linC(0)
				return nil, false
			case "(*bufio.Reader).ReadByte":
				m.readAt(s, ins)
				f := s.clone()
				b := s.fresh(types.Typ[types.Byte])
				if l, ok := s.gh.ints["cons"]; ok {
					s.gh.ints["cons"] = l.addK(1)
				}
				return []exitSt{{s, tuple(b, s.errVal(true)), true}, {f, tuple(vInt(linC(0)), f.errVal(false)), true}}, true
			case "(*bufio.Reader).UnreadByte":
				if l, ok := s.gh.ints["cons"]; ok {
					s.gh.ints["cons"] = l.addK(-1)
				}
				return nil, false
			case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
				if !ownBuffer(c.com.Args[0]) {
					return nil, false
				}
				l, ok := s.gh.ints["blen"]
				if !ok {
					l = s.freshRange(tInt, 0, posInf).lin
				}
				if s.gh.tags["rec"] == "no" {
					s.gh.tags["rec"] = "buffer"
					s.gh.ints["rec"] = l
				}
				k := s.lenOf(c.args[1])
				if k != nil {
					s.gh.ints["blen"] = l.add(k, 1)
				}
				m.ob(s, true, "append", "append to the buffer", at, "")
				return nil, false
			case "(*bytes.Buffer).Len":
				if !ownBuffer(c.com.Args[0]) {
					return nil, false
				}
				l, ok := s.gh.ints["blen"]
				if !ok {
					l = s.freshRange(tInt, 0, posInf).lin
					s.gh.ints["blen"] = l
				}
				return ret(s, vInt(l)), true
			case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Available":
				return nil, false
			}
			if strings.HasPrefix(n, "(*bytes.Buffer).") && ownBuffer(c.com.Args[0]) {
				m.ob(s, false, "append", n, at, n+" removes or changes what the log holds, or its effect is not known")
				return nil, false
			}
			if strings.HasPrefix(n, "(*bufio.Reader).") {
				m.readAt(s, ins)
				delete(s.gh.ints, "cons")
				return nil, false
			}
			for _, x := range c.com.Args {
				y := x
				if mi, ok := y.(*ssa.MakeInterface); ok {
					y = mi.X
				}
				if isNamedPtr(y.Type(), "os", "File") || ownBuffer(y) {
					m.ob(s, false, "append", n, at, "the file is given to "+n+", whose effect on it is not known")
				}
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != m.root || len(s.frames) != 2 {
				return
			}
			_ = errT
			m.exit(s, v)
		},
	}
}

// readAt: the first byte of a record is read at the position given.
func (m *modeRun) readAt(s *State, ins ssa.Instruction) {
	if s.gh.tags["read"] == "yes" {
		return
	}
	s.gh.tags["read"] = "yes"
	var i *Lin
	for _, q := range m.root.Params[1:] {
		if isIntT(q.Type()) {
			i = s.frames[0].env[q].lin
		}
	}
	if i == nil {
		return
	}
	l, ok := s.gh.ints["pos"]
	m.ob(s, ok && s.prove(&Cond{op: CEq, l: l.add(i, -1)}), "record start", "reading starts at the position given", m.r.p.pos(m.root.Pos()), "reading does not start at the position given")
}

func (m *modeRun) exit(s *State, v Val) {
	p := m.r.p
	pos := p.pos(m.root.Pos())
	vals := []Val{v}
	if v.k == KTuple {
		vals = v.elts
	}
	res := m.root.Signature.Results()
	failed := s.gh.tags["err"] == "yes"
	for i := 0; i < res.Len(); i++ {
		if isErrorT(res.At(i).Type()) && s.nilness(vals[i]) == 2 {
			failed = true
		}
	}
	var num Val
	hasNum := false
	for i := 0; i < res.Len(); i++ {
		if isIntT(res.At(i).Type()) {
			num = vals[i]
			hasNum = true
		}
	}
	switch s.gh.tags["rec"] {
	case "file", "buffer":
		if hasNum && !failed {
			l, ok := s.gh.ints["rec"]
			m.ob(s, ok && num.k == KInt && s.prove(&Cond{op: CEq, l: num.lin.add(l, -1)}), "position", "start of the record in the "+s.gh.tags["rec"], pos, "the position returned is not known to be the one where the record starts")
		}
		if s.gh.tags["rec"] == "file" && !failed {
			ok := s.gh.tags["dirty"] == "no"
			if !ok {
				ok = m.syncOff(s)
			}
			m.ob(s, ok, "sync", "synced before returning", pos, "returns after a write to the file without a sync, with automatic sync on")
		}
	case unkTag:
		m.ob(s, false, "position", "start of the record", pos, "not known if a record was written")
	}
	if s.gh.tags["read"] == "yes" && hasNum && !failed {
		if num.k == KInt && num.lin.isConst() && num.lin.c <= 0 {
			// no record
			return
		}
		// no record: nothing is returned
		if s.nilness(vals[0]) == 1 {
			if l := s.lenOf(vals[0]); l == nil || isByteSlice(res.At(0).Type()) {
				return
			}
		}
		l, ok := s.gh.ints["pos"]
		if k, has := s.gh.ints["cons"]; ok && has {
			l = l.add(k, 1)
		} else {
			ok = false
		}
		m.ob(s, ok && num.k == KInt && s.prove(&Cond{op: CEq, l: num.lin.add(l, -1)}), "next", "next position", pos, "the next position returned is not known to be the one given plus the bytes read")
		if isByteSlice(res.At(0).Type()) {
			var i *Lin
			for _, q := range m.root.Params[1:] {
				if isIntT(q.Type()) {
					i = s.frames[0].env[q].lin
				}
			}
			if i == nil {
				return
			}
			n := s.lenOf(vals[0])
			m.ob(s, n != nil && s.prove(&Cond{op: CEq, l: num.lin.add(i, -1).add(n, -1)}), "next", "length of the record", pos, "the length of the bytes returned is not known to be that of the record")
			at, ok := s.gh.ints["readat"]
			m.ob(s, ok && s.prove(&Cond{op: CEq, l: at.add(i, -1)}), "next", "bytes of the record", pos, "the bytes returned are not known to be those at the position given")
		}
	}
}

// syncOff: a boolean field of the log, which turns sync on, is known to be off.
func (m *modeRun) syncOff(s *State) bool {
	if len(m.root.Params) == 0 {
		return false
	}
	recv := s.frames[0].env[m.root.Params[0]]
	st := structOf(deref(m.root.Params[0].Type()))
	if st == nil || recv.k != KRef {
		return false
	}
	for k, c := range s.cells {
		if k.base == recv.id && c.v.k == KBool && c.fld != nil && s.quick(c.v.cond) < 0 {
			return true
		}
	}
	return false
}

func (r *Report) logMethods() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.p.methodsOf("Log") {
		out = append(out, f)
	}
	if len(out) < 6 {
		r.fail("instances", "methods of Log", "", fmt.Sprintf("only %d methods of Log found", len(out)))
	}
	return out
}

func logCheck(r *Report, rules map[string]string, extra func(touch map[*ssa.Function]bool)) {
	for k, v := range rules {
		r.rule(k, v)
	}
	touch := r.p.touching(logIO)
	tmp := &Report{p: r.p, id: r.id, rules: r.rules, fnsSeen: r.fnsSeen, extra: r.extra, dbg: r.dbg}
	for _, f := range r.logMethods() {
		m := newModeRun(tmp, f)
		m.run(logMode(m, touch))
	}
	for _, o := range tmp.obs {
		if rules[o.Rule] != "" || o.Rule == "analysis" {
			r.obs = append(r.obs, o)
		}
	}
	if extra != nil {
		extra(touch)
	}
	r.assume = []string{"one process uses a log file at a time, and nothing else changes the file",
		"moving to the end of an open regular file does not fail, and a write without an error writes all bytes",
		"os.File and bufio behave as documented"}
}

func init() {
	checks["C23"] = func(r *Report) {
		logCheck(r, map[string]string{
			"append":       "every write to the file of a log happens right after moving to its end, and nothing truncates, overwrites or removes what the log holds",
			"position":     "the position returned by an operation that adds a record equals the end of the log before the record was written",
			"record start": "a reader starts to read at the position given",
			"next":         "the next position a reader returns equals the position given plus the number of bytes consumed",
			"open":         "opening a log does not truncate the file",
		}, func(touch map[*ssa.Function]bool) {
			// how files are opened
			p := r.p
			n := 0
			for _, f := range p.fns {
				if f.Pkg == nil || f.Pkg.Pkg != p.root {
					continue
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						c, ok := ins.(ssa.CallInstruction)
						if !ok {
							continue
						}
						switch nm := callName(c.Common()); nm {
						case "os.OpenFile":
							n++
							fl, ok := c.Common().Args[1].(*ssa.Const)
							v := int64(-1)
							if ok && fl.Value != nil {
								v, _ = constant.Int64Val(fl.Value)
							}
							r.ob(v >= 0 && v&0x200 == 0, "open", p.short(f)+": os.OpenFile", p.insPos(ins), "the file is opened with flags that are not known to keep its content")
						case "os.Open":
						case "os.Create", "os.Truncate", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.RemoveAll", "os.Rename":
							r.fail("open", p.short(f)+": "+nm, p.insPos(ins), nm+" destroys what the file holds")
						}
					}
				}
			}
		})
		r.floor("append", 2)
		r.floor("position", 2)
		r.floor("next", 2)
		r.floor("open", 1)
	}
	checks["C24"] = func(r *Report) {
		logCheck(r, map[string]string{
			"sync": "on every path on which the file is written and no error occurs, the file is synced after the last write, or automatic sync is known to be off, when the operation returns",
		}, nil)
		r.floor("sync", 2)
	}
}
