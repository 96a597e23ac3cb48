package main

// C20: JSON output. Everything that is written to a buffer under the function
// that renders a graph as JSON is made of constant structure, of numbers that
// have a JSON form, or of text that the JSON encoder has escaped.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsonConst: a constant text that cannot end or begin a string.
func jsonConst(t string) bool {
	for _, c := range t {
		if !strings.ContainsRune("[]{}:, \t\r\n", c) {
			w := strings.Trim(t, "[]{}:, \t\r\n")
			return w == "null" || w == "true" || w == "false"
		}
	}
	return true
}

func isBufT(t types.Type) bool { return t.String() == "*bytes.Buffer" }

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isIntegerT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func init() {
	checks["C20"] = func(r *Report) {
		p := r.p
		r.rule("written", "what is written to JSON output is structure, an integer, a finite floating point number, or text that the JSON encoder has escaped")
		r.rule("result", "what is returned as JSON is what was written in that way")
		gp := "*" + p.root.Path() + ".Graph"
		n := 0
		for _, f := range p.fns {
			if !p.graphMethod(f, "", "-> []byte") || f.Blocks == nil || !p.encodes(f, nil) {
				continue
			}
			n++
			r.saw(f)
			r.jsonRoot(f, gp)
		}
		r.ob(n > 0, "written", "instances", "", "no method that renders a graph as JSON is found")
		r.floor("written", 6)
		r.floor("result", 1)
		r.assume = []string{"encoding/json escapes the text it is given as JSON requires", "integers and finite floating point numbers in decimal are JSON numbers"}
	}
}

// encodes: the function uses the JSON encoder, itself or through others.
func (p *Prog) encodes(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if f == nil || seen[f] || f.Blocks == nil {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil {
				continue
			}
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/json" && (strings.Contains(g.Name(), "Encode") || strings.HasPrefix(g.Name(), "Marshal")) {
				return true
			}
			if p.isFn[g] && p.encodes(g, seen) {
				return true
			}
		}
	}
	return false
}

func (s *State) memoOf(v Val, n string) (Val, bool) {
	if v.k == KRef || v.k == KPtr && v.path == "" {
		for _, m := range s.fact(v.id).memo {
			if m.n == n {
				return m.v, true
			}
		}
	}
	return Val{}, false
}

// finite: the floating point number was shown to be one.
func (s *State) finite(v Val) bool {
	a, ok := s.memoOf(v, "nan")
	b, ok2 := s.memoOf(v, "inf")
	return ok && ok2 && s.quick(a.cond) < 0 && s.quick(b.cond) < 0
}

// jsonSafe: why the text cannot be written, or nothing.
func (s *State) jsonSafe(v Val) string {
	if v.k == KInt && v.lin.isConst() {
		return map[bool]string{false: "a character that is not structure"}[jsonConst(string(rune(v.lin.c)))]
	}
	if v.k != KRef {
		return "a character that is not known"
	}
	f := s.fact(v.id)
	if f.str != nil {
		return map[bool]string{false: "a constant that is not structure"}[jsonConst(*f.str)]
	}
	if _, ok := s.memoOf(v, "json"); ok {
		return ""
	}
	if t := f.term; t != nil {
		switch t.op {
		case "+", "append":
			if s.jsonSafe(t.args[0]) == "" && s.jsonSafe(t.args[1]) == "" {
				return ""
			}
		case "string", "bytes":
			return s.jsonSafe(t.args[0])
		case "slice":
			// without the line end that the encoder writes
			n, ok := s.memoOf(t.args[0], "json")
			if ok && n.lin.c == 2 && s.prove(&Cond{op: CEq, l: t.args[1].lin}) && s.prove(&Cond{op: CEq, l: s.lenOf(t.args[0]).add(t.args[2].lin, -1).addK(-1)}) {
				return ""
			}
		}
	}
	if l := s.lenOf(v); l != nil && s.prove(&Cond{op: CEq, l: l}) {
		return ""
	}
	return "text that was not escaped"
}

func (r *Report) jsonRoot(root *ssa.Function, gp string) {
	p := r.p
	m := newModeRun(r, root)
	name := p.short(root)
	rendered := func(f *ssa.Function) bool {
		sg := f.Signature
		for i := 0; i < sg.Params().Len(); i++ {
			t := sg.Params().At(i).Type()
			if isBufT(t) || isFloat(t) || t.String() == "io.Writer" || t.String() == "*encoding/json.Encoder" {
				return true
			}
		}
		return p.encodes(f, nil)
	}
	onStack := func(s *State, f *ssa.Function) bool {
		for _, fr := range s.frames {
			if fr.fn == f {
				return true
			}
		}
		return false
	}
	good := func(x exitSt) exitSt {
		if x.has && x.v.k == KRef {
			x.s.setMemo(x.v.id, "json", vInt(linC(1)))
		}
		return x
	}
	m.run(&Mode{name: "json", terms: true, parts: 500, noGC: true,
		ghost: func(fn *ssa.Function) *Ghost { return newGhost() },
		inline: func(s *State, f *ssa.Function) bool {
			return rendered(f) && !onStack(s, f) && len(s.frames) <= 7
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				if c.com != nil && c.com.IsInvoke() && c.com.Method.Name() == "Write" {
					m.ob(s, false, "written", p.short(ins.Parent()), p.insPos(ins), "it is written to something that is not known")
				}
				return nil, false
			}
			full := c.fn.RelString(nil)
			at := p.insPos(ins)
			where := p.short(ins.Parent())
			write := func(v Val) {
				bad := s.jsonSafe(v)
				m.ob(s, bad == "", "written", where, at, bad+" is written")
			}
			pass := func(v Val) ([]exitSt, bool) {
				bad := s.jsonSafe(v)
				s.escape(v)
				out := s.a.results(s, c)
				if bad == "" {
					for _, x := range out {
						good(x)
					}
				}
				return out, true
			}
			switch full {
			case "(*bytes.Buffer).WriteString", "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
				write(c.args[1])
				return nil, false
			case "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).ReadFrom", "io.Copy", "bytes.NewBuffer", "bytes.NewBufferString":
				// from one buffer to another
				if full == "bytes.NewBuffer" || full == "bytes.NewBufferString" {
					write(c.args[0])
				}
				if full == "(*bytes.Buffer).WriteTo" || full == "io.Copy" && s.isBuf(c.args[1]) {
					return nil, false
				}
				m.ob(s, full != "(*bytes.Buffer).ReadFrom" && full != "io.Copy", "written", where, at, "something that is not known is written")
				return nil, false
			case "io.WriteString":
				write(c.args[1])
				return nil, false
			case "fmt.Sprintf", "fmt.Fprintf", "fmt.Sprint", "fmt.Fprint":
				bad := s.jsonFmt(c, full)
				if strings.HasPrefix(full, "fmt.F") {
					m.ob(s, bad == "", "written", where, at, bad+" is written")
					return s.a.results(s, c), true
				}
				out := s.a.results(s, c)
				if bad == "" {
					for _, x := range out {
						good(x)
					}
				}
				return out, true
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
				out := s.a.results(s, c)
				if b := c.args[len(c.args)-1]; full == "strconv.Itoa" || b.k == KInt && b.lin.isConst() && b.lin.c == 10 {
					for _, x := range out {
						good(x)
					}
				}
				return out, true
			case "strconv.FormatFloat":
				fin := s.finite(c.args[0])
				if fin {
					if b := c.args[1]; b.k != KInt || !b.lin.isConst() || !strings.ContainsRune("feEgG", rune(b.lin.c)) {
						fin = false
					}
				}
				out := s.a.results(s, c)
				if fin {
					for _, x := range out {
						good(x)
					}
				}
				return out, true
			case "encoding/json.Marshal", "encoding/json.MarshalIndent":
				ok := s.isTextIf(c.args[0])
				out := s.a.results(s, c)
				if ok {
					for _, x := range out {
						if x.v.k == KTuple && len(x.v.elts) == 2 && x.v.elts[0].k == KRef {
							x.s.setMemo(x.v.elts[0].id, "json", vInt(linC(1)))
							x.s.setNil(x.v.elts[1].id, true)
						}
					}
				}
				return out, true
			case "(*encoding/json.Encoder).Encode":
				m.ob(s, s.isTextIf(c.args[1]), "written", where, at, "something that is not a text is encoded")
				return s.a.results(s, c), true
			case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
				// every write to a buffer is looked at
				out := s.a.results(s, c)
				for _, x := range out {
					if x.v.k == KRef {
						x.s.setMemo(x.v.id, "json", vInt(linC(2)))
					}
				}
				return out, true
			case "bytes.TrimRight", "strings.TrimRight", "bytes.TrimSuffix", "strings.TrimSuffix", "bytes.TrimSpace", "strings.TrimSpace", "bytes.Trim", "strings.Trim", "strings.TrimLeft", "bytes.TrimLeft":
				if len(c.args) > 1 {
					if f := s.fact(c.args[1].id); c.args[1].k != KRef || f.str == nil || strings.Trim(*f.str, " \t\r\n") != "" {
						return nil, false
					}
				}
				return pass(c.args[0])
			case "math.IsNaN":
				return s.floatCase(c, "nan")
			case "math.IsInf":
				if b := c.args[1]; b.k == KInt && b.lin.isConst() && b.lin.c == 0 {
					return s.floatCase(c, "inf")
				}
				return nil, false
			}
			if p.isFn[c.fn] && (!rendered(c.fn) || onStack(s, c.fn)) {
				return s.skip(ins, c), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != root || len(s.frames) != 2 {
				return
			}
			m.ob(s, s.nilness(v) == 1 || s.jsonSafe(v) == "", "result", name, p.pos(root.Pos()), "something else may be returned")
		},
	})
}

// floatCase: whether a number is of a kind is decided once.
func (s *State) floatCase(c *callInfo, what string) ([]exitSt, bool) {
	v := c.args[0]
	if v.k != KRef {
		return nil, false
	}
	if b, ok := s.memoOf(v, what); ok {
		return ret(s, b), true
	}
	t := s.clone()
	s.setMemo(v.id, what, vBool(condTrue))
	t.setMemo(v.id, what, vBool(condFalse))
	return []exitSt{{s, vBool(condTrue), true}, {t, vBool(condFalse), true}}, true
}

// isTextIf: the interface holds a text.
func (s *State) isTextIf(v Val) bool {
	if v.k != KRef {
		return false
	}
	f := s.fact(v.id)
	return f.dyn != nil && isStrT(f.dyn)
}

// jsonFmt: why what is formatted cannot be written, or nothing.
func (s *State) jsonFmt(c *callInfo, full string) string {
	n := 0
	if strings.HasPrefix(full, "fmt.F") {
		n = 1
	}
	format := ""
	if strings.HasSuffix(full, "f") {
		f := s.fact(c.args[n].id)
		if f.str == nil {
			return "a format that is not constant"
		}
		format = *f.str
		n++
	}
	// the arguments
	list := c.args[len(c.args)-1]
	arg := func(i int64) (Val, bool) {
		for _, k := range sortedCells(s.cells) {
			if ix, ok := pathIndex(k.path); ok && k.base == list.id && ix == i {
				return s.cells[k].v, true
			}
		}
		return Val{}, false
	}
	check := func(i int64, verb byte) string {
		v, ok := arg(i)
		if !ok || v.k != KRef {
			return "a value that is not known"
		}
		f := s.fact(v.id)
		if f.dyn == nil || f.pay == nil {
			return "a value of a type that is not known"
		}
		switch {
		case isIntegerT(f.dyn) && strings.IndexByte("dv", verb) >= 0:
			return ""
		case isFloat(f.dyn) && strings.IndexByte("feEgGv", verb) >= 0:
			if !s.finite(*f.pay) {
				return "a floating point number that may not be finite"
			}
			return ""
		case strings.IndexByte("sv", verb) >= 0 && (isStrT(f.dyn) || isByteSlice(f.dyn) && verb == 's'):
			return s.jsonSafe(*f.pay)
		}
		return "a value in a form that is not JSON"
	}
	if format == "" {
		l := s.lenOf(list)
		if !l.isConst() {
			return "arguments that are not known"
		}
		for i := int64(0); i < l.c; i++ {
			if w := check(i, 'v'); w != "" {
				return w
			}
		}
		return ""
	}
	rest := ""
	i := int64(0)
	for j := 0; j < len(format); j++ {
		if format[j] != '%' {
			rest += format[j : j+1]
			continue
		}
		for j++; j < len(format) && strings.IndexByte("0123456789.+- ", format[j]) >= 0; j++ {
			if format[j] == '+' || format[j] == '0' && format[j-1] == '%' {
				return "a number in a form that is not JSON"
			}
		}
		if j == len(format) {
			return "a format that is not complete"
		}
		if w := check(i, format[j]); w != "" {
			return w
		}
		i++
	}
	if !jsonConst(rest) {
		return "a format with text that is not structure"
	}
	return ""
}

// isBuf: the interface holds a buffer.
func (s *State) isBuf(v Val) bool {
	if v.k != KRef {
		return false
	}
	f := s.fact(v.id)
	return f.dyn != nil && isBufT(f.dyn)
}
