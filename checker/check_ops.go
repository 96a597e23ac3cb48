package main

// C16, C17: operators. The functions that evaluate a binary operation are
// analysed once per operator, with the operands as opaque values and the
// results as terms over them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isOpStr(s string) bool {
	return s != "" && len(s) <= 3 && strings.Trim(s, "+-*/%&|!<>=~^") == ""
}

// opStrings: the operators that appear as string constants in a function.
func opStrings(f *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, o := range ins.Operands(nil) {
				if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && isOpStr(constant.StringVal(c.Value)) {
					m[constant.StringVal(c.Value)] = true
				}
			}
		}
	}
	return m
}

// opFns finds the function that applies a binary operator and the one that
// gives its precedence.
func (r *Report) opFns() (eval, prec *ssa.Function) {
	p := r.p
	score := func(f *ssa.Function) int { return len(opStrings(f)) }
	for _, f := range p.fns {
		if f.Pkg == nil || f.Pkg.Pkg != p.root {
			continue
		}
		n := score(f)
		sg := f.Signature
		if n >= 6 && sg.Recv() == nil && sg.Params().Len() == 1 && isStrT(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isIntT(sg.Results().At(0).Type()) {
			if prec == nil || score(prec) < n {
				prec = f
			}
		}
		if n >= 6 && sg.Params().Len() >= 1 && p.isGraphPtr(sg.Params().At(0).Type()) && sg.Results().Len() >= 1 && isIface(sg.Results().At(0).Type()) {
			if eval == nil || score(eval) < n {
				eval = f
			}
		}
	}
	if f := p.lookup("(*ogdl.Graph).evalBinary"); f != nil {
		eval = f
	}
	if f := p.lookup("ogdl.precedence"); f != nil {
		prec = f
	}
	if eval == nil {
		r.fail("instances", "evaluation of binary operators", "", "no function found that tells operators apart and evaluates them")
	}
	if prec == nil {
		r.fail("instances", "precedence", "", "no function found that gives the precedence of an operator")
	}
	return
}

// convPrim: a conversion of a value of any type to T, with a flag.
func (p *Prog) convPrim(f *ssa.Function) string {
	if f == nil || !p.isFn[f] || f.Signature.Recv() != nil || f.Signature.Params().Len() != 1 || f.Signature.Variadic() {
		return ""
	}
	it, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 0 {
		return ""
	}
	res := f.Signature.Results()
	switch res.Len() {
	case 1:
		if isStrT(res.At(0).Type()) {
			return "string"
		}
		if isByteSlice(res.At(0).Type()) {
			return "bytes"
		}
	case 2:
		if isBoolT(res.At(1).Type()) {
			switch {
			case isIntT(res.At(0).Type()):
				return "int"
			case isFloatT(res.At(0).Type()):
				return "float"
			case isBoolT(res.At(0).Type()):
				return "bool"
			}
		}
	}
	return ""
}

// conv applies a conversion as an opaque operation, once per value.
func (s *State) conv(c *callInfo, kind string) []exitSt {
	res := c.fn.Signature.Results()
	x := c.args[0]
	n := kind + " " + s.a.p.short(c.fn)
	v := s.memoVal(x.id, "as "+n, func() Val {
		w := s.fresh(res.At(0).Type())
		if w.k == KRef {
			s.upd(w.id, func(f *Fact) { f.nl = 0 })
		}
		return s.term(w, "as "+n, x)
	})
	if res.Len() == 1 {
		return ret(s, v)
	}
	k, via := s.operand(x)
	if k == "" {
		ok := s.memoVal(x.id, "ok "+n, func() Val { return s.freshBool() })
		return ret(s, tuple(v, ok))
	}
	// the paths on which an operand converts and those on which it does not
	// are kept apart, and so are those on which it is zero, true or false
	key := strings.Join(append([]string{"is", k}, via...), " ") + " " + n
	switch s.gh.tags[key] {
	case "yes":
		return ret(s, tuple(v, vBool(condTrue)))
	case "no":
		return ret(s, tuple(v, vBool(condTrue.not())))
	}
	f := s.clone()
	f.gh.tags[key] = "no"
	f.setMemo(x.id, "ok "+n, vBool(condTrue.not()))
	out := []exitSt{{f, tuple(v, vBool(condTrue.not())), true}}
	s.gh.tags[key] = "yes"
	s.setMemo(x.id, "ok "+n, vBool(condTrue))
	var c2 *Cond
	switch kind {
	case "bool":
		c2 = v.cond
	case "int":
		c2 = &Cond{op: CEq, l: v.lin}
	}
	if c2 == nil {
		return append(out, exitSt{s, tuple(v, vBool(condTrue)), true})
	}
	for _, b := range []bool{true, false} {
		for _, t := range s.clone().assume(c2, b) {
			t.gh.tags[key+" value"] = fmt.Sprint(b)
			out = append(out, exitSt{t, tuple(v, vBool(condTrue)), true})
		}
	}
	return out
}

func (s *State) termOf(v Val) *Term {
	switch v.k {
	case KInt:
		if id, ok := v.lin.single(); ok {
			return s.fact(id).term
		}
	case KRef:
		return s.fact(v.id).term
	case KBool:
		if v.cond.op == CVar {
			return s.fact(v.cond.id).term
		}
	}
	return nil
}

// operand tells which operand a value is computed from, by conversions only.
func (s *State) operand(v Val) (string, []string) {
	var via []string
	for i := 0; i < 12; i++ {
		if v.k == KRef {
			for _, k := range sortedKeys(s.gh.refs) {
				if e := s.gh.refs[k]; e.id == v.id {
					return k, via
				}
			}
			if f := s.fact(v.id); f.term == nil && f.pay != nil {
				v = *f.pay
				continue
			}
		}
		// what an operand holds
		for _, k := range sortedKeys(s.gh.refs) {
			if f := s.fact(s.gh.refs[k].id); f.pay != nil && s.sameVal(*f.pay, v) {
				return k, via
			}
		}
		t := s.termOf(v)
		if t == nil || len(t.args) != 1 {
			return "", via
		}
		if !strings.HasPrefix(t.op, "as ") && !strings.HasPrefix(t.op, "conv ") && t.op != "string" && t.op != "clone" {
			return "", via
		}
		via = append(via, t.op)
		v = t.args[0]
	}
	return "", via
}

// flags: what is known of the conversions of an operand.
func (s *State) convOK(e Val, kind string) (yes, no, any bool) {
	for _, m := range s.fact(e.id).memo {
		if strings.HasPrefix(m.n, "ok "+kind) {
			any = true
			switch s.quick(m.v.cond) {
			case 1:
				yes = true
			case -1:
				no = true
			}
		}
	}
	return
}

// zeroOf: an integer computed from the operand is known to be zero.
func (s *State) zeroOf(v Val, depth int) bool {
	if depth > 4 {
		return false
	}
	if v.k == KInt {
		if s.prove(&Cond{op: CEq, l: v.lin}) {
			return true
		}
		id, ok := v.lin.single()
		if !ok {
			return false
		}
		v = vRef(id)
	}
	if v.k != KRef {
		return false
	}
	for _, m := range s.fact(v.id).memo {
		if (strings.HasPrefix(m.n, "as ") || strings.HasPrefix(m.n, "conv ")) && s.zeroOf(m.v, depth+1) {
			return true
		}
	}
	return false
}

// arithOK tells why a value is not the result of op on the operands a and b.
func (s *State) arithOK(res Val, op, a, b string) string {
	if res.k != KRef {
		return "not known"
	}
	f := s.fact(res.id)
	if f.dyn == nil {
		if s.nilness(res) != 1 {
			return "a value that is not known"
		}
		ea, eb := s.gh.refs[a], s.gh.refs[b]
		if (op == "/" || op == "%") && s.zeroOf(eb, 0) {
			return ""
		}
		if op != "+" {
			for _, e := range []Val{ea, eb} {
				yi, ni, ai := s.convOK(e, "int")
				yf, nf, af := s.convOK(e, "float")
				if ai && af && ni && nf && !yi && !yf {
					return ""
				}
			}
		}
		return "nil, although the operands are numbers and the divisor is not known to be zero"
	}
	if isErrorT(f.dyn) || f.pay == nil {
		return "a value of type " + f.dyn.String()
	}
	t := s.termOf(*f.pay)
	if t == nil {
		return "a " + f.dyn.String() + " that is not an operation on the operands"
	}
	if t.op != op {
		return "the operation " + t.op
	}
	x, _ := s.operand(t.args[0])
	y, _ := s.operand(t.args[1])
	for i, k := range []string{x, y} {
		if k == "" {
			continue
		}
		if why := s.converted(t.args[i], s.gh.refs[k], isStrT(f.dyn), op); why != "" {
			return why
		}
	}
	yi1, _, _ := s.convOK(s.gh.refs[a], "int")
	yi2, _, _ := s.convOK(s.gh.refs[b], "int")
	if yi1 && yi2 && !isIntT(f.dyn) {
		return "a " + f.dyn.String() + ", although both operands are integers"
	}
	if !(yi1 && yi2) && isIntT(f.dyn) && op != "%" {
		return "an integer, although the operands are not both integers"
	}
	if x == a && y == b || (op == "+" || op == "*") && x == b && y == a && !isStrT(f.dyn) {
		return ""
	}
	return fmt.Sprintf("%s applied to %s and %s", op, orWhat(x), orWhat(y))
}

// converted: a value computed from an operand is one of a conversion that
// succeeded, and it is taken as text only if it is no number. An operand that
// is no number next to one that is has no specified meaning.
func (s *State) converted(v, e Val, text bool, op string) string {
	yi, ni, ai := s.convOK(e, "int")
	yf, nf, af := s.convOK(e, "float")
	none := ai && ni && !yi && af && nf && !yf
	for i := 0; i < 12; i++ {
		t := s.termOf(v)
		if t == nil || len(t.args) != 1 {
			return ""
		}
		if strings.HasPrefix(t.op, "as int") || strings.HasPrefix(t.op, "as float") {
			ok := false
			if t.args[0].k == KRef {
				for _, m := range s.fact(t.args[0].id).memo {
					ok = ok || m.n == "ok "+t.op[3:] && s.quick(m.v.cond) > 0
				}
			}
			if !ok && !none {
				return "computed from an operand that may not be a number, with no test of it"
			}
			if text {
				return "a text of a number"
			}
		}
		if strings.HasPrefix(t.op, "conv ") && t.op != "conv float64" && t.op != "conv string" && !(op == "%" && (t.op == "conv int" || t.op == "conv int64")) {
			return "computed from an operand cut to " + t.op[5:]
		}
		v = t.args[0]
	}
	return ""
}

// textual: the value is a text of an operand.
func (s *State) textual(v Val) bool {
	t := s.termOf(v)
	return t != nil && (strings.HasPrefix(t.op, "as string") || strings.HasPrefix(t.op, "as bytes") || t.op == "string")
}

func orWhat(s string) string {
	if s == "" {
		return "something else"
	}
	return s
}

// flipped and negated comparisons
var cmpFlip = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}

// compareOK tells why a condition is not the comparison of the operands.
func (s *State) compareOK(c *Cond, op, a, b string) string {
	ea, eb := s.gh.refs[a], s.gh.refs[b]
	neg := false
	d := c
	for d.op == CNot {
		neg = !neg
		d = d.x
	}
	if d.op == CVar {
		t := s.fact(d.id).term
		if t == nil || len(t.args) != 2 {
			return "not a comparison"
		}
		x, _ := s.operand(t.args[0])
		y, _ := s.operand(t.args[1])
		o := t.op
		if x == b && y == a {
			o = cmpFlip[o]
			x, y = y, x
		}
		for _, arg := range t.args {
			if k, _ := s.operand(arg); k != "" {
				if why := s.converted(arg, s.gh.refs[k], false, op); why != "" {
					return why
				}
				if s.textual(arg) && op != "==" && op != "!=" {
					return "an order of texts"
				}
			}
		}
		if x != a || y != b {
			return fmt.Sprintf("%s applied to %s and %s", t.op, orWhat(x), orWhat(y))
		}
		if neg {
			if o != "==" && o != "!=" {
				return "the negation of " + o + ", which differs for not-a-number"
			}
			o = map[string]string{"==": "!=", "!=": "=="}[o]
		}
		if o != op {
			return "the comparison " + o
		}
		return ""
	}
	// integers
	ints := func(e Val) []*Lin {
		var r []*Lin
		for _, m := range s.fact(e.id).memo {
			if strings.HasPrefix(m.n, "as int") && m.v.k == KInt {
				n := "ok" + m.n[2:]
				for _, o := range s.fact(e.id).memo {
					if o.n == n && s.quick(o.v.cond) > 0 {
						r = append(r, m.v.lin)
					}
				}
			}
		}
		return r
	}
	for _, x := range ints(ea) {
		for _, y := range ints(eb) {
			want := cmpCond(op, x, y)
			if d.op == CEq && (op == "==" && !neg || op == "!=" && neg) && (d.l.eq(x.add(y, -1)) || d.l.eq(y.add(x, -1))) {
				return ""
			}
			ok := true
			for _, t := range s.clone().assume(c, true) {
				ok = ok && t.prove(want)
			}
			for _, t := range s.clone().assume(c, false) {
				ok = ok && t.prove(want.not())
			}
			if ok {
				return ""
			}
		}
	}
	if len(ints(ea)) > 0 && len(ints(eb)) > 0 {
		return "not " + op + " of the two integers"
	}
	if d.op == CStrEq2 {
		x, _ := s.operand(vRef(d.id))
		y, _ := s.operand(vRef(d.id2))
		yi, ni, ai := s.convOK(ea, "int")
		yf, nf, af := s.convOK(ea, "float")
		if yi || yf || !ai || !ni || !af || !nf {
			return "a comparison of texts, although the first operand may be a number"
		}
		if x != y && (x == a || x == b) && (y == a || y == b) && (op == "==" && !neg || op == "!=" && neg) {
			return ""
		}
	}
	if s.quick(c) == 0 {
		return "not a comparison of the operands"
	}
	// a constant: only if they cannot be compared
	yi, _, _ := s.convOK(ea, "int")
	yf, _, _ := s.convOK(ea, "float")
	_, ni, ai := s.convOK(eb, "int")
	_, nf, af := s.convOK(eb, "float")
	if (yi || yf) && (ai && ni || af && nf) {
		return ""
	}
	if !yi && !yf && op != "==" && op != "!=" && s.quick(c) < 0 {
		return "" // strings are not ordered
	}
	return "a constant"
}

func cmpCond(op string, x, y *Lin) *Cond {
	switch op {
	case "<":
		return lt(x, y)
	case "<=":
		return le(x, y)
	case ">":
		return lt(y, x)
	case ">=":
		return le(y, x)
	case "!=":
		return (&Cond{op: CEq, l: x.add(y, -1)}).not()
	}
	return &Cond{op: CEq, l: x.add(y, -1)}
}

// logicOK tells why a condition is not a and/or of the two truth values.
func (s *State) logicOK(c *Cond, op, a, b string) string {
	ea, eb := s.gh.refs[a], s.gh.refs[b]
	truth := func(e Val) *Cond {
		for _, m := range s.fact(e.id).memo {
			if strings.HasPrefix(m.n, "as bool") && m.v.k == KBool {
				n := "ok" + m.n[2:]
				for _, o := range s.fact(e.id).memo {
					if o.n == n && s.quick(o.v.cond) > 0 {
						return m.v.cond
					}
				}
			}
		}
		return nil
	}
	x, y := truth(ea), truth(eb)
	if x == nil || y == nil {
		if s.quick(c) < 0 {
			_, n1, a1 := s.convOK(ea, "bool")
			_, n2, a2 := s.convOK(eb, "bool")
			if a1 && n1 || a2 && n2 {
				return ""
			}
			// false and anything, without looking at the other
			if op == "&&" && (x != nil && s.quick(x) < 0 || y != nil && s.quick(y) < 0) {
				return ""
			}
			return "false without a reason"
		}
		return "a truth value although an operand is not known to be one"
	}
	for _, bx := range []bool{true, false} {
		for _, by := range []bool{true, false} {
			want := bx && by
			if op == "||" {
				want = bx || by
			}
			for _, t := range s.clone().assume(x, bx) {
				for _, u := range t.assume(y, by) {
					q := u.quick(c)
					if q == 0 || q > 0 != want {
						return fmt.Sprintf("%v for %v and %v", q > 0, bx, by)
					}
				}
			}
		}
	}
	return ""
}

// opMode analyses the evaluation of one operator.
func opMode(m *modeRun, op string, seen *int, all func(s *State, v Val)) *Mode {
	p := m.r.p
	eval := m.root
	return &Mode{name: "op", terms: true, parts: 1000,
		ghost:  func(fn *ssa.Function) *Ghost { return newGhost() },
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 8 },
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil || !p.isFn[c.fn] {
				return nil, false
			}
			if k := p.convPrim(c.fn); k != "" && c.args[0].k == KRef {
				return s.conv(c, k), true
			}
			node := s.frames[0].env[opNode(eval)]
			n := c.fn.Name()
			sg := c.fn.Signature
			recv := sg.Recv() != nil && p.isGraphPtr(sg.Recv().Type())
			switch {
			case recv && n == "ThisString" && c.args[0].id == node.id:
				return ret(s, s.strConst(op)), true
			case recv && n == "Clone":
				v := s.fresh(sg.Results().At(0).Type())
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				return ret(s, s.term(v, "clone", c.args[0])), true
			case recv && sg.Results().Len() == 2 && sg.Params().Len() >= 1 && p.isGraphPtr(sg.Params().At(0).Type()) && isErrorT(sg.Results().At(1).Type()) && c.fn != eval:
				f := s.clone()
				rt := sg.Results().At(0).Type()
				out := []exitSt{{f, tuple(f.nilVal(rt), f.errVal(false)), true}}
				v := s.fresh(rt)
				if isIface(rt) {
					// an operand is evaluated
					k := s.whichOperand(c.args[1], node)
					if k == "" {
						m.ob(s, false, "operands", "evaluation for "+op, p.insPos(ins), "something that is not an operand of the node is evaluated")
						return nil, false
					}
					if e, ok := s.gh.refs[k]; ok {
						_ = e
						m.ob(s, s.gh.tags["set"] == "", "operands", "evaluation for "+op, p.insPos(ins), "an operand is evaluated twice")
					}
					s.gh.refs[k] = v
					out = append(out, exitSt{s, tuple(v, s.errVal(true)), true})
					return out, true
				}
				// the node a path leads to
				s.upd(v.id, func(f *Fact) { f.nl = 2 })
				k := s.whichOperand(c.args[1], node)
				s.gh.refs["node "+k] = v
				f.gh.tags["absent"] = "yes"
				return append(out, exitSt{s, tuple(v, s.errVal(true)), true}), true
			case recv && sg.Params().Len() == 0 && sg.Results().Len() == 1 && isIface(sg.Results().At(0).Type()) && strings.Contains(n, "Interface"):
				if l, ok := s.gh.refs["node first"]; ok && l.id == c.args[0].id {
					v := s.memoVal(l.id, "content", func() Val { return s.fresh(sg.Results().At(0).Type()) })
					s.gh.refs["first"] = v
					return ret(s, v), true
				}
			case recv && sg.Params().Len() == 2 && p.isGraphPtr(sg.Params().At(0).Type()) && isIface(sg.Params().At(1).Type()):
				// an assignment
				s.gh.tags["set"] = "yes"
				k := s.whichOperand(c.args[1], node)
				m.ob(s, k == "first", "operands", "assignment by "+op, p.insPos(ins), "what is assigned to is not the first operand")
				m.assign(s, ins, op, c.args[2])
				v := s.fresh(sg.Results().At(0).Type())
				return ret(s, v), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != m.root || len(s.frames) != 2 {
				if v.k == KRef && isIface(fn.Signature.Results().At(0).Type()) {
					s.gh.tags["nil"] = fmt.Sprint(s.nilness(v) == 1)
				}
				return
			}
			*seen++
			if v.k == KTuple {
				v = v.elts[0]
			}
			if all != nil {
				all(s, v)
			}
		},
	}
}

// whichOperand: the first or second subnode of a node.
func (s *State) whichOperand(v, node Val) string {
	if v.k != KRef {
		return ""
	}
	for _, k := range sortedCells(s.cells) {
		c := s.cells[k]
		if c.v.k == KRef && c.v.id == v.id && (k.path == "[0]" || k.path == "[1]") {
			// the list of the node
			for _, l := range s.cells {
				if l.v.k == KRef && l.v.id == k.base && l.fld != nil && l.fld.Name() == "Out" {
					if k.path == "[0]" {
						return "first"
					}
					return "second"
				}
			}
		}
	}
	return ""
}

func opNode(f *ssa.Function) *ssa.Parameter {
	q := f.Params
	if f.Signature.Recv() != nil {
		q = q[1:]
	}
	if len(q) == 0 {
		return f.Params[0]
	}
	return q[0]
}

// assign checks the value assigned.
func (m *modeRun) assign(s *State, ins ssa.Instruction, op string, v Val) {
	at := m.r.p.insPos(ins)
	bad := ""
	if op == "=" {
		if k, _ := s.operand(v); k != "second" {
			bad = "not the value of the second operand"
		}
	} else if len(op) == 2 && op[1] == '=' && strings.Contains("+-*/%", op[:1]) {
		if s.gh.tags["absent"] == "yes" {
			switch op {
			case "+=":
				if k, _ := s.operand(v); k != "second" {
					bad = "not the value of the second operand"
				}
			case "-=":
				t := (*Term)(nil)
				if f := s.fact(v.id); f.pay != nil {
					t = s.termOf(*f.pay)
				}
				if t != nil && t.op == "-" {
					if k, _ := s.operand(t.args[1]); k != "second" {
						bad = "not zero less the value of the second operand"
					}
				} else if f := s.fact(v.id); f.dyn != nil && isStrT(f.dyn) || s.nilness(v) == 1 {
					bad = "" // not a number
				}
			}
		} else if _, ok := s.gh.refs["first"]; !ok {
			bad = "computed without the value of the first operand"
		} else {
			bad = s.arithOK(v, op[:1], "first", "second")
		}
	} else {
		bad = "assigned by an operator that is no assignment"
	}
	m.ob(s, bad == "", "result", "value assigned by "+op, at, "the value assigned is "+bad)
}

var binOps = []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "=", "+=", "-=", "*=", "/=", "%="}

func opCheck(r *Report, ops []string, each func(op string, m *modeRun, s *State, v Val)) map[string]int {
	eval, _ := r.opFns()
	if eval == nil {
		return nil
	}
	res := map[string]int{}
	for _, op := range ops {
		m := newModeRun(r, eval)
		n := 0
		op := op
		m.run(opMode(m, op, &n, func(s *State, v Val) { each(op, m, s, v) }))
		res[op] = n
	}
	return res
}

func init() {
	checks["C16"] = func(r *Report) {
		p := r.p
		r.rule("result", "evaluated with a given operator, the result on every path is that operation (integer, floating point, string or logical) applied to conversions of the first and the second operand, in this order; nil only for a zero divisor or operands that are no numbers, a constant only for operands that cannot be compared")
		r.rule("operands", "each operand evaluated or assigned to is the first or second subnode of the operation, evaluated once")
		r.rule("zero", "each integer division or modulus in the repository has a divisor shown not to be zero")
		eval, _ := r.opFns()
		if eval == nil {
			return
		}
		n := opCheck(r, binOps, func(op string, m *modeRun, s *State, v Val) {
			pos := p.pos(m.root.Pos())
			if v.k == KRef {
				if f := s.fact(v.id); f.dyn != nil && isErrorT(f.dyn) || s.gh.refs["first"].k == 0 && s.gh.refs["second"].k == 0 {
					return // an operand could not be evaluated
				}
			}
			_, e1 := s.gh.refs["first"]
			_, e2 := s.gh.refs["second"]
			if s.gh.tags["set"] == "yes" {
				return
			}
			if op == "=" || len(op) == 2 && op[1] == '=' && strings.Contains("+-*/%", op[:1]) {
				m.ob(s, !e2 || !s.valued(v), "result", "assignment by "+op, pos, "nothing is assigned")
				return
			}
			if !e1 || !e2 {
				// the error of an operand is returned
				return
			}
			bad := ""
			switch op {
			case "+", "-", "*", "/", "%":
				bad = s.arithOK(v, op, "first", "second")
			default:
				f := s.fact(v.id)
				if f.pay == nil || f.pay.k != KBool {
					bad = "not a truth value"
				} else if op == "&&" || op == "||" {
					bad = s.logicOK(f.pay.cond, op, "first", "second")
				} else {
					bad = s.compareOK(f.pay.cond, op, "first", "second")
				}
			}
			m.ob(s, bad == "", "result", "value of "+op, pos, "the result is "+bad)
		})
		for _, op := range binOps {
			if n[op] == 0 {
				r.fail("result", "value of "+op, p.pos(eval.Pos()), "no result is analysed")
			}
		}
		r.floor("result", 19)
		// divisions
		a := newAn(p)
		a.m = &Mode{name: "div"}
		var roots []*ssa.Function
		for _, f := range p.fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if bo, ok := ins.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) && isIntT(bo.Type()) {
						if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 {
							r.ob(true, "zero", p.short(f)+": division by a constant", p.insPos(ins), "")
							continue
						}
						roots = append(roots, f)
					}
				}
			}
		}
		for _, f := range p.climb(roots, 3) {
			a.addRoot(f)
		}
		a.solve()
		if a.over {
			r.fail("analysis", "divisions", "", a.overWhy)
		}
		for f := range a.sums {
			f := f.fn
			r.saw(f)
		}
		for _, x := range a.obligations() {
			o := x.o
			if o.rule == "divzero" {
				for _, b := range x.bad {
					o = b
				}
				r.ob(o.ok, "zero", p.short(o.fn)+": division by "+o.what, o.pos, o.why)
			}
		}
		r.floor("zero", 1)
		r.assume = []string{"the conversions to integer, floating point, truth value and string are those of C19 and C31; comparison takes its type from the first operand, as documented",
			"an operation on a number and a text that is no number is not specified"}
	}
	checks["C17"] = func(r *Report) {
		p := r.p
		r.rule("understood", "an operator has a precedence if and only if the evaluator has a result for it")
		r.rule("order", "precedences are those of Go: multiplication above addition above comparison above and above or, and assignment lowest; operators of one group have one precedence")
		r.rule("grouping", "the elements are looked at from left to right, and an operator of the level at hand, if it has both, takes the element at its left and the one at its right as its operands, in this order, and nothing else is changed")
		r.rule("readable", "every character of an operator is one that the lexer takes as part of an operator, and the evaluator of expressions takes the operator as one")
		eval, prec := r.opFns()
		if eval == nil || prec == nil {
			return
		}
		r.saw(eval)
		r.saw(prec)
		ops := map[string]bool{}
		for _, o := range binOps {
			ops[o] = true
		}
		for _, f := range p.fns {
			if f.Pkg != nil && f.Pkg.Pkg == p.root {
				for o := range opStrings(f) {
					if o != "!" {
						ops[o] = true
					}
				}
			}
		}
		var list []string
		for o := range ops {
			list = append(list, o)
		}
		sort.Strings(list)
		has := map[string]bool{}
		tmp := &Report{p: r.p, id: r.id, rules: r.rules, fnsSeen: r.fnsSeen, extra: r.extra}
		opCheck(tmp, list, func(op string, m *modeRun, s *State, v Val) {
			if s.valued(v) || s.gh.tags["set"] == "yes" {
				_, e1 := s.gh.refs["first"]
				_, e2 := s.gh.refs["second"]
				if e1 && e2 || s.gh.tags["set"] == "yes" {
					has[op] = true
				}
			}
		})
		val := map[string]int64{}
		for _, o := range list {
			v, ok := p.constInt(prec, o)
			if !ok {
				r.fail("understood", "precedence of "+o, p.pos(prec.Pos()), "not known")
				continue
			}
			val[o] = v
			none, _ := p.constInt(prec, "none")
			want := false
			for _, b := range binOps {
				want = want || b == o
			}
			r.ob((v != none) == has[o], "understood", "operator "+o, p.pos(prec.Pos()), fmt.Sprintf("has a precedence: %v, has a result: %v", v != none, has[o]))
			if want {
				r.ob(v != none, "understood", "operator "+o+" is there", p.pos(prec.Pos()), "the operator has no precedence")
			}
		}
		groups := [][]string{{"=", "+=", "-=", "*=", "/=", "%="}, {"||"}, {"&&"}, {"==", "!=", "<", "<=", ">", ">="}, {"+", "-"}, {"*", "/", "%"}}
		for i, g := range groups {
			for _, o := range g {
				r.ob(val[o] == val[g[0]], "order", "precedence of "+o, p.pos(prec.Pos()), fmt.Sprintf("differs from that of %s: %d, %d", g[0], val[o], val[g[0]]))
			}
			if i > 0 {
				r.ob(val[g[0]] > val[groups[i-1][0]], "order", g[0]+" above "+groups[i-1][0], p.pos(prec.Pos()), fmt.Sprintf("precedence of %s is %d, of %s is %d", g[0], val[g[0]], groups[i-1][0], val[groups[i-1][0]]))
			}
		}
		// the tree builder visits every level, highest first
		r.levels(prec, val)
		r.grouping(prec)
		// the lexer
		var isOp *ssa.Function
		for _, f := range p.fns {
			if f.Name() == "isOperatorChar" && f.Pkg.Pkg == p.root {
				isOp = f
			}
		}
		if isOp == nil {
			r.fail("instances", "isOperatorChar", "", "the function that tells operator characters is not found")
			return
		}
		chars := map[byte]bool{}
		for _, o := range list {
			if val[o] < 0 {
				continue
			}
			for i := 0; i < len(o); i++ {
				chars[o[i]] = true
			}
		}
		for c := 0; c < 256; c++ {
			if chars[byte(c)] {
				v, ok := p.constBool(isOp, int64(c))
				r.ob(ok && v, "readable", fmt.Sprintf("character %q", rune(c)), p.pos(isOp.Pos()), "the lexer does not take it as part of an operator")
			}
		}
		r.saw(isOp)
		r.reached(eval, list, val)
		r.floor("understood", 19)
		r.floor("order", 19)
		r.floor("readable", 8)
	}
}

// valued: a result that is not nil.
func (s *State) valued(v Val) bool { return v.k != KRef || s.nilness(v) != 1 }

// constRun gives the results of a function for given arguments.
func (p *Prog) constRun(f *ssa.Function, set func(s *State, fn *ssa.Function)) ([]Val, []*State, bool) {
	var out []Val
	var sts []*State
	a := newAn(p)
	a.m = &Mode{name: "const", noOb: true,
		inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 8 },
		entry: func(s *State, fn *ssa.Function) {
			if fn == f {
				set(s, fn)
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn == f && len(s.frames) == 2 {
				out = append(out, v)
				sts = append(sts, s.clone())
			}
		}}
	a.addRoot(f)
	a.solve()
	return out, sts, !a.over
}

func (p *Prog) constInt(f *ssa.Function, arg string) (int64, bool) {
	vs, _, ok := p.constRun(f, func(s *State, fn *ssa.Function) { s.top().env[fn.Params[0]] = s.strConst(arg) })
	if !ok || len(vs) == 0 {
		return 0, false
	}
	for _, v := range vs {
		if v.k != KInt || !v.lin.isConst() || v.lin.c != vs[0].lin.c {
			return 0, false
		}
	}
	return vs[0].lin.c, true
}

func (p *Prog) constBool(f *ssa.Function, arg int64) (bool, bool) {
	vs, sts, ok := p.constRun(f, func(s *State, fn *ssa.Function) { s.top().env[fn.Params[0]] = vInt(linC(arg)) })
	if !ok || len(vs) == 0 {
		return false, false
	}
	q0 := 0
	for i, v := range vs {
		if v.k != KBool {
			return false, false
		}
		q := sts[i].quick(v.cond)
		if q == 0 || q0 != 0 && q != q0 {
			return false, false
		}
		q0 = q
	}
	return q0 > 0, true
}

// levels: the loop that builds the tree covers all precedences, from the
// highest to the lowest.
func (r *Report) levels(prec *ssa.Function, val map[string]int64) {
	p := r.p
	hi, lo := int64(-1<<62), int64(1<<62)
	for _, o := range binOps {
		if val[o] > hi {
			hi = val[o]
		}
		if val[o] < lo {
			lo = val[o]
		}
	}
	found := false
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				bo, ok := ins.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL {
					continue
				}
				x, y := bo.X, bo.Y
				isP := func(v ssa.Value) bool {
					c, ok := v.(*ssa.Call)
					return ok && c.Call.StaticCallee() == prec
				}
				if isP(y) {
					x, y = y, x
				}
				if !isP(x) {
					continue
				}
				ph, ok := y.(*ssa.Phi)
				if !ok {
					continue
				}
				found = true
				r.saw(f)
				// a counter that goes down by one
				start, down := int64(0), false
				ok = true
				for _, e := range ph.Edges {
					if c, isC := e.(*ssa.Const); isC && c.Value != nil {
						start, _ = constant.Int64Val(c.Value)
						continue
					}
					if d, isB := e.(*ssa.BinOp); isB && d.X == ssa.Value(ph) {
						if c, isC := d.Y.(*ssa.Const); isC {
							k, _ := constant.Int64Val(c.Value)
							down = d.Op == token.SUB && k == 1 || d.Op == token.ADD && k == -1
							continue
						}
					}
					ok = false
				}
				if !ok {
					continue
				}
				r.ob(down, "order", p.short(f)+": highest precedence first", p.insPos(bo), "the levels of precedence are not visited from the highest to the lowest, one by one")
				r.ob(start >= hi, "order", p.short(f)+": first level", p.insPos(bo), fmt.Sprintf("the first level visited is %d, the highest precedence %d", start, hi))
				last := int64(1 << 62)
				for _, w := range *ph.Referrers() {
					c, isB := w.(*ssa.BinOp)
					if !isB || c.X != ssa.Value(ph) {
						continue
					}
					k, isC := c.Y.(*ssa.Const)
					if !isC || k.Value == nil {
						continue
					}
					n, _ := constant.Int64Val(k.Value)
					switch c.Op {
					case token.GEQ:
						last = n
					case token.GTR, token.NEQ:
						last = n + 1
					}
				}
				if last != 1<<62 {
					r.ob(last <= lo, "order", p.short(f)+": last level", p.insPos(bo), fmt.Sprintf("the last level visited is %d, the lowest precedence %d", last, lo))
				}
			}
		}
	}
	if !found {
		r.notes = append(r.notes, "the loop over precedences has a form that is not recognised; its bounds are not checked")
	}
}

// reached: the evaluator of expressions hands every operator to the one of
// binary operations.
func (r *Report) reached(eval *ssa.Function, list []string, val map[string]int64) {
	p := r.p
	var caller *ssa.Function
	for _, f := range p.fns {
		if f == eval || f.Pkg == nil || f.Pkg.Pkg != p.root || f.Signature.Results().Len() != 2 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() == eval {
					caller = f
				}
			}
		}
	}
	if caller == nil {
		r.fail("instances", "evaluator of expressions", "", "no caller of "+p.short(eval)+" found")
		return
	}
	for _, op := range list {
		if val[op] < 0 {
			continue
		}
		hit, other := false, false
		a := newAn(p)
		a.m = &Mode{name: "reach", noOb: true,
			inline: func(s *State, fn *ssa.Function) bool { return len(s.frames) < 6 },
			call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
				node := s.frames[0].env[opNode(caller)]
				if c.fn == nil || !p.isFn[c.fn] {
					return nil, false
				}
				if c.fn.Name() == "ThisString" && c.args[0].id == node.id {
					return ret(s, s.strConst(op)), true
				}
				if c.fn == eval {
					hit = true
					s.gh.tags["eval"] = "yes"
					return s.skip(ins, c), true
				}
				if len(c.args) > 0 && c.args[0].k == KRef && c.fn.Signature.Recv() != nil && c.fn.Name() != "Len" {
					return s.skip(ins, c), true
				}
				return nil, false
			},
			ghost: func(fn *ssa.Function) *Ghost { g := newGhost(); g.tags["eval"] = "no"; return g },
			exit: func(s *State, fn *ssa.Function, v Val) {
				if fn == caller && len(s.frames) == 2 && s.gh.tags["eval"] != "yes" && v.k == KTuple && s.nilness(v.elts[1]) != 2 {
					other = true
				}
			}}
		a.addRoot(caller)
		a.solve()
		r.ob(hit && !other && !a.over, "readable", "operator "+op+" in "+p.short(caller), p.pos(caller.Pos()), "an operation with this operator is not always evaluated as one")
	}
	r.saw(caller)
}

// climb replaces functions that are not exported by their callers, some levels up.
func (p *Prog) climb(fns []*ssa.Function, levels int) []*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for _, g := range p.calleesOf(c.Common()) {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	cur := map[*ssa.Function]bool{}
	for _, f := range fns {
		cur[f] = true
	}
	for i := 0; i < levels; i++ {
		next := map[*ssa.Function]bool{}
		for f := range cur {
			if f.Object() != nil && f.Object().Exported() || len(callers[f]) == 0 {
				next[f] = true
				continue
			}
			for _, g := range callers[f] {
				next[g] = true
			}
		}
		cur = next
	}
	var out []*ssa.Function
	for _, f := range p.fns {
		if cur[f] {
			out = append(out, f)
		}
	}
	return out
}
