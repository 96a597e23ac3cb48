package main

// C33: a token is the longest run of characters of its class.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type classTr struct {
	in bset
	to string
}

// classSpec: the characters that a token can go on with, by how far it is.
type classSpec struct {
	fn    string
	rules map[string][]classTr
	runes bool
	space bool            // the results are the number of spaces and what they are
	limit bool            // no more than the parameter
	text  bool            // the first result is the text
	drop  map[string]bool // states in which a character is left out of the text
	cmt   bool
}

func bytesIn(f func(c byte) bool) bset {
	var b bset
	for i := 0; i < 256; i++ {
		if f(byte(i)) {
			b.add(i)
		}
	}
	return b
}

func classSpecs() []classSpec {
	one := func(cs string) bset {
		return bytesIn(func(c byte) bool {
			for i := 0; i < len(cs); i++ {
				if cs[i] == c {
					return true
				}
			}
			return false
		})
	}
	digit := bytesIn(func(c byte) bool { return c >= '0' && c <= '9' })
	endc := func(c byte) bool { return c < 32 && c != 9 && c != 10 && c != 13 }
	loop := func(b bset) map[string][]classTr {
		return map[string][]classTr{"": {{b, "+"}}, "+": {{b, "+"}}}
	}
	both := []classTr{{one(" "), ""}, {one("\t"), ""}}
	sp := map[string][]classTr{"": both}
	return []classSpec{
		{fn: "String", text: true, rules: loop(bytesIn(func(c byte) bool { return c > 32 }))},
		{fn: "Integer", text: true, rules: loop(digit)},
		{fn: "Operator", text: true, rules: loop(one("+-*/%&|!<>=~^"))},
		{fn: "TemplateText", text: true, rules: loop(bytesIn(func(c byte) bool { return !endc(c) && c != '$' }))},
		{fn: "WhiteSpace", rules: loop(one(" \t\r\n"))},
		{fn: "Space", space: true, rules: sp},
		{fn: "SpaceMax", space: true, limit: true, rules: sp},
		{fn: "Token8", text: true, runes: true},
		{fn: "Number", text: true, drop: map[string]bool{"plus": true}, rules: map[string][]classTr{
			"":      {{one("+"), "plus"}, {one("-"), "minus"}, {digit, "d"}, {one("."), "p"}},
			"plus":  {{digit, "+d"}, {one("."), "+p"}},
			"minus": {{digit, "-d"}, {one("."), "-p"}},
			"-d":    {{digit, "-d"}, {one("."), "-p"}}, "-p": {{digit, "-p"}},
			"d": {{digit, "d"}, {one("."), "p"}}, "p": {{digit, "p"}},
			"+d": {{digit, "+d"}, {one("."), "+p"}}, "+p": {{digit, "+p"}},
		}},
		{fn: "Comment", cmt: true, rules: map[string][]classTr{
			"": {{one("#"), "h"}}, "h": {{one(" \t"), "c"}},
			"c": {{bytesIn(func(c byte) bool { return !endc(c) && c != 10 && c != 13 }), "c"}},
		}},
	}
}

func init() {
	checks["C33"] = func(r *Report) {
		r.rule("class", "a production of the lexer that is for a run of characters takes each character of its class and stops before the first one that is not; the text that it gives has each of them, in order, the number is how many there are")
		r.rule("quoted", "between its quotes each character that is read is in the text that is given, once; except a backslash that is next to another one or before a quote, and no more spaces after a line break than those asked for")
		p := r.p
		b, u, pk := p.method("Lexer", "Byte"), p.method("Lexer", "UnreadByte"), p.method("Lexer", "PeekByte")
		if b == nil || u == nil {
			r.fail("class", "Lexer", "", "the lexer has no methods that read and unread a byte")
			return
		}
		for _, sp := range classSpecs() {
			sp := sp
			f := p.method("Lexer", sp.fn)
			if f == nil {
				r.fail("class", sp.fn, "", "there is no such production")
				continue
			}
			r.saw(f)
			x := &classRun{r: r, f: f, sp: &sp, byteFn: b, unread: u, peek: pk, runeFn: p.method("Lexer", "Rune"), unreadRn: p.method("Lexer", "UnreadRune")}
			x.check()
		}
		if f := p.method("Lexer", "Quoted"); f != nil {
			r.saw(f)
			x := &classRun{r: r, f: f, quoted: true, sp: &classSpec{}, byteFn: b, unread: u, peek: pk, spaceMax: p.method("Lexer", "SpaceMax")}
			x.check()
		} else {
			r.fail("quoted", "Quoted", "", "there is no such production")
		}
		r.floor("class", 20)
		r.floor("quoted", 4)
		r.assume = append(r.assume, "reading and unreading move over the characters of the input one by one (C07)", "at the end of the input what is read is 0")
	}
}

type classRun struct {
	r                                                *Report
	f                                                *ssa.Function
	m                                                *modeRun
	sp                                               *classSpec
	quoted                                           bool
	byteFn, unread, peek, runeFn, unreadRn, spaceMax *ssa.Function
}

func (x *classRun) ob(s *State, ins ssa.Instruction, what, bad string) {
	pos := x.r.p.pos(x.f.Pos())
	if ins != nil {
		pos = x.r.p.insPos(ins)
	}
	rule := "class"
	if x.quoted {
		rule = "quoted"
	}
	x.m.ob(s, bad == "", rule, what, pos, bad)
}

// among: the states in which a character is one of a set.
func (x *classRun) among(s *State, l *Lin, set bset) *State {
	t := s.clone()
	if l.isConst() {
		if l.c >= 0 && l.c < 256 && set.has(int(l.c)) {
			return t
		}
		return nil
	}
	id, ok := l.single()
	if !ok || set.empty() || !t.refineBytes(id, &set, true) {
		return nil
	}
	return t
}

// owed: nothing that has been read is still to be kept.
func (x *classRun) owed(s *State, ins ssa.Instruction, when string) {
	if !x.sp.text && !x.quoted {
		return
	}
	bad := ""
	if s.gh.tags["owed"] == "yes" {
		bad = "a character of the text is not kept"
	}
	x.ob(s, ins, "each character is kept"+when, bad)
}

// read: the next character, by what it is.
func (x *classRun) read(s *State, ins ssa.Instruction) []exitSt {
	g := s.gh
	x.owed(s, ins, "")
	if !x.quoted {
		bad := ""
		if g.tags["out"] == "yes" {
			bad = "it reads on after a character that is not of its class"
		}
		x.ob(s, ins, "it stops at what is not of its class", bad)
	}
	c := vInt(g.ints["w0"])
	if g.tags["pk"] != "yes" {
		c = s.fresh(types.Typ[types.Byte])
	}
	g.tags["pk"], g.tags["out"] = "", ""
	var out []exitSt
	add := func(t *State, l *Lin, ok bool) {
		t.gh.ints["lc"] = l
		out = append(out, exitSt{t, tuple(vInt(l), t.errVal(ok)), true})
	}
	rest := bytesIn(func(byte) bool { return true })
	if x.quoted {
		return x.readQuoted(s, c)
	}
	for _, tr := range x.sp.rules[g.tags["q"]] {
		no := tr.in.not()
		rest = rest.and(&no)
		if t := x.among(s, c.lin, tr.in); t != nil {
			h := t.gh
			h.tags["pq"], h.tags["q"] = h.tags["q"], tr.to
			switch {
			case x.sp.space && tr.in.has(' ') && !tr.in.has('\t'):
				h.ints["ns"] = h.ints["ns"].addK(1)
				h.tags["kind"] = "s"
			case x.sp.space:
				h.ints["nt"] = h.ints["nt"].addK(1)
				h.tags["kind"] = "t"
			}
			h.ints["n"], h.ints["rem"] = h.ints["n"].addK(1), h.ints["rem"].addK(-1)
			if x.sp.text && !x.sp.drop[tr.to] && tr.to != "minus" {
				h.tags["owed"] = "yes"
			}
			add(t, c.lin, true)
		}
	}
	if t := x.among(s, c.lin, rest); t != nil {
		t.gh.tags["out"] = "yes"
		add(t, c.lin, true)
	}
	end := bset{}
	end.add(0)
	if t := x.among(s, c.lin, end); t != nil && rest.has(0) {
		t.gh.tags["out"] = "yes"
		add(t, linC(0), false)
	}
	return out
}

func (x *classRun) readQuoted(s *State, c Val) []exitSt {
	g := s.gh
	var out []exitSt
	add := func(t *State, cat string) {
		t.gh.ints["lc"] = c.lin
		t.gh.tags["cat"] = cat
		out = append(out, exitSt{t, tuple(c, t.errVal(true)), true})
	}
	q := func(cs ...byte) bset {
		var b bset
		for _, c := range cs {
			b.add(int(c))
		}
		return b
	}
	if g.tags["q"] == "" {
		for _, k := range []byte("\"'`") {
			if t := x.among(s, c.lin, q(k)); t != nil {
				t.gh.tags["q"] = string(k)
				add(t, "open")
			}
		}
		no := q('"', '\'', '`')
		if t := x.among(s, c.lin, no.not()); t != nil {
			t.gh.tags["q"] = "none"
			add(t, "out")
		}
		return out
	}
	end := bytesIn(func(c byte) bool { return c < 32 && c != 9 && c != 10 && c != 13 })
	if t := x.among(s, c.lin, end); t != nil {
		add(t, "end")
	}
	esc := g.tags["bs"]
	for _, k := range []byte("\"'`") {
		t := x.among(s, c.lin, q(k))
		if t == nil {
			continue
		}
		switch {
		case t.gh.tags["q"] == string(k) && (k == '`' || esc == ""):
			t.gh.tags["closed"] = "yes"
			switch esc {
			case "one":
				t.gh.tags["miss"] = "yes" // the backslash before it
			case "two":
				t.gh.tags["dbl"] = "yes"
			}
		default:
			t.gh.tags["owed"] = "yes"
			if esc == "one" && k == '`' {
				t.gh.tags["miss"] = "yes"
			}
		}
		t.gh.tags["bs"] = ""
		add(t, "quote")
	}
	if t := x.among(s, c.lin, q('\\')); t != nil {
		if esc == "" {
			t.gh.tags["bs"] = "one"
		} else {
			t.gh.tags["bs"] = "two"
		}
		add(t, "bs")
	}
	all := q('"', '\'', '`', '\\').or(&end)
	if t := x.among(s, c.lin, all.not()); t != nil {
		t.gh.tags["owed"] = "yes"
		if esc == "one" {
			t.gh.tags["miss"] = "yes"
		}
		t.gh.tags["bs"] = ""
		add(t, "other")
	}
	return out
}

func (x *classRun) back(s *State) {
	g := s.gh
	was, w0 := g.tags["pk"], g.ints["w0"]
	g.ints["w0"] = g.ints["lc"]
	if x.quoted {
		g.tags["pk"] = "yes"
		return
	}
	if g.tags["out"] == "yes" {
		g.tags["out"], g.tags["pk"], g.tags["seen"] = "", "yes", "yes"
		if len(g.tags["q"]) > 2 {
			g.tags["alone"] = "yes" // a sign, and nothing else
		}
		return
	}
	if was == "yes" && len(g.tags["q"]) > 2 && x.ends(s, w0) {
		g.tags["alone"] = "yes"
	}
	g.tags["pk"] = ""
	g.tags["q"], g.tags["pq"] = g.tags["pq"], "?"
	g.ints["n"] = g.ints["n"].addK(-1)
	g.tags["owed"] = ""
}

// ends: the token cannot go on with a character.
func (x *classRun) ends(s *State, l *Lin) bool {
	for _, tr := range x.sp.rules[s.gh.tags["q"]] {
		if x.among(s, l, tr.in) != nil {
			return false
		}
	}
	return true
}

// readRune: the next character, by what unicode says of it.
func (x *classRun) readRune(s *State, ins ssa.Instruction) []exitSt {
	x.owed(s, ins, "")
	bad := ""
	if s.gh.tags["out"] == "yes" || s.gh.tags["pk"] == "yes" {
		bad = "it reads on after a character that is not of its class"
	}
	x.ob(s, ins, "it stops at what is not of its class", bad)
	var out []exitSt
	for _, k := range []struct {
		cat    string
		lo, hi int64
	}{{"L", 65, 90}, {"L", 97, 0x10ffff}, {"D", 48, 57}, {"D", 97, 0x10ffff}, {"U", 95, 95}, {"O", 0, 94}, {"P", 96, 0x10ffff}, {"E", 0, 0}} {
		t := s.clone()
		l := linC(k.lo)
		if k.lo != k.hi {
			l = t.freshRange(types.Typ[types.Rune], k.lo, k.hi).lin
		}
		t.gh.ints["lc"], t.gh.tags["cat"] = l, k.cat
		if k.cat == "O" || k.cat == "P" || k.cat == "E" {
			t.gh.tags["out"] = "yes"
		} else {
			t.gh.tags["owed"], t.gh.tags["q"] = "yes", "+"
			t.gh.ints["n"] = t.gh.ints["n"].addK(1)
		}
		out = append(out, exitSt{t, tuple(vInt(l), t.errVal(k.cat != "E")), true})
	}
	return out
}

// keep: a character is added to the text.
func (x *classRun) keep(s *State, ins ssa.Instruction, e Val) {
	g := s.gh
	is := func(l *Lin) bool { return l != nil && e.k == KInt && s.prove(&Cond{op: CEq, l: e.lin.add(l, -1)}) }
	bad := ""
	switch {
	case x.quoted && g.tags["miss"] == "yes" && is(linC('\\')):
		g.tags["miss"] = ""
	case x.quoted && g.tags["cat"] == "bs" && g.tags["bs"] != "" && is(linC('\\')):
		g.tags["bs"] = "two"
	case g.tags["owed"] == "yes" && is(g.ints["lc"]):
		g.tags["owed"] = ""
		if g.tags["miss"] == "yes" {
			bad = "a backslash that escapes nothing is left out"
		}
	case g.tags["dbl"] == "yes" && is(linC('\\')):
		g.tags["dbl"] = ""
	case x.sp.drop != nil && g.tags["q"] == "minus" && is(linC('-')):
		g.tags["sgn"] = "yes"
	case x.quoted && is(linC('\\')) && g.tags["owed"] == "yes":
		// an escaped quote, or the second of two
	default:
		bad = "something is added that is not the character that was read"
	}
	x.ob(s, ins, "what is added is what was read", bad)
	g.ints["k"] = g.ints["k"].addK(1)
}

func (x *classRun) check() {
	x.m = newModeRun(x.r, x.f)
	p := x.r.p
	x.m.run(&Mode{name: "class", terms: true, parts: 4000, noOb: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			for _, k := range []string{"n", "ns", "nt", "k", "lc", "w0"} {
				g.ints[k] = linC(0)
			}
			for _, k := range []string{"q", "pq", "out", "pk", "owed", "seen", "cat", "bs", "miss", "closed", "dbl", "kind", "alone", "sgn", "bld"} {
				g.tags[k] = ""
			}
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn != x.f || len(s.frames) > 2 {
				return
			}
			s.gh.ints["lim"], s.gh.ints["rem"] = linC(0), linC(0)
			if i := intParam(x.f); i >= 0 {
				if v := s.top().env[x.f.Params[i]]; v.k == KInt {
					s.gh.ints["lim"], s.gh.ints["rem"] = v.lin, v.lin
				}
			}
		},
		inline: func(s *State, fn *ssa.Function) bool {
			if fn.Blocks == nil || len(s.frames) > 6 || !p.isFn[fn] {
				return false
			}
			for _, f := range s.frames {
				if f.fn == fn {
					return false
				}
			}
			return true
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g := s.gh
			switch c.fn {
			case x.byteFn:
				return x.read(s, ins), true
			case x.unread, x.unreadRn:
				x.back(s)
				if c.fn == x.unreadRn {
					return ret(s, s.errVal(true)), true
				}
				return []exitSt{{s, Val{}, false}}, true
			case x.peek:
				if g.tags["pk"] != "yes" {
					g.tags["pk"] = "yes"
					g.ints["w0"] = s.fresh(types.Typ[types.Byte]).lin
				}
				return ret(s, vInt(g.ints["w0"])), true
			case x.runeFn:
				if x.sp.runes {
					return x.readRune(s, ins), true
				}
			case x.spaceMax:
				if x.quoted {
					x.owed(s, ins, " before spaces are skipped")
					bad := ""
					a := c.args[len(c.args)-1]
					if a.k != KInt || !s.prove(le(a.lin, g.ints["lim"])) {
						bad = "more spaces may be skipped than those asked for"
					}
					x.ob(s, ins, "spaces that are skipped", bad)
					g.tags["pk"] = ""
					return ret(s, tuple(s.freshRange(types.Typ[types.Int], 0, 1<<40), s.fresh(types.Typ[types.Byte]))), true
				}
			}
			switch c.fn.RelString(nil) {
			case "unicode.IsLetter", "unicode.IsDigit":
				if a := c.args[0]; x.sp.runes && a.k == KInt && s.prove(&Cond{op: CEq, l: a.lin.add(g.ints["lc"], -1)}) {
					want := "L"
					if c.fn.Name() == "IsDigit" {
						want = "D"
					}
					if g.tags["cat"] == want {
						return ret(s, vBool(condTrue)), true
					}
					return ret(s, vBool(condFalse)), true
				}
			case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
				g.tags["bld"] = "yes"
				x.keep(s, ins, c.args[1])
			case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
				g.tags["bld"] = "yes"
			case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
				return ret(s, vInt(g.ints["k"])), true
			}
			return nil, false
		},
		appended: func(s *State, ins ssa.Instruction, a, y Val, elems map[int64]Val, res Val) {
			v, ok := ins.(ssa.Value)
			if !ok || a.k == 0 {
				return
			}
			sl, ok := v.Type().Underlying().(*types.Slice)
			if !ok || !isIntegerT(sl.Elem()) || !x.sp.text && !x.quoted {
				return
			}
			if l := s.lenOf(y); !l.isConst() || int64(len(elems)) != l.c {
				x.ob(s, ins, "what is added is what was read", "what is added is not single characters")
				return
			}
			for i := int64(0); i < int64(len(elems)); i++ {
				x.keep(s, ins, elems[i])
			}
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn == x.f && len(s.frames) == 2 {
				x.exit(s, v)
			}
		},
	})
}

// size: a text has this many characters.
func (x *classRun) size(s *State, v Val, n *Lin) bool {
	if s.gh.tags["bld"] == "yes" {
		return s.prove(&Cond{op: CEq, l: s.gh.ints["k"].add(n, -1)})
	}
	l := s.lenOf(v)
	return l != nil && s.prove(&Cond{op: CEq, l: l.add(n, -1)})
}

func (x *classRun) exit(s *State, v Val) {
	g := s.gh
	res := func(i int) Val {
		if v.k == KTuple {
			return v.elts[i]
		}
		return v
	}
	eq := func(a, b *Lin) bool { return s.prove(&Cond{op: CEq, l: a.add(b, -1)}) }
	// whether a result is true
	split := func(b Val, f func(t *State, yes bool)) {
		for _, w := range []bool{true, false} {
			for _, t := range s.clone().assume(b.cond, w) {
				if !t.z.bad {
					f(t, w)
				}
			}
		}
	}
	if !x.quoted {
		x.owed(s, nil, " at the end")
	}
	if x.quoted {
		split(res(1), func(t *State, yes bool) {
			if !yes {
				return
			}
			bad := ""
			switch {
			case t.gh.tags["owed"] == "yes":
				bad = "a character of the text is not kept"
			case t.gh.tags["miss"] == "yes":
				bad = "a backslash that escapes nothing is left out"
			case !x.size(t, res(0), t.gh.ints["k"]):
				bad = "the text may not be what was kept"
			case t.gh.tags["q"] == "" || t.gh.tags["q"] == "none":
				bad = "there is no quote that begins it"
			}
			x.ob(t, nil, "the text between the quotes", bad)
		})
		return
	}
	bad := ""
	if !x.sp.cmt && g.tags["out"] == "yes" {
		bad = "what is not of its class is consumed"
	}
	x.ob(s, nil, "what follows is left", bad)
	longest := func(t *State) {
		bad := ""
		h := t.gh
		switch {
		case x.sp.limit && (t.prove(le(h.ints["lim"], h.ints["n"])) || t.prove(le(h.ints["rem"], linC(0))) || t.prove(le(h.ints["lim"], h.ints["ns"].add(h.ints["nt"], 1)))):
		case x.sp.runes:
			if h.tags["seen"] != "yes" {
				bad = "it may end before its class does"
			}
		case h.tags["pk"] == "yes":
			if !x.ends(t, h.ints["w0"]) {
				bad = "it may end before its class does"
			}
		default:
			bad = "it may end before its class does"
		}
		x.ob(t, nil, "it is as long as can be", bad)
	}
	n := g.ints["n"]
	two := g.ints["ns"].add(g.ints["nt"], 1)
	switch {
	case x.sp.cmt:
		split(res(0), func(t *State, yes bool) {
			bad := ""
			h := t.gh
			if yes != (h.tags["q"] == "c") {
				bad = "it is a comment if it begins with # and a space, and only then"
			} else if yes && h.tags["out"] != "yes" && h.tags["seen"] != "yes" {
				bad = "it may end before the line does"
			}
			x.ob(t, nil, "a comment", bad)
		})
	case x.sp.space:
		longest(s)
		bad := ""
		switch {
		case !eq(res(0).lin, n) && !eq(res(0).lin, two):
			bad = "the number may not be how many there are"
		case x.sp.limit && !s.prove(le(n, g.ints["lim"])) && !s.prove(le(linC(0), g.ints["rem"])) && !s.prove(le(two, g.ints["lim"])) && !eq(n, linC(0)) && !eq(two, linC(0)):
			bad = "there may be more of them than asked for"
		}
		for _, k := range []struct {
			a, b bool
			c    int64
		}{{true, true, ' '}, {false, true, ' '}, {true, false, '\t'}, {false, false, 0}} {
			for _, t := range s.clone().assume(&Cond{op: CEq, l: g.ints["ns"]}, k.a) {
				if t.z.bad {
					continue
				}
				for _, u := range t.assume(&Cond{op: CEq, l: g.ints["nt"]}, k.b) {
					if !u.z.bad && !u.prove(&Cond{op: CEq, l: res(1).lin.addK(-k.c)}) {
						bad = "it may not tell which spaces they are"
					}
				}
			}
		}
		x.ob(s, nil, "how many spaces, and which", bad)
	default:
		b := res(0)
		if x.sp.text {
			b = res(1)
		}
		split(b, func(t *State, yes bool) {
			bad := ""
			n := t.gh.ints["n"]
			q := t.gh.tags["q"]
			if q == "+d" || q == "+p" {
				n = n.addK(-1)
			}
			switch {
			case yes && !t.prove(le(linC(1), n)):
				bad = "it may report a token where there is none"
			case !yes && !t.prove(&Cond{op: CEq, l: n}):
				bad = "it may not report a token that there is"
			case x.sp.text && !x.sp.runes && !x.size(t, res(0), n):
				bad = "the text may not have as many characters as were read"
			}
			x.ob(t, nil, "the result", bad)
			if yes || x.sp.drop == nil || t.gh.tags["alone"] != "yes" {
				longest(t)
			}
		})
	}
}
