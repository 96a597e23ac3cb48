package main

// C44: the whole input is parsed, with the production it is for.

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// entryPoint: the production, what is done with the tree, and the content of its root.
type entryPoint struct{ prod, steps, this string }

var entryPoints = map[string]entryPoint{
	"FromBytes":            {"Ogdl", "", ""},
	"FromString":           {"Ogdl", "", ""},
	"FromReader":           {"Ogdl", "", ""},
	"FromFile":             {"Ogdl", "", ""},
	"FromStringTypes":      {"OgdlTypes", "", ""},
	"NewPath":              {"Path", "", "TypePath"},
	"NewExpression":        {"Expression", " _ast", "TypeExpression"},
	"NewTemplate":          {"Template", " ast simplify flow", "TypeTemplate"},
	"NewTemplateFromBytes": {"Template", " ast simplify flow", "TypeTemplate"},
}

var entrySteps = map[string]bool{"_ast": true, "ast": true, "simplify": true, "flow": true}

func init() {
	checks["C44"] = func(r *Report) {
		r.rule("source", "the parser that is made reads what the function was given, or the content of the file it was given the name of")
		r.rule("steps", "the production the function is for is called once, on that parser, then the tree is taken, and what belongs to it (the content of its root, making expressions trees, simplifying, nesting the flow) is done once and in order")
		r.rule("result", "the tree, or the one made of it, is the result; it is nil only if a file cannot be read or is empty")
		n := 0
		for _, f := range r.p.fns {
			e, ok := entryPoints[f.Name()]
			if !ok || f.Blocks == nil || f.Signature.Recv() != nil || f.Pkg == nil || f.Pkg.Pkg != r.p.root || len(f.Params) != 1 {
				continue
			}
			r.saw(f)
			n++
			(&entering{r: r, f: f, e: e}).check()
		}
		if n < len(entryPoints) {
			r.fail("instances", "functions that parse", "", "some are not found")
		}
		r.floor("source", n)
		r.floor("steps", 3*n)
		r.floor("result", n)
		r.assume = append(r.assume, "the productions read all there is (c06, c37)", "bytes, strings and os do what they say")
	}
}

type entering struct {
	r *Report
	f *ssa.Function
	e entryPoint
	m *modeRun
}

func (q *entering) ob(s *State, ins ssa.Instruction, rule, what, bad string) {
	pos := q.r.p.pos(q.f.Pos())
	if ins != nil {
		pos = q.r.p.insPos(ins)
	}
	q.m.ob(s, bad == "", rule, what, pos, bad)
}

// given: a value is what the function was given.
func (q *entering) given(s *State, v Val) bool {
	for d := 0; d < 8; d++ {
		v = unbox(s, v)
		if v.k != KRef {
			return false
		}
		if m, ok := s.memoOf(v, "src"); ok {
			v = m
			continue
		}
		if v.id == s.gh.refs["in"].id {
			return true
		}
		t := s.fact(v.id).term
		if t == nil || t.op != "bytes" && t.op != "string" || len(t.args) != 1 {
			return false
		}
		v = t.args[0]
	}
	return false
}

func (q *entering) check() {
	p, f := q.r.p, q.f
	gt := types.NewPointer(p.root.Scope().Lookup("Graph").Type())
	root := ""
	if c, ok := p.root.Scope().Lookup(q.e.this).(*types.Const); ok && q.e.this != "" {
		root = constant.StringVal(c.Val())
	}
	file := isStrT(f.Params[0].Type()) && f.Name() == "FromFile"
	is := func(s *State, v Val, n string) bool {
		w, ok := s.gh.refs[n]
		return ok && v.k == KRef && v.id == w.id
	}
	prods := map[string]bool{"Ogdl": true, "OgdlTypes": true, "Path": true, "Expression": true, "Template": true}
	q.m = newModeRun(q.r, f)
	q.m.run(&Mode{name: "entry", parts: 200, noOb: true, terms: true, paths: true, noGC: true,
		ghost: func(fn *ssa.Function) *Ghost {
			g := newGhost()
			for _, k := range []string{"done", "this", "err", "prod"} {
				g.tags[k] = ""
			}
			return g
		},
		entry: func(s *State, fn *ssa.Function) {
			if fn == f && len(s.frames) <= 2 {
				s.gh.refs["in"] = s.top().env[f.Params[0]]
			}
		},
		inline: func(s *State, fn *ssa.Function) bool { return fn != f && len(s.frames) < 8 },
		store: func(s *State, ins ssa.Instruction, ptr, v Val) {
			if ptr.fld == nil || !is(s, vRef(ptr.id), "T") {
				return
			}
			bad := ""
			v = unbox(s, v)
			switch {
			case ptr.fld.Name() != "This":
				bad = "what is below the root is changed"
			case strings.Contains(s.gh.tags["done"], "flow"):
				bad = "the content of the root is changed too late"
			case v.k != KRef || s.fact(v.id).str == nil || *s.fact(v.id).str != root:
				bad = "the content of the root is not what it must be"
			}
			s.gh.tags["this"] = "yes"
			q.ob(s, ins, "steps", "the root", bad)
		},
		call: func(s *State, ins ssa.Instruction, c *callInfo) ([]exitSt, bool) {
			if c.fn == nil {
				return nil, false
			}
			g := s.gh
			sg := c.fn.Signature
			if !p.isFn[c.fn] {
				switch c.fn.RelString(nil) {
				case "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader", "bufio.NewReader":
					v := s.fresh(sg.Results().At(0).Type())
					s.setNil(v.id, false)
					s.setMemo(v.id, "src", c.args[0])
					return ret(s, v), true
				case "io/ioutil.ReadFile", "os.ReadFile", "os.Open", "io/ioutil.ReadAll", "io.ReadAll":
					bad := ""
					if !q.given(s, c.args[0]) {
						bad = "something else is read"
					}
					q.ob(s, ins, "source", "what is read", bad)
					v := s.fresh(sg.Results().At(0).Type())
					s.setMemo(v.id, "src", c.args[0])
					t := s.clone()
					t.gh.tags["err"] = "yes"
					return []exitSt{{s, tuple(v, s.errVal(true)), true}, {t, tuple(v, t.errVal(false)), true}}, true
				}
				return nil, false
			}
			onT := len(c.args) > 0 && sg.Recv() != nil && is(s, c.args[0], "T")
			switch {
			case c.fn.Name() == "NewParser":
				bad := ""
				switch {
				case g.refs["P"].k == KRef:
					bad = "there are two parsers"
				case !q.given(s, c.args[0]):
					bad = "the parser does not read what the function was given"
				}
				q.ob(s, ins, "source", "the parser", bad)
				v := s.fresh(sg.Results().At(0).Type())
				s.setNil(v.id, false)
				g.refs["P"] = v
				return ret(s, v), true
			case p.recvNamed(c.fn, "Parser") && prods[c.fn.Name()]:
				bad := ""
				switch {
				case !is(s, c.args[0], "P"):
					bad = "it is another parser"
				case c.fn.Name() != q.e.prod:
					bad = "it is not the production the function is for"
				case g.tags["prod"] != "":
					bad = "the production is called twice"
				}
				g.tags["prod"] = "yes"
				q.ob(s, ins, "steps", "the production", bad)
				return s.a.results(s, c), true
			case p.recvNamed(c.fn, "SimpleEventHandler") && sg.Results().Len() == 1 && isGraphT(sg.Results().At(0).Type()) || p.recvNamed(c.fn, "Parser") && c.fn.Name() == "Graph":
				bad := ""
				switch {
				case g.tags["prod"] == "":
					bad = "the tree is taken before the input is parsed"
				case c.fn.Name() == "Graph" && !is(s, c.args[0], "P"):
					bad = "it is the tree of another parser"
				}
				q.ob(s, ins, "steps", "the tree", bad)
				v := s.fresh(gt)
				s.setNil(v.id, false)
				if g.refs["T"].k != KRef {
					g.refs["T"] = v
				}
				return ret(s, v), true
			case onT && entrySteps[c.fn.Name()]:
				n := c.fn.Name()
				d := g.tags["done"] + " " + n
				bad := ""
				if !strings.HasPrefix(q.e.steps+" ", d+" ") {
					bad = "it does not belong here"
				}
				if n == "flow" && bad == "" {
					for _, a := range c.args[1:] {
						if a.k != KRef {
							continue
						}
						if _, ok := s.memoOf(a, "new"); !ok || g.refs["R"].k == KRef && !is(s, a, "R") {
							bad = "the flow is not put in one new tree"
						}
						g.refs["R"] = a
					}
				}
				if bad == "" {
					g.tags["done"] = d
				}
				q.ob(s, ins, "steps", n, bad)
				return s.a.results(s, c), true
			case sg.Recv() == nil && c.fn.Name() == "New":
				v := s.fresh(gt)
				s.setNil(v.id, false)
				s.setMemo(v.id, "new", vInt(linC(0)))
				return ret(s, v), true
			}
			return nil, false
		},
		exit: func(s *State, fn *ssa.Function, v Val) {
			if fn != f || len(s.frames) != 2 {
				return
			}
			g := s.gh
			if s.nilness(v) == 1 {
				bad := ""
				switch {
				case !file:
					bad = "there is no tree"
				case g.tags["err"] != "yes" && !q.empty(s):
					bad = "there is no tree though the file can be read"
				}
				q.ob(s, nil, "result", "no tree", bad)
				return
			}
			bad := ""
			switch {
			case g.tags["prod"] == "":
				bad = "the input is not parsed"
			case g.tags["done"] != q.e.steps:
				bad = "not all that belongs to it is done with the tree"
			case q.e.this != "" && g.tags["this"] == "":
				bad = "the root has no content"
			}
			q.ob(s, nil, "steps", "the end", bad)
			bad = ""
			n := "T"
			if strings.HasSuffix(q.e.steps, "flow") {
				n = "R"
			}
			if !is(s, v, n) {
				bad = "the result is another tree"
			}
			q.ob(s, nil, "result", "the tree", bad)
		},
	})
}

// empty: what was read is provably empty.
func (q *entering) empty(s *State) bool {
	for id, f := range s.facts {
		for _, m := range f.memo {
			if m.n == "src" && f.len != nil && s.prove(&Cond{op: CEq, l: s.lenOf(vRef(id))}) {
				return true
			}
		}
	}
	return false
}
