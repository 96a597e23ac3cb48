package main

// C30: sorting. The methods that the sort package calls are evaluated
// symbolically, path by path, over the two positions they are given.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sym evaluates a loop-free function over symbolic arguments.
type sym struct {
	p    *Prog
	same bool   // both positions are the same
	ord  string // how the two keys compare: lt, eq, gt or un
	x, y string // the keys, if known
}

type symPath struct {
	mem  map[string]string // what was stored, by address
	res  []string
	fail string
}

type symEnv map[ssa.Value]string

func (e symEnv) clone() symEnv {
	n := symEnv{}
	for k, v := range e {
		n[k] = v
	}
	return n
}

const symMax = 400

// run gives the paths of a function.
func (q *sym) run(f *ssa.Function, args, free []string, mem map[string]string, depth int) []symPath {
	env := symEnv{}
	for i, a := range f.Params {
		if i < len(args) {
			env[a] = args[i]
		}
	}
	for i, a := range f.FreeVars {
		if i < len(free) {
			env[a] = free[i]
		}
	}
	if f.Blocks == nil || depth > 4 || len(q.p.fi(f).loops) > 0 {
		return []symPath{{fail: q.p.short(f) + " is not evaluated"}}
	}
	return q.block(f, f.Blocks[0], nil, env, mem, depth)
}

func (q *sym) block(f *ssa.Function, b, from *ssa.BasicBlock, env symEnv, mem map[string]string, depth int) []symPath {
	set := map[ssa.Value]string{}
	for _, ins := range b.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			for i, pr := range b.Preds {
				if pr == from {
					set[phi] = q.val(phi.Edges[i], env)
				}
			}
		}
	}
	for k, v := range set {
		env[k] = v
	}
	return q.from(f, b, 0, env, mem, depth)
}

func (q *sym) from(f *ssa.Function, b *ssa.BasicBlock, start int, env symEnv, mem map[string]string, depth int) []symPath {
	for n := start; n < len(b.Instrs); n++ {
		switch i := b.Instrs[n].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			env[i] = fmt.Sprintf("&%s.%s", f.Name(), i.Name())
		case *ssa.FieldAddr:
			env[i] = q.val(i.X, env) + "." + fieldName(i.X.Type(), i.Field)
		case *ssa.Field:
			env[i] = q.load(mem, q.val(i.X, env)+"."+fieldName(i.X.Type(), i.Field))
		case *ssa.IndexAddr:
			env[i] = q.val(i.X, env) + "[" + q.val(i.Index, env) + "]"
		case *ssa.UnOp:
			x := q.val(i.X, env)
			switch i.Op {
			case token.MUL:
				env[i] = q.load(mem, q.whole(i.X, x))
			case token.NOT:
				env[i] = map[string]string{"true": "false", "false": "true"}[x]
				if env[i] == "" {
					env[i] = "!" + x
				}
			default:
				env[i] = i.Op.String() + x
			}
		case *ssa.Store:
			mem = cloneMem(mem)
			mem[q.whole(i.Addr, q.val(i.Addr, env))] = q.val(i.Val, env)
		case *ssa.BinOp:
			env[i] = q.binop(i.Op, q.val(i.X, env), q.val(i.Y, env))
		case *ssa.Convert:
			env[i] = i.Type().String() + "(" + q.val(i.X, env) + ")"
		case *ssa.ChangeType:
			env[i] = q.val(i.X, env)
		case *ssa.MakeInterface:
			env[i] = q.val(i.X, env)
		case *ssa.Extract:
			env[i] = fmt.Sprintf("%s#%d", q.val(i.Tuple, env), i.Index)
		case *ssa.Slice:
			env[i] = fmt.Sprintf("%s[%s:%s]", q.val(i.X, env), q.opt(i.Low, env), q.opt(i.High, env))
		case *ssa.MakeClosure:
			env[i] = "closure"
		case *ssa.Call:
			g := i.Call.StaticCallee()
			var args []string
			for _, a := range i.Call.Args {
				args = append(args, q.val(a, env))
			}
			if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
				env[i] = bi.Name() + "(" + strings.Join(args, ",") + ")"
				break
			}
			if g == nil {
				return []symPath{{fail: "a call that is not static"}}
			}
			if q.p.isFn[g] && g.Blocks != nil && len(g.Blocks) <= 4 && len(q.p.fi(g).loops) == 0 && depth < 3 && !q.key(g) {
				var out []symPath
				for _, e := range q.run(g, args, nil, mem, depth+1) {
					if e.fail != "" {
						return []symPath{e}
					}
					en := env.clone()
					if len(e.res) == 1 {
						en[i] = e.res[0]
					} else {
						en[i] = "(" + strings.Join(e.res, ",") + ")"
					}
					out = append(out, q.from(f, b, n+1, en, e.mem, depth)...)
					if len(out) > symMax {
						return []symPath{{fail: "too many paths"}}
					}
				}
				return out
			}
			name := g.Name()
			if g.Signature.Recv() == nil && g.Pkg != nil {
				name = g.Pkg.Pkg.Name() + "." + name
			}
			env[i] = name + "(" + strings.Join(args, ",") + ")"
		case *ssa.If:
			c := q.val(i.Cond, env)
			var out []symPath
			if c != "false" {
				out = append(out, q.block(f, b.Succs[0], b, env.clone(), mem, depth)...)
			}
			if c != "true" {
				out = append(out, q.block(f, b.Succs[1], b, env.clone(), mem, depth)...)
			}
			if len(out) > symMax {
				return []symPath{{fail: "too many paths"}}
			}
			return out
		case *ssa.Jump:
			return q.block(f, b.Succs[0], b, env, mem, depth)
		case *ssa.Return:
			r := symPath{mem: mem}
			for _, v := range i.Results {
				r.res = append(r.res, q.val(v, env))
			}
			return []symPath{r}
		default:
			return []symPath{{fail: fmt.Sprintf("%T is not evaluated", i)}}
		}
	}
	return []symPath{{fail: "no end"}}
}

// whole: the node a pointer leads to, as distinct from where the pointer is kept.
func (q *sym) whole(v ssa.Value, a string) string {
	if q.p.isGraphPtr(v.Type()) && !strings.HasPrefix(a, "&") {
		return "(*" + a + ")"
	}
	return a
}

// key: a function that is part of how a key is obtained.
func (q *sym) key(g *ssa.Function) bool {
	return g.Signature.Recv() != nil && q.p.isGraphPtr(g.Signature.Recv().Type())
}

func fieldName(t types.Type, n int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return t.Underlying().(*types.Struct).Field(n).Name()
}

func cloneMem(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// load: what is stored at an address, or in the object it is part of.
func (q *sym) load(mem map[string]string, a string) string {
	rest := ""
	for b := a; b != ""; {
		if v, ok := mem[b]; ok {
			if rest != "" {
				return q.load(mem, v+rest)
			}
			return v
		}
		n := strings.LastIndexAny(b, ".")
		if n <= 0 || strings.Contains(b[n:], "]") {
			break
		}
		rest = b[n:] + rest
		b = b[:n]
	}
	return a
}

func (q *sym) opt(v ssa.Value, env symEnv) string {
	if v == nil {
		return ""
	}
	return q.val(v, env)
}

func (q *sym) val(v ssa.Value, env symEnv) string {
	if e, ok := env[v]; ok {
		if q.same {
			return strings.ReplaceAll(e, "#2", "#1")
		}
		return e
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return "nil"
		}
		return v.Value.ExactString()
	case *ssa.Global:
		return "&" + v.Name()
	case *ssa.Function:
		return v.Name()
	}
	return "?" + v.Name()
}

func (q *sym) binop(op token.Token, x, y string) string {
	e := "(" + x + " " + op.String() + " " + y + ")"
	// the two positions
	if (x == "#1" && y == "#2" || x == "#2" && y == "#1" || x == "#1" && y == "#1") && !strings.HasPrefix(e, "(#2 #2") {
		switch op {
		case token.EQL:
			return fmt.Sprint(q.same)
		case token.NEQ:
			return fmt.Sprint(!q.same)
		}
	}
	// comparisons of the keys
	sign := func(a, b string) (string, bool) {
		if q.x == "" || q.ord == "" {
			return "", false
		}
		switch {
		case a == q.x && b == q.y:
			return q.ord, true
		case a == q.y && b == q.x:
			return map[string]string{"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}[q.ord], true
		}
		return "", false
	}
	o, ok := sign(x, y)
	flip := false
	if !ok {
		// by comparison with a constant
		for k, z := range []string{x, y} {
			w := []string{y, x}[k]
			for _, fn := range []string{"strings.Compare(", "bytes.Compare("} {
				if strings.HasPrefix(z, fn) && q.x != "" {
					in := z[len(fn) : len(z)-1]
					var c string
					if in == q.x+","+q.y {
						c = q.ord
					} else if in == q.y+","+q.x {
						c = map[string]string{"lt": "gt", "gt": "lt", "eq": "eq", "un": "un"}[q.ord]
					} else {
						continue
					}
					n := map[string]int{"lt": -1, "eq": 0, "gt": 1}[c]
					var m int
					if _, err := fmt.Sscanf(w, "%d", &m); err != nil {
						continue
					}
					o, ok, flip = "eq", true, k == 1
					if n < m {
						o = "lt"
					} else if n > m {
						o = "gt"
					}
				}
			}
		}
	}
	if !ok {
		return e
	}
	if flip {
		o = map[string]string{"lt": "gt", "gt": "lt", "eq": "eq"}[o]
	}
	switch op {
	case token.LSS:
		return fmt.Sprint(o == "lt")
	case token.LEQ:
		return fmt.Sprint(o == "lt" || o == "eq")
	case token.GTR:
		return fmt.Sprint(o == "gt")
	case token.GEQ:
		return fmt.Sprint(o == "gt" || o == "eq")
	case token.EQL:
		return fmt.Sprint(o == "eq")
	case token.NEQ:
		return fmt.Sprint(o != "eq")
	}
	return e
}

type symProbe struct {
	sym
	found map[string]bool
	pre   map[string]string
}

func (q *symProbe) probe(f *ssa.Function, args, free []string) {
	// every value on every path that is the result of a call or a load
	var env func(e string)
	env = func(e string) {
		// the operands of the outermost comparisons
		for _, op := range []string{" < ", " > ", " <= ", " >= ", " == ", " != "} {
			for i := 0; i+len(op) <= len(e); i++ {
				if e[i:i+len(op)] != op {
					continue
				}
				// to the left and to the right, balanced
				l, d := i, 0
				for l > 0 {
					c := e[l-1]
					if c == ')' || c == ']' {
						d++
					}
					if c == '(' || c == '[' {
						if d == 0 {
							break
						}
						d--
					}
					l--
				}
				r, d := i+len(op), 0
				for r < len(e) {
					c := e[r]
					if c == '(' || c == '[' {
						d++
					}
					if c == ')' || c == ']' {
						if d == 0 {
							break
						}
						d--
					}
					r++
				}
				q.found[e[l:i]] = true
				q.found[e[i+len(op):r]] = true
			}
		}
		for _, fn := range []string{"strings.Compare(", "bytes.Compare("} {
			if i := strings.Index(e, fn); i >= 0 {
				in, d, last := e[i+len(fn):], 0, 0
				for k := 0; k < len(in); k++ {
					switch in[k] {
					case '(', '[':
						d++
					case ')', ']':
						d--
					}
					if d == 0 && in[k] == ',' || d < 0 {
						q.found[in[last:k]] = true
						last = k + 1
					}
					if d < 0 {
						break
					}
				}
			}
		}
	}
	for _, e := range q.allVals(f, args, free) {
		env(e)
	}
}

// allVals gives the values of the conditions and results of a function.
func (q *symProbe) allVals(f *ssa.Function, args, free []string) []string {
	var out []string
	for _, e := range q.run(f, args, free, q.pre, 0) {
		out = append(out, e.res...)
	}
	// the conditions that are branched on: evaluated in a straight line
	env := symEnv{}
	for i, a := range f.Params {
		env[a] = args[i]
	}
	for i, a := range f.FreeVars {
		if i < len(free) {
			env[a] = free[i]
		}
	}
	mem := cloneMem(q.pre)
	for _, b := range f.DomPreorder() {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				mem[q.val(i.Addr, env)] = q.val(i.Val, env)
			case *ssa.If:
				out = append(out, q.val(i.Cond, env))
			case ssa.Value:
				// one instruction at a time
				blk := &ssa.BasicBlock{Instrs: []ssa.Instruction{ins}}
				q.from(f, blk, 0, env, mem, 3)
			}
		}
	}
	return out
}

func init() {
	checks["C30"] = func(r *Report) {
		p := r.p
		r.rule("swap", "the method that exchanges two children leaves each where the other was, and stores nothing else, whether the positions differ or not")
		r.rule("order", "the comparison gives true if and only if the key of the first node is less than that of the second; the key of a node is the same function of the node and of the sort field, for both")
		r.rule("all", "what is sorted is the list of children of the node, all of it, by the field that was asked for")
		r.rule("only swap", "nothing else that can be reached from sorting writes to the node or to what can be reached from it")
		n := 0
		for _, f := range p.fns {
			if f.Pkg == nil || f.Pkg.Pkg != p.root || f.Blocks == nil || f.Signature.Recv() == nil || !p.isGraphPtr(f.Signature.Recv().Type()) || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(f.Name(), "Sort") {
				continue
			}
			n++
			r.saw(f)
			r.sorts(f)
		}
		r.ob(n >= 3, "all", "instances", "", "the functions that sort are not found")
		r.floor("swap", 2)
		r.floor("order", 2)
		r.floor("all", 3)
		r.floor("only swap", 3)
		r.assume = []string{"sort.Sort and sort.Slice rearrange what they sort only through Swap, or as Swap does", "content does not change while it is sorted"}
	}
}

func (r *Report) sorts(root *ssa.Function) {
	p := r.p
	name := p.short(root)
	// the calls of the sort package, here or in what this calls
	type site struct {
		f    *ssa.Function
		call *ssa.Call
		args []string
	}
	var sites []site
	q := &sym{p: p}
	var find func(f *ssa.Function, args []string, d int)
	swaps := map[*ssa.Function]bool{}
	find = func(f *ssa.Function, args []string, d int) {
		if d > 3 || f.Blocks == nil {
			return
		}
		env := symEnv{}
		for i, a := range f.Params {
			if i < len(args) {
				env[a] = args[i]
			}
		}
		mem := map[string]string{}
		for _, b := range f.DomPreorder() {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					mem[q.val(i.Addr, env)] = q.val(i.Val, env)
					continue
				case *ssa.Call:
					g := i.Call.StaticCallee()
					if g == nil {
						continue
					}
					var as []string
					for _, a := range i.Call.Args {
						as = append(as, q.load(mem, q.val(a, env)))
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "sort" {
						sites = append(sites, site{f, i, as})
						r.sortSite(name, root, i, env, mem, swaps)
						continue
					}
					if p.isFn[g] && g != f {
						find(g, as, d+1)
					}
				}
				if _, ok := ins.(ssa.Value); ok {
					blk := &ssa.BasicBlock{Instrs: []ssa.Instruction{ins}}
					q.from(f, blk, 0, env, mem, 3)
				}
			}
		}
	}
	var args []string
	for i := range root.Params {
		args = append(args, fmt.Sprintf("param%d", i))
	}
	find(root, args, 0)
	r.ob(len(sites) == 1, "all", name+": sorts once", p.pos(root.Pos()), fmt.Sprintf("%d calls of the sort package", len(sites)))
	// effects
	var a *PTA
	var bad []pevent
	for k := 1; k <= 3; k++ {
		a = newPTA(p)
		a.k = k
		a.prune = p.assignPrune()
		a.addRoot(root)
		a.solve()
		bad = nil
		for _, e := range a.sortedEvents() {
			if !isParamRoot(e.obj) || swaps[e.fn] {
				continue
			}
			if c, ok := e.ins.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sort" {
					continue
				}
			}
			bad = append(bad, e)
		}
		if len(bad) == 0 {
			break
		}
	}
	r.ptaStats(a)
	for _, e := range bad {
		r.fail("only swap", name+" -> "+r.evKey(e), p.insPos(e.ins), fmt.Sprintf("%s writes to %s%s while sorting (%s)", p.short(e.fn), e.obj.rootName(), e.f, e.what))
	}
	if len(bad) == 0 {
		r.ob(true, "only swap", name, p.pos(root.Pos()), "")
	}
}

// sortSite checks one call of the sort package.
func (r *Report) sortSite(name string, root *ssa.Function, c *ssa.Call, env symEnv, mem map[string]string, swaps map[*ssa.Function]bool) {
	p := r.p
	q := &sym{p: p}
	at := p.insPos(c)
	var less, length, swap *ssa.Function
	var recv string
	var free []string
	fn := c.Call.StaticCallee().Name()
	list := "param0.Out"
	pre := map[string]string{}
	switch fn {
	case "Sort", "Stable":
		mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
		if !ok {
			r.fail("all", name+": what is sorted", at, "what is sorted is not known")
			return
		}
		sel := func(n string) *ssa.Function {
			s := p.ssa.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, n)
			if s == nil {
				return nil
			}
			f := p.ssa.MethodValue(s)
			if f != nil && f.Synthetic != "" {
				// a wrapper of a method that takes the value
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if k, ok := ins.(*ssa.Call); ok && k.Call.StaticCallee() != nil && k.Call.StaticCallee().Name() == n {
							return k.Call.StaticCallee()
						}
					}
				}
			}
			return f
		}
		length, less, swap = sel("Len"), sel("Less"), sel("Swap")
		recv = q.load(mem, q.val(mi.X, env))
		// what the fields hold
		base := q.val(mi.X, env)
		if u, ok := mi.X.(*ssa.UnOp); ok {
			base = q.val(u.X, env)
		}
		recv = "sorter"
		pre = cloneMem(mem)
		for k, v := range mem {
			if k == base || strings.HasPrefix(k, base+".") {
				pre["sorter"+k[len(base):]] = v
			}
		}
	case "Slice", "SliceStable":
		arg := c.Call.Args[0]
		if mi, ok := arg.(*ssa.MakeInterface); ok {
			arg = mi.X
		}
		got := q.load(mem, q.val(arg, env))
		r.ob(got == list, "all", name+": what is sorted", at, "what is sorted is not the list of children of the node: "+got)
		switch g := c.Call.Args[1].(type) {
		case *ssa.Function:
			less = g
		case *ssa.MakeClosure:
			less = g.Fn.(*ssa.Function)
			for _, b := range g.Bindings {
				free = append(free, q.val(b, env))
			}
			pre = mem
		}
		recv = ""
	default:
		r.fail("all", name+": "+fn, at, "this function of the sort package is not known")
		return
	}
	if less == nil || recv != "" && (length == nil || swap == nil) {
		r.fail("all", name+": what is sorted", at, "the comparison or the exchange is not known")
		return
	}
	run := func(q *sym, f *ssa.Function, pos ...string) []symPath {
		r.saw(f)
		args := pos
		if recv != "" {
			args = append([]string{recv}, pos...)
		}
		return q.run(f, args, free, pre, 0)
	}
	if recv != "" {
		es := run(q, length)
		ok := len(es) > 0
		got := ""
		for _, e := range es {
			if e.fail != "" || len(e.res) != 1 || e.res[0] != "len("+list+")" {
				ok = false
				got = e.fail + " " + strings.Join(e.res, ",")
			}
		}
		r.ob(ok, "all", name+": what is sorted", at, "the length of what is sorted is not that of the list of children of the node: "+got)
		swaps[swap] = true
		for _, b := range swap.Blocks {
			for _, ins := range b.Instrs {
				if k, ok := ins.(*ssa.Call); ok && k.Call.StaticCallee() != nil && p.isFn[k.Call.StaticCallee()] {
					swaps[k.Call.StaticCallee()] = true
				}
			}
		}
		for _, same := range []bool{false, true} {
			q := &sym{p: p, same: same}
			bad := ""
			for _, e := range run(q, swap, "#1", "#2") {
				if e.fail != "" {
					bad = e.fail
					continue
				}
				want := map[string]string{list + "[#1]": list + "[#2]", list + "[#2]": list + "[#1]"}
				if same {
					want = map[string]string{list + "[#1]": list + "[#1]"}
				}
				for _, k := range sortedKeys(e.mem) {
					if v, ok := pre[k]; ok && v == e.mem[k] || strings.HasPrefix(k, "&") {
						continue
					}
					if want[k] != e.mem[k] {
						bad = fmt.Sprintf("%s becomes %s", k, e.mem[k])
					}
					delete(want, k)
				}
				if len(want) > 0 && !same && bad == "" {
					bad = strings.Join(sortedKeys(want), " and ") + " is not exchanged"
				}
			}
			r.ob(bad == "", "swap", fmt.Sprintf("%s: %s (same position: %v)", name, p.short(swap), same), p.pos(swap.Pos()), bad)
		}
	}
	// the order
	args := []string{"#1", "#2"}
	if recv != "" {
		args = append([]string{recv}, args...)
	}
	x, y := q.operandsIn(less, args, free, pre)
	field := "param1"
	ok := x != "" && strings.Contains(x, list+"[#1]") && len(root.Params) > 1 && strings.Contains(strings.ReplaceAll(x, list, ""), field)
	r.ob(ok, "order", name+": key", p.pos(less.Pos()), "the keys that are compared are not the same function of each node and of the field that was asked for: "+x)
	if !ok {
		return
	}
	for _, o := range []string{"lt", "eq", "gt", "un"} {
		bad := ""
		es := run(&sym{p: p, ord: o, x: x, y: y}, less, "#1", "#2")
		for _, e := range es {
			want := fmt.Sprint(o == "lt")
			if o == "un" && strings.Contains(x, "Float") == false {
				want = "any"
			}
			switch {
			case e.fail != "":
				bad = e.fail
			case len(e.res) != 1 || want != "any" && e.res[0] != want:
				bad = fmt.Sprintf("when the keys compare as %s, the result is %s", o, strings.Join(e.res, ","))
			}
		}
		r.ob(bad == "" && len(es) > 0, "order", name+": "+o, p.pos(less.Pos()), bad)
	}
}

func (q *sym) operandsIn(f *ssa.Function, args, free []string, pre map[string]string) (x, y string) {
	pr := &symProbe{sym: sym{p: q.p}, found: map[string]bool{}}
	pr.pre = pre
	pr.probe(f, args, free)
	for _, k := range sortedKeys(pr.found) {
		if strings.Contains(k, "#1") && !strings.Contains(k, "#2") {
			z := strings.ReplaceAll(k, "#1", "#2")
			if pr.found[z] && len(k) > len(x) {
				x, y = k, z
			}
		}
	}
	return
}
