package main

// C21: results are deterministic.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callName: "pkg.Func" or "(*pkg.T).Method" of a call of another package.
func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

// sources of values that differ from one run to the next
func nondet(n string, args []ssa.Value) (string, bool) {
	for _, x := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*math/rand", "(*math/rand/v2", "(hash/maphash", "(*hash/maphash"} {
		if strings.HasPrefix(n, x) {
			return "random numbers", true
		}
	}
	switch n {
	case "time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc":
		return "the time", true
	case "os.Getenv", "os.LookupEnv", "os.Environ", "os.ExpandEnv", "os.Hostname", "os.Getpid", "os.Getppid", "os.Getuid", "os.Getwd", "os.TempDir",
		"os.Executable", "os.UserHomeDir", "os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile", "io/ioutil.TempDir", "syscall.Getenv":
		return "the environment", true
	case "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.Caller", "runtime.Callers", "runtime.Stack", "runtime.ReadMemStats", "runtime/debug.Stack", "runtime.NumCgoCall":
		return "the state of the runtime", true
	case "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "maps.Keys", "maps.Values", "maps.All", "(*sync.Map).Range":
		return "the order of a map", true
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).UnsafeAddr":
		return "a memory address", true
	}
	return "", false
}

// where such a value may go without reaching a result
func nondetSink(n string) bool {
	if strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(*log.") || strings.HasPrefix(n, "log/slog.") || strings.HasPrefix(n, "(*log/slog.") {
		return true
	}
	i := strings.LastIndex(n, ".")
	switch n[i+1:] {
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		return true
	}
	return n == "time.Sleep" || n == "runtime.FuncForPC" || n == "slices.Sorted" || n == "slices.SortedFunc"
}

type taint struct {
	p    *Prog
	seen map[ssa.Value]bool
	bad  func(use ssa.Instruction, why string)
}

// flow follows a value through operations to where it ends.
func (t *taint) flow(v ssa.Value) {
	if t.seen[v] || v.Referrers() == nil {
		return
	}
	t.seen[v] = true
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			t.flow(u)
		case *ssa.UnOp:
			t.flow(u)
		case *ssa.Convert:
			t.flow(u)
		case *ssa.ChangeType:
			t.flow(u)
		case *ssa.ChangeInterface:
			t.flow(u)
		case *ssa.MakeInterface:
			t.flow(u)
		case *ssa.Phi:
			t.flow(u)
		case *ssa.Extract:
			t.flow(u)
		case *ssa.Field:
			t.flow(u)
		case *ssa.Slice:
			t.flow(u)
		case *ssa.IndexAddr:
			if u.X != v {
				t.bad(u, "is used as an index")
			} else {
				t.flow(u)
			}
		case *ssa.FieldAddr:
			t.flow(u)
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			switch a := u.Addr.(type) {
			case *ssa.Alloc:
				t.flow(a)
			case *ssa.IndexAddr:
				if al, ok := a.X.(*ssa.Alloc); ok { // the arguments of a variadic call
					t.flow(al)
					continue
				}
				t.bad(u, "is stored")
			default:
				t.bad(u, "is stored")
			}
		case ssa.CallInstruction:
			c := u.Common()
			n := callName(c)
			if f := c.StaticCallee(); f != nil && t.p.isFn[f] {
				for i, a := range c.Args {
					if a == v && i < len(f.Params) {
						t.flow(f.Params[i])
					}
				}
				continue
			}
			if nondetSink(n) {
				continue
			}
			if strings.HasPrefix(n, "(time.") || strings.HasPrefix(n, "(*time.") || n == "builtin" {
				if w, ok := u.(ssa.Value); ok {
					t.flow(w)
				}
				continue
			}
			if b, ok := c.Value.(*ssa.Builtin); ok {
				_ = b
				if w, ok := u.(ssa.Value); ok {
					t.flow(w)
				}
				continue
			}
			t.bad(u, "is given to "+n)
		case *ssa.If:
			t.bad(u, "decides a branch")
		case *ssa.Return:
			// the callers
			f := u.Parent()
			any := false
			for _, g := range t.p.fns {
				for _, b := range g.Blocks {
					for _, ins := range b.Instrs {
						if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
							any = true
							if w, ok := ins.(ssa.Value); ok {
								t.flow(w)
							}
						}
					}
				}
			}
			if f.Object() != nil && f.Object().Exported() || !any {
				t.bad(u, "is returned by "+t.p.short(f))
			}
		default:
			t.bad(u, "is used")
		}
	}
}

// pureExt: functions of the standard library whose result depends on their
// arguments only and that have no effects.
func pureExt(n string) bool {
	for _, x := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "math.", "bytes.", "fmt.Sprint", "errors.", "reflect.DeepEqual", "reflect.TypeOf", "path."} {
		if strings.HasPrefix(n, x) {
			return true
		}
	}
	return false
}

// mapLoop decides if what a loop over a map leaves behind depends on the order.
func (p *Prog) mapLoop(rg *ssa.Range) string {
	f := rg.Parent()
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	var lp *loopInfo
	for _, l := range p.fi(f).loops {
		if l.body[next.Block()] && (lp == nil || len(l.body) < len(lp.body)) && l.head == next.Block() {
			lp = l
		}
	}
	if lp == nil {
		return ""
	}
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && lp.body[i.Block()]
	}
	var accum []ssa.Value // lists of what was met, in its order
	for b := range lp.body {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				// the variables of the loop itself
				if a, ok := x.Addr.(*ssa.Alloc); ok && lp.body[a.Block()] {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if a, ok := ia.X.(*ssa.Alloc); ok && lp.body[a.Block()] {
						continue
					}
				}
				if _, ok := x.Val.(*ssa.Const); ok {
					continue
				}
				return "a variable is set in the order of the map"
			case *ssa.MapUpdate:
				// a value for each key
				continue
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); !ok && in(v) {
						return "the result is whatever element comes first"
					}
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic:
				return "an effect for each element, in the order of the map"
			case *ssa.Call:
				c := x.Common()
				if bt, ok := c.Value.(*ssa.Builtin); ok {
					switch bt.Name() {
					case "append":
						accum = append(accum, x)
						continue
					case "len", "cap", "delete", "min", "max":
						continue
					}
					return "an effect for each element, in the order of the map"
				}
				if g := c.StaticCallee(); g != nil && p.isFn[g] {
					if p.pureFn(g, map[*ssa.Function]bool{}) {
						continue
					}
					return p.short(g) + " is called in the order of the map"
				}
				if pureExt(callName(c)) {
					continue
				}
				return callName(c) + " is called in the order of the map"
			case *ssa.Phi:
				if b != lp.head {
					continue
				}
				if why := p.mapPhi(x, lp, &accum); why != "" {
					return why
				}
			}
		}
	}
	// values computed in the loop and used after it
	for b := range lp.body {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil || b == lp.head {
				continue
			}
			for _, u := range *v.Referrers() {
				if !lp.body[u.Block()] {
					if ph, ok := u.(*ssa.Phi); ok {
						_ = ph
					}
					return "the value of one element, whichever comes first or last, is used after the loop"
				}
			}
		}
	}
	// exits before the end must not depend on the element
	var sorted func(v ssa.Value, seen map[ssa.Value]bool) string
	sorted = func(v ssa.Value, seen map[ssa.Value]bool) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		var sortAt ssa.Instruction
		var uses []ssa.Instruction
		var scan func(w ssa.Value)
		scan = func(w ssa.Value) {
			for _, u := range *w.Referrers() {
				if lp.body[u.Block()] {
					continue
				}
				switch y := u.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.MakeInterface:
					scan(y)
					continue
				case *ssa.ChangeType:
					scan(y)
					continue
				case *ssa.Call:
					n := callName(y.Common())
					if p.totalSort(n, y.Common()) {
						sortAt = u
						continue
					}
				}
				uses = append(uses, u)
			}
		}
		scan(v)
		if len(uses) == 0 {
			return ""
		}
		if sortAt == nil {
			return "the elements are collected in the order of the map and not sorted"
		}
		for _, u := range uses {
			if u.Block() == sortAt.Block() {
				before := false
				for _, i := range u.Block().Instrs {
					if i == u {
						before = true
						break
					}
					if i == sortAt {
						break
					}
				}
				if before {
					if b, ok := u.(*ssa.Call); ok {
						if bt, ok := b.Common().Value.(*ssa.Builtin); ok && bt.Name() == "len" {
							continue
						}
					}
					return "the elements are used before they are sorted"
				}
			} else if !sortAt.Block().Dominates(u.Block()) {
				return "the elements can be used without being sorted"
			}
		}
		return ""
	}
	for _, v := range accum {
		if why := sorted(v, map[ssa.Value]bool{}); why != "" {
			return why
		}
	}
	return ""
}

// totalSort: sorting by the elements themselves, so that the order before does not matter.
func (p *Prog) totalSort(n string, c *ssa.CallCommon) bool {
	switch n {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort":
		return true
	case "sort.Sort", "sort.Stable":
		return true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
	default:
		return false
	}
	if len(c.Args) != 2 {
		return false
	}
	var less *ssa.Function
	switch x := c.Args[1].(type) {
	case *ssa.MakeClosure:
		less = x.Fn.(*ssa.Function)
	case *ssa.Function:
		n := x.RelString(nil)
		if o := x.Origin(); o != nil {
			n = o.RelString(nil)
		}
		if n == "strings.Compare" || n == "cmp.Compare" {
			return true
		}
		less = x
	}
	if less == nil {
		return false
	}
	elem := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.UnOp:
			_, ok := y.X.(*ssa.IndexAddr)
			return ok && y.Op == token.MUL
		}
		return false
	}
	for _, b := range less.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.BinOp:
				if (x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ) && elem(x.X) && elem(x.Y) {
					if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
						return true
					}
				}
			case *ssa.Call:
				n := callName(x.Common())
				if (n == "strings.Compare" || n == "cmp.Compare") && len(x.Common().Args) == 2 && elem(x.Common().Args[0]) && elem(x.Common().Args[1]) {
					return true
				}
			}
		}
	}
	return false
}

// mapPhi: what is carried from one iteration to the next.
func (p *Prog) mapPhi(x *ssa.Phi, lp *loopInfo, accum *[]ssa.Value) string {
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if v == x || d > 8 {
			return v == x
		}
		switch y := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range y.Edges {
				if !ok(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch y.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if b, isB := y.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
					return ok(y.X, d+1) || ok(y.Y, d+1)
				}
			}
		case *ssa.Call:
			if b, isB := y.Common().Value.(*ssa.Builtin); isB {
				switch b.Name() {
				case "append":
					*accum = append(*accum, x)
					return ok(y.Common().Args[0], d+1)
				case "min", "max":
					return true
				}
			}
		}
		return false
	}
	for i, e := range x.Edges {
		if !lp.body[x.Block().Preds[i]] {
			continue
		}
		if !ok(e, 0) {
			return "what " + x.Comment + " holds at the end depends on the order of the map"
		}
	}
	return ""
}

// pureFn: no stores except to its own variables, and only pure calls.
func (p *Prog) pureFn(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				a := x.Addr
				if ia, ok := a.(*ssa.IndexAddr); ok {
					a = ia.X
				}
				if fa, ok := a.(*ssa.FieldAddr); ok {
					a = fa.X
				}
				if al, ok := a.(*ssa.Alloc); !ok || al.Parent() != f {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers:
				return false
			case *ssa.Call:
				c := x.Common()
				if bt, ok := c.Value.(*ssa.Builtin); ok {
					if bt.Name() == "append" || bt.Name() == "len" || bt.Name() == "cap" {
						continue
					}
					return false
				}
				if g := c.StaticCallee(); g != nil && p.isFn[g] {
					if !p.pureFn(g, seen) {
						return false
					}
					continue
				}
				if !pureExt(callName(c)) {
					return false
				}
			}
		}
	}
	return true
}

func (p *Prog) fmtPointer(c *ssa.CallCommon, n string) string {
	if !strings.HasPrefix(n, "fmt.") || strings.Contains(n, "Scan") {
		return ""
	}
	for _, a := range c.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			s := strings.ReplaceAll(constant.StringVal(k.Value), "%%", "")
			for i := 0; i+1 < len(s); i++ {
				if s[i] == '%' {
					j := i + 1
					for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
						j++
					}
					if j < len(s) && s[j] == 'p' {
						return "%p prints a memory address"
					}
				}
			}
		}
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, u := range *al.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, w := range *ia.Referrers() {
				st, ok := w.(*ssa.Store)
				if !ok {
					continue
				}
				if mi, ok := st.Val.(*ssa.MakeInterface); ok {
					t := mi.X.Type()
					ms := types.NewMethodSet(t)
					if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
						continue
					}
					switch t.Underlying().(type) {
					case *types.Pointer, *types.Signature, *types.Chan:
						return "a value of type " + t.String() + " is printed as a memory address"
					}
				}
			}
		}
	}
	return ""
}

func init() {
	checks["C21"] = func(r *Report) {
		p := r.p
		r.rule("map order", "a loop over a map leaves nothing behind that depends on the order of the iteration: what it collects is sorted before it is used")
		r.rule("source", "time, random numbers, environment, runtime state and addresses do not reach results: the time only goes into deadlines and logs")
		r.rule("scheduling", "the packages ogdl and gxml start no goroutines and do not choose between channels")
		r.rule("address", "no value is printed as a memory address, and no address is made a number")
		ncall, nloop := 0, 0
		for _, f := range p.fns {
			r.saw(f)
			pk := ""
			if f.Pkg != nil {
				pk = f.Pkg.Pkg.Name()
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.Range:
						if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
							continue
						}
						nloop++
						why := p.mapLoop(x)
						r.ob(why == "", "map order", p.short(f)+": range over "+x.X.Type().String(), p.insPos(ins), why)
					case *ssa.Go:
						if pk != "ogdlrf" {
							r.fail("scheduling", p.short(f)+": go", p.insPos(ins), "a goroutine is started")
						} else {
							r.ob(true, "scheduling", p.short(f)+": go (server)", p.insPos(ins), "")
						}
					case *ssa.Select:
						if len(x.States) > 1 || !x.Blocking {
							r.fail("scheduling", p.short(f)+": select", p.insPos(ins), "the choice between channels depends on scheduling")
						}
					case *ssa.Convert:
						if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
							r.fail("address", p.short(f)+": unsafe", p.insPos(ins), "an address is converted")
						}
					}
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					ncall++
					n := callName(c.Common())
					if why := p.fmtPointer(c.Common(), n); why != "" {
						r.fail("address", p.short(f)+": "+n, p.insPos(ins), why)
					}
					what, ok := nondet(n, c.Common().Args)
					if !ok {
						continue
					}
					v, ok := ins.(ssa.Value)
					if !ok {
						r.fail("source", p.short(f)+": "+n, p.insPos(ins), what+" used in a go or defer statement")
						continue
					}
					bad := ""
					t := &taint{p, map[ssa.Value]bool{}, func(u ssa.Instruction, why string) {
						if bad == "" {
							bad = fmt.Sprintf("%s (%s) %s at %s", what, n, why, p.insPos(u))
						}
					}}
					t.flow(v)
					r.ob(bad == "", "source", p.short(f)+": "+n, p.insPos(ins), bad)
				}
			}
		}
		var imps []string
		for _, pk := range p.pkgs {
			for path := range pk.Imports {
				if path == "unsafe" || path == "math/rand" || path == "math/rand/v2" || path == "C" {
					imps = append(imps, path)
				}
			}
		}
		sort.Strings(imps)
		r.ob(true, "source", fmt.Sprintf("all %d calls of %d functions", ncall, len(p.fns)), "", "")
		r.extra["calls"] = ncall
		r.extra["loops_over_maps"] = nloop
		r.extra["imports_of_interest"] = imps
		r.assume = []string{"the standard library is deterministic apart from the functions listed in the rules", "content of nodes that has no text form (functions, channels, pointers) is not rendered", "user supplied functions are deterministic"}
	}
}
