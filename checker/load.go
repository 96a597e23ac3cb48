package main

// Loading of /repo's current source, and facts about functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dir     string
	ssa     *ssa.Program
	pkgs    []*packages.Package
	repoPkg map[*types.Package]bool
	fns     []*ssa.Function // every function of the repository with a body, wrappers excluded
	isFn    map[*ssa.Function]bool
	info    map[*ssa.Function]*fnInfo
	root    *types.Package // package ogdl
	graphT  *types.Named
	addrTkn map[*ssa.Function]bool
	globNN  map[*ssa.Global]bool
	// functions used as values that only the program itself calls
	handlers []*ssa.Function
	namedT   []types.Type
}

type loadError struct{ msg string }

func (e loadError) Error() string { return e.msg }

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, loadError{fmt.Sprintf("%s: %v", p.PkgPath, e)}
		}
		if p.IllTyped {
			return nil, loadError{p.PkgPath + " does not type check"}
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Prog{dir: dir, ssa: prog, pkgs: pkgs, repoPkg: map[*types.Package]bool{}, isFn: map[*ssa.Function]bool{},
		info: map[*ssa.Function]*fnInfo{}, addrTkn: map[*ssa.Function]bool{}, globNN: map[*ssa.Global]bool{}}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		pr.repoPkg[p.Types] = true
		if p.Types.Name() == "ogdl" {
			pr.root = p.Types
		}
	}
	if pr.root == nil {
		return nil, loadError{"package ogdl not found"}
	}
	if o := pr.root.Scope().Lookup("Graph"); o != nil {
		pr.graphT, _ = o.Type().(*types.Named)
	}
	if pr.graphT == nil {
		return nil, loadError{"type Graph not found"}
	}
	for _, p := range pkgs {
		prog.Package(p.Types).Build()
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil && f.Synthetic == "" || f.Name() == "init" {
			pr.fns = append(pr.fns, f)
			pr.isFn[f] = true
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && pr.repoPkg[f.Pkg.Pkg] {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(pr.fns, func(i, j int) bool { return pr.name(pr.fns[i]) < pr.name(pr.fns[j]) })
	for _, f := range pr.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						pr.addrTkn[g] = true
					}
				}
			}
		}
	}
	return pr, nil
}

// name gives a readable and stable name of a function.
func (p *Prog) name(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/rveen/ogdl", "ogdl")
	s = strings.ReplaceAll(s, "ogdl/", "")
	return s
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.ssa.Fset.Position(pos)
	r, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}

// insPos finds a position for an instruction, looking at its neighbours.
func (p *Prog) insPos(ins ssa.Instruction) string {
	if ins == nil {
		return "?"
	}
	if ins.Pos().IsValid() {
		return p.pos(ins.Pos())
	}
	for _, op := range ins.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, ok := (*op).(*ssa.Function); ok {
				continue
			}
			if _, ok := (*op).(*ssa.Global); ok {
				continue
			}
			return p.pos((*op).Pos())
		}
	}
	if b := ins.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i.Pos())
			}
		}
		return p.pos(b.Parent().Pos())
	}
	return "?"
}

func (p *Prog) inRepo(t types.Type) bool {
	switch u := t.(type) {
	case *types.Named:
		o := u.Obj()
		return o.Pkg() != nil && p.repoPkg[o.Pkg()]
	case *types.Alias:
		return p.inRepo(types.Unalias(t))
	case *types.Struct:
		return true
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Prog) isGraphPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), p.graphT)
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fn finds a function: "New", "(*Graph).Get" of package ogdl, or with a package
// name: "ogdlrf.Serve", "(*ogdlrf.Client).Call".
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.fns {
		if p.short(f) == name {
			return f
		}
	}
	return nil
}

func (p *Prog) short(f *ssa.Function) string {
	s := p.name(f)
	return strings.ReplaceAll(s, "ogdl.", "")
}

// ---- per function information

type loopInfo struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	depth int
}

type fnInfo struct {
	fn     *ssa.Function
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*loopInfo // by head
	inLoop map[*ssa.BasicBlock]*loopInfo // innermost
	liveIn []map[ssa.Value]bool
	nIns   int
}

func (p *Prog) fi(f *ssa.Function) *fnInfo {
	if i := p.info[f]; i != nil {
		return i
	}
	fi := &fnInfo{fn: f, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inLoop: map[*ssa.BasicBlock]*loopInfo{}}
	p.info[f] = fi
	for _, b := range f.Blocks {
		fi.nIns += len(b.Instrs)
	}
	// natural loops
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m.body[l.head] {
				l.depth++
			}
		}
	}
	for _, b := range f.Blocks {
		for _, l := range fi.loops {
			if l.body[b] && (fi.inLoop[b] == nil || l.depth > fi.inLoop[b].depth) {
				fi.inLoop[b] = l
			}
		}
	}
	// reverse postorder in which the body of a loop comes before what follows it
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit first the successors that leave loops, so that they come last
		succ := append([]*ssa.BasicBlock{}, b.Succs...)
		sort.SliceStable(succ, func(i, j int) bool {
			return fi.nest(b, succ[i]) < fi.nest(b, succ[j])
		})
		for _, s := range succ {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		if f.Recover != nil && !seen[f.Recover] {
			dfs(f.Recover) // before the entry, so that it comes last
		}
		dfs(f.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	fi.liveness()
	return fi
}

// nest is the number of loops of b that contain s.
func (fi *fnInfo) nest(b, s *ssa.BasicBlock) int {
	n := 0
	for _, l := range fi.loops {
		if l.body[b] && l.body[s] {
			n++
		}
	}
	return n
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					live[v] = true
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					// all edges from b
					for j, p := range s.Preds {
						if p == b && tracked(ph.Edges[j]) {
							live[ph.Edges[j]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			// phis of the block are defined at its entry: they are live in
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					live[ph] = true
				} else {
					break
				}
			}
			if len(live) != len(fi.liveIn[i]) {
				fi.liveIn[i] = live
				changed = true
			}
		}
	}
}
