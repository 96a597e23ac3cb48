package main

import (
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// dump prints what the values of a function can point to (debugging).
func (a *PTA) dump() {
	w := os.Getenv("OGDLCHECK_PTA")
	if w == "" {
		return
	}
	for in := range a.insts {
		if a.p.short(in.fn) != w {
			continue
		}
		fmt.Println("==", w, "ctx", in.ctx)
		show := func(v ssa.Value, i int) {
			s := a.vals[pnode{v, in.ctx, i}]
			if s == nil || len(s.s) == 0 {
				return
			}
			var l []string
			for e := range s.s {
				l = append(l, fmt.Sprintf("{%s%s dt=%v}", e.o.label, e.f, e.dt))
			}
			sort.Strings(l)
			fmt.Println("  ", v.Name(), i, v, l)
		}
		for _, x := range in.fn.Params {
			show(x, 0)
		}
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					show(v, 0)
					show(v, 1)
					show(v, 2)
				}
			}
		}
	}
}

var ptaTrace = os.Getenv("OGDLCHECK_PTATRACE")

func (a *PTA) traceAdd(s *pvar, e PElem) {
	for k, v := range a.vals {
		if v == s {
			fmt.Printf("TRACE %s%s -> %s %v [%s] by %s\n", e.o.label, e.f, k.v.Name(), k.v, k.ctx, a.p.short(a.cur.fn))
			return
		}
	}
	for k, v := range a.cells {
		if v == s {
			fmt.Printf("TRACE %s%s -> cell %s%s by %s [%s]\n", e.o.label, e.f, k.o.label, k.f, a.p.short(a.cur.fn), a.cur.ctx)
			return
		}
	}
}
