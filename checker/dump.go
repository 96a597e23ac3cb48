package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dump prints a state, for debugging.
func (s *State) dump() string {
	var sb strings.Builder
	for _, f := range s.frames[len(s.frames)-1:] {
		var ks []ssa.Value
		for k := range f.env {
			ks = append(ks, k)
		}
		s.a.sortVals(ks)
		for _, k := range ks {
			n := "res"
			if k != resVal {
				n = k.Name()
			}
			fmt.Fprintf(&sb, "  %s=%s\n", n, f.env[k])
		}
	}
	var ids []VID
	for id := range s.facts {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		fmt.Fprintf(&sb, "  r%d: %s\n", id, s.fact(id))
	}
	for _, k := range sortedCells(s.cells) {
		fmt.Fprintf(&sb, "  cell r%d%s=%s\n", k.base, k.path, s.cells[k].v)
	}
	for p, k := range s.z.d {
		fmt.Fprintf(&sb, "  v%d-v%d<=%d\n", p.x, p.y, k)
	}
	for v, h := range s.z.ub {
		fmt.Fprintf(&sb, "  v%d<=%d\n", v, h)
	}
	for v, h := range s.z.lb {
		fmt.Fprintf(&sb, "  v%d>=%d\n", v, h)
	}
	for _, c := range s.pend {
		fmt.Fprintf(&sb, "  pend %s\n", c)
	}
	if s.gh != nil {
		fmt.Fprintf(&sb, "  ghost %v %v %v\n", s.gh.tags, s.gh.ints, s.gh.refs)
	}
	return sb.String()
}

func (f *Fact) String() string {
	var r []string
	if f.typ != nil {
		r = append(r, f.typ.String())
	}
	if f.nl == 1 {
		r = append(r, "nil")
	} else if f.nl == 2 {
		r = append(r, "nonnil")
	}
	if f.str != nil {
		r = append(r, fmt.Sprintf("%q", *f.str))
	}
	if len(f.notStr) > 0 {
		r = append(r, fmt.Sprintf("not %q", f.notStr))
	}
	if f.len != nil {
		r = append(r, "len="+f.len.String())
	}
	if f.enn {
		r = append(r, "enn")
	}
	if f.dyn != nil {
		r = append(r, "dyn="+f.dyn.String())
	}
	if f.pay != nil {
		r = append(r, "pay="+f.pay.String())
	}
	for _, t := range f.notDyn {
		r = append(r, "notdyn="+t.String())
	}
	for _, m := range f.memo {
		r = append(r, fmt.Sprintf("memo(%s %v)=%s", m.n, m.t, m.v))
	}
	if f.bs != nil && *f.bs != fullSet {
		r = append(r, fmt.Sprintf("bytes(%d..%d)", f.bs.min(), f.bs.max()))
	}
	if f.fresh {
		r = append(r, "fresh")
	}
	if f.full {
		r = append(r, "full")
	}
	if f.b != 0 {
		r = append(r, fmt.Sprint("b", f.b))
	}
	if f.fn != nil {
		r = append(r, "fn="+f.fn.Name())
	}
	if f.org != "" {
		r = append(r, "org="+f.org)
	}
	if f.term != nil {
		r = append(r, fmt.Sprint("term ", f.term.op, f.term.args))
	}
	return strings.Join(r, " ")
}
