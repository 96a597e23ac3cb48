package main

// Command line: ogdlcheck -prop ID -tier quick|thorough -repo DIR -verif DIR

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one obligation of a property: a rule applied to a construct.
type Ob struct {
	Rule string
	Key  string // the construct, without line numbers
	Pos  string
	Msg  string
	OK   bool
}

type Report struct {
	p       *Prog
	id      string
	tier    string
	obs     []Ob
	rules   map[string]string // what each rule says
	fnsSeen map[string]bool   // functions analysed
	notes   []string
	assume  []string
	extra   map[string]interface{}
	dbg     bool
}

func (r *Report) rule(name, text string) { r.rules[name] = text }

// ob records an obligation.
func (r *Report) ob(ok bool, rule, key, pos, msg string) {
	r.obs = append(r.obs, Ob{rule, key, pos, msg, ok})
}

func (r *Report) fail(rule, key, pos, msg string) { r.ob(false, rule, key, pos, msg) }

// floor: a rule must have been applied at least n times.
func (r *Report) floor(rule string, n int) {
	k := 0
	for _, o := range r.obs {
		if o.Rule == rule {
			k++
		}
	}
	if k < n {
		r.fail("instances", rule, "", fmt.Sprintf("rule %q was applied to %d constructs, at least %d are expected: the analysis no longer sees what it has to decide", rule, k, n))
	}
}

func (r *Report) saw(f *ssa.Function) {
	if f != nil {
		r.fnsSeen[r.p.short(f)] = true
	}
}

// fn finds a function by name, or records that the anchor is gone.
func (r *Report) fn(name string) *ssa.Function {
	for _, f := range r.p.fns {
		if r.p.name(f) == name {
			r.saw(f)
			return f
		}
	}
	r.fail("anchor", name, "", "function "+name+" not found: the property cannot be decided")
	return nil
}

func (p *Prog) lookup(name string) *ssa.Function {
	for _, f := range p.fns {
		if p.name(f) == name {
			return f
		}
	}
	return nil
}

type check struct {
	id  string
	run func(r *Report)
}

var checks = map[string]func(r *Report){}

func main() {
	repo := flag.String("repo", "/repo", "the repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	dbg := flag.Bool("dbg", false, "print details")
	dev := flag.Bool("dev", false, "run the panic analysis and print everything")
	flag.Parse()
	if *dev {
		devMain(*repo, *dbg)
		return
	}
	t0 := time.Now()
	r := &Report{id: *prop, tier: *tier, rules: map[string]string{}, fnsSeen: map[string]bool{}, extra: map[string]interface{}{}, dbg: *dbg}
	run := checks[*prop]
	if run == nil {
		fmt.Printf("no check for %s\n", *prop)
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.fail("analysis", "checker", "", fmt.Sprintf("the analysis failed: %v", e))
				if *dbg {
					debug.PrintStack()
				}
			}
		}()
		p, err := load(*repo)
		if err != nil {
			r.fail("analysis", "load", "", "the program cannot be loaded: "+err.Error())
			return
		}
		r.p = p
		run(r)
	}()
	os.Exit(r.finish(*verif, t0))
}

// known findings: lines "finding: property=ID rule=RULE key=KEY ..."
func knownFindings(verif, id string) map[string]bool {
	m := map[string]bool{}
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		i, k := strings.Index(l, " rule="), strings.Index(l, " key=")
		if i < 0 || k < i {
			continue
		}
		m[l[i+6:k]+"|"+l[k+5:]] = true
	}
	return m
}

func (r *Report) finish(verif string, t0 time.Time) int {
	known := knownFindings(verif, r.id)
	if len(r.obs) == 0 {
		r.fail("instances", "none", "", "nothing was analysed")
	}
	var bad, kn []Ob
	seen := map[string]bool{}
	perRule := map[string]int{}
	ok := 0
	for _, o := range r.obs {
		perRule[o.Rule]++
		if o.OK {
			ok++
			continue
		}
		k := o.Rule + "|" + o.Key
		if known[k] {
			if !seen[k] {
				kn = append(kn, o)
			}
			seen[k] = true
			continue
		}
		bad = append(bad, o)
	}
	for _, o := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s) %s\n", r.id, o.Rule, o.Key, o.Pos, o.Msg)
	}
	ev := filepath.Join(verif, "evidence")
	os.MkdirAll(ev, 0755)
	replay := filepath.Join(ev, r.id+".violations.txt")
	os.Remove(replay)
	if len(bad) > 0 {
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "%s: property %s, rule %s\n  construct: %s\n  %s\n", o.Pos, r.id, o.Rule, o.Key, o.Msg)
			if t := r.rules[o.Rule]; t != "" {
				fmt.Fprintf(&sb, "  rule: %s\n", t)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, replay)
	}
	var fns []string
	for f := range r.fnsSeen {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var rules []string
	for k := range perRule {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	expl := fmt.Sprintf("Static analysis of the SSA form of the current source of the repository: %d obligations of %d rules over %d functions; %d hold, %d are known findings, %d are violated.",
		len(r.obs), len(rules), len(fns), ok, len(kn), len(bad))
	var samples []interface{}
	cnt := map[string]int{}
	for _, o := range r.obs {
		if cnt[o.Rule] < 3 && len(samples) < 40 {
			cnt[o.Rule]++
			samples = append(samples, map[string]interface{}{"rule": o.Rule, "construct": o.Key, "at": o.Pos, "holds": o.OK})
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": expl, "obligations": len(r.obs), "discharged": ok, "functions": fns,
		"functions_analysed": len(fns), "per_rule": perRule, "rules": r.rules, "samples": samples,
		"checker_cmd": "bash run.sh " + r.id + " " + r.tier,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if r.assume == nil {
		r.assume = []string{}
	}
	out := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(ev, r.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %s (%.1fs)\n", r.id, expl, time.Since(t0).Seconds())
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func devMain(repo string, dbg bool) {
	t0 := time.Now()
	p, err := load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	inv := newInvs(p)
	roots := append(p.apiRoots(), p.valueRoots()...)
	a, rounds := runAll(p, &Mode{name: "panic"}, roots, inv, dbg)
	fmt.Println("rounds", rounds, "steps", a.steps, time.Since(t0), "over", a.over, a.overWhy)
	n, bad := 0, 0
	for _, x := range a.obligations() {
		n++
		if len(x.bad) > 0 {
			bad++
			for _, o := range x.bad {
				fmt.Printf("FAIL %s %s %s: %s [%s]\n", o.pos, o.rule, o.what, o.why, o.trace)
				break
			}
		}
	}
	fmt.Println(n, "obligations", bad, "failed")
	for _, c := range inv.cands {
		if !c.dead {
			fmt.Println("inv", c)
		} else if dbg {
			fmt.Println("dead", c, c.why)
		}
	}
}
