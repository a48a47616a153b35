package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects what one property's check did.
type Report struct {
	P     *Program
	Prop  string
	start time.Time

	rules  []*rule
	byName map[string]*rule
	known  map[string]string // key -> description, from known-findings.txt
	hits   map[string]string // known findings that were found
	funcs  map[*ssa.Function]bool
	sites  map[string]bool
	paths  int
	events int
	errs   []string
}

type rule struct {
	name string
	desc string
	min  int
	inst map[string]*obligation
}

type obligation struct {
	construct string
	pos       string
	ok        bool
	n         int
	detail    []string
}

func newReport(p *Program, prop string) *Report {
	return &Report{P: p, Prop: prop, start: time.Now(), byName: map[string]*rule{}, funcs: map[*ssa.Function]bool{}, sites: map[string]bool{}, known: map[string]string{}, hits: map[string]string{}}
}

// Rule declares a rule; min is the number of constructs it is known to apply
// to, below which the check is not meaningful.
func (r *Report) Rule(name string, min int, desc string) *rule {
	if x := r.byName[name]; x != nil {
		return x
	}
	x := &rule{name: name, desc: desc, min: min, inst: map[string]*obligation{}}
	r.rules = append(r.rules, x)
	r.byName[name] = x
	return x
}

func (x *rule) at(construct string) *obligation {
	o := x.inst[construct]
	if o == nil {
		o = &obligation{construct: construct, ok: true}
		x.inst[construct] = o
	}
	return o
}

// Check records one instance of a rule at a construct.
func (r *Report) Check(rule, construct string, pos token.Pos, ok bool, format string, args ...any) bool {
	x := r.byName[rule]
	if x == nil {
		panic("undeclared rule " + rule)
	}
	o := x.at(construct)
	o.n++
	if !ok {
		if o.ok {
			o.pos = r.P.Pos(pos)
		}
		o.ok = false
		d := fmt.Sprintf(format, args...)
		if pos.IsValid() {
			d = r.P.Pos(pos) + ": " + d
		}
		if len(o.detail) < 3 {
			dup := false
			for _, e := range o.detail {
				dup = dup || e == d
			}
			if !dup {
				o.detail = append(o.detail, d)
			}
		}
	} else if o.pos == "" && pos.IsValid() {
		o.pos = r.P.Pos(pos)
	}
	return ok
}

// Undecided records that the check could not decide something.
func (r *Report) Undecided(format string, args ...any) {
	r.errs = append(r.errs, fmt.Sprintf(format, args...))
}

// Known suppresses a violation that is listed as a known finding.
func (r *Report) Known(key, what string) bool {
	if _, ok := r.known[key]; ok {
		r.hits[key] = what
		return true
	}
	return false
}

// Analysed adds an interpreter's statistics.
func (r *Report) Analysed(it *Interp) {
	for f := range it.Funcs {
		r.funcs[f] = true
	}
	for s := range it.Sites {
		r.sites[s] = true
	}
	r.paths += it.Paths
	it.Paths = 0
}

// Run interprets fn and counts it.
func (r *Report) Run(cfg Config, fn *ssa.Function, st *State, args ...*Term) []*Path {
	it := NewInterp(r.P, cfg)
	if st == nil {
		st = newState()
	}
	outs := it.Run(fn, st, args)
	r.Analysed(it)
	ps := pathsOf(outs)
	for _, p := range ps {
		p.each(func(*Event, scope) { r.events++ })
	}
	return ps
}

// need stops the check if an anchor cannot be found.
func need[T any](v *T, what string) *T {
	if v == nil {
		panic(giveUp{"cannot find " + what})
	}
	return v
}

func (r *Report) finish(outDir, tier string, seed int) int {
	type ruleOut struct {
		Rule        string `json:"rule"`
		Description string `json:"description"`
		Obligations int    `json:"obligations"`
		Discharged  int    `json:"discharged"`
		Instances   int    `json:"instances_checked"`
	}
	var ros []ruleOut
	var viols []string
	total, done, inst := 0, 0, 0
	var constructs []string
	for _, x := range r.rules {
		ro := ruleOut{Rule: x.name, Description: x.desc}
		var keys []string
		for k := range x.inst {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o := x.inst[k]
			ro.Obligations++
			ro.Instances += o.n
			if o.ok {
				ro.Discharged++
				constructs = append(constructs, fmt.Sprintf("%s: %s (%d)", x.name, k, o.n))
			} else {
				viols = append(viols, fmt.Sprintf("%s: %s\n    at %s\n    rule: %s\n    %s", x.name, k, o.pos, x.desc, strings.Join(o.detail, "\n    ")))
			}
		}
		if ro.Obligations < x.min {
			r.Undecided("rule %s applies to %d constructs, but at least %d are known", x.name, ro.Obligations, x.min)
		}
		total += ro.Obligations
		done += ro.Discharged
		inst += ro.Instances
		ros = append(ros, ro)
	}
	if total == 0 && len(r.errs) == 0 {
		r.Undecided("nothing was analysed")
	}
	var fns []string
	for f := range r.funcs {
		if inModule(f) && f.Synthetic == "" {
			fns = append(fns, strings.ReplaceAll(f.String(), modulePath+"/", ""))
		}
	}
	sort.Strings(fns)
	var hits []string
	for k := range r.hits {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	ev := map[string]any{
		"property": r.Prop,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":          "static analysis of the source in the repository's working tree: abstract interpretation of the type-checked SSA form, with every path of the listed functions checked against the listed rules; nothing is executed",
			"rules":                ros,
			"obligations":          total,
			"discharged":           done,
			"rule_instances":       inst,
			"functions_analysed":   len(fns),
			"functions":            fns,
			"paths":                r.paths,
			"events_on_paths":      r.events,
			"call_sites":           len(r.sites),
			"constructs_checked":   constructs,
			"known_findings_hit":   hits,
			"packages_typechecked": len(r.P.Mod),
		},
		"assumptions": assumptions,
		"violations":  len(viols),
		"wall_s":      time.Since(r.start).Seconds(),
	}
	if len(r.errs) > 0 {
		ev["coverage"].(map[string]any)["undecided"] = r.errs
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(outDir, 0o755)
	if err := os.WriteFile(filepath.Join(outDir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, r.hits[k])
	}
	vf := filepath.Join(outDir, r.Prop+".violations.txt")
	os.Remove(vf)
	if len(viols) > 0 {
		txt := strings.Join(viols, "\n\n") + "\n"
		os.WriteFile(vf, []byte(txt), 0o644)
		fmt.Print(txt)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, filepath.Join("evidence", filepath.Base(vf)))
		return 1
	}
	if len(r.errs) > 0 {
		for _, e := range r.errs {
			fmt.Printf("UNDECIDED property=%s %s\n", r.Prop, e)
		}
		return 2
	}
	fmt.Printf("ok property=%s rules=%d obligations=%d instances=%d functions=%d paths=%d\n", r.Prop, len(r.rules), total, inst, len(fns), r.paths)
	return 0
}

var assumptions = []string{
	"the Go type checker and the SSA construction of golang.org/x/tools represent the source faithfully",
	"Dogma, configkit, enginekit and standard-library functions behave as documented; accessors of configuration values are deterministic",
	"language run-time errors (nil dereference, failed type assertion, out-of-range index) and arithmetic overflow are not considered",
}
