package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

// checks maps property identifiers to their checks.
var checks = map[string]func(*Report){}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		p, err := Load(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, f := range os.Args[3:] {
			dump(p, f)
		}
		return
	}
	if len(os.Args) < 5 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: checker check REPO OUTDIR KNOWNFILE PROPERTY...")
		os.Exit(2)
	}
	os.Exit(run(os.Args[2], os.Args[3], os.Args[4], os.Args[5:]))
}

func run(repo, out, known string, props []string) int {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	p, err := Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "UNDECIDED:", err)
		return 2
	}
	if len(props) == 1 && props[0] == "all" {
		props = nil
		for id := range checks {
			props = append(props, id)
		}
		sort.Strings(props)
	}
	worst := 0
	for _, id := range props {
		f := checks[id]
		if f == nil {
			fmt.Fprintf(os.Stderr, "no check for %s\n", id)
			return 2
		}
		r := newReport(p, id)
		readKnown(known, id, r)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if g, ok := x.(giveUp); ok {
						r.Undecided("%s", g.why)
						return
					}
					r.Undecided("internal error: %v\n%s", x, debug.Stack())
				}
			}()
			f(r)
		}()
		c := r.finish(out, tier, seed)
		if c > worst && worst != 1 || c == 1 {
			worst = c
		}
	}
	return worst
}

// readKnown reads the known findings of a property: lines of the form
// "finding: property=C10 key=<key> <description>".
func readKnown(path, prop string, r *Report) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.Fields(line)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		r.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
}

func dump(p *Program, name string) {
	for _, fn := range p.ModFuncs() {
		if !strings.HasSuffix(fn.String(), name) {
			continue
		}
		cfg := Config{MayPanic: func(ev *Event) bool { return os.Getenv("PANIC") != "" && strings.Contains(ev.Name, "dogma.") }}
		if os.Getenv("CLIENT") != "" {
			cfg.OnCall = (&clientCfg{}).onCall
		}
		it := NewInterp(p, cfg)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if g, ok := r.(giveUp); ok {
						fmt.Println("GAVE UP:", g.why)
						return
					}
					panic(r)
				}
			}()
			outs := it.Run(fn, newState(), nil)
			fmt.Printf("== %s: %d paths, %d steps\n", fn, len(outs), it.steps)
			for i, o := range outs {
				fmt.Printf("-- path %d: %s %v %v\n", i, o.Kind, o.Vals, o.PVal)
				printLits(o.St.lits, "   ")
				printEvents(p, o.St.events(), "   ")
			}
		}()
	}
}

func litString(l map[*Term]bool) string {
	var ss []string
	for t, v := range l {
		if v {
			ss = append(ss, t.String())
		} else {
			ss = append(ss, "!("+t.String()+")")
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " && ")
}

func printLits(l map[*Term]bool, ind string) { fmt.Println(ind+"if", litString(l)) }

func printEvents(p *Program, evs []*Event, ind string) {
	for _, e := range evs {
		switch e.Kind {
		case "loop":
			fmt.Printf("%sloop %s %s\n", ind, p.Pos(e.Pos), e.Loop.ID)
			for m, v := range e.Loop.Init {
				fmt.Printf("%s  init %v = %v\n", ind, m, v)
			}
			for i, x := range e.Loop.Iters {
				fmt.Printf("%s  iter %d:\n", ind, i)
				if x.Use != nil {
					fmt.Printf("%s    use %s %s\n", ind, x.Use.Op, x.Use.Kind)
				}
				printLits(x.Lits, ind+"    ")
				printEvents(p, x.Events, ind+"    ")
				for m, v := range x.Next {
					fmt.Printf("%s    next %v = %v\n", ind, m, v)
				}
			}
		case "store":
			if root(e.Addr).Op == "obj" && os.Getenv("STORES") == "" {
				continue
			}
			fmt.Printf("%sstore %v = %v\n", ind, e.Addr, e.Val)
		default:
			fmt.Printf("%s%s %s recv=%v args=%v val=%v [%s] g=%d def=%v\n", ind, e.Kind, e.Name, e.Recv, e.Args, e.Val, p.Pos(e.Pos), e.G, e.Defer)
		}
	}
}
