package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// engineOption is an option for a new engine: a function that makes one, and
// what it is given.
type engineOption struct {
	fn  string // "" for an option of which nothing is known
	arg *Term
}

// newEngines analyses engine.New with a list of options.
func (r *Report) newEngines(salt string, opts ...engineOption) (*ssa.Function, []*Path) {
	fn := need(r.P.Func("engine", "New"), "engine.New")
	st := newState()
	var list []*Term
	for i, o := range opts {
		if o.fn == "" {
			// any option
			t := r.P.Type("engine", "Option")
			if t == nil {
				panic(giveUp{"cannot find engine.Option"})
			}
			list = append(list, mk("param", "option"+itoa(i), t))
			continue
		}
		mkOpt := need(r.P.Func("engine", o.fn), "engine."+o.fn)
		st.assume(mkEq(tNil, o.arg, nil), false)
		ps := only(r.Run(Config{Salt: salt + "option" + itoa(i)}, mkOpt, st, o.arg), "ret")
		if len(ps) != 1 || ps[0].Vals[0].Op != "iface" {
			panic(giveUp{"what engine." + o.fn + " returns is not known"})
		}
		v := ps[0].Vals[0]
		list = append(list, mkIface(ifaceType(v), stripIface(v)))
		st = ps[0].after()
	}
	last := fn.Params[len(fn.Params)-1].Type()
	app := mk("param", fn.Params[0].Name(), fn.Params[0].Type())
	var out []*Path
	for _, p := range only(r.Run(Config{Salt: salt}, fn, st, app, mk("seq", "", last, list...)), "ret") {
		if len(p.Vals) == 2 && (p.Vals[1].Op == "nil" || lits(p.Lits).isNil(p.Vals[1])) {
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		panic(giveUp{"engine.New does not return an engine"})
	}
	return fn, out
}

// checkResettersKept checks that a new engine has every resetter that it is
// given, once, in addition to whatever other options it is given.
func checkResettersKept(r *Report, m *engineModel, field int) {
	st := under(m.engine).(*types.Struct)
	ft := fieldVar(st, field).Type()
	fnt := under(ft).(*types.Slice).Elem()
	flag := engineOption{"EnableProjectionCompactionDuringHandling", mk("param", "flag", types.Typ[types.Bool])}
	a := engineOption{"WithResetter", mk("param", "resetterA", fnt)}
	b := engineOption{"WithResetter", mk("param", "resetterB", fnt)}
	c := engineOption{"WithResetter", mk("param", "resetterC", fnt)}
	for i, opts := range [][]engineOption{{a}, {a, b}, {flag, a}, {a, flag}, {a, b, c}, {{}, a}, {{}, a, b}} {
		fn, ps := r.newEngines("reset"+itoa(i), opts...)
		for _, p := range ps {
			got := p.St.load(mkFaddr(p.Vals[0], field, st, m.engine), ft)
			n := map[*Term]int{}
			rest := 0
			for _, x := range flatten(unclone(got), nil) {
				if x.t.Op == "seq" {
					for _, y := range x.t.Args {
						n[y]++
					}
					continue
				}
				n[x.t]++
				rest++
			}
			want := 0
			ok := true
			for _, o := range opts {
				if o.fn == "" {
					// what other options have registered
					for x := range n {
						if x.Op == "hav" {
							want++
						}
					}
					ok = ok && want == 1
				}
				if o.fn == "WithResetter" {
					want++
					ok = ok && n[o.arg] == 1
				}
			}
			ok = ok && len(n) == want
			r.Check("engine-reset", "engine.New: resetters", fn.Pos(), ok, "an engine made with %d resetters has %v", want, got)
		}
	}
}

// checkCompactionEnabled checks that projections are compacted alongside
// handling if the engine's option says so.
func (k *ctrl) checkCompactionEnabled(r *Report) {
	const name = "EnableProjectionCompactionDuringHandling"
	flag := engineOption{name, mk("param", "flag", types.Typ[types.Bool])}
	m := findEngine(r.P)
	field := k.stateField("concurrent")
	check := func(salt string, want *Term, opts ...engineOption) {
		fn, ps := r.newEngines(salt, opts...)
		for _, p := range ps {
			var v *Term
			p.each(func(ev *Event, _ scope) {
				if ev.Kind == "call" && ev.Method == "AcceptRichVisitor" && len(ev.Args) > 0 {
					v = ev.Args[len(ev.Args)-1]
				}
			})
			if v == nil || v.Op != "iface" {
				panic(giveUp{"engine.New: no visitor found"})
			}
			visit := need(r.P.MethodOf(deref(v.TAux), "VisitRichProjection"), "VisitRichProjection")
			for _, q := range only(r.Run(Config{Salt: salt + "visit"}, visit, p.after(), v.Args[0]), "ret") {
				st := under(m.engine).(*types.Struct)
				cm := q.St.mapState(q.St.load(mkFaddr(p.Vals[0], m.ctrls, st, m.engine), fieldVar(st, m.ctrls).Type()))
				var got *Term
				if cm.Op == "mapset" {
					got = q.St.load(k.fields[field].at(stripIface(cm.Args[2])), k.fields[field].Type())
				}
				ok := got == want || got != nil && agrees(q.Lits, got, want)
				r.Check("enabled", "engine.New: "+itoa(len(opts))+" options", fn.Pos(), ok, "whether a projection is compacted alongside handling is %v instead of %v", got, want)
			}
		}
	}
	fnt := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	other := engineOption{"WithResetter", mk("param", "resetter", fnt)}
	check("compact0", tFalse)
	check("compact1", flag.arg, flag)
	check("compact2", flag.arg, flag, other)
	check("compact3", flag.arg, other, flag)
}
