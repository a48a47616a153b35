package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C38"] = checkC38
}

// optionMakers are the exported functions of the engine's package that make
// options.
func optionMakers(r *Report, kinds ...string) []*ssa.Function {
	q := r.P.pkg("engine")
	if q == nil {
		panic(giveUp{"cannot find the package engine"})
	}
	var fns []*ssa.Function
	sc := q.Pkg.Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		res := f.Type().(*types.Signature).Results()
		if res.Len() != 1 {
			continue
		}
		for _, k := range kinds {
			x := r.P.Type("engine", k)
			if x == nil {
				panic(giveUp{"cannot find the type engine." + k})
			}
			if types.Identical(res.At(0).Type(), x) {
				fns = append(fns, need(r.P.Func("engine", name), name))
			}
		}
	}
	return fns
}

func checkC38(r *Report) {
	r.Rule("refuses", 2, "an option for a nil observer or function is refused when it is made")
	r.Rule("name", 1, "an option for a handler is refused when it is made exactly if the name is not valid")
	r.Rule("accepts", 9, "an option for anything usable is made without a panic, and applied without a panic")
	r.Rule("exists", 1, "applying an option for a handler panics exactly if the engine has no handler of that name")
	r.Rule("built", 1, "an engine is returned unless visiting the application's handlers fails, in which case its error is")
	r.Rule("must", 1, "the variant of the constructor that panics does so exactly when no engine can be built, with the error")

	m := findEngine(r.P)
	for _, fn := range optionMakers(r, "OperationOption", "Option") {
		name := fn.Name()
		var nils []*Term
		var named *Term
		for i, p := range fn.Params {
			x := nthParam(fn, i)
			switch t := p.Type().Underlying().(type) {
			case *types.Interface, *types.Signature:
				nils = append(nils, mkEq(tNil, x, nil))
			case *types.Basic:
				if t.Info()&types.IsString != 0 {
					named = x
				}
			}
		}
		for _, a := range nils {
			st := newState()
			st.assume(a, true)
			for _, p := range r.Run(Config{Faults: true}, fn, st) {
				r.Check("refuses", name, fn.Pos(), p.Kind == "panic", "it may return though it is given nil")
			}
		}
		st := newState()
		for _, a := range nils {
			st.assume(a, false)
		}
		returns := false
		for _, p := range r.Run(Config{Faults: true}, fn, st) {
			if named != nil {
				valid, known := false, false
				for a, v := range p.Lits {
					if a.Op != "eq" {
						continue
					}
					for _, x := range a.Args {
						if as := pureCall(x, "ValidateIdentityName"); len(as) == 1 && as[0] == named {
							valid, known = v, true
						}
					}
				}
				r.Check("name", name, fn.Pos(), known && valid == (p.Kind == "ret"), "it returns or panics without regard to whether the name is valid")
				if p.Kind != "ret" {
					continue
				}
			} else if !r.Check("accepts", name, fn.Pos(), p.Kind == "ret", "it panics with %s though its arguments are usable", describe(p.PVal)) {
				continue
			}
			returns = true
			method := "applyOperationOption"
			if types.Identical(fn.Signature.Results().At(0).Type(), r.P.Type("engine", "Option")) {
				method = "applyEngineOption"
			}
			qs := r.applyOption(p.St, p.Vals[0], method)
			r.Check("accepts", name, fn.Pos(), len(qs) > 0, "the option is not understood: %v", p.Vals[0])
			for _, q := range qs {
				if named == nil {
					r.Check("accepts", name, fn.Pos(), q.Kind == "ret", "applying the option panics with %s", describe(q.PVal))
					continue
				}
				has, known := false, false
				for a, v := range q.Lits {
					if a.Op == "has" && m.isCtrlTable(a.Args[0]) && a.Args[1] == named {
						has, known = v, true
					}
					if a.Op == "eq" {
						for _, x := range a.Args {
							if x.Op == "lookup" && m.isCtrlTable(x.Args[0]) && x.Args[1] == named && !known {
								has, known = !v, true
							}
						}
					}
				}
				r.Check("exists", name, fn.Pos(), known && has == (q.Kind == "ret"), "applying the option returns or panics without regard to whether there is such a handler")
			}
		}
		r.Check("accepts", name, fn.Pos(), returns, "it never returns")
	}

	newFn := need(r.P.Func("engine", "New"), "engine.New")
	for _, p := range r.Run(Config{}, newFn, nil) {
		visit := visits(p)
		if !r.Check("built", "New", newFn.Pos(), p.Kind == "ret" && len(p.Vals) == 2 && len(visit) == 1, "it does not visit the handlers of the application once and return") {
			continue
		}
		ls := lits(p.Lits)
		e := callErr(visit[0])
		switch {
		case ls.notNil(e):
			r.Check("built", "New", newFn.Pos(), p.Vals[1] == e && ls.isNil(p.Vals[0]), "when visiting fails it returns %v", p.Vals)
		default:
			r.Check("built", "New", newFn.Pos(), ls.isNil(e) && ls.isNil(p.Vals[1]) && !ls.isNil(p.Vals[0]), "it returns %v although visiting may have failed", p.Vals)
		}
	}
	must := need(r.P.Func("engine", "MustNew"), "engine.MustNew")
	for _, p := range r.Run(Config{}, must, nil) {
		visit := visits(p)
		if !r.Check("must", "MustNew", must.Pos(), len(visit) == 1, "it does not visit the handlers of the application once") {
			continue
		}
		ls := lits(p.Lits)
		e := callErr(visit[0])
		if p.Kind == "ret" {
			r.Check("must", "MustNew", must.Pos(), ls.isNil(e) && !ls.isNil(p.Vals[0]), "it returns %v although visiting may have failed", p.Vals)
		} else {
			r.Check("must", "MustNew", must.Pos(), ls.notNil(e) && p.PVal != nil && stripIface(p.PVal) == stripIface(e), "it panics with %s", describe(p.PVal))
		}
	}
}

// isCtrlTable tells whether a term is the table of an engine's handlers.
func (m *engineModel) isCtrlTable(t *Term) bool {
	if t.Op == "mapinit" {
		t = t.Args[0]
	}
	if t.Op != "ld" {
		return false
	}
	for a := t.Args[0]; a.Op == "faddr"; a = a.Args[0] {
		if a.TAux != nil && types.Identical(deref(a.TAux), m.engine) {
			return t.Args[0] == mkFaddr(a.Args[0], m.ctrls, under(m.engine).(*types.Struct), m.engine)
		}
	}
	return false
}

// visits are the calls that visit the handlers of an application.
func visits(p *Path) []*Event {
	var evs []*Event
	p.each(func(ev *Event, sc scope) {
		if ev.Kind == "call" && ev.Method == "AcceptRichVisitor" {
			evs = append(evs, ev)
		}
	})
	return evs
}
