package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = checkC31
}

// A condition is one under which a constructor must or may refuse its
// arguments.
type condition struct {
	what  string
	atom  *Term
	must  bool
	given *Term
}

// checkC31: actions and expectations refuse nil and invalid input when
// constructed.
func checkC31(r *Report) {
	r.Rule("refuses", 22, "a constructor panics whenever an argument is nil, negative, empty or otherwise unusable")
	r.Rule("validates", 4, "a constructor that keeps a message panics whenever the message's own validation gives an error")
	r.Rule("accepts", 20, "a constructor does not panic if its arguments are usable")
	r.Rule("keeps", 20, "what a constructor returns holds the argument as it was given")

	n := 0
	for _, fn := range constructors(r) {
		n++
		name := fn.Name()
		var conds []condition
		var given, args []*Term
		for _, p := range fn.Params {
			x := mk("param", name+"."+p.Name(), p.Type())
			switch t := p.Type().Underlying().(type) {
			case *types.Slice:
				if isCallOption(r, t.Elem()) {
					args = append(args, mk("seq", "", p.Type()))
					continue
				}
				conds = append(conds, condition{"an empty list", mkEq0(linOf(mkLen(x))), true, x})
			case *types.Signature:
				conds = append(conds, condition{"a nil function", mkEq(tNil, x, nil), true, x})
			case *types.Interface:
				what := "a nil message"
				must := true
				switch {
				case types.Identical(p.Type(), r.P.Type("", "TimeAdjustment")):
					what = "a nil adjustment"
				case methodOf(p.Type(), "Validate") == nil:
					what, must = "nil", false
				}
				conds = append(conds, condition{what, mkEq(tNil, x, nil), must, x})
			case *types.Basic:
				switch {
				case t.Info()&types.IsString != 0:
					conds = append(conds, condition{"an empty description", mkEq(x, mkStr(""), nil), true, x})
				case typeKey(p.Type()) == "time.Duration":
					conds = append(conds, condition{"a negative duration", mkGt0(linOf(x).scale(-1)), true, x})
				case t.Info()&types.IsInteger != 0:
					conds = append(conds, condition{"a count less than one", mkGt0(linOf(mkInt(1)).plus(linOf(x), -1)), true, x})
				}
			}
			given = append(given, x)
			args = append(args, x)
		}
		errs := map[*Term]*Term{}
		for _, x := range given {
			if methodOf(x.Typ, "Validate") != nil {
				errs[x] = mk("param", "invalid."+x.Aux, types.Universe.Lookup("error").Type())
			}
		}
		run := func(f func(st *State)) []*Path {
			st := newState()
			f(st)
			return r.Run(Config{Faults: true, OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
				if ev.Method == "Validate" && ev.Recv != nil {
					if e := errs[stripIface(ev.Recv)]; e != nil && len(ev.Args) == 1 {
						if ev.Args[0].Op == "nil" {
							r.Check("validates", name, ev.Pos, false, "the message is validated without a scope")
						}
						return []*CallOut{{St: st, Vals: []*Term{e}}}
					}
				}
				return nil
			}}, fn, st, args...)
		}

		// usable arguments
		ps := run(func(st *State) {
			for _, c := range conds {
				st.assume(c.atom, false)
			}
			for _, e := range errs {
				st.assume(mkEq(tNil, e, nil), true)
			}
		})
		kept := map[*Term]bool{}
		returns := false
		for _, p := range ps {
			ok := p.Kind == "ret"
			returns = returns || ok
			if !r.Check("accepts", name, fn.Pos(), ok, "it panics with %s though its arguments are usable", describe(p.PVal)) {
				continue
			}
			vals := reachable(p.St, p.Vals[0])
			for _, x := range given {
				how := "nothing"
				for _, v := range vals {
					switch {
					case holdsAsGiven(v, x):
						how = "itself"
						kept[x] = true
					case how == "nothing" && errs[x] != nil && v == r.typeOf(x):
						how = "its type"
					}
				}
				r.Check("keeps", name+": "+x.Typ.String(), fn.Pos(), how != "nothing", "what it returns does not hold the argument %s as it was given", x.Aux)
			}
		}
		if !returns {
			r.Check("accepts", name, fn.Pos(), false, "it never returns")
		}

		// unusable arguments
		for _, c := range conds {
			if !c.must {
				continue
			}
			for _, p := range run(func(st *State) { st.assume(c.atom, true) }) {
				r.Check("refuses", name+": "+c.what, fn.Pos(), p.Kind == "panic", "it may return though it is given %s", c.what)
			}
		}
		for x, e := range errs {
			if !kept[x] {
				continue // only the type of the message is used
			}
			for _, p := range run(func(st *State) {
				st.assume(mkEq(tNil, x, nil), false)
				st.assume(mkEq(tNil, e, nil), false)
			}) {
				r.Check("validates", name, fn.Pos(), p.Kind == "panic", "it may return though the message is invalid")
			}
		}
	}
	if n == 0 {
		panic(giveUp{"cannot find any constructor of actions or expectations"})
	}
}

// constructors are the exported functions that make actions, expectations,
// adjustments of the clock and options of calls.
func constructors(r *Report) []*ssa.Function {
	q := r.P.pkg("")
	if q == nil {
		panic(giveUp{"cannot find the root package"})
	}
	var fns []*ssa.Function
	sc := q.Pkg.Scope()
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		res := f.Type().(*types.Signature).Results()
		if res.Len() != 1 {
			continue
		}
		t := res.At(0).Type()
		made := isCallOption(r, t)
		for _, k := range []string{"Action", "Expectation", "TimeAdjustment"} {
			x := r.P.Type("", k)
			if x == nil {
				panic(giveUp{"cannot find the type " + k})
			}
			made = made || types.Identical(t, x)
		}
		if made {
			fns = append(fns, need(r.P.Func("", name), name))
		}
	}
	return fns
}

// isCallOption tells whether values of a type are options of calls.
func isCallOption(r *Report, t types.Type) bool {
	o := r.P.Type("", "CallOption")
	if o == nil {
		return false
	}
	i, ok := o.Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

// methodOf finds a method of an interface type by name.
func methodOf(t types.Type, name string) *types.Func {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == name {
			return i.Method(k)
		}
	}
	return nil
}

// reachable are the values that a value holds, directly or through objects
// and variables captured by functions.
func reachable(st *State, v *Term) []*Term {
	seen := map[*Term]bool{}
	var vs []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		vs = append(vs, t)
		switch t.Op {
		case "iface", "conv", "struct", "closure", "seq", "append", "clone":
			for _, a := range t.Args {
				visit(a)
			}
		case "obj":
			for c, x := range st.heap {
				if root(c) == t {
					visit(x)
				}
			}
		}
	}
	visit(v)
	return vs
}

// holdsAsGiven tells whether a value is the one given, part of a text, or an
// element of it.
func holdsAsGiven(v, x *Term) bool {
	if v == x {
		return true
	}
	switch v.Op {
	case "iface", "conv", "cat", "clone":
		for _, a := range v.Args {
			if holdsAsGiven(a, x) {
				return true
			}
		}
	case "index":
		// the only element of a list
		return v.Args[0] == x
	case "pure":
		if v.Aux == "fmt.Sprintf" {
			for _, t := range tokens(v) {
				if t.t == x {
					return true
				}
			}
		}
	}
	return false
}
