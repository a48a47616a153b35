package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C32"] = checkC32
}

// checkC32: messages are compared with the right notion of equality.
func checkC32(r *Report) {
	r.Rule("default", 1, "the default comparator compares by protocol-buffers equality if both messages are protocol-buffers messages, otherwise deeply")
	r.Rule("unconfigured", 2, "an expectation of a specific message without a comparator compares in that way")
	r.Rule("configured", 2, "an expectation of a specific message with a comparator uses only its result")
	r.Rule("option", 1, "the comparator given to a test is the one that its expectations get, and a test without one does not have another")
	r.Rule("lasts", 4, "nothing that is done with a test replaces its comparator")
	r.Rule("actions", 3, "actions do not replace the comparator")
	r.Rule("nested", 2, "expectations made of others give them the comparator that they are given")

	fn := need(r.P.Func("", "DefaultMessageComparator"), "DefaultMessageComparator")
	r.defaultComparator("default", fn)

	for _, m := range one2(r.predsWith("specific", false)) {
		for _, tr := range r.transitions(m, comparing) {
			r.comparison("unconfigured", tr)
		}
	}
	for _, m := range one2(r.predsWith("specific", true)) {
		for _, tr := range r.transitions(m, comparing) {
			r.latch("configured", tr)
		}
	}

	ot := r.P.Type("", "PredicateOptions")
	st0 := r.P.Type("", "PredicateScope")
	if ot == nil || st0 == nil {
		panic(giveUp{"cannot find the options of predicates"})
	}
	os, ok := under(ot).(*types.Struct)
	ci := -1
	if ok {
		ci = fieldNamed(os, "MessageComparator")
	}
	if ci < 0 {
		panic(giveUp{"PredicateOptions does not have the expected fields"})
	}
	ct := fieldVar(os, ci).Type()
	inScope := func(s *Term) *Term {
		o := structField(s, st0, "Options")
		if o == nil {
			panic(giveUp{"PredicateScope has no options"})
		}
		x := structField(o, ot, "MessageComparator")
		for x.Op == "hav" && x.Aux == "configured" {
			x = x.Args[0]
		}
		return x
	}

	// the comparator of a test
	expect := testMethod(r, "Expect")
	opt := need(r.P.Func("", "WithMessageComparator"), "WithMessageComparator")
	c := mk("param", "comparator", ct)
	scope0 := func(name string, st *State, test *Term, good func(x *Term) bool) {
		n := 0
		args := []*Term{test}
		for i := range expect.Params[1:] {
			args = append(args, nthParam(expect, i+1))
		}
		for _, p := range r.Run(Config{OnCall: configureHook(os, ot), Salt: "expect"}, expect, st, args...) {
			p.each(func(ev *Event, _ scope) {
				if isRootIface(ev, "Expectation", "Predicate") {
					n++
					x := inScope(ev.Args[0])
					r.Check("option", name, ev.Pos, good(x), "an expectation is given the comparator %s", describe(x))
				}
			})
		}
		if n == 0 {
			r.Check("option", name, expect.Pos(), false, "no expectation is used")
		}
	}
	for _, p := range only(r.Run(Config{}, opt, nil, c), "ret") {
		for _, q := range r.applyOption(p.after(), p.Vals[0], "applyTestOption") {
			if !r.Check("option", "WithMessageComparator", opt.Pos(), q.Kind == "ret", "it panics: %v", q.PVal) {
				continue
			}
			var cell *Term
			for a, v := range q.St.heap {
				if v == c && root(a).Op == "param" {
					cell = a
				}
			}
			if !r.Check("option", "WithMessageComparator", opt.Pos(), cell != nil, "the comparator is not kept by the test") {
				continue
			}
			test := root(cell)
			scope0("WithMessageComparator", q.after(), test, func(x *Term) bool { return x == c })
			for _, fn := range exportedFuncs(r, r.P.Type("", "Test")) {
				args := []*Term{test}
				for i := range fn.Params[1:] {
					args = append(args, nthParam(fn, i+1))
				}
				for _, z := range r.Run(Config{OnCall: configureHook(os, ot), Salt: "lasts"}, fn, q.after(), args...) {
					x := z.St.load(cell, ct)
					r.Check("lasts", fn.Name(), fn.Pos(), x == c, "the comparator of the test becomes %s", describe(x))
				}
			}
		}
	}
	for _, name := range []string{"Begin", "BeginContext"} {
		fn := r.P.Func("", name)
		if fn == nil {
			continue
		}
		for _, p := range only(r.Run(Config{OnCall: keepOptions}, fn, nil), "ret") {
			scope0(name, p.after(), p.Vals[0], func(x *Term) bool {
				if x.Op == "nil" {
					return true
				}
				if x.Fn == nil || len(x.Args) > 0 {
					return false
				}
				if x.Fn != fn {
					r.defaultComparator("option", x.Fn)
				}
				return true
			})
		}
	}

	// actions
	for _, fn := range actionMethods(r, "ConfigurePredicate") {
		var opts *Term
		for i, p := range fn.Params {
			if types.Identical(deref(p.Type()), ot) {
				opts = nthParam(fn, i)
			}
		}
		if opts == nil {
			panic(giveUp{"cannot find the options of " + fn.String()})
		}
		addr := mkFaddr(opts, ci, os, ot)
		for _, p := range r.Run(Config{}, fn, nil) {
			x := p.St.load(addr, ct)
			r.Check("actions", typeName(fn), fn.Pos(), x == mkLoad(addr, ct), "it makes the comparator %s", describe(x))
		}
	}

	// expectations made of others
	for _, fn := range rootMethods(r, "Expectation", "Predicate") {
		if fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		args := make([]*Term, len(fn.Params))
		for i := range args {
			args[i] = nthParam(fn, i)
		}
		s := args[len(args)-1]
		if !types.Identical(fn.Params[len(args)-1].Type(), st0) {
			panic(giveUp{"cannot find the scope of " + fn.String()})
		}
		for _, p := range r.Run(Config{}, fn, nil, args...) {
			p.each(func(ev *Event, _ scope) {
				if isRootIface(ev, "Expectation", "Predicate") {
					x := inScope(ev.Args[0])
					r.Check("nested", typeName(fn), ev.Pos, x == inScope(s), "an expectation is given the comparator %s", describe(x))
				}
			})
		}
	}
}

func one2[A, B any](a A, _ B) A { return a }

// defaultComparator checks the result of comparing two values.
func (r *Report) defaultComparator(rule string, fn *ssa.Function) {
	if len(fn.Params) != 2 {
		panic(giveUp{fn.String() + " does not have two parameters"})
	}
	a, b := nthParam(fn, 0), nthParam(fn, 1)
	for _, p := range r.Run(Config{}, fn, nil, a, b) {
		if !r.Check(rule, fn.Name(), fn.Pos(), p.Kind == "ret", "it panics: %v", p.PVal) {
			continue
		}
		st := newState()
		st.lits = cloneMap(p.Lits)
		yes, no := st.split(p.Vals[0])
		for i, ss := range [][]*State{yes, no} {
			for _, s := range ss {
				want, decided := r.equalByDefault(s.lits, a, b)
				r.Check(rule, fn.Name(), fn.Pos(), decided && want == (i == 0), "the result may be %v, which is not the result of comparing the messages", p.Vals[0])
			}
		}
	}
}

// equalByDefault decides whether two messages are equal unless a comparator
// is given.
func (r *Report) equalByDefault(ls lits, a, b *Term) (bool, bool) {
	var pm types.Type
	if q := r.P.Pkgs["google.golang.org/protobuf/reflect/protoreflect"]; q != nil {
		if o, ok := q.Types.Scope().Lookup("ProtoMessage").(*types.TypeName); ok {
			pm = o.Type()
		}
	}
	if pm == nil {
		panic(giveUp{"cannot find the type proto.Message"})
	}
	isA, isB := mkIsT(a, pm), mkIsT(b, pm)
	name := ""
	switch {
	case ls.holds(isA) && ls.holds(isB):
		name = "google.golang.org/protobuf/proto.Equal"
	case ls.refutes(isA) || ls.refutes(isB):
		name = "reflect.DeepEqual"
	default:
		return false, false
	}
	for x, v := range ls {
		if as := pureNamed(x, name); len(as) == 2 {
			x, y := stripIface(as[0]), stripIface(as[1])
			if x == a && y == b || x == b && y == a {
				return v, true
			}
		}
	}
	return false, false
}

// comparison checks a transition of the predicate for a specific message that
// has no comparator.
func (r *Report) comparison(rule string, tr *transition) {
	if !r.Check(rule, tr.name(), tr.pos(), tr.path.Kind == "ret", "%s: it panics: %v", tr.what(), tr.path.PVal) {
		return
	}
	r.change(tr, func(before, after, known bool, ls lits) {
		if !r.Check(rule, tr.name(), tr.pos(), known, "%s: the verdict is not known", tr.what()) || before || tr.env == nil {
			return
		}
		if same, decided := r.sameType(tr, ls); !same || !decided {
			return
		}
		want, decided := r.equalByDefault(ls, tr.msg, tr.m.given)
		r.Check(rule, tr.name(), tr.pos(), decided && want == after, "%s: the verdict is %v although it does not follow from comparing the messages", tr.what(), after)
	})
}
