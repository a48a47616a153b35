package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkC19
	checks["C20"] = checkC20
	checks["C29"] = checkC29
}

// stepHook gives a predicate a fixed verdict once it has been finalised, and
// remembers the state in which the action is performed.
func stepHook(cap capture) func(*Interp, *Frame, *State, *Event) []*CallOut {
	return func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if isRootIface(ev, "Action", "Do") {
			cap[ev] = st.clone()
		}
		if isRootIface(ev, "Predicate", "Ok") {
			for _, e := range st.events() {
				if isRootIface(e, "Predicate", "Done") && e.Recv == ev.Recv {
					ev.Res = []*Term{okAtom(ev.Recv)}
					st.emit(ev)
					return []*CallOut{{St: st, Vals: ev.Res}}
				}
			}
		}
		return nil
	}
}

// isFailure recognises the calls that mark a test as failed.
func isFailure(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	switch ev.Method {
	case "Fail", "FailNow", "Fatal", "Fatalf", "Error", "Errorf":
		return isRootIface(ev, "TestingT", ev.Method)
	}
	return false
}

func isReportLog(ev *Event) bool {
	return isRootIface(ev, "TestingT", "Log") || isRootIface(ev, "TestingT", "Logf")
}

func testMethod(r *Report, name string) *ssa.Function {
	tt := r.P.Type("", "Test")
	if tt == nil {
		panic(giveUp{"cannot find the type Test"})
	}
	return need(r.P.MethodOf(tt, name), "Test."+name)
}

func paramOfType(fn *ssa.Function, key string) *Term {
	for i, p := range fn.Params {
		if typeKey(p.Type()) == key {
			return nthParam(fn, i)
		}
	}
	panic(giveUp{"cannot find the parameter of type " + key + " of " + fn.String()})
}

func checkC19(r *Report) {
	r.Rule("expect-fails", 1, "an expectation step marks the test as failed exactly when the predicate cannot be built, the action returns an error or the predicate is not met")
	r.Rule("expect-acts", 1, "it performs the action once, but not if the predicate cannot be built")
	r.Rule("expect-verdict", 1, "the report is made for, and shows, the verdict used to fail the test")
	r.Rule("prepare-acts", 1, "a preparation step performs every action once, in order")
	r.Rule("prepare-fails", 1, "it marks the test as failed exactly when an action returns an error")

	fn := testMethod(r, "Expect")
	act, exp := paramOfType(fn, modulePath+".Action"), paramOfType(fn, modulePath+".Expectation")
	ct := r.P.Type("", "ReportGenerationContext")
	for _, p := range r.Run(Config{OnCall: stepHook(capture{})}, fn, nil) {
		ls := lits(p.Lits)
		var made, done, rep, fail *Event
		var made1, acts, fails, reps int
		shown, logged := false, false
		p.each(func(ev *Event, sc scope) {
			switch {
			case isRootIface(ev, "Expectation", "Predicate") && ev.Recv == exp:
				made1++
				made = ev
			case isRootIface(ev, "Action", "Do"):
				acts++
				if ev.Recv != act || len(sc.loops) > 0 || ev.G != 0 {
					acts += 2
				}
				done = ev
				r.Check("expect-acts", "Test.Expect", ev.Pos, made != nil && ls.isNil(made.Res[1]), "the action is performed although the predicate may not have been built")
			case isFailure(ev):
				fails++
				fail = ev
				if rep != nil && !shown {
					r.Check("expect-verdict", "Test.Expect", ev.Pos, false, "the test fails before the report is shown")
				}
			case isRootIface(ev, "Predicate", "Report"):
				reps++
				rep = ev
				tree := structField(ev.Args[0], ct, "TreeOk")
				r.Check("expect-verdict", "Test.Expect", ev.Pos, agrees(ls, tree, okAtom(ev.Recv)), "the report is made for the verdict %v", tree)
				inv := structField(ev.Args[0], ct, "IsInverted")
				r.Check("expect-verdict", "Test.Expect", ev.Pos, ls.refutes(inv), "the report is made with the inversion %v", inv)
			case rep != nil && reportField(r, ev) != "" && ev.Addr.Args[0] == rep.Res[0]:
				r.Check("expect-verdict", "Test.Expect", ev.Pos, false, "the %s of the report is replaced by %v", reportField(r, ev), ev.Val)
			case rep != nil && ev.Kind == "call" && mentions(ev, rep.Res[0]):
				logged = true
			}
			if isReportLog(ev) && logged {
				shown = true
			}
		})
		if p.Kind != "ret" {
			ok := ls.isNil(act) || ls.isNil(exp) || made != nil && ls.isNil(made.Res[0]) && ls.isNil(made.Res[1])
			r.Check("expect-fails", "Test.Expect", fn.Pos(), ok, "it panics: %v", p.PVal)
			continue
		}
		if made == nil || made1 != 1 {
			r.Check("expect-acts", "Test.Expect", fn.Pos(), false, "the predicate is built %d times", made1)
			continue
		}
		failed := fails > 0
		pos := fn.Pos()
		if fail != nil {
			pos = fail.Pos
		}
		perr := made.Res[1]
		switch {
		case ls.notNil(perr):
			r.Check("expect-fails", "Test.Expect", pos, failed, "the test does not fail if the predicate cannot be built")
			r.Check("expect-acts", "Test.Expect", pos, acts == 0, "the action is performed although the predicate could not be built")
			continue
		case !ls.isNil(perr):
			r.Check("expect-fails", "Test.Expect", pos, false, "the error from building the predicate is not considered")
			continue
		}
		if !r.Check("expect-acts", "Test.Expect", pos, acts == 1, "the action is not performed exactly once") {
			continue
		}
		derr, ok := done.Res[0], okAtom(made.Res[0])
		switch {
		case ls.notNil(derr):
			r.Check("expect-fails", "Test.Expect", pos, failed, "the test does not fail if the action returns an error")
		case !ls.isNil(derr):
			r.Check("expect-fails", "Test.Expect", pos, false, "the error of the action is not considered")
		case ls.holds(ok):
			r.Check("expect-fails", "Test.Expect", pos, !failed, "the test fails although the predicate is met")
		case ls.refutes(ok):
			r.Check("expect-fails", "Test.Expect", pos, failed, "the test does not fail if the predicate is not met")
			r.Check("expect-verdict", "Test.Expect", pos, reps == 1 && shown, "no report is shown")
		default:
			r.Check("expect-fails", "Test.Expect", pos, false, "the verdict of the predicate is not considered")
		}
	}

	// preparation
	fn = testMethod(r, "Prepare")
	var actions *Term
	for i, p := range fn.Params {
		if _, ok := under(p.Type()).(*types.Slice); ok {
			actions = nthParam(fn, i)
		}
	}
	if actions == nil {
		panic(giveUp{"cannot find the actions of Test.Prepare"})
	}
	// step checks the action performed by a list of events
	step := func(evs []*Event, ls lits, idx *Term) (failed bool) {
		var do *Event
		n, fails := 0, 0
		pos := fn.Pos()
		eachEvent(evs, scope{lits: ls}, func(ev *Event, sc scope) {
			if isRootIface(ev, "Action", "Do") {
				n++
				do = ev
				pos = ev.Pos
				if len(sc.loops) > 0 || ev.G != 0 {
					n += 2
				}
			}
			if isFailure(ev) {
				fails++
			}
		})
		if !r.Check("prepare-acts", "Test.Prepare", pos, n == 1, "the action is not performed exactly once") {
			return
		}
		r.Check("prepare-acts", "Test.Prepare", pos, do.Recv.Op == "index" && do.Recv.Args[0] == actions && do.Recv.Args[1] == idx, "the actions are not performed in order: %v", do.Recv)
		err := do.Res[0]
		switch {
		case ls.notNil(err):
			r.Check("prepare-fails", "Test.Prepare", pos, fails > 0, "the test does not fail if the action returns an error")
		case ls.isNil(err):
			r.Check("prepare-fails", "Test.Prepare", pos, fails == 0, "the test fails although the action does not return an error")
		default:
			r.Check("prepare-fails", "Test.Prepare", pos, false, "the error of the action is not considered")
		}
		return ls.notNil(err) && fails > 0
	}
	for _, p := range r.Run(Config{}, fn, nil) {
		if p.Kind != "ret" {
			r.Check("prepare-fails", "Test.Prepare", fn.Pos(), false, "it panics: %v", p.PVal)
			continue
		}
		var l *Loop
		var rest []*Event
		n := 0
		for _, ev := range p.Events {
			if ev.Kind == "loop" && anyEvent([]*Event{ev}, func(e *Event) bool { return isRootIface(e, "Action", "Do") }) {
				l = ev.Loop
				n++
				rest = nil
				continue
			}
			if n == 0 && isRootIface(ev, "Action", "Do") {
				r.Check("prepare-acts", "Test.Prepare", ev.Pos, false, "an action is performed before the others")
			}
			rest = append(rest, ev)
		}
		if l == nil {
			r.Check("prepare-acts", "Test.Prepare", fn.Pos(), lits(p.Lits).holds(mkEq0(linOf(mkLen(actions)))), "no action is performed")
			continue
		}
		r.Check("prepare-acts", "Test.Prepare", fn.Pos(), n == 1, "actions are performed by more than one loop")
		for _, x := range l.Iters {
			step(x.Events, lits(p.Lits).with(x.Lits), l.Iter)
		}
		more := anyEvent(rest, func(e *Event) bool { return isRootIface(e, "Action", "Do") })
		switch {
		case more:
			// the iteration that leaves the loop
			r.Check("prepare-acts", "Test.Prepare", fn.Pos(), step(rest, p.Lits, l.Iter), "the remaining actions are not performed although none has failed")
		default:
			r.Check("prepare-acts", "Test.Prepare", fn.Pos(), completed(p.Lits, l, actions), "the loop may end before the last action")
			r.Check("prepare-fails", "Test.Prepare", fn.Pos(), !anyEvent(rest, isFailure), "the test fails after the actions")
		}
	}
}

// mentions reports whether a call involves a value.
func mentions(ev *Event, v *Term) bool {
	f := func(t *Term) bool { return t == v }
	if ev.Recv != nil && ev.Recv.contains(f) {
		return true
	}
	for _, a := range ev.Args {
		if a.contains(f) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C20

// observersAdded are the observers that an option adds to an operation's.
func (r *Report) observersAdded(st *State, opt *Term) []*Term {
	oo := optionsType(r)
	os := under(oo).(*types.Struct)
	oi := fieldOfType(oo, func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		return ok && typeKey(s.Elem()) == modulePath+"/fact.Observer"
	})
	if oi < 0 {
		panic(giveUp{"cannot find the observers of an operation"})
	}
	var got []*Term
	for i, q := range only(r.applyOption(st, opt, "applyOperationOption"), "ret") {
		var these []*Term
		for c, x := range q.St.heap {
			if c.Op == "faddr" && c.Args[0].Op == "param" && types.Identical(deref(c.Args[0].Typ), oo) && c == mkFaddr(c.Args[0], oi, os, oo) {
				for _, pc := range flatten(x, nil) {
					if pc.elem {
						these = append(these, pc.t)
					}
				}
			}
		}
		if i > 0 && len(these) != len(got) {
			return nil
		}
		got = these
	}
	return got
}

func checkC20(r *Report) {
	r.Rule("life-cycle", 1, "an expectation step performs the action with a predicate that is finalised once, after the action, and asked for its verdict and report only then")
	r.Rule("observes", 1, "the predicate is an observer of the action, once")
	r.Rule("action-options", 3, "every built-in action gives the observers of its scope to everything it does with the engine")

	fn := testMethod(r, "Expect")
	cap := capture{}
	cfg := Config{
		OnCall:   stepHook(cap),
		MayPanic: func(ev *Event) bool { return isRootIface(ev, "Action", "Do") },
	}
	for _, p := range r.Run(cfg, fn, nil) {
		var pred *Term
		acted := false
		p.each(func(ev *Event, _ scope) {
			if isRootIface(ev, "Expectation", "Predicate") {
				pred = ev.Res[0]
			}
			if isRootIface(ev, "Action", "Do") {
				acted = true
				st := cap[ev]
				if st == nil {
					st = p.St
				}
				n := 0
				if o := scopeOptions(r, ev); o != nil {
					for _, pc := range elements(st, o) {
						if !pc.elem {
							continue
						}
						for _, t := range r.observersAdded(st, pc.t) {
							if pred != nil && stripIface(t) == stripIface(pred) {
								n++
							}
						}
					}
				}
				r.Check("observes", "Test.Expect", ev.Pos, n == 1, "the predicate is added to the observers of the action %d times", n)
			}
		})
		if pred == nil || !acted {
			continue
		}
		a := &automaton{
			step: func(s string, ev *Event, sc scope) (string, string) {
				if ev.Kind == "go" {
					return s, "a goroutine is started"
				}
				if isRootIface(ev, "Action", "Do") {
					if s != "" {
						return s, "the action is performed in state " + s
					}
					return "acted", ""
				}
				if ev.Recv != pred || ev.Kind != "call" && ev.Kind != "notify" {
					return s, ""
				}
				switch ev.Method {
				case "Done":
					if s != "acted" {
						return s, "the predicate is finalised " + map[string]string{"": "before the action has ended", "done": "twice"}[s]
					}
					return "done", ""
				case "Ok", "Report":
					if s != "done" {
						return s, "the predicate is asked for its " + map[string]string{"Ok": "verdict", "Report": "report"}[ev.Method] + " before it is finalised"
					}
				case "Notify":
					return s, "the predicate is notified of something that is not part of the action"
				}
				return s, ""
			},
			fail: func(s string, ev *Event, sc scope, why string) {
				r.Check("life-cycle", "Test.Expect", ev.Pos, false, "%s", why)
			},
		}
		for _, s := range a.run([]string{""}, p.Events, scope{lits: p.Lits}) {
			how := "returns"
			if p.Kind != "ret" {
				how = "panics"
			}
			r.Check("life-cycle", "Test.Expect", fn.Pos(), s == "done", "the predicate is not finalised on a path that %s", how)
		}
	}

	// actions
	for _, a := range actionMethods(r, "Do") {
		for _, x := range r.engineUses(a) {
			r.Check("action-options", x.name, x.pos, x.why == "", "%s", x.why)
		}
	}
	r.fanOut()
}

// actionMethods are the implementations of a method of Action, by type.
func actionMethods(r *Report, name string) []*ssa.Function {
	return rootMethods(r, "Action", name)
}

// rootMethods are the methods that implement one of an interface of the root
// package.
func rootMethods(r *Report, typ, name string) []*ssa.Function {
	at := r.P.Type("", typ)
	if at == nil {
		panic(giveUp{"cannot find the type " + typ})
	}
	it := under(at).(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == name {
			fns := r.P.implementations(m)
			sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
			if len(fns) == 0 {
				panic(giveUp{"cannot find any implementation of " + typ})
			}
			return fns
		}
	}
	panic(giveUp{typ + " has no method " + name})
}

type engineUse struct {
	name string
	pos  token.Pos
	why  string
}

// engineUses describes how an action's Do method passes its options on.
func (r *Report) engineUses(fn *ssa.Function) []engineUse {
	at := r.P.Type("", "ActionScope")
	if at == nil {
		panic(giveUp{"cannot find the type ActionScope"})
	}
	var opts, x *Term
	for i, p := range fn.Params {
		if types.Identical(p.Type(), at) {
			opts = structField(nthParam(fn, i), at, "OperationOptions")
			x = structField(nthParam(fn, i), at, "Executor")
		}
	}
	if opts == nil {
		panic(giveUp{"cannot find the scope of " + fn.String()})
	}
	var uses []engineUse
	name := typeName(fn)
	cap := capture{}
	cfg := Config{Opaque: engineOpaque, OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if ev.Name == "dyn" {
			cap[ev] = st.clone()
			st.emit(ev)
			return []*CallOut{{St: st, Vals: ev.Res}}
		}
		return nil
	}}
	whole := func(o *Term) string {
		n := 0
		for _, pc := range flatten(o, nil) {
			if !pc.elem && pc.loop == nil && pc.t == opts {
				n++
			}
		}
		if n != 1 {
			return "the options given to the engine are " + describe(o)
		}
		return ""
	}
	for _, p := range r.Run(cfg, fn, nil) {
		p.each(func(ev *Event, _ scope) {
			if isEngineOp(ev, "Dispatch") || isEngineOp(ev, "Tick") {
				uses = append(uses, engineUse{name, ev.Pos, whole(ev.Args[len(ev.Args)-1])})
			}
			if ev.Name == "dyn" && cap[ev] != nil && x != nil {
				uses = append(uses, engineUse{name, ev.Pos, r.boundOptions(cap[ev], x, whole)})
			}
		})
	}
	return uses
}

// boundOptions describes what is wrong with the options with which the test's
// executor executes commands in some state.
func (r *Report) boundOptions(st *State, x *Term, whole func(*Term) string) string {
	xt := r.P.Type("", "CommandExecutor")
	if xt == nil {
		panic(giveUp{"cannot find the type CommandExecutor"})
	}
	fn := need(r.P.MethodOf(types.NewPointer(xt), "ExecuteCommand"), "CommandExecutor.ExecuteCommand")
	args := []*Term{x}
	for i := 1; i < len(fn.Params); i++ {
		args = append(args, mk("param", "use:"+fn.Params[i].Name(), fn.Params[i].Type()))
	}
	why := "the function is called without any options bound"
	st = st.clone()
	st.evs = nil
	cfg := Config{Opaque: engineOpaque, Salt: "use"}
	find := func(p *Path) {
		p.each(func(ev *Event, _ scope) {
			if isEngineOp(ev, "Dispatch") {
				why = whole(ev.Args[len(ev.Args)-1])
			}
		})
	}
	for _, p := range r.Run(cfg, fn, st, args...) {
		find(p)
		p.each(func(ev *Event, _ scope) {
			if ev.Name != "dyn" || len(ev.Args) != 3 {
				return
			}
			// what an interceptor may use
			qs, _ := r.invoke(cfg, p.after(), ev.Args[2], "ExecuteCommand", args[1], args[2])
			for _, q := range qs {
				find(q)
			}
		})
	}
	return why
}

func isSliceKey(t types.Type, key string) bool {
	s, ok := under(t).(*types.Slice)
	return ok && typeKey(s.Elem()) == key
}

// typeName is the name of a method's receiver type.
func typeName(fn *ssa.Function) string {
	recv := fn.Signature.Recv()
	if recv == nil {
		return fn.Name()
	}
	n := typeKey(deref(recv.Type()))
	return n[strings.LastIndex(n, ".")+1:]
}

// ---------------------------------------------------------------------------
// C29

func checkC29(r *Report) {
	r.compositeReports()
	r.Rule("leaf-outcome", 4, "the outcome of every other report is the predicate's verdict, and it carries the overall verdict")
	r.Rule("mark", 1, "a rendered report shows a pass mark exactly if its outcome is a pass")
	r.Rule("rendered", 1, "a rendered report includes every sub-report, in order")
	r.Rule("append", 1, "adding a sub-report keeps it after the ones added before")

	pt := r.P.Type("", "Predicate")
	if pt == nil {
		panic(giveUp{"cannot find the type Predicate"})
	}
	ct := r.P.Type("", "ReportGenerationContext")
	ctx := mk("param", "ctx", ct)
	tree := structField(ctx, ct, "TreeOk")
	it := under(pt).(*types.Interface)
	comp := map[string]bool{}
	for _, kind := range compositeKinds {
		for _, k := range []int{1, 2} {
			cs, _ := r.composites(kind, k)
			for _, c := range cs {
				if c.pred != nil {
					comp[typeKey(deref(ifaceType(c.pred)))] = true
				}
			}
		}
	}
	// texts are not of interest
	cfg := Config{Opaque: func(fn *ssa.Function) bool {
		p := pkgOf(fn)
		return p != nil && p.Path() == modulePath+"/internal/inflect"
	}}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() != "Report" {
			continue
		}
		for _, fn := range r.P.implementations(m) {
			rt := fn.Signature.Recv().Type()
			if comp[typeKey(deref(rt))] {
				continue
			}
			name := typeName(fn)
			okFn := r.P.methodNamed(rt, "Ok")
			if okFn == nil || okFn.Blocks == nil {
				r.Check("leaf-outcome", name, fn.Pos(), false, "it has no verdict")
				continue
			}
			recv := nthParam(fn, 0)
			verdicts := only(r.Run(cfg, okFn, nil, recv), "ret")
			for _, p := range r.Run(cfg, fn, nil, recv, ctx) {
				if p.Kind != "ret" {
					r.Check("leaf-outcome", name, fn.Pos(), false, "it panics: %v", p.PVal)
					continue
				}
				rep := readReport(r, p)
				if !r.Check("leaf-outcome", name, fn.Pos(), rep != nil, "what it returns is not known: %v", p.Vals) {
					continue
				}
				r.Check("leaf-outcome", name, fn.Pos(), agrees(p.Lits, rep["TreeOk"], tree), "the report's overall verdict is %v", rep["TreeOk"])
				n := 0
				for _, v := range verdicts {
					for _, val := range []bool{true, false} {
						st := newState()
						st.lits = cloneMap(p.Lits)
						ok := true
						for a, b := range v.Lits {
							ok = ok && st.assume(a, b)
						}
						ok = ok && st.assume(v.Vals[0], val)
						if !ok {
							continue
						}
						n++
						got, known := lits(st.lits).decide(rep["Ok"])
						r.Check("leaf-outcome", name, fn.Pos(), known && got == val, "the report's outcome is %v although the verdict is %v", rep["Ok"], val)
					}
				}
				r.Check("leaf-outcome", name, fn.Pos(), n > 0, "the verdict is not known")
			}
		}
	}

	// rendering
	rt := r.P.Type("", "Report")
	wfn := need(r.P.MethodOf(rt, "WriteTo"), "Report.WriteTo")
	self := nthParam(wfn, 0)
	rs := under(rt).(*types.Struct)
	field := func(name string) *Term {
		for i := 0; i < rs.NumFields(); i++ {
			if rs.Field(i).Name() == name {
				return mkLoad(mkFaddr(self, i, rs, rt), rs.Field(i).Type())
			}
		}
		panic(giveUp{"Report has no field " + name})
	}
	ok, subs := field("Ok"), field("SubReports")
	isSub := func(ev *Event) bool {
		if ev.Kind != "call" || ev.Method != "WriteTo" && !strings.HasSuffix(ev.Name, ".WriteTo") {
			return false
		}
		return subReport(ev, rt) != nil
	}
	for _, p := range r.Run(Config{}, wfn, nil) {
		if p.Kind != "ret" {
			continue // write errors
		}
		good, bad := 0, 0
		failed := false
		p.each(func(ev *Event, sc scope) {
			if ev.Kind != "call" {
				return
			}
			for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
				if a == nil {
					continue
				}
				a.contains(func(x *Term) bool {
					if s, isStr := constStr(x); isStr {
						good += strings.Count(s, "✓")
						bad += strings.Count(s, "✗")
					}
					if n, isInt := constInt(x); isInt {
						if n == '✓' {
							good++
						}
						if n == '✗' {
							bad++
						}
					}
					return false
				})
			}
		})
		if len(p.Vals) == 2 && !lits(p.Lits).isNil(p.Vals[1]) {
			failed = true // a write failed
		}
		if failed {
			continue
		}
		switch {
		case lits(p.Lits).holds(ok):
			r.Check("mark", "Report.WriteTo", wfn.Pos(), good == 1 && bad == 0, "a report that passed shows %d pass marks and %d fail marks", good, bad)
		case lits(p.Lits).refutes(ok):
			r.Check("mark", "Report.WriteTo", wfn.Pos(), good == 0 && bad == 1, "a report that did not pass shows %d pass marks and %d fail marks", good, bad)
		default:
			r.Check("mark", "Report.WriteTo", wfn.Pos(), false, "the mark does not depend on the outcome")
		}
		why := eachOnce(p, subs, isSub, func(ev *Event) *Term { return subReport(ev, rt) }, true)
		r.Check("rendered", "Report.WriteTo", wfn.Pos(), why == "", "%s", why)
	}
	afn := need(r.P.MethodOf(rt, "Append"), "Report.Append")
	for _, p := range r.Run(Config{}, afn, nil) {
		a := nthParam(afn, 0)
		for i := 0; i < rs.NumFields(); i++ {
			if rs.Field(i).Name() == "SubReports" {
				addr := mkFaddr(a, i, rs, rt)
				want := mkAppend(mkLoad(addr, rs.Field(i).Type()), mk("seq", "", rs.Field(i).Type(), nthParam(afn, 1)))
				got := p.St.load(addr, rs.Field(i).Type())
				r.Check("append", "Report.Append", afn.Pos(), p.Kind == "ret" && piecesString(flatten(got, nil)) == piecesString(flatten(want, nil)), "the sub-reports become %v", got)
			}
		}
	}
}

// subReport is the report that a call writes.
func subReport(ev *Event, rt types.Type) *Term {
	for _, a := range append([]*Term{ev.Recv}, ev.Args...) {
		if a == nil {
			continue
		}
		x := stripIface(a)
		if a.Op == "iface" && types.Identical(deref(a.TAux), rt) || x.Typ != nil && types.Identical(deref(x.Typ), rt) {
			return x
		}
	}
	return nil
}
