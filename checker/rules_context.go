package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C39"] = checkC39
	checks["C40"] = checkC40
}

// derivesFrom reports whether t is ctx, or a context made from it that is
// cancelled when ctx is, and not before the events end.
func derivesFrom(t, ctx *Term, evs []*Event) bool {
	for n := 0; n < 8; n++ {
		if t == nil {
			return false
		}
		if t == ctx || stripIface(t) == ctx {
			return true
		}
		var from *Event
		for _, ev := range evs {
			if ev.Kind != "call" || len(ev.Args) == 0 || len(ev.Res) == 0 || ev.Res[0] != t {
				continue
			}
			switch ev.Name {
			case "context.WithCancel", "context.WithCancelCause", "context.WithValue":
				from = ev
			}
		}
		if from == nil {
			return false
		}
		if len(from.Res) > 1 {
			// a context that is cancelled on the way is not cancelled exactly
			// when the operation's is
			for _, ev := range evs {
				if ev.Kind == "call" && ev.Name == "dyn" && ev.Recv == from.Res[1] && !ev.Defer {
					return false
				}
			}
		}
		t = from.Args[0]
	}
	return false
}

// contextArg is the context that a call is given.
func contextArg(ev *Event) *Term {
	var sig *types.Signature
	switch {
	case ev.MFunc != nil:
		sig = ev.MFunc.Type().(*types.Signature)
	case ev.Callee != nil:
		sig = ev.Callee.Signature
	default:
		return nil
	}
	off := len(ev.Args) - sig.Params().Len()
	for i := 0; i < sig.Params().Len(); i++ {
		if j := i + off; typeKey(sig.Params().At(i).Type()) == "context.Context" && j >= 0 && j < len(ev.Args) {
			return ev.Args[j]
		}
	}
	return nil
}

// flat lists the events of a trace, including those of loops.
func flat(evs []*Event) []*Event {
	var r []*Event
	eachEvent(evs, scope{lits: lits{}}, func(ev *Event, _ scope) { r = append(r, ev) })
	return r
}

func checkC39(r *Report) {
	m := findEngine(r.P)
	r.Rule("handlers", 8, "every method of a handler that takes a context is given that of the operation")
	r.Rule("engine", 4, "controllers, and the acquisition of the engine's mutex, are given the context of the operation")
	r.Rule("stops", 2, "whether the context is cancelled is asked after each message and each handler's tick, and if it is, nothing further is processed")
	r.Rule("result", 2, "an operation that stops because its context is cancelled returns the context's error")
	r.Rule("run", 2, "the run loop ticks and sleeps with its context")
	r.Rule("tests", 3, "every action of a test is performed with the context that the test was begun with, and uses the engine with that context")

	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		ps, _ := k.run(r, false)
		tps, _ := k.runTick(r, false)
		for _, p := range append(append([]*Path(nil), ps...), tps...) {
			evs := flat(p.Events)
			for _, ev := range evs {
				if !isUserCall(ev) {
					continue
				}
				if c := contextArg(ev); c != nil {
					r.Check("handlers", kind+": "+ev.Method, ev.Pos, derivesFrom(c, k.ctx, evs), "%s is given the context %v, which is not that of the operation", ev.Method, c)
				}
			}
		}
	}

	ops := r.runOps(m, false)
	for _, name := range opNames {
		fn := m.dispatch
		if name == "Engine.Tick" {
			fn = m.tick
		}
		ctx := paramOfType(fn, "context.Context")
		if ctx == nil {
			panic(giveUp{name + " does not take a context"})
		}
		for _, p := range ops[name] {
			evs := flat(p.Events)
			for _, ev := range evs {
				if isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick") {
					c := contextArg(ev)
					r.Check("engine", name+": "+ev.Method, ev.Pos, derivesFrom(c, ctx, evs), "a controller is given the context %v, which is not that of the operation", c)
				}
				if isLock(ev) && strings.Contains(ev.Name, "cosyne.") {
					c := contextArg(ev)
					r.Check("engine", name+": mutex", ev.Pos, derivesFrom(c, ctx, evs), "the mutex is acquired with the context %v, which is not that of the operation", c)
				}
			}
			m.checkStops(r, name, p, ctx, evs)
		}
	}
	checkRunContext(r)
	checkTestContext(r)
}

// checkStops checks that an operation asks whether its context is cancelled.
func (m *engineModel) checkStops(r *Report, name string, p *Path, ctx *Term, all []*Event) {
	a := &automaton{
		step: func(s string, ev *Event, sc scope) (string, string) {
			switch {
			case isCtrlCall(ev, "Handle"), isCtrlCall(ev, "Tick"):
				if s == "cancelled" {
					return s, "a handler is invoked although the context is known to be cancelled"
				}
				return "ran", ""
			case ev.Kind == "notify" && (factName(ev) == "DispatchBegun" || factName(ev) == "TickBegun"):
				if s == "ran" {
					return s, "another message or tick is begun without asking whether the context is cancelled"
				}
			case ev.Kind == "call" && (ev.Name == "(context.Context).Err" && derivesFrom(ev.Recv, ctx, all) || ev.Name == "context.Cause" && len(ev.Args) == 1 && derivesFrom(ev.Args[0], ctx, all)):
				switch {
				case sc.lits.isNil(ev.Res[0]):
					return "asked", ""
				case sc.lits.notNil(ev.Res[0]):
					return "cancelled", ""
				}
			case ev.Kind == "polled" && isDone(ev.Recv, ctx, all):
				return "asked", ""
			case ev.Kind == "recv" && isDone(ev.Recv, ctx, all):
				return "cancelled", ""
			}
			return s, ""
		},
		fail: func(s string, ev *Event, sc scope, why string) {
			r.Check("stops", name, ev.Pos, false, "%s", why)
		},
	}
	for _, s := range a.run([]string{"asked"}, p.Events, scope{lits: p.Lits}) {
		if s != "cancelled" || p.Kind != "ret" {
			r.Check("stops", name, 0, true, "")
			continue
		}
		ok := isCtxErr(p.Vals[0]) || p.Vals[0].contains(isCtxErr)
		r.Check("result", name, 0, ok, "the operation returns %v when its context is cancelled", p.Vals[0])
	}
}

// isDone recognises the channel that is closed when the context is cancelled.
func isDone(ch, ctx *Term, evs []*Event) bool {
	a := pureCall(ch, "Done")
	return a != nil && len(a) == 1 && derivesFrom(a[0], ctx, evs)
}

func checkRunContext(r *Report) {
	for _, name := range []string{"RunTimeScaled", "Run"} {
		fn := need(r.P.Func("engine", name), "engine."+name)
		ctx := paramOfType(fn, "context.Context")
		if ctx == nil {
			panic(giveUp{"engine." + name + " does not take a context"})
		}
		cfg := Config{Opaque: engineOpaque, OnCall: capture{}.hook(func(ev *Event) bool { return isEngineOp(ev, "Tick") })}
		for _, p := range r.Run(cfg, fn, nil) {
			evs := flat(p.Events)
			for _, ev := range evs {
				if isEngineOp(ev, "Tick") || ev.Kind == "call" && strings.Contains(ev.Name, "linger.Sleep") {
					c := contextArg(ev)
					r.Check("run", "engine."+name+": "+ev.Method, ev.Pos, derivesFrom(c, ctx, evs), "%s is given the context %v", ev.Name, c)
				}
			}
		}
	}
}

func checkTestContext(r *Report) {
	tt := r.P.Type("", "Test")
	if tt == nil {
		panic(giveUp{"cannot find the type Test"})
	}
	ts := under(tt).(*types.Struct)
	ci := fieldOfType(tt, func(t types.Type) bool { return typeKey(t) == "context.Context" })
	if ci < 0 {
		panic(giveUp{"cannot find the context of a test"})
	}
	begin := need(r.P.Func("", "BeginContext"), "BeginContext")
	ctx := paramOfType(begin, "context.Context")
	for _, p := range only(r.Run(Config{OnCall: keepOptions}, begin, nil), "ret") {
		got := p.St.load(mkFaddr(p.Vals[0], ci, ts, tt), fieldVar(ts, ci).Type())
		r.Check("tests", "BeginContext", begin.Pos(), derivesFrom(got, ctx, flat(p.Events)), "the context of the test is %v", got)
	}
	for _, name := range []string{"Prepare", "Expect"} {
		fn := need(r.P.MethodOf(tt, name), "Test."+name)
		own := mkLoad(mkFaddr(nthParam(fn, 0), ci, ts, tt), fieldVar(ts, ci).Type())
		for _, p := range r.Run(Config{OnCall: keepOptions}, fn, nil) {
			evs := flat(p.Events)
			for _, ev := range evs {
				if isRootIface(ev, "Action", "Do") {
					c := contextArg(ev)
					r.Check("tests", "Test."+name, ev.Pos, derivesFrom(c, own, evs), "the action is performed with the context %v", c)
				}
			}
		}
	}
	for _, fn := range actionMethods(r, "Do") {
		name := typeName(fn)
		ctx := paramOfType(fn, "context.Context")
		if ctx == nil {
			panic(giveUp{name + " does not take a context"})
		}
		cfg := Config{Opaque: engineOpaque, OnCall: capture{}.hook(func(ev *Event) bool {
			return isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") || ev.Name == "dyn"
		})}
		for _, p := range r.Run(cfg, fn, nil) {
			evs := flat(p.Events)
			for _, ev := range evs {
				if isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") {
					c := contextArg(ev)
					r.Check("tests", name, ev.Pos, derivesFrom(c, ctx, evs), "the engine is used with the context %v", c)
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C40

func checkC40(r *Report) {
	r.Rule("answers", 6, "what a scope answers is what is true of the message being handled, its instance and the operation, after any other use of the scope")
	r.Rule("no-effect", 6, "asking a scope announces nothing and calls nothing of the application")
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		ps, _ := k.run(r, false)
		tps, _ := k.runTick(r, false)
		all := append(append([]*Path(nil), ps...), tps...)
		for _, cl := range allClients(all) {
			id := k.instanceOfClient(all, cl)
			for _, u := range cl.Trans {
				var want *Term
				switch u.Op {
				case "InstanceID":
					want = id
				case "RecordedAt":
					want = k.envField("CreatedAt")
				case "ScheduledFor":
					want = k.envField("ScheduledFor")
				case "Now":
					want = k.now
				case "IsPrimaryDelivery":
					want = tTrue
				default:
					continue
				}
				where := kind + ": " + u.Op + " in " + cl.Call.Method
				pos := cl.Call.Pos
				for _, op := range cl.Ops {
					if op.name == u.Op && op.fn.Pos().IsValid() {
						pos = op.fn.Pos()
					}
				}
				if !r.Check("answers", where, pos, u.Kind == "ret", "%s panics: %v", u.Op, u.PVal) {
					continue
				}
				// an event is always handled by the operation that created it
				same := len(u.Vals) == 1 && u.Op == "RecordedAt" && u.Vals[0] == k.now
				r.Check("answers", where, pos, same || want != nil && len(u.Vals) == 1 && u.Vals[0] == want, "%s answers %v instead of %v", u.Op, u.Vals, want)
				told := anyEvent(u.Events, func(ev *Event) bool { return ev.Kind == "notify" || isUserCall(ev) })
				r.Check("no-effect", where, pos, !told, "%s has an effect that others see", u.Op)
			}
		}
	}
}
