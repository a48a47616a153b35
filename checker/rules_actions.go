package main

import (
	"go/types"
)

func init() {
	checks["C37"] = checkC37
}

// dispatchers are the constructors of actions that give a message to the
// engine.
var dispatchers = []string{"ExecuteCommand", "RecordEvent"}

func checkC37(r *Report) {
	r.Rule("dispatched", 2, "an action for a message of a type that the application uses dispatches that message to the test's engine, once, with the options of the test, and returns the engine's error")
	r.Rule("unknown", 2, "an action for a message of a type that the application does not use returns an error and has no other effect")
	r.Rule("repeated", 2, "an action does the same each time that it is performed")
	r.Rule("nothing-else", 3, "no action uses the engine in any other way")

	at := r.P.Type("", "ActionScope")
	if at == nil {
		panic(giveUp{"cannot find the type ActionScope"})
	}
	c := &executorCheck{r: r, at: at, x: r.P.Type("", "CommandExecutor")}
	as := under(at).(*types.Struct)
	var app, clock *Term
	for i := 0; i < as.NumFields(); i++ {
		f := as.Field(i)
		switch f.Name() {
		case "App":
			app = mk("param", "scope:App", f.Type())
		case "VirtualClock":
			clock = mk("param", "scope:VirtualClock", f.Type())
		case "Engine":
			c.eng = mk("param", "eng", f.Type())
		case "OperationOptions":
			c.opts = mk("param", "opts", f.Type())
		}
	}
	if app == nil || clock == nil || c.eng == nil || c.opts == nil {
		panic(giveUp{"the fields of ActionScope are not as expected"})
	}
	x := mk("param", "x", types.NewPointer(c.x))
	sc := c.scope(x)
	quiet := func(ev *Event) bool { return isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") }

	known := map[string]bool{}
	for _, name := range dispatchers {
		fn := need(r.P.Func("", name), name)
		if len(fn.Params) != 1 {
			panic(giveUp{"the parameters of " + name + " are not as expected"})
		}
		m := mk("param", name+".m", fn.Params[0].Type())
		base := newState()
		base.assume(mkEq(tNil, m, nil), false)
		base.assume(mkEq(tNil, c.eng, nil), false)
		base.assume(mkEq(tNil, app, nil), false)
		made := only(r.Run(Config{Salt: "make"}, fn, base, m), "ret")
		r.Check("dispatched", name, fn.Pos(), len(made) > 0, "no action is made")
		for _, p := range made {
			act := p.Vals[0]
			if t := ifaceType(act); t != nil {
				known[typeKey(deref(t))] = true
			}
			c.perform(name, p.after(), act, sc, app, clock, m, quiet, 2)
		}
	}

	for _, fn := range actionMethods(r, "Do") {
		k := typeKey(deref(fn.Signature.Recv().Type()))
		name := typeName(fn)
		for _, p := range r.Run(Config{Opaque: engineOpaque, OnCall: capture{}.hook(func(ev *Event) bool { return quiet(ev) || ev.Name == "dyn" })}, fn, nil) {
			p.each(func(ev *Event, _ scope) {
				if !quiet(ev) {
					return
				}
				ok := known[k] && isEngineOp(ev, "Dispatch") || !known[k] && isEngineOp(ev, "Tick") && !isCallAction(r, fn)
				r.Check("nothing-else", name, ev.Pos, ok, "it uses the engine's %s", ev.Method)
			})
			r.Check("nothing-else", name, fn.Pos(), true, "")
		}
	}
}

// perform checks what an action that dispatches a message does.
func (c *executorCheck) perform(name string, st *State, act, as, app, clock, m *Term, quiet func(*Event) bool, times int) {
	r := c.r
	rule := "dispatched"
	if times == 1 {
		rule = "repeated"
	}
	ctx := mk("param", "do:ctx", nil)
	cfg := Config{Opaque: engineOpaque, Faults: true, Salt: "do" + itoa(times), OnCall: capture{}.hook(quiet)}
	fn := r.P.methodNamed(ifaceType(act), "Do")
	qs, ok := r.invoke(cfg, st, act, "Do", ctx, as)
	if !ok {
		r.Check(rule, name, 0, false, "what the constructor returns is not known: %v", act)
		return
	}
	// whether the application uses messages of this type
	mt := mk("pure", "github.com/dogmatiq/enginekit/message.TypeOf", nil, m)
	isTable := func(t *Term) bool {
		if t.Op == "mapinit" {
			t = t.Args[0]
		}
		a := pureCall(t, "MessageTypes")
		return a != nil && len(a) > 0 && stripIface(a[0]) == app
	}
	asked := func(t *Term) bool {
		return (t.Op == "has" || t.Op == "lookup") && isTable(t.Args[0]) && t.Args[1] == mt
	}
	// whether one of the types that the application uses is this one
	isKey := func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		for i, a := range t.Args {
			if a.Op == "rk" && isTable(a.Args[0]) && t.Args[1-i] == mt {
				return true
			}
		}
		return false
	}
	for _, p := range qs {
		pos := fn.Pos()
		if !r.Check(rule, name, pos, p.Kind == "ret", "it panics: %v", p.PVal) {
			continue
		}
		ls := lits(p.Lits)
		used, decided, mentioned := false, false, false
		for a, v := range p.Lits {
			if a.Op == "has" && asked(a) {
				used, decided = v, true
			}
			mentioned = mentioned || a.contains(asked)
			if isKey(a) && v {
				used, decided, mentioned = true, true, true
			}
		}
		if !decided {
			for a, v := range p.Lits {
				if a.Op == "more" && isTable(a.Args[0]) && !v {
					used, decided, mentioned = false, true, true
				}
			}
		}
		var ops []*Event
		why := ""
		p.each(func(ev *Event, sc scope) {
			switch {
			case quiet(ev):
				ops = append(ops, ev)
				if len(sc.loops) > 0 || ev.G != 0 {
					ops = append(ops, ev)
				}
			case ev.Kind == "store" && root(ev.Addr) == clock:
				why = "the clock is changed"
			case ev.Kind == "call" && ev.Name == "dyn":
				why = "a function is called"
			}
		})
		r.Check(rule, name, pos, why == "", "%s", why)
		if len(ops) == 0 {
			r.Check("unknown", name, pos, mentioned && (!decided || !used), "the message is not dispatched although the application may use its type")
			r.Check("unknown", name, pos, len(p.Vals) == 1 && ls.notNil(p.Vals[0]), "the message is not dispatched but no error is returned: %v", p.Vals)
		} else {
			r.Check("unknown", name, pos, mentioned && (!decided || used), "the message is dispatched although the application may not use its type")
			c.dispatched(rule, name, pos, p, ops, ctx, m)
		}
		if times > 1 {
			again := p.after()
			again.lits = map[*Term]bool{}
			for a, v := range st.lits {
				again.lits[a] = v
			}
			c.perform(name, again, act, as, app, clock, m, quiet, times-1)
		}
	}
}
