package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = checkC26
}

// An executorCheck analyses what the executor does when it is used in various
// states.
type executorCheck struct {
	r         *Report
	x         types.Type // CommandExecutor
	at        types.Type // ActionScope
	exec      *ssa.Function
	ctx, m    *Term
	eng, opts *Term
	cfg       Config
}

func (c *executorCheck) scope(x *Term) *Term {
	s := under(c.at).(*types.Struct)
	var args []*Term
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Executor":
			args = append(args, x)
		case "Engine":
			args = append(args, c.eng)
		case "OperationOptions":
			args = append(args, c.opts)
		default:
			args = append(args, mk("param", "scope:"+s.Field(i).Name(), s.Field(i).Type()))
		}
	}
	return mkStruct(c.at, args)
}

// use checks what executing a command does: it is dispatched (to == nil),
// given to an interceptor (to != nil) or refused.
func (c *executorCheck) use(rule, what string, pos token.Pos, st *State, x, to *Term, refused bool) {
	c.use1(rule, what, pos, st, x, to, refused, 2)
}

func (c *executorCheck) use1(rule, what string, pos token.Pos, st *State, x, to *Term, refused bool, times int) {
	r := c.r
	st = st.clone()
	st.evs, st.pan = nil, nil
	st.g = 0
	cfg := c.cfg
	cfg.Faults = true
	cfg.Salt = "use" + itoa(times)
	var args []*Term
	for i, p := range c.exec.Params {
		switch k := typeKey(p.Type()); {
		case i == 0:
			args = append(args, x)
		case k == "context.Context":
			args = append(args, c.ctx)
		case types.IsInterface(p.Type()):
			args = append(args, c.m)
		default:
			args = append(args, mk("param", "use:"+p.Name(), p.Type()))
		}
	}
	n := 0
	for _, p := range r.Run(cfg, c.exec, st, args...) {
		n++
		var ops, calls []*Event
		p.each(func(ev *Event, sc scope) {
			k := 1
			if len(sc.loops) > 0 || ev.G != 0 {
				k = 2
			}
			for ; k > 0; k-- {
				if isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") {
					ops = append(ops, ev)
				}
				if ev.Kind == "call" && ev.Name == "dyn" {
					calls = append(calls, ev)
				}
			}
		})
		switch {
		case refused:
			r.Check(rule, what, pos, p.Kind == "panic", "a command can be executed")
			r.Check(rule, what, pos, len(ops) == 0 && len(calls) == 0, "a command that is refused is dispatched or intercepted all the same")
			continue
		case p.Kind != "ret":
			r.Check(rule, what, pos, false, "executing a command panics: %v", p.PVal)
			continue
		case to == nil:
			r.Check(rule, what, pos, len(calls) == 0, "the command is given to an interceptor: %v", p.Events)
			c.dispatched(rule, what, pos, p, ops, c.ctx, c.m)
		default:
			if !r.Check(rule, what, pos, len(ops) == 0 && len(calls) == 1, "the command is dispatched %d times and intercepted %d times", len(ops), len(calls)) {
				continue
			}
			ev := calls[0]
			r.Check(rule, what, pos, ev.Recv == to && len(ev.Args) == 3 && ev.Args[0] == c.ctx && ev.Args[1] == c.m, "the command is given to %v with %v", ev.Recv, ev.Args)
			r.Check(rule, what, pos, len(p.Vals) == 1 && sameErr(lits(p.Lits), p.Vals[0], ev.Res[0]), "the interceptor's error is not returned, but %v", p.Vals)
			if len(ev.Args) == 3 {
				// what the interceptor may do
				ctx, m := mk("param", "ctx2", c.ctx.Typ), mk("param", "m2", c.m.Typ)
				qs, ok := r.invoke(c.cfg, p.after(), ev.Args[2], "ExecuteCommand", ctx, m)
				r.Check(rule, what, pos, ok, "the executor that the interceptor is given is not known: %v", ev.Args[2])
				for _, q := range qs {
					var ops []*Event
					q.each(func(ev *Event, sc scope) {
						if isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") || ev.Name == "dyn" {
							ops = append(ops, ev)
						}
					})
					if r.Check(rule, what, pos, q.Kind == "ret", "the executor that the interceptor is given panics") {
						c.dispatched(rule, what, pos, q, ops, ctx, m)
					}
				}
			}
		}
		if times > 1 && p.Kind == "ret" {
			c.use1(rule, what, pos, p.St, x, to, refused, times-1)
		}
	}
	r.Check(rule, what, pos, n > 0, "what executing a command does is not known")
}

func (c *executorCheck) dispatched(rule, what string, pos token.Pos, p *Path, ops []*Event, ctx, m *Term) {
	r := c.r
	if !r.Check(rule, what, pos, len(ops) == 1 && isEngineOp(ops[0], "Dispatch"), "the command is dispatched %d times", len(ops)) {
		return
	}
	ev := ops[0]
	ok := ev.Recv == c.eng && len(ev.Args) == 3 && ev.Args[0] == ctx && stripIface(ev.Args[1]) == m
	r.Check(rule, what, pos, ok, "it is dispatched by %v with %v", ev.Recv, ev.Args)
	if ok {
		ps := flatten(ev.Args[2], nil)
		r.Check(rule, what, pos, len(ps) == 1 && !ps[0].elem && ps[0].loop == nil && ps[0].t == c.opts, "it is dispatched with the options %s", piecesString(ps))
	}
	r.Check(rule, what, pos, len(p.Vals) == 1 && sameErr(lits(p.Lits), p.Vals[0], ev.Res[0]), "the engine's error is not returned, but %v", p.Vals)
}

func checkC26(r *Report) {
	r.Rule("outside", 1, "outside of any action the executor panics without dispatching or intercepting anything")
	r.Rule("inside", 3, "while the user's function is called, commands go to the interceptor that is active, or else to the engine with the options of the action, and the error is returned")
	r.Rule("ended", 3, "once the user's function has returned or panicked, the executor refuses commands")
	r.Rule("restored", 2, "in a later action commands go to the interceptor that was active before, if any")
	r.Rule("called", 3, "the action calls the user's function once; it returns nil if the function returns, and panics if it panics")
	r.Rule("other-actions", 2, "no other action allows commands to be executed")
	r.Rule("tests", 2, "a test gives its own executor to its actions, and no method of a test changes it by other means")
	r.Rule("locked", 4, "the state of the executor is accessed only while its mutex is held, which is released however the method ends")

	c := &executorCheck{r: r}
	c.x, c.at = r.P.Type("", "CommandExecutor"), r.P.Type("", "ActionScope")
	if c.x == nil || c.at == nil {
		panic(giveUp{"cannot find the types CommandExecutor and ActionScope"})
	}
	c.exec = need(r.P.MethodOf(c.x, "ExecuteCommand"), "CommandExecutor.ExecuteCommand")
	et := r.P.Type("engine", "Engine")
	if et == nil {
		panic(giveUp{"cannot find the type engine.Engine"})
	}
	for _, p := range c.exec.Params[1:] {
		switch {
		case typeKey(p.Type()) == "context.Context":
			c.ctx = mk("param", "use:ctx", p.Type())
		case types.IsInterface(p.Type()):
			c.m = mk("param", "use:m", p.Type())
		}
	}
	if c.ctx == nil || c.m == nil {
		panic(giveUp{"the parameters of CommandExecutor.ExecuteCommand are not as expected"})
	}
	c.eng = mk("param", "eng", types.NewPointer(et))
	os := under(c.at).(*types.Struct)
	for i := 0; i < os.NumFields(); i++ {
		if os.Field(i).Name() == "OperationOptions" {
			c.opts = mk("param", "opts", os.Field(i).Type())
		}
	}
	cap := capture{}
	quiet := func(ev *Event) bool {
		return isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") || ev.Name == "dyn"
	}
	c.cfg = Config{Opaque: engineOpaque, OnCall: cap.hook(quiet)}

	// a new test
	xi, ts, tt := testField(r, "executor", func(t types.Type) bool { return types.Identical(deref(t), c.x) })
	executorOf := func(st *State, t *Term) *Term {
		a := mkFaddr(t, xi, ts, tt)
		if _, ok := fieldVar(ts, xi).Type().(*types.Pointer); ok {
			return st.load(a, fieldVar(ts, xi).Type())
		}
		return a
	}
	bfn := need(r.P.Func("", "BeginContext"), "BeginContext")
	var begun *Path
	for _, p := range only(r.Run(Config{OnCall: keepOptions}, bfn, nil), "ret") {
		c.use("outside", "BeginContext", bfn.Pos(), p.after(), executorOf(p.St, p.Vals[0]), nil, true)
		begun = p
	}
	if begun == nil {
		panic(giveUp{"BeginContext does not return"})
	}
	base := begun.after()
	base.lits = map[*Term]bool{}
	base.assume(mkEq(tNil, c.eng, nil), false)
	test := begun.Vals[0]
	x := executorOf(base, test)

	// actions that call a function
	call := need(r.P.Func("", "Call"), "Call")
	icept := need(r.P.Func("", "InterceptCommandExecutor"), "InterceptCommandExecutor")
	if len(call.Params) != 2 || len(icept.Params) != 1 {
		panic(giveUp{"the parameters of Call or InterceptCommandExecutor are not as expected"})
	}
	userFn := mk("param", "userFn", call.Params[0].Type())
	option := func(st *State, fn *Term, f func(*Term, *State)) {
		ps := only(r.Run(Config{Salt: fn.Aux}, icept, st.clone(), fn), "ret")
		if len(ps) == 0 {
			panic(giveUp{"InterceptCommandExecutor does not return"})
		}
		for _, p := range ps {
			f(p.Vals[0], p.after())
		}
	}
	action1 := func(st *State, salt string, arg *Term, f func(*Term, *State)) {
		ps := only(r.Run(Config{Salt: salt}, call, st.clone(), userFn, arg), "ret")
		if len(ps) == 0 {
			panic(giveUp{"Call does not return"})
		}
		for _, p := range ps {
			f(p.Vals[0], p.after())
		}
	}
	action := func(st *State, fn *Term, f func(*Term, *State)) {
		if fn == nil {
			action1(st, "act", tNil, f)
			return
		}
		option(st, fn, func(o *Term, st *State) {
			arg := mk("seq", "", call.Params[1].Type(), mkIface(ifaceType(o), stripIface(o)))
			action1(st, "act"+fn.Aux, arg, f)
		})
	}
	ncalls := 0
	// do performs such an action, and checks where commands go meanwhile
	do := func(rule, what string, st *State, act, to *Term) []*State {
		ncalls++
		cfg := c.cfg
		cfg.Salt = "do" + itoa(ncalls)
		cap := capture{}
		cfg.OnCall = cap.hook(quiet)
		cfg.MayPanic = func(ev *Event) bool { return ev.Name == "dyn" && ev.Recv == userFn }
		fn := r.P.methodNamed(ifaceType(act), "Do")
		qs, ok := r.invoke(cfg, st, act, "Do", mk("param", "do:ctx", c.ctx.Typ), c.scope(x))
		if !r.Check("called", what, call.Pos(), ok && fn != nil, "what Call returns is not known: %v", act) {
			return nil
		}
		var ends []*State
		for _, p := range qs {
			n := 0
			threw := false
			p.each(func(ev *Event, sc scope) {
				if quiet(ev) {
					n++
					if ev.Recv != userFn || ev.Name != "dyn" || len(sc.loops) > 0 || ev.G != 0 {
						n += 2
					}
					threw = threw || ev.Panics
					if s := cap[ev]; s != nil {
						c.use(rule, what, fn.Pos(), s, x, to, false)
					}
				}
			})
			r.Check("called", what, fn.Pos(), n == 1, "the user's function is not called exactly once, or something else is called")
			if threw {
				r.Check("called", what, fn.Pos(), p.Kind == "panic", "the panic of the user's function is lost")
			} else {
				r.Check("called", what, fn.Pos(), p.Kind == "ret" && len(p.Vals) == 1 && lits(p.Lits).isNil(p.Vals[0]), "it returns %v", p.Vals)
			}
			c.use("ended", what, fn.Pos(), p.St, x, nil, true)
			ends = append(ends, p.after())
		}
		return ends
	}
	f1, f2 := mk("param", "f1", icept.Params[0].Type()), mk("param", "f2", icept.Params[0].Type())

	action(base, nil, func(plain *Term, st *State) {
		// without any interceptor
		for _, e := range do("inside", "Call", st, plain, nil) {
			do("inside", "Call", e, plain, nil)
		}
		action(st, f1, func(icpt *Term, st *State) {
			// with one for the call
			for _, e := range do("inside", "Call with an interceptor", st, icpt, f1) {
				do("restored", "Call with an interceptor", e, plain, nil)
				do("inside", "Call with an interceptor", e, icpt, f1)
			}
			// with one for the test
			option(st, f2, func(o2 *Term, st *State) {
				c.eachOption(st, o2, test, tt, func(s *State) {
					c.use("outside", "InterceptCommandExecutor", icept.Pos(), s, x, nil, true)
					for _, e := range do("inside", "Call in a test with an interceptor", s, plain, f2) {
						for _, e := range do("inside", "Call with an interceptor", e, icpt, f1) {
							for _, e := range do("restored", "Call in a test with an interceptor", e, plain, f2) {
								do("inside", "Call with an interceptor", e, icpt, f1)
							}
						}
					}
				})
			})
		})
	})

	// other actions
	for _, fn := range actionMethods(r, "Do") {
		if isCallAction(r, fn) {
			continue
		}
		name := typeName(fn)
		var args []*Term
		for i, p := range fn.Params {
			if types.Identical(p.Type(), c.at) {
				args = append(args, c.scope(x))
			} else {
				args = append(args, nthParam(fn, i))
			}
		}
		cap := capture{}
		cfg := Config{Opaque: engineOpaque, Salt: "other", OnCall: cap.hook(func(ev *Event) bool {
			return quiet(ev) || isRootIface(ev, "TimeAdjustment", ev.Method)
		})}
		for _, p := range r.Run(cfg, fn, base.clone(), args...) {
			p.each(func(ev *Event, _ scope) {
				if s := cap[ev]; s != nil && quiet(ev) {
					c.use("other-actions", name, ev.Pos, s, x, nil, true)
				}
			})
			c.use("other-actions", name, fn.Pos(), p.St, x, nil, true)
		}
	}

	// tests
	for _, fn := range exportedFuncs(r, tt) {
		name := "Test." + fn.Name()
		t := nthParam(fn, 0)
		own := executorOf(newState(), t)
		for _, p := range r.Run(Config{OnCall: performed(r, capture{})}, fn, nil) {
			why := ""
			p.each(func(ev *Event, _ scope) {
				if ev.Kind == "store" && ev.Addr.contains(func(x *Term) bool { return x == own }) {
					why = "it changes " + ev.Addr.String()
				}
				if isRootIface(ev, "Action", "Do") {
					if s := actionScope(r, ev, "Executor"); s != own {
						why = "an action is given the executor " + describe(s)
					}
					if s := actionScope(r, ev, "Engine"); s == nil || root(s) == nil {
						why = "an action is not given an engine"
					}
				} else if ev.Kind == "call" && why == "" && mentions(ev, own) {
					why = "the executor is given to " + ev.Name
				}
			})
			r.Check("tests", name, fn.Pos(), why == "", "%s", why)
			if res := fn.Signature.Results(); p.Kind == "ret" && res.Len() == 1 && len(p.Vals) == 1 && types.IsInterface(res.At(0).Type()) {
				r.Check("tests", name, fn.Pos(), stripIface(p.Vals[0]) == own, "it returns %v", p.Vals[0])
			}
		}
	}

	// locks
	xs := under(c.x).(*types.Struct)
	for _, fn := range exportedFuncs(r, c.x) {
		cfg := c.cfg
		cfg.MayPanic = quiet
		cfg.OnCall = capture{}.hook(quiet)
		r.guarded("locked", "CommandExecutor."+fn.Name(), cfg, fn, nthParam(fn, 0), func(i int) bool {
			return !isMutexField(xs.Field(i).Type())
		})
		r.Check("locked", "CommandExecutor."+fn.Name(), fn.Pos(), true, "")
	}
}

// eachOption applies an option to a test that has begun.
func (c *executorCheck) eachOption(st *State, opt, test *Term, tt types.Type, f func(*State)) {
	fn := c.r.P.methodNamed(ifaceType(opt), "applyTestOption")
	if fn == nil {
		panic(giveUp{"what InterceptCommandExecutor returns is not known"})
	}
	qs, _ := c.r.invoke(Config{Salt: "apply"}, st, opt, "applyTestOption", test)
	for _, q := range only(qs, "ret") {
		f(q.after())
	}
}
