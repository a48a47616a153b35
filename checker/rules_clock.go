package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = checkC25
}

// testField is a field of Test, found by its type.
func testField(r *Report, what string, f func(types.Type) bool) (int, *types.Struct, types.Type) {
	tt := r.P.Type("", "Test")
	if tt == nil {
		panic(giveUp{"cannot find the type Test"})
	}
	i := fieldOfType(tt, f)
	if i < 0 {
		panic(giveUp{"cannot find the " + what + " of a test"})
	}
	return i, under(tt).(*types.Struct), tt
}

// testClock is the field of Test that is its clock: the one that actions are
// given.
func testClock(r *Report) (int, *types.Struct, types.Type) {
	tt := r.P.Type("", "Test")
	if tt == nil {
		panic(giveUp{"cannot find the type Test"})
	}
	fn := testMethod(r, "Prepare")
	i := -1
	for _, p := range r.Run(Config{OnCall: performed(r, capture{})}, fn, nil) {
		p.each(func(ev *Event, _ scope) {
			if !isRootIface(ev, "Action", "Do") {
				return
			}
			if c := actionScope(r, ev, "VirtualClock"); c != nil && c.Op == "faddr" && c.Args[0] == nthParam(fn, 0) {
				i = c.Idx
			}
		})
	}
	if i < 0 {
		return testField(r, "clock", isTime)
	}
	return i, under(tt).(*types.Struct), tt
}

func isTime(t types.Type) bool { return typeKey(t) == "time.Time" }

// performed makes an action change what it may change: the clock that it is
// given.
func performed(r *Report, cap capture) func(*Interp, *Frame, *State, *Event) []*CallOut {
	return func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if !isRootIface(ev, "Action", "Do") {
			return nil
		}
		cap[ev] = st.clone()
		if c := actionScope(r, ev, "VirtualClock"); c != nil {
			st.store(c, mk("hav", ev.Site, deref(c.Typ), c), deref(c.Typ))
		}
		st.emit(ev)
		return []*CallOut{{St: st, Vals: ev.Res}}
	}
}

func checkC25(r *Report) {
	r.Rule("action-time", 2, "every action is given the test's clock, and options of which the first to set a time sets the time of the clock, and precedes the options given when the test was begun")
	r.Rule("test-options", 5, "no other option that a test adds by itself sets a time")
	r.Rule("clock-kept", 7, "no method of a test changes the clock, other than by performing actions")
	r.Rule("start", 1, "the option for the start time sets the clock to it")
	r.Rule("advance", 1, "advancing time sets the clock to the adjusted time and then ticks the engine once at that time")
	r.Rule("reversal", 1, "an adjustment that would reverse the clock returns an error, without any change")
	r.Rule("actions-time", 3, "no action has the engine use a time other than the clock's")
	r.Rule("adjustments", 2, "the built-in adjustments give the time, or the clock's time plus the duration, that they were made for")

	ci, ts, tt := testClock(r)
	oi, _, _ := testField(r, "options", func(t types.Type) bool { return isSliceKey(t, modulePath+"/engine.OperationOption") })

	// actions performed by tests
	for _, name := range []string{"Expect", "Prepare"} {
		fn := testMethod(r, name)
		t := nthParam(fn, 0)
		clock := mkFaddr(t, ci, ts, tt)
		oaddr := mkFaddr(t, oi, ts, tt)
		cap := capture{}
		n := 0
		for _, p := range r.Run(Config{OnCall: performed(r, cap)}, fn, nil) {
			p.each(func(ev *Event, _ scope) {
				if !isRootIface(ev, "Action", "Do") {
					return
				}
				n++
				st := cap[ev]
				opts := scopeOptions(r, ev)
				c := actionScope(r, ev, "VirtualClock")
				if st == nil || opts == nil {
					r.Check("action-time", "Test."+name, ev.Pos, false, "the options of the action are not known")
					return
				}
				r.Check("action-time", "Test."+name, ev.Pos, c == clock, "the action is given the clock %v", c)
				now, own := st.load(clock, fieldVar(ts, ci).Type()), st.load(oaddr, fieldVar(ts, oi).Type())
				state := ""
				why := ""
				for _, pc := range elements(st, opts) {
					switch {
					case pc.elem:
						t := r.timeOption(st, pc.t)
						switch {
						case t == nil:
						case state != "":
							why = "an option that sets the time to " + t.String() + " follows the options given when the test was begun"
						case t != now:
							why = "the time is set to " + t.String()
						default:
							why = ""
							state = "set"
						}
					case pc.t == own && pc.loop == nil:
						if state != "set" {
							why = "the time is not set before the options given when the test was begun"
						}
						state = "own"
					default:
						why = "an option of the action is not known: " + pc.t.String()
					}
				}
				if why == "" && state != "own" {
					why = "the time is not set, or the options given when the test was begun are left out"
				}
				r.Check("action-time", "Test."+name, ev.Pos, why == "", "%s", why)
			})
		}
		r.Check("action-time", "Test."+name, fn.Pos(), n > 0, "no action is performed")
	}

	// a test's own options, and its clock
	for _, fn := range exportedFuncs(r, tt) {
		name := "Test." + fn.Name()
		t := nthParam(fn, 0)
		clock := mkFaddr(t, ci, ts, tt)
		oaddr := mkFaddr(t, oi, ts, tt)
		cap := capture{}
		for _, p := range r.Run(Config{OnCall: performed(r, cap)}, fn, nil) {
			why := ""
			p.each(func(ev *Event, _ scope) {
				if ev.Kind == "store" && ev.Addr == clock {
					why = "the clock is set to " + ev.Val.String()
				}
				if ev.Method == "applyTestOption" {
					why = "an option for beginning a test is applied"
				}
				if isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") {
					why = "it uses the engine directly"
				}
				if ev.Kind == "call" && !isRootIface(ev, "Action", "Do") && why == "" {
					for _, a := range ev.Args {
						if a == clock {
							why = "the address of the clock is given to " + ev.Name
						}
					}
				}
			})
			r.Check("clock-kept", name, fn.Pos(), why == "", "%s", why)
			r.ownOptions(name, fn, p, oaddr, fieldVar(ts, oi).Type())
		}
	}
	fn := need(r.P.Func("", "BeginContext"), "BeginContext")
	for _, p := range only(r.Run(Config{OnCall: keepOptions}, fn, nil), "ret") {
		r.ownOptions("BeginContext", fn, p, mkFaddr(p.Vals[0], oi, ts, tt), fieldVar(ts, oi).Type())
	}

	// the start time
	fn = need(r.P.Func("", "StartTimeAt"), "StartTimeAt")
	for _, p := range r.Run(Config{}, fn, nil) {
		if !r.Check("start", "StartTimeAt", fn.Pos(), p.Kind == "ret", "it panics") {
			continue
		}
		qs := r.applyOption(p.St, p.Vals[0], "applyTestOption")
		r.Check("start", "StartTimeAt", fn.Pos(), len(qs) > 0, "the option is not understood: %v", p.Vals[0])
		for _, q := range qs {
			t := mk("param", "", nil)
			for c := range q.St.heap {
				if x := root(c); x.Op == "param" && x.Typ != nil && types.Identical(deref(x.Typ), tt) {
					t = x
				}
			}
			got := q.St.load(mkFaddr(t, ci, ts, tt), fieldVar(ts, ci).Type())
			r.Check("start", "StartTimeAt", fn.Pos(), q.Kind == "ret" && got == nthParam(fn, 0), "the clock is set to %v", got)
		}
	}

	// actions
	at := r.P.Type("", "ActionScope")
	if at == nil {
		panic(giveUp{"cannot find the type ActionScope"})
	}
	for _, fn := range actionMethods(r, "Do") {
		name := typeName(fn)
		var s *Term
		for i, p := range fn.Params {
			if types.Identical(p.Type(), at) {
				s = nthParam(fn, i)
			}
		}
		clock, own := structField(s, at, "VirtualClock"), structField(s, at, "OperationOptions")
		if clock == nil || own == nil {
			panic(giveUp{"cannot find the clock in an ActionScope"})
		}
		before := newState().load(clock, deref(clock.Typ))
		cap := capture{}
		steps := func(ev *Event) bool { return isRootIface(ev, "TimeAdjustment", "Step") }
		cfg := Config{Opaque: engineOpaque, OnCall: cap.hook(func(ev *Event) bool {
			return isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch") || ev.Name == "dyn" || isRootIface(ev, "TimeAdjustment", ev.Method)
		})}
		adv := false
		for _, p := range r.Run(cfg, fn, nil) {
			ls := lits(p.Lits)
			var now *Term
			var ops []*Event
			stores := 0
			p.each(func(ev *Event, sc scope) {
				switch {
				case steps(ev):
					adv = true
					r.Check("advance", name, ev.Pos, now == nil && len(sc.loops) == 0 && len(ev.Args) == 1 && ev.Args[0] == before, "the clock is adjusted more than once, or from another time than its own")
					now = ev.Res[0]
				case isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch"):
					ops = append(ops, ev)
					if len(sc.loops) > 0 || ev.G != 0 {
						ops = append(ops, ev)
					}
					st := cap[ev]
					if st == nil {
						return
					}
					cur := st.load(clock, deref(clock.Typ))
					why := ""
					last := before // the time set by the scope's options is the clock's
					whole := 0
					for _, pc := range elements(st, ev.Args[len(ev.Args)-1]) {
						switch {
						case pc.elem:
							if t := r.timeOption(st, pc.t); t != nil {
								last = t
							}
						case pc.t == own && pc.loop == nil:
							whole++
							last = before
						default:
							why = "an option is not known: " + pc.t.String()
						}
					}
					if why == "" && whole != 1 {
						why = "the options of the action's scope are left out"
					}
					if why == "" && last != cur {
						why = "the engine uses the time " + last.String() + " while the clock shows " + cur.String()
					}
					r.Check("actions-time", name, ev.Pos, why == "", "%s", why)
				case ev.Kind == "store" && root(ev.Addr) == clock:
					stores++
					ok := now != nil && ev.Val == now && ls.refutes(mkGt0(linOf(before).plus(linOf(now), -1)))
					r.Check("advance", name, ev.Pos, ok, "the clock is set to %v, which may not be an adjusted time that is not earlier", ev.Val)
					r.Check("advance", name, ev.Pos, len(ops) == 0 && len(sc.loops) == 0, "the clock is set after the engine is used")
				case ev.Name == "dyn" && ev.Kind == "call":
					// a function of the user's, with the executor bound to the scope's options
					st := cap[ev]
					r.Check("actions-time", name, ev.Pos, st != nil && st.load(clock, deref(clock.Typ)) == before, "the clock is changed before the user's function is called")
				}
			})
			if now == nil {
				r.Check("advance", name, fn.Pos(), stores == 0, "the clock is changed without an adjustment")
				continue
			}
			rev := mkGt0(linOf(before).plus(linOf(now), -1))
			switch {
			case p.Kind != "ret":
				r.Check("advance", name, fn.Pos(), false, "it panics: %v", p.PVal)
			case ls.holds(rev):
				r.Check("reversal", name, fn.Pos(), stores == 0 && len(ops) == 0, "the clock or the engine is changed although time would be reversed")
				r.Check("reversal", name, fn.Pos(), len(p.Vals) == 1 && ls.notNil(p.Vals[0]), "it returns %v although time would be reversed", p.Vals)
			case ls.refutes(rev):
				ok := stores == 1 && len(ops) == 1 && isEngineOp(ops[0], "Tick")
				r.Check("advance", name, fn.Pos(), ok, "the clock is set %d times, and the engine used %d times", stores, len(ops))
				if ok {
					eng := structField(s, at, "Engine")
					r.Check("advance", name, ops[0].Pos, ops[0].Recv == eng, "another engine is ticked")
					r.Check("advance", name, fn.Pos(), sameErr(ls, p.Vals[0], ops[0].Res[0]), "the tick's error is not returned, but %v", p.Vals[0])
					r.Check("advance", name, fn.Pos(), p.St.load(clock, deref(clock.Typ)) == now, "the clock ends at another time")
				}
			default:
				r.Check("reversal", name, fn.Pos(), false, "it is not considered whether time would be reversed")
			}
		}
		_ = adv
	}

	// adjustments
	for _, name := range []string{"ToTime", "ByDuration"} {
		fn := need(r.P.Func("", name), name)
		x := nthParam(fn, 0)
		for _, p := range only(r.Run(Config{}, fn, nil), "ret") {
			from := mk("param", "before", r.timeType())
			qs, ok := r.invoke(Config{}, p.after(), p.Vals[0], "Step", from)
			r.Check("adjustments", name, fn.Pos(), ok, "what it returns is not known: %v", p.Vals)
			want := linOf(x)
			if name == "ByDuration" {
				want = want.plus(linOf(from), 1)
			}
			for _, q := range qs {
				ok := q.Kind == "ret" && len(q.Vals) == 1
				if ok {
					d := linOf(q.Vals[0]).plus(want, -1)
					ok = d.c == 0 && len(d.m) == 0
				}
				r.Check("adjustments", name, fn.Pos(), ok, "the clock is adjusted to %v", q.Vals)
			}
		}
	}
}

// ownOptions checks that no option that a path adds to a test's own sets a
// time.
func (r *Report) ownOptions(name string, fn *ssa.Function, p *Path, addr *Term, typ types.Type) {
	got := p.St.load(addr, typ)
	why := ""
	var visit func(ps []piece)
	visit = func(ps []piece) {
		for _, pc := range ps {
			if pc.elem {
				if t := r.timeOption(p.St, pc.t); t != nil {
					why = "an option sets the time to " + t.String()
				}
			}
			for _, a := range pc.alts {
				visit(a)
			}
		}
	}
	visit(flatten(got, loopVarsIn(p.Events)))
	r.Check("test-options", name, fn.Pos(), why == "", "%s", why)
}

func (r *Report) timeType() types.Type {
	i, s, _ := testClock(r)
	return s.Field(i).Type()
}

// exportedFuncs are the exported methods of a type and its pointer.
func exportedFuncs(r *Report, t types.Type) []*ssa.Function {
	var fns []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if !s.Obj().Exported() {
			continue
		}
		if fn := r.P.methodValue(s); fn != nil && fn.Blocks != nil && fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	return fns
}
