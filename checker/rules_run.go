package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C33"] = checkC33
	checks["C34"] = checkC34
}

// A capture remembers the states in which selected calls were made.
type capture map[*Event]*State

// hook keeps the calls that match as events without any other effect.
func (c capture) hook(match func(ev *Event) bool) func(*Interp, *Frame, *State, *Event) []*CallOut {
	return func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if !match(ev) {
			return nil
		}
		c[ev] = st.clone()
		var outs []*CallOut
		if it.Cfg.MayPanic != nil && st.g == 0 && it.Cfg.MayPanic(ev) {
			p := st.clone()
			pe := *ev
			pe.Panics = true
			p.emit(&pe)
			c[&pe] = c[ev]
			outs = append(outs, &CallOut{St: p, PVal: mk("upanic", ev.Site, nil)})
		}
		st.emit(ev)
		return append([]*CallOut{{St: st, Vals: ev.Res}}, outs...)
	}
}

// elements is what a slice consists of in some state, taking assignments to
// its elements into account.
func elements(st *State, s *Term) []piece {
	ps := flatten(s, nil)
	for i := range ps {
		if !ps[i].elem {
			break
		}
		if v, ok := st.heap[mkIaddr(s, mkInt(int64(i)), nil)]; ok {
			ps[i].t = v
		}
	}
	for c, v := range st.heap {
		if c.Op != "iaddr" || c.Args[0] != s {
			continue
		}
		n, ok := constInt(c.Args[1])
		if !ok || n < 0 || int(n) >= len(ps) {
			ps = append(ps, piece{t: mk("hav", "elements", nil)})
			continue
		}
		for i := 0; i <= int(n); i++ {
			if !ps[i].elem {
				ps = append(ps, piece{t: mk("hav", "elements", nil)})
				break
			}
		}
		if ps[n].elem {
			ps[n].t = v
		}
	}
	return ps
}

func isEngineOp(ev *Event, name string) bool {
	return ev.Kind == "call" && ev.Callee != nil && ev.Method == name && strings.HasSuffix(ev.Name, "engine.Engine)."+name)
}

func engineOpaque(fn *ssa.Function) bool {
	n := fn.String()
	return strings.HasSuffix(n, "/engine.Engine).Tick") || strings.HasSuffix(n, "/engine.Engine).Dispatch")
}

// timeOption is the time that an option sets as the engine's time, or nil.
func (r *Report) timeOption(st *State, opt *Term) *Term {
	oo := optionsType(r)
	os := under(oo).(*types.Struct)
	ti := fieldOfType(oo, func(t types.Type) bool { return typeKey(t) == "time.Time" })
	if ti < 0 {
		panic(giveUp{"cannot find the time of an operation"})
	}
	qs := r.applyOption(st, opt, "applyOperationOption")
	var got *Term
	for i, q := range qs {
		v := (*Term)(nil)
		for c, x := range q.St.heap {
			if c.Op == "faddr" && c.Args[0].Op == "param" && types.Identical(deref(c.Args[0].Typ), oo) && c == mkFaddr(c.Args[0], ti, os, oo) {
				v = x
			}
		}
		if i > 0 && v != got {
			return nil
		}
		got = v
	}
	return got
}

func checkC33(r *Report) {
	r.Rule("ticks", 2, "the run loop ticks the engine once and sleeps once, in turn")
	r.Rule("time", 2, "every tick is given the start time plus the scaled time elapsed, as an option that precedes the caller's options")
	r.Rule("interval", 2, "the sleep is for the given interval, or the default")
	r.Rule("result", 2, "the loop returns exactly the error of the first tick or sleep that fails")
	def, ok := constByName(r.P, "engine", "DefaultTickInterval")
	if !ok {
		panic(giveUp{"cannot find engine.DefaultTickInterval"})
	}
	for _, name := range []string{"RunTimeScaled", "Run"} {
		fn := need(r.P.Func("engine", name), "engine."+name)
		cap := capture{}
		cfg := Config{Opaque: engineOpaque, OnCall: cap.hook(func(ev *Event) bool { return isEngineOp(ev, "Tick") })}
		params := map[string]*Term{}
		for i, p := range fn.Params {
			params[typeKey(p.Type())] = nthParam(fn, i)
		}
		ctx, d, f, t := params["context.Context"], params["time.Duration"], params["float64"], params["time.Time"]
		opts := nthParam(fn, len(fn.Params)-1)
		e := params["*"+modulePath+"/engine.Engine"]
		if ctx == nil || d == nil || e == nil {
			panic(giveUp{"the parameters of engine." + name + " are not as expected"})
		}
		what := "engine." + name
		for _, p := range r.Run(cfg, fn, nil) {
			// turns
			var last *Event
			isSleep := func(ev *Event) bool {
				return ev.Kind == "call" && (strings.Contains(ev.Name, "linger.Sleep") || ev.Name == "time.Sleep")
			}
			a := &automaton{
				step: func(s string, ev *Event, sc scope) (string, string) {
					switch {
					case isEngineOp(ev, "Tick"):
						if s == "s" {
							return s, "ticks twice without sleeping"
						}
						return "s", ""
					case isEngineOp(ev, "Dispatch"):
						return s, "a message is dispatched"
					case isSleep(ev):
						if s == "t" {
							return s, "sleeps without having ticked"
						}
						return "t", ""
					}
					return s, ""
				},
				fail: func(s string, ev *Event, sc scope, why string) {
					r.Check("ticks", what, ev.Pos, false, "%s", why)
				},
			}
			a.run([]string{"t"}, p.Events, scope{lits: p.Lits})
			r.Check("ticks", what, fn.Pos(), p.Kind == "ret", "the loop panics")
			start := startTime(p.Events)
			p.each(func(ev *Event, sc scope) {
				switch {
				case isEngineOp(ev, "Tick"):
					if len(sc.loops) == 0 {
						last = ev
					}
					r.Check("ticks", what, ev.Pos, ev.Recv == e && len(ev.Args) > 0 && ev.Args[0] == ctx, "another engine is ticked, or with another context")
					st := cap[ev]
					if st == nil || len(ev.Args) < 2 {
						return
					}
					ps := elements(st, ev.Args[1])
					ok := len(ps) > 0 && ps[0].elem
					var now *Term
					if ok {
						now = r.timeOption(st, ps[0].t)
					}
					if !r.Check("time", what, ev.Pos, now != nil, "the first option given to the tick does not set its time: %s", piecesString(ps)) {
						return
					}
					rest := ps[1:]
					r.Check("time", what, ev.Pos, len(rest) == 1 && !rest[0].elem && rest[0].t == opts, "the options that follow are not the caller's: %s", piecesString(rest))
					// now = base + scaled(elapsed)
					base := t
					zero := t == nil || sc.lits.holds(mkEq0(linOf(t).plus(linOf(zeroTerm(t.Typ)), -1)))
					if zero {
						base = start
					} else if !sc.lits.refutes(mkEq0(linOf(t).plus(linOf(zeroTerm(t.Typ)), -1))) {
						base = nil
					}
					good := base != nil && start != nil
					if good {
						diff := linOf(now).plus(linOf(base), -1)
						good = r.isScaled(p, ev, sc, diff, start, f)
					}
					r.Check("time", what, ev.Pos, good, "the time of the tick is %v", now)
				case isSleep(ev):
					if len(sc.loops) == 0 {
						last = ev
					}
					ok := strings.HasSuffix(ev.Name, "linger.Sleep") && len(ev.Args) == 2 && ev.Args[0] == ctx
					var got []piece
					if ok {
						got = flatten(ev.Args[1], nil)
						zero := sc.lits.holds(mkEq0(linOf(d)))
						pos := sc.lits.holds(mkGt0(linOf(d)))
						nz := pos || sc.lits.refutes(mkEq0(linOf(d)))
						first := func(i int, x *Term) bool { return i < len(got) && got[i].elem && got[i].t == x }
						isDef := func(i int) bool {
							if i >= len(got) || !got[i].elem {
								return false
							}
							n, ok := constInt(got[i].t)
							return ok && n == def && n > 0
						}
						switch {
						case first(0, d) && isDef(1):
						case first(0, d) && nz:
						case isDef(0) && (zero || sc.lits.refutes(mkGt0(linOf(d)))):
						default:
							ok = false
						}
					}
					r.Check("interval", what, ev.Pos, ok, "it sleeps for %s", piecesString(got))
				case ev.Kind == "loop":
				}
			})
			// iterations continue only if neither failed
			p.each(func(ev *Event, sc scope) {
				if ev.Kind == "call" && len(sc.loops) > 0 && len(ev.Res) > 0 && (isEngineOp(ev, "Tick") || isSleep(ev)) {
					r.Check("result", what, ev.Pos, sc.lits.isNil(ev.Res[0]), "the loop continues although this may have failed")
				}
			})
			if p.Kind == "ret" {
				ok := last != nil && len(p.Vals) == 1 && len(last.Res) == 1 && p.Vals[0] == last.Res[0] && lits(p.Lits).notNil(last.Res[0])
				r.Check("result", what, fn.Pos(), ok, "it returns %v", p.Vals)
			}
		}
	}
}

// startTime is the first reading of the clock.
func startTime(evs []*Event) *Term {
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Name == "time.Now" {
			return ev.Res[0]
		}
		if ev.Kind == "loop" {
			return nil
		}
	}
	return nil
}

// isScaled reports whether d is the time elapsed since start, as read since
// the last tick, multiplied by f (nil: 1).
func (r *Report) isScaled(p *Path, tick *Event, sc scope, d lin, start, f *Term) bool {
	isElapsed := func(t *Term) bool {
		l := linOf(t).plus(linOf(start), 1)
		if l.c != 0 || len(l.m) != 1 {
			return false
		}
		for x, n := range l.m {
			if n != 1 || !clockReading(p, tick, sc, x) {
				return false
			}
		}
		return true
	}
	one := func(t *Term) bool {
		return t.Op == "const" && t.Const.ExactString() == "1"
	}
	if f == nil && isElapsed(d.term(nil)) {
		return true
	}
	if d.c != 0 || len(d.m) != 1 {
		return false
	}
	for x, n := range d.m {
		if n != 1 {
			return false
		}
		// linger.Multiply(elapsed, f)
		found := false
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && len(ev.Res) == 1 && ev.Res[0] == x && strings.HasSuffix(ev.Name, "linger.Multiply") && len(ev.Args) == 2 {
				found = isElapsed(ev.Args[0]) && (f != nil && ev.Args[1] == f || f == nil && one(ev.Args[1]))
			}
		})
		if found {
			return true
		}
		// time.Duration(float64(elapsed) * f)
		if x.Op == "conv" && x.Args[0].Op == "bin" && x.Args[0].Aux == "*" {
			a, b := x.Args[0].Args[0], x.Args[0].Args[1]
			if b.Op == "conv" {
				a, b = b, a
			}
			if a.Op == "conv" && isElapsed(a.Args[0]) && (f != nil && b == f || f == nil && one(b)) {
				return true
			}
		}
	}
	return false
}

// clockReading reports whether t is a reading of the clock made in the same
// iteration as a tick (or after all iterations).
func clockReading(p *Path, tick *Event, sc scope, t *Term) bool {
	evs := p.Events
	if n := len(sc.iters); n > 0 {
		evs = sc.iters[n-1].Events
	}
	for _, ev := range evs {
		if ev == tick {
			break
		}
		if ev.Kind == "call" && ev.Name == "time.Now" && ev.Res[0] == t {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C34

// appendBase is the slice that a slice is ultimately appended to.
func appendBase(t *Term) *Term {
	for t.Op == "append" || t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

// ownSlice reports whether appending to a slice cannot affect a slice that
// exists elsewhere.
func ownSlice(t *Term, done map[*Term]*Loop) bool {
	b := appendBase(t)
	switch b.Op {
	case "nil", "seq", "clone", "made", "zero":
		return true
	case "mu":
		if l := done[b]; l != nil {
			ok := ownSlice(l.Init[b], done)
			for _, x := range l.Iters {
				n := x.Next[b]
				ok = ok && n != nil && (appendBase(n) == b || ownSlice(n, nil))
			}
			return ok
		}
	}
	return false
}

func checkC34(r *Report) {
	r.Rule("fresh", 2, "every operation starts from settings that it has just made: no map or list is shared with anything else")
	r.Rule("own-options", 2, "every option given to the operation, and no other, is applied to the settings of the operation, once and in order")
	r.Rule("options-confined", 7, "applying an option changes nothing but the settings it is applied to")
	r.Rule("not-kept", 6, "nothing keeps the settings or observers of an operation after it ends")
	r.Rule("action-options", 2, "a test gives every action a list of options that shares no memory with the test's own list, which the action does not change")
	r.Rule("caller-options", 3, "a slice of options given by the caller is neither modified nor appended to")
	oo := optionsType(r)
	os := under(oo).(*types.Struct)
	m := findEngine(r.P)

	// the engine's operations
	for name, fn := range map[string]*ssa.Function{"Engine.Dispatch": m.dispatch, "Engine.Tick": m.tick} {
		cap := capture{}
		isApply := func(ev *Event) bool { return ev.Method == "applyOperationOption" && len(ev.Args) == 2 }
		cfg := Config{Clips: true, OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
			if isApply(ev) {
				cap[ev] = st.clone()
			}
			return nil
		}}
		var options *Term
		for i, p := range fn.Params {
			if s, ok := under(p.Type()).(*types.Slice); ok && typeKey(s.Elem()) == modulePath+"/engine.OperationOption" {
				options = nthParam(fn, i)
			}
		}
		if options == nil {
			panic(giveUp{"cannot find the options of " + name})
		}
		for _, p := range r.Run(cfg, fn, nil) {
			var obj *Term
			var first *State
			p.each(func(ev *Event, sc scope) {
				if isApply(ev) && obj == nil {
					obj, first = ev.Args[1], cap[ev]
				}
			})
			if obj == nil {
				if p.Kind == "ret" {
					r.Check("own-options", name, fn.Pos(), lits(p.Lits).holds(mkEq0(linOf(mkLen(options)))), "options are not applied")
				}
				continue
			}
			r.Check("fresh", name, fn.Pos(), obj.Op == "obj" && first != nil && first.objs[obj], "the settings are %v, which this operation did not make", obj)
			if obj.Op == "obj" && first != nil {
				// the contents before the first option is applied
				init := map[*Term]*Term{}
				for mu, l := range loopVarsIn(p.Events) {
					init[mu] = l.Init[mu]
				}
				for i := 0; i < os.NumFields(); i++ {
					v := first.load(mkFaddr(obj, i, os, oo), os.Field(i).Type())
					if x := init[v]; x != nil {
						v = x
					}
					ok := true
					switch under(os.Field(i).Type()).(type) {
					case *types.Map, *types.Pointer:
						ok = v.Op == "nil" || v.Op == "obj" && first.objs[v]
						for c, x := range first.heap {
							if x == v && v.Op == "obj" && root(c).Op != "obj" {
								ok = false
							}
						}
					case *types.Slice:
						ok = ownSlice(v, loopVarsIn(p.Events))
					}
					r.Check("fresh", name, fn.Pos(), ok, "%s starts as %v, which is shared", os.Field(i).Name(), v)
				}
			}
			why := eachOnce(p, options, isApply, func(ev *Event) *Term { return ev.Recv }, true)
			p.each(func(ev *Event, _ scope) {
				if isApply(ev) && ev.Args[1] != obj {
					why = "options are applied to different settings"
				}
			})
			r.Check("own-options", name, fn.Pos(), why == "", "%s", why)
			// nothing keeps them
			parts := map[*Term]bool{obj: true}
			for i := 0; i < os.NumFields(); i++ {
				v := p.St.load(mkFaddr(obj, i, os, oo), os.Field(i).Type())
				switch under(os.Field(i).Type()).(type) {
				case *types.Map, *types.Slice:
					if v.Op != "nil" {
						parts[v] = true
					}
				}
			}
			bad := ""
			for c, v := range p.St.heap {
				ro := root(c)
				if ro.Op == "obj" {
					continue
				}
				if v.contains(func(x *Term) bool { return parts[x] }) {
					bad = c.String() + " becomes " + v.String()
				}
			}
			r.Check("not-kept", name, fn.Pos(), bad == "", "%s", bad)
		}
	}
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		hs, _ := k.run(r, false)
		ts, _ := k.runTick(r, false)
		bad := ""
		for _, p := range append(hs, ts...) {
			for c, v := range p.St.heap {
				if root(c).Op != "obj" && v.contains(func(x *Term) bool { return x == k.obs }) {
					bad = c.String() + " becomes " + v.String()
				}
			}
		}
		r.Check("not-kept", kind+".Controller", k.handle.Pos(), bad == "", "%s", bad)
	}

	// options
	for _, fn := range optionFuncs(r, "engine", "OperationOption") {
		name := "engine." + fn.Name()
		for _, p := range r.Run(Config{}, fn, nil) {
			if p.Kind != "ret" {
				continue
			}
			qs := r.applyOption(p.St, p.Vals[0], "applyOperationOption")
			r.Check("options-confined", name, fn.Pos(), len(qs) > 0, "the option is not understood: %v", p.Vals[0])
			for _, q := range qs {
				var opts *Term
				bad := ""
				isOpts := func(t *Term) bool {
					return t.Op == "param" && t.Typ != nil && types.Identical(deref(t.Typ), oo)
				}
				q.each(func(ev *Event, _ scope) {
					switch ev.Kind {
					case "store":
						ro := root(ev.Addr)
						if isOpts(ro) {
							opts = ro
							return
						}
						if ro.Op != "obj" || p.St.objs[ro] {
							bad = "it writes " + ev.Addr.String()
						}
					case "mapset", "mapdel":
						x := ev.Recv
						if x.Op == "ld" && isOpts(root(x.Args[0])) || x.Op == "obj" && !p.St.objs[x] {
							return
						}
						bad = "it changes " + x.String()
					}
				})
				_ = opts
				// the memory that it stores is its own
				for c, v := range q.St.heap {
					if c.Op != "faddr" || !isOpts(root(c)) {
						continue
					}
					if _, ok := under(v.Typ).(*types.Slice); ok {
						b := appendBase(v)
						if !(b.Op == "ld" && b.Args[0] == c) && !ownSlice(v, nil) {
							bad = c.String() + " becomes " + v.String()
						}
					}
					if _, ok := under(v.Typ).(*types.Map); ok && v.Op == "obj" && p.St.objs[v] {
						bad = c.String() + " becomes a map that belongs to the option"
					}
				}
				r.Check("options-confined", name, fn.Pos(), bad == "", "%s", bad)
			}
		}
	}

	// tests
	tt := r.P.Type("", "Test")
	if tt == nil {
		panic(giveUp{"cannot find the type Test"})
	}
	ts := under(tt).(*types.Struct)
	ti := fieldOfType(tt, func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		return ok && typeKey(s.Elem()) == modulePath+"/engine.OperationOption"
	})
	if ti < 0 {
		panic(giveUp{"cannot find the options of a test"})
	}
	for _, name := range []string{"Expect", "Prepare"} {
		fn := need(r.P.MethodOf(tt, name), "Test."+name)
		t := nthParam(fn, 0)
		own := mkLoad(mkFaddr(t, ti, ts, tt), fieldVar(ts, ti).Type())
		n := 0
		for _, p := range r.Run(Config{Clips: true}, fn, nil) {
			p.each(func(ev *Event, _ scope) {
				if ev.Method == "Do" && ev.Kind == "call" {
					o := scopeOptions(r, ev)
					if o == nil {
						r.Check("action-options", "Test."+name, ev.Pos, false, "the action is not given any options")
						return
					}
					n++
					r.Check("action-options", "Test."+name, ev.Pos, ownSlice(o, nil), "the action is given %v, which may share the memory of another list", o)
				}
				if ev.Kind == "store" && ev.Addr.Op == "iaddr" && !ownSlice(ev.Addr.Args[0], nil) && ev.Addr.Args[0].contains(func(x *Term) bool { return x == own }) {
					r.Check("action-options", "Test."+name, ev.Pos, false, "an element of the test's own options is overwritten")
				}
			})
			got := p.St.load(mkFaddr(t, ti, ts, tt), fieldVar(ts, ti).Type())
			r.Check("action-options", "Test."+name, fn.Pos(), got == own, "the test's own options become %v", got)
		}
		r.Check("action-options", "Test."+name, fn.Pos(), n > 0, "no action is performed")
	}

	// callers' slices
	cx := r.P.Type("engine", "CommandExecutor")
	for _, x := range []struct {
		name string
		fn   *ssa.Function
	}{
		{"engine.Run", r.P.Func("engine", "Run")},
		{"engine.RunTimeScaled", r.P.Func("engine", "RunTimeScaled")},
		{"engine.CommandExecutor.ExecuteCommand", r.P.MethodOf(cx, "ExecuteCommand")},
		{"Engine.Dispatch", m.dispatch},
		{"Engine.Tick", m.tick},
	} {
		fn := need(x.fn, x.name)
		for _, p := range r.Run(Config{Clips: true, Opaque: engineOpaque}, fn, nil) {
			bad := ""
			theirs := func(t *Term) bool {
				s, ok := under(t.Typ).(*types.Slice)
				if !ok || typeKey(s.Elem()) != modulePath+"/engine.OperationOption" {
					return false
				}
				return t.Op == "param" || t.Op == "ld"
			}
			p.each(func(ev *Event, _ scope) {
				if ev.Kind == "store" && ev.Addr.Op == "iaddr" && ev.Addr.Args[0].Typ != nil && theirs(appendBase(ev.Addr.Args[0])) {
					bad = "an element of the caller's options is overwritten"
				}
				if ev.Kind == "call" && (isEngineOp(ev, "Tick") || isEngineOp(ev, "Dispatch")) && len(ev.Args) > 0 {
					o := ev.Args[len(ev.Args)-1]
					if b := appendBase(o); b != o && b.Typ != nil && theirs(b) {
						bad = "options are appended to the caller's slice"
					}
				}
			})
			r.Check("caller-options", x.name, fn.Pos(), bad == "", "%s", bad)
		}
	}
}

// optionFuncs are the exported functions of a package that make options.
func optionFuncs(r *Report, rel, typ string) []*ssa.Function {
	t := r.P.Type(rel, typ)
	q := r.P.pkg(rel)
	var fns []*ssa.Function
	if t == nil || q == nil {
		return nil
	}
	sc := q.Pkg.Scope()
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		res := f.Type().(*types.Signature).Results()
		if res.Len() != 1 || !types.Identical(res.At(0).Type(), t) {
			continue
		}
		if fn := r.P.SSA.FuncValue(f); fn != nil && fn.Blocks != nil {
			fns = append(fns, fn)
		}
	}
	return fns
}

// scopeOptions are the options in the scope that an action is given.
func scopeOptions(r *Report, ev *Event) *Term {
	return actionScope(r, ev, "OperationOptions")
}

// actionScope is a field of the scope that an action is given.
func actionScope(r *Report, ev *Event, field string) *Term {
	at := r.P.Type("", "ActionScope")
	if at == nil {
		panic(giveUp{"cannot find the type ActionScope"})
	}
	for _, a := range ev.Args {
		if a.Typ != nil && types.Identical(a.Typ, at) || a.Op == "struct" && a.Typ != nil && typeKey(a.Typ) == typeKey(at) {
			return structField(a, at, field)
		}
	}
	return nil
}
