package main

import (
	"go/token"
	"go/types"
)

func init() {
	checks["C14"] = checkC14
	checks["C15"] = checkC15
}

// ---------------------------------------------------------------------------
// C14

// projectionStep is a call that is part of handling an event.
func isProjectionStep(ev *Event) bool {
	return isUserMethod(ev, "ResourceVersion", "HandleEvent", "CloseResource", "DeleteResource")
}

func checkC14(r *Report) {
	r.Rule("order", 1, "the version of the event's resource is asked for first, and the event is handled only if that succeeds and the version is empty")
	r.Rule("arguments", 1, "all steps refer to the same resource, the current version given is empty and the next version is not")
	r.Rule("close", 1, "the resource is closed exactly when the event was applied without error")
	r.Rule("errors", 1, "the error of any step is returned and nothing is done after it")
	k := findCtrl(r, "projection")
	where := "projection controller"
	pos := k.handle.Pos()
	ps, _ := k.run(r, false)
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		var steps []*Event
		p.each(func(ev *Event, sc scope) {
			if !isProjectionStep(ev) {
				return
			}
			steps = append(steps, ev)
			if len(sc.loops) > 0 {
				r.Check("order", where, ev.Pos, false, "%s is called by a loop", ev.Method)
			}
			r.Check("order", where, ev.Pos, ev.G == 0, "%s is called by another goroutine", ev.Method)
			r.Check("arguments", where, ev.Pos, k.isHandler(ev.Recv), "%s is called on %v instead of the handler", ev.Method, ev.Recv)
		})
		if !r.Check("order", where, pos, len(steps) > 0 && steps[0].Method == "ResourceVersion", "an event is handled without asking for the version of its resource first") {
			continue
		}
		rv := steps[0]
		res := bytesArg(rv, 0)
		r.Check("arguments", where, rv.Pos, res != nil && identifies(res, k.envField("MessageID")), "the resource is %v, which does not identify the event's message", res)
		set := flattenErr(p.Vals[1], loopVarsIn(p.Events))
		returned := func(ev *Event) {
			e := callErr(ev)
			ok := ls.isNil(e)
			for _, x := range set.leaves {
				ok = ok || covers(x, e)
			}
			r.Check("errors", where, ev.Pos, ok, "the error of %s is not returned", ev.Method)
		}
		for _, ev := range steps {
			returned(ev)
		}
		for i, ev := range steps {
			if i+1 < len(steps) {
				r.Check("errors", where, steps[i+1].Pos, ls.isNil(callErr(ev)), "%s is called although %s may have failed", steps[i+1].Method, ev.Method)
			}
		}
		empty, known := ls.decide(mkEq0(linOf(mkLen(rv.Res[0]))))
		rest := steps[1:]
		if !ls.isNil(callErr(rv)) || known && !empty {
			r.Check("order", where, pos, len(rest) == 0, "%v is called although the version is not empty or could not be determined", methodsOf(rest))
			continue
		}
		if !r.Check("order", where, pos, known, "the event is handled or ignored without regard to the version of its resource") {
			continue
		}
		if !r.Check("order", where, pos, len(rest) > 0 && rest[0].Method == "HandleEvent", "%v is called instead of HandleEvent", methodsOf(rest)) {
			continue
		}
		h := rest[0]
		r.Check("arguments", where, h.Pos, takesMessage(h) == k.msg(), "HandleEvent is given %v instead of the message in the envelope", takesMessage(h))
		r.Check("arguments", where, h.Pos, bytesArg(h, 0) == res, "HandleEvent is given the resource %v instead of %v", bytesArg(h, 0), res)
		r.Check("arguments", where, h.Pos, ls.holds(mkEq0(linOf(mkLen(bytesArg(h, 1))))), "the current version %v may not be empty", bytesArg(h, 1))
		r.Check("arguments", where, h.Pos, ls.refutes(mkEq0(linOf(mkLen(bytesArg(h, 2))))), "the next version %v may be empty", bytesArg(h, 2))
		applied, ak := ls.decide(h.Res[0])
		rest = rest[1:]
		switch {
		case !ls.isNil(callErr(h)) || ak && !applied:
			r.Check("close", where, pos, len(rest) == 0, "%v is called although the event was not applied", methodsOf(rest))
		case !ak:
			r.Check("close", where, pos, false, "whether the event was applied makes no difference to closing its resource")
		default:
			if r.Check("close", where, pos, len(rest) == 1 && rest[0].Method == "CloseResource", "%v is called instead of CloseResource after the event was applied", methodsOf(rest)) {
				r.Check("close", where, rest[0].Pos, bytesArg(rest[0], 0) == res, "the resource closed is %v instead of %v", bytesArg(rest[0], 0), res)
			}
		}
	}
}

func methodsOf(evs []*Event) []string {
	r := []string{}
	for _, ev := range evs {
		r = append(r, ev.Method)
	}
	return r
}

// bytesArg is the n-th argument of a call that is a byte slice.
func bytesArg(ev *Event, n int) *Term {
	sig := ev.MFunc.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len() && i < len(ev.Args); i++ {
		if typeKey(sig.Params().At(i).Type()) == "[]byte" {
			if n == 0 {
				return ev.Args[i]
			}
			n--
		}
	}
	return nil
}

// identifies reports whether different values of id give different values of t.
func identifies(t, id *Term) bool {
	for t.Op == "conv" || t.Op == "clone" {
		t = t.Args[0]
	}
	if t.Op == "append" && (t.Args[0].Op == "nil" || t.Args[0].Op == "seq") {
		return identifies(t.Args[1], id)
	}
	return t == id || isInjective(t, id)
}

// ---------------------------------------------------------------------------
// C15

func checkC15(r *Report) {
	r.Rule("interval", 1, "a tick compacts exactly when the interval has passed since the last tick that did so, and remembers that it did")
	r.Rule("bracketed", 2, "a compaction is announced by one begun and one completed fact, which carries its error")
	r.Rule("error", 2, "the error of a compaction is returned unless handling failed")
	r.Rule("joined", 1, "a compaction alongside handling has finished before the operation returns or is announced as completed")
	r.Rule("enabled", 3, "projections are compacted alongside handling exactly if the engine is made with that option")
	r.Rule("one-goroutine", 1, "facts are announced from the goroutine that called the engine")
	k := findCtrl(r, "projection")
	k.checkCompactTick(r)
	k.checkCompactHandle(r)
	k.checkCompactionEnabled(r)
}

func (k *ctrl) checkCompactTick(r *Report) {
	where := "projection controller: Tick"
	pos := k.tick.Pos()
	ps, _ := k.runTick(r, false)
	last := k.stateField("last")
	init := k.initField(last)
	interval := int64(3600e9)
	if v, ok := constByName(r.P, "engine/internal/projection", "CompactInterval"); ok {
		interval = v
	}
	due := mkGt0(linOf(k.now).plus(linOf(init), -1).plus(lin{c: 1}, 1-interval))
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		n := k.checkBracket(r, where, p)
		isDue, known := ls.decide(due)
		never := ls.holds(mkEq0(linOf(init).plus(linOf(zeroTerm(init.Typ)), -1)))
		if never {
			isDue, known = true, true
		}
		final := p.St.load(k.fieldAt(last), k.fields[last].Type())
		switch {
		case n == 0 && known && !isDue:
			r.Check("interval", where, pos, final == init, "a tick that does not compact changes the time of the last compaction to %v", final)
		case n == 1 && known && isDue:
			r.Check("interval", where, pos, final == k.now, "after a compaction the time of the last one is %v instead of the engine time", final)
		case n == 0:
			r.Check("interval", where, pos, false, "a tick does not compact although the interval may have passed")
		default:
			r.Check("interval", where, pos, false, "a tick compacts although the interval may not have passed")
		}
		k.checkCompactErr(r, where, p)
	}
}

// checkBracket checks the facts about compaction on a path and counts the
// compactions.
func (k *ctrl) checkBracket(r *Report, where string, p *Path) int {
	pos := p.pos(k)
	n := 0
	state := "idle"
	var call *Event
	p.each(func(ev *Event, sc scope) {
		name := ""
		switch {
		case isUserMethod(ev, "Compact"):
			name, call = "compact", ev
			n++
			r.Check("bracketed", where, ev.Pos, k.isHandler(ev.Recv), "%v is compacted instead of the handler", ev.Recv)
		case ev.Kind == "notify" && factName(ev) == "ProjectionCompactionBegun":
			name = "begun"
		case ev.Kind == "notify" && factName(ev) == "ProjectionCompactionCompleted":
			name = "completed"
		default:
			return
		}
		if len(sc.loops) > 0 {
			r.Check("bracketed", where, ev.Pos, false, "compaction takes place in a loop")
		}
		if name != "compact" {
			r.Check("bracketed", where, ev.Pos, ev.Recv == k.obs, "the fact is announced to %v instead of the observer", ev.Recv)
			r.Check("bracketed", where, ev.Pos, factField(ev, "Handler") == k.initConfig(), "the fact is about %v", factField(ev, "Handler"))
		}
		next := map[string]string{"idle begun": "begun", "begun compact": "compact", "compact completed": "done"}[state+" "+name]
		r.Check("bracketed", where, ev.Pos, next != "", "a compaction is announced out of order")
		state = next
		if name == "completed" && call != nil {
			e := factField(ev, "Error")
			ok := e == callErr(call) || e != nil && e.Op == "nil" && lits(p.Lits).isNil(callErr(call))
			r.Check("bracketed", where, ev.Pos, ok, "the fact carries the error %v instead of that of the compaction", e)
		}
	})
	r.Check("bracketed", where, pos, state == "idle" || state == "done", "a compaction that has begun is not announced as completed")
	return n
}

func (p *Path) pos(k *ctrl) token.Pos {
	if q := posOf(p.Events); q.IsValid() {
		return q
	}
	return k.handle.Pos()
}

// initConfig is the configuration held by the controller.
func (k *ctrl) initConfig() *Term {
	for i := 0; i < len(k.fields); i++ {
		if n, ok := types.Unalias(k.fields[i].Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/dogmatiq/configkit" {
			return k.initField(i)
		}
	}
	panic(giveUp{"cannot identify the configuration of the " + k.kind + " controller"})
}

func (k *ctrl) checkCompactErr(r *Report, where string, p *Path) {
	ls := lits(p.Lits)
	set := flattenErr(p.Vals[1], loopVarsIn(p.Events))
	failed := false
	var comp *Event
	p.each(func(ev *Event, _ scope) {
		if isUserMethod(ev, "Compact") {
			comp = ev
		} else if isUserCall(ev) && callErr(ev) != nil && ls.notNil(callErr(ev)) {
			failed = true
		}
	})
	if comp == nil {
		return
	}
	e := callErr(comp)
	ok := failed || ls.isNil(e)
	for _, x := range set.leaves {
		ok = ok || covers(x, e)
	}
	r.Check("error", where, comp.Pos, ok, "the error of a compaction is not returned although nothing else failed")
}

func (k *ctrl) checkCompactHandle(r *Report) {
	where := "projection controller: Handle"
	pos := k.handle.Pos()
	ps, _ := k.run(r, false)
	flag := k.initField(k.stateField("concurrent"))
	for _, p := range ps {
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "notify" && ev.Recv == k.obs {
				r.Check("one-goroutine", where, ev.Pos, ev.G == 0, "%s is announced from another goroutine", factName(ev))
			}
		})
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		d := k.changed(p.St)
		r.Check("interval", where, pos, d == "", "handling an event changes the schedule of compaction: %s", d)
		n := k.checkBracket(r, where, p)
		on, known := ls.decide(flag)
		_, handled := k.handling(p.Events)
		if n > 0 {
			r.Check("bracketed", where, pos, known && on, "a compaction is begun alongside handling without the option that enables it")
		} else if handled > 0 {
			r.Check("bracketed", where, pos, known && !on, "no compaction is begun although the option is enabled")
		}
		k.checkCompactErr(r, where, p)
		k.checkJoined(r, where, p, ls)
	}
}

// checkJoined checks that every goroutine has finished before its effects are
// used and before the function returns, and that what it announced to an
// observer of its own is passed on.
func (k *ctrl) checkJoined(r *Report, where string, p *Path, ls lits) {
	gs := map[int]*Event{}
	signals := map[int][]*Event{}
	joined := map[int]bool{}
	observers := map[*Term]bool{}
	var loops []*Loop
	for _, ev := range p.Events {
		if ev.Kind == "go" {
			continue
		}
		if ev.G != 0 {
			if gs[ev.G] == nil {
				gs[ev.G] = ev
			}
			if ev.Kind == "send" || ev.Kind == "close" || ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Done" {
				signals[ev.G] = append(signals[ev.G], ev)
			}
			if ev.Kind == "loop" && ev.Loop.Client != nil {
				for _, x := range ev.Loop.Iters {
					eachEvent(x.Events, scope{}, func(y *Event, _ scope) {
						if y.Kind == "notify" && y.Recv != k.obs {
							observers[y.Recv] = true
							loops = append(loops, ev.Loop)
						}
					})
				}
			}
			continue
		}
		if ev.Kind == "recv" || ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" {
			for g, ss := range signals {
				for _, s := range ss {
					if s.Recv == ev.Recv && s == ss[len(ss)-1] {
						joined[g] = true
					}
				}
			}
		}
		late := ev.Kind == "notify" && factName(ev) == "ProjectionCompactionCompleted"
		if ev.Kind == "loop" && ev.Loop.Client == nil && anyEvent([]*Event{ev}, func(x *Event) bool { return x.Kind == "notify" }) {
			late = true
		}
		if late {
			for g, e := range gs {
				r.Check("joined", where, ev.Pos, joined[g], "the outcome of %s is used before it is known to have finished", e.Method)
			}
		}
	}
	for g, e := range gs {
		r.Check("joined", where, e.Pos, joined[g], "the operation can return before %s has finished", e.Method)
	}
	for o := range observers {
		k.checkForwarded(r, where, p, ls, o, loops)
	}
}

// checkForwarded checks that the facts announced to a private observer by the
// uses of a scope are all announced to the real observer, in order.
func (k *ctrl) checkForwarded(r *Report, where string, p *Path, ls lits, o *Term, clients []*Loop) {
	// does anything remain to be announced on this path?
	grew := false
	for _, c := range clients {
		for mu := range c.Init {
			if p.St.ghost["mu:"+itoa(mu.ID)] == "mu" {
				grew = true
			}
		}
	}
	if !grew {
		return
	}
	done := loopVarsIn(p.Events)
	ok := false
	for _, ev := range p.Events {
		if ev.G != 0 || ev.Kind != "loop" || ev.Loop.Client != nil {
			continue
		}
		l := ev.Loop
		var src *Term
		all := len(l.Iters) > 0 && !l.Rev
		for _, x := range l.Iters {
			var ns []*Event
			eachEvent(x.Events, scope{}, func(y *Event, _ scope) {
				if y.Kind == "notify" && y.Recv == k.obs {
					ns = append(ns, y)
				}
			})
			if len(ns) != 1 || factOf(ns[0]) == nil || factOf(ns[0]).Op != "index" || factOf(ns[0]).Args[1] != l.Iter {
				all = false
				continue
			}
			if s := factOf(ns[0]).Args[0]; src == nil || src == s {
				src = s
			} else {
				all = false
			}
		}
		if src == nil || !all || !completed(ls, l, src) {
			continue
		}
		ps := flatten(unclone(src), done)
		if len(ps) == 1 && ps[0].loop != nil && ps[0].loop.Client != nil {
			good := true
			for i, alt := range ps[0].alts {
				var want []*Term
				eachEvent(ps[0].loop.Iters[i].Events, scope{}, func(y *Event, _ scope) {
					if y.Kind == "notify" {
						want = append(want, factOf(y))
					}
				})
				if len(alt) != len(want) {
					good = false
					continue
				}
				for j := range want {
					good = good && alt[j].elem && sameFact(alt[j].t, want[j])
				}
			}
			ok = ok || good
		}
	}
	r.Check("one-goroutine", where, p.pos(k), ok, "what a concurrent compaction logs is not announced in order by the goroutine that called the engine")
}

func sameFact(a, b *Term) bool {
	for a.Op == "iface" {
		a = a.Args[0]
	}
	for b.Op == "iface" {
		b = b.Args[0]
	}
	return a == b
}
