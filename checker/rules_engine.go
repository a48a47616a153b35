package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C09"] = checkC09
}

// engineModel is what the rules about the engine need to know.
type engineModel struct {
	p        *Program
	engine   types.Type
	dispatch *ssa.Function
	tick     *ssa.Function
	reset    *ssa.Function
	ctrls    int // index of the field holding controllers by name
	routes   int // index of the field holding consumers by message type
}

func findEngine(p *Program) *engineModel {
	t := p.Type("engine", "Engine")
	if t == nil {
		panic(giveUp{"cannot find the type engine.Engine"})
	}
	m := &engineModel{p: p, engine: t}
	m.dispatch = need(p.MethodOf(t, "Dispatch"), "Engine.Dispatch")
	m.tick = need(p.MethodOf(t, "Tick"), "Engine.Tick")
	m.reset = need(p.MethodOf(t, "Reset"), "Engine.Reset")
	m.ctrls = fieldOfType(t, func(t types.Type) bool {
		mt, ok := under(t).(*types.Map)
		return ok && isControllerType(mt.Elem()) && isStringType(mt.Key())
	})
	m.routes = fieldOfType(t, func(t types.Type) bool {
		mt, ok := under(t).(*types.Map)
		if !ok {
			return false
		}
		sl, ok := under(mt.Elem()).(*types.Slice)
		return ok && isControllerType(sl.Elem()) && strings.HasSuffix(typeKey(mt.Key()), "message.Type")
	})
	if m.ctrls < 0 || m.routes < 0 {
		panic(giveUp{"cannot identify the engine's controller and routing tables"})
	}
	return m
}

// isControllerType recognises the engine's controller interface by its methods.
func isControllerType(t types.Type) bool {
	it, ok := under(t).(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Handle", "Tick", "Reset", "HandlerConfig":
			n++
		}
	}
	return n == 4
}

// table returns the contents of one of the engine's tables.
func (m *engineModel) table(e *Term, idx int) *Term {
	st := under(m.engine).(*types.Struct)
	f := mkFaddr(e, idx, st, m.engine)
	return mk("mapinit", "", nil, mkLoad(f, fieldVar(st, idx).Type()))
}

// isCtrlCall recognises calls of a controller's method.
func isCtrlCall(ev *Event, method string) bool {
	if ev.Kind != "call" || ev.Method != method || ev.MFunc == nil {
		return false
	}
	r := ev.MFunc.Type().(*types.Signature).Recv()
	return r != nil && isControllerType(r.Type())
}

// configOf is the configuration of the handler that a controller manages.
func configOf(t *Term) *Term {
	if a := pureCall(t, "HandlerConfig"); a != nil {
		return a[0]
	}
	return nil
}

// An offer is one consideration of a handler for a message (or tick).
type offer struct {
	ev   *Event
	skip bool
	ctrl *Term
	env  *Term
}

func (m *engineModel) offerOf(ev *Event, op string) *offer {
	if isCtrlCall(ev, op) {
		o := &offer{ev: ev, ctrl: ev.Recv}
		for _, a := range ev.Args {
			if a.Typ != nil && strings.HasSuffix(typeKey(a.Typ), "envelope.Envelope") || op == "Handle" && a == ev.Args[len(ev.Args)-1] {
				o.env = a
			}
		}
		return o
	}
	name := map[string]string{"Handle": "HandlingSkipped", "Tick": "TickSkipped"}[op]
	if ev.Kind == "notify" && factName(ev) == name {
		o := &offer{ev: ev, skip: true}
		if h := factField(ev, "Handler"); h != nil {
			o.ctrl = configOf(h)
		}
		o.env = factField(ev, "Envelope")
		return o
	}
	return nil
}

// hasOffer reports whether handlers are considered anywhere in a trace.
func (m *engineModel) hasOffer(evs []*Event, op string) bool {
	return anyEvent(evs, func(ev *Event) bool { return m.offerOf(ev, op) != nil })
}

func ctxCancelled(ls lits, ctx *Term) bool {
	for a, v := range ls {
		if v || a.Op != "eq" || a.Args[0].Op != "nil" {
			continue
		}
		if isCtxErr(a.Args[1]) {
			return true
		}
	}
	return false
}

// isCtxErr recognises the result of a context's Err method.
func isCtxErr(t *Term) bool {
	return t.Op == "res" && t.Fn == nil && ctxErrs[t]
}

// ctxErrs records the results of (context.Context).Err and context.Cause.
var ctxErrs = map[*Term]bool{}

func noteCtxErrs(ps []*Path) {
	for _, p := range ps {
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && (ev.Name == "(context.Context).Err" || ev.Name == "context.Cause") {
				for _, r := range ev.Res {
					ctxErrs[r] = true
				}
			}
		})
	}
}

// worklist describes the loop that processes messages.
type worklist struct {
	outer *Loop            // the loop over waiting messages
	ev    *Event           // its event
	paths []*worklistEntry // the ways of processing one message
}

type worklistEntry struct {
	it     *Iter // iteration of the outer loop (or nil for a final iteration)
	lits   lits
	events []*Event
	env    *Term
}

// findWorklists returns the loops in a trace whose bodies offer messages to
// handlers.
func (m *engineModel) worklists(p *Path) []*Event {
	var r []*Event
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			for _, x := range ev.Loop.Iters {
				if m.hasOffer(x.Events, "Handle") {
					r = append(r, ev)
					break
				}
			}
		}
	}
	return r
}

// bodies returns each way of processing one message: the iterations of the
// worklist loop, and the final iteration of paths that leave it early.
func (m *engineModel) bodies(ps []*Path) []*worklistEntry {
	var r []*worklistEntry
	seen := map[*Iter]bool{}
	for _, p := range ps {
		for i, ev := range p.Events {
			if ev.Kind != "loop" || !m.hasOffer([]*Event{ev}, "Handle") {
				continue
			}
			for _, x := range ev.Loop.Iters {
				if seen[x] {
					continue
				}
				seen[x] = true
				r = append(r, &worklistEntry{it: x, lits: lits(p.Lits).with(x.Lits), events: x.Events})
			}
			if rest := p.Events[i+1:]; m.hasOffer(rest, "Handle") {
				r = append(r, &worklistEntry{lits: p.Lits, events: rest})
			}
			break
		}
	}
	for _, w := range r {
		eachEvent(w.events, scope{lits: w.lits}, func(ev *Event, _ scope) {
			if o := m.offerOf(ev, "Handle"); o != nil && w.env == nil {
				w.env = o.env
			}
			if ev.Kind == "notify" && factName(ev) == "DispatchBegun" && w.env == nil {
				w.env = factField(ev, "Envelope")
			}
		})
	}
	return r
}

func (m *engineModel) messageOf(env *Term) *Term {
	t := deref(env.Typ)
	if t == nil || under(t) == nil {
		t = m.p.Type("envelope", "Envelope")
	}
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Message" {
			return mkLoad(mkFaddr(env, i, st, t), st.Field(i).Type())
		}
	}
	return nil
}

// runOps interprets the engine's operations.
func (r *Report) runOps(m *engineModel, panics bool) map[string][]*Path {
	cfg := Config{}
	if panics {
		cfg.MayPanic = func(ev *Event) bool {
			return isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick") || isCtrlCall(ev, "Reset") || ev.Kind == "notify" || ev.Name == "dyn"
		}
	}
	ops := map[string][]*Path{
		"Engine.Dispatch": r.Run(cfg, m.dispatch, nil),
		"Engine.Tick":     r.Run(cfg, m.tick, nil),
	}
	for _, ps := range ops {
		noteCtxErrs(ps)
	}
	return ops
}

var opNames = []string{"Engine.Dispatch", "Engine.Tick"}

// ---------------------------------------------------------------------------
// C01

func checkC01(r *Report) {
	m := findEngine(r.P)
	r.Rule("registration", 4, "each kind of handler is registered once under its name, and exactly once for each message type its configuration says it consumes")
	r.Rule("visitor", 1, "every handler of the application is visited when an engine is built")
	r.Rule("recipient", 4, "a command or event is offered to a consumer of its own type; a timeout to the handler that is its origin")
	r.Rule("once-each", 4, "one processed message is offered to every consumer exactly once (a timeout: exactly once)")
	r.Rule("delivered", 4, "a handler that is offered a message is given that message exactly once, unless it does not route it to an instance, the instance that scheduled it has ended, or it has been applied already")

	ops := r.runOps(m, false)
	timeout := messageKinds["TimeoutKind"]
	for _, name := range opNames {
		e := mk("param", m.dispatch.Params[0].Name(), nil)
		if name == "Engine.Tick" {
			e = mk("param", m.tick.Params[0].Name(), nil)
		}
		routes, ctrls := m.table(e, m.routes), m.table(e, m.ctrls)
		ws := m.bodies(ops[name])
		if len(ws) == 0 {
			r.Undecided("%s: no message processing found", name)
		}
		for _, w := range ws {
			if w.env == nil {
				continue
			}
			msg := m.messageOf(w.env)
			isTimeout, known := w.lits.decide(mkIsT(msg, timeout))
			kind := "command or event"
			if known && isTimeout {
				kind = "timeout"
			}
			where := name + ": " + kind
			if !known {
				pos := w.events[0].Pos
				r.Check("recipient", where, pos, false, "a message is offered to handlers without distinguishing timeouts from commands and events")
				continue
			}
			consumers := mk("lookup", "", nil, routes, mk("pure", "github.com/dogmatiq/enginekit/message.TypeOf", nil, msg))
			// offers directly in the body
			var direct []*offer
			var groups []*Event
			for _, ev := range w.events {
				if o := m.offerOf(ev, "Handle"); o != nil {
					direct = append(direct, o)
				}
				if ev.Kind == "loop" && m.hasOffer([]*Event{ev}, "Handle") {
					groups = append(groups, ev)
				}
			}
			if isTimeout {
				for _, o := range direct {
					ok := o.ctrl != nil && o.ctrl.Op == "lookup" && o.ctrl.Args[0] == ctrls && m.isOriginName(o.ctrl.Args[1], w.env)
					r.Check("recipient", where, o.ev.Pos, ok, "a timeout is offered to %v, which is not the handler of its origin", o.ctrl)
					r.Check("recipient", where, o.ev.Pos, o.env == w.env, "the handler is given %v instead of the message being processed", o.env)
				}
				pos := w.events[0].Pos
				r.Check("once-each", where, pos, len(direct) == 1 && len(groups) == 0, "a timeout is offered %d times (and by %d loops)", len(direct), len(groups))
				continue
			}
			for _, o := range direct {
				r.Check("once-each", where, o.ev.Pos, false, "a command or event is offered to a handler outside the iteration over its consumers")
			}
			if len(groups) != 1 {
				r.Check("once-each", where, w.events[0].Pos, w.it == nil && false, "a command or event is offered by %d iterations over handlers instead of 1", len(groups))
				continue
			}
			g := groups[0].Loop
			var src *Term
			for _, x := range g.Iters {
				var os []*offer
				nested := false
				for _, ev := range x.Events {
					if o := m.offerOf(ev, "Handle"); o != nil {
						os = append(os, o)
					}
					if ev.Kind == "loop" && m.hasOffer([]*Event{ev}, "Handle") {
						nested = true
					}
				}
				pos := g.Pos
				if !r.Check("once-each", where, pos, len(os) == 1 && !nested, "one consumer is offered the message %d times in some iteration", len(os)) {
					continue
				}
				o := os[0]
				r.Check("recipient", where, o.ev.Pos, o.env == w.env, "the handler is given %v instead of the message being processed", o.env)
				if o.ctrl == nil || o.ctrl.Op != "index" {
					r.Check("recipient", where, o.ev.Pos, false, "the message is offered to %v, which is not an element of its consumers", o.ctrl)
					continue
				}
				src = o.ctrl.Args[0]
				r.Check("recipient", where, o.ev.Pos, sameLookup(src, consumers), "the message is offered to the elements of %v instead of the consumers registered for its type", src)
				r.Check("once-each", where, o.ev.Pos, fullIndex(o.ctrl.Args[1], src, g), "the iteration does not visit each consumer: index %v", o.ctrl.Args[1])
			}
			if src != nil {
				r.Check("once-each", where, g.Pos, completed(w.lits, g, src), "the iteration over consumers can end before the last one")
			}
		}
	}
	checkRegistration(r, m)
	for _, kind := range ctrlKinds {
		checkDelivered(r, kind)
	}
}

// checkDelivered checks that a controller gives the message to its handler.
func checkDelivered(r *Report, kind string) {
	k := findCtrl(r, kind)
	where := kind + " controller"
	pos := k.handle.Pos()
	ps, _ := k.run(r, false)
	for _, p := range only(ps, "ret") {
		ls := lits(p.Lits)
		h, n := k.handling(p.Events)
		if n == 1 {
			k.checkHandlerArgs(r, "delivered", where, h)
			continue
		}
		if !r.Check("delivered", where, pos, n == 0, "the handler is given a message %d times", n) {
			continue
		}
		declined := false
		switch kind {
		case "process":
			if routes := callsOf(p.Events, "RouteEventToInstance"); len(routes) > 0 {
				rt := routes[0]
				declined = ls.refutes(rt.Res[1]) || ls.notNil(rt.Res[2])
			} else {
				has, known := k.exists(ls, k.instanceID(p.Events))
				declined = known && !has
			}
		case "projection":
			for _, rv := range callsOf(p.Events, "ResourceVersion") {
				declined = declined || ls.notNil(callErr(rv)) || ls.refutes(mkEq0(linOf(mkLen(rv.Res[0]))))
			}
		}
		r.Check("delivered", where, pos, declined, "a message that is offered to the handler is not given to it")
	}
}

// sameLookup compares table look-ups, ignoring how the key was typed.
func sameLookup(a, b *Term) bool {
	return a == b || a.Op == "lookup" && b.Op == "lookup" && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1]
}

// isOriginName matches env.Origin.Handler.Identity().Name.
func (m *engineModel) isOriginName(t, env *Term) bool {
	h := handlerName(t)
	if h == nil {
		return false
	}
	o := fieldLoad(h, "Handler")
	if o == nil {
		return false
	}
	// Origin may be a pointer or a value
	x := fieldLoad(o, "Origin")
	if x == nil && o.Op == "faddr" && strings.HasSuffix(o.Aux, ":Origin") {
		x = o.Args[0]
	}
	return x == env
}

// checkRegistration follows the construction of an engine through the
// visitor that registers handlers.
func checkRegistration(r *Report, m *engineModel) {
	newFn := need(r.P.Func("engine", "New"), "engine.New")
	paths := r.Run(Config{}, newFn, nil)
	found := false
	for _, p := range paths {
		if p.Kind != "ret" || len(p.Vals) != 2 || p.Vals[0].Op == "nil" {
			continue
		}
		e := p.Vals[0]
		var visit *Event
		n := 0
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && ev.Method == "AcceptRichVisitor" {
				visit = ev
				n++
			}
		})
		if visit == nil || len(visit.Args) == 0 || visit.Args[len(visit.Args)-1].Op != "iface" {
			r.Check("visitor", "engine.New", newFn.Pos(), false, "an engine can be built without visiting the application's handlers")
			continue
		}
		r.Check("visitor", "engine.New", visit.Pos, n == 1 && visit.Recv == mk("param", newFn.Params[0].Name(), nil), "the application is visited %d times", n)
		found = true
		v := visit.Args[len(visit.Args)-1]
		// every handler of the application
		if fn := r.P.MethodOf(deref(v.TAux), "VisitRichApplication"); fn != nil {
			for _, q := range r.Run(Config{}, fn, p.St.clone(), v.Args[0]) {
				cfg := mk("param", fn.Params[2].Name(), nil)
				all := false
				q.each(func(ev *Event, sc scope) {
					if ev.Kind == "call" && ev.Method == "AcceptRichVisitor" && len(ev.Args) > 0 {
						h := ev.Recv
						if h.Op == "lookup" && ev.Args[len(ev.Args)-1] == v && handlersOf(h.Args[0], cfg) {
							all = true
						}
					}
				})
				if q.Kind == "ret" && lits(q.Lits).isNil(q.Vals[0]) || q.Kind == "ret" && q.Vals[0].Op == "nil" {
					r.Check("visitor", "VisitRichApplication", fn.Pos(), all, "an application can be visited without visiting each of its handlers")
				}
			}
		} else {
			r.Undecided("cannot find VisitRichApplication of %s", v.TAux)
		}
		for _, kind := range []string{"Aggregate", "Process", "Integration", "Projection"} {
			fn := r.P.MethodOf(deref(v.TAux), "VisitRich"+kind)
			if fn == nil {
				r.Undecided("cannot find VisitRich%s of %s", kind, v.TAux)
				continue
			}
			cfg := mk("param", fn.Params[2].Name(), fn.Params[2].Type())
			where := "VisitRich" + kind
			for _, q := range r.Run(Config{}, fn, anyRegistered(r, p, v), v.Args[0]) {
				if !m.sameName(q, e, cfg) {
					checkRegistered(r, m, where, fn, q, e, cfg)
				}
			}
		}
	}
	if !found {
		r.Undecided("engine.New: no visitor found")
	}
}

// anyRegistered is the state of an engine being built after any number of
// handlers have been visited.
func anyRegistered(r *Report, p *Path, v *Term) *State {
	var fns []*ssa.Function
	for _, kind := range []string{"Aggregate", "Process", "Integration", "Projection"} {
		if fn := r.P.MethodOf(deref(v.TAux), "VisitRich"+kind); fn != nil {
			fns = append(fns, fn)
		}
	}
	return r.anyTimes(p.St, "visitor:"+typeKey(v.TAux), fns)
}

// sameName reports whether a path is one on which another handler has the name
// of the one being registered, which the application's configuration excludes.
func (m *engineModel) sameName(q *Path, e, cfg *Term) bool {
	for a, v := range q.Lits {
		if v && a.Op == "has" && a.Args[0].Op == "hav" && handlerName(a.Args[1]) == cfg {
			return true
		}
	}
	return false
}

func handlersOf(t, cfg *Term) bool {
	return t.contains(func(x *Term) bool {
		a := pureCall(x, "RichHandlers")
		return a != nil && a[0] == cfg
	})
}

func checkRegistered(r *Report, m *engineModel, where string, fn *ssa.Function, q *Path, e, cfg *Term) {
	if q.Kind != "ret" || q.Vals[0].Op != "nil" {
		r.Check("registration", where, fn.Pos(), false, "a handler of a valid application can fail to be registered")
		return
	}
	st := under(m.engine).(*types.Struct)
	ref := func(i int) *Term {
		return q.St.load(mkFaddr(e, i, st, m.engine), fieldVar(st, i).Type())
	}
	// by name
	cm := q.St.mapState(ref(m.ctrls))
	if cm.Op != "mapset" || handlerName(cm.Args[1]) != cfg || cm.Args[0].Op == "mapset" {
		r.Check("registration", where, fn.Pos(), false, "the controller is not registered once under its handler's name: %v", cm)
		return
	}
	ctrl := cm.Args[2]
	// the registered controller reports this configuration
	ok := false
	if ctrl.Op == "iface" {
		if hc := r.P.MethodOf(deref(ctrl.TAux), "HandlerConfig"); hc != nil {
			for _, x := range r.Run(Config{}, hc, q.St.clone(), ctrl.Args[0]) {
				ok = x.Kind == "ret" && x.Vals[0] == cfg
			}
		}
	}
	r.Check("registration", where, fn.Pos(), ok, "the registered controller does not belong to the visited handler")
	// by message type
	rm := q.St.mapState(ref(m.routes))
	done := loopVarsIn(q.Events)
	l := done[rm]
	if rm.Op != "mu" || l == nil {
		r.Check("registration", where, fn.Pos(), false, "the routing table is not extended for each consumed message type: %v", rm)
		return
	}
	r.Check("registration", where, l.Pos, l.Init[rm].Op == "mapempty" || l.Init[rm].Op == "mapinit" || l.Init[rm].Op == "hav", "the routing table is replaced by %v", l.Init[rm])
	var types_ *Term
	consumed := false
	for _, x := range l.Iters {
		// which entry of the configuration this iteration is about
		var k *Term
		yes, no := false, false
		for a, v := range x.Lits {
			if a.Op == "has" && a.Args[1].Op == "rk" {
				k = a.Args[1]
			}
			if fieldLoad(a, "IsConsumed") != nil {
				yes, no = v, !v
			}
		}
		if k == nil {
			r.Check("registration", where, l.Pos, false, "iterations do not range over the configuration's message types")
			continue
		}
		types_ = k.Args[0]
		r.Check("registration", where, l.Pos, messageTypesOf(types_, cfg), "message types are taken from %v instead of the handler's configuration", types_)
		next := x.Next[rm]
		switch {
		case yes:
			consumed = true
			good := next.Op == "mapset" && next.Args[0] == rm && next.Args[1] == k &&
				next.Args[2] == mkAppend(mk("lookup", "", nil, rm, k), mk("seq", "", nil, ctrl))
			r.Check("registration", where, l.Pos, good, "the controller is not added once to the consumers of a consumed type: %v", next)
		case no:
			r.Check("registration", where, l.Pos, next == rm, "the routing table is changed for a type that is not consumed")
		default:
			r.Check("registration", where, l.Pos, false, "message types are routed without regard to whether they are consumed")
		}
	}
	r.Check("registration", where, l.Pos, consumed && types_ != nil && mapExhausted(q.Lits, types_), "the iteration over message types can end early")
}

func messageTypesOf(t, cfg *Term) bool {
	return t.contains(func(x *Term) bool {
		a := pureCall(x, "MessageTypes")
		return a != nil && a[0] == cfg
	})
}

// ---------------------------------------------------------------------------
// C02

func checkC02(r *Report) {
	m := findEngine(r.P)
	r.Rule("fifo", 2, "the waiting messages are processed in order: one is taken from the front, and everything its handlers return is added, unchanged and in order, at the back")
	r.Rule("all-processed", 2, "processing stops only when no message is waiting, or the context is cancelled")
	r.Rule("initial", 2, "processing starts with exactly the dispatched message, or with everything returned by the handlers' ticks")
	r.Rule("controller-returns", 4, "a controller returns every message its handler produced, in the order produced")
	ops := r.runOps(m, false)
	for _, name := range opNames {
		fn := m.dispatch
		if name == "Engine.Tick" {
			fn = m.tick
		}
		checked := map[*Loop]bool{}
		nloops := 0
		for _, p := range ops[name] {
			if p.Kind != "ret" {
				continue
			}
			cancelled := ctxCancelled(p.Lits, nil) || lockFailed(p)
			ws := m.worklists(p)
			if len(ws) == 0 {
				ok := cancelled || name == "Engine.Tick" && m.nothingReturned(p)
				r.Check("initial", name, fn.Pos(), ok, "the operation can end without processing its messages although the context is not cancelled")
				continue
			}
			// a cancelled operation may leave in the middle of an iteration
			if len(ws) != 1 && !cancelled {
				r.Check("fifo", name, ws[0].Pos, false, "messages are processed by %d separate loops", len(ws))
				continue
			}
			nloops++
			l := ws[0].Loop
			form := m.queueForm(l)
			if form == nil {
				r.Check("fifo", name, l.Pos, false, "the messages being processed do not come from the front of a queue")
				continue
			}
			// exit
			empty := form.empty(lits(p.Lits))
			r.Check("all-processed", name, l.Pos, empty || cancelled, "processing can stop while messages are waiting and the context is not cancelled")
			if checked[l] {
				continue
			}
			checked[l] = true
			for _, x := range l.Iters {
				m.checkQueueStep(r, name, l, x, form, lits(p.Lits).with(x.Lits))
			}
			init := l.Init[form.q]
			if init == nil {
				r.Check("initial", name, l.Pos, false, "the queue does not start with the messages of the operation")
				continue
			}
			done := loopVarsIn(p.Events)
			delete(done, form.q)
			ps := flatten(init, done)
			if name == "Engine.Dispatch" {
				env := m.begunEnvelope(p, "DispatchCycleBegun")
				ok := len(ps) == 1 && ps[0].elem && (env == nil || ps[0].t == env)
				r.Check("initial", name, l.Pos, ok, "a dispatch starts by processing %s instead of exactly the dispatched message", piecesString(ps))
			} else {
				m.checkTickQueue(r, name, p, ps, l, cancelled)
			}
		}
		if nloops == 0 {
			r.Check("fifo", name, fn.Pos(), false, "no path processes messages")
		}
	}
	checkControllersReturn(r, m)
}

// nothingReturned reports whether a path is one on which the handlers' ticks
// have returned no messages.
func (m *engineModel) nothingReturned(p *Path) bool {
	exp := m.expectedProduced(p.Events, p.Lits, "Tick")
	all := loopVarsIn(p.Events)
	for q := range all {
		if !lits(p.Lits).holds(mkEq0(linOf(mkLen(q)))) {
			continue
		}
		if samePieces(flatten(q, all), exp) {
			return true
		}
	}
	return samePieces(nil, exp)
}

func lockFailed(p *Path) bool {
	failed := false
	for _, ev := range p.Events {
		if isLock(ev) && len(ev.Res) == 1 && lits(p.Lits).notNil(ev.Res[0]) {
			failed = true
		}
	}
	return failed
}

func (m *engineModel) begunEnvelope(p *Path, fact string) *Term {
	for _, ev := range p.Events {
		if ev.Kind == "notify" && factName(ev) == fact {
			return factField(ev, "Envelope")
		}
	}
	return nil
}

// queueForm is how a loop represents the waiting messages.
type queueForm struct {
	q     *Term // the loop variable holding the queue
	index bool  // the queue only grows, and an index moves along it
	gen   bool  // the queue is replaced by the next generation
	inner *Loop // for gen: the loop over one generation
	l     *Loop
}

func (f *queueForm) empty(ls lits) bool {
	if f.index {
		return ls.refutes(mkGt0(linOf(mkLen(f.q)).plus(linOf(f.l.Iter), -1)))
	}
	return ls.holds(mkEq0(linOf(mkLen(f.q))))
}

// queueForm recognises the representation of the queue from the message that
// is offered to handlers.
func (m *engineModel) queueForm(l *Loop) *queueForm {
	var f *queueForm
	bad := false
	for _, x := range l.Iters {
		eachEvent(x.Events, scope{lits: lits{}}, func(ev *Event, sc scope) {
			o := m.offerOf(ev, "Handle")
			if o == nil || o.env == nil {
				return
			}
			e := o.env
			if e.Op != "index" || e.Args[0].Op != "mu" {
				bad = true
				return
			}
			g := &queueForm{q: e.Args[0], l: l}
			switch {
			case l.Init[g.q] == nil:
				bad = true
			case e.Args[1] == mkInt(0):
			case e.Args[1] == l.Iter:
				g.index = true
			case len(sc.loops) > 0 && e.Args[1] == sc.loops[0].Iter:
				g.gen, g.inner = true, sc.loops[0]
			default:
				bad = true
			}
			if f != nil && (f.q != g.q || f.index != g.index || f.gen != g.gen) {
				bad = true
			}
			f = g
		})
	}
	if bad {
		return nil
	}
	return f
}

// checkQueueStep checks how one iteration changes the queue.
func (m *engineModel) checkQueueStep(r *Report, name string, l *Loop, x *Iter, f *queueForm, ls lits) {
	if !m.hasOffer(x.Events, "Handle") {
		// an iteration that offers nothing must be one over no consumers, which
		// still consumes its message
		if x.Next[f.q] == f.q && !f.index {
			return
		}
	}
	done := loopVarsIn(x.Events)
	ps := flatten(x.Next[f.q], done)
	want := "the rest of the queue followed by what the handlers returned"
	switch {
	case f.gen:
		// next generation: exactly what was produced while going through this one
		exp := m.expectedProduced(x.Events, ls, "Handle")
		r.Check("fifo", name, l.Pos, samePieces(ps, exp), "the queue becomes %s, expected %s: %s", piecesString(ps), want, piecesString(exp))
		return
	case f.index:
		if len(ps) == 0 || ps[0].t != f.q {
			r.Check("fifo", name, l.Pos, false, "the queue becomes %s, expected %s", piecesString(ps), want)
			return
		}
	default:
		tail := mkSlice(f.q, mkInt(1), tNil, f.q.Typ)
		if len(ps) == 0 || ps[0].t != tail || ps[0].elem {
			r.Check("fifo", name, l.Pos, false, "the queue becomes %s, expected %s", piecesString(ps), want)
			return
		}
	}
	exp := m.expectedProduced(x.Events, ls, "Handle")
	r.Check("fifo", name, l.Pos, samePieces(ps[1:], exp), "after the waiting messages the queue holds %s, expected what the handlers returned: %s", piecesString(ps[1:]), piecesString(exp))
}

// expectedProduced is what the handlers invoked in a trace return, in order.
func (m *engineModel) expectedProduced(evs []*Event, ls lits, op string) []piece {
	var r []piece
	for _, ev := range evs {
		if isCtrlCall(ev, op) {
			// a failed invocation's messages may be left out
			r = append(r, piece{t: ev.Res[0], opt: ls.notNil(ev.Res[1])})
		}
		if ev.Kind == "loop" && m.hasOffer([]*Event{ev}, op) {
			p := piece{loop: ev.Loop}
			for _, x := range ev.Loop.Iters {
				p.alts = append(p.alts, m.expectedProduced(x.Events, ls.with(x.Lits), op))
			}
			r = append(r, simplifyFold(p)...)
		}
	}
	return r
}

// samePieces reports whether a consists of what b expects.
func samePieces(a, b []piece) bool {
	i := 0
	for _, y := range b {
		if i < len(a) && samePiece(a[i], y) {
			i++
		} else if !optional(y) {
			return false
		}
	}
	return i == len(a)
}

func optional(y piece) bool {
	if y.loop == nil {
		return y.opt
	}
	for _, alt := range y.alts {
		for _, z := range alt {
			if !optional(z) {
				return false
			}
		}
	}
	return true
}

func samePiece(x, y piece) bool {
	if x.loop != y.loop || x.t != y.t || x.elem != y.elem || len(x.alts) != len(y.alts) {
		return false
	}
	for j := range x.alts {
		if !samePieces(x.alts[j], y.alts[j]) {
			return false
		}
	}
	return true
}

func (m *engineModel) checkTickQueue(r *Report, name string, p *Path, ps []piece, l *Loop, cancelled bool) {
	exp := m.expectedProduced(p.Events[:indexOfLoop(p.Events, l)], p.Lits, "Tick")
	r.Check("initial", name, l.Pos, len(exp) > 0 && samePieces(ps, exp), "a tick processes %s instead of everything its handlers returned: %s", piecesString(ps), piecesString(exp))
}

func indexOfLoop(evs []*Event, l *Loop) int {
	for i, ev := range evs {
		if ev.Loop == l {
			return i
		}
	}
	return len(evs)
}

// ---------------------------------------------------------------------------
// C03

func checkC03(r *Report) {
	m := findEngine(r.P)
	r.Rule("accumulated", 2, "the error of every failing handler invocation is part of the error of the operation")
	r.Rule("only-failures", 2, "nothing but failures of handler invocations makes the operation's error non-nil")
	r.Rule("others-still-run", 4, "the iterations over handlers and over waiting messages never end because of a failure")
	r.Rule("controller-error", 4, "a controller returns the error of its handler")
	ops := r.runOps(m, false)
	for _, name := range opNames {
		n := 0
		for _, p := range ops[name] {
			if p.Kind != "ret" || ctxCancelled(p.Lits, nil) {
				continue
			}
			if lockFailed(p) {
				continue
			}
			err := p.Vals[0]
			n++
			m.checkErrors(r, name, p.Events, lits(p.Lits), err, loopVarsIn(p.Events))
		}
		if n == 0 {
			r.Undecided("%s: no completing path", name)
		}
		m.checkNoEarlyExit(r, name, ops[name])
	}
	checkControllerErrors(r, m)
}

// checkErrors checks that err combines exactly the failures in a trace.
func (m *engineModel) checkErrors(r *Report, name string, evs []*Event, ls lits, err *Term, done map[*Term]*Loop) {
	set := flattenErr(err, done)
	var knownNil []errSet
	for a, v := range ls {
		if v && a.Op == "eq" && a.Args[0].Op == "nil" {
			knownNil = append(knownNil, flattenErr(a.Args[1], done))
		}
	}
	m.checkErrSet(r, errRules{"accumulated", "only-failures"}, name, evs, ls, set, knownNil)
}

// errRules are the rules that errors are checked for.
type errRules struct{ all, only string }

func (m *engineModel) checkErrSet(r *Report, rules errRules, name string, evs []*Event, ls lits, set errSet, alts []errSet) {
	used := map[*Term]bool{}
	usedFold := map[*Loop]bool{}
	for _, ev := range evs {
		if isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick") {
			e := ev.Res[1]
			if ls.isNil(e) {
				// a success must not contribute
				for _, x := range set.leaves {
					if x != e && covers(x, e) {
						r.Check(rules.only, name, ev.Pos, false, "an error is reported for an invocation that succeeded")
					}
				}
				continue
			}
			ok := false
			for _, x := range set.leaves {
				if covers(x, e) {
					ok = true
					used[x] = true
					if x != e {
						r.Check(rules.only, name, ev.Pos, ls.notNil(e), "the result of an invocation is wrapped in an error without knowing that it failed")
					}
				}
			}
			r.Check(rules.all, name, ev.Pos, ok, "the error of %s is not part of the combined error", ev.Method)
		}
		if ev.Kind == "loop" && (m.hasOffer([]*Event{ev}, "Handle") || m.hasOffer([]*Event{ev}, "Tick")) {
			f := findFold(set, ev.Loop)
			if f == nil {
				for _, a := range alts {
					if f = findFold(a, ev.Loop); f != nil {
						break
					}
				}
			} else {
				usedFold[ev.Loop] = true
			}
			if f == nil {
				r.Check(rules.all, name, ev.Pos, false, "the errors of the invocations in this loop do not reach the combined error")
				continue
			}
			for i, x := range ev.Loop.Iters {
				sub := ls.with(x.Lits)
				done := loopVarsIn(x.Events)
				var nils []errSet
				for a, v := range x.Lits {
					if v && a.Op == "eq" && a.Args[0].Op == "nil" {
						nils = append(nils, flattenErr(a.Args[1], done))
					}
				}
				m.checkErrSet(r, rules, name, x.Events, sub, f.alts[i], nils)
			}
		}
	}
	for _, x := range set.leaves {
		if used[x] || ls.isNil(x) {
			continue
		}
		if x.Op == "mu" {
			continue // carried over from earlier iterations
		}
		pos := evs
		_ = pos
		r.Check(rules.only, name, posOf(evs), isLockErr(x) || ls.isNil(x), "%v is reported as an error although it is not the failure of a handler invocation", x)
	}
	if len(set.leaves) == 0 {
		r.Check(rules.only, name, posOf(evs), true, "")
	}
}

func isLockErr(t *Term) bool { return lockErrs[t] }

var lockErrs = map[*Term]bool{}

func findFold(s errSet, l *Loop) *errFold {
	for i := range s.folds {
		if s.folds[i].loop == l {
			return &s.folds[i]
		}
	}
	return nil
}

// checkNoEarlyExit checks that loops over handlers and messages run to their
// end unless the context is cancelled.
func (m *engineModel) checkNoEarlyExit(r *Report, name string, ps []*Path) {
	var visit func(evs []*Event, ls lits)
	visit = func(evs []*Event, ls lits) {
		for _, ev := range evs {
			if ev.Kind != "loop" {
				continue
			}
			for _, op := range []string{"Handle", "Tick"} {
				if !m.hasOffer([]*Event{ev}, op) {
					continue
				}
				l := ev.Loop
				var src *Term
				isMap := false
				what := "handlers"
				for _, x := range l.Iters {
					for _, e := range x.Events {
						o := m.offerOf(e, op)
						if o == nil || o.ctrl == nil {
							continue
						}
						if o.ctrl.Op == "index" && o.ctrl.Args[1].contains(func(t *Term) bool { return t == l.Iter }) {
							src = o.ctrl.Args[0]
						}
						if o.ctrl.Op == "lookup" && o.ctrl.Args[1].Op == "rk" {
							src, isMap = o.ctrl.Args[0], true
						}
					}
				}
				ok := true
				if src != nil {
					if isMap {
						ok = mapExhausted(ls, src)
					} else {
						ok = completed(ls, l, src)
					}
				} else if f := m.queueForm(l); f != nil && op == "Handle" {
					what = "waiting messages"
					ok = f.empty(ls)
				} else {
					what = ""
				}
				if what != "" {
					r.Check("others-still-run", name+": "+what+" ("+op+")", l.Pos, ok || ctxCancelled(ls, nil), "the iteration over %s can end early although the context is not cancelled", what)
				}
			}
			for _, x := range ev.Loop.Iters {
				visit(x.Events, ls.with(x.Lits))
			}
		}
	}
	for _, p := range ps {
		if p.Kind == "ret" {
			visit(p.Events, p.Lits)
		}
	}
}

// ---------------------------------------------------------------------------
// C04

func checkC04(r *Report) {
	m := findEngine(r.P)
	r.Rule("bracketed", 2, "facts are announced in the order cycle-begun, then per message begun, per handler (begun, invocation, completed) or skipped, completed, and cycle-completed; exactly once each")
	r.Rule("truthful", 8, "each fact names the handler, envelope and error it is about")
	for _, name := range opNames {
		fn := m.dispatch
		if name == "Engine.Tick" {
			fn = m.tick
		}
		ps := r.runOps(m, false)[name]
		for _, p := range ps {
			if p.Kind != "ret" {
				continue
			}
			c := &factChecker{r: r, m: m, name: name, tick: name == "Engine.Tick"}
			a := &automaton{step: c.step, fail: func(s string, ev *Event, sc scope, why string) {
				r.Check("bracketed", name, ev.Pos, false, "%s", why)
			}}
			end := a.run([]string{"start"}, p.Events, scope{lits: p.Lits})
			for _, s := range end {
				r.Check("bracketed", name, fn.Pos(), s == "end", "the operation can return in state %q without announcing its completion", s)
			}
			m.checkMessageErrors(r, name, p.Events, p.Lits)
			// the completed fact carries the operation's error
			for _, ev := range p.Events {
				if ev.Kind == "notify" && strings.HasSuffix(factName(ev), "CycleCompleted") {
					e := factField(ev, "Error")
					r.Check("truthful", name+": cycle completed", ev.Pos, sameErr(p.Lits, e, p.Vals[0]), "the completed fact carries %v but the operation returns %v", e, p.Vals[0])
				}
			}
		}
	}
}

// checkMessageErrors checks that the fact about the completion of a message
// carries the failures of the invocations for that message, and no others.
func (m *engineModel) checkMessageErrors(r *Report, name string, evs []*Event, ls lits) {
	begun := -1
	for i, ev := range evs {
		if ev.Kind == "loop" {
			for _, x := range ev.Loop.Iters {
				m.checkMessageErrors(r, name, x.Events, ls.with(x.Lits))
			}
		}
		if ev.Kind != "notify" {
			continue
		}
		switch factName(ev) {
		case "DispatchBegun":
			begun = i
		case "DispatchCompleted":
			err := factField(ev, "Error")
			if begun < 0 || err == nil {
				continue
			}
			seg := evs[begun:i]
			done := loopVarsIn(seg)
			set := flattenErr(err, done)
			var nils []errSet
			for a, v := range ls {
				if v && a.Op == "eq" && a.Args[0].Op == "nil" {
					nils = append(nils, flattenErr(a.Args[1], done))
				}
			}
			where := name + ": message completed"
			for _, x := range set.leaves {
				r.Check("truthful", where, ev.Pos, x.Op != "mu" || ls.isNil(x), "the completed fact carries %v, which is not about that message only", x)
			}
			m.checkErrSet(r, errRules{"truthful", "truthful"}, where, seg, ls, set, nils)
		}
	}
}

func sameErr(ls lits, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return ls.isNil(a) && ls.isNil(b)
}

type factChecker struct {
	r    *Report
	m    *engineModel
	name string
	tick bool

	begun *Term // the envelope announced when the cycle began
}

// The states are "start", "cycle", "msg:<env>", "handling:<env>:<ctrl>",
// "handled:<env>:<ctrl>:<err>", "ticking:<ctrl>", "ticked:<ctrl>:<err>", "end".
func (c *factChecker) step(s string, ev *Event, sc scope) (string, string) {
	id := func(t *Term) string {
		if t == nil {
			return "?"
		}
		return itoa(t.ID)
	}
	truth := func(what string, ok bool, format string, args ...any) {
		c.r.Check("truthful", c.name+": "+what, ev.Pos, ok, format, args...)
	}
	if isCtrlCall(ev, "Handle") {
		env := ev.Args[len(ev.Args)-1]
		if s != "handling:"+id(env)+":"+id(ev.Recv) {
			return s, "a handler is invoked without being announced for the message and handler concerned (state " + s + ")"
		}
		return "handled:" + id(env) + ":" + id(ev.Recv) + ":" + id(ev.Res[1]), ""
	}
	if isCtrlCall(ev, "Tick") {
		if s != "ticking:"+id(ev.Recv) {
			return s, "a handler is ticked without being announced (state " + s + ")"
		}
		return "ticked:" + id(ev.Recv) + ":" + id(ev.Res[1]), ""
	}
	if ev.Kind != "notify" {
		return s, ""
	}
	f := factName(ev)
	ctrl := func() *Term {
		h := factField(ev, "Handler")
		if h == nil {
			return nil
		}
		return configOf(h)
	}
	env := factField(ev, "Envelope")
	switch f {
	case "DispatchCycleBegun", "TickCycleBegun":
		if s != "start" || (f == "TickCycleBegun") != c.tick {
			return s, "the operation is announced as begun more than once, or not first"
		}
		c.begun = env
		return "cycle", ""
	case "DispatchCycleCompleted", "TickCycleCompleted":
		if s != "cycle" || (f == "TickCycleCompleted") != c.tick {
			return s, "the operation is announced as completed in state " + s
		}
		if !c.tick {
			c.truthEnvelope(ev, env)
		}
		return "end", ""
	case "DispatchBegun":
		if s != "cycle" {
			return s, "a message is announced as begun in state " + s
		}
		return "msg:" + id(env), ""
	case "DispatchCompleted":
		if s != "msg:"+id(env) {
			return s, "a message is announced as completed in state " + s + ", which is not about that message"
		}
		return "cycle", ""
	case "HandlingBegun":
		if s != "msg:"+id(env) {
			return s, "a handler invocation is announced as begun in state " + s
		}
		return "handling:" + id(env) + ":" + id(ctrl()), ""
	case "HandlingCompleted":
		err := factField(ev, "Error")
		want := "handled:" + id(env) + ":" + id(ctrl()) + ":"
		if !strings.HasPrefix(s, want) {
			return s, "a handler invocation is announced as completed in state " + s + ", which is not about that handler and message"
		}
		e := termByID(s[len(want):])
		truth("handling completed", sameErr(sc.lits, err, e), "the completed fact carries %v instead of the error of the invocation", err)
		return "msg:" + id(env), ""
	case "HandlingSkipped":
		if s != "msg:"+id(env) {
			return s, "a skipped handler is announced in state " + s
		}
		truth("handling skipped", ctrl() != nil, "the skipped fact does not name a handler")
		return s, ""
	case "TickBegun":
		if s != "cycle" || !c.tick {
			return s, "a handler's tick is announced in state " + s
		}
		return "ticking:" + id(ctrl()), ""
	case "TickCompleted":
		err := factField(ev, "Error")
		want := "ticked:" + id(ctrl()) + ":"
		if !strings.HasPrefix(s, want) {
			return s, "a handler's tick is announced as completed in state " + s
		}
		e := termByID(s[len(want):])
		truth("tick completed", sameErr(sc.lits, err, e), "the completed fact carries %v instead of the error of the tick", err)
		return "cycle", ""
	case "TickSkipped":
		if s != "cycle" || !c.tick {
			return s, "a skipped tick is announced in state " + s
		}
		truth("tick skipped", ctrl() != nil, "the skipped fact does not name a handler")
		return s, ""
	}
	return s, ""
}

func (c *factChecker) truthEnvelope(ev *Event, env *Term) {
	c.r.Check("truthful", c.name+": envelope", ev.Pos, env != nil && env.Op != "nil" && env == c.begun, "the completed fact does not carry the dispatched envelope")
}

func termByID(id string) *Term {
	if len(termIndex) != len(termTable) {
		termIndex = map[string]*Term{}
		for _, t := range termTable {
			termIndex[itoa(t.ID)] = t
		}
	}
	return termIndex[id]
}

var termIndex map[string]*Term

// ---------------------------------------------------------------------------
// C05

func isLock(ev *Event) bool {
	return ev.Kind == "call" && ev.Method == "Lock" && ev.Recv != nil && lockType(ev.Name)
}

func isUnlock(ev *Event) bool {
	return ev.Kind == "call" && ev.Method == "Unlock" && ev.Recv != nil && lockType(ev.Name)
}

func isTryLock(ev *Event) bool {
	return ev.Kind == "call" && ev.Method == "TryLock" && ev.Recv != nil && lockType(ev.Name)
}

func lockType(name string) bool {
	return strings.Contains(name, "cosyne.Mutex)") || strings.Contains(name, "sync.Mutex)") || strings.Contains(name, "cosyne.RWMutex)") || strings.Contains(name, "sync.RWMutex)")
}

func checkC05(r *Report) {
	m := findEngine(r.P)
	r.Rule("held", 4, "controllers and resetters are only called, and the engine's state is only cleared, while the engine's mutex is held")
	r.Rule("released", 3, "the mutex is released on every way out, including panics, exactly when it is held")
	r.Rule("one-mutex", 1, "every operation uses the same mutex")
	r.Rule("cancelled", 2, "when the mutex cannot be acquired no handler is called and the error of the acquisition is returned")
	ops := r.runOps(m, true)
	cfg := Config{MayPanic: func(ev *Event) bool { return isCtrlCall(ev, "Reset") || ev.Name == "dyn" }}
	ops["Engine.Reset"] = r.Run(cfg, m.reset, nil)
	// other locks may be acquired by what the operations call
	keys := map[string]bool{}
	for _, ps := range ops {
		for _, p := range ps {
			p.each(func(ev *Event, _ scope) {
				if isLock(ev) {
					keys[mutexKey(ev.Recv)] = true
				}
			})
		}
	}
	own := false
	for k := range keys {
		own = own || strings.HasPrefix(k, "engine.")
	}
	foreign := func(ev *Event) bool {
		return own && (isLock(ev) || isUnlock(ev) || isTryLock(ev)) && !strings.HasPrefix(mutexKey(ev.Recv), "engine.")
	}
	var mutex string
	for _, name := range append(opNames, "Engine.Reset") {
		fn := map[string]*ssa.Function{"Engine.Dispatch": m.dispatch, "Engine.Tick": m.tick, "Engine.Reset": m.reset}[name]
		guarded := 0
		for _, p := range ops[name] {
			a := &automaton{
				step: func(s string, ev *Event, sc scope) (string, string) {
					switch {
					case foreign(ev):
					case isLock(ev):
						k := mutexKey(ev.Recv)
						if mutex == "" {
							mutex = k
						}
						r.Check("one-mutex", "engine mutex", ev.Pos, k == mutex, "%s locks %s but another operation locks %s", name, k, mutex)
						if s == "locked" {
							return s, "the mutex is acquired while it is held"
						}
						if len(ev.Res) == 0 || sc.lits.isNil(ev.Res[0]) {
							return "locked", ""
						}
						if sc.lits.notNil(ev.Res[0]) {
							return "failed", ""
						}
						if ignoresCancel(ev) {
							return "locked", ""
						}
						return "unchecked", ""
					case isTryLock(ev):
						if sc.lits.holds(ev.Res[0]) {
							return "locked", ""
						}
						return s, ""
					case isUnlock(ev):
						if s != "locked" {
							return s, "the mutex is released while it is not held (" + s + ")"
						}
						return "free", ""
					case isCtrlCall(ev, "Handle"), isCtrlCall(ev, "Tick"), isCtrlCall(ev, "Reset"), ev.Name == "dyn" && ev.Kind == "call" && isResetter(ev):
						guarded++
						if ev.G != 0 {
							return s, "a handler is invoked from another goroutine"
						}
						r.Check("held", name, ev.Pos, s == "locked", "%s is called although the mutex may not be held (%s)", ev.Method, s)
					case name == "Engine.Reset" && changesEngine(ev, m.reset):
						r.Check("held", name+": state", ev.Pos, s == "locked", "the state of the engine is changed although the mutex may not be held (%s)", s)
					}
					return s, ""
				},
				fail: func(s string, ev *Event, sc scope, why string) {
					r.Check("released", name, ev.Pos, false, "%s", why)
				},
			}
			for _, s := range a.run([]string{"free"}, p.Events, scope{lits: p.Lits}) {
				how := "returns"
				if p.Kind == "panic" {
					how = "panics"
				}
				r.Check("released", name, fn.Pos(), s == "free" || s == "failed", "the operation %s while the mutex is held (%s) [%s]", how, s, lastCall(p))
				if s == "failed" && name != "Engine.Reset" && p.Kind == "ret" {
					var le *Term
					for _, ev := range p.Events {
						if isLock(ev) && len(ev.Res) == 1 {
							le = ev.Res[0]
						}
					}
					ok := covers(p.Vals[0], le) || isCtxErr(p.Vals[0])
					r.Check("cancelled", name, fn.Pos(), ok, "the operation returns %v when the mutex cannot be acquired", p.Vals[0])
				}
			}
		}
		if guarded == 0 {
			r.Undecided("%s: no guarded call found", name)
		}
	}
}

// changesEngine reports whether an event of Reset changes what the engine
// refers to.
func changesEngine(ev *Event, reset *ssa.Function) bool {
	e := mk("param", reset.Params[0].Name(), nil)
	of := func(t *Term) bool {
		return t != nil && t.contains(func(t *Term) bool { return t == e })
	}
	switch ev.Kind {
	case "store":
		return of(ev.Addr)
	case "mapset", "mapdel", "mapclear":
		return of(ev.Recv)
	case "call":
		if strings.HasPrefix(ev.Name, "sync/atomic.Load") || strings.HasSuffix(ev.Name, ").Load") {
			return false
		}
		if strings.HasPrefix(ev.Name, "sync/atomic.") {
			return len(ev.Args) > 0 && of(ev.Args[0])
		}
		if strings.HasPrefix(ev.Name, "(*sync/atomic.") {
			return of(ev.Recv)
		}
	}
	return false
}

func lastCall(p *Path) string {
	s := ""
	for _, ev := range p.Events {
		if ev.Kind == "call" || ev.Kind == "notify" {
			s = ev.Method
		}
	}
	return "last event: " + s
}

// ignoresCancel reports whether the lock is acquired with a context that is
// never cancelled.
func ignoresCancel(ev *Event) bool {
	return len(ev.Args) == 1 && pureCall(ev.Args[0], "Background") != nil || len(ev.Args) == 1 && ev.Args[0].Op == "pure" && strings.HasPrefix(ev.Args[0].Aux, "context.")
}

func mutexKey(t *Term) string {
	if t.Op == "faddr" {
		return strings.TrimPrefix(fieldKey(deref(t.TAux), t.Idx), modulePath+"/")
	}
	return t.String()
}

func isResetter(ev *Event) bool {
	return ev.Recv != nil && ev.Recv.Op == "index"
}

// ---------------------------------------------------------------------------
// C06

func checkC06(r *Report) {
	m := findEngine(r.P)
	r.Rule("decision", 2, "a handler is invoked exactly when the option naming it, else its own configuration, else the setting of its type, says so")
	r.Rule("reason", 2, "the reason of a skipped fact is the rule that decided")
	r.Rule("untouched", 2, "nothing of a skipped handler is called")
	r.Rule("every-handler", 1, "each tick considers every handler of the engine once, unless the context is cancelled")
	r.Rule("defaults", 2, "before options are applied every handler type is enabled and no handler is named")
	r.Rule("options", 5, "each enabling option sets exactly the entry it is about to the given value")
	reasons := map[string]int64{}
	for _, n := range []string{"HandlerTypeDisabled", "IndividualHandlerDisabled", "IndividualHandlerDisabledByConfiguration"} {
		v, ok := constByName(r.P, "fact", n)
		if !ok {
			r.Undecided("cannot find fact.%s", n)
			return
		}
		reasons[n] = v
	}
	ops := r.runOps(m, false)
	for _, name := range opNames {
		for _, op := range []string{"Handle", "Tick"} {
			if op == "Tick" && name != "Engine.Tick" {
				continue
			}
			where := name + ": " + op
			n := 0
			for _, p := range ops[name] {
				p.each(func(ev *Event, sc scope) {
					o := m.offerOf(ev, op)
					if o == nil || o.ctrl == nil {
						return
					}
					n++
					m.checkDecision(r, where, o, sc, reasons)
				})
				m.checkUntouched(r, where, op, p)
			}
			if n == 0 {
				r.Undecided("%s: no handler is considered", where)
			}
		}
		m.checkDefaults(r, name, ops[name])
	}
	m.checkEveryHandler(r, ops["Engine.Tick"])
	m.checkEnableOptions(r)
}

func constByName(p *Program, rel, name string) (int64, bool) {
	q := p.Pkgs[modulePath+"/"+rel]
	if q == nil {
		return 0, false
	}
	c, ok := q.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constInt(mkConst(c.Val(), c.Type()))
}

// checkDecision compares the conditions under which a handler is invoked or
// skipped with the precedence rules.
func (m *engineModel) checkDecision(r *Report, where string, o *offer, sc scope, reasons map[string]int64) {
	// collect what the path says about the three settings of this handler
	aboutHandler := func(h *Term) bool { return h == o.ctrl || configOf(h) == o.ctrl }
	var has, val, dis, typ *bool
	set := func(b **bool, v bool) { x := v; *b = &x }
	for a, v := range sc.lits {
		switch a.Op {
		case "has":
			if h := handlerName(a.Args[1]); h != nil && aboutHandler(h) {
				set(&has, v)
			}
		case "lookup":
			if h := handlerName(a.Args[1]); h != nil && aboutHandler(h) {
				set(&val, v)
			}
			if x := pureCall(a.Args[1], "HandlerType"); x != nil && aboutHandler(x[0]) {
				set(&typ, v)
			}
		case "pure":
			if x := pureCall(a, "IsDisabled"); x != nil && aboutHandler(x[0]) {
				set(&dis, v)
			}
		}
	}
	choices := func(b *bool) []bool {
		if b != nil {
			return []bool{*b}
		}
		return []bool{true, false}
	}
	desc := func(h, v, d, t bool) string {
		s := "no option naming it, "
		if h {
			s = "named option=" + bstr(v) + ", "
		}
		return s + "disabled by configuration=" + bstr(d) + ", type enabled=" + bstr(t)
	}
	for _, h := range choices(has) {
		for _, v := range choices(val) {
			if !h && v {
				// an absent entry reads as false
				if val != nil && *val {
					continue
				}
				if has == nil && val == nil {
					continue
				}
				continue
			}
			for _, d := range choices(dis) {
				for _, t := range choices(typ) {
					var skip bool
					var reason string
					switch {
					case h:
						skip, reason = !v, "IndividualHandlerDisabled"
					case d:
						skip, reason = true, "IndividualHandlerDisabledByConfiguration"
					default:
						skip, reason = !t, "HandlerTypeDisabled"
					}
					act := "invoked"
					if o.skip {
						act = "skipped"
					}
					if !r.Check("decision", where, o.ev.Pos, skip == o.skip, "a handler with %s can be %s", desc(h, v, d, t), act) {
						return
					}
					if o.skip {
						got := factField(o.ev, "Reason")
						n, ok := constInt(got)
						r.Check("reason", where, o.ev.Pos, ok && n == reasons[reason], "a handler with %s is skipped with reason %v instead of %s", desc(h, v, d, t), got, reason)
					}
				}
			}
		}
	}
}

// checkEveryHandler checks that a tick considers each controller of the engine.
func (m *engineModel) checkEveryHandler(r *Report, ps []*Path) {
	e := mk("param", m.tick.Params[0].Name(), nil)
	where := "Engine.Tick"
	for _, p := range ps {
		if p.Kind != "ret" || lockFailed(p) || ctxCancelled(p.Lits, nil) {
			continue
		}
		n := 0
		for _, ev := range p.Events {
			if o := m.offerOf(ev, "Tick"); o != nil {
				r.Check("every-handler", where, ev.Pos, false, "a handler is considered outside the iteration over the engine's handlers")
			}
			if ev.Kind != "loop" || !m.hasOffer([]*Event{ev}, "Tick") {
				continue
			}
			n++
			m.checkConsidersAll(r, where, p, ev.Loop, e)
		}
		r.Check("every-handler", where, m.tick.Pos(), n == 1, "a tick considers handlers in %d iterations instead of 1", n)
	}
}

func (m *engineModel) checkConsidersAll(r *Report, where string, p *Path, l *Loop, e *Term) {
	for _, x := range l.Iters {
		var os []*offer
		for _, ev := range x.Events {
			if o := m.offerOf(ev, "Tick"); o != nil {
				os = append(os, o)
			}
			if ev.Kind == "loop" && m.hasOffer([]*Event{ev}, "Tick") {
				os = append(os, nil, nil)
			}
		}
		if !r.Check("every-handler", where, l.Pos, len(os) == 1, "in some iteration over the engine's handlers %d handlers are considered instead of 1", len(os)) {
			continue
		}
		ok, why := m.everyController(r, os[0].ctrl, p, l, e)
		r.Check("every-handler", where, os[0].ev.Pos, ok, "a tick may not consider every handler: %s", why)
	}
}

// everyController reports whether the controllers c of an iteration l are all
// those of the engine.
func (m *engineModel) everyController(r *Report, c *Term, p *Path, l *Loop, e *Term) (bool, string) {
	if c == nil {
		return false, "it is not clear which handler is considered"
	}
	return m.everyOf(r, c, false, p, l, e)
}

// everyOf does so for controllers, or for their names.
func (m *engineModel) everyOf(r *Report, c *Term, name bool, p *Path, l *Loop, e *Term) (bool, string) {
	const early = "the iteration over the engine's handlers can end early"
	ctrls := m.table(e, m.ctrls)
	if !name && c.Op == "lookup" && c.Args[0] == ctrls {
		return m.everyOf(r, c.Args[1], true, p, l, e)
	}
	if name && c.Op == "rk" && c.Args[0] == ctrls {
		return mapExhausted(p.Lits, ctrls), early
	}
	other := "the iteration is over " + c.String() + " instead of the engine's handlers"
	if c.Op != "index" {
		return false, other
	}
	list := c.Args[0]
	if !fullIndex(c.Args[1], list, l) || !completed(p.Lits, l, list) {
		return false, early
	}
	for list.Op == "sorted" {
		list = list.Args[0]
	}
	if list.Op == "mu" {
		b := loopVarsIn(p.Events)[list]
		if b == nil || mkLen(b.Init[list]) != mkInt(0) {
			return false, other
		}
		for _, x := range b.Iters {
			v := x.Next[list]
			if v.Op != "append" || v.Args[0] != list || v.Args[1].Op != "seq" || len(v.Args[1].Args) != 1 {
				return false, "the list of handlers is built by " + v.String()
			}
			if ok, why := m.everyOf(r, v.Args[1].Args[0], name, p, b, e); !ok {
				return false, why
			}
		}
		return true, ""
	}
	// a list kept by the engine
	st := under(m.engine).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if !name && list == mkLoad(mkFaddr(e, i, st, m.engine), st.Field(i).Type()) {
			return m.listsControllers(r, i)
		}
	}
	return false, other
}

// listsControllers reports whether a field of the engine lists each of its
// controllers once.
func (m *engineModel) listsControllers(r *Report, field int) (bool, string) {
	st := under(m.engine).(*types.Struct)
	f := fieldVar(st, field)
	ok, why := true, ""
	eachRegistration(r, m, func(kind string, fn *ssa.Function, before *State, q *Path, e, ctl *Term) {
		a := mkFaddr(e, field, st, m.engine)
		got := q.St.load(a, f.Type())
		if got != mkAppend(before.load(a, f.Type()), mk("seq", "", nil, ctl)) {
			ok, why = false, "VisitRich"+kind+" does not add the controller to "+f.Name()+" once: "+got.String()
		}
	})
	if r.P.modsetOf("operations", []*ssa.Function{m.dispatch, m.tick, m.reset}).fields[fieldKey(m.engine, field)] {
		ok, why = false, f.Name()+" is changed by an operation"
	}
	return ok, why
}

func bstr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// checkUntouched checks that an iteration that skips a handler does not call
// its controller.
func (m *engineModel) checkUntouched(r *Report, where, op string, p *Path) {
	var visit func(evs []*Event)
	visit = func(evs []*Event) {
		skipped := map[*Term]bool{}
		for _, ev := range evs {
			if o := m.offerOf(ev, op); o != nil && o.skip && o.ctrl != nil {
				skipped[o.ctrl] = true
			}
		}
		for _, ev := range evs {
			for _, meth := range []string{"Handle", "Tick", "Reset"} {
				if isCtrlCall(ev, meth) && len(skipped) > 0 {
					r.Check("untouched", where, ev.Pos, !skipped[ev.Recv], "%s is called on a handler that is reported as skipped", meth)
				}
			}
			if ev.Kind == "loop" {
				for _, x := range ev.Loop.Iters {
					visit(x.Events)
				}
			}
		}
		if len(skipped) > 0 {
			r.Check("untouched", where, evs[0].Pos, true, "")
		}
	}
	visit(p.Events)
}

// checkDefaults checks the options of an operation before any are applied.
func (m *engineModel) checkDefaults(r *Report, name string, ps []*Path) {
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		// the tables announced when the cycle begins
		for _, ev := range p.Events {
			if ev.Kind != "notify" || !strings.HasSuffix(factName(ev), "CycleBegun") {
				continue
			}
			types_, named := factField(ev, "EnabledHandlerTypes"), factField(ev, "EnabledHandlers")
			init := func(ref *Term) *Term {
				// contents on entry to the loop that applies options
				cell := mk("mapcell", "", nil, ref)
				for _, e := range p.Events {
					if e == ev {
						break
					}
					if e.Kind == "loop" && anyEvent([]*Event{e}, func(x *Event) bool { return x.Method == "applyOperationOption" || strings.HasPrefix(x.Method, "apply") }) {
						st := p.St
						if v, ok := st.heap[cell]; ok && v.Op == "mu" {
							return e.Loop.Init[v]
						}
						for mu, v := range e.Loop.Init {
							if mu == st.heap[cell] {
								return v
							}
						}
					}
				}
				return p.St.heap[cell]
			}
			ti, ni := init(types_), init(named)
			got := map[string]bool{}
			okT := ti != nil
			x := ti
			for x != nil && x.Op == "mapset" {
				if s, ok := constStr(x.Args[1]); ok {
					if _, dup := got[s]; !dup {
						got[s] = x.Args[2] == tTrue
					}
				}
				x = x.Args[0]
			}
			okT = okT && x != nil && x.Op == "mapempty"
			for _, k := range []string{"aggregate", "process", "integration", "projection"} {
				okT = okT && got[k]
			}
			r.Check("defaults", name+": handler types", ev.Pos, okT, "the handler types enabled before options are applied are %v", ti)
			r.Check("defaults", name+": named handlers", ev.Pos, ni != nil && ni.Op == "mapempty", "the named handlers before options are applied are %v", ni)
		}
	}
}

// checkEnableOptions applies each enabling option to abstract options.
func (m *engineModel) checkEnableOptions(r *Report) {
	for fnName, key := range map[string]string{
		"EnableAggregates": "aggregate", "EnableProcesses": "process",
		"EnableIntegrations": "integration", "EnableProjections": "projection", "EnableHandler": "",
	} {
		fn := need(r.P.Func("engine", fnName), "engine."+fnName)
		for _, p := range r.Run(Config{}, fn, nil) {
			if p.Kind != "ret" {
				continue
			}
			opt := p.Vals[0]
			enabled := mk("param", fn.Params[len(fn.Params)-1].Name(), nil)
			wantKey := mkStr(key)
			if key == "" {
				wantKey = mk("param", fn.Params[0].Name(), nil)
			}
			outs := r.applyOption(p.St, opt, "applyOperationOption")
			if outs == nil {
				r.Undecided("%s: cannot follow the option it returns", fnName)
				continue
			}
			for _, q := range outs {
				if q.Kind != "ret" {
					continue
				}
				var sets []*Event
				other := 0
				q.each(func(ev *Event, sc scope) {
					switch ev.Kind {
					case "mapset":
						sets = append(sets, ev)
					case "store", "mapdel", "mapclear":
						other++
					}
				})
				ok := len(sets) == 1 && other == 0 && sets[0].Args[0] == wantKey && sets[0].Val == enabled
				if ok {
					mt, _ := under(sets[0].Recv.Typ).(*types.Map)
					ok = mt != nil && (key == "") == (typeKey(mt.Key()) == "string")
				}
				r.Check("options", fnName, fn.Pos(), ok, "applying the option changes %s", describeSets(sets, other))
			}
		}
	}
}

func describeSets(sets []*Event, other int) string {
	var ss []string
	for _, s := range sets {
		ss = append(ss, s.Recv.String()+"["+s.Args[0].String()+"] = "+s.Val.String())
	}
	if other > 0 {
		ss = append(ss, itoa(other)+" other stores")
	}
	if len(ss) == 0 {
		return "nothing"
	}
	return strings.Join(ss, "; ")
}

// applyOption interprets the application of an option value.
func (r *Report) applyOption(st *State, opt *Term, method string) []*Path {
	if opt.Op != "iface" {
		return nil
	}
	fn := r.P.MethodOf(opt.TAux, method)
	if fn == nil {
		return nil
	}
	s := st.clone()
	s.evs = nil
	args := []*Term{opt.Args[0]}
	for _, p := range fn.Params[1:] {
		args = append(args, mk("param", "option:"+p.Name(), p.Type()))
	}
	return r.Run(Config{}, fn, s, args...)
}

// ---------------------------------------------------------------------------
// C09

func checkC09(r *Report) {
	m := findEngine(r.P)
	r.Rule("refused-first", 2, "no fact is announced and no handler is invoked unless the message is a valid command or event that some handler consumes")
	r.Rule("not-refused", 1, "a valid command or event that is consumed is not refused")
	r.Rule("own-validation", 2, "a message is validated by its own Validate method")
	ps := r.Run(Config{}, m.dispatch, nil)
	noteCtxErrs(ps)
	e := mk("param", m.dispatch.Params[0].Name(), nil)
	var msg *Term
	for _, q := range m.dispatch.Params {
		if typeKey(q.Type()) == "github.com/dogmatiq/dogma.Message" {
			msg = mk("param", q.Name(), q.Type())
		}
	}
	if msg == nil {
		r.Undecided("Dispatch has no message parameter")
		return
	}
	cons := mk("pure", "github.com/dogmatiq/enginekit/message.TypeOf", nil, msg)
	routes := m.table(e, m.routes)
	for _, p := range ps {
		ls := lits(p.Lits)
		kind := ""
		for _, k := range []string{"CommandKind", "EventKind", "TimeoutKind"} {
			if ls.holds(mkIsT(msg, messageKinds[k])) {
				kind = k
			}
		}
		valid, validated := false, false
		var vpos *Event
		p.each(func(ev *Event, sc scope) {
			if ev.Kind == "call" && ev.Method == "Validate" && ev.Recv == msg {
				validated = true
				vpos = ev
				valid = ls.isNil(ev.Res[0])
			}
		})
		if vpos != nil {
			r.Check("own-validation", kind, vpos.Pos, true, "")
		}
		routed := ls.holds(mkHas(routes, cons)) || ls.refutes(mkEq0(linOf(mkLen(mk("lookup", "", nil, routes, cons))))) ||
			ls.notNil(mk("lookup", "", nil, routes, cons))
		acts := anyEvent(p.Events, func(ev *Event) bool {
			return ev.Kind == "notify" || isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick")
		})
		if acts {
			pos := m.dispatch.Pos()
			r.Check("refused-first", "kind", pos, kind == "CommandKind" || kind == "EventKind", "the operation proceeds with a message that is not known to be a command or event")
			r.Check("refused-first", "validity", pos, validated && valid, "the operation proceeds with a message that has not been found valid")
			r.Check("refused-first", "route", pos, routed, "the operation proceeds with a message that no handler may consume")
			continue
		}
		refusable := kind == "TimeoutKind" || kind == "" || (validated && !valid) || !routed && (ls.refutes(mkHas(routes, cons)) || ls.holds(mkEq0(linOf(mkLen(mk("lookup", "", nil, routes, cons))))))
		if refusable {
			r.Check("refused-first", "panics", m.dispatch.Pos(), p.Kind == "panic", "a message that must be refused makes the operation return normally")
			continue
		}
		r.Check("not-refused", "Engine.Dispatch", m.dispatch.Pos(), false, "a message is refused although it may be valid and consumed: %v", p.PVal)
	}
	r.Check("not-refused", "Engine.Dispatch", m.dispatch.Pos(), true, "")
}
