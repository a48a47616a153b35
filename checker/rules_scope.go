package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["C11"] = checkC11
	checks["C16"] = checkC16
	checks["C18"] = checkC18
}

// ---------------------------------------------------------------------------
// C11

// declared reports what is known about whether the handler declares that it
// produces message m.
func (k *ctrl) declared(ls lits, m *Term) (bool, bool) {
	for a, v := range ls {
		x := fieldLoad(a, "IsProduced")
		if x == nil || x.Op != "lookup" || !messageTypesOf(x.Args[0], k.cfg) {
			continue
		}
		if t := pureCall(x.Args[1], "TypeOf"); t != nil && t[0] == m {
			return v, true
		}
	}
	// a type that is not in the handler's table at all is not declared
	for a, v := range ls {
		if a.Op == "has" && !v && messageTypesOf(a.Args[0], k.cfg) {
			if t := pureCall(a.Args[1], "TypeOf"); t != nil && t[0] == m {
				return false, true
			}
		}
	}
	return false, false
}

// consumed reports what is known about whether the handler consumes m.
func (k *ctrl) consumed(ls lits, m *Term) (bool, bool) {
	for a, v := range ls {
		x := fieldLoad(a, "IsConsumed")
		if x == nil || x.Op != "lookup" || !messageTypesOf(x.Args[0], k.cfg) {
			continue
		}
		if t := pureCall(x.Args[1], "TypeOf"); t != nil && t[0] == m {
			return v, true
		}
	}
	for a, v := range ls {
		if a.Op == "has" && !v && messageTypesOf(a.Args[0], k.cfg) {
			if t := pureCall(a.Args[1], "TypeOf"); t != nil && t[0] == m {
				return false, true
			}
		}
	}
	return false, false
}

// valid reports what is known about whether message m is valid.
func valid(ls lits, evs []*Event, m *Term) (bool, bool) {
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Method == "Validate" && ev.Recv == m && len(ev.Res) == 1 {
			if ls.isNil(ev.Res[0]) {
				return true, true
			}
			if ls.notNil(ev.Res[0]) {
				return false, true
			}
		}
	}
	return false, false
}

// behaviour returns the panicx.UnexpectedBehavior in a panic value.
func panicStruct(v *Term, name string) *Term {
	if v != nil && v.Op == "iface" && typeKey(v.TAux) == modulePath+"/engine/internal/panicx."+name {
		return v
	}
	return nil
}

func panicField(v *Term, name string) *Term { return structField(v.Args[0], v.TAux, name) }

// newEnvelopes are the envelopes created between two states.
func newEnvelopes(before, after *State) []*Term {
	var r []*Term
	for o := range after.objs {
		if !before.objs[o] && o.Typ != nil && typeKey(deref(o.Typ)) == modulePath+"/envelope.Envelope" {
			r = append(r, o)
		}
	}
	return r
}

// disturbed describes a change made to something that existed before.
func disturbed(before, after *State) string {
	var out []string
	for c, v := range after.heap {
		if ro := root(c); ro.Op == "obj" && !before.objs[ro] {
			continue
		}
		old, ok := before.heap[c]
		if ok && old == v {
			continue
		}
		if !ok && (c.Op == "mapcell" && v.Op == "mapinit" || v.Op == "ld" && v.Args[0] == c) {
			continue
		}
		if !ok && c.Typ != nil && before.load(c, deref(c.Typ)) == v {
			continue
		}
		out = append(out, c.String()+" becomes "+v.String())
	}
	sort.Strings(out)
	if len(out) > 0 {
		return out[0]
	}
	return ""
}

func checkC11(r *Report) {
	r.Rule("declared-and-valid", 3, "a message is kept only if the handler declares that it produces its type and it is valid")
	r.Rule("rejected-before-effect", 3, "a rejected message is reported by a panic naming the handler, its method and the message being handled, before anything has been created, applied, announced or changed")
	r.Rule("never-rejected", 3, "a declared, valid message is never rejected")
	r.Rule("empty-instance", 2, "a message is handled only if it was routed to a non-empty instance identifier, and otherwise refused before any effect")
	r.Rule("nil-root", 2, "a message is handled only with a non-nil root, and a nil one is refused before any effect")
	for _, kind := range []string{"aggregate", "process", "integration"} {
		k := findCtrl(r, kind)
		ps, _ := k.run(r, false)
		for _, cl := range allClients(ps) {
			for _, u := range cl.Trans {
				if !produces[u.Op] {
					continue
				}
				where := kind + ": " + u.Op
				pos := posOf(u.Events)
				if !pos.IsValid() {
					pos = cl.Call.Pos
				}
				ls := lits(u.Lits)
				dec, dk := k.declared(ls, u.Args[0])
				val, vk := valid(ls, u.Events, u.Args[0])
				if u.Kind == "ret" {
					r.Check("declared-and-valid", where, pos, dk && dec, "a message is accepted without establishing that the handler declares its type")
					r.Check("declared-and-valid", where, pos, vk && val, "a message is accepted without establishing that it is valid")
					continue
				}
				bad := dk && !dec || vk && !val
				if !r.Check("never-rejected", where, pos, bad, "a message is rejected by %v although it is not known to be undeclared or invalid", u.PVal) {
					continue
				}
				k.checkBehaviour(r, "rejected-before-effect", where, pos, u.PVal, cl.Call.Method)
				eachEvent(u.Events, scope{lits: ls}, func(ev *Event, _ scope) {
					r.Check("rejected-before-effect", where, ev.Pos, ev.Kind != "notify", "%s is announced for a message that is then rejected", factName(ev))
					r.Check("rejected-before-effect", where, ev.Pos, !isUserMethod(ev, "ApplyEvent"), "an event is applied although it is then rejected")
				})
				r.Check("rejected-before-effect", where, pos, len(newEnvelopes(u.Before, u.After)) == 0, "an envelope is created for a message that is then rejected")
				d := disturbed(u.Before, u.After)
				r.Check("rejected-before-effect", where, pos, d == "", "state is changed by a message that is then rejected: %s", d)
			}
		}
		if kind == "integration" {
			for _, p := range ps {
				if p.Kind == "panic" {
					k.checkRefusal(r, "never-rejected", kind+" controller", p)
				}
			}
			continue
		}
		k.checkRouting(r, ps)
	}
}

// checkBehaviour checks what a panic about unexpected behaviour says.
func (k *ctrl) checkBehaviour(r *Report, rule, where string, pos token.Pos, v *Term, method string) bool {
	b := panicStruct(v, "UnexpectedBehavior")
	if !r.Check(rule, where, pos, b != nil, "the panic value is %v, which does not name the handler, its method and the message", v) {
		return false
	}
	h, m, msg := panicField(b, "Handler"), panicField(b, "Method"), panicField(b, "Message")
	r.Check(rule, where, pos, h == k.cfg, "the panic names %v instead of the handler", h)
	r.Check(rule, where, pos, m == mkStr(method), "the panic names method %v instead of %s", m, method)
	r.Check(rule, where, pos, msg == k.msg(), "the panic names message %v instead of the message being handled", msg)
	return true
}

// wrongKind reports whether the message is known to be of a kind that this
// controller is never given.
func (k *ctrl) wrongKind(ls lits) bool {
	want := map[string][]string{"aggregate": {"CommandKind"}, "integration": {"CommandKind"}, "projection": {"EventKind"}, "process": {"EventKind", "TimeoutKind"}}[k.kind]
	for _, w := range want {
		if !ls.refutes(mkIsT(k.msg(), messageKinds[w])) {
			return false
		}
	}
	return true
}

// checkRefusal checks that a panic outside the handler's uses of the scope
// happens only for messages the controller is never given.
func (k *ctrl) checkRefusal(r *Report, rule, where string, p *Path) {
	c, known := k.consumed(p.Lits, k.msg())
	r.Check(rule, where, k.handle.Pos(), known && !c || k.wrongKind(p.Lits), "handling panics with %v although the message is one that the handler consumes", p.PVal)
}

// checkRouting checks the refusal of empty instance identifiers and nil roots.
func (k *ctrl) checkRouting(r *Report, ps []*Path) {
	where := k.kind + " controller"
	for _, p := range ps {
		ls := lits(p.Lits)
		var route, newCall, handle *Event
		for _, ev := range p.Events {
			if isUserMethod(ev, "RouteCommandToInstance", "RouteEventToInstance") {
				route = ev
			}
			if isUserMethod(ev, "New") {
				newCall = ev
			}
			if isUserMethod(ev, handleMethods...) {
				handle = ev
			}
		}
		empty, ek := false, false
		if route != nil {
			empty, ek = ls.decide(mkEq0(linOf(mkLen(route.Res[0]))))
			if k.kind == "process" && !(ls.holds(route.Res[1]) && ls.isNil(route.Res[2])) {
				empty, ek = false, false
			}
		}
		isEmpty := ek && empty
		isNilRoot := newCall != nil && ls.isNil(newCall.Res[0])
		if p.Kind == "ret" {
			if handle != nil && route != nil {
				r.Check("empty-instance", where, handle.Pos, ek && !empty, "the message is handled without establishing that the instance identifier is not empty")
			}
			if handle != nil && newCall != nil {
				r.Check("nil-root", where, handle.Pos, ls.notNil(newCall.Res[0]), "the message is handled without establishing that the root is not nil")
			}
			r.Check("empty-instance", where, k.handle.Pos(), !isEmpty, "handling returns although the message was routed to an empty instance identifier")
			r.Check("nil-root", where, k.handle.Pos(), !isNilRoot, "handling returns although the handler supplied a nil root")
			continue
		}
		rule, method := "empty-instance", ""
		switch {
		case isEmpty:
			method = route.Method
		case isNilRoot:
			rule, method = "nil-root", "New"
		default:
			k.checkRefusal(r, "never-rejected", where, p)
			continue
		}
		k.checkBehaviour(r, rule, where, k.handle.Pos(), p.PVal, method)
		r.Check(rule, where, k.handle.Pos(), handle == nil, "the handler is invoked before the panic")
		r.Check(rule, where, k.handle.Pos(), !anyEvent(p.Events, func(ev *Event) bool { return isUserMethod(ev, "ApplyEvent") }), "events are applied before the panic")
		r.Check(rule, where, k.handle.Pos(), rule == "nil-root" || newCall == nil && !anyEvent(p.Events, func(ev *Event) bool { return ev.Kind == "notify" }), "an instance is looked for before the panic")
		d := k.changed(p.St)
		r.Check(rule, where, k.handle.Pos(), d == "", "state is changed before the panic: %s", d)
	}
}

// ---------------------------------------------------------------------------
// C16

// takesMessage returns the message that a call gives to the application.
func takesMessage(ev *Event) *Term {
	sig := ev.MFunc.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len() && i < len(ev.Args); i++ {
		switch typeKey(sig.Params().At(i).Type()) {
		case dogmaPath + ".Command", dogmaPath + ".Event", dogmaPath + ".Timeout", dogmaPath + ".Message":
			return ev.Args[i]
		}
	}
	return nil
}

func recvTypeName(m *types.Func) string {
	k := typeKey(m.Type().(*types.Signature).Recv().Type())
	return k[strings.LastIndexByte(k, '.')+1:]
}

func checkC16(r *Report) {
	r.Rule("enriched", 8, "a panic with Dogma's unexpected-message value, by a method that is given a message, becomes one that names handler, interface, method, implementation and message")
	r.Rule("others-unchanged", 8, "any other panic by the application propagates with its value unchanged")
	g := r.P.Pkgs[dogmaPath]
	if g == nil || g.Types.Scope().Lookup("UnexpectedMessage") == nil {
		panic(giveUp{"cannot find dogma.UnexpectedMessage"})
	}
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		for _, op := range []string{"Handle", "Tick"} {
			var ps []*Path
			if op == "Handle" {
				ps, _ = k.run(r, true)
			} else {
				ps, _ = k.runTick(r, true)
			}
			for _, p := range ps {
				var origin *Event
				for _, ev := range p.Events {
					if ev.Panics && ev.MFunc != nil && (ev.Kind == "call" || ev.Kind == "upanic") {
						origin = ev
						break
					}
				}
				if origin == nil {
					continue
				}
				k.checkPanic(r, p, origin)
			}
		}
	}
}

// isUnexpected finds what is known about whether panic value u is Dogma's
// unexpected-message value.
func isUnexpected(ls lits, u *Term) (bool, bool) {
	for a, v := range ls {
		// its type has a single value
		if a.Op == "isT" && a.Args[0] == u && a.Aux == dogmaPath+".unexpectedMessage" {
			return v, true
		}
		if a.Op != "eq" {
			continue
		}
		x, y := a.Args[0], a.Args[1]
		if y == u {
			x, y = y, x
		}
		if x == u && y.contains(func(t *Term) bool {
			return t.Op == "global" && strings.HasSuffix(t.Aux, "dogma.UnexpectedMessage")
		}) {
			return v, true
		}
	}
	return false, false
}

func (k *ctrl) checkPanic(r *Report, p *Path, ev *Event) {
	where := k.kind + ": " + recvTypeName(ev.MFunc) + "." + ev.Method
	u := mk("upanic", ev.Site, nil)
	msg := takesMessage(ev)
	ls := lits(p.Lits)
	if p.Kind != "panic" {
		r.Check("others-unchanged", where, ev.Pos, false, "a panic in %s is swallowed", ev.Method)
		return
	}
	is, known := isUnexpected(ls, u)
	if msg == nil {
		r.Check("others-unchanged", where, ev.Pos, p.PVal == u || known && is, "a panic in %s becomes %v", ev.Method, p.PVal)
		return
	}
	if !known || !is {
		r.Check("others-unchanged", where, ev.Pos, p.PVal == u, "a panic in %s with another value becomes %v", ev.Method, p.PVal)
	}
	if known && !is {
		return
	}
	m := panicStruct(p.PVal, "UnexpectedMessage")
	if !r.Check("enriched", where, ev.Pos, m != nil, "a panic in %s, which is given a message, with the unexpected-message value results in %v", ev.Method, p.PVal) {
		return
	}
	eq := func(field string, want *Term) {
		got := panicField(m, field)
		r.Check("enriched", where, ev.Pos, got == want, "the panic's %s is %v instead of %v", field, got, want)
	}
	eq("Handler", k.cfg)
	eq("Interface", mkStr(recvTypeName(ev.MFunc)))
	eq("Method", mkStr(ev.Method))
	eq("Implementation", ev.Recv)
	eq("Message", msg)
}

// ---------------------------------------------------------------------------
// C18

func title(kind string) string { return strings.ToUpper(kind[:1]) + kind[1:] }

// useFacts are the facts that a use of a scope must announce.
func (k *ctrl) useFacts(u *Use) []string {
	switch u.Op {
	case "Log":
		return []string{"MessageLoggedBy" + title(k.kind)}
	case "RecordEvent":
		fs := []string{"EventRecordedBy" + title(k.kind)}
		if k.kind == "aggregate" {
			switch u.From[0] {
			case 'a':
				fs = append(fs, "AggregateInstanceCreated")
			case 'x':
				fs = append(fs, "AggregateInstanceDestructionReverted")
			}
		}
		return fs
	case "Destroy":
		if u.From[0] == 'e' {
			return []string{"AggregateInstanceDestroyed"}
		}
	case "End":
		if u.From == "l" {
			return []string{"ProcessInstanceEnded"}
		}
	case "ExecuteCommand", "ScheduleTimeout":
		fs := []string{map[string]string{"ExecuteCommand": "CommandExecutedByProcess", "ScheduleTimeout": "TimeoutScheduledByProcess"}[u.Op]}
		if u.From == "d" {
			fs = append(fs, "ProcessInstanceEndingReverted")
		}
		return fs
	}
	return nil
}

func checkC18(r *Report) {
	r.Rule("scope-facts", 8, "each use of a scope announces exactly the facts that correspond to what it does, each once")
	r.Rule("fact-contents", 8, "each fact carries the handler, instance, root and envelope it concerns, and the very envelope that is produced")
	r.Rule("handling-facts", 3, "handling a message announces exactly one fact about finding, beginning or ignoring its instance")
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		ps, _ := k.run(r, false)
		tps, _ := k.runTick(r, false)
		all := append(append([]*Path(nil), ps...), tps...)
		for _, cl := range allClients(all) {
			id := k.instanceOfClient(all, cl)
			root := rootArg(cl.Call)
			env := k.env
			if cl.Call.Method == "Compact" {
				env = tNil
			}
			for _, op := range cl.Ops {
				usable := false
				for _, u := range cl.Trans {
					usable = usable || u.Op == op.name && u.Kind == "ret"
				}
				r.Check("scope-facts", kind+": "+op.name, cl.Call.Pos, usable, "%s of the scope given to %s cannot be used", op.name, cl.Call.Method)
			}
			for _, u := range cl.Trans {
				if u.Kind != "ret" {
					continue
				}
				where := kind + ": " + u.Op
				pos := posOf(u.Events)
				var got []string
				direct := anyEvent(u.Events, func(ev *Event) bool { return ev.Kind == "notify" && !ev.Local })
				eachEvent(u.Events, scope{lits: lits(u.Lits)}, func(ev *Event, sc scope) {
					if ev.Kind != "notify" || ev.Local && direct {
						return
					}
					if len(sc.loops) > 0 {
						r.Check("scope-facts", where, ev.Pos, false, "%s is announced by a loop", factName(ev))
						return
					}
					got = append(got, factName(ev))
					k.checkFact(r, where, ev, u, cl, id, root, env)
				})
				want := k.useFacts(u)
				if len(got) == 0 && len(want) == 0 {
					if u.Op == "End" || u.Op == "Destroy" {
						r.Check("scope-facts", where, cl.Call.Pos, true, "")
					}
					continue
				}
				sort.Strings(got)
				sort.Strings(want)
				r.Check("scope-facts", where, pos, strings.Join(got, " ") == strings.Join(want, " "), "%s announces [%s] instead of [%s]", u.Op, strings.Join(got, " "), strings.Join(want, " "))
			}
		}
		if kind == "aggregate" || kind == "process" || kind == "integration" {
			k.checkHandlingFacts(r, ps)
		}
	}
}

// rootArg is the root that a call hands to the handler.
func rootArg(ev *Event) *Term {
	sig := ev.MFunc.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len() && i < len(ev.Args); i++ {
		if strings.HasSuffix(typeKey(sig.Params().At(i).Type()), "Root") {
			return ev.Args[i]
		}
	}
	return nil
}

func (k *ctrl) checkFact(r *Report, where string, ev *Event, u *Use, cl *Client, id, root, env *Term) {
	name := factName(ev)
	eq := func(field string, want *Term) {
		if want == nil {
			return
		}
		got := factField(ev, field)
		if got == nil {
			return // no such field
		}
		r.Check("fact-contents", where, ev.Pos, got == want, "%s of %s is %v instead of %v", field, name, got, want)
	}
	compact := cl.Call.Method == "Compact"
	r.Check("fact-contents", where, ev.Pos, ev.Recv == k.obs || compact && ev.Recv != nil && ev.Recv.contains(func(x *Term) bool { return x.Op == "obj" }), "%s is announced to %v instead of the observer", name, ev.Recv)
	eq("Handler", k.cfg)
	eq("Envelope", env)
	eq("InstanceID", id)
	if !strings.HasSuffix(u.From, "r") && u.Op != "Destroy" {
		eq("Root", root)
	}
	switch u.Op {
	case "Log":
		eq("LogFormat", u.Args[0])
		eq("LogArguments", u.Args[1])
	case "RecordEvent", "ExecuteCommand", "ScheduleTimeout":
		for _, f := range []string{"EventEnvelope", "CommandEnvelope", "TimeoutEnvelope"} {
			if got := factField(ev, f); got != nil {
				ps := u.produced()
				r.Check("fact-contents", where, ev.Pos, len(ps) == 1 && got == ps[0], "%s of %s is %v, which is not the envelope that is produced", f, name, got)
			}
		}
	}
}

// checkHandlingFacts checks the facts announced about the instance.
func (k *ctrl) checkHandlingFacts(r *Report, ps []*Path) {
	where := k.kind + " controller"
	pos := k.handle.Pos()
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		var route, newCall, handle *Event
		var got []string
		var facts []*Event
		for _, ev := range p.Events {
			if isUserMethod(ev, "RouteCommandToInstance", "RouteEventToInstance") {
				route = ev
			}
			if isUserMethod(ev, "New") {
				newCall = ev
			}
			if isUserMethod(ev, handleMethods...) {
				handle = ev
			}
			if ev.Kind == "notify" {
				got = append(got, factName(ev))
				facts = append(facts, ev)
			}
			if ev.Kind == "loop" && ev.Loop.Client == nil && anyEvent([]*Event{ev}, func(x *Event) bool { return x.Kind == "notify" }) {
				r.Check("handling-facts", where, ev.Pos, false, "facts are announced by a loop")
			}
		}
		var want []string
		id := k.instanceID(p.Events)
		var has, known bool
		if id != nil && k.kind != "integration" {
			has, known = k.exists(ls, id)
		}
		pre := map[string]string{"aggregate": "Aggregate", "process": "Process"}[k.kind]
		switch {
		case k.kind == "integration":
		case handle != nil && known && has:
			want = []string{pre + "InstanceLoaded"}
		case handle != nil && known && k.kind == "aggregate":
			want = []string{"AggregateInstanceNotFound"}
		case handle != nil && known:
			want = []string{"ProcessInstanceNotFound", "ProcessInstanceBegun"}
		case handle != nil:
			r.Check("handling-facts", where, pos, false, "the message is handled without establishing whether its instance exists")
			continue
		case route != nil && k.kind == "process":
			// no instance: ignored unless routing failed
			if !ls.isNil(route.Res[2]) {
				break
			}
			want = []string{"ProcessEventIgnored"}
		case k.kind == "process" && known && !has:
			want = []string{"ProcessTimeoutIgnored"}
		default:
			continue
		}
		sort.Strings(got)
		sort.Strings(want)
		if !r.Check("handling-facts", where, pos, strings.Join(got, " ") == strings.Join(want, " "), "handling announces [%s] instead of [%s]", strings.Join(got, " "), strings.Join(want, " ")) {
			continue
		}
		for _, ev := range facts {
			name := factName(ev)
			eq := func(field string, want *Term) {
				if got := factField(ev, field); got != nil && want != nil {
					r.Check("handling-facts", where, ev.Pos, got == want, "%s of %s is %v instead of %v", field, name, got, want)
				}
			}
			r.Check("handling-facts", where, ev.Pos, ev.Recv == k.obs && ev.G == 0, "%s is announced to %v instead of the observer", name, ev.Recv)
			eq("Handler", k.cfg)
			eq("Envelope", k.env)
			if name != "ProcessEventIgnored" {
				eq("InstanceID", id)
			}
			if handle != nil {
				eq("Root", rootArg(handle))
			}
		}
		_ = newCall
	}
}
