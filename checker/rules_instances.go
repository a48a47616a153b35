package main

import (
	"go/types"
)

func init() {
	checks["C10"] = checkC10
	checks["C12"] = checkC12
	checks["C13"] = checkC13
}

// ---------------------------------------------------------------------------
// Maps of instances.

// entry is what a map holds for one key at the end of a path.
type entry struct {
	has, known bool
	val        *Term
	bad        string // other entries are affected
}

// finalEntry works out what happens to one entry of a map that is part of the
// controller's state, and that no other entry changes.
func (k *ctrl) finalEntry(p *Path, what string, id *Term) entry {
	i := k.stateField(what)
	init := k.initField(i)
	vt := under(k.fields[i].Type()).(*types.Map).Elem()
	m := k.finalMap(p.St, what)
	var e entry
	hit := false
	for {
		switch m.Op {
		case "mapset":
			if m.Args[1] != id {
				e.bad = "the entry of another instance, " + m.Args[1].String() + ", is changed"
				return e
			}
			if !hit {
				hit, e.has, e.known, e.val = true, true, true, m.Args[2]
			}
			m = m.Args[0]
			continue
		case "mapdel":
			if m.Args[1] != id {
				e.bad = "the entry of another instance, " + m.Args[1].String() + ", is removed"
				return e
			}
			if !hit {
				hit, e.has, e.known = true, false, true
			}
			m = m.Args[0]
			continue
		case "mapempty":
			if !lits(p.Lits).isNil(init) && init.Op != "nil" {
				if n, known := lits(p.Lits).decide(mkEq0(linOf(mkLen(init)))); !known || !n {
					e.bad = "the entries of all instances are discarded"
				}
			}
			if !hit {
				e.has, e.known = false, true
			}
			return e
		case "mapinit":
			if m != mk("mapinit", "", nil, init) {
				e.bad = "the map is replaced by " + m.String()
				return e
			}
			if !hit {
				e.has, e.known = k.exists(p.Lits, id)
				e.val = mk("lookup", "", vt, m, id)
			}
			return e
		default:
			e.bad = "the map becomes " + m.String()
			return e
		}
	}
}

// table names the controller's map of instances.
func (k *ctrl) table() string {
	return map[string]string{"aggregate": "history", "process": "instances"}[k.kind]
}

// initial is the entry of an instance at the beginning.
func (k *ctrl) initial(id *Term) *Term {
	vt := under(k.fields[k.stateField(k.table())].Type()).(*types.Map).Elem()
	return mk("lookup", "", vt, k.initMap(k.table()), id)
}

// exists decides whether an instance existed at the beginning.
func (k *ctrl) exists(ls lits, id *Term) (bool, bool) {
	if id == nil {
		return false, false
	}
	if has, known := ls.decide(mkHas(k.initMap(k.table()), id)); known {
		return has, known
	}
	v := k.initial(id)
	switch under(v.Typ).(type) {
	case *types.Pointer, *types.Interface:
		// entries are never nil
		if ls.isNil(v) {
			return false, true
		}
	}
	return false, false
}

// nilEntry reports whether a path assumes that the entry of an instance is nil,
// which never happens: see checkProcessCommit.
func (k *ctrl) nilEntry(p *Path) bool {
	if k.table() == "" {
		return false
	}
	for a, v := range p.Lits {
		if v && a.Op == "has" && a.Args[0] == k.initMap(k.table()) {
			switch e := k.initial(a.Args[1]); under(e.Typ).(type) {
			case *types.Pointer, *types.Interface:
				if lits(p.Lits).isNil(e) {
					return true
				}
			}
		}
	}
	return false
}

// kept is the part of a map's entry that is the instance's events or root; the
// entry may be a structure that holds it.
func (k *ctrl) kept(st *State, v *Term) *Term {
	if v == nil {
		return nil
	}
	vt := under(k.fields[k.stateField(k.table())].Type()).(*types.Map).Elem()
	if k.isKept(vt) {
		return v
	}
	if a := k.keptAt(v); a != nil {
		return st.load(a, under(deref(vt)).(*types.Struct).Field(k.keptField(vt)).Type())
	}
	i := k.keptField(vt)
	return mkField(v, i, under(vt).(*types.Struct).Field(i).Type())
}

// keptAt is where that part is stored if the entry is a pointer.
func (k *ctrl) keptAt(v *Term) *Term {
	vt := under(k.fields[k.stateField(k.table())].Type()).(*types.Map).Elem()
	if _, ok := under(vt).(*types.Pointer); !ok || k.isKept(vt) {
		return nil
	}
	return mkFaddr(v, k.keptField(vt), under(deref(vt)).(*types.Struct), deref(vt))
}

func (k *ctrl) isKept(t types.Type) bool {
	if k.kind == "aggregate" {
		s, ok := under(t).(*types.Slice)
		return ok && typeKey(s.Elem()) == "*"+modulePath+"/envelope.Envelope"
	}
	return typeKey(t) == "github.com/dogmatiq/dogma.ProcessRoot"
}

func (k *ctrl) keptField(t types.Type) int {
	if s, ok := under(deref(t)).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if k.isKept(s.Field(i).Type()) {
				return i
			}
		}
	}
	panic(giveUp{"cannot identify what the " + k.kind + " controller keeps for an instance"})
}

// callsOf collects the application's methods called directly on a path, not
// in the uses of a scope.
func callsOf(evs []*Event, names ...string) []*Event {
	var r []*Event
	for _, ev := range evs {
		if isUserMethod(ev, names...) {
			r = append(r, ev)
		}
		if ev.Kind == "loop" && ev.Loop.Client == nil {
			for _, x := range ev.Loop.Iters {
				r = append(r, callsOf(x.Events, names...)...)
			}
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// C10

func checkC10(r *Report) {
	r.Rule("replay", 1, "a command is handled with a newly constructed root, to which exactly the instance's recorded events have been applied, in order")
	r.Rule("applied-once", 1, "an event that is recorded is applied, once, to the root that the handler is using")
	r.Rule("commit", 1, "when handling completes, the recorded events are added to the end of the instance's events, or these are discarded if it was destroyed")
	r.Rule("panic-keeps-history", 1, "a panic leaves the events of every instance unchanged")
	k := findCtrl(r, "aggregate")
	where := "aggregate controller"
	ps, _ := k.run(r, false)
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		id := k.instanceID(p.Events)
		h, n := k.handling(p.Events)
		if !r.Check("replay", where, k.handle.Pos(), n == 1 && h.Method == "HandleCommand" && id != nil, "the handler is invoked %d times", n) {
			continue
		}
		k.checkHandlerArgs(r, "replay", where, h)
		root := rootArg(h)
		news := callsOf(p.Events, "New")
		ok := len(news) > 0
		if ok {
			ok = false
			for _, nw := range news {
				ok = ok || nw.Res[0] == root && k.isHandler(nw.Recv)
			}
		}
		r.Check("replay", where, h.Pos, ok, "the handler is given %v, which is not a newly constructed root", root)
		k.checkReplay(r, where, p, ls, id, root, h)
		k.checkCommit(r, where, p, ls, id)
	}
	for _, cl := range allClients(ps) {
		root := rootArg(cl.Call)
		for _, u := range cl.Trans {
			if u.Kind != "ret" {
				continue
			}
			k.checkApplied(r, u, root, cl)
		}
	}
	pps, _ := k.run(r, true)
	for _, p := range pps {
		if p.Kind == "panic" {
			d := k.changed(p.St)
			r.Check("panic-keeps-history", where, k.handle.Pos(), d == "", "when handling panics %s", d)
		}
	}
}

// checkHandlerArgs checks that the right handler is given the right message.
func (k *ctrl) checkHandlerArgs(r *Report, rule, where string, h *Event) {
	r.Check(rule, where, h.Pos, k.isHandler(h.Recv), "%s is called on %v instead of the handler", h.Method, h.Recv)
	r.Check(rule, where, h.Pos, takesMessage(h) == k.msg(), "%s is given %v instead of the message in the envelope", h.Method, takesMessage(h))
}

func (k *ctrl) checkReplay(r *Report, where string, p *Path, ls lits, id, root *Term, h *Event) {
	has, known := k.exists(ls, id)
	loops := 0
	before := true
	for _, ev := range p.Events {
		if ev == h {
			before = false
		}
		if isUserMethod(ev, "ApplyEvent") {
			r.Check("replay", where, ev.Pos, false, "an event is applied that is not part of a replay of the instance's events")
		}
		if ev.Kind != "loop" || ev.Loop.Client != nil || len(callsOf([]*Event{ev}, "ApplyEvent")) == 0 {
			continue
		}
		if !r.Check("replay", where, ev.Pos, before, "events are applied after the command has been handled") {
			continue
		}
		l := ev.Loop
		loops++
		var src *Term
		for _, x := range l.Iters {
			as := callsOf(x.Events, "ApplyEvent")
			if !r.Check("replay", where, l.Pos, len(as) == 1, "an iteration over the instance's events applies %d of them", len(as)) {
				continue
			}
			a := as[0]
			r.Check("replay", where, a.Pos, a.Recv == root, "an event is applied to %v instead of the root that handles the command", a.Recv)
			env := fieldLoad(a.Args[0], "Message")
			okElem := env != nil && env.Op == "index" && env.Args[1] == l.Iter && !l.Rev && (src == nil || src == env.Args[0])
			if okElem {
				src = env.Args[0]
			}
			r.Check("replay", where, a.Pos, okElem, "the events are not applied one by one in the order recorded: %v is applied", a.Args[0])
		}
		if src != nil {
			okSrc := src == k.kept(newState(), k.initial(id))
			r.Check("replay", where, l.Pos, okSrc, "the events applied are those of %v instead of the instance", src)
			r.Check("replay", where, l.Pos, completed(ls, l, src), "the replay of the instance's events can end early")
		}
	}
	if known && has {
		// an empty list of events needs no iteration
		e, ek := ls.decide(mkEq0(linOf(mkLen(k.kept(newState(), k.initial(id))))))
		r.Check("replay", where, k.handle.Pos(), loops == 1 || loops == 0 && ek && e, "the events of an existing instance are applied by %d iterations", loops)
	}
}

// checkNilMaps checks that nothing is added to a map that is nil, as those of a
// controller are at first.
func (k *ctrl) checkNilMaps(r *Report, rule, where string, p *Path) {
	p.each(func(ev *Event, sc scope) {
		if ev.Kind == "mapset" && sc.lits.isNil(ev.Recv) {
			r.Check(rule, where, ev.Pos, false, "an entry is added to a map that is nil")
		}
	})
}

func (k *ctrl) checkCommit(r *Report, where string, p *Path, ls lits, id *Term) {
	pos := k.handle.Pos()
	k.checkNilMaps(r, "commit", where, p)
	e := k.finalEntry(p, "history", id)
	if !r.Check("commit", where, pos, e.bad == "", "%s", e.bad) {
		return
	}
	var own *Term
	if e.val != nil {
		own = k.keptAt(e.val)
	}
	d := k.scribbled(p.St, own)
	r.Check("commit", where, pos, d == "", "%s", d)
	for i := 0; i < len(k.fields); i++ {
		if i != k.stateField("history") {
			v := p.St.load(k.fieldAt(i), k.fields[i].Type())
			r.Check("commit", where, pos, v == newState().load(k.fieldAt(i), k.fields[i].Type()), "%s is changed", k.fields[i].Name())
		}
	}
	g := p.St.ghost["client"]
	if g == "" {
		return
	}
	if g[0] != 'e' {
		r.Check("commit", where, pos, e.known && !e.has, "an instance that does not exist when handling completes still has events")
		return
	}
	if !r.Check("commit", where, pos, e.known && e.has, "the instance exists when handling completes, but its events are not kept") {
		return
	}
	out := flatten(k.kept(p.St, e.val), loopVarsIn(p.Events))
	has, known := k.exists(ls, id)
	if len(out) > 0 && out[0].t != nil && !out[0].elem && out[0].t == k.kept(newState(), k.initial(id)) {
		out = out[1:]
	} else if !r.Check("commit", where, pos, known && !has, "the events of the instance become %s, which do not begin with those recorded earlier", piecesString(out)) {
		return
	}
	k.checkStreams(r, "commit", where, p, pos, "the instance's new events", out, isCommandOrEvent)
}

func (k *ctrl) checkApplied(r *Report, u *Use, root *Term, cl *Client) {
	where := "aggregate: " + u.Op
	pos := posOf(u.Events)
	if !pos.IsValid() {
		pos = cl.Call.Pos
	}
	var as []*Event
	eachEvent(u.Events, scope{lits: lits(u.Lits)}, func(ev *Event, sc scope) {
		if isUserMethod(ev, "ApplyEvent") {
			as = append(as, ev)
			if len(sc.loops) > 0 {
				as = append(as, ev)
			}
		}
	})
	if u.Op != "RecordEvent" {
		r.Check("applied-once", where, pos, len(as) == 0, "%s applies an event", u.Op)
		return
	}
	if !r.Check("applied-once", where, pos, len(as) == 1, "a recorded event is applied %d times", len(as)) {
		return
	}
	a := as[0]
	r.Check("applied-once", where, a.Pos, a.Args[0] == u.Args[0], "%v is applied instead of the recorded event", a.Args[0])
	if a.Recv == root {
		r.Check("applied-once", where, a.Pos, true, "")
		return
	}
	if len(u.From) > 1 && u.From[1] == 'r' && isNewRoot(a.Recv, cl) &&
		r.Known("record-after-destroy", "an event recorded after Destroy() in the same handling is applied to another root than the one the handler is using") {
		return
	}
	r.Check("applied-once", where, a.Pos, false, "a recorded event is applied to %v instead of the root that the handler is using", a.Recv)
}

// isNewRoot reports whether a root was constructed by a use of the scope.
func isNewRoot(t *Term, cl *Client) bool {
	for _, u := range cl.Trans {
		for _, ev := range callsOf(u.Events, "New") {
			if ev.Res[0] == t {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C12

func checkC12(r *Report) {
	r.Rule("root", 1, "a process is given the root kept for its instance, or a newly constructed one the first time an event is routed to it; timeouts never begin one")
	r.Rule("kept", 1, "after successful handling the instance is kept, with the root that was used and its new pending timeouts, unless it was ended")
	r.Rule("ended", 1, "when an instance is ended it is removed together with all of its pending timeouts, and no other")
	r.Rule("failure-changes-nothing", 1, "when routing or handling fails or panics nothing is added or removed, and nothing is returned to be processed")
	k := findCtrl(r, "process")
	where := "process controller"
	pos := k.handle.Pos()
	ps, _ := k.run(r, false)
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		id := k.instanceID(p.Events)
		h, n := k.handling(p.Events)
		routes := callsOf(p.Events, "RouteEventToInstance")
		out := flatten(p.Vals[0], loopVarsIn(p.Events))
		if n == 0 {
			d := k.changed(p.St)
			r.Check("failure-changes-nothing", where, pos, d == "", "the handler is not invoked, but %s", d)
			r.Check("failure-changes-nothing", where, pos, len(out) == 0, "the handler is not invoked, but %s are returned", piecesString(out))
			if len(routes) == 1 {
				rt := routes[0]
				r.Check("root", where, rt.Pos, ls.refutes(rt.Res[1]) || ls.notNil(rt.Res[2]), "the handler is not invoked although the event was routed to an instance")
			} else {
				has, known := k.exists(ls, id)
				r.Check("root", where, pos, known && !has, "the handler is not invoked for a timeout whose instance may exist")
			}
			continue
		}
		if !r.Check("root", where, h.Pos, n == 1, "the handler is invoked %d times", n) {
			continue
		}
		k.checkProcessRoot(r, where, p, ls, id, h, routes)
		he := callErr(h)
		if !ls.isNil(he) {
			d := k.changed(p.St)
			r.Check("failure-changes-nothing", where, h.Pos, d == "", "when the handler fails %s", d)
			r.Check("failure-changes-nothing", where, h.Pos, len(out) == 0, "when the handler fails %s are returned", piecesString(out))
		}
		if !ls.notNil(he) {
			k.checkProcessCommit(r, where, p, ls, id, rootArg(h))
		}
	}
	pps, _ := k.run(r, true)
	for _, p := range pps {
		if p.Kind == "panic" {
			d := k.changed(p.St)
			r.Check("failure-changes-nothing", where, pos, d == "", "when routing or handling panics %s", d)
		}
	}
}

func (k *ctrl) checkProcessRoot(r *Report, where string, p *Path, ls lits, id *Term, h *Event, routes []*Event) {
	k.checkHandlerArgs(r, "root", where, h)
	root := rootArg(h)
	has, known := k.exists(ls, id)
	if h.Method == "HandleTimeout" {
		r.Check("root", where, h.Pos, known && has, "a timeout is handled although its instance may not exist")
		r.Check("root", where, h.Pos, len(routes) == 0, "a timeout is routed like an event")
		r.Check("root", where, h.Pos, ls.holds(mkIsT(k.msg(), messageKinds["TimeoutKind"])) || ls.refutes(mkIsT(k.msg(), messageKinds["EventKind"])), "HandleTimeout is called with a message that is not known to be a timeout")
	} else {
		r.Check("root", where, h.Pos, len(routes) == 1, "an event is handled without having been routed exactly once")
		for _, rt := range routes {
			r.Check("root", where, rt.Pos, k.isHandler(rt.Recv) && takesMessage(rt) == k.msg(), "%v is asked to route %v", rt.Recv, takesMessage(rt))
			r.Check("root", where, h.Pos, ls.holds(rt.Res[1]) && ls.isNil(rt.Res[2]), "an event is handled although it was not routed to an instance")
		}
		r.Check("root", where, h.Pos, ls.holds(mkIsT(k.msg(), messageKinds["EventKind"])), "HandleEvent is called with a message that is not known to be an event")
	}
	if !r.Check("root", where, h.Pos, known, "an event is handled without establishing whether its instance exists") {
		return
	}
	if has {
		ok := root != nil && root == k.kept(newState(), k.initial(id))
		r.Check("root", where, h.Pos, ok, "the handler is given %v instead of the root kept for the instance", root)
		return
	}
	ok := false
	for _, nw := range callsOf(p.Events, "New") {
		ok = ok || nw.Res[0] == root && k.isHandler(nw.Recv)
	}
	r.Check("root", where, h.Pos, ok, "the handler is given %v instead of a newly constructed root", root)
}

// timeoutsForm describes the pending timeouts at the end of a path in terms
// of those at the beginning.
type timeoutsForm struct {
	sorted bool // in order of their scheduled times, if they were before
	whole  int  // how often all earlier timeouts are included
	others int  // how often all those of other instances are included
	rest   []piece
	text   string
}

func (k *ctrl) timeoutsAt(r *Report, p *Path, id *Term) *timeoutsForm {
	i := k.stateField("timeouts")
	init := k.initField(i)
	t := p.St.load(k.fieldAt(i), k.fields[i].Type())
	f := &timeoutsForm{}
	key := false
	for t.Op == "sorted" || t.Op == "clone" {
		if t.Op == "sorted" && !key {
			key = r.orders(p, t, "ScheduledFor")
			if !key {
				f.text = "(sorted by another order)"
			}
		}
		t = t.Args[0]
	}
	ps := flatten(t, loopVarsIn(p.Events))
	f.text += piecesString(ps)
	for _, q := range ps {
		switch {
		case q.t == init && !q.elem:
			f.whole++
		case q.t != nil && !q.elem && lits(p.Lits).holds(mkEq0(linOf(mkLen(q.t)))):
			// empty
		case k.filtered(r, p, q, init, id):
			f.others++
		default:
			f.rest = append(f.rest, q)
		}
	}
	f.sorted = key || len(ps) <= 1 && len(f.rest) == 0 && f.text == piecesString(ps)
	return f
}

// filtered reports whether a piece consists of exactly those elements of init
// that belong to other instances than id, in order.
func (k *ctrl) filtered(r *Report, p *Path, q piece, init, id *Term) bool {
	owner := func(st *State, env *Term) *Term {
		o := loadField(st, env, deref(env.Typ), "Origin")
		if o == nil {
			return nil
		}
		return loadField(st, o, deref(o.Typ), "InstanceID")
	}
	if q.t != nil && q.t.Op == "filter" && q.t.Args[0] == init {
		elem := mk("param", "filter-elem", under(init.Typ).(*types.Slice).Elem())
		want := mkEq(owner(newState(), elem), id, types.Typ[types.String])
		return r.decides(p, q.t.Args[1], want, elem)
	}
	if q.loop == nil || q.loop.Rev || !completed(p.Lits, q.loop, init) {
		return false
	}
	e := mk("index", "", under(init.Typ).(*types.Slice).Elem(), init, q.loop.Iter)
	for i, alt := range q.alts {
		ls := lits(p.Lits).with(q.loop.Iters[i].Lits)
		mine, known := ls.decide(mkEq(owner(newState(), e), id, types.Typ[types.String]))
		switch {
		case !known:
			return false
		case mine && len(alt) != 0:
			return false
		case !mine && !(len(alt) == 1 && alt[0].elem && alt[0].t == e):
			return false
		}
	}
	return len(q.alts) > 0
}

// decides reports whether a predicate is equivalent to a condition on its
// arguments.
func (r *Report) decides(p *Path, fn *Term, want *Term, args ...*Term) bool {
	n := 0
	for _, q := range r.runValue(p, fn, args...) {
		if q.Kind != "ret" || len(q.Vals) != 1 {
			continue
		}
		n++
		for _, v := range []bool{true, false} {
			st := &State{lits: cloneMap(q.Lits)}
			if !st.assume(want, v) {
				continue
			}
			got, known := st.decide(q.Vals[0])
			if !known || got != v {
				return false
			}
		}
	}
	return n > 0
}

// runValue interprets a function value in the state at the end of a path.
func (r *Report) runValue(p *Path, fn *Term, args ...*Term) []*Path {
	st := p.St.clone()
	st.evs = nil
	it := NewInterp(r.P, Config{})
	outs := it.RunValue(fn, st, args)
	r.Analysed(it)
	return pathsOf(outs)
}

// orders reports whether a sort puts elements in ascending order of a field.
func (r *Report) orders(p *Path, s *Term, field string) bool {
	x := s.Args[0]
	et := under(s.Typ).(*types.Slice).Elem()
	fld := func(e *Term) *Term { return loadField(newState(), e, deref(et), field) }
	var a, b *Term
	cmp := false
	var ps []*Path
	switch s.Aux {
	case "sort.Slice", "sort.SliceStable":
		i, j := mk("param", "sort-i", types.Typ[types.Int]), mk("param", "sort-j", types.Typ[types.Int])
		ps = r.runValue(p, s.Args[1], i, j)
		// the slice may be referred to in either its old or new form
		for _, base := range []*Term{s, x} {
			a, b = mk("index", "", et, base, i), mk("index", "", et, base, j)
			if anyMentions(ps, a) {
				break
			}
		}
	case "sort.Sort", "sort.Stable":
		i, j := mk("param", "sort-i", types.Typ[types.Int]), mk("param", "sort-j", types.Typ[types.Int])
		ps = r.runValue(p, s.Args[1], x, i, j)
		a, b = mk("index", "", et, x, i), mk("index", "", et, x, j)
	case "slices.SortFunc", "slices.SortStableFunc":
		a, b = mk("param", "sort-a", et), mk("param", "sort-b", et)
		cmp = true
		ps = r.runValue(p, s.Args[1], a, b)
	default:
		return false
	}
	ka, kb := fld(a), fld(b)
	if ka == nil || kb == nil {
		return false
	}
	n := 0
	for _, q := range ps {
		if q.Kind != "ret" || len(q.Vals) != 1 {
			continue
		}
		n++
		less := q.Vals[0]
		more := mk("not", "", nil, less)
		if cmp {
			less, more = mkGt0(linOf(mkInt(0)).plus(linOf(q.Vals[0]), -1)), mkGt0(linOf(q.Vals[0]))
			if v := q.Vals[0]; v.Op == "cmp" {
				less = mkGt0(linOf(v.Args[1]).plus(linOf(v.Args[0]), -1))
				more = mkGt0(linOf(v.Args[0]).plus(linOf(v.Args[1]), -1))
			}
		}
		for v, res := range map[*Term]*Term{
			mkGt0(linOf(kb).plus(linOf(ka), -1)): less,
			mkGt0(linOf(ka).plus(linOf(kb), -1)): more,
		} {
			st := &State{lits: cloneMap(q.Lits)}
			if !st.assume(v, true) {
				continue
			}
			neg := false
			for res.Op == "not" {
				res, neg = res.Args[0], !neg
			}
			got, known := st.decide(res)
			if !known || got == neg {
				return false
			}
		}
	}
	return n > 0
}

func anyMentions(ps []*Path, t *Term) bool {
	for _, p := range ps {
		for _, v := range p.Vals {
			if v.contains(func(x *Term) bool { return x == t }) {
				return true
			}
		}
		for a := range p.Lits {
			if a.contains(func(x *Term) bool { return x == t }) {
				return true
			}
		}
	}
	return false
}

func (k *ctrl) checkProcessCommit(r *Report, where string, p *Path, ls lits, id, root *Term) {
	pos := k.handle.Pos()
	e := k.finalEntry(p, "instances", id)
	f := k.timeoutsAt(r, p, id)
	g := p.St.ghost["client"]
	rule := "kept"
	if g == "d" {
		rule = "ended"
	}
	k.checkNilMaps(r, rule, where, p)
	if !r.Check(rule, where, pos, e.bad == "", "%s", e.bad) {
		return
	}
	if g == "d" {
		r.Check(rule, where, pos, e.known && !e.has, "an instance that was ended is kept")
		has, known := k.exists(ls, id)
		ok := f.others == 1 && f.whole == 0 || known && !has && f.whole == 1 && f.others == 0 || f.text == "[]" && ls.holds(mkEq0(linOf(mkLen(k.initField(k.stateField("timeouts"))))))
		r.Check(rule, where, pos, ok && len(f.rest) == 0, "after the instance was ended the pending timeouts are %s, which are not exactly those of other instances", f.text)
		return
	}
	r.Check(rule, where, pos, e.known && e.has && k.kept(p.St, e.val) == root, "the instance is not kept with the root that was used: %v", e.val)
	if e.val != nil {
		has, known := k.exists(ls, id)
		r.Check(rule, where, pos, known && has || ls.notNil(e.val), "nil may be kept for an instance")
		d := k.scribbled(p.St, k.keptAt(e.val))
		r.Check(rule, where, pos, d == "", "%s", d)
	}
	r.Check(rule, where, pos, f.whole == 1 && f.others == 0, "the pending timeouts become %s, which does not include all earlier ones", f.text)
	k.checkStreams(r, rule, where, p, pos, "the new pending timeouts", f.rest, k.isPending)
}

// ---------------------------------------------------------------------------
// C13

func checkC13(r *Report) {
	r.Rule("due-or-pending", 1, "a timeout scheduled for later than the engine time becomes pending, any other is returned immediately, and none is both or neither")
	r.Rule("time-order", 1, "the pending timeouts are kept in order of their scheduled times")
	r.Rule("released", 1, "a tick releases exactly the pending timeouts whose time has come, in order, and keeps exactly the others")
	r.Rule("delivered", 1, "a timeout is handed to its process once if its instance exists, and otherwise ignored and announced as such")
	k := findCtrl(r, "process")
	where := "process controller"
	pos := k.handle.Pos()
	ps, _ := k.run(r, false)
	for _, p := range ps {
		if p.Kind != "ret" {
			continue
		}
		ls := lits(p.Lits)
		id := k.instanceID(p.Events)
		h, n := k.handling(p.Events)
		if len(callsOf(p.Events, "RouteEventToInstance")) == 0 {
			has, known := k.exists(ls, id)
			switch {
			case n == 0:
				ign := 0
				for _, ev := range p.Events {
					if ev.Kind == "notify" && factName(ev) == "ProcessTimeoutIgnored" {
						ign++
					}
				}
				r.Check("delivered", where, pos, known && !has, "a timeout is ignored although its instance may exist")
				r.Check("delivered", where, pos, ign == 1, "a timeout is ignored without exactly one fact saying so")
			default:
				r.Check("delivered", where, h.Pos, n == 1 && h.Method == "HandleTimeout" && takesMessage(h) == k.msg(), "a timeout is handed over by %d calls of %s", n, h.Method)
				r.Check("delivered", where, h.Pos, known && has, "a timeout is handed over although its instance may not exist")
			}
		}
		f := k.timeoutsAt(r, p, id)
		r.Check("time-order", where, pos, f.sorted, "the pending timeouts become %s, which are not in order of their scheduled times", f.text)
		if n == 1 && !ls.notNil(callErr(h)) && p.St.ghost["client"] != "d" {
			k.checkStreams(r, "due-or-pending", where, p, pos, "the pending timeouts", f.rest, k.isPending)
			out := flatten(p.Vals[0], loopVarsIn(p.Events))
			k.checkStreams(r, "due-or-pending", where, p, pos, "the returned messages", out, isCommandOrEvent, k.isDue)
		}
	}
	tps, _ := k.runTick(r, false)
	for _, p := range tps {
		if !r.Check("released", where, k.tick.Pos(), p.Kind == "ret", "a tick can panic") {
			continue
		}
		k.checkReleased(r, where, p)
	}
}

// checkReleased checks how a tick divides the pending timeouts.
func (k *ctrl) checkReleased(r *Report, where string, p *Path) {
	i := k.stateField("timeouts")
	init := k.initField(i)
	ls := lits(p.Lits)
	ready := unclone(p.Vals[0])
	keep := unclone(p.St.load(k.fieldAt(i), k.fields[i].Type()))
	et := under(init.Typ).(*types.Slice).Elem()
	later := func(ls lits, idx *Term) (bool, bool) {
		s := loadField(newState(), mk("index", "", et, init, idx), deref(et), "ScheduledFor")
		return ls.decide(mkGt0(linOf(s).plus(linOf(k.now), -1)))
	}
	isEmpty := func(t *Term) bool {
		return t.Op == "nil" || t.Op == "seq" && len(t.Args) == 0 || ls.holds(mkEq0(linOf(mkLen(t))))
	}
	// boundary at an index
	var at *Term
	switch {
	case ready.Op == "slice" && ready.Args[0] == init && keep.Op == "slice" && keep.Args[0] == init && ready.Args[2] == keep.Args[1] &&
		(ready.Args[1].Op == "nil" || ready.Args[1] == mkInt(0)) && (keep.Args[2].Op == "nil" || keep.Args[2] == mkLen(init)):
		at = ready.Args[2]
	case ready == init && isEmpty(keep):
		at = mkLen(init)
	case isEmpty(ready) && keep == init:
		at = mkInt(0)
	}
	bad := func(why string) {
		r.Check("released", where, k.tick.Pos(), false, "a tick releases %v and keeps %v: %s", ready, keep, why)
	}
	if at != nil {
		if ls.holds(mkEq0(linOf(mkLen(init)))) {
			r.Check("released", where, k.tick.Pos(), true, "")
			return
		}
		// everything before the boundary is due
		due := at == mkInt(0)
		for _, ev := range p.Events {
			if ev.Kind != "loop" {
				continue
			}
			l := ev.Loop
			all := true
			for _, x := range l.Iters {
				lt, known := later(ls.with(x.Lits), l.Iter)
				all = all && known && !lt
			}
			if all && (at == l.Iter || at == mkLen(init) && completed(ls, l, init)) {
				due = true
			}
		}
		// nothing after it is
		rest := at == mkLen(init)
		if lt, known := later(ls, at); known && lt {
			rest = true
		}
		for _, ev := range p.Events {
			if ev.Kind == "loop" && ev.Loop.Iter == at && completed(ls, ev.Loop, init) {
				rest = true
			}
		}
		if at.Op == "search" && at.Args[0] == mkLen(init) {
			j := mk("param", "search-i", types.Typ[types.Int])
			s := loadField(newState(), mk("index", "", et, init, j), deref(et), "ScheduledFor")
			if r.decides(&Path{St: searchStates[at]}, at.Args[1], mkGt0(linOf(s).plus(linOf(k.now), -1)), j) {
				due, rest = true, true
			}
		}
		switch {
		case !due:
			bad("timeouts whose time has not come may be released")
		case !rest:
			bad("timeouts whose time has come may be kept")
		default:
			r.Check("released", where, k.tick.Pos(), true, "")
		}
		return
	}
	// partition
	done := loopVarsIn(p.Events)
	rp, kp := flatten(ready, done), flatten(keep, done)
	part := func(ps []piece, want bool) bool {
		if len(ps) != 1 || ps[0].loop == nil || ps[0].loop.Rev || !completed(ls, ps[0].loop, init) {
			return false
		}
		l := ps[0].loop
		e := mk("index", "", et, init, l.Iter)
		for i, alt := range ps[0].alts {
			lt, known := later(ls.with(l.Iters[i].Lits), l.Iter)
			if !known {
				return false
			}
			in := len(alt) == 1 && alt[0].elem && alt[0].t == e
			if len(alt) != 0 && !in || in != (lt == want) {
				return false
			}
		}
		return true
	}
	if !part(rp, false) {
		bad("what is released is not exactly what is due")
		return
	}
	if !part(kp, true) {
		bad("what is kept is not exactly what is not yet due")
		return
	}
	r.Check("released", where, k.tick.Pos(), true, "")
}

func unclone(t *Term) *Term {
	for t.Op == "clone" {
		t = t.Args[0]
	}
	return t
}
