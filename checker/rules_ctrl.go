package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = checkC07
	checks["C08"] = checkC08
}

const dogmaPath = "github.com/dogmatiq/dogma"

var ctrlKinds = []string{"aggregate", "process", "integration", "projection"}

// ctrl is one of the engine's controllers, with the terms that stand for its
// parameters.
type ctrl struct {
	kind   string
	typ    types.Type
	fields []ctrlField
	handle *ssa.Function
	tick   *ssa.Function
	reset  *ssa.Function

	c, ctx, obs, now, env *Term

	cfg *Term // the handler's configuration
}

func findCtrl(r *Report, kind string) *ctrl {
	rel := "engine/internal/" + kind
	t := r.P.Type(rel, "Controller")
	if t == nil {
		panic(giveUp{"cannot find the type " + rel + ".Controller"})
	}
	k := &ctrl{kind: kind, typ: t, fields: ctrlFields(t)}
	k.handle = need(r.P.MethodOf(t, "Handle"), rel+".Controller.Handle")
	k.tick = need(r.P.MethodOf(t, "Tick"), rel+".Controller.Tick")
	k.reset = need(r.P.MethodOf(t, "Reset"), rel+".Controller.Reset")
	hc := need(r.P.MethodOf(t, "HandlerConfig"), rel+".Controller.HandlerConfig")
	k.args(k.handle)
	for _, p := range r.Run(Config{}, hc, nil, k.c) {
		if p.Kind == "ret" && len(p.Vals) == 1 {
			k.cfg = p.Vals[0]
		}
	}
	if k.cfg == nil || k.env == nil || k.obs == nil || k.now == nil || k.ctx == nil {
		panic(giveUp{rel + ".Controller does not have the expected methods"})
	}
	return k
}

// ctrlField is a field of a controller, or of a structure within it.
type ctrlField struct {
	*types.Var
	owners []types.Type
	path   []int
}

// ctrlFields are the fields of a structure. The fields of the structures of
// the module that it consists of are among them, instead of those structures.
func ctrlFields(t types.Type) []ctrlField {
	return structFields(t, func(types.Type) bool { return false }, nil)
}

// structFields are the fields of a structure, where only those structures that
// are not wanted themselves are replaced by their fields.
func structFields(t types.Type, wanted func(types.Type) bool, in []ctrlField) []ctrlField {
	var up ctrlField
	if len(in) > 0 {
		up = in[len(in)-1]
	}
	var fs []ctrlField
	st := under(t).(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := ctrlField{
			Var:    st.Field(i),
			owners: append(append([]types.Type{}, up.owners...), t),
			path:   append(append([]int{}, up.path...), i),
		}
		_, inner := under(f.Type()).(*types.Struct)
		if n, ok := types.Unalias(f.Type()).(*types.Named); inner && !wanted(f.Type()) && (!ok || n.Obj().Pkg() != nil && inModulePath(n.Obj().Pkg().Path())) {
			fs = append(fs, structFields(f.Type(), wanted, append(in, f))...)
			continue
		}
		fs = append(fs, f)
	}
	return fs
}

// at is the address of the field in a controller.
func (f ctrlField) at(c *Term) *Term {
	for i, j := range f.path {
		c = mkFaddr(c, j, under(f.owners[i]).(*types.Struct), f.owners[i])
	}
	return c
}

// Fields of structures within a structure are identified by numbers that are
// greater than those of the structure's own fields.
const firstNested = 1000

var nestedFields []ctrlField

func nestedField(f ctrlField) int {
	for i, g := range nestedFields {
		if g.Var == f.Var && types.Identical(g.owners[0], f.owners[0]) {
			return firstNested + i
		}
	}
	nestedFields = append(nestedFields, f)
	return firstNested + len(nestedFields) - 1
}

// fieldVar is the i-th field of a structure, or one that is nested.
func fieldVar(st *types.Struct, i int) *types.Var {
	if i >= firstNested {
		return nestedFields[i-firstNested].Var
	}
	return st.Field(i)
}

// args are the terms for a method's parameters, identified by their types.
func (k *ctrl) args(fn *ssa.Function) []*Term {
	var as []*Term
	for i, p := range fn.Params {
		t := p.Type()
		name := p.Name() + "#" + itoa(i)
		var slot **Term
		switch key := typeKey(t); {
		case i == 0:
			name, slot = "c", &k.c
		case key == "context.Context":
			name, slot = "ctx", &k.ctx
		case key == modulePath+"/fact.Observer":
			name, slot = "obs", &k.obs
		case key == "time.Time":
			name, slot = "now", &k.now
		case key == "*"+modulePath+"/envelope.Envelope":
			name, slot = "env", &k.env
		}
		x := mk("param", name, t)
		if slot != nil {
			*slot = x
		}
		as = append(as, x)
	}
	return as
}

// clients configures the specification state of a controller's scopes.
//
// Aggregates: "e" the instance exists, "a" it does not exist, "x" it was
// destroyed; a trailing "r" means that it has been destroyed at some point.
// Processes: "l" live, "d" ended.
func (k *ctrl) clients() *clientCfg {
	cc := &clientCfg{}
	switch k.kind {
	case "aggregate":
		cc.cond = func(st *State, ev *Event) *Term {
			id := k.instanceID(st.events())
			if id == nil {
				return nil
			}
			if _, known := k.exists(st.lits, id); known {
				return nil
			}
			return mkHas(k.initMap("history"), id)
		}
		cc.start = func(st *State, ev *Event) string {
			id := k.instanceID(st.events())
			if has, _ := k.exists(st.lits, id); has {
				return "e"
			}
			return "a"
		}
		cc.ghost = func(from string, u *Use) string {
			suffix := from[1:]
			switch {
			case u.Op == "RecordEvent":
				return "e" + suffix
			case u.Op == "Destroy" && from[0] == 'e':
				return "xr"
			}
			return from
		}
	case "process":
		cc.start = func(st *State, ev *Event) string { return "l" }
		cc.ghost = func(from string, u *Use) string {
			switch u.Op {
			case "End":
				return "d"
			case "ExecuteCommand", "ScheduleTimeout":
				return "l"
			}
			return from
		}
	}
	return cc
}

// run interprets Handle together with every use of the scope that the handler
// may make.
func (k *ctrl) run(r *Report, panics bool) ([]*Path, *clientCfg) {
	cc := k.clients()
	cfg := Config{OnCall: cc.onCall}
	if panics {
		cfg.MayPanic = func(ev *Event) bool { return isUserCall(ev) }
	}
	var ps []*Path
	for _, p := range r.Run(cfg, k.handle, nil, k.args(k.handle)...) {
		if !k.nilEntry(p) {
			ps = append(ps, p)
		}
	}
	return ps, cc
}

func (k *ctrl) runTick(r *Report, panics bool) ([]*Path, *clientCfg) {
	cc := k.clients()
	cfg := Config{OnCall: cc.onCall}
	if panics {
		cfg.MayPanic = func(ev *Event) bool { return isUserCall(ev) }
	}
	ps := r.Run(cfg, k.tick, nil, k.args(k.tick)...)
	return ps, cc
}

// isUserCall recognises calls of methods that the application implements.
func isUserCall(ev *Event) bool {
	return ev.Kind == "call" && ev.MFunc != nil && ev.MFunc.Pkg() != nil && ev.MFunc.Pkg().Path() == dogmaPath && ev.Method != "Validate" && ev.Method != "MessageDescription"
}

func isUserMethod(ev *Event, names ...string) bool {
	if !isUserCall(ev) {
		return false
	}
	for _, n := range names {
		if ev.Method == n {
			return true
		}
	}
	return false
}

// handleMethods are the methods that handle a message.
var handleMethods = []string{"HandleCommand", "HandleEvent", "HandleTimeout"}

// isHandler reports whether t is the handler being controlled.
func (k *ctrl) isHandler(t *Term) bool {
	if t == nil {
		return false
	}
	a := pureCall(t, "Handler")
	return a != nil && a[0] == k.cfg
}

// fieldAt is the address of a field of the controller.
func (k *ctrl) fieldAt(i int) *Term { return k.fields[i].at(k.c) }

func (k *ctrl) initField(i int) *Term { return mkLoad(k.fieldAt(i), k.fields[i].Type()) }

// stateField finds a field of the controller by the kind of thing it holds.
func (k *ctrl) stateField(what string) int {
	is := map[string]func(types.Type) bool{
		"history":   isStringMap,
		"instances": isStringMap,
		"timeouts": func(t types.Type) bool {
			s, ok := under(t).(*types.Slice)
			return ok && typeKey(s.Elem()) == "*"+modulePath+"/envelope.Envelope"
		},
		"last": func(t types.Type) bool { return typeKey(t) == "time.Time" },
		"concurrent": func(t types.Type) bool {
			b, ok := under(t).(*types.Basic)
			return ok && b.Kind() == types.Bool
		},
		"ids": func(t types.Type) bool { return typeKey(t) == "*"+modulePath+"/envelope.MessageIDGenerator" },
	}[what]
	if is != nil {
		var found []int
		for i, f := range k.fields {
			if is(f.Type()) {
				found = append(found, i)
			}
		}
		for _, i := range found {
			if len(found) == 1 || knownFields[k.fields[i].Name()] {
				return i
			}
		}
	}
	panic(giveUp{"cannot identify the " + what + " of the " + k.kind + " controller"})
}

func isStringMap(t types.Type) bool {
	m, ok := under(t).(*types.Map)
	return ok && isStringType(m.Key())
}

// initMap is the contents, at the beginning, of a map that is a field.
func (k *ctrl) initMap(what string) *Term {
	return mk("mapinit", "", nil, k.initField(k.stateField(what)))
}

// finalMap is the contents of that map in some state.
func (k *ctrl) finalMap(st *State, what string) *Term {
	i := k.stateField(what)
	return st.mapState(st.load(k.fieldAt(i), k.fields[i].Type()))
}

// envField is a field of the envelope being handled.
func (k *ctrl) envField(name string) *Term {
	return loadField(newState(), k.env, deref(k.env.Typ), name)
}

// loadField loads a field, through a pointer to a struct.
func loadField(st *State, ptr *Term, typ types.Type, name string) *Term {
	s, ok := under(typ).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return st.load(mkFaddr(ptr, i, s, typ), s.Field(i).Type())
		}
	}
	return nil
}

func (k *ctrl) msg() *Term { return k.envField("Message") }

// instanceID is the instance that the handler routed the message to (or, for
// a timeout, the one that scheduled it), as established by a trace.
func (k *ctrl) instanceID(evs []*Event) *Term {
	var id *Term
	for _, ev := range evs {
		if isUserMethod(ev, "RouteCommandToInstance", "RouteEventToInstance") {
			id = ev.Res[0]
		}
	}
	if id == nil && k.kind == "process" {
		o := k.envField("Origin")
		id = loadField(newState(), o, deref(o.Typ), "InstanceID")
	}
	return id
}

// handling finds the call that handles the message.
func (k *ctrl) handling(evs []*Event) (*Event, int) {
	var h *Event
	n := 0
	eachEvent(evs, scope{lits: lits{}}, func(ev *Event, _ scope) {
		if isUserMethod(ev, handleMethods...) {
			h = ev
			n++
		}
	})
	return h, n
}

// changed describes how a state differs from the controller's initial state,
// or is empty.
func (k *ctrl) changed(st *State) string {
	for i := 0; i < len(k.fields); i++ {
		f := k.fields[i]
		init := k.initField(i)
		v := st.load(k.fieldAt(i), f.Type())
		if _, ok := splitStruct(f.Type()); ok {
			init = newState().load(k.fieldAt(i), f.Type())
		}
		if v != init {
			return f.Name() + " becomes " + v.String()
		}
		if _, ok := under(f.Type()).(*types.Map); ok {
			if m := st.mapState(init); m != mk("mapinit", "", nil, init) {
				return "the contents of " + f.Name() + " become " + m.String()
			}
		}
	}
	return k.scribbled(st, nil)
}

// scribbled describes a modification of something that the controller's state
// refers to (an element of a stored slice, or a field of a stored envelope),
// other than own.
func (k *ctrl) scribbled(st *State, own *Term) string {
	for c := range st.heap {
		if c == own {
			continue
		}
		if c.Op != "iaddr" && c.Op != "faddr" {
			continue
		}
		ro := root(c)
		if ro == k.c || ro.Op == "obj" {
			continue
		}
		for i := 0; i < len(k.fields); i++ {
			f := k.initField(i)
			if _, ok := under(k.fields[i].Type()).(*types.Pointer); ok {
				continue
			}
			if ro == f || ro.contains(func(x *Term) bool { return x == f }) {
				return "part of " + k.fields[i].Name() + " is overwritten: " + c.String()
			}
		}
	}
	return ""
}

// clientLoop returns the uses of the scope on a path.
func clientLoop(evs []*Event) *Loop {
	for _, ev := range evs {
		if ev.Kind == "loop" && ev.Loop.Client != nil {
			return ev.Loop
		}
	}
	return nil
}

// ---------------------------------------------------------------------------
// What one use of a scope produces.

// produces are the scope operations that produce a message.
var produces = map[string]bool{"RecordEvent": true, "ExecuteCommand": true, "ScheduleTimeout": true}

// envelopeAt reports whether t is an envelope created by a use, for message m.
func envelopeAt(st *State, t, m *Term) bool {
	if t.Op != "obj" || typeKey(deref(t.Typ)) != modulePath+"/envelope.Envelope" {
		return false
	}
	return loadField(st, t, deref(t.Typ), "Message") == m
}

// produced returns the envelopes that a use adds to what grows.
func (u *Use) produced() []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for mu, next := range u.Next {
		for _, p := range flatten(next, nil) {
			if p.t != nil && p.t != mu && p.elem && p.t.Op == "obj" && !seen[p.t] && typeKey(deref(p.t.Typ)) == modulePath+"/envelope.Envelope" {
				seen[p.t] = true
				r = append(r, p.t)
			}
		}
	}
	return r
}

// stream describes which messages of the uses of a scope a slice holds:
// for every use, in order, the envelope of the message it produces.
//
// It returns the set of "op/case" of uses whose envelope is held, or an
// explanation.
type stream struct {
	loop *Loop
	has  map[*Use]bool
}

// streamOf interprets a fold over the uses of a scope.
func streamOf(p piece) (*stream, string) {
	if p.loop == nil || p.loop.Client == nil {
		return nil, "does not consist of what the handler produced"
	}
	s := &stream{loop: p.loop, has: map[*Use]bool{}}
	for i, alt := range p.alts {
		u := p.loop.Iters[i].Use
		switch {
		case len(alt) == 0:
		case len(alt) == 1 && alt[0].elem && produces[u.Op] && envelopeAt(u.After, alt[0].t, u.Args[0]):
			s.has[u] = true
		default:
			return nil, "after " + u.Op + " is extended by " + piecesString(alt)
		}
	}
	return s, ""
}

// streams splits a slice held at the end of a path into streams.
func streams(ps []piece) ([]*stream, string) {
	var r []*stream
	for _, p := range ps {
		s, why := streamOf(p)
		if why != "" {
			return nil, p.String() + " " + why
		}
		r = append(r, s)
	}
	return r, ""
}

// notDue reports whether a use schedules a timeout for later than now.
func (k *ctrl) notDue(u *Use) (later, known bool) {
	return lits(u.Lits).decide(mkGt0(linOf(u.Args[1]).plus(linOf(k.now), -1)))
}

// grown reports whether some use may have occurred on a path: it has not if a
// variable that every such use extends is unchanged.
func grown(p *Path, l *Loop, want func(*Use) bool) bool {
	any := false
	for _, x := range l.Iters {
		any = any || x.Use != nil && produces[x.Use.Op] && want(x.Use)
	}
	for mu := range l.Init {
		if p.St.ghost["mu:"+itoa(mu.ID)] == "mu" {
			continue
		}
		all := true
		for _, x := range l.Iters {
			if x.Use == nil || !produces[x.Use.Op] || !want(x.Use) {
				continue
			}
			kept := false
			for _, q := range flatten(x.Next[mu], nil) {
				kept = kept || q.t != nil && q.elem && envelopeAt(x.Use.After, q.t, x.Use.Args[0])
			}
			all = all && kept
		}
		if all {
			return false
		}
	}
	return any
}

// checkStreams checks that ps holds exactly what the wanted uses produced. Each
// element of want selects the uses whose messages must be in order.
func (k *ctrl) checkStreams(r *Report, rule, where string, p *Path, pos token.Pos, what string, ps []piece, want ...func(*Use) bool) bool {
	l := clientLoop(p.Events)
	if l == nil {
		return r.Check(rule, where, pos, len(ps) == 0, "%s hold %s although the handler produced nothing", what, piecesString(ps))
	}
	ss, why := streams(ps)
	if !r.Check(rule, where, pos, why == "", "%s: %s", what, why) {
		return false
	}
	for _, s := range ss {
		ok := s.loop == l
		for _, x := range l.Iters {
			if s.has[x.Use] {
				wanted := false
				for _, w := range want {
					wanted = wanted || w(x.Use)
				}
				ok = ok && wanted
			}
		}
		if !ok {
			return r.Check(rule, where, pos, false, "%s hold %s, which is more than what the handler produced", what, piecesString(ps))
		}
	}
	for _, w := range want {
		some, all := 0, 0
		for _, s := range ss {
			n, of := 0, 0
			for _, x := range l.Iters {
				if produces[x.Use.Op] && w(x.Use) {
					of++
					if s.has[x.Use] {
						n++
					}
				}
			}
			if n > 0 {
				some++
			}
			if n > 0 && n == of {
				all++
			}
		}
		if some == 1 && all == 1 || some == 0 && !grown(p, l, w) {
			continue
		}
		return r.Check(rule, where, pos, false, "%s hold %s, which is not exactly what the handler produced, in order", what, piecesString(ps))
	}
	return r.Check(rule, where, pos, true, "")
}

// isCommandOrEvent selects the uses that produce a command or event.
func isCommandOrEvent(u *Use) bool { return u.Op == "RecordEvent" || u.Op == "ExecuteCommand" }

func (k *ctrl) isDue(u *Use) bool {
	if u.Op != "ScheduleTimeout" {
		return false
	}
	later, known := k.notDue(u)
	return known && !later
}

func (k *ctrl) isPending(u *Use) bool {
	if u.Op != "ScheduleTimeout" {
		return false
	}
	later, known := k.notDue(u)
	return known && later
}

// failed reports whether a user call on the path is known to have failed, or
// may have.
func callErr(ev *Event) *Term {
	if len(ev.Res) == 0 {
		return nil
	}
	e := ev.Res[len(ev.Res)-1]
	if e.Typ == nil || typeKey(e.Typ) != "error" {
		return nil
	}
	return e
}

// ---------------------------------------------------------------------------
// C02, C03: what controllers return.

func checkControllersReturn(r *Report, m *engineModel) {
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		where := kind + " controller"
		ps, _ := k.run(r, false)
		n := 0
		for _, p := range ps {
			if p.Kind != "ret" || lits(p.Lits).notNil(p.Vals[1]) {
				continue
			}
			n++
			out := flatten(p.Vals[0], loopVarsIn(p.Events))
			if clientLoop(p.Events) == nil && kind != "projection" {
				r.Check("controller-returns", where, k.handle.Pos(), len(out) == 0, "messages are returned without the handler having been called: %s", piecesString(out))
				continue
			}
			want := []func(*Use) bool{isCommandOrEvent}
			if kind == "process" && p.St.ghost["client"] != "d" {
				want = append(want, k.isDue)
			}
			k.checkStreams(r, "controller-returns", where, p, k.handle.Pos(), "the returned messages", out, want...)
		}
		if n == 0 {
			r.Undecided("%s: no successful path", where)
		}
		k.checkUsesProduce(r, "controller-returns", where, ps)
	}
}

// checkUsesProduce checks that every operation that produces a message keeps
// exactly one envelope.
func (k *ctrl) checkUsesProduce(r *Report, rule, where string, ps []*Path) {
	for _, u := range allUses(ps) {
		if u.Kind != "ret" {
			continue
		}
		got := u.produced()
		if produces[u.Op] {
			ok := len(got) == 1 && envelopeAt(u.After, got[0], u.Args[0])
			r.Check(rule, where+": "+u.Op, posOf(u.Events), ok, "%s keeps %d envelopes of the message instead of exactly one", u.Op, len(got))
		} else {
			r.Check(rule, where+": "+u.Op, posOf(u.Events), len(got) == 0, "%s produces a message", u.Op)
		}
	}
}

// allUses returns the uses of scopes on any of the paths.
func allUses(ps []*Path) []*Use {
	var r []*Use
	seen := map[*Client]bool{}
	for _, p := range ps {
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "loop" && ev.Loop.Client != nil && !seen[ev.Loop.Client] {
				seen[ev.Loop.Client] = true
				r = append(r, ev.Loop.Client.Trans...)
			}
		})
	}
	return r
}

func allClients(ps []*Path) []*Client {
	var r []*Client
	seen := map[*Client]bool{}
	for _, p := range ps {
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "loop" && ev.Loop.Client != nil && !seen[ev.Loop.Client] {
				seen[ev.Loop.Client] = true
				r = append(r, ev.Loop.Client)
			}
		})
	}
	return r
}

func checkControllerErrors(r *Report, m *engineModel) {
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		for _, op := range []string{"Handle", "Tick"} {
			var ps []*Path
			pos := k.handle.Pos()
			if op == "Handle" {
				ps, _ = k.run(r, false)
			} else {
				ps, _ = k.runTick(r, false)
				pos = k.tick.Pos()
			}
			where := kind + " controller"
			for _, p := range ps {
				if p.Kind != "ret" {
					continue
				}
				ls := lits(p.Lits)
				set := flattenErr(p.Vals[1], loopVarsIn(p.Events))
				var errs []*Event
				p.each(func(ev *Event, _ scope) {
					if isUserCall(ev) && callErr(ev) != nil {
						errs = append(errs, ev)
					}
				})
				used := map[*Term]bool{}
				others := 0 // failures that take precedence over one of compaction
				for _, ev := range errs {
					e := callErr(ev)
					for _, x := range set.leaves {
						if covers(x, e) {
							used[x] = true
							if ev.Method != "Compact" {
								others++
							}
							if x != e {
								r.Check("controller-error", where, ev.Pos, ls.notNil(e), "the result of %s is wrapped in an error without knowing that it failed", ev.Method)
							}
						}
					}
				}
				for _, ev := range errs {
					e := callErr(ev)
					if ls.isNil(e) {
						continue
					}
					ok := false
					for _, x := range set.leaves {
						ok = ok || covers(x, e)
					}
					if ev.Method == "Compact" && others > 0 {
						ok = true
					}
					r.Check("controller-error", where, ev.Pos, ok, "the error of %s is not returned", ev.Method)
				}
				for _, x := range set.leaves {
					r.Check("controller-error", where, pos, used[x] || ls.isNil(x), "%v is returned although it is not an error of the handler", x)
				}
				r.Check("controller-error", where, pos, len(set.folds) == 0, "the error returned is built up by a loop")
			}
		}
	}
}

// ---------------------------------------------------------------------------
// C07

func checkC07(r *Report) {
	m := findEngine(r.P)
	r.Rule("engine-reset", 4, "resetting the engine restarts message identifiers and resets every controller and calls every resetter that the engine was made with, once each")
	r.Rule("controller-reset", 4, "resetting a controller restores every field that handling or ticking can change to its initial value")
	r.Rule("no-other-state", 1, "handling and ticking change no state other than that which a reset restores")
	where := "Engine.Reset"
	st := under(m.engine).(*types.Struct)
	e := mk("param", m.reset.Params[0].Name(), nil)
	resetters := fieldOfType(m.engine, func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		if ok {
			_, ok = under(s.Elem()).(*types.Signature)
		}
		return ok
	})
	if resetters < 0 {
		panic(giveUp{"cannot identify the engine's resetters"})
	}
	rs := mkLoad(mkFaddr(e, resetters, st, m.engine), fieldVar(st, resetters).Type())
	for _, p := range r.Run(Config{}, m.reset, nil) {
		if p.Kind != "ret" {
			r.Check("engine-reset", where+": returns", m.reset.Pos(), false, "a reset can panic")
			continue
		}
		if lockFailed(p) {
			continue
		}
		ids := 0
		var nc, nr int
		okc, okr := true, true
		why := ""
		for _, ev := range p.Events {
			if ev.Kind == "call" && ev.Name == "sync/atomic.StoreUint64" && ev.Args[1] == mkInt(0) && isIDField(ev.Args[0], e) {
				ids++
			}
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync/atomic.") && ev.Method == "Store" && ev.Args[0] == mkInt(0) && isIDField(ev.Recv, e) {
				ids++
			}
			if ev.Kind == "store" && isIDField(ev.Addr, e) && linOf(ev.Val).isConst() && linOf(ev.Val).c == 0 {
				ids++
			}
			if isCtrlCall(ev, "Reset") || isResetterCall(ev) {
				okc = false
			}
			if ev.Kind != "loop" {
				continue
			}
			l := ev.Loop
			var hasC, hasR bool
			for _, x := range l.Iters {
				c, q := 0, 0
				for _, y := range x.Events {
					if isCtrlCall(y, "Reset") {
						c++
						hasC = true
						if all, w := m.everyController(r, y.Recv, p, l, e); !all {
							okc, why = false, "; "+w
						}
					}
					if isResetterCall(y) {
						q++
						hasR = true
						okr = okr && y.Recv.Args[0] == rs && fullIndex(y.Recv.Args[1], rs, l)
					}
					if y.Kind == "loop" && anyEvent([]*Event{y}, func(z *Event) bool { return isCtrlCall(z, "Reset") || isResetterCall(z) }) {
						okc, okr = false, false
					}
				}
				okc = okc && c <= 1
				okr = okr && q <= 1
				if hasC && c == 0 {
					okc = false
				}
				if hasR && q == 0 {
					okr = false
				}
			}
			if hasC {
				nc++
			}
			if hasR {
				nr++
				okr = okr && completed(p.Lits, l, rs)
			}
		}
		r.Check("engine-reset", where+": identifiers", m.reset.Pos(), ids >= 1, "message identifiers are not restarted")
		r.Check("engine-reset", where+": controllers", m.reset.Pos(), okc && nc == 1, "the iteration does not reset each controller exactly once (%d iterations%s)", nc, why)
		r.Check("engine-reset", where+": resetters", m.reset.Pos(), okr && nr == 1, "the iteration does not call each resetter exactly once (%d iterations)", nr)
	}
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		where := kind + " controller"
		fields := k.mutableFields(r)
		for _, p := range r.Run(Config{}, k.reset, nil, k.c) {
			if p.Kind != "ret" {
				r.Check("controller-reset", where, k.reset.Pos(), false, "resetting a controller can panic")
				continue
			}
			for _, i := range fields {
				f := k.fields[i]
				v := p.St.load(k.fieldAt(i), f.Type())
				ok := v == zeroTerm(f.Type())
				switch under(f.Type()).(type) {
				case *types.Map:
					ok = ok || p.St.mapState(v).Op == "mapempty"
				case *types.Slice:
					ok = ok || v.Op == "seq" && len(v.Args) == 0 || mkLen(v) == mkInt(0)
				}
				r.Check("controller-reset", where, k.reset.Pos(), ok, "%s is changed by handling or ticking, but after a reset it is %v", f.Name(), v)
			}
			// nothing else is disturbed
			for i := 0; i < len(k.fields); i++ {
				if !containsInt(fields, i) {
					v := p.St.load(k.fieldAt(i), k.fields[i].Type())
					r.Check("controller-reset", where, k.reset.Pos(), v == newState().load(k.fieldAt(i), k.fields[i].Type()), "a reset changes %s, which is part of the configuration, to %v", k.fields[i].Name(), v)
				}
			}
			r.Check("controller-reset", where, k.reset.Pos(), true, "")
		}
	}
	checkOtherState(r, m)
	checkResettersKept(r, m, resetters)
}

func containsInt(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// isIDField recognises the counter of the engine's identifier generator.
func isIDField(a, e *Term) bool {
	return a != nil && a.Op == "faddr" && strings.HasSuffix(strings.TrimLeft(typeKey(deref(a.TAux)), "*"), "envelope.MessageIDGenerator") && root(a) == e
}

func isResetterCall(ev *Event) bool {
	return ev.Kind == "call" && ev.Name == "dyn" && isResetter(ev)
}

// mutableFields are the fields of a controller that handling or ticking may
// change.
func (k *ctrl) mutableFields(r *Report) []int {
	ms := r.P.modsetOf("ctrl:"+k.kind, []*ssa.Function{k.handle, k.tick})
	var is []int
	for i := 0; i < len(k.fields); i++ {
		for j, at := range k.fields[i].path {
			key := fieldKey(k.fields[i].owners[j], at)
			if ms.fields[key] || ms.fields["map:"+key] {
				is = append(is, i)
				break
			}
		}
	}
	return is
}

// checkOtherState looks for package-level variables, and fields of the engine
// and its configuration, that operations change.
func checkOtherState(r *Report, m *engineModel) {
	var fns []*ssa.Function
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		fns = append(fns, k.handle, k.tick)
	}
	fns = append(fns, m.dispatch, m.tick)
	seen := map[*ssa.Function]bool{}
	n := 0
	for len(fns) > 0 {
		fn := fns[0]
		fns = fns[1:]
		if seen[fn] || !inModule(fn) {
			continue
		}
		seen[fn] = true
		n++
		for _, a := range fn.AnonFuncs {
			fns = append(fns, a)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						r.Check("no-other-state", fn.Name(), s.Pos(), false, "an operation changes the package-level variable %s, which a reset does not restore", g.Name())
					}
					if f, ok := s.Addr.(*ssa.FieldAddr); ok && m.within(f) {
						r.Check("no-other-state", fn.Name(), s.Pos(), false, "an operation changes %s of the engine, which a reset does not restore", fieldName(f))
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							r.Check("no-other-state", fn.Name(), mu.Pos(), false, "an operation changes the package-level table %s, which a reset does not restore", g.Name())
						}
						if f, ok := u.X.(*ssa.FieldAddr); ok && m.within(f) {
							r.Check("no-other-state", fn.Name(), mu.Pos(), false, "an operation changes %s of the engine, which a reset does not restore", fieldName(f))
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						fns = append(fns, f)
					}
				}
			}
		}
	}
	r.Check("no-other-state", "operations", m.dispatch.Pos(), n > 10, "only %d functions are reached by operations", n)
}

// within reports whether a field belongs to the engine, or to a structure
// within it.
func (m *engineModel) within(f *ssa.FieldAddr) bool {
	for {
		t := deref(f.X.Type())
		for _, x := range ctrlFields(m.engine) {
			for _, o := range x.owners {
				if types.Identical(o, t) {
					return true
				}
			}
		}
		up, ok := f.X.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		f = up
	}
}

func fieldName(f *ssa.FieldAddr) string {
	return under(deref(f.X.Type())).(*types.Struct).Field(f.Field).Name()
}

// ---------------------------------------------------------------------------
// C08

func checkC08(r *Report) {
	m := findEngine(r.P)
	r.Rule("lineage", 4, "the envelope of a produced message has a fresh identifier, the handled message's identifier as its cause, its correlation, the engine time, and an origin naming handler, type and instance")
	r.Rule("dispatched", 1, "a dispatched message is its own cause and correlation, was created at the engine time, and has no origin")
	r.Rule("fresh", 1, "every call of the identifier generator returns a different identifier")
	r.Rule("one-generator", 3, "every controller draws identifiers from the engine's generator")
	r.Rule("scheduled-for", 1, "a timeout's envelope carries exactly the time it was scheduled for")
	checkGenerator(r)
	for _, kind := range []string{"aggregate", "process", "integration"} {
		k := findCtrl(r, kind)
		ps, _ := k.run(r, false)
		for _, cl := range allClients(ps) {
			id := k.instanceOfClient(ps, cl)
			for _, u := range cl.Trans {
				if u.Kind != "ret" || !produces[u.Op] {
					continue
				}
				where := kind + ": " + u.Op
				pos := posOf(u.Events)
				got := u.produced()
				if !r.Check("lineage", where, pos, len(got) == 1, "%d envelopes are created for one message", len(got)) {
					continue
				}
				k.checkLineage(r, where, pos, u, got[0], id)
			}
		}
	}
	// dispatch
	for _, p := range r.Run(Config{}, m.dispatch, nil) {
		if p.Kind != "ret" {
			continue
		}
		env := m.begunEnvelope(p, "DispatchCycleBegun")
		var at *Term
		for _, ev := range p.Events {
			if ev.Kind == "notify" && factName(ev) == "DispatchCycleBegun" {
				at = factField(ev, "EngineTime")
			}
		}
		where := "Engine.Dispatch"
		pos := m.dispatch.Pos()
		if !r.Check("dispatched", where, pos, env != nil && env.Op == "obj", "the dispatched message is not put in a new envelope: %v", env) {
			continue
		}
		et := deref(env.Typ)
		f := func(n string) *Term { return loadField(p.St, env, et, n) }
		id := f("MessageID")
		r.Check("dispatched", where, pos, isFreshID(id, p.Events, func(a *Term) bool {
			return root(a) == mk("param", m.dispatch.Params[0].Name(), nil)
		}), "the identifier is %v, which is not newly generated", id)
		r.Check("dispatched", where, pos, f("CausationID") == id, "the causation identifier is %v", f("CausationID"))
		r.Check("dispatched", where, pos, f("CorrelationID") == id, "the correlation identifier is %v", f("CorrelationID"))
		r.Check("dispatched", where, pos, f("Origin").Op == "nil", "the origin is %v", f("Origin"))
		r.Check("dispatched", where, pos, f("CreatedAt") == at, "the creation time is %v instead of the engine time %v", f("CreatedAt"), at)
		var msg *Term
		for _, q := range m.dispatch.Params {
			if typeKey(q.Type()) == dogmaPath+".Message" {
				msg = mk("param", q.Name(), q.Type())
			}
		}
		r.Check("dispatched", where, pos, f("Message") == msg, "the envelope holds %v instead of the dispatched message", f("Message"))
		p.each(func(ev *Event, sc scope) {
			if isCtrlCall(ev, "Handle") {
				r.Check("dispatched", where, ev.Pos, ev.Args[2] == at, "handlers are given %v as the current time instead of the engine time", ev.Args[2])
			}
		})
	}
	// tick hands the engine time on
	for _, p := range r.Run(Config{}, m.tick, nil) {
		var at *Term
		p.each(func(ev *Event, sc scope) {
			if ev.Kind == "notify" && factName(ev) == "TickCycleBegun" {
				at = factField(ev, "EngineTime")
			}
		})
		p.each(func(ev *Event, sc scope) {
			if isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick") {
				r.Check("dispatched", "Engine.Tick", ev.Pos, at != nil && ev.Args[2] == at, "handlers are given %v as the current time instead of the engine time", ev.Args[2])
			}
		})
	}
	checkOneGenerator(r, m)
}

func (k *ctrl) instanceOfClient(ps []*Path, cl *Client) *Term {
	for _, p := range ps {
		for i, ev := range p.Events {
			if ev.Kind == "loop" && ev.Loop.Client == cl {
				return k.instanceID(p.Events[:i])
			}
		}
	}
	return nil
}

// isFreshID reports whether id is the result of one step of the generator's
// counter within the given events.
func isFreshID(id *Term, evs []*Event, counter func(addr *Term) bool) bool {
	if id == nil {
		return false
	}
	for _, ev := range evs {
		if a, n := stepOf(ev); a != nil && counter(a) && id.contains(func(x *Term) bool { return x == n }) {
			return isInjective(id, n)
		}
	}
	return false
}

// stepOf recognises an increment of a counter by one. It returns the counter's
// address and its new value.
func stepOf(ev *Event) (addr, val *Term) {
	one := func(t *Term) bool { return linOf(t).isConst() && linOf(t).c == 1 }
	switch {
	case ev.Kind == "store":
		// other goroutines are excluded, see checkGenerator
		if ev.In != nil && ev.In.Signature.Recv() != nil && isGenerator(ev.In.Signature.Recv().Type()) && isIntegerType(ev.Val.Typ) {
			return ev.Addr, ev.Val
		}
	case ev.Kind != "call" || len(ev.Res) != 1:
	case strings.HasPrefix(ev.Name, "sync/atomic.Add") && len(ev.Args) == 2 && one(ev.Args[1]):
		return ev.Args[0], ev.Res[0]
	case strings.HasPrefix(ev.Name, "(*sync/atomic.") && ev.Method == "Add" && len(ev.Args) == 1 && one(ev.Args[0]):
		return ev.Recv, ev.Res[0]
	}
	return nil, nil
}

func isGenerator(t types.Type) bool {
	return strings.HasSuffix(typeKey(deref(t)), "envelope.MessageIDGenerator")
}

// isInjective recognises renderings from which the number can be recovered.
func isInjective(t, n *Term) bool {
	if t == n {
		return true
	}
	if t.Op == "pure" && len(t.Args) > 0 {
		switch t.Aux {
		case "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa":
			return t.Args[0] == n
		case "fmt.Sprint":
			return len(t.Args) == 1 && t.Args[0].contains(func(x *Term) bool { return x == n })
		case "fmt.Sprintf":
			f, ok := constStr(t.Args[0])
			return ok && (strings.Contains(f, "%d") || strings.Contains(f, "%v") || strings.Contains(f, "%x")) && t.Args[1].contains(func(x *Term) bool { return x == n })
		}
	}
	if t.Op == "cat" {
		return t.contains(func(x *Term) bool { return x != t && isInjective(x, n) })
	}
	return false
}

func checkGenerator(r *Report) {
	next := need(r.P.Method("envelope", "MessageIDGenerator", "Next"), "MessageIDGenerator.Next")
	g := mk("param", next.Params[0].Name(), next.Params[0].Type())
	for _, p := range r.Run(Config{}, next, nil) {
		if p.Kind != "ret" {
			continue
		}
		steps, ok := 0, true
		var held *Term
		for _, ev := range p.Events {
			switch {
			case isLock(ev) && root(ev.Recv) == g:
				held = ev.Recv
			case isUnlock(ev) && ev.Recv == held && !ev.Defer:
				held = nil
			case ev.Kind == "store" && root(ev.Addr) == g:
				old := mkLoad(ev.Addr, ev.Val.Typ)
				d := linOf(ev.Val).plus(linOf(old), -1)
				ok = ok && held != nil && d.isConst() && d.c == 1
				steps++
			default:
				if a, _ := stepOf(ev); a != nil {
					steps++
				}
			}
		}
		ok = ok && steps == 1 && isFreshID(p.Vals[0], p.Events, func(a *Term) bool { return root(a) == g })
		r.Check("fresh", "MessageIDGenerator.Next", next.Pos(), ok, "the identifier returned is %v, which is not one step of a counter that is used by one goroutine at a time", p.Vals[0])
	}
}

func (k *ctrl) checkLineage(r *Report, where string, pos token.Pos, u *Use, env, id *Term) {
	et := deref(env.Typ)
	f := func(n string) *Term { return loadField(u.After, env, et, n) }
	eq := func(what string, got, want *Term) {
		r.Check("lineage", where, pos, got == want, "%s is %v instead of %v", what, got, want)
	}
	gen := k.initField(k.stateField("ids"))
	r.Check("lineage", where, pos, isFreshID(f("MessageID"), u.Events, func(a *Term) bool { return root(a) == gen }), "the identifier is %v, which is not newly generated", f("MessageID"))
	eq("the causation identifier", f("CausationID"), k.envField("MessageID"))
	eq("the correlation identifier", f("CorrelationID"), k.envField("CorrelationID"))
	eq("the creation time", f("CreatedAt"), k.now)
	eq("the message", f("Message"), u.Args[0])
	o := f("Origin")
	if r.Check("lineage", where, pos, o.Op == "obj" && typeKey(deref(o.Typ)) == modulePath+"/envelope.Origin", "the origin is %v", o) {
		ot := deref(o.Typ)
		eq("the origin's handler", loadField(u.After, o, ot, "Handler"), k.cfg)
		ht := loadField(u.After, o, ot, "HandlerType")
		s, ok := constStr(ht)
		isType := ok && s == k.kind || pureCall(ht, "HandlerType") != nil && pureCall(ht, "HandlerType")[0] == k.cfg
		r.Check("lineage", where, pos, isType, "the origin's handler type is %v", ht)
		inst := loadField(u.After, o, ot, "InstanceID")
		if k.kind == "integration" {
			eq("the origin's instance", inst, mkStr(""))
		} else {
			eq("the origin's instance", inst, id)
		}
	}
	if u.Op == "ScheduleTimeout" {
		got := f("ScheduledFor")
		r.Check("scheduled-for", where, pos, got == u.Args[1], "the timeout is scheduled for %v instead of the requested time", got)
	}
}

// checkOneGenerator checks that registered controllers share the engine's
// identifier generator.
func checkOneGenerator(r *Report, m *engineModel) {
	eachRegistration(r, m, func(kind string, fn *ssa.Function, _ *State, q *Path, e, ctl *Term) {
		if kind == "Projection" {
			return
		}
		where := "VisitRich" + kind
		t := deref(ctl.TAux)
		s, ok := under(t).(*types.Struct)
		if !ok {
			r.Check("one-generator", where, fn.Pos(), false, "the controller is not a struct")
			return
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if typeKey(s.Field(i).Type()) == "*"+modulePath+"/envelope.MessageIDGenerator" {
				v := q.St.load(mkFaddr(ctl.Args[0], i, s, t), s.Field(i).Type())
				found = v.Op == "faddr" && v.Args[0] == e
				if !found {
					// the engine may hold a pointer to the generator
					x := fieldLoad(v, fieldNameOf(v))
					found = x == e
				}
			}
		}
		r.Check("one-generator", where, fn.Pos(), found, "the controller does not use the engine's identifier generator")
	})
}

func fieldNameOf(v *Term) string {
	if len(v.Args) == 1 && v.Args[0].Op == "faddr" {
		if i := strings.LastIndexByte(v.Args[0].Aux, ':'); i >= 0 {
			return v.Args[0].Aux[i+1:]
		}
	}
	return "?"
}

// eachRegistration visits, for every kind of handler, the paths that register
// a controller, with the controller.
func eachRegistration(r *Report, m *engineModel, f func(kind string, fn *ssa.Function, before *State, q *Path, e, ctl *Term)) {
	newFn := need(r.P.Func("engine", "New"), "engine.New")
	n := 0
	for _, p := range r.Run(Config{}, newFn, nil) {
		if p.Kind != "ret" || len(p.Vals) != 2 || p.Vals[0].Op == "nil" {
			continue
		}
		e := p.Vals[0]
		var v *Term
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && ev.Method == "AcceptRichVisitor" && len(ev.Args) > 0 && ev.Args[len(ev.Args)-1].Op == "iface" {
				v = ev.Args[len(ev.Args)-1]
			}
		})
		if v == nil {
			continue
		}
		for _, kind := range []string{"Aggregate", "Process", "Integration", "Projection"} {
			fn := r.P.MethodOf(deref(v.TAux), "VisitRich"+kind)
			if fn == nil {
				continue
			}
			before := anyRegistered(r, p, v)
			for _, q := range r.Run(Config{}, fn, before.clone(), v.Args[0]) {
				if m.sameName(q, e, mk("param", fn.Params[2].Name(), fn.Params[2].Type())) {
					continue
				}
				st := under(m.engine).(*types.Struct)
				cm := q.St.mapState(q.St.load(mkFaddr(e, m.ctrls, st, m.engine), fieldVar(st, m.ctrls).Type()))
				if cm.Op != "mapset" || cm.Args[2].Op != "iface" {
					r.Undecided("VisitRich%s: cannot find the registered controller", kind)
					continue
				}
				n++
				f(kind, fn, before, q, e, cm.Args[2])
			}
		}
	}
	if n == 0 {
		r.Undecided("engine.New: no registration found")
	}
}
