package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = checkC22
	checks["C23"] = checkC23
	checks["C24"] = checkC24
}

// The expectations about messages, by the functions that make them.
var messageExpectations = map[string][]string{
	"specific": {"ToExecuteCommand", "ToRecordEvent"},
	"type":     {"ToExecuteCommandType", "ToRecordEventType", "ToExecuteCommandOfType", "ToRecordEventOfType"},
	"some":     {"ToExecuteCommandMatching", "ToRecordEventMatching"},
	"only":     {"ToOnlyExecuteCommandsMatching", "ToOnlyRecordEventsMatching"},
}

// producing are the facts about produced messages, and the field that holds
// the message's envelope.
var producing = map[string]string{
	"EventRecordedByAggregate":   "EventEnvelope",
	"EventRecordedByIntegration": "EventEnvelope",
	"CommandExecutedByProcess":   "CommandEnvelope",
	"TimeoutScheduledByProcess":  "TimeoutEnvelope",
}

// A msgPred is the predicate of an expectation about messages.
type msgPred struct {
	kind   string // see messageExpectations
	name   string // of the function that makes it
	fn     *ssa.Function
	given  *Term // the message or function that it is made from
	expect *Term // the expected message type
	opt    bool  // messages that start a dispatch are considered
	cmp    *Term // the comparator
	pred   *Term
	st     *State
	notify *ssa.Function
}

// A msgRefusal is a path on which such an expectation gives an error or
// panics, or (for the purpose of the guard) one on which it does not.
type msgGuard struct {
	name   string
	kind   string
	fn     *ssa.Function
	path   *Path
	opt    bool
	expect *Term
	app    *Term
	ok     bool
}

const typeOfName = "github.com/dogmatiq/enginekit/message.TypeOf"

func (r *Report) typeOf(m *Term) *Term {
	return mk("pure", typeOfName, r.P.messageType, m)
}

// kindOf is the kind of a message type.
func kindOf(mt *Term) *Term {
	return mk("pure", "(github.com/dogmatiq/enginekit/message.Type).Kind", types.Typ[types.Int], mt)
}

// messagePreds analyses how the expectations of a kind make predicates.
func (r *Report) messagePreds(kind string) ([]*msgPred, []*msgGuard) {
	return r.predsWith(kind, true)
}

// predsWith does so for tests with or without a comparator.
func (r *Report) predsWith(kind string, comparator bool) (ms []*msgPred, gs []*msgGuard) {
	st0 := r.P.Type("", "PredicateScope")
	if st0 == nil {
		panic(giveUp{"cannot find the type PredicateScope"})
	}
	ot := r.P.Type("", "PredicateOptions")
	if ot == nil {
		panic(giveUp{"cannot find the type PredicateOptions"})
	}
	for _, name := range messageExpectations[kind] {
		fn := need(r.P.Func("", name), name)
		var given *Term
		for i := range fn.Params {
			given = mk("param", "given", fn.Params[i].Type())
		}
		var args []*Term
		if given != nil {
			args = []*Term{given}
		}
		for _, p := range only(r.Run(Config{}, fn, nil, args...), "ret") {
			for _, opt := range []bool{true, false} {
				s := mk("param", "scope", st0)
				o := structField(s, st0, "Options")
				if o == nil {
					panic(giveUp{"PredicateScope has no options"})
				}
				match := structField(o, ot, "MatchDispatchCycleStartedFacts")
				cmp := structField(o, ot, "MessageComparator")
				app := structField(s, st0, "App")
				if match == nil || cmp == nil || app == nil {
					panic(giveUp{"PredicateOptions does not have the expected fields"})
				}
				st := p.after()
				if !st.assume(match, opt) || !st.assume(mkEq(tNil, cmp, nil), !comparator) {
					panic(giveUp{"options of predicates cannot be assumed"})
				}
				qs, known := r.invoke(Config{}, st, p.Vals[0], "Predicate", s)
				if !known {
					panic(giveUp{"what " + name + " returns is not known"})
				}
				pfn := r.P.methodNamed(ifaceType(p.Vals[0]), "Predicate")
				var expect *Term
				switch {
				case kind == "specific" || strings.HasSuffix(name, "OfType"):
					expect = r.typeOf(given)
				default:
					expect = mk("typefor", "T", nil)
				}
				for _, q := range qs {
					g := &msgGuard{name: name, kind: kind, fn: pfn, path: q, opt: opt, expect: expect, app: app}
					gs = append(gs, g)
					if q.Kind != "ret" || len(q.Vals) != 2 || !lits(q.Lits).isNil(q.Vals[1]) {
						continue
					}
					g.ok = true
					m := &msgPred{kind: kind, name: name, fn: fn, given: given, expect: expect, opt: opt, cmp: cmp, pred: q.Vals[0], st: q.after()}
					m.notify = r.P.methodNamed(ifaceType(m.pred), "Notify")
					if m.notify == nil {
						panic(giveUp{"the predicate of " + name + " is not known"})
					}
					ms = append(ms, m)
				}
			}
		}
	}
	return ms, gs
}

// factTypes are the types of facts.
func factTypes(r *Report) []*types.Named {
	q := r.P.pkg("fact")
	if q == nil {
		panic(giveUp{"cannot find the package fact"})
	}
	var ts []*types.Named
	sc := q.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			continue
		}
		if obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, q.Pkg, "Notify"); obj != nil {
			continue
		}
		ts = append(ts, t)
	}
	return ts
}

// A preState is an arbitrary state of a predicate, as far as it depends on
// the facts of which it has been notified.
type preState struct {
	st    *State
	bools map[*Term]bool
}

// A transition is a notification from such a state.
type transition struct {
	m    *msgPred
	pre  *preState
	fact *types.Named
	arg  *Term // the fact
	env  *Term // the envelope that must be considered, or nil
	msg  *Term // its message
	path *Path
}

// messageOf is the message in an envelope.
func (r *Report) messageOf(env *Term) *Term {
	et := r.P.Type("envelope", "Envelope")
	if et == nil {
		panic(giveUp{"cannot find the type envelope.Envelope"})
	}
	s := under(et).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Message" {
			return mkLoad(mkFaddr(env, i, s, et), s.Field(i).Type())
		}
	}
	panic(giveUp{"envelopes have no message"})
}

// transitions analyses the notification of a predicate of every type of fact
// from every state that it can be in.
func (r *Report) transitions(m *msgPred, cfg Config) []*transition {
	facts := factTypes(r)
	mutable := map[*Term]types.Type{}
	signed := map[*Term]bool{}
	var trs []*transition
	for round := 0; ; round++ {
		if round > 20 {
			panic(giveUp{"the states of the predicate of " + m.name + " are not understood"})
		}
		trs = nil
		again := false
		// the initial state
		first := &preState{st: m.st, bools: map[*Term]bool{}}
		for c, t := range mutable {
			if isBoolType(t) {
				v, known := m.st.decide(m.st.load(c, t))
				if !known {
					panic(giveUp{"the initial state of the predicate of " + m.name + " is not known"})
				}
				first.bools[c] = v
			}
		}
		seen := map[string]bool{}
		work := []map[*Term]bool{first.bools}
		for len(work) > 0 && !again {
			bs := work[0]
			work = work[1:]
			if k := boolsKey(bs); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			st := m.st.clone()
			for c, t := range mutable {
				switch {
				case isBoolType(t):
					st.heap[c] = mkBool(bs[c])
				case isIntegerType(t) && !signed[c]:
					st.heap[c] = mkLen(mk("param", "pre:"+c.String(), nil))
				default:
					st.heap[c] = mk("param", "pre:"+c.String(), t)
				}
			}
			pre := &preState{st: st, bools: bs}
			for _, ft := range facts {
				arg := mk("param", "fact", ft)
				tr0 := transition{m: m, pre: pre, fact: ft, arg: arg}
				field := producing[ft.Obj().Name()]
				if ft.Obj().Name() == "DispatchCycleBegun" && m.opt {
					field = "Envelope"
				}
				if field != "" {
					tr0.env = structField(arg, ft, field)
					if tr0.env == nil {
						panic(giveUp{ft.Obj().Name() + " has no field " + field})
					}
					tr0.msg = r.messageOf(tr0.env)
				}
				st := st
				if tr0.env != nil {
					st = st.clone()
					st.assume(mkEq(tNil, tr0.env, nil), false)
				}
				ps, _ := r.invoke(cfg, st, m.pred, "Notify", mkIface(ft, arg))
				for _, p := range ps {
					tr := tr0
					tr.path = p
					trs = append(trs, &tr)
					if p.Kind != "ret" {
						continue
					}
					next := []map[*Term]bool{{}}
					for c, v := range p.St.heap {
						if !p.St.objs[root(c)] || !m.st.objs[root(c)] || c.Op == "mapcell" || c.Op == "chancell" {
							continue
						}
						was, ok := st.heap[c]
						if !ok {
							if v.Typ == nil {
								continue
							}
							was = st.load(c, v.Typ)
						}
						t, isMutable := mutable[c]
						if was != v && !isMutable {
							ct := cellType(c)
							if ct == nil {
								ct = v.Typ
							}
							mutable[c] = ct
							again = true
							continue
						}
						if !isMutable {
							continue
						}
						if isIntegerType(t) && !signed[c] {
							d := linOf(v).plus(linOf(was), -1)
							if n, known := constInt(d.term(t)); !known || n < 0 {
								if n, known := constInt(v); !known || n < 0 {
									signed[c] = true
									again = true
								}
							}
						}
						if isBoolType(t) {
							b, known := lits(p.Lits).decide(v)
							var more []map[*Term]bool
							for _, x := range next {
								for _, bv := range []bool{true, false} {
									if !known || bv == b {
										y := cloneMap(x)
										y[c] = bv
										more = append(more, y)
									}
								}
							}
							next = more
						}
					}
					for _, x := range next {
						for c, b := range bs {
							if _, ok := x[c]; !ok {
								x[c] = b
							}
						}
						work = append(work, x)
					}
				}
			}
		}
		if !again {
			return trs
		}
	}
}

func boolsKey(m map[*Term]bool) string {
	var ss []string
	for c, b := range m {
		ss = append(ss, fmt.Sprint(c.ID, b))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// cellType is the type of a field.
func cellType(c *Term) types.Type {
	if c.Op == "faddr" && c.TAux != nil {
		if s, ok := under(deref(c.TAux)).(*types.Struct); ok && c.Idx < s.NumFields() {
			return s.Field(c.Idx).Type()
		}
	}
	return nil
}

// verdicts are the verdicts that a predicate gives once it is finalised in
// some state, and the conditions for each.
func (r *Report) verdicts(st *State, pred *Term) []*Path {
	var vs []*Path
	ds, ok := r.invoke(Config{Salt: "done"}, st, pred, "Done")
	if !ok {
		panic(giveUp{"the predicate's Done method is not known"})
	}
	for _, d := range ds {
		if d.Kind != "ret" {
			vs = append(vs, d)
			continue
		}
		ps, _ := r.invoke(Config{Salt: "ok"}, d.after(), pred, "Ok")
		vs = append(vs, ps...)
	}
	return vs
}

// change calls f with the verdict before and after a transition, for every
// combination of conditions.
func (r *Report) change(tr *transition, f func(before, after bool, known bool, ls lits)) {
	was := r.verdicts(tr.pre.st, tr.m.pred)
	is := r.verdicts(tr.path.after(), tr.m.pred)
	for _, w := range was {
		for _, n := range is {
			if w.Kind != "ret" || n.Kind != "ret" {
				f(false, false, false, lits{})
				continue
			}
			st := newState()
			st.lits = cloneMap(n.Lits)
			ok := true
			for a, b := range w.Lits {
				ok = ok && st.assume(a, b)
			}
			if !ok {
				continue
			}
			yes, no := st.split(w.Vals[0])
			for i, ss := range [][]*State{yes, no} {
				for _, s := range ss {
					y2, n2 := s.split(n.Vals[0])
					for j, s2 := range [][]*State{y2, n2} {
						for _, s3 := range s2 {
							f(i == 0, j == 0, true, s3.lits)
						}
					}
				}
			}
		}
	}
}

// initially checks that a predicate's verdict before any fact is as given.
func (r *Report) initially(rule string, m *msgPred, want bool) {
	for _, v := range r.verdicts(m.st, m.pred) {
		ok := false
		if v.Kind == "ret" {
			b, known := lits(v.Lits).decide(v.Vals[0])
			ok = known && b == want
		}
		r.Check(rule, m.name, m.fn.Pos(), ok, "without any messages the verdict is not %v", want)
	}
}

// sameType decides whether a path's conditions say that the considered
// message is of the expected type.
func (r *Report) sameType(tr *transition, ls lits) (bool, bool) {
	a, b := r.typeOf(tr.msg), tr.m.expect
	if v, known := ls.decide(mkEq(a, b, r.P.messageType)); known {
		return v, true
	}
	for atom, v := range ls {
		if atom.Op != "eq" {
			continue
		}
		// reflect.TypeOf(x) == reflect.TypeOf(y)
		x, y := pureNamed(atom.Args[0], "reflect.TypeOf"), pureNamed(atom.Args[1], "reflect.TypeOf")
		if len(x) == 1 && len(y) == 1 && tr.m.given != nil {
			if stripIface(x[0]) == tr.msg && stripIface(y[0]) == tr.m.given || stripIface(y[0]) == tr.msg && stripIface(x[0]) == tr.m.given {
				return v, true
			}
		}
	}
	if v, known := ls.decide(mkEq(kindOf(a), kindOf(b), types.Typ[types.Int])); known && !v {
		return false, true
	}
	// a message of another type than T is not exactly of type T
	if atom := isTParam(ls, tr.msg); atom != nil && ls.refutes(atom) && b.Op == "typefor" {
		return false, true
	}
	return false, false
}

// isTParam is the condition that a value is of the type parameter's type.
func isTParam(ls lits, v *Term) *Term {
	for a := range ls {
		if a.Op == "isT" && a.Args[0] == v {
			if _, ok := types.Unalias(a.TAux).(*types.TypeParam); ok {
				return a
			}
		}
	}
	return nil
}

func (tr *transition) name() string { return tr.m.name }

func (tr *transition) what() string {
	s := "fact." + tr.fact.Obj().Name()
	if tr.m.opt {
		s += " (in the context of a call)"
	}
	return s
}

func (tr *transition) pos() token.Pos { return tr.m.notify.Pos() }

// ---------------------------------------------------------------------------
// C22

func checkC22(r *Report) {
	r.Rule("guard", 6, "an expectation of a message type that the application does not use, or (unless the action is a call) does not produce, is invalid, and no other")
	r.Rule("initially", 6, "an expectation is not met before any message is considered")
	r.Rule("latch", 6, "a considered message makes the expectation met exactly if it is of the expected type and equal to the expected one; once met it stays met")
	for _, kind := range []string{"specific", "type"} {
		ms, gs := r.messagePreds(kind)
		for _, g := range gs {
			r.guardRule("guard", g)
		}
		for _, m := range ms {
			r.initially("initially", m, false)
			for _, tr := range r.transitions(m, comparing) {
				r.latch("latch", tr)
			}
		}
	}
	// the type in the guard
	for _, kind := range []string{"some", "only"} {
		_, gs := r.messagePreds(kind)
		for _, g := range gs {
			r.guardRule("guard", g)
		}
	}
}

// comparing keeps calls of user functions free of effects.
var comparing = Config{OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
	if ev.Name == "dyn" {
		st.emit(ev)
		return []*CallOut{{St: st, Vals: ev.Res}}
	}
	return nil
}}

// guardRule checks when the predicate of an expectation is refused.
func (r *Report) guardRule(rule string, g *msgGuard) {
	ls := lits(g.path.Lits)
	if !r.Check(rule, g.name, g.fn.Pos(), g.path.Kind == "ret", "it panics: %v", g.path.PVal) {
		return
	}
	if !g.ok {
		e := g.path.Vals[len(g.path.Vals)-1]
		r.Check(rule, g.name, g.fn.Pos(), nonNil(e) || ls.notNil(e), "it is refused by %v, which may be nil", e)
	}
	used, usedKnown, produced, prodKnown := false, false, false, false
	iface := false // T may be an interface, which is not a message type
	for a, v := range ls {
		if a.Op == "has" && mentionsTerm(a, g.app) && a.Args[1] == g.expect {
			used, usedKnown = v, true
		}
		if a.Op != "has" && a.contains(func(t *Term) bool { return t.Op == "lookup" && t.Args[1] == g.expect && mentionsTerm(t, g.app) }) {
			if f := termField(a); f == "IsProduced" {
				produced, prodKnown = v, true
			}
		}
		if a.Op != "has" && a.contains(func(t *Term) bool { return t == g.expect }) && strings.Contains(a.String(), "Kind") && !a.contains(func(t *Term) bool { return t.Op == "lookup" }) {
			if n, isConst := reflectKind(a); isConst && n == 20 {
				iface = iface || v
			}
		}
	}
	if iface && (g.kind == "some" || g.kind == "only") {
		r.Check(rule, g.name, g.fn.Pos(), g.ok, "an expectation of an interface type is refused")
		return
	}
	ctx := "the action dispatches a message or advances time"
	if g.opt {
		ctx = "the action is a call"
	}
	switch {
	case usedKnown && !used:
		r.Check(rule, g.name, g.fn.Pos(), !g.ok, "a message type that the application does not use is accepted")
	case !usedKnown:
		r.Check(rule, g.name, g.fn.Pos(), false, "it does not depend on whether the application uses the message type if %s", ctx)
	case g.opt:
		r.Check(rule, g.name, g.fn.Pos(), g.ok, "a message type that the application uses is refused although %s", ctx)
	case prodKnown:
		r.Check(rule, g.name, g.fn.Pos(), g.ok == produced, "a message type for which IsProduced is %v is not treated accordingly if %s", produced, ctx)
	default:
		r.Check(rule, g.name, g.fn.Pos(), false, "it does not depend on whether the application produces the message type if %s", ctx)
	}
}

func mentionsTerm(t, x *Term) bool { return t.contains(func(y *Term) bool { return y == x }) }

// termField is the name of the field that a term selects.
func termField(t *Term) string {
	switch t.Op {
	case "field":
		if s, ok := under(t.Args[0].Typ).(*types.Struct); ok && t.Idx < s.NumFields() {
			return s.Field(t.Idx).Name()
		}
		if t.Args[0].Typ == nil {
			return t.Aux
		}
	case "ld":
		a := t.Args[0]
		if a.Op == "faddr" && a.TAux != nil {
			if s, ok := under(deref(a.TAux)).(*types.Struct); ok && a.Idx < s.NumFields() {
				return s.Field(a.Idx).Name()
			}
		}
	}
	return ""
}

// reflectKind is the constant with which a condition compares something.
func reflectKind(a *Term) (int64, bool) {
	if a.Op == "eq0" {
		l := linOf(a.Args[0])
		for _, k := range l.m {
			if k == 1 {
				return -l.c, true
			}
			if k == -1 {
				return l.c, true
			}
		}
	}
	return 0, false
}

// latch checks a transition of a specific message or type expectation.
func (r *Report) latch(rule string, tr *transition) {
	if !r.Check(rule, tr.name(), tr.pos(), tr.path.Kind == "ret", "%s: it panics: %v", tr.what(), tr.path.PVal) {
		return
	}
	r.change(tr, func(before, after, known bool, ls lits) {
		if !r.Check(rule, tr.name(), tr.pos(), known, "%s: the verdict is not known", tr.what()) {
			return
		}
		if before {
			r.Check(rule, tr.name(), tr.pos(), after, "%s: the expectation was met but no longer is", tr.what())
			return
		}
		if tr.env == nil {
			r.Check(rule, tr.name(), tr.pos(), !after, "%s: a message that must not be considered makes the expectation met", tr.what())
			return
		}
		same, decided := r.sameType(tr, ls)
		if !r.Check(rule, tr.name(), tr.pos(), decided, "%s: the verdict does not depend on the message's type", tr.what()) {
			return
		}
		if !same {
			r.Check(rule, tr.name(), tr.pos(), !after, "%s: a message of another type makes the expectation met", tr.what())
			return
		}
		if tr.m.kind == "type" {
			r.Check(rule, tr.name(), tr.pos(), after, "%s: a message of the expected type does not make the expectation met", tr.what())
			return
		}
		var res *Term
		n := 0
		tr.path.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && ev.Name == "dyn" && ev.Recv == tr.m.cmp && len(ev.Args) == 2 {
				a, b := stripIface(ev.Args[0]), stripIface(ev.Args[1])
				if a == tr.msg && b == tr.m.given || b == tr.msg && a == tr.m.given {
					res = ev.Res[0]
					n++
				}
			}
		})
		if !r.Check(rule, tr.name(), tr.pos(), n == 1, "%s: the messages are compared %d times", tr.what(), n) {
			return
		}
		eq, decided := ls.decide(res)
		r.Check(rule, tr.name(), tr.pos(), decided && eq == after, "%s: the verdict is %v although the comparator's result is %v", tr.what(), after, res)
	})
}

// ---------------------------------------------------------------------------
// C23

func checkC23(r *Report) {
	r.Rule("initially", 4, "without any messages an 'at least one' expectation is not met and an 'only' expectation is")
	r.Rule("calls", 4, "the function is called once for each considered message that is assignable to its parameter until the verdict is settled, and for no other")
	r.Rule("verdict", 4, "the verdict follows from the function's results and, for an 'only' expectation, messages of the same kind but another type")
	for _, kind := range []string{"some", "only"} {
		ms, _ := r.messagePreds(kind)
		for _, m := range ms {
			r.initially("initially", m, kind == "only")
			for _, tr := range r.transitions(m, comparing) {
				r.matching("calls", "verdict", tr)
			}
		}
	}
}

// matching checks a transition of a matching expectation.
func (r *Report) matching(calls, verdict string, tr *transition) {
	if !r.Check(verdict, tr.name(), tr.pos(), tr.path.Kind == "ret", "%s: it panics: %v", tr.what(), tr.path.PVal) {
		return
	}
	var call *Event
	n := 0
	tr.path.each(func(ev *Event, sc scope) {
		if ev.Kind != "call" || ev.Name != "dyn" || ev.Recv != tr.m.given {
			return
		}
		call = ev
		n++
		if len(sc.loops) > 0 {
			n++
		}
	})
	ignore := r.P.globalInit(modulePath + ".IgnoreMessage")
	only := tr.m.kind == "only"
	r.change(tr, func(before, after, known bool, ls lits) {
		if !r.Check(verdict, tr.name(), tr.pos(), known, "%s: the verdict is not known", tr.what()) {
			return
		}
		settled := before != only
		if tr.env == nil {
			r.Check(calls, tr.name(), tr.pos(), n == 0, "%s: the function is called for a message that must not be considered", tr.what())
			r.Check(verdict, tr.name(), tr.pos(), before == after, "%s: a message that must not be considered changes the verdict", tr.what())
			return
		}
		if settled {
			r.Check(verdict, tr.name(), tr.pos(), before == after, "%s: the verdict changes after it is settled", tr.what())
			if !only {
				r.Check(calls, tr.name(), tr.pos(), n == 0, "%s: the function is called after the verdict is settled", tr.what())
			} else {
				r.Check(calls, tr.name(), tr.pos(), n <= 1, "%s: the function is called %d times", tr.what(), n)
			}
			return
		}
		kind, kindKnown := ls.decide(mkEq(kindOf(r.typeOf(tr.msg)), kindOf(tr.m.expect), types.Typ[types.Int]))
		assignable, typeKnown := false, false
		if a := isTParam(ls, tr.msg); a != nil {
			assignable, typeKnown = ls.decide(a)
		}
		switch {
		case kindKnown && !kind:
			r.Check(calls, tr.name(), tr.pos(), n == 0, "%s: the function is called for a message of another kind", tr.what())
			r.Check(verdict, tr.name(), tr.pos(), before == after, "%s: a message of another kind changes the verdict", tr.what())
		case !typeKnown:
			r.Check(calls, tr.name(), tr.pos(), false, "%s: it does not depend on whether the message is assignable to the function's parameter", tr.what())
		case !assignable && !only:
			r.Check(calls, tr.name(), tr.pos(), n == 0, "%s: the function is called for a message of another type", tr.what())
			r.Check(verdict, tr.name(), tr.pos(), before == after, "%s: a message of another type changes the verdict", tr.what())
		case !assignable:
			r.Check(calls, tr.name(), tr.pos(), n == 0, "%s: the function is called for a message of another type", tr.what())
			r.Check(verdict, tr.name(), tr.pos(), kindKnown && !after, "%s: a message of the same kind but another type is not rejected", tr.what())
		default:
			if !r.Check(calls, tr.name(), tr.pos(), n == 1, "%s: the function is called %d times", tr.what(), n) {
				return
			}
			arg := call.Args[0]
			r.Check(calls, tr.name(), call.Pos, arg == tr.msg || arg.Op == "as" && arg.Args[0] == tr.msg, "%s: the function is called with %v", tr.what(), arg)
			res := call.Res[0]
			ign, ignKnown := ignored(ls, res, ignore)
			switch {
			case ls.isNil(res):
				r.Check(verdict, tr.name(), tr.pos(), after, "%s: a message that matches does not count", tr.what())
			case !ls.notNil(res):
				r.Check(verdict, tr.name(), tr.pos(), false, "%s: the function's result is not considered", tr.what())
			case !only:
				r.Check(verdict, tr.name(), tr.pos(), !after, "%s: a message that does not match makes the expectation met", tr.what())
			case ignKnown && ign:
				r.Check(verdict, tr.name(), tr.pos(), after, "%s: a message that is ignored counts as rejected", tr.what())
			case ignKnown:
				r.Check(verdict, tr.name(), tr.pos(), !after, "%s: a message that is rejected does not count", tr.what())
			default:
				r.Check(verdict, tr.name(), tr.pos(), false, "%s: a result of 'ignore' is not distinguished", tr.what())
			}
		}
	})
}

// ignored decides whether a function's result is 'ignore'.
func ignored(ls lits, res, ignore *Term) (bool, bool) {
	for a, v := range ls {
		if a.Op == "eq" && (a.Args[0] == res || a.Args[1] == res) && a.Args[0].Op != "nil" {
			o := a.Args[0]
			if o == res {
				o = a.Args[1]
			}
			if o == ignore || ignore == nil && strings.HasSuffix(o.String(), "IgnoreMessage") {
				return v, true
			}
		}
		if x := pureNamed(a, "errors.Is"); len(x) == 2 && x[0] == res && x[1] == ignore {
			return v, true
		}
	}
	return false, false
}

// ---------------------------------------------------------------------------
// C24

func checkC24(r *Report) {
	r.Rule("considered", 8, "a message is considered exactly if a fact says that a handler produced it or, in the context of a call, that it starts a dispatch")
	r.Rule("context", 3, "only a call lets messages that start a dispatch be considered")
	r.Rule("default", 3, "tests do not let them be considered by default")
	r.Rule("scope", 1, "an expectation step makes the predicate with the options of the test, as modified by the action")
	for _, kind := range []string{"specific", "type"} {
		ms, _ := r.messagePreds(kind)
		for _, m := range ms {
			for _, tr := range r.transitions(m, comparing) {
				r.latch("considered", tr)
			}
		}
	}
	for _, kind := range []string{"some", "only"} {
		ms, _ := r.messagePreds(kind)
		for _, m := range ms {
			for _, tr := range r.transitions(m, comparing) {
				r.matching("considered", "considered", tr)
			}
		}
	}

	// actions
	ot := r.P.Type("", "PredicateOptions")
	os := under(ot).(*types.Struct)
	mi := fieldNamed(os, "MatchDispatchCycleStartedFacts")
	if mi < 0 {
		panic(giveUp{"PredicateOptions does not have the expected fields"})
	}
	for _, fn := range actionMethods(r, "ConfigurePredicate") {
		var opts *Term
		for i, p := range fn.Params {
			if types.Identical(deref(p.Type()), ot) {
				opts = nthParam(fn, i)
			}
		}
		if opts == nil {
			panic(giveUp{"cannot find the options of " + fn.String()})
		}
		name := typeName(fn)
		addr := mkFaddr(opts, mi, os, ot)
		before := mkLoad(addr, fieldVar(os, mi).Type())
		for _, p := range r.Run(Config{}, fn, nil) {
			got := p.St.load(addr, fieldVar(os, mi).Type())
			if isCallAction(r, fn) {
				r.Check("context", name, fn.Pos(), p.Kind == "ret" && lits(p.Lits).holds(got), "a call leaves the option %v", got)
			} else {
				r.Check("context", name, fn.Pos(), p.Kind == "ret" && (got == before || lits(p.Lits).refutes(got)), "it makes the option %v", got)
			}
		}
	}

	// tests
	tt := r.P.Type("", "Test")
	ts := under(tt).(*types.Struct)
	pi := fieldOfType(tt, func(t types.Type) bool { return types.Identical(t, ot) })
	if pi < 0 {
		panic(giveUp{"cannot find the predicate options of a test"})
	}
	option := func(t *Term) *Term { return mkFaddr(mkFaddr(t, pi, ts, tt), mi, os, ot) }
	bt := types.Typ[types.Bool]
	for _, name := range []string{"Begin", "BeginContext"} {
		fn := r.P.Func("", name)
		if fn == nil {
			continue
		}
		for _, p := range only(r.Run(Config{OnCall: keepOptions}, fn, nil), "ret") {
			got := p.St.load(option(p.Vals[0]), bt)
			r.Check("default", name, fn.Pos(), lits(p.Lits).refutes(got), "a test starts with the option %v", got)
		}
	}
	for _, fn := range optionFuncs(r, "", "TestOption") {
		for _, p := range only(r.Run(Config{}, fn, nil), "ret") {
			for _, q := range r.applyOption(p.after(), p.Vals[0], "applyTestOption") {
				for c, v := range q.St.heap {
					if c.Op != "faddr" || c.Idx != mi {
						continue
					}
					for a := c.Args[0]; a.Op == "faddr"; a = a.Args[0] {
						if c == option(a.Args[0]) {
							r.Check("default", fn.Name(), fn.Pos(), v == mkLoad(c, bt) || lits(q.Lits).refutes(v), "it makes the option %v", v)
						}
					}
				}
				r.Check("default", fn.Name(), fn.Pos(), true, "")
			}
		}
	}

	// the step
	fn := testMethod(r, "Expect")
	act := paramOfType(fn, modulePath+".Action")
	st0 := r.P.Type("", "PredicateScope")
	for _, p := range r.Run(Config{OnCall: configureHook(os, ot)}, fn, nil) {
		configured := 0
		p.each(func(ev *Event, _ scope) {
			if isRootIface(ev, "Action", "ConfigurePredicate") && ev.Recv == act {
				configured++
			}
			if isRootIface(ev, "Expectation", "Predicate") {
				o := structField(ev.Args[0], st0, "Options")
				got := structField(o, ot, "MatchDispatchCycleStartedFacts")
				ok := got != nil && got.Op == "hav" && got.Aux == "configured" && configured == 1
				r.Check("scope", "Test.Expect", ev.Pos, ok, "the predicate is made with the option %v", got)
			}
		})
		got, was := p.St.load(option(nthParam(fn, 0)), bt), mkLoad(option(nthParam(fn, 0)), bt)
		r.Check("scope", "Test.Expect", fn.Pos(), got == was || lits(p.Lits).refutes(got), "the option of the test itself becomes %v", got)
	}
}

// configureHook lets an action modify the options that it is given, and
// nothing else.
func configureHook(os *types.Struct, ot types.Type) func(*Interp, *Frame, *State, *Event) []*CallOut {
	return func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if !isRootIface(ev, "Action", "ConfigurePredicate") || len(ev.Args) != 1 {
			return nil
		}
		for i := 0; i < os.NumFields(); i++ {
			c := mkFaddr(ev.Args[0], i, os, ot)
			st.store(c, mk("hav", "configured", os.Field(i).Type(), st.load(c, os.Field(i).Type())), os.Field(i).Type())
		}
		st.emit(ev)
		return []*CallOut{{St: st, Vals: ev.Res}}
	}
}

func fieldNamed(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// keepOptions leaves out what the options of a test do.
func keepOptions(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
	if ev.Method == "applyTestOption" {
		st.emit(ev)
		return []*CallOut{{St: st, Vals: ev.Res}}
	}
	return nil
}

// isCallAction reports whether a method belongs to the action that Call makes.
func isCallAction(r *Report, fn *ssa.Function) bool {
	call := need(r.P.Func("", "Call"), "Call")
	for _, p := range only(r.Run(Config{}, call, nil), "ret") {
		t := ifaceType(p.Vals[0])
		if typeKey(deref(t)) == typeKey(deref(fn.Signature.Recv().Type())) {
			return true
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
