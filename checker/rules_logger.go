package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = checkC30
}

// logged are the facts that the logger must report, and the field that holds
// the envelope concerned.
var logged = map[string]string{
	"EventRecordedByAggregate":             "EventEnvelope",
	"EventRecordedByIntegration":           "EventEnvelope",
	"CommandExecutedByProcess":             "CommandEnvelope",
	"TimeoutScheduledByProcess":            "TimeoutEnvelope",
	"MessageLoggedByAggregate":             "Envelope",
	"MessageLoggedByProcess":               "Envelope",
	"MessageLoggedByIntegration":           "Envelope",
	"MessageLoggedByProjection":            "Envelope",
	"HandlingSkipped":                      "Envelope",
	"ProcessEventIgnored":                  "Envelope",
	"ProcessTimeoutIgnored":                "Envelope",
	"AggregateInstanceCreated":             "Envelope",
	"AggregateInstanceDestroyed":           "Envelope",
	"AggregateInstanceDestructionReverted": "Envelope",
	"ProcessInstanceBegun":                 "Envelope",
	"ProcessInstanceEnded":                 "Envelope",
	"ProcessInstanceEndingReverted":        "Envelope",
	"HandlingCompleted":                    "Envelope",
	"TickCompleted":                        "",
	"ProjectionCompactionCompleted":        "",
}

// envelopeIDs are the identifiers in the order in which a line shows them.
var envelopeIDs = []string{"MessageID", "CausationID", "CorrelationID"}

// checkC30: the fact logger never fails and reports every failure and
// produced message.
func checkC30(r *Report) {
	r.Rule("accepts", 20, "notifying the logger of a fact does not panic and does not dereference an envelope that may be nil")
	r.Rule("line", 18, "a fact that must be reported results in exactly one line")
	r.Rule("failure", 3, "the line about a failure contains the error")
	r.Rule("ids", 18, "the line shows the identifiers of the envelope concerned in order, unaltered, and those of no other envelope")

	mk0 := need(r.P.Func("fact", "NewLogger"), "fact.NewLogger")
	log := mk("param", "log", mk0.Params[0].Type())
	cfg := Config{Texts: true, Faults: true, Derefs: true}
	found := map[string]bool{}
	for _, t := range factTypes(r) {
		name := t.Obj().Name()
		s := t.Underlying().(*types.Struct)
		found[name] = true
		type variant struct {
			name  string
			isNil map[string]bool
		}
		vs := []variant{{"", nil}}
		switch {
		case fieldNamed(s, "Error") >= 0:
			vs = []variant{{" with an error", nil}, {" without an error", map[string]bool{"Error": true}}}
		case name == "MessageLoggedByProjection":
			vs = []variant{{" with an envelope", nil}, {" without an envelope", map[string]bool{"Envelope": true}}}
		}
		for _, v := range vs {
			what := "fact." + name + v.name
			for _, p := range only(r.Run(Config{}, mk0, nil, log), "ret") {
				st := p.after()
				st.assume(mkEq(tNil, log, nil), false)
				f := mk("param", "fact", t)
				for i := 0; i < s.NumFields(); i++ {
					x := mkField(f, i, s.Field(i).Type())
					switch s.Field(i).Type().Underlying().(type) {
					case *types.Pointer, *types.Interface:
						st.assume(mkEq(tNil, x, nil), v.isNil[s.Field(i).Name()])
					}
				}
				recv := p.Vals[0]
				if recv.Op != "iface" {
					recv = mkIface(mk0.Signature.Results().At(0).Type(), recv)
				}
				if fn := r.P.methodNamed(recv.TAux, "Notify"); fn != nil {
					// after any number of other facts
					st = r.anyTimes(st, "logged:"+typeKey(recv.TAux), []*ssa.Function{fn})
				}
				qs, known := r.invoke(cfg, st, recv, "Notify", mkIface(t, f))
				if !known || len(qs) == 0 {
					r.Check("accepts", what, mk0.Pos(), false, "there is no way for Notify to return")
					continue
				}
				var lines []*Path
				for _, q := range qs {
					if !declared(r, lits(q.Lits), f, s) {
						continue
					}
					if q.Kind == "panic" {
						r.Check("accepts", what, mk0.Pos(), false, "Notify panics with %s", describe(q.PVal))
						continue
					}
					ok := true
					q.each(func(ev *Event, sc scope) {
						if ev.Kind == "deref" && (ev.Recv.Op == "nil" || lits(q.Lits).isNil(ev.Recv)) {
							ok = r.Check("accepts", what, ev.Pos, false, "a nil pointer is dereferenced") && ok
						}
					})
					if ok {
						lines = append(lines, q)
					}
				}
				r.Check("accepts", what, mk0.Pos(), true, "")
				field, must := logged[name]
				if !must || v.isNil["Error"] {
					continue
				}
				for _, q := range lines {
					r.logLine(what, q, log, field, f, t, v.isNil[field])
				}
			}
		}
	}
	var names []string
	for n := range logged {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !found[n] {
			panic(giveUp{"cannot find the fact " + n})
		}
	}
}

// declared tells whether the enumerated fields of a fact may have declared
// values.
func declared(r *Report, ls lits, f *Term, s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		t, ok := s.Field(i).Type().(*types.Named)
		if !ok || t.Obj().Pkg() == nil || !inModulePath(t.Obj().Pkg().Path()) {
			continue
		}
		if _, ok := t.Underlying().(*types.Basic); !ok {
			continue
		}
		x := mkField(f, i, t)
		n, other := 0, 0
		sc := t.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), t) {
				n++
				if ls.refutes(mkEq(x, mkConst(c.Val(), t), t)) {
					other++
				}
			}
		}
		if n > 0 && n == other {
			return false
		}
	}
	return true
}

// logLine checks what is logged on a path.
func (r *Report) logLine(what string, q *Path, log *Term, field string, f *Term, t *types.Named, blank bool) {
	n, looped := 0, false
	var line *Event
	q.each(func(ev *Event, sc scope) {
		if ev.Kind != "call" || ev.Name != "dyn" || ev.Recv != log {
			return
		}
		n++
		line = ev
		looped = looped || len(sc.loops) > 0
	})
	switch {
	case n == 0:
		r.Check("line", what, posOf(q.Events), false, "no line is logged")
		return
	case n > 1 || looped:
		r.Check("line", what, line.Pos, false, "more than one line may be logged")
		return
	}
	if !r.Check("line", what, line.Pos, len(line.Args) == 1, "the log function is not given one line") {
		return
	}
	if e := structField(f, t, "Error"); e != nil {
		texts := map[*Term]bool{e: true}
		q.each(func(ev *Event, sc scope) {
			if ev.Kind == "call" && ev.Method == "Error" && ev.Recv == e {
				for _, x := range ev.Res {
					texts[x] = true
				}
			}
		})
		says := line.Args[0].contains(func(x *Term) bool { return texts[x] })
		// an error without a text
		for a, v := range q.Lits {
			says = says || v && a.Op == "eq0" && a.contains(func(x *Term) bool { return texts[x] })
		}
		r.Check("failure", what, line.Pos, says, "the line does not contain the error")
	}
	var env *Term
	if field != "" && !blank {
		env = structField(f, t, field)
		if env == nil {
			panic(giveUp{"the fact " + t.Obj().Name() + " has no field " + field})
		}
	}
	// What is concerned is identified by the first three values that are
	// parts of envelopes.
	next := 0
	absent := func(i int) bool {
		x := envID(env, envelopeIDs[i], t, field)
		return x != nil && lits(q.Lits).holds(mkEq(x, mkStr(""), nil))
	}
	for _, tok := range tokens(line.Args[0]) {
		if tok.lit {
			continue
		}
		i, e := idOf(tok.t)
		if i < 0 {
			if id := hiddenID(tok.t); id != nil {
				r.Check("ids", what, line.Pos, false, "the line contains %s, which is not an identifier as it is", describe(tok.t))
				return
			}
			continue
		}
		if e != env {
			r.Check("ids", what, line.Pos, false, "the line contains %s of %s, which is not the envelope concerned", envelopeIDs[i], describe(e))
			return
		}
		for next < 3 && next != i && absent(next) {
			next++
		}
		if next != i {
			r.Check("ids", what, line.Pos, false, "the line contains %s out of order", envelopeIDs[i])
			return
		}
		next++
	}
	for env != nil && next < 3 && absent(next) {
		next++
	}
	r.Check("ids", what, line.Pos, env == nil || next == 3, "the line does not contain %s of the envelope", envelopeIDs[min(next, 2)])
}

// envID is an identifier of an envelope.
func envID(env *Term, id string, t *types.Named, field string) *Term {
	if env == nil {
		return nil
	}
	s := t.Underlying().(*types.Struct)
	et := deref(s.Field(fieldNamed(s, field)).Type())
	es, ok := under(et).(*types.Struct)
	if !ok {
		return nil
	}
	i := fieldNamed(es, id)
	if i < 0 {
		panic(giveUp{"envelopes have no " + id})
	}
	return mkLoad(mkFaddr(env, i, es, et), es.Field(i).Type())
}

// idOf tells which identifier of which envelope a value is.
func idOf(t *Term) (int, *Term) {
	for i, id := range envelopeIDs {
		if e := fieldLoad(t, id); e != nil {
			return i, e
		}
	}
	return -1, nil
}

// hiddenID finds an identifier that occurs in a term other than by its
// length.
func hiddenID(t *Term) *Term {
	if i, _ := idOf(t); i >= 0 {
		return t
	}
	if t.Op == "len" {
		return nil
	}
	for _, a := range t.Args {
		if x := hiddenID(a); x != nil {
			return x
		}
	}
	return nil
}
