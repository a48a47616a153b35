package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// A Path is one way an analysed function ends, with the conditions it assumes
// and the events along it.
type Path struct {
	Lits   map[*Term]bool
	Events []*Event
	Kind   string
	Vals   []*Term
	PVal   *Term
	St     *State
}

func pathsOf(outs []*Outcome) []*Path {
	var ps []*Path
	for _, o := range outs {
		ps = append(ps, &Path{Lits: o.St.lits, Events: o.St.events(), Kind: o.Kind, Vals: o.Vals, PVal: o.PVal, St: o.St})
	}
	return ps
}

// lits is a set of path conditions.
type lits map[*Term]bool

func (l lits) with(m map[*Term]bool) lits {
	r := lits(cloneMap(l))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (l lits) decide(a *Term) (bool, bool) {
	st := &State{lits: l}
	return st.decide(a)
}

func (l lits) holds(a *Term) bool {
	v, k := l.decide(a)
	return k && v
}

func (l lits) refutes(a *Term) bool {
	v, k := l.decide(a)
	return k && !v
}

func (l lits) isNil(t *Term) bool  { return l.holds(mkEq(tNil, t, nil)) }
func (l lits) notNil(t *Term) bool { return l.refutes(mkEq(tNil, t, nil)) }

// scope is where an event happens: the loops around it and the conditions.
type scope struct {
	lits  lits
	loops []*Loop
	iters []*Iter
}

// eachEvent visits every event, including those in loop bodies.
func eachEvent(evs []*Event, sc scope, f func(ev *Event, sc scope)) {
	for _, ev := range evs {
		f(ev, sc)
		if ev.Kind == "loop" {
			for _, x := range ev.Loop.Iters {
				sub := scope{
					lits:  sc.lits.with(x.Lits),
					loops: append(append([]*Loop(nil), sc.loops...), ev.Loop),
					iters: append(append([]*Iter(nil), sc.iters...), x),
				}
				eachEvent(x.Events, sub, f)
			}
		}
	}
}

func (p *Path) each(f func(ev *Event, sc scope)) {
	eachEvent(p.Events, scope{lits: p.Lits}, f)
}

// anyEvent reports whether an event satisfying f occurs, at any depth.
func anyEvent(evs []*Event, f func(*Event) bool) bool {
	found := false
	eachEvent(evs, scope{lits: lits{}}, func(ev *Event, _ scope) {
		found = found || f(ev)
	})
	return found
}

// ---------------------------------------------------------------------------
// Automata over traces.

// automaton decides a regular property of event sequences. Loops are handled
// by iterating their bodies to a fixed point.
type automaton struct {
	step func(state string, ev *Event, sc scope) (next string, bad string)
	fail func(state string, ev *Event, sc scope, why string)
}

func (a *automaton) run(states []string, evs []*Event, sc scope) []string {
	cur := dedupe(states)
	for _, ev := range evs {
		if ev.Kind == "loop" {
			all := map[string]bool{}
			work := append([]string(nil), cur...)
			for len(work) > 0 {
				s := work[0]
				work = work[1:]
				if all[s] {
					continue
				}
				all[s] = true
				for _, x := range ev.Loop.Iters {
					sub := scope{
						lits:  sc.lits.with(x.Lits),
						loops: append(append([]*Loop(nil), sc.loops...), ev.Loop),
						iters: append(append([]*Iter(nil), sc.iters...), x),
					}
					work = append(work, a.run([]string{s}, x.Events, sub)...)
				}
			}
			cur = cur[:0:0]
			for s := range all {
				cur = append(cur, s)
			}
			sort.Strings(cur)
			continue
		}
		var next []string
		for _, s := range cur {
			n, bad := a.step(s, ev, sc)
			if bad != "" {
				a.fail(s, ev, sc, bad)
				continue
			}
			next = append(next, n)
		}
		cur = dedupe(next)
	}
	return cur
}

func dedupe(ss []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Recognisers.

// fieldLoad matches x.name, returning x (a pointer for loads, a value for
// fields of values).
func fieldLoad(t *Term, name string) *Term {
	switch t.Op {
	case "ld":
		a := t.Args[0]
		if a.Op == "faddr" && strings.HasSuffix(a.Aux, ":"+name) {
			return a.Args[0]
		}
	case "field":
		if strings.HasSuffix(t.Aux, ":"+name) {
			return t.Args[0]
		}
	case "hav":
		if len(t.Args) == 1 && t.Args[0].Op == "faddr" && strings.HasSuffix(t.Args[0].Aux, ":"+name) {
			return t.Args[0].Args[0]
		}
	}
	return nil
}

// pureCall matches a call of a pure function or method by its bare name.
func pureCall(t *Term, name string) []*Term {
	if t.Op == "pure" && (strings.HasSuffix(t.Aux, "."+name)) {
		return t.Args
	}
	return nil
}

// pureNamed matches a call of a pure function by its full name.
func pureNamed(t *Term, name string) []*Term {
	if t.Op == "pure" && t.Aux == name {
		return t.Args
	}
	return nil
}

// handlerName matches Identity(h).Name and returns h.
func handlerName(t *Term) *Term {
	x := fieldLoad(t, "Name")
	if x == nil {
		return nil
	}
	if a := pureCall(x, "Identity"); a != nil {
		return a[0]
	}
	return nil
}

// factOf returns the fact announced by a notification.
func factOf(ev *Event) *Term {
	if ev.Kind != "notify" || len(ev.Args) != 1 {
		return nil
	}
	return ev.Args[0]
}

// factName is the bare name of the announced fact's type.
func factName(ev *Event) string {
	f := factOf(ev)
	if f == nil {
		return ""
	}
	if f.Op != "iface" {
		return "?"
	}
	k := typeKey(f.TAux)
	return k[strings.LastIndexByte(k, '.')+1:]
}

// structField returns a field of a struct value by name.
func structField(v *Term, typ types.Type, name string) *Term {
	st, ok := under(typ).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, i, st.Field(i).Type())
		}
	}
	return nil
}

// factField returns a field of the announced fact.
func factField(ev *Event, name string) *Term {
	f := factOf(ev)
	if f == nil || f.Op != "iface" {
		return nil
	}
	return structField(f.Args[0], f.TAux, name)
}

// ---------------------------------------------------------------------------
// Sequences and error sets built by loops.

type piece struct {
	t    *Term     // a whole slice ("base") or one element
	elem bool      // t is a single element
	loop *Loop     // a fold over this loop
	alts [][]piece // per iteration of the loop
	opt  bool      // may be left out
}

// loopVarsIn maps the loop variables of completed loops to their loops.
func loopVarsIn(evs []*Event) map[*Term]*Loop {
	r := map[*Term]*Loop{}
	for _, ev := range evs {
		if ev.Kind == "loop" {
			for m := range ev.Loop.Init {
				r[m] = ev.Loop
			}
		}
	}
	return r
}

// flatten expands a slice-valued term into what it consists of.
func flatten(t *Term, done map[*Term]*Loop) []piece {
	switch t.Op {
	case "nil":
		return nil
	case "seq":
		var r []piece
		for _, a := range t.Args {
			r = append(r, piece{t: a, elem: true})
		}
		return r
	case "append":
		return append(flatten(t.Args[0], done), flatten(t.Args[1], done)...)
	case "clone":
		return flatten(t.Args[0], done)
	case "slice":
		if t.Args[2] == mkInt(0) {
			return nil
		}
	case "mu":
		l := done[t]
		if l == nil {
			break
		}
		p := piece{loop: l}
		for _, x := range l.Iters {
			sub := cloneMap(done)
			delete(sub, t)
			for m, ll := range loopVarsIn(x.Events) {
				sub[m] = ll
			}
			// within the loop its own variables are opaque
			for m := range l.Init {
				delete(sub, m)
			}
			ps := flatten(x.Next[t], sub)
			if len(ps) == 0 || ps[0].t != t || ps[0].elem {
				return []piece{{t: t}}
			}
			p.alts = append(p.alts, ps[1:])
		}
		return append(flatten(l.Init[t], done), simplifyFold(p)...)
	}
	return []piece{{t: t}}
}

// simplifyFold drops a loop that contributes nothing.
func simplifyFold(p piece) []piece {
	for _, alt := range p.alts {
		if len(alt) > 0 {
			return []piece{p}
		}
	}
	return nil
}

func (p piece) String() string {
	if p.loop != nil {
		var ss []string
		for _, a := range p.alts {
			ss = append(ss, piecesString(a))
		}
		return "each(" + strings.Join(ss, " | ") + ")"
	}
	if p.elem {
		return p.t.String()
	}
	return p.t.String() + "..."
}

func piecesString(ps []piece) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.String())
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

// errSet is the set of errors that a combined error is made of.
type errSet struct {
	leaves []*Term
	folds  []errFold
}

type errFold struct {
	loop *Loop
	alts []errSet
}

// flattenErr expands an error-valued term.
func flattenErr(t *Term, done map[*Term]*Loop) errSet {
	switch t.Op {
	case "nil":
		return errSet{}
	case "errs":
		a, b := flattenErr(t.Args[0], done), flattenErr(t.Args[1], done)
		return errSet{append(append([]*Term{}, a.leaves...), b.leaves...), append(append([]errFold{}, a.folds...), b.folds...)}
	case "joinall":
		return errsOfPieces(flatten(t.Args[0], done))
	case "mu":
		l := done[t]
		if l == nil {
			break
		}
		e := flattenErr(l.Init[t], done)
		f := errFold{loop: l}
		for _, x := range l.Iters {
			sub := cloneMap(done)
			for m, ll := range loopVarsIn(x.Events) {
				sub[m] = ll
			}
			for m := range l.Init {
				delete(sub, m)
			}
			s := flattenErr(x.Next[t], sub)
			kept := lits(x.Lits).isNil(t) // nothing is lost
			var rest []*Term
			for _, y := range s.leaves {
				if y == t {
					kept = true
				} else {
					rest = append(rest, y)
				}
			}
			if !kept {
				rest = append(rest, mk("overwritten", "", nil, t))
			}
			s.leaves = rest
			f.alts = append(f.alts, s)
		}
		e.folds = append(e.folds, f)
		return e
	}
	return errSet{leaves: []*Term{t}}
}

func errsOfPieces(ps []piece) errSet {
	var e errSet
	for _, p := range ps {
		if p.loop != nil {
			f := errFold{loop: p.loop}
			for _, a := range p.alts {
				f.alts = append(f.alts, errsOfPieces(a))
			}
			e.folds = append(e.folds, f)
		} else {
			e.leaves = append(e.leaves, p.t)
		}
	}
	return e
}

// covers reports whether an error is, or wraps, e.
func covers(t, e *Term) bool {
	if t == e {
		return true
	}
	if t.Op == "wrap" {
		for _, w := range wrapped(t) {
			if covers(w, e) {
				return true
			}
		}
	}
	if t.Op == "errs" {
		return covers(t.Args[0], e) || covers(t.Args[1], e)
	}
	return false
}

// fullIndex reports whether idx ranges over all positions of s as loop l
// iterates, given that the loop ran to completion.
func fullIndex(idx, s *Term, l *Loop) bool {
	if idx == l.Iter {
		return true
	}
	return linOf(idx).plus(linOf(l.Iter), 1).plus(linOf(mkLen(s)), -1).plus(lin{c: 1}, 1).term(nil) == mkInt(0)
}

// completed reports whether the conditions say that loop l ran over every
// element of slice s.
func completed(ls lits, l *Loop, s *Term) bool {
	return ls.refutes(mkGt0(linOf(mkLen(s)).plus(linOf(l.Iter), -1)))
}

// mapExhausted reports whether the conditions say that a loop over a map ran
// to its end.
func mapExhausted(ls lits, m *Term) bool {
	for a, v := range ls {
		if a.Op == "more" && a.Args[0] == m && !v {
			return true
		}
	}
	return false
}

// posOf is a position within a trace.
func posOf(evs []*Event) token.Pos {
	for _, ev := range evs {
		if ev.Pos.IsValid() {
			return ev.Pos
		}
	}
	return token.NoPos
}
