package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C17"] = checkC17
}

// eachOnce checks that a path calls the method of every element of s once, in
// order, with the given argument, and returns why it does not.
func eachOnce(p *Path, s *Term, is func(ev *Event) bool, recvOf func(ev *Event) *Term, ordered bool) string {
	calls := 0
	why := ""
	p.each(func(ev *Event, sc scope) {
		if !is(ev) || why != "" {
			return
		}
		calls++
		recv := recvOf(ev)
		if len(sc.loops) == 0 {
			why = "a call is made outside of a loop over the list"
			return
		}
		l := sc.loops[len(sc.loops)-1]
		switch {
		case recv == nil || recv.Op != "index" || recv.Args[0] != s:
			why = "a call is made to " + describe(recv) + ", which is not an element of the list"
		case !fullIndex(recv.Args[1], s, l):
			why = "the elements of the list are not all visited"
		case ordered && recv.Args[1] != l.Iter:
			why = "the elements of the list are not visited in order"
		case !completed(p.Lits, l, s):
			why = "the loop may end before the end of the list"
		}
		for _, x := range l.Iters {
			n := 0
			eachEvent(x.Events, scope{lits: lits{}}, func(e *Event, _ scope) {
				if is(e) {
					n++
				}
			})
			if n != 1 && why == "" {
				why = "an iteration makes " + itoa(n) + " calls"
			}
		}
	})
	if why == "" && calls == 0 && !lits(p.Lits).holds(mkEq0(linOf(mkLen(s)))) {
		why = "no call is made"
	}
	return why
}

func describe(t *Term) string {
	if t == nil {
		return "nothing"
	}
	return t.String()
}

func checkC17(r *Report) {
	r.Rule("group", 1, "a group of observers notifies each of its members once, in order, of the fact it is given")
	r.Rule("register", 1, "the observer option adds its observer after those registered before it")
	r.Rule("same-observers", 2, "every fact of an operation is given to all observers registered for it, on the goroutine of the operation")
	r.Rule("handlers", 5, "controllers give every fact to the observer they were given, on the goroutine of the operation")
	r.Rule("buffer-order", 1, "the buffer keeps each fact it is notified of after the ones it has already")
	r.Rule("buffer-snapshot", 1, "the facts that the buffer returns are a copy")
	r.Rule("buffer-locked", 2, "the buffer's facts are only accessed while its mutex is held")
	r.Rule("func", 1, "an observer function is called with the fact")

	// groups
	gt := r.P.Type("fact", "ObserverGroup")
	if gt == nil {
		panic(giveUp{"cannot find the type fact.ObserverGroup"})
	}
	fn := need(r.P.MethodOf(gt, "Notify"), "fact.ObserverGroup.Notify")
	g, f := nthParam(fn, 0), nthParam(fn, 1)
	isN := func(ev *Event) bool { return ev.Kind == "notify" }
	for _, p := range r.Run(Config{}, fn, nil) {
		why := ""
		if p.Kind != "ret" {
			why = "it panics"
		}
		if why == "" {
			why = eachOnce(p, g, isN, func(ev *Event) *Term { return ev.Recv }, true)
		}
		p.each(func(ev *Event, _ scope) {
			if isN(ev) && (len(ev.Args) != 1 || ev.Args[0] != f) {
				why = "another fact is passed on"
			}
			if isN(ev) && ev.G != 0 || ev.Kind == "go" {
				why = "observers are notified from another goroutine"
			}
		})
		r.Check("group", "fact.ObserverGroup.Notify", fn.Pos(), why == "", "%s", why)
	}

	// functions
	ft := r.P.Type("fact", "ObserverFunc")
	ofn := need(r.P.MethodOf(ft, "Notify"), "fact.ObserverFunc.Notify")
	for _, p := range r.Run(Config{}, ofn, nil) {
		n := 0
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && ev.Name == "dyn" && ev.Recv == nthParam(ofn, 0) && len(ev.Args) == 1 && ev.Args[0] == nthParam(ofn, 1) && ev.G == 0 {
				n++
			}
		})
		r.Check("func", "fact.ObserverFunc.Notify", ofn.Pos(), n == 1, "the function is called %d times with the fact", n)
	}

	// registration
	oo := optionsType(r)
	oi := fieldOfType(oo, func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		return ok && typeKey(s.Elem()) == modulePath+"/fact.Observer"
	})
	if oi < 0 {
		panic(giveUp{"cannot find the observers of an operation"})
	}
	wo := need(r.P.Func("engine", "WithObserver"), "engine.WithObserver")
	for _, p := range r.Run(Config{}, wo, nil) {
		if p.Kind != "ret" {
			continue
		}
		qs := r.applyOption(p.St, p.Vals[0], "applyOperationOption")
		r.Check("register", "engine.WithObserver", wo.Pos(), len(qs) > 0, "the option is not understood: %v", p.Vals[0])
		for _, q := range qs {
			opts := mk("param", "options", types.NewPointer(oo))
			for c := range q.St.heap {
				if c.Op == "faddr" && c.Args[0].Op == "param" && types.Identical(deref(c.Args[0].Typ), oo) {
					opts = c.Args[0]
				}
			}
			os := under(oo).(*types.Struct)
			a := mkFaddr(opts, oi, os, oo)
			before := mkLoad(a, fieldVar(os, oi).Type())
			got := q.St.load(a, fieldVar(os, oi).Type())
			want := mkAppend(before, mk("seq", "", fieldVar(os, oi).Type(), nthParam(wo, 0)))
			r.Check("register", "engine.WithObserver", wo.Pos(), got == want || samePieces(flatten(got, nil), flatten(want, nil)), "the observers become %v", got)
		}
	}

	// the engine's operations
	m := findEngine(r.P)
	for name, ps := range r.runOps(m, false) {
		for _, p := range ps {
			if p.Kind != "ret" {
				continue
			}
			var obj *Term
			p.each(func(ev *Event, _ scope) {
				if ev.Method == "applyOperationOption" && len(ev.Args) == 2 {
					obj = ev.Args[1]
				}
			})
			if obj == nil {
				continue
			}
			os := under(oo).(*types.Struct)
			obs := p.St.load(mkFaddr(obj, oi, os, oo), fieldVar(os, oi).Type())
			p.each(func(ev *Event, sc scope) {
				bad := ""
				switch {
				case ev.Kind == "notify" && !ev.Local:
					if v := stripIface(ev.Recv); v != obs && !(v.Op == "index" && v.Args[0] == obs) {
						bad = "a fact is given to " + v.String() + " instead of the operation's observers"
					}
					if ev.G != 0 {
						bad = "observers are notified from another goroutine"
					}
				case isCtrlCall(ev, "Handle") || isCtrlCall(ev, "Tick"):
					found := false
					for _, a := range ev.Args {
						if stripIface(a) == obs {
							found = true
						}
					}
					if !found {
						bad = "a controller is not given the operation's observers"
					}
				default:
					return
				}
				r.Check("same-observers", name, ev.Pos, bad == "", "%s", bad)
			})
		}
	}

	// controllers
	for _, kind := range ctrlKinds {
		k := findCtrl(r, kind)
		hs, _ := k.run(r, false)
		ts, _ := k.runTick(r, false)
		for what, ps := range map[string][]*Path{"Handle": hs, "Tick": ts} {
			for _, p := range ps {
				p.each(func(ev *Event, sc scope) {
					if ev.Kind != "notify" || ev.Local {
						return
					}
					v := stripIface(ev.Recv)
					bad := ""
					if v != stripIface(k.obs) {
						bad = "a fact is given to " + v.String() + " instead of the observer passed in"
					}
					if ev.G != 0 {
						bad = "the observer is notified from another goroutine"
					}
					r.Check("handlers", kind+".Controller."+what, ev.Pos, bad == "", "%s", bad)
				})
			}
		}
	}

	// the buffer
	bt := r.P.Type("fact", "Buffer")
	if bt == nil {
		panic(giveUp{"cannot find the type fact.Buffer"})
	}
	bs := under(bt).(*types.Struct)
	bi := fieldOfType(bt, func(t types.Type) bool {
		s, ok := under(t).(*types.Slice)
		return ok && typeKey(s.Elem()) == modulePath+"/fact.Fact"
	})
	if bi < 0 {
		panic(giveUp{"cannot find the facts of fact.Buffer"})
	}
	bn := need(r.P.MethodOf(bt, "Notify"), "fact.Buffer.Notify")
	b := nthParam(bn, 0)
	at := mkFaddr(b, bi, bs, bt)
	old := mkLoad(at, fieldVar(bs, bi).Type())
	for _, p := range r.Run(Config{}, bn, nil) {
		got := p.St.load(at, fieldVar(bs, bi).Type())
		want := mkAppend(old, mk("seq", "", fieldVar(bs, bi).Type(), nthParam(bn, 1)))
		r.Check("buffer-order", "fact.Buffer.Notify", bn.Pos(), p.Kind == "ret" && (got == want || samePieces(flatten(unclone(got), nil), flatten(want, nil))), "the facts become %v", got)
	}
	bf := need(r.P.MethodOf(bt, "Facts"), "fact.Buffer.Facts")
	b2 := nthParam(bf, 0)
	cur := mkLoad(mkFaddr(b2, bi, bs, bt), fieldVar(bs, bi).Type())
	for _, p := range r.Run(Config{}, bf, nil) {
		ok := p.Kind == "ret" && len(p.Vals) == 1
		var v *Term
		if ok {
			v = p.Vals[0]
			ok = snapshotOf(p, v, cur)
		}
		r.Check("buffer-snapshot", "fact.Buffer.Facts", bf.Pos(), ok, "it returns %v", v)
		changed := p.St.load(mkFaddr(b2, bi, bs, bt), fieldVar(bs, bi).Type())
		r.Check("buffer-snapshot", "fact.Buffer.Facts", bf.Pos(), changed == cur, "the buffered facts become %v", changed)
	}
	for _, name := range exportedMethods(bt) {
		mfn := r.P.MethodOf(bt, name)
		if mfn == nil || mfn.Synthetic != "" {
			continue
		}
		r.guarded("buffer-locked", "fact.Buffer."+name, Config{}, mfn, nthParam(mfn, 0), func(i int) bool { return !isMutexField(bs.Field(i).Type()) })
	}
}

// snapshotOf reports whether v has the elements of s, but does not share its
// backing array.
func snapshotOf(p *Path, v, s *Term) bool {
	empty := lits(p.Lits).holds(mkEq0(linOf(mkLen(s))))
	switch v.Op {
	case "nil":
		return empty
	case "seq":
		return empty && len(v.Args) == 0
	case "clone":
		return v.Args[0] == s || snapshotOf(p, v.Args[0], s)
	case "append":
		if len(v.Args) != 2 {
			return false
		}
		if v.Args[0].Op == "nil" || v.Args[0].Op == "seq" && len(v.Args[0].Args) == 0 {
			return v.Args[1] == s || snapshotOf(p, v.Args[1], s)
		}
	}
	// a fold that copies element by element
	ps := flatten(v, nil)
	if len(ps) == 1 && ps[0].t == s && v.Op == "mu" {
		return true
	}
	for mu, l := range loopVarsIn(p.Events) {
		if mu == v && completed(p.Lits, l, s) {
			ok := len(l.Iters) > 0
			init := l.Init[mu]
			ok = ok && (init.Op == "nil" || init.Op == "seq" && len(init.Args) == 0)
			for _, x := range l.Iters {
				n := x.Next[mu]
				want := mkAppend(mu, mk("seq", "", v.Typ, mk("index", "", nil, s, l.Iter)))
				ok = ok && n != nil && (n == want || n.Op == "append" && n.Args[0] == mu && n.Args[1].Op == "seq" && len(n.Args[1].Args) == 1 && n.Args[1].Args[0].Op == "index" && n.Args[1].Args[0].Args[0] == s && n.Args[1].Args[0].Args[1] == l.Iter)
			}
			return ok
		}
	}
	return false
}

// fieldOfType finds the field of a struct with a given kind of type.  If there
// is more than one, the choice is left to the names that are known.
func fieldOfType(t types.Type, f func(types.Type) bool) int {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	var found []int
	for i := 0; i < s.NumFields(); i++ {
		if f(s.Field(i).Type()) {
			found = append(found, i)
		}
	}
	if len(found) == 0 {
		for _, x := range structFields(t, f, nil) {
			if f(x.Type()) {
				found = append(found, nestedField(x))
			}
		}
	}
	if len(found) == 1 {
		return found[0]
	}
	for _, i := range found {
		if knownFields[fieldVar(s, i).Name()] {
			return i
		}
	}
	return -1
}

var knownFields = map[string]bool{
	"virtualClock": true, "operationOptions": true, "annotations": true, "predicateOptions": true,
	"executor": true, "app": true, "printer": true, "observers": true, "now": true, "facts": true,
	"history": true, "instances": true, "timeouts": true, "lastCompact": true, "CompactDuringHandling": true,
	"MessageIDs": true, "controllers": true, "routes": true, "resetters": true,
}

func exportedMethods(t types.Type) []string {
	var r []string
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Exported() {
			r = append(r, o.Name())
		}
	}
	return r
}

// optionsType is the type that operation options are applied to.
func optionsType(r *Report) types.Type {
	t := r.P.Type("engine", "OperationOption")
	if t != nil {
		if i, ok := under(t).(*types.Interface); ok {
			for k := 0; k < i.NumMethods(); k++ {
				ps := i.Method(k).Type().(*types.Signature).Params()
				for j := 0; j < ps.Len(); j++ {
					d := deref(ps.At(j).Type())
					if strings.Contains(typeKey(d), "ptions") {
						if _, ok := under(d).(*types.Struct); ok {
							return d
						}
					}
				}
			}
		}
	}
	panic(giveUp{"cannot find the options of an operation"})
}
