package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = checkC27
}

// How the methods of SatisfyT end the user's function, and what they mark.
var satisfyMethods = map[string]struct{ fail, skip, stop bool }{
	"Error": {fail: true}, "Errorf": {fail: true}, "Fail": {fail: true},
	"FailNow": {fail: true, stop: true}, "Fatal": {fail: true, stop: true}, "Fatalf": {fail: true, stop: true},
	"Skip": {skip: true, stop: true}, "SkipNow": {skip: true, stop: true}, "Skipf": {skip: true, stop: true},
}

// inTest assumes that functions have callers.
func inTest(next func(*Interp, *Frame, *State, *Event) []*CallOut) func(*Interp, *Frame, *State, *Event) []*CallOut {
	return func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if ev.Name == "runtime.Callers" {
			st.assume(mkGt0(linOf(ev.Res[0])), true)
			st.emit(ev)
			return []*CallOut{{St: st, Vals: ev.Res}}
		}
		if next != nil {
			return next(it, fr, st, ev)
		}
		return nil
	}
}

// A satisfaction is the predicate of a satisfaction expectation.
type satisfaction struct {
	user *Term // the user's function
	pred *Term
	st   *State
	t    *Term // what the user's function is given
	tt   types.Type
}

func checkC27(r *Report) {
	r.Rule("facts", 3, "the user's function is given every fact of the action, in order")
	r.Rule("once", 1, "finalising the predicate calls the user's function once; nothing else calls it")
	r.Rule("methods", 9, "every method marks the expectation as failed or skipped, and stops the function, as its name says, whatever was called before")
	r.Rule("verdict", 1, "the expectation is met exactly if it was skipped or was not marked as failed")
	r.Rule("ends", 1, "the methods that stop the function do not escape the expectation, and any other panic does")
	r.Rule("cleanup", 4, "every cleanup function is called once, last registered first, after the user's function has ended, even if another cleanup aborts or panics")
	r.Rule("cleanup-kept", 9, "no method but Cleanup changes which functions are registered")
	r.Rule("unlocked", 9, "no method leaves a mutex locked")

	ft := r.P.Type("", "SatisfyT")
	if ft == nil {
		panic(giveUp{"cannot find the type SatisfyT"})
	}
	s := &satisfaction{tt: ft}
	mkfn := need(r.P.Func("", "ToSatisfy"), "ToSatisfy")
	var args []*Term
	for i, p := range mkfn.Params {
		if _, ok := under(p.Type()).(*types.Signature); ok {
			s.user = mk("param", "user", p.Type())
			args = append(args, s.user)
			continue
		}
		args = append(args, nthParam(mkfn, i))
	}
	if s.user == nil {
		panic(giveUp{"the parameters of ToSatisfy are not as expected"})
	}
	scope0 := mk("param", "scope", r.P.Type("", "PredicateScope"))
	for _, p := range only(r.Run(Config{}, mkfn, nil, args...), "ret") {
		qs, ok := r.invoke(Config{}, p.after(), p.Vals[0], "Predicate", scope0)
		if !ok {
			panic(giveUp{"what ToSatisfy returns is not known"})
		}
		for _, q := range qs {
			if q.Kind == "ret" && len(q.Vals) == 2 && lits(q.Lits).isNil(q.Vals[1]) {
				s.pred, s.st = q.Vals[0], q.after()
			}
		}
	}
	if s.pred == nil {
		panic(giveUp{"ToSatisfy does not make a predicate"})
	}
	method := func(name string) *ssa.Function { return need(r.P.MethodOf(ft, name), "SatisfyT."+name) }
	pos := need(r.P.methodNamed(ifaceType(s.pred), "Done"), "Done").Pos()
	isUser := func(ev *Event) bool { return ev.Kind == "call" && ev.Name == "dyn" && ev.Recv == s.user }

	// the facts, and what the user's function is given
	var inUser *State
	fi := -1
	ts := under(ft).(*types.Struct)
	for i := 0; i < ts.NumFields(); i++ {
		if ts.Field(i).Name() == "Facts" {
			fi = i
		}
	}
	if fi < 0 {
		panic(giveUp{"SatisfyT has no field Facts"})
	}
	factT := r.P.Type("fact", "Fact")
	for _, n := range []int{0, 1, 2, 3} {
		states := []*State{s.st}
		var want []string
		for i := 0; i < n; i++ {
			f := mk("param", "fact"+itoa(i), factT)
			want = append(want, f.String())
			var next []*State
			for _, st := range states {
				ps, ok := r.invoke(Config{Salt: "n" + itoa(i), OnCall: capture{}.hook(isUser)}, st, s.pred, "Notify", f)
				if !ok {
					panic(giveUp{"the predicate of ToSatisfy is not known"})
				}
				for _, p := range ps {
					r.Check("facts", "Notify", pos, p.Kind == "ret", "it panics when it is notified: %v", p.PVal)
					r.Check("once", "Notify", pos, !anyEvent(p.Events, isUser), "the user's function is called")
					if p.Kind == "ret" {
						next = append(next, p.after())
					}
				}
			}
			states = next
		}
		for _, st := range states {
			cap := capture{}
			ps, _ := r.invoke(Config{Salt: "done", OnCall: inTest(cap.hook(isUser))}, st, s.pred, "Done")
			for _, p := range ps {
				calls := 0
				p.each(func(ev *Event, sc scope) {
					if !isUser(ev) {
						return
					}
					calls++
					if len(sc.loops) > 0 || ev.G != 0 {
						calls++
					}
					t := ev.Args[0]
					at := cap[ev]
					var got []string
					for _, pc := range elements(at, at.load(mkFaddr(t, fi, ts, ft), ts.Field(fi).Type())) {
						got = append(got, pc.String())
					}
					r.Check("facts", itoa(n)+" facts", ev.Pos, strings.Join(got, ", ") == strings.Join(want, ", "), "after %d facts the function is given %v", n, got)
					if n == 0 {
						inUser, s.t = at, t
					}
				})
				r.Check("once", "Done", pos, calls == 1 && p.Kind == "ret", "the user's function is called %d times, or a panic occurs", calls)
			}
		}
	}
	s.checkFactsKept(r, pos)
	for _, name := range []string{"Ok", "Report"} {
		ps, _ := r.invoke(Config{OnCall: inTest(capture{}.hook(isUser))}, s.st, s.pred, name)
		for _, p := range ps {
			r.Check("once", name, pos, !anyEvent(p.Events, isUser), "the user's function is called")
		}
	}
	if inUser == nil {
		return
	}

	// the methods, from any state that others may have left
	cleanupFn := method("Cleanup")
	c0 := mk("param", "c0", cleanupFn.Params[1].Type())
	regs := map[*Term]bool{} // the cells that hold the registered functions
	mine := func(c *Term) bool { return root(c) == root(s.t) && !lockCell(c) }
	base := inUser.clone()
	base.evs, base.pan = nil, nil
	for _, p := range r.Run(Config{OnCall: inTest(nil)}, cleanupFn, base.clone(), s.t, c0) {
		for c, v := range p.St.heap {
			if mine(c) && base.heap[c] != v && v.contains(func(x *Term) bool { return x == c0 }) {
				regs[c] = true
			}
		}
	}
	cells := leaves(s.t, ft)
	type ghost struct{ failed, skipped bool }
	seen := map[string]bool{}
	type node struct {
		st  *State
		g   ghost
		how string
	}
	var abort *Term
	work := []node{{base, ghost{}, "nothing"}}
	// generalise forgets everything except small values
	generalise := func(st *State) (*State, string) {
		st = st.clone()
		st.evs, st.pan = nil, nil
		st.lits = cloneMap(base.lits)
		var key []string
		for _, c := range cells {
			typ := deref(c.Typ)
			v := st.load(c, typ)
			if isIntegerType(typ) && v.Op != "hav" {
				// counters are large once they have been counted up a few times
				many := mkLen(mk("hav", "any:"+c.String(), nil))
				if l := linOf(v); l.c > 8 && (l.isConst() || len(l.m) == 1 && l.m[many] == 1) {
					v = lin{c: 9, m: map[*Term]int64{many: 1}}.term(typ)
					st.heap[c] = v
					key = append(key, c.String()+">8")
					continue
				}
			}
			switch {
			case v.Op == "const" && (isBoolType(typ) || isIntegerType(typ)):
				key = append(key, c.String()+"="+v.String())
			case v == base.load(c, typ) && isBoolType(typ):
			case isBoolType(typ):
				panic(giveUp{"the value of " + c.String() + " is not known: " + v.String()})
			default:
				if !regs[c] && c != mkFaddr(s.t, fi, ts, ft) {
					st.heap[c] = mk("hav", "any:"+c.String(), typ)
				} else {
					st.heap[c] = mk("param", "any:"+c.String(), typ)
				}
			}
		}
		sort.Strings(key)
		return st, strings.Join(key, " ")
	}
	ask := func(n node) {
		after := "after " + n.how
		ps, _ := r.invoke(Config{}, n.st, s.pred, "Ok")
		for _, p := range ps {
			want := n.g.skipped || !n.g.failed
			got, known := lits(p.Lits).decide(one(p.Vals))
			r.Check("verdict", "Ok", pos, p.Kind == "ret" && known && got == want, "%s the verdict is %v", after, p.Vals)
		}
		for name, want := range map[string]bool{"Failed": n.g.failed, "Skipped": n.g.skipped} {
			fn := method(name)
			for _, p := range r.Run(Config{}, fn, n.st.clone(), s.t) {
				got, known := lits(p.Lits).decide(one(p.Vals))
				r.Check("methods", name, fn.Pos(), p.Kind == "ret" && known && got == want, "%s it returns %v", after, p.Vals)
			}
		}
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		st, key := generalise(n.st)
		key += fmt.Sprint(n.g)
		if seen[key] {
			continue
		}
		seen[key] = true
		n.st = st
		ask(n)
		for _, fn := range exportedFuncs(r, ft) {
			name := fn.Name()
			args := []*Term{s.t}
			for _, p := range fn.Params[1:] {
				args = append(args, mk("param", name+":"+p.Name(), p.Type()))
			}
			spec := satisfyMethods[name]
			for _, p := range r.Run(Config{OnCall: inTest(nil), Salt: name}, fn, st.clone(), args...) {
				g := n.g
				g.failed = g.failed || spec.fail
				g.skipped = g.skipped || spec.skip
				if spec.stop {
					ok := p.Kind == "panic" && p.PVal != nil
					r.Check("methods", name, fn.Pos(), ok, "it does not stop the function after %s", n.how)
					if ok {
						if abort == nil {
							abort = p.PVal
						}
						r.Check("methods", name, fn.Pos(), abort == p.PVal || abort.Op == "iface" && p.PVal.Op == "iface" && types.Identical(abort.TAux, p.PVal.TAux), "it stops the function by another panic than the other methods")
					}
				} else {
					r.Check("methods", name, fn.Pos(), p.Kind == "ret", "it panics after %s: %v", n.how, p.PVal)
				}
				for _, c := range cells {
					v := p.St.load(c, deref(c.Typ))
					if name == "Cleanup" && regs[c] {
						want := mkAppend(st.heap[c], mk("seq", "", deref(c.Typ), args[1]))
						if _, ok := under(deref(c.Typ)).(*types.Slice); ok {
							r.Check("cleanup-kept", name, fn.Pos(), len(flatten(v, nil)) == len(flatten(want, nil)), "the functions registered become %v", v)
						}
						continue
					}
					if regs[c] || c == mkFaddr(s.t, fi, ts, ft) {
						r.Check("cleanup-kept", name, fn.Pos(), v == st.heap[c], "%v becomes %v", c, v)
					}
				}
				r.balanced("unlocked", name, fn, p)
				work = append(work, node{p.St, g, name})
			}
		}
	}
	if abort == nil {
		panic(giveUp{"no method stops the function"})
	}

	// how the function ends, and the cleanup functions
	cleanups := []*Term{}
	for k := 0; k <= 3; k++ {
		if k > 0 {
			cleanups = append(cleanups, mk("param", "cleanup"+itoa(k), cleanupFn.Params[1].Type()))
		}
		which := map[*Term]int{}
		for i, c := range cleanups {
			which[c] = i
		}
		up := func(t *Term) *Term { return mk("upanic", t.Aux, nil) }
		hook := func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
			if ev.Name != "dyn" {
				return nil
			}
			states := []*State{st}
			if ev.Recv == s.user {
				for i, c := range cleanups {
					var next []*State
					for _, x := range states {
						y := x.clone()
						y.evs, y.pan = nil, nil
						for _, p := range r.Run(Config{OnCall: inTest(nil), Salt: "reg" + itoa(i)}, cleanupFn, y, s.t, c) {
							z := p.St.clone()
							z.evs, z.pan, z.g = x.evs, x.pan, x.g
							next = append(next, z)
						}
					}
					states = next
				}
			} else if _, ok := which[ev.Recv]; !ok {
				return nil
			}
			var outs []*CallOut
			for _, x := range states {
				a, b := x.clone(), x.clone()
				x.emit(ev)
				pa, pb := *ev, *ev
				pa.Panics, pb.Panics = true, true
				pa.Val = abort
				a.emit(&pa)
				pb.Val = up(ev.Recv)
				b.emit(&pb)
				if abort.Op == "iface" {
					b.assume(mkIsT(up(ev.Recv), abort.TAux), false)
				} else {
					b.assume(mkEq(up(ev.Recv), abort, nil), false)
				}
				b.assume(mkEq(tNil, up(ev.Recv), nil), false)
				outs = append(outs, &CallOut{St: x, Vals: ev.Res}, &CallOut{St: a, PVal: abort}, &CallOut{St: b, PVal: up(ev.Recv)})
			}
			return outs
		}
		ps, _ := r.invoke(Config{Salt: "run", OnCall: inTest(hook), Recurse: 5}, s.st, s.pred, "Done")
		what := itoa(k) + " cleanup functions"
		for _, p := range ps {
			var order []int
			var other *Term
			users := 0
			var how []string
			p.each(func(ev *Event, sc scope) {
				if ev.Kind != "call" || ev.Name != "dyn" {
					return
				}
				if ev.Recv == s.user {
					users++
				} else if i, ok := which[ev.Recv]; ok {
					order = append(order, i)
					if users == 0 {
						order = append(order, i)
					}
				}
				if ev.Panics && ev.Val != abort {
					other = ev.Val
				}
				switch {
				case !ev.Panics:
					how = append(how, ev.Recv.Aux+" returns")
				case ev.Val == abort:
					how = append(how, ev.Recv.Aux+" aborts")
				default:
					how = append(how, ev.Recv.Aux+" panics")
				}
			})
			ok := len(order) == k
			for i := range order {
				ok = ok && order[i] == k-1-i
			}
			r.Check("cleanup", what, pos, ok, "the cleanup functions are not called once each in reverse order: %s", strings.Join(how, ", "))
			r.Check("once", "Done", pos, users == 1, "the user's function is called %d times", users)
			if other == nil {
				r.Check("ends", "Done", pos, p.Kind == "ret", "a panic escapes: %s", strings.Join(how, ", "))
			} else {
				v := p.PVal
				r.Check("ends", "Done", pos, p.Kind == "panic" && stripIface(v) == other, "the panic does not escape: %s", strings.Join(how, ", "))
			}
		}
		r.Check("ends", "Done", pos, len(ps) > 0, "the predicate is not known")
	}
}

func one(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return mk("hav", "none", types.Typ[types.Bool])
}

// lockCell reports whether a cell is a mutex or part of one.
// checkFactsKept checks that a fact is added to any number of earlier ones.
func (s *satisfaction) checkFactsKept(r *Report, pos token.Pos) {
	factT := r.P.Type("fact", "Fact")
	f0, f1 := mk("param", "fact0", factT), mk("param", "fact1", factT)
	kept := map[*Term]*Term{}
	any := s.st.clone()
	ps, _ := r.invoke(Config{Salt: "k0"}, s.st, s.pred, "Notify", f0)
	for _, p := range ps {
		for c, v := range p.St.heap {
			if c.Typ == nil || lockCell(c) || v == s.st.heap[c] {
				continue
			}
			t := deref(c.Typ)
			h := mk("hav", "earlier:"+c.String(), t)
			if _, ok := under(t).(*types.Slice); ok && v.contains(func(x *Term) bool { return x == f0 }) {
				kept[c] = h
			}
			any.heap[c] = h
		}
	}
	if len(kept) == 0 {
		return
	}
	ps, _ = r.invoke(Config{Salt: "k1"}, any, s.pred, "Notify", f1)
	for _, p := range ps {
		for c, h := range kept {
			got := flatten(p.St.heap[c], nil)
			ok := len(got) == 2 && got[0].t == h && got[1].t == f1
			r.Check("facts", "Notify", pos, ok, "a fact that follows others is not added to them: %v", p.St.heap[c])
		}
	}
}

func lockCell(c *Term) bool {
	for c.Op == "faddr" {
		if c.Typ != nil && isMutexField(deref(c.Typ)) {
			return true
		}
		c = c.Args[0]
	}
	return false
}

// leaves are the cells of a struct, except for mutexes.
func leaves(addr *Term, t types.Type) []*Term {
	s, ok := splitStruct(t)
	if !ok || isMutexField(t) {
		if isMutexField(t) {
			return nil
		}
		return []*Term{addr}
	}
	var r []*Term
	for i := 0; i < s.NumFields(); i++ {
		if isMutexField(s.Field(i).Type()) {
			continue
		}
		r = append(r, leaves(mkFaddr(addr, i, s, t), s.Field(i).Type())...)
	}
	return r
}

// balanced checks that a path unlocks the mutexes that it locks.
func (r *Report) balanced(rule, construct string, fn *ssa.Function, p *Path) {
	held := map[*Term]int{}
	p.each(func(ev *Event, _ scope) {
		if ev.Kind != "call" || ev.Recv == nil || !lockType(ev.Name) {
			return
		}
		switch ev.Method {
		case "Lock", "RLock":
			r.Check(rule, construct, ev.Pos, held[ev.Recv] == 0, "the mutex is locked twice")
			held[ev.Recv]++
		case "Unlock", "RUnlock":
			held[ev.Recv]--
		}
	})
	for m, n := range held {
		r.Check(rule, construct, fn.Pos(), n == 0, "%v is still locked when it ends", m)
	}
	r.Check(rule, construct, fn.Pos(), true, "")
}
