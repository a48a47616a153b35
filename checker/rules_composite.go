package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Composite expectations are analysed through the exported functions that
// make them: the function is analysed for a list of k unknown children, then
// the Predicate method of the expectation that it returns, then the methods
// of the predicate that this returns. The analysis is repeated for the list
// lengths at which the code may behave differently: one, two and three, and
// those next to constants with which the code compares integers.

// compositeKinds are the functions that make composite expectations.
var compositeKinds = []string{"AllOf", "AnyOf", "NoneOf", "Not", "ToRepeatedly"}

// met is the boolean meaning of a composite.
func met(kind string, oks []bool) bool {
	n := 0
	for _, ok := range oks {
		if ok {
			n++
		}
	}
	switch kind {
	case "AllOf", "ToRepeatedly":
		return n == len(oks)
	case "AnyOf":
		return n > 0
	}
	return n == 0 // NoneOf, Not
}

// A composite is a predicate that was made for k children.
type composite struct {
	kind  string
	k     int
	kids  []*Term // the children's expectations
	preds []*Term // their predicates
	pred  *Term   // the predicate; nil if it is the only child's
	scope *Term
	st    *State
	path  *Path // of the Predicate method
	fn    *ssa.Function
}

// A refusal is a way in which a composite is not made.
type refusal struct {
	kind string
	k    int
	what string // panic (of the function) or error (of Predicate)
	path *Path
	kids []*Term
	fn   *ssa.Function
}

func okAtom(p *Term) *Term { return mk("pure", "Predicate.Ok", types.Typ[types.Bool], p) }

func isRootIface(ev *Event, typ, method string) bool {
	if (ev.Kind != "call" && ev.Kind != "notify") || ev.MFunc == nil || ev.Method != method {
		return false
	}
	recv := ev.MFunc.Type().(*types.Signature).Recv()
	if recv != nil && typeKey(recv.Type()) == modulePath+"."+typ {
		return true
	}
	// methods of embedded interfaces
	return ev.Recv != nil && ev.Recv.Typ != nil && typeKey(ev.Recv.Typ) == modulePath+"."+typ
}

// childHook gives the methods of children their meaning: a predicate's
// verdict is a fixed unknown, and children do not modify their parent.
func childHook(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
	if ev.MFunc == nil || ev.MFunc.Pkg() == nil || ev.MFunc.Pkg().Path() != modulePath && ev.Kind != "notify" {
		if ev.Name == "dyn" && ev.Recv.Op == "param" {
			st.emit(ev)
			return []*CallOut{{St: st, Vals: ev.Res}}
		}
		return nil
	}
	if isRootIface(ev, "Predicate", "Ok") {
		ev.Res = []*Term{okAtom(ev.Recv)}
	}
	st.emit(ev)
	return []*CallOut{{St: st, Vals: ev.Res}}
}

// composites analyses how a composite of k children is made.
func (r *Report) composites(kind string, k int) ([]*composite, []*refusal) {
	fn := need(r.P.Func("", kind), kind)
	cfg := Config{OnCall: childHook}
	et := r.P.Type("", "Expectation")
	if et == nil {
		panic(giveUp{"cannot find the type Expectation"})
	}
	var args []*Term
	var kids []*Term
	mkKid := func(i int) *Term {
		c := mk("param", "child"+itoa(i), et)
		kids = append(kids, c)
		return c
	}
	for i, p := range fn.Params {
		switch t := p.Type(); {
		case typeKey(t) == typeKey(et):
			args = append(args, mkKid(0))
		case isSliceOf(t, et):
			var cs []*Term
			for j := 0; j < k; j++ {
				cs = append(cs, mkKid(j))
			}
			args = append(args, mk("seq", "", t, cs...))
		case isIntegerType(t):
			args = append(args, mkConst(constant.MakeInt64(int64(k)), t))
		default:
			args = append(args, nthParam(fn, i))
		}
	}
	var cs []*composite
	var rs []*refusal
	for _, p := range r.Run(cfg, fn, nil, args...) {
		if p.Kind != "ret" {
			rs = append(rs, &refusal{kind: kind, k: k, what: "panic", path: p, kids: kids, fn: fn})
			continue
		}
		e := p.Vals[0]
		if len(kids) == 1 && stripIface(e) == stripIface(kids[0]) {
			cs = append(cs, &composite{kind: kind, k: k, kids: kids, st: p.after(), path: p, fn: fn})
			continue
		}
		ss := mk("param", "scope", r.P.Type("", "PredicateScope"))
		qs, ok := r.invoke(cfg, p.after(), e, "Predicate", ss)
		if !ok {
			rs = append(rs, &refusal{kind: kind, k: k, what: "unknown", path: p, kids: kids, fn: fn})
			continue
		}
		pfn := r.P.methodNamed(e.TAux, "Predicate")
		for _, q := range qs {
			if q.Kind != "ret" || len(q.Vals) != 2 {
				rs = append(rs, &refusal{kind: kind, k: k, what: "panic", path: q, kids: kids, fn: pfn})
				continue
			}
			if !lits(q.Lits).isNil(q.Vals[1]) {
				rs = append(rs, &refusal{kind: kind, k: k, what: "error", path: q, kids: kids, fn: pfn})
				continue
			}
			c := &composite{kind: kind, k: k, kids: kids, scope: ss, st: q.after(), path: q, pred: q.Vals[0], fn: pfn}
			if kind == "ToRepeatedly" {
				c.kids = factoryResults(q, k)
			}
			for _, kid := range c.kids {
				var pr *Term
				q.each(func(ev *Event, _ scope) {
					if isRootIface(ev, "Expectation", "Predicate") && ev.Recv == kid {
						pr = ev.Res[0]
					}
				})
				c.preds = append(c.preds, pr)
			}
			if len(c.preds) == 1 && c.pred == c.preds[0] && kind != "Not" && kind != "NoneOf" {
				c.pred = nil
			}
			cs = append(cs, c)
		}
	}
	return cs, rs
}

// factoryResults are the expectations made for each index.
func factoryResults(p *Path, k int) []*Term {
	kids := make([]*Term, k)
	p.each(func(ev *Event, _ scope) {
		if ev.Kind == "call" && ev.Name == "dyn" && len(ev.Args) == 1 {
			if n, ok := constInt(ev.Args[0]); ok && n >= 0 && int(n) < k {
				kids[n] = ev.Res[0]
			}
		}
	})
	return kids
}

func isSliceOf(t, elem types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

// lengths are the list lengths for which composites of a kind are analysed,
// which include those at which a constant in the code makes a difference.
func (r *Report) lengths(kind, rule string, methods ...string) []int {
	if kind == "Not" {
		return []int{1}
	}
	ks := map[int]bool{1: true, 2: true, 3: true}
	before := cloneMap(r.funcs)
	r.funcs = map[*ssa.Function]bool{}
	for _, k := range []int{1, 2} {
		cs, _ := r.composites(kind, k)
		for _, c := range cs {
			if c.pred != nil {
				for _, m := range methods {
					r.invoke(Config{OnCall: childHook}, c.st, c.pred, m)
				}
			}
		}
	}
	for fn := range r.funcs {
		if !inModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || !isIntegerType(bo.X.Type()) {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil {
						n, ok := constant.Int64Val(c.Value)
						if ok && n >= 3 && n <= 12 {
							ks[int(n)] = true
							ks[int(n)+1] = true
						}
						if ok && n > 12 {
							r.Check(rule, kind, bo.Pos(), false, "lists of more than %d are treated differently, which is not analysed", n)
						}
					}
				}
			}
		}
	}
	for fn := range before {
		r.funcs[fn] = true
	}
	var r2 []int
	for k := range ks {
		r2 = append(r2, k)
	}
	sort.Ints(r2)
	return r2
}

// assignments calls f with every verdict of the children that is compatible
// with a set of conditions (or, for long lists, the extreme ones).
func assignments(preds []*Term, ls lits, f func(oks []bool, ls lits)) {
	try := func(oks []bool) {
		m := cloneMap(map[*Term]bool(ls))
		st := newState()
		st.lits = m
		for i, p := range preds {
			if p == nil || !st.assume(okAtom(p), oks[i]) {
				return
			}
		}
		f(oks, lits(st.lits))
	}
	n := len(preds)
	if n <= 5 {
		for x := 0; x < 1<<n; x++ {
			oks := make([]bool, n)
			for i := range oks {
				oks[i] = x&(1<<i) != 0
			}
			try(oks)
		}
		return
	}
	for _, base := range []bool{true, false} {
		for flip := -1; flip < n; flip++ {
			oks := make([]bool, n)
			for i := range oks {
				oks[i] = base != (i == flip)
			}
			try(oks)
		}
	}
}

func (c *composite) name() string { return fmt.Sprintf("%s of %d", c.kind, c.k) }

// fixedOks are hooks that fix the verdicts of a long list of children.
func (c *composite) cfgs() []Config {
	if len(c.preds) <= 5 {
		return []Config{{OnCall: childHook}}
	}
	var cfgs []Config
	assignments(c.preds, lits{}, func(oks []bool, _ lits) {
		cfgs = append(cfgs, Config{OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
			if isRootIface(ev, "Predicate", "Ok") {
				for i, p := range c.preds {
					if p == ev.Recv {
						st.emit(ev)
						st.assume(okAtom(p), oks[i])
						return []*CallOut{{St: st, Vals: []*Term{mkBool(oks[i])}}}
					}
				}
			}
			return childHook(it, fr, st, ev)
		}})
	})
	return cfgs
}

// notified is the state after the predicate has seen any number of facts.
func (r *Report) notified(c *composite) *State {
	t := ifaceType(c.pred)
	fn := r.P.methodNamed(t, "Notify")
	if fn == nil {
		return c.st
	}
	return r.anyTimes(c.st, "notified:"+typeKey(t), []*ssa.Function{fn})
}

// done are the states after the predicate has been finalised.
func (r *Report) doneStates(cfg Config, c *composite) []*Path {
	ps, _ := r.invoke(cfg, r.notified(c), c.pred, "Done")
	return only(ps, "ret")
}

// ---------------------------------------------------------------------------
// C20 for composites

// fanOut checks that composites drive their children.
func (r *Report) fanOut() {
	r.Rule("scope", 5, "a composite, negated or repeated expectation makes the predicate of every child once, in the scope it was given")
	r.Rule("fan-out", 10, "its predicate passes every fact and the finalisation on to every child once")
	for _, kind := range compositeKinds {
		for _, k := range r.lengths(kind, "fan-out", "Notify", "Done") {
			cs, _ := r.composites(kind, k)
			for _, c := range cs {
				if c.pred == nil {
					r.Check("scope", kind, c.fn.Pos(), true, "")
					r.Check("fan-out", kind+": Notify", c.fn.Pos(), true, "")
					r.Check("fan-out", kind+": Done", c.fn.Pos(), true, "")
					continue
				}
				for i, kid := range c.kids {
					n, same := 0, true
					c.path.each(func(ev *Event, _ scope) {
						if isRootIface(ev, "Expectation", "Predicate") && ev.Recv == kid {
							n++
							same = same && len(ev.Args) == 1 && sameScope(ev.Args[0], c.scope)
						}
					})
					r.Check("scope", kind, c.fn.Pos(), kid != nil && n == 1, "%s: the predicate of child %d is made %d times", c.name(), i, n)
					r.Check("scope", kind, c.fn.Pos(), same, "%s: the predicate of child %d is made in another scope", c.name(), i)
				}
				for _, m := range []string{"Notify", "Done"} {
					mfn := r.P.methodNamed(ifaceType(c.pred), m)
					var args []*Term
					if m == "Notify" {
						args = []*Term{mk("param", "fact", nil)}
					}
					ps, ok := r.invoke(Config{OnCall: childHook}, r.notified(c), c.pred, m, args...)
					if !r.Check("fan-out", kind+": "+m, c.fn.Pos(), ok, "the predicate that is returned is not known: %v", c.pred) {
						continue
					}
					for _, p := range ps {
						r.Check("fan-out", kind+": "+m, mfn.Pos(), p.Kind == "ret", "%s: it panics", c.name())
						for i, pr := range c.preds {
							n, same := 0, true
							p.each(func(ev *Event, _ scope) {
								if ev.Method == m && ev.Recv == pr && pr != nil {
									n++
									same = same && (m != "Notify" || len(ev.Args) == 1 && ev.Args[0] == args[0])
									same = same && ev.G == 0
								}
							})
							r.Check("fan-out", kind+": "+m, mfn.Pos(), n == 1, "%s: %s is called %d times for child %d", c.name(), m, n, i)
							r.Check("fan-out", kind+": "+m, mfn.Pos(), same, "%s: %s is called with something else for child %d", c.name(), m, i)
						}
						p.each(func(ev *Event, _ scope) {
							for _, other := range []string{"Done", "Notify"} {
								if other != m && ev.Method == other && ev.Kind != "loop" {
									r.Check("fan-out", kind+": "+m, ev.Pos, false, "%s: it calls %s", c.name(), other)
								}
							}
						})
					}
				}
				for _, m := range []string{"Ok", "Report"} {
					mfn := r.P.methodNamed(ifaceType(c.pred), m)
					for _, cfg := range c.cfgs()[:1] {
						ps, _ := r.invoke(cfg, c.st, c.pred, m)
						for _, p := range ps {
							p.each(func(ev *Event, _ scope) {
								if ev.Method == "Done" || ev.Kind == "notify" {
									r.Check("fan-out", kind+": "+m, mfn.Pos(), false, "%s: it calls %s", c.name(), ev.Method)
								}
							})
						}
					}
				}
			}
		}
	}
}

func ifaceType(t *Term) types.Type {
	if t != nil && t.Op == "iface" {
		return t.TAux
	}
	return types.Typ[types.Invalid]
}

// sameScope reports whether a scope is the one that was given.
func sameScope(a, s *Term) bool {
	if a == s {
		return true
	}
	st, ok := under(s.Typ).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		x, y := structField(a, s.Typ, n), structField(s, s.Typ, n)
		if x == nil || x != y {
			if _, ok := splitStruct(st.Field(i).Type()); ok && x != nil && y != nil && sameScope(x, mk(y.Op, y.Aux, st.Field(i).Type(), y.Args...)) {
				continue
			}
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// C21

func init() {
	checks["C21"] = checkC21
}

func checkC21(r *Report) {
	r.Rule("meaning", 5, "the verdict of a composite is the boolean combination of its children's verdicts")
	r.Rule("indices", 1, "a repeated expectation is made of the expectations for the indices from zero up to the count")
	r.Rule("refuses-empty", 4, "a composite without children, or with a count that is not positive, is refused by a panic")
	r.Rule("refuses-child", 5, "a composite with a child that cannot be made, or is nil, is refused by an error")
	r.Rule("accepts", 5, "a composite is refused for no other reason")
	for _, kind := range compositeKinds {
		fn := r.P.Func("", kind)
		for _, k := range r.lengths(kind, "meaning", "Done", "Ok") {
			cs, rs := r.composites(kind, k)
			made := 0
			for _, c := range cs {
				made++
				if c.pred == nil {
					r.Check("meaning", kind, c.fn.Pos(), kind != "Not" && kind != "NoneOf", "%s is its child", c.name())
					continue
				}
				if kind == "ToRepeatedly" {
					n := 0
					c.path.each(func(ev *Event, _ scope) {
						if ev.Kind == "call" && ev.Name == "dyn" {
							n++
						}
					})
					ok := n == k
					for _, kid := range c.kids {
						ok = ok && kid != nil
					}
					r.Check("indices", kind, c.fn.Pos(), ok, "%s: the factory is called %d times, not once for each index", c.name(), n)
				}
				for i, pr := range c.preds {
					r.Check("meaning", kind, c.fn.Pos(), pr != nil, "%s: child %d has no predicate", c.name(), i)
					if pr != nil {
						// a predicate is only made if no child failed
						c.path.each(func(ev *Event, _ scope) {
							if isRootIface(ev, "Expectation", "Predicate") && ev.Recv == c.kids[i] {
								r.Check("refuses-child", kind, ev.Pos, lits(c.path.Lits).isNil(ev.Res[1]), "%s: a child whose predicate cannot be made is accepted", c.name())
							}
						})
						if kind == "ToRepeatedly" {
							r.Check("refuses-child", kind, c.fn.Pos(), lits(c.path.Lits).notNil(c.kids[i]), "%s: a nil child is accepted", c.name())
						}
					}
				}
				mfn := r.P.methodNamed(ifaceType(c.pred), "Ok")
				if !r.Check("meaning", kind, c.fn.Pos(), mfn != nil, "the predicate that is returned is not known: %v", c.pred) {
					continue
				}
				for _, cfg := range c.cfgs() {
					for _, d := range r.doneStates(cfg, c) {
						ps, _ := r.invoke(cfg, d.after(), c.pred, "Ok")
						// the verdict does not change once it has been given
						for _, p := range only(ps, "ret") {
							again, _ := r.invoke(cfg, p.after(), c.pred, "Ok")
							ps = append(ps, again...)
						}
						for _, p := range ps {
							if p.Kind != "ret" {
								r.Check("meaning", kind, mfn.Pos(), false, "%s: Ok panics", c.name())
								continue
							}
							assignments(c.preds, p.Lits, func(oks []bool, ls lits) {
								v, known := ls.decide(p.Vals[0])
								r.Check("meaning", kind, mfn.Pos(), known, "%s: the verdict is %v", c.name(), p.Vals[0])
								if known {
									r.Check("meaning", kind, mfn.Pos(), v == met(kind, oks), "%s: the verdict is %v if the children's verdicts are %v", c.name(), v, oks)
								}
							})
						}
					}
				}
			}
			r.Check("accepts", kind, fn.Pos(), made > 0, "%s of %d children cannot be made", kind, k)
			for _, f := range rs {
				switch f.what {
				case "panic":
					// of the description and the factory
					ok := kind == "ToRepeatedly" && f.fn == fn && repeatRefused(f)
					r.Check("accepts", kind, f.fn.Pos(), ok, "%s of %d children panics: %v", kind, k, f.path.PVal)
				case "error":
					ok := false
					f.path.each(func(ev *Event, _ scope) {
						if isRootIface(ev, "Expectation", "Predicate") && lits(f.path.Lits).notNil(ev.Res[1]) {
							ok = true
						}
						if ev.Kind == "call" && ev.Name == "dyn" && lits(f.path.Lits).isNil(ev.Res[0]) {
							ok = true
						}
					})
					r.Check("accepts", kind, f.fn.Pos(), ok, "%s of %d children gives the error %v although no child failed", kind, k, f.path.Vals[1])
					if ok {
						v := f.path.Vals[1]
						r.Check("refuses-child", kind, f.fn.Pos(), lits(f.path.Lits).notNil(v) || nonNil(v), "%s of %d children returns %v for a child that failed", kind, k, v)
					}
				default:
					r.Check("accepts", kind, f.fn.Pos(), false, "what %s returns is not known", kind)
				}
			}
		}
		// empty
		if kind == "Not" {
			continue
		}
		for _, k := range []int{0, -1} {
			if k < 0 && kind != "ToRepeatedly" {
				continue
			}
			cs, rs := r.composites(kind, k)
			r.Check("refuses-empty", kind, fn.Pos(), len(cs) == 0, "%s of %d children is accepted", kind, k)
			for _, f := range rs {
				r.Check("refuses-empty", kind, fn.Pos(), f.what == "panic" && f.fn == fn, "%s of %d children is not refused when it is made", kind, k)
			}
		}
	}
}

// repeatRefused reports whether a refusal is due to an empty description or
// a nil factory.
func repeatRefused(f *refusal) bool {
	for i, p := range f.fn.Params {
		t := nthParam(f.fn, i)
		if isStringType(p.Type()) && lits(f.path.Lits).holds(mkEq(t, mkStr(""), p.Type())) {
			return true
		}
		if isStringType(p.Type()) && lits(f.path.Lits).holds(mkEq0(linOf(mkLen(t)))) {
			return true
		}
		if _, ok := under(p.Type()).(*types.Signature); ok && lits(f.path.Lits).isNil(t) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C29 for composites

func (r *Report) compositeReports() {
	r.Rule("outcome", 5, "the outcome of a composite's report is the predicate's verdict, and it carries the overall verdict")
	r.Rule("sub-reports", 3, "the report of an all-of, any-of or none-of has one sub-report per child, in order")
	r.Rule("inversion", 5, "negation and none-of flip the inversion passed to their children, other composites pass it on, and all pass the overall verdict on")
	ct := r.P.Type("", "ReportGenerationContext")
	if ct == nil {
		panic(giveUp{"cannot find the type ReportGenerationContext"})
	}
	ctx := mk("param", "ctx", ct)
	tree, inv := structField(ctx, ct, "TreeOk"), structField(ctx, ct, "IsInverted")
	if tree == nil || inv == nil {
		panic(giveUp{"ReportGenerationContext does not have the expected fields"})
	}
	for _, kind := range compositeKinds {
		flip := kind == "Not" || kind == "NoneOf"
		for _, k := range r.lengths(kind, "outcome", "Ok", "Report") {
			cs, _ := r.composites(kind, k)
			for _, c := range cs {
				if c.pred == nil {
					continue
				}
				for _, cfg := range c.cfgs() {
					for _, d := range r.doneStates(cfg, c) {
						st := d.after()
						verdicts := only2(r.invoke(cfg, st, c.pred, "Ok"))
						reps := only2(r.invoke(cfg, st, c.pred, "Report", ctx))
						for _, v := range verdicts {
							reps = append(reps, only2(r.invoke(cfg, v.after(), c.pred, "Report", ctx))...)
						}
						mfn := r.P.methodNamed(ifaceType(c.pred), "Report")
						for _, p := range reps {
							rep := readReport(r, p)
							if !r.Check("outcome", kind, mfn.Pos(), rep != nil, "%s: what it returns is not known: %v", c.name(), p.Vals) {
								continue
							}
							r.Check("outcome", kind, mfn.Pos(), agrees(lits(p.Lits), rep["TreeOk"], tree), "%s: the report's overall verdict is %v", c.name(), rep["TreeOk"])
							assignments(c.preds, p.Lits, func(oks []bool, ls lits) {
								got, known := ls.decide(rep["Ok"])
								if !r.Check("outcome", kind, mfn.Pos(), known, "%s: the report's outcome is %v", c.name(), rep["Ok"]) {
									return
								}
								for _, v := range verdicts {
									assignments(c.preds, v.Lits, func(oks2 []bool, ls2 lits) {
										if fmt.Sprint(oks) != fmt.Sprint(oks2) {
											return
										}
										want, known := ls2.decide(v.Vals[0])
										r.Check("outcome", kind, mfn.Pos(), known && got == want, "%s: the report says %v but the verdict is %v, if the children's verdicts are %v", c.name(), got, want, oks)
									})
								}
							})
							by := map[*Term]*Event{}
							p.each(func(ev *Event, _ scope) {
								if !isRootIface(ev, "Predicate", "Report") {
									return
								}
								by[ev.Res[0]] = ev
								a := ev.Args[0]
								r.Check("inversion", kind, ev.Pos, agrees(lits(p.Lits), structField(a, ct, "TreeOk"), tree), "%s: a child's report is given another overall verdict: %v", c.name(), structField(a, ct, "TreeOk"))
								want := inv
								if flip {
									want = mkNot(inv)
								}
								r.Check("inversion", kind, ev.Pos, agrees(lits(p.Lits), structField(a, ct, "IsInverted"), want), "%s: the inversion given to a child is %v", c.name(), structField(a, ct, "IsInverted"))
							})
							p.each(func(ev *Event, _ scope) {
								if f := reportField(r, ev); f != "" && by[ev.Addr.Args[0]] != nil {
									r.Check("inversion", kind, ev.Pos, false, "%s: the %s of a child's report is replaced by %v", c.name(), f, ev.Val)
								}
							})
							if kind == "Not" || kind == "ToRepeatedly" {
								r.Check("inversion", kind, mfn.Pos(), true, "")
								continue
							}
							subs := flatten(rep["SubReports"], nil)
							ok := len(subs) == len(c.preds)
							for i, s := range subs {
								ok = ok && s.elem && by[s.t] != nil && i < len(c.preds) && by[s.t].Recv == c.preds[i]
							}
							r.Check("sub-reports", kind, mfn.Pos(), ok, "%s: the sub-reports are %s", c.name(), piecesString(subs))
						}
					}
				}
			}
		}
	}
}

// reportField is the name of the field to which an event assigns, if it is
// one of the verdicts or sub-reports of a report.
func reportField(r *Report, ev *Event) string {
	if ev.Kind != "store" || ev.Addr == nil || ev.Addr.Op != "faddr" {
		return ""
	}
	rt := r.P.Type("", "Report")
	for _, f := range []string{"TreeOk", "Ok", "SubReports"} {
		if ev.Addr == fieldAddr(ev.Addr.Args[0], rt, f) {
			return f
		}
	}
	return ""
}

// fieldAddr is the address of a field of a structure.
func fieldAddr(base *Term, t types.Type, name string) *Term {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFaddr(base, i, s, t)
		}
	}
	return nil
}

func only2(ps []*Path, _ bool) []*Path { return only(ps, "ret") }

// agrees reports whether two conditions are the same on a path.
func agrees(ls lits, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	x, xk := ls.decide(a)
	y, yk := ls.decide(b)
	return xk && yk && x == y
}

// readReport reads the fields of the report that a path returns.
func readReport(r *Report, p *Path) map[string]*Term {
	rt := r.P.Type("", "Report")
	if rt == nil {
		panic(giveUp{"cannot find the type Report"})
	}
	if len(p.Vals) != 1 || p.Vals[0].Op != "obj" {
		return nil
	}
	s := under(rt).(*types.Struct)
	m := map[string]*Term{}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		m[f.Name()] = p.St.load(mkFaddr(p.Vals[0], i, s, rt), f.Type())
	}
	return m
}

var _ = strings.Contains
