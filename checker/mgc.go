package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A most general client stands for user code that is given a scope: it may
// use the scope's methods any number of times, in any order. It is summarised
// as a loop, each iteration of which is one use of the scope. The small-valued
// state that the uses change (flags, references) is tracked exactly, by
// exploring every combination that is reachable; state that grows is
// represented by loop variables.

// A Client is the summary of such user code.
type Client struct {
	Call  *Event // the call that hands over the scope
	Scope *Term
	Loop  *Loop
	Trans []*Use
	Ops   []clientOp
	Start string // ghost state at the beginning
}

// A Use is one way that one use of the scope may end.
type Use struct {
	Op     string
	Args   []*Term
	Kind   string // ret or panic
	From   string // ghost state before
	To     string
	Events []*Event
	Lits   map[*Term]bool // everything known on the path
	Delta  map[*Term]bool // what this use adds
	Vals   []*Term
	PVal   *Term
	Before *State
	After  *State
	Next   map[*Term]*Term
}

// clientCfg configures how scopes are used.
type clientCfg struct {
	// ghost computes the specification state after a use.
	ghost func(from string, u *Use) string
	start func(st *State, ev *Event) string
	// cond is a condition that is decided before user code runs.
	cond func(st *State, ev *Event) *Term
	// clients collects the summaries.
	clients []*Client
}

// scopeArg finds the argument through which a call hands over a scope.
func scopeArg(ev *Event) (*Term, *types.Interface) {
	if ev.MFunc == nil || ev.MFunc.Pkg() == nil || ev.MFunc.Pkg().Path() != "github.com/dogmatiq/dogma" {
		return nil, nil
	}
	sig := ev.MFunc.Type().(*types.Signature)
	for i, a := range ev.Args {
		if a.Op != "iface" || i >= sig.Params().Len() {
			continue
		}
		pt := sig.Params().At(i).Type()
		it, ok := under(pt).(*types.Interface)
		if !ok || it.NumMethods() == 0 || !strings.HasSuffix(typeKey(pt), "Scope") {
			continue
		}
		if n, ok := types.Unalias(deref(a.TAux)).(*types.Named); ok && n.Obj().Pkg() != nil && inModulePath(n.Obj().Pkg().Path()) {
			return a, it
		}
	}
	return nil, nil
}

type clientNode struct {
	key   string
	st    *State
	ghost string
	init  bool
}

// onCall is an OnCall hook that lets user code use the scope it is given.
func (cc *clientCfg) onCall(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
	scope, iface := scopeArg(ev)
	if scope == nil {
		return nil
	}
	id := ev.Site + "@uses"
	st.emit(ev)

	// undetermined flags of the scope become separate cases
	starts := []*State{st}
	if cc.cond != nil {
		if c := cc.cond(st, ev); c != nil {
			yes, no := st.split(c)
			starts = append(append([]*State(nil), yes...), no...)
		}
	}
	for changed := true; changed; {
		changed = false
		var next []*State
		for _, s := range starts {
			split := false
			for c, v := range s.heap {
				if root(c) != root(scope.Args[0]) || v == tTrue || v == tFalse || !isBoolTerm(v) {
					continue
				}
				yes, no := s.split(v)
				for _, y := range yes {
					y.heap[c] = tTrue
				}
				for _, n := range no {
					n.heap[c] = tFalse
				}
				next = append(append(next, yes...), no...)
				split, changed = true, true
				break
			}
			if !split {
				next = append(next, s)
			}
		}
		starts = next
	}
	var outs []*CallOut
	for _, s := range starts {
		ghost0 := ""
		if cc.start != nil {
			ghost0 = cc.start(s, ev)
		}
		outs = append(outs, cc.explore(it, fr, s, ev, scope, scopeOps(it.P, scope, iface), id, ghost0)...)
	}
	return outs
}

func isBoolTerm(t *Term) bool {
	if t.Typ == nil {
		return t.Op == "has" || t.Op == "eq" || t.Op == "not" || t.Op == "isT"
	}
	b, ok := under(t.Typ).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// A clientOp is something that the client may do.
type clientOp struct {
	name string
	fn   *ssa.Function
}

// scopeOps are the methods of a scope.
func scopeOps(p *Program, scope *Term, iface *types.Interface) []clientOp {
	var ops []clientOp
	for k := 0; k < iface.NumMethods(); k++ {
		m := iface.Method(k)
		if fn := p.method(scope.TAux, m); fn != nil {
			ops = append(ops, clientOp{m.Name(), fn})
		}
	}
	return ops
}

func (cc *clientCfg) explore(it *Interp, fr *Frame, st *State, ev *Event, scope *Term, ops []clientOp, id, ghost0 string) []*CallOut {
	cl := &Client{Call: ev, Scope: scope, Ops: ops, Start: ghost0}
	uf := *fr
	uf.stack, uf.defers, uf.isDefer = nil, nil, false
	uf.parent, uf.user = fr, ev.Site
	pre := st.evs
	type varCell struct {
		cell *Term
		init *Term
		mu   *Term // non-nil if the values are not enumerated
		vals map[*Term]bool
	}
	cells := map[*Term]*varCell{}
	grows := map[*Term]bool{} // cells known to need a loop variable
	var nodes map[string]*clientNode
	var order []*clientNode

	keyOf := func(s *State, ghost string) string {
		var ks []string
		for c, vc := range cells {
			v := s.heap[c]
			k := "-"
			switch {
			case v == nil:
			case vc.mu == nil || v == vc.init:
				k = itoa(v.ID)
			default:
				k = "?"
				if n, known := s.decide(mkEq0(linOf(mkLen(v)))); known && !n {
					k = "+"
				}
			}
			ks = append(ks, itoa(c.ID)+"="+k)
		}
		sort.Strings(ks)
		return ghost + "|" + strings.Join(ks, ",")
	}
	// stateFor makes the state of a node from the state reached by a use
	stateFor := func(s *State) *State {
		n := st.clone()
		n.evs = nil
		for c, vc := range cells {
			v, ok := s.heap[c]
			if !ok {
				delete(n.heap, c)
				continue
			}
			if vc.mu == nil || v == vc.init {
				n.heap[c] = v
				continue
			}
			n.heap[c] = vc.mu
			if e, known := s.decide(mkEq0(linOf(mkLen(v)))); known && !e {
				n.assume(mkEq0(linOf(mkLen(vc.mu))), false)
			}
		}
		for e, x := range s.epoch {
			if n.epoch[e] != x {
				n.epoch[e] = id
			}
		}
		return n
	}
	var uses []*Use
restart:
	for round := 0; ; round++ {
		if round > 25 {
			it.fail(ev.Pos, "the uses of a scope cannot be enumerated")
		}
		uses = nil
		nodes = map[string]*clientNode{}
		order = nil
		first := &clientNode{st: stateFor(st), ghost: ghost0, init: true}
		first.key = keyOf(first.st, ghost0)
		nodes[first.key] = first
		order = append(order, first)
		for i := 0; i < len(order); i++ {
			if len(order) > 400 {
				it.fail(ev.Pos, "the uses of a scope reach too many states")
			}
			n := order[i]
			for _, m := range ops {
				fn := m.fn
				sig := fn.Signature
				args := []*Term{scope.Args[0]}
				var uargs []*Term
				for j := 0; j < sig.Params().Len(); j++ {
					a := mk("param", "use:"+m.name+":"+itoa(j), sig.Params().At(j).Type())
					args = append(args, a)
					uargs = append(uargs, a)
				}
				s := n.st.clone()
				before := n.st.clone()
				for _, o := range it.callFunc(&uf, s, fn, nil, args, id+"/"+m.name+"#0", ev.Pos, false) {
					u := &Use{Op: m.name, Args: uargs, Kind: "ret", From: n.ghost, To: n.ghost, Events: o.St.events(), Lits: o.St.lits, Delta: litDelta(o.St.lits, n.st.lits), Vals: o.Vals, PVal: o.PVal, Before: before, After: o.St}
					if o.PVal != nil {
						u.Kind = "panic"
						uses = append(uses, u)
						continue
					}
					// which cells does it change?
					grew := false
					for c, v := range o.St.heap {
						if n.st.heap[c] == v {
							if _, ok := n.st.heap[c]; ok {
								continue
							}
						}
						r := root(c)
						if r.Op == "obj" && !n.st.objs[r] {
							continue // created by this use
						}
						vc := cells[c]
						if vc == nil {
							iv, ok := st.heap[c]
							if !ok {
								iv = it.cellInit(st, c, v)
							}
							if iv == v {
								continue
							}
							vc = &varCell{cell: c, init: iv, vals: map[*Term]bool{}}
							if growing(iv, v) || grows[c] {
								vc.mu = mk("mu", id+":c"+itoa(c.ID), typeOfCell(iv, v))
							}
							cells[c] = vc
							st.heap[c] = iv
							grew = true
						}
						if vc.mu == nil {
							vc.vals[v] = true
							if len(vc.vals) > 6 || v.contains(func(x *Term) bool { return x == vc.init && x.Op != "const" && x.Op != "nil" && x != v }) {
								vc.mu = mk("mu", id+":c"+itoa(c.ID), typeOfCell(vc.init, v))
								grows[c] = true
								grew = true
							}
						}
					}
					for e, x := range o.St.epoch {
						if n.st.epoch[e] != x && st.epoch[e] != id {
							st.epoch[e] = id
							grew = true
						}
					}
					if grew {
						continue restart
					}
					if cc.ghost != nil {
						u.To = cc.ghost(n.ghost, u)
					}
					u.Next = map[*Term]*Term{}
					for c, vc := range cells {
						if vc.mu == nil {
							continue
						}
						v := o.St.heap[c]
						cur := n.st.heap[c]
						switch {
						case v == nil:
							v = mk("hav", id, nil)
						case v == cur:
							v = vc.mu
						case cur == vc.init && vc.init.Op == "nil":
							v = mkAppend(vc.mu, v)
						case cur == vc.init:
							v = subst(v, vc.init, vc.mu)
						}
						u.Next[vc.mu] = v
					}
					uses = append(uses, u)
					ns := stateFor(o.St)
					key := keyOf(ns, u.To)
					if nodes[key] == nil {
						nn := &clientNode{key: key, st: ns, ghost: u.To}
						nodes[key] = nn
						order = append(order, nn)
					}
				}
			}
		}
		break
	}
	l := &Loop{ID: id, Fn: fr.fn, Pos: ev.Pos, Init: map[*Term]*Term{}, Iter: mk("iter", id, types.Typ[types.Int]), Client: cl}
	for _, vc := range cells {
		if vc.mu != nil {
			l.Init[vc.mu] = vc.init
		}
	}
	cl.Loop = l
	cl.Trans = uses
	for _, u := range uses {
		if u.Kind == "ret" {
			l.Iters = append(l.Iters, &Iter{Events: u.Events, Lits: u.Delta, Next: u.Next, Use: u})
		}
	}
	cc.clients = append(cc.clients, cl)

	var outs []*CallOut
	attach := func(s *State, ghost string, extra []*Event) {
		s.evs = pre
		s.ghost["client"] = ghost
		for c, vc := range cells {
			if vc.mu != nil {
				s.ghost["mu:"+itoa(vc.mu.ID)] = "mu"
				if s.heap[c] == vc.init {
					s.ghost["mu:"+itoa(vc.mu.ID)] = "init"
				}
			}
		}
		s.emit(&Event{Kind: "loop", Loop: l, Pos: ev.Pos, In: fr.fn, Depth: fr.depth, Site: id})
		for _, e := range extra {
			k := 1
			if s.evs != nil {
				k = s.evs.n + 1
			}
			s.evs = &evNode{s.evs, e, k}
		}
	}
	for _, n := range order {
		s := n.st.clone()
		attach(s, n.ghost, nil)
		outs = append(outs, &CallOut{St: s, Vals: ev.Res})
		if it.Cfg.MayPanic != nil && st.g == 0 && it.Cfg.MayPanic(ev) {
			p := n.st.clone()
			attach(p, n.ghost, []*Event{{Kind: "upanic", Name: ev.Name, Method: ev.Method, MFunc: ev.MFunc, Recv: ev.Recv, Args: ev.Args, Site: ev.Site, Pos: ev.Pos, In: fr.fn, Panics: true}})
			outs = append(outs, &CallOut{St: p, PVal: mk("upanic", ev.Site, nil)})
		}
	}
	if it.Cfg.MayPanic != nil && st.g == 0 {
		for _, u := range uses {
			if u.Kind == "panic" {
				p := u.After.clone()
				attach(p, u.From, u.Events)
				outs = append(outs, &CallOut{St: p, PVal: u.PVal})
			}
		}
	}
	return outs
}

// growing reports whether a cell's values are better represented by a loop
// variable than enumerated.
func growing(a, b *Term) bool {
	for _, t := range []*Term{a, b} {
		switch t.Op {
		case "seq", "append", "slice", "mapset", "mapdel", "mapempty", "mapinit", "lin", "cat":
			return true
		}
		if t.Typ != nil {
			switch under(t.Typ).(type) {
			case *types.Slice, *types.Map:
				return true
			}
		}
	}
	return false
}

func typeOfCell(a, b *Term) types.Type {
	if a.Typ != nil {
		return a.Typ
	}
	return b.Typ
}
