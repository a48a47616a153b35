package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file has what the checks of the test API share.

// methodNamed finds a method of a concrete type, generic or not.
func (p *Program) methodNamed(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() != name {
			continue
		}
		return p.methodValue(s)
	}
	return nil
}

func (p *Program) methodValue(s *types.Selection) *ssa.Function {
	if fn := p.SSA.MethodValue(s); fn != nil && (fn.Blocks != nil || fn.Origin() == nil) {
		return fn
	}
	if o, ok := s.Obj().(*types.Func); ok {
		return p.SSA.FuncValue(o.Origin())
	}
	return nil
}

// after is the state in which a path ended, with its history forgotten.
func (p *Path) after() *State {
	st := p.St.clone()
	st.evs = nil
	st.pan = nil
	return st
}

// invoke analyses a method of an interface value whose dynamic type is known.
// It returns false if the type is not known.
func (r *Report) invoke(cfg Config, st *State, recv *Term, method string, args ...*Term) ([]*Path, bool) {
	if recv == nil || recv.Op != "iface" {
		return nil, false
	}
	fn := r.P.methodNamed(recv.TAux, method)
	if fn == nil || fn.Blocks == nil {
		return nil, false
	}
	st = st.clone()
	st.evs = nil
	all := append([]*Term{recv.Args[0]}, args...)
	for i := len(all); i < len(fn.Params); i++ {
		all = append(all, mk("param", method+":"+fn.Params[i].Name(), fn.Params[i].Type()))
	}
	return r.Run(cfg, fn, st, all...), true
}

// anyTimes is a state after functions have been called any number of times:
// what they may modify is not known.
func (r *Report) anyTimes(st *State, key string, fns []*ssa.Function) *State {
	ms := r.P.modsetOf(key, fns)
	st = st.clone()
	for o := range st.objs {
		havocObj(st, o, deref(o.Typ), ms)
	}
	for c, x := range st.heap {
		if c.Op != "faddr" || c.TAux == nil {
			continue
		}
		k := fieldKey(deref(c.TAux), c.Idx)
		if ms.fields["map:"+k] && x.Op != "nil" {
			mc := mk("mapcell", "", nil, x)
			st.heap[mc] = mk("hav", "visited", nil, mc)
		}
		if ms.fields[k] {
			st.heap[c] = mk("hav", "visited", x.Typ, c)
		}
	}
	return st
}

// stripIface is the value that an interface value holds.
func stripIface(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// only returns the paths that end in a given way.
func only(ps []*Path, kind string) []*Path {
	var r []*Path
	for _, p := range ps {
		if p.Kind == kind {
			r = append(r, p)
		}
	}
	return r
}

// guarded checks that a method accesses the fields of its receiver only while
// it holds a mutex, and releases it however it ends.
func (r *Report) guarded(rule, construct string, cfg Config, fn *ssa.Function, recv *Term, field func(i int) bool) {
	mine := func(a *Term) bool {
		for a.Op == "iaddr" || a.Op == "faddr" {
			if a.Op == "faddr" && a.Args[0] == recv {
				return field(a.Idx)
			}
			a = a.Args[0]
		}
		return false
	}
	cfg.Loads = mine
	ps := r.Run(cfg, fn, nil, recv)
	for _, p := range ps {
		a := &automaton{
			step: func(s string, ev *Event, sc scope) (string, string) {
				name, own := "", ev.Recv != nil && root(ev.Recv) == recv
				if ev.Kind == "call" && own && lockType(ev.Name) {
					name = ev.Method
				}
				switch name {
				case "Lock":
					if s != "" {
						return s, "the mutex is locked twice"
					}
					return "w", ""
				case "RLock":
					if s != "" {
						return s, "the mutex is locked twice"
					}
					return "r", ""
				case "Unlock":
					if s != "w" {
						return s, "the mutex is unlocked, but not locked for writing"
					}
					return "", ""
				case "RUnlock":
					if s != "r" {
						return s, "the mutex is unlocked, but not locked for reading"
					}
					return "", ""
				}
				if ev.Kind == "load" && s == "" {
					return s, "reads " + ev.Addr.String() + " without holding the mutex"
				}
				if ev.Kind == "store" && mine(ev.Addr) && s != "w" {
					return s, "writes " + ev.Addr.String() + " without holding the mutex for writing"
				}
				return s, ""
			},
			fail: func(s string, ev *Event, sc scope, why string) {
				r.Check(rule, construct, ev.Pos, false, "%s", why)
			},
		}
		for _, s := range a.run([]string{""}, p.Events, scope{lits: p.Lits}) {
			r.Check(rule, construct, fn.Pos(), s == "", "the mutex is still held when the method ends")
		}
	}
}

// isMutexField reports whether a field is a mutex.
func isMutexField(t types.Type) bool {
	k := typeKey(t)
	return strings.HasSuffix(k, "sync.Mutex") || strings.HasSuffix(k, "sync.RWMutex") || strings.Contains(k, "sync/atomic.")
}

// nthParam is the i'th parameter of a function, as a term.
func nthParam(fn *ssa.Function, i int) *Term {
	return mk("param", fn.Params[i].Name(), fn.Params[i].Type())
}
