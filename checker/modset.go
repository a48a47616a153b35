package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A modset is what a call may modify: struct fields (by declaring type), and
// the contents of maps held in struct fields.
type modset struct {
	fields map[string]bool
}

// havoc forgets what an opaque call may modify.
func (it *Interp) havoc(st *State, ev *Event) {
	var fns []*ssa.Function
	key := ev.Name
	switch {
	case ev.Callee != nil:
		if !inModule(ev.Callee) {
			return
		}
		fns = []*ssa.Function{ev.Callee}
		key = ev.Callee.String()
	case ev.MFunc != nil:
		if ev.MFunc.Pkg() == nil || !inModulePath(ev.MFunc.Pkg().Path()) {
			return
		}
		fns = it.P.implementations(ev.MFunc)
	case ev.Name == "dyn":
		t, ok := types.Unalias(ev.Recv.Typ).(*types.Named)
		if !ok || t.Obj().Pkg() == nil || !inModulePath(t.Obj().Pkg().Path()) {
			return
		}
		key = "dyn:" + typeKey(t)
		fns = it.P.conversionsTo(t)
	}
	if len(fns) == 0 {
		return
	}
	ms := it.P.modsetOf(key, fns)
	for f := range ms.fields {
		st.epoch[f] = ev.Site
	}
	// fields of objects that have not been written yet
	for o := range st.objs {
		if !st.leaked[o] {
			continue
		}
		havocObj(st, o, deref(o.Typ), ms)
	}
	for c, v := range st.heap {
		if c.Op != "faddr" || c.TAux == nil || st.local(c) {
			continue
		}
		k := fieldKey(deref(c.TAux), c.Idx)
		if ms.fields["map:"+k] && v.Op != "nil" {
			mc := mk("mapcell", "", nil, v)
			st.heap[mc] = mk("hav", ev.Site, nil, mc)
		}
		if ms.fields[k] {
			st.heap[c] = mk("hav", ev.Site, v.Typ, c)
		}
	}
	for c := range st.heap {
		if c.Op != "mapcell" || st.local(c) {
			continue
		}
		r := c.Args[0]
		if r.Op == "ld" && r.Args[0].Op == "faddr" && r.Args[0].TAux != nil &&
			ms.fields["map:"+fieldKey(deref(r.Args[0].TAux), r.Args[0].Idx)] {
			st.heap[c] = mk("hav", ev.Site, nil, c)
		}
	}
}

func havocObj(st *State, addr *Term, t types.Type, ms *modset) {
	s, ok := splitStruct(t)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		a := mkFaddr(addr, i, s, t)
		if ms.fields[fieldKey(t, i)] {
			ft := s.Field(i).Type()
			if _, ok := st.heap[a]; !ok {
				st.heap[a] = zeroTerm(ft)
			}
		}
		havocObj(st, a, s.Field(i).Type(), ms)
	}
}

func inModule(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && inModulePath(p.Path())
}

// implementations lists the methods of the module's types that a call of an
// interface method may reach.
func (p *Program) implementations(m *types.Func) []*ssa.Function {
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	iface, ok := under(recv.Type()).(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, q := range p.Mod {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, iface) {
					continue
				}
				if sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
					if o, ok := sel.Obj().(*types.Func); ok {
						if fn := p.SSA.FuncValue(o); fn != nil {
							r = append(r, fn)
						}
					}
				}
				break
			}
		}
	}
	return r
}

// conversionsTo lists the functions converted to a named function type.
func (p *Program) conversionsTo(t types.Type) []*ssa.Function {
	var r []*ssa.Function
	for _, fn := range p.ModFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.ChangeType)
				if !ok || !types.Identical(c.Type(), t) {
					continue
				}
				switch x := c.X.(type) {
				case *ssa.Function:
					r = append(r, x)
				case *ssa.MakeClosure:
					r = append(r, x.Fn.(*ssa.Function))
				}
			}
		}
	}
	return r
}

func (p *Program) modsetOf(key string, fns []*ssa.Function) *modset {
	if m, ok := p.modsets[key]; ok {
		return m
	}
	m := &modset{fields: map[string]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		if !inModule(fn) && fn.Synthetic == "" {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					markAddr(m, in.Addr)
				case *ssa.MapUpdate:
					markMap(m, in.Map)
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if c.IsInvoke() {
						if c.Method.Pkg() != nil && inModulePath(c.Method.Pkg().Path()) {
							for _, f := range p.implementations(c.Method) {
								visit(f)
							}
						}
						continue
					}
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "delete" || bi.Name() == "clear" {
							markMap(m, c.Args[0])
						}
						continue
					}
					if f := c.StaticCallee(); f != nil {
						visit(f)
						continue
					}
					if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && inModulePath(n.Obj().Pkg().Path()) {
						for _, f := range p.conversionsTo(n) {
							visit(f)
						}
					}
				}
			}
		}
	}
	for _, f := range fns {
		visit(f)
	}
	p.modsets[key] = m
	return m
}

func markAddr(m *modset, a ssa.Value) {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		if freshAddr(a.X) {
			return
		}
		m.fields[fieldKey(deref(a.X.Type()), a.Field)] = true
		if _, ok := a.X.(*ssa.FieldAddr); ok {
			markAddr(m, a.X)
		}
	case *ssa.Parameter, *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.FreeVar:
		// *p = v for a pointer to a struct
		if st, ok := splitStruct(deref(a.Type())); ok {
			for i := 0; i < st.NumFields(); i++ {
				m.fields[fieldKey(deref(a.Type()), i)] = true
			}
		}
	}
}

// freshAddr reports whether an address is within an object that the function
// itself allocates.
func freshAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshAddr(v.X)
	}
	return false
}

func markMap(m *modset, v ssa.Value) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			m.fields["map:"+fieldKey(deref(fa.X.Type()), fa.Field)] = true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, ok := e.(*ssa.Phi); !ok {
				markMap(m, e)
			}
		}
	}
}

// getter reports whether every implementation of an interface method merely
// returns part of its receiver.
func (p *Program) getter(m *types.Func) bool {
	if g, ok := p.getters[m]; ok {
		return g
	}
	p.getters[m] = false // unless it turns out to be one, without needing itself
	sig := m.Type().(*types.Signature)
	ok := sig.Params().Len() == 0 && sig.Results().Len() == 1
	if ok {
		fns := p.implementations(m)
		ok = len(fns) > 0
		for _, fn := range fns {
			if !p.getterFunc(fn) {
				ok = false
				break
			}
		}
	}
	p.getters[m] = ok
	return ok
}

// getterFunc reports whether fn merely returns part of its receiver.
func (p *Program) getterFunc(fn *ssa.Function) (ok bool) {
	if fn.Blocks == nil {
		return false
	}
	defer func() {
		if v := recover(); v != nil {
			if _, is := v.(giveUp); !is {
				panic(v)
			}
			ok = false
		}
	}()
	outs := NewInterp(p, Config{Salt: "getter"}).Run(fn, newState(), nil)
	if len(outs) != 1 || outs[0].Kind != "ret" {
		return false
	}
	for _, ev := range outs[0].St.events() {
		if ev.Kind != "store" {
			return false
		}
	}
	for c := range outs[0].St.heap {
		if root(c).Op != "obj" {
			return false
		}
	}
	return !outs[0].Vals[0].contains(func(t *Term) bool {
		switch t.Op {
		case "res", "obj", "mu", "index", "closure":
			return true
		}
		return false
	})
}
