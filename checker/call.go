package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve evaluates the callee and arguments of a call. For interface calls
// the first argument is the receiver.
func (it *Interp) resolve(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		args = append(args, it.value(fr, c.Value))
	} else {
		fn = it.value(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, it.value(fr, a))
	}
	return fn, args
}

func (it *Interp) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, site string, pos token.Pos, isDefer bool) []*CallOut {
	fn, args := it.resolve(fr, c)
	return it.callResolved(fr, st, c, fn, args, site, pos, isDefer)
}

func (it *Interp) callResolved(fr *Frame, st *State, c *ssa.CallCommon, fn *Term, args []*Term, site string, pos token.Pos, isDefer bool) []*CallOut {
	it.Sites[site[strings.LastIndexByte(site, '#')+1:]] = true
	sig := c.Signature()
	if c.IsInvoke() {
		recv := args[0]
		if recv.Op == "iface" {
			if m := it.P.method(recv.TAux, c.Method); m != nil {
				a := append([]*Term{recv.Args[0]}, args[1:]...)
				return it.callFunc(fr, st, m, nil, a, site, pos, isDefer)
			}
		}
		if v, known := st.decide(mkEq(tNil, recv, nil)); known && v && it.Cfg.Faults {
			return []*CallOut{{St: st, PVal: mk("fault", "call of a method of nil", nil)}}
		}
		if recv.Op == "nil" {
			return nil // a run-time error of the language
		}
		return it.invoke(fr, st, c.Method, recv, args[1:], sig, site, pos, isDefer)
	}
	if fn.Op == "builtin" {
		return it.builtin(fr, st, fn.Aux, args, c, site, pos, isDefer)
	}
	return it.callValue(fr, st, fn, args, sig, site, pos, isDefer)
}

// callValue calls a function value.
func (it *Interp) callValue(fr *Frame, st *State, fn *Term, args []*Term, sig *types.Signature, site string, pos token.Pos, isDefer bool) []*CallOut {
	switch fn.Op {
	case "func":
		return it.callFunc(fr, st, fn.Fn, nil, args, site, pos, isDefer)
	case "closure":
		return it.callFunc(fr, st, fn.Fn, fn.Args, args, site, pos, isDefer)
	case "nil":
		if it.Cfg.Faults {
			return []*CallOut{{St: st, PVal: mk("fault", "call of nil", nil)}}
		}
		return nil // a run-time error of the language
	}
	ev := &Event{Kind: "call", Name: "dyn", Method: "dyn", Recv: fn, Args: args, Site: site, Pos: pos, In: fr.fn, Depth: fr.depth, Defer: isDefer || fr.isDefer}
	return it.opaque(fr, st, ev, sig.Results(), site)
}

// invoke calls a method of an interface value of unknown dynamic type.
func (it *Interp) invoke(fr *Frame, st *State, m *types.Func, recv *Term, args []*Term, sig *types.Signature, site string, pos token.Pos, isDefer bool) []*CallOut {
	name := m.FullName()
	if f := pureModel(name, m.Pkg()); f {
		all := append([]*Term{recv}, args...)
		if r := it.model(fr, st, name, nil, all, sig, site, pos, isDefer); r != nil {
			return r
		}
		return []*CallOut{{St: st, Vals: pureResults(name, all, sig)}}
	}
	if r := it.model(fr, st, name, nil, append([]*Term{recv}, args...), sig, site, pos, isDefer); r != nil {
		return r
	}
	if m.Pkg() != nil && inModulePath(m.Pkg().Path()) && it.P.getter(m) {
		return []*CallOut{{St: st, Vals: pureResults(name, []*Term{recv}, sig)}}
	}
	ev := &Event{Kind: "call", Name: name, Method: m.Name(), Recv: recv, Args: args, MFunc: m, Site: site, Pos: pos, In: fr.fn, Depth: fr.depth, Defer: isDefer || fr.isDefer}
	if isNotify(m) {
		ev.Kind = "notify"
	}
	outs := it.opaque(fr, st, ev, sig.Results(), site)
	if name == "(context.Context).Err" && isDoneBefore(st.events(), recv) {
		for _, o := range outs {
			if o.PVal == nil && len(o.Vals) == 1 {
				o.St.assume(mkEq(tNil, o.Vals[0], nil), false)
			}
		}
	}
	return outs
}

// isDoneBefore reports whether the channel that is closed when a context is
// cancelled is known to be closed.
func isDoneBefore(evs []*Event, ctx *Term) bool {
	for _, ev := range evs {
		if ev.Kind == "recv" {
			if a := pureCall(ev.Recv, "Done"); len(a) == 1 && a[0] == ctx {
				return true
			}
		}
	}
	return false
}

// isNotify reports whether m is a method that takes a single fact.
func isNotify(m *types.Func) bool {
	if m == nil || m.Name() != "Notify" {
		return false
	}
	sig := m.Type().(*types.Signature)
	p := sig.Params()
	return p.Len() == 1 && sig.Results().Len() == 0 && typeKey(p.At(0).Type()) == modulePath+"/fact.Fact"
}

func (it *Interp) opaque(fr *Frame, st *State, ev *Event, res *types.Tuple, site string) []*CallOut {
	vals := make([]*Term, res.Len())
	for i := range vals {
		aux := site
		if i > 0 {
			aux += ":" + itoa(i)
		}
		vals[i] = mk("res", aux, res.At(i).Type())
		vals[i].Idx = i
	}
	ev.Res = vals
	if it.Cfg.OnCall != nil {
		if outs := it.Cfg.OnCall(it, fr, st, ev); outs != nil {
			return outs
		}
	}
	if !strings.Contains(ev.Name, "sync.") && !strings.Contains(ev.Name, "sync/atomic.") {
		st.leak(ev.Recv)
		st.leak(ev.Args...)
	}
	var outs []*CallOut
	if it.Cfg.MayPanic != nil && st.g == 0 && it.Cfg.MayPanic(ev) {
		p := st.clone()
		pe := *ev
		pe.Panics = true
		p.emit(&pe)
		it.havoc(p, &pe)
		outs = append(outs, &CallOut{St: p, PVal: mk("upanic", site, nil)})
	}
	st.emit(ev)
	it.havoc(st, ev)
	outs = append([]*CallOut{{St: st, Vals: vals}}, outs...)
	return outs
}

// callFunc calls a known function.
func (it *Interp) callFunc(fr *Frame, st *State, fn *ssa.Function, free, args []*Term, site string, pos token.Pos, isDefer bool) []*CallOut {
	if fn.Blocks == nil && fn.Origin() != nil && fn.Origin() != fn && fn.Origin().Blocks != nil {
		fn = fn.Origin()
	}
	sig := fn.Signature
	name := it.P.nameOf(fn)
	if isWrapper(fn) && len(fr.stack) <= 60 {
		return it.inline(fr, st, fn, free, args, site, isDefer)
	}
	if r := it.model(fr, st, name, fn, args, sig, site, pos, isDefer); r != nil {
		return r
	}
	if it.Cfg.Faults && name == typeOfName {
		if v, known := st.decide(mkEq(tNil, args[0], nil)); known && v {
			return []*CallOut{{St: st, PVal: mk("fault", "type of a nil message", nil)}}
		}
	}
	if it.Cfg.Texts {
		if r := it.textModel(st, name, args, sig); r != nil {
			return r
		}
	}
	pkg := pkgOf(fn)
	if pureModel(name, pkg) {
		return []*CallOut{{St: st, Vals: pureResults(name, args, sig)}}
	}
	if pkg != nil && pkg.Path() == modulePath+"/location" && !it.Cfg.Locations {
		return []*CallOut{{St: st, Vals: pureResults(name, args, sig)}}
	}
	obj, _ := fn.Object().(*types.Func)
	inl := it.inlineable(fn, pkg)
	entered := 0
	for _, f := range fr.stack {
		if f == fn {
			entered++
		}
	}
	rec := entered > it.Cfg.Recurse
	notify := isNotify(obj) && sig.Recv() != nil && fn.Synthetic == ""
	if notify && inl && !rec && len(args) > 0 {
		// an observer made by the analysed code itself is looked into
		if o := args[0]; root(o).Op == "obj" || o.Op == "func" || o.Op == "closure" {
			st.emit(&Event{Kind: "notify", Local: true, Name: name, Method: fn.Name(), Callee: fn, Recv: args[0], Args: args[1:], Site: site, Pos: pos, In: fr.fn, Depth: fr.depth, Defer: isDefer || fr.isDefer})
			notify = false
		}
	}
	if notify && inl && obj.Pkg().Path() == modulePath {
		notify = false // a predicate, or part of one
	}
	if !inl || rec || notify || len(fr.stack) > 60 || (it.Cfg.Opaque != nil && it.Cfg.Opaque(fn)) {
		ev := &Event{Kind: "call", Name: name, Method: fn.Name(), Callee: fn, Args: args, Site: site, Pos: pos, In: fr.fn, Depth: fr.depth, Defer: isDefer || fr.isDefer}
		if sig.Recv() != nil && len(args) > 0 {
			ev.Recv, ev.Args = args[0], args[1:]
		}
		if notify {
			ev.Kind = "notify"
		}
		return it.opaque(fr, st, ev, sig.Results(), site)
	}
	return it.inline(fr, st, fn, free, args, site, isDefer)
}

// isWrapper reports whether fn is a function made by the compiler that does
// nothing but call another: a bound method, a thunk or a promoted method.
func isWrapper(fn *ssa.Function) bool {
	return fn.Synthetic != "" && fn.Blocks != nil && fn.Parent() == nil && fn.Origin() == nil
}

// inline calls fn by analysing its body.
func (it *Interp) inline(fr *Frame, st *State, fn *ssa.Function, free, args []*Term, site string, isDefer bool) []*CallOut {
	ctx := strings.Replace(site, "#", "/", 1)
	outs := it.enter(fn, args, free, st, ctx, fr, isDefer && st.pan != nil, isDefer || fr.isDefer)
	r := make([]*CallOut, 0, len(outs))
	for _, o := range outs {
		c := &CallOut{St: o.St, Vals: o.Vals}
		if o.Kind == "panic" {
			c.PVal = o.PVal
		}
		r = append(r, c)
	}
	return r
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

// inlineable reports whether calls of fn are analysed through its body.
func (it *Interp) inlineable(fn *ssa.Function, pkg *types.Package) bool {
	if fn.Blocks == nil {
		return false
	}
	if isWrapper(fn) {
		return true
	}
	if pkg == nil {
		return false
	}
	if inModulePath(pkg.Path()) {
		return true
	}
	if it.Cfg.Texts && pkg.Path() == "github.com/dogmatiq/iago/must" {
		return true
	}
	if strings.HasSuffix(pkg.Path(), "enginekit/message") {
		n := fn.Name()
		if o := fn.Origin(); o != nil {
			n = o.Name()
		}
		for f := fn; f != nil; f = f.Parent() {
			n = f.Name()
			if o := f.Origin(); o != nil {
				n = o.Name()
			}
		}
		return kindSwitch(n)
	}
	if strings.HasSuffix(pkg.Path(), "dogmatiq/configkit") {
		return configIter(fn.String())
	}
	switch pkg.Path() {
	case "slices", "maps", "iter", "cmp":
		return true
	}
	return false
}

// ---------------------------------------------------------------------------
// Builtins.

func (it *Interp) builtin(fr *Frame, st *State, name string, args []*Term, c *ssa.CallCommon, site string, pos token.Pos, isDefer bool) []*CallOut {
	one := func(t *Term) []*CallOut { return []*CallOut{{St: st, Vals: []*Term{t}}} }
	none := []*CallOut{{St: st}}
	switch name {
	case "len":
		x := args[0]
		if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
			m := it.mapOf(st, x)
			if m.Op == "mapempty" || m.Op == "nil" {
				return one(mkInt(0))
			}
			return one(mk("len", "", types.Typ[types.Int], m))
		}
		n := mkLen(x)
		if n.Op == "len" && isStringType(c.Args[0].Type()) {
			n = mk("len", "string", n.Typ, n.Args...)
		}
		return one(n)
	case "cap":
		return one(mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		b := args[1]
		if isStringType(c.Args[1].Type()) {
			b = mk("conv", "[]byte", types.NewSlice(types.Typ[types.Byte]), b)
		}
		return one(mkAppend(args[0], b))
	case "copy":
		st.emit(&Event{Kind: "copy", Args: args, Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
		if d, x := args[0], args[1]; d.Op == "made" && d.Args[0] == mkLen(x) && types.Identical(under(d.Typ), under(x.Typ)) && !st.written(d) {
			st.replace(fr, d, cloneTerm(x))
			return one(mkLen(x))
		}
		if base, t := st.filled(args[0], args[1], site); t != nil {
			st.replace(fr, base, t)
			return one(mkLen(args[1]))
		}
		return one(mk("res", site, types.Typ[types.Int]))
	case "delete":
		m := args[0]
		st.emit(&Event{Kind: "mapdel", Recv: m, Args: args[1:], Pos: pos, In: fr.fn, Depth: fr.depth, Site: site, Defer: fr.isDefer || isDefer})
		st.setMapState(m, mk("mapdel", "", nil, it.mapOf(st, m), args[1]))
		return none
	case "clear":
		if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
			st.emit(&Event{Kind: "mapclear", Recv: args[0], Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
			st.setMapState(args[0], mk("mapempty", "", nil))
			return none
		}
		st.emit(&Event{Kind: "clear", Recv: args[0], Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
		return none
	case "close":
		st.emit(&Event{Kind: "close", Recv: args[0], Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
		st.heap[chanClosed(args[0])] = tTrue
		return none
	case "recover":
		if fr.recoverable && st.pan != nil {
			v := st.pan
			st.pan = nil
			st.emit(&Event{Kind: "recover", Val: v, Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
			return one(v)
		}
		return one(tNil)
	case "panic":
		// deferred or go'd panic
		return []*CallOut{{St: st, PVal: args[0]}}
	case "print", "println":
		return none
	case "min", "max":
		return one(mk("pure", name, c.Signature().Results().At(0).Type(), args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "ssa:deferstack":
		return one(mk("deferstack", site, nil))
	}
	it.fail(pos, "unsupported builtin %s", name)
	return nil
}
