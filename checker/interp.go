package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(n int) string { return strconv.Itoa(n) }

// Config adapts the interpreter to one analysis.
type Config struct {
	// Opaque keeps a function of the module as an event instead of analysing
	// its body at the call.
	Opaque func(fn *ssa.Function) bool
	// MayPanic reports whether an opaque call is also considered to panic.
	MayPanic func(ev *Event) bool
	// OnCall replaces the effect of an opaque call. It may return nil to get
	// the default behaviour.
	OnCall func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut
	// Locations analyses the functions that find source locations, which are
	// otherwise considered to merely return a location.
	Locations bool
	// NoUnroll disables the unrolling of constant-trip loops.
	NoUnroll bool
	// Loads selects the addresses whose loads are events.
	Loads func(addr *Term) bool
	// Derefs makes every dereference of a pointer to a struct an event.
	Derefs bool
	// Clips makes a slice with its capacity limited to its length a copy (as
	// it is when appended to).
	Clips bool
	// Salt distinguishes successive analyses of the same function.
	Salt string
	// Texts follows what is written to string builders and buffers.
	Texts bool
	// Faults makes calls through nil interfaces and functions panics, which
	// are otherwise not considered.
	Faults bool
	// Stack follows the call stack, for the functions that inspect it.
	Stack *stackShape
	// Recurse is how often a function may be entered again while it is
	// running; any further call is opaque.
	Recurse int
}

// Interp is the abstract interpreter.
type Interp struct {
	P   *Program
	Cfg Config

	Funcs     map[*ssa.Function]bool
	Sites     map[string]bool
	Undecided []string
	Paths     int
	steps     int
}

func NewInterp(p *Program, cfg Config) *Interp {
	return &Interp{P: p, Cfg: cfg, Funcs: map[*ssa.Function]bool{}, Sites: map[string]bool{}}
}

type giveUp struct{ why string }

func (it *Interp) fail(pos token.Pos, format string, args ...any) {
	panic(giveUp{it.P.Pos(pos) + ": " + fmt.Sprintf(format, args...)})
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	env    map[ssa.Value]*Term
	free   []*Term
	defers []*deferred
	stack  []*ssa.Function
	// recoverable is true for the frame of a deferred call made while
	// panicking, in which recover() is effective.
	recoverable bool
	isDefer     bool
	depth       int

	parent *Frame
	user   string // non-empty: user code, not a function of the module
	pan    *Term  // the panic during which a deferred call is made
	rounds int    // how often loops have been entered or repeated
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	site  string
	pos   token.Pos
	loop  *Loop       // non-nil: one per iteration of this loop
	calls []*deferred // the calls deferred by one iteration
}

func (fr *Frame) clone() *Frame {
	c := *fr
	c.env = cloneMap(fr.env)
	c.defers = append([]*deferred(nil), fr.defers...)
	return &c
}

// An Outcome is one way an activation (or part of it) ends.
type Outcome struct {
	Kind string // ret, panic, back, exit
	St   *State
	Vals []*Term
	PVal *Term
	fr   *Frame
	from *ssa.BasicBlock
	to   *ssa.BasicBlock

	peeled string
}

// CallOut is one way a call ends.
type CallOut struct {
	St   *State
	Vals []*Term
	PVal *Term // non-nil if the call panicked
}

var (
	instrIDs = map[ssa.Instruction]int{}
	instrOf  []ssa.Instruction
)

func instrID(i ssa.Instruction) string {
	n, ok := instrIDs[i]
	if !ok {
		n = len(instrOf)
		instrOf = append(instrOf, i)
		instrIDs[i] = n
	}
	return strconv.Itoa(n)
}

// Run analyses fn with the given arguments (nil entries become parameters).
func (it *Interp) Run(fn *ssa.Function, st *State, args []*Term) []*Outcome {
	if fn == nil || fn.Blocks == nil {
		panic(giveUp{"function without a body"})
	}
	full := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			full[i] = args[i]
		} else {
			full[i] = mk("param", p.Name(), p.Type())
		}
	}
	var free []*Term
	for _, v := range fn.FreeVars {
		free = append(free, mk("param", "free:"+v.Name(), v.Type()))
	}
	outs := it.enter(fn, full, free, st, "R"+it.Cfg.Salt+itoa(fnID(fn)), nil, false, false)
	it.Paths += len(outs)
	return outs
}

// RunValue interprets a function value.
func (it *Interp) RunValue(fn *Term, st *State, args []*Term) []*Outcome {
	if fn.Op != "func" && fn.Op != "closure" || fn.Fn.Blocks == nil {
		return nil
	}
	outs := it.enter(fn.Fn, args, fn.Args, st, "V"+it.Cfg.Salt+itoa(fnID(fn.Fn)), nil, false, false)
	it.Paths += len(outs)
	return outs
}

var fnIDs = map[*ssa.Function]int{}

func fnID(fn *ssa.Function) int {
	n, ok := fnIDs[fn]
	if !ok {
		n = len(fnIDs)
		fnIDs[fn] = n
	}
	return n
}

func (it *Interp) enter(fn *ssa.Function, args, free []*Term, st *State, ctx string, parent *Frame, recoverable, isDefer bool) []*Outcome {
	it.Funcs[fn] = true
	fr := &Frame{
		fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, free: free,
		recoverable: recoverable, isDefer: isDefer, parent: parent,
	}
	if parent != nil {
		fr.stack = append([]*ssa.Function(nil), parent.stack...)
		fr.depth = parent.depth + 1
	}
	fr.stack = append(fr.stack, fn)
	if recoverable {
		fr.pan = st.pan
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	return it.runFrom(fr, fn.Blocks[0], 0, st, nil)
}

func (it *Interp) value(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroTerm(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		t := mk("global", v.String(), v.Type())
		return t
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	it.fail(v.Pos(), "no value for %s in %s", v.Name(), fr.fn)
	return nil
}

// goTo continues at a block.
func (it *Interp) goTo(fr *Frame, from, to *ssa.BasicBlock, st *State, lp *natLoop) []*Outcome {
	if lp != nil {
		if to == lp.header {
			return []*Outcome{{Kind: "back", St: st, fr: fr, from: from, to: to}}
		}
		if !lp.blocks[to] {
			return []*Outcome{{Kind: "exit", St: st, fr: fr, from: from, to: to}}
		}
	}
	if l := it.P.loopAt(to); l != nil && lp == nil && it.walksStack(fr.fn) {
		if fr.rounds++; fr.rounds > 200 {
			it.fail(to.Instrs[0].Pos(), "the call stack is inspected without end in %s", fr.fn)
		}
	} else if l != nil {
		return it.runLoop(fr, l, from, st, lp)
	}
	it.phis(fr, to, from)
	return it.runFrom(fr, to, firstNonPhi(to), st, lp)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (it *Interp) phis(fr *Frame, b, from *ssa.BasicBlock) {
	k := predIndex(b, from)
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, it.value(fr, p.Edges[k]))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	panic(giveUp{"not a predecessor"})
}

func (it *Interp) site(fr *Frame, in ssa.Instruction) string {
	return fr.ctx + "#" + instrID(in)
}

func (it *Interp) runFrom(fr *Frame, b *ssa.BasicBlock, i int, st *State, lp *natLoop) []*Outcome {
	for ; i < len(b.Instrs); i++ {
		it.steps++
		if it.steps > 4000000 {
			it.fail(b.Instrs[i].Pos(), "analysis budget exceeded")
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return it.goTo(fr, b, b.Succs[0], st, lp)
		case *ssa.If:
			c := it.value(fr, in.Cond)
			yes, no := st.split(c)
			var outs []*Outcome
			for _, s := range yes {
				f := fr
				if len(yes)+len(no) > 1 {
					f = fr.clone()
				}
				outs = append(outs, it.goTo(f, b, b.Succs[0], s, lp)...)
			}
			for _, s := range no {
				f := fr
				if len(yes)+len(no) > 1 {
					f = fr.clone()
				}
				outs = append(outs, it.goTo(f, b, b.Succs[1], s, lp)...)
			}
			return outs
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for k, r := range in.Results {
				vals[k] = it.value(fr, r)
			}
			return []*Outcome{{Kind: "ret", St: st, Vals: vals}}
		case *ssa.Panic:
			v := it.value(fr, in.X)
			if isRuntimeCheck(v) {
				return nil
			}
			return it.unwind(fr, st, v)
		case *ssa.RunDefers:
			couts := it.runDefers(fr, st, nil)
			return it.after(fr, b, i, couts, lp, func(f *Frame, o *CallOut) {})
		case *ssa.Call:
			n := len(st.repl)
			couts := it.call(fr, st, in, in.Common(), it.site(fr, in), in.Pos(), false)
			return it.after(fr, b, i, couts, lp, func(f *Frame, o *CallOut) {
				if len(o.St.repl) > n {
					o.St.refresh(f, n)
				}
				f.env[in] = tupleOf(o.Vals, in.Type())
			})
		case *ssa.Go:
			couts := it.goStmt(fr, st, in)
			return it.after(fr, b, i, couts, lp, func(f *Frame, o *CallOut) {})
		case *ssa.Defer:
			if in.DeferStack != nil {
				it.fail(in.Pos(), "defer inside a range-over-func body")
			}
			fn, args := it.resolve(fr, in.Common())
			fr.defers = append(fr.defers, &deferred{call: in.Common(), fn: fn, args: args, site: it.site(fr, in), pos: in.Pos()})
		case *ssa.Select:
			return it.selectStmt(fr, b, i, st, in, lp)
		case *ssa.Next:
			outs := it.next(fr, st, in)
			var r []*Outcome
			for _, o := range outs {
				f := fr
				if len(outs) > 1 {
					f = fr.clone()
				}
				f.env[in] = o.Vals[0]
				r = append(r, it.runFrom(f, b, i+1, o.St, lp)...)
			}
			return r
		case *ssa.TypeAssert:
			if in.CommaOk {
				x := it.value(fr, in.X)
				c := mkIsT(x, in.AssertedType)
				yes, no := st.split(c)
				var r []*Outcome
				for _, s := range yes {
					f := fr.clone()
					f.env[in] = mk("tuple", "", nil, assertTerm(x, in.AssertedType), tTrue)
					r = append(r, it.runFrom(f, b, i+1, s, lp)...)
				}
				for _, s := range no {
					f := fr.clone()
					f.env[in] = mk("tuple", "", nil, zeroTerm(in.AssertedType), tFalse)
					r = append(r, it.runFrom(f, b, i+1, s, lp)...)
				}
				return r
			}
			x := it.value(fr, in.X)
			if !st.assume(mkIsT(x, in.AssertedType), true) {
				return nil // a run-time error of the language
			}
			fr.env[in] = assertTerm(x, in.AssertedType)
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				it.recv(fr, st, in)
				continue
			}
			it.simple(fr, st, in)
		default:
			it.simple(fr, st, b.Instrs[i])
		}
	}
	it.fail(fr.fn.Pos(), "block without terminator")
	return nil
}

// after resumes execution after a call, for each of its outcomes.
func (it *Interp) after(fr *Frame, b *ssa.BasicBlock, i int, couts []*CallOut, lp *natLoop, set func(*Frame, *CallOut)) []*Outcome {
	var outs []*Outcome
	for _, o := range couts {
		f := fr
		if len(couts) > 1 {
			f = fr.clone()
		}
		if o.PVal != nil {
			outs = append(outs, it.unwind(f, o.St, o.PVal)...)
			continue
		}
		set(f, o)
		outs = append(outs, it.runFrom(f, b, i+1, o.St, lp)...)
	}
	return outs
}

func tupleOf(vals []*Term, typ types.Type) *Term {
	if tt, ok := typ.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return mk("void", "", nil)
		}
		return mk("tuple", "", nil, vals...)
	}
	if len(vals) == 1 {
		return vals[0]
	}
	return mk("void", "", nil)
}

func assertTerm(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		if _, ok := under(t).(*types.Interface); ok {
			return x
		}
		return x.Args[0]
	}
	if _, ok := under(t).(*types.Interface); ok {
		return x
	}
	r := mk("as", typeKey(t), t, x)
	r.TAux = t
	return r
}

func isRuntimeCheck(v *Term) bool {
	if v.Op == "iface" {
		v = v.Args[0]
	}
	if s, ok := constStr(v); ok {
		return strings.HasPrefix(s, "iterator call did not preserve panic") ||
			strings.HasPrefix(s, "yield function called after range loop exit")
	}
	return false
}

// unwind runs the deferred calls of a frame because of a panic.
func (it *Interp) unwind(fr *Frame, st *State, v *Term) []*Outcome {
	var outs []*Outcome
	outer := st.pan // a panic because of which this frame was called
	for _, o := range it.runDefers(fr, st, v) {
		o.St.pan = outer
		if o.PVal != nil {
			outs = append(outs, &Outcome{Kind: "panic", St: o.St, PVal: o.PVal})
			continue
		}
		// recovered
		f := fr.clone()
		if fr.fn.Recover != nil {
			outs = append(outs, it.runFrom(f, fr.fn.Recover, 0, o.St, nil)...)
			continue
		}
		res := fr.fn.Signature.Results()
		vals := make([]*Term, res.Len())
		for i := range vals {
			vals[i] = zeroTerm(res.At(i).Type())
		}
		outs = append(outs, &Outcome{Kind: "ret", St: o.St, Vals: vals})
	}
	return outs
}

// runDefers performs the deferred calls of a frame, last first. A panic in a
// deferred call replaces the current one, and the remaining calls still run.
func (it *Interp) runDefers(fr *Frame, st *State, pv *Term) []*CallOut {
	ds := fr.defers
	fr.defers = nil
	outer := st.pan
	st.pan = pv
	work := []*CallOut{{St: st}}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*CallOut
		for _, w := range work {
			next = append(next, it.runDeferred(fr, w.St, d)...)
		}
		work = next
	}
	for _, w := range work {
		w.PVal, w.St.pan = w.St.pan, outer
	}
	return work
}

func (it *Interp) runDeferred(fr *Frame, st *State, d *deferred) []*CallOut {
	if d.loop != nil {
		return it.runLoopDeferred(fr, st, d)
	}
	var outs []*CallOut
	for _, o := range it.callResolved(fr, st, d.call, d.fn, d.args, d.site+"d", d.pos, true) {
		if o.PVal != nil {
			o.St.pan = o.PVal
		}
		outs = append(outs, &CallOut{St: o.St})
	}
	return outs
}

// runLoopDeferred performs the calls deferred by the iterations of a loop.
func (it *Interp) runLoopDeferred(fr *Frame, st *State, d *deferred) []*CallOut {
	l := &Loop{ID: d.loop.ID + "~defer", Fn: fr.fn, Pos: d.pos, Iter: d.loop.Iter, Rev: true}
	base := st.clone()
	base.evs = nil
	work := []*State{base}
	pan := false
	for i := len(d.calls) - 1; i >= 0; i-- {
		var next []*State
		for _, w := range work {
			for _, o := range it.runDeferred(fr, w, d.calls[i]) {
				if o.St.pan != base.pan {
					pan = true
					o.St.pan = base.pan
				}
				next = append(next, o.St)
			}
		}
		work = next
	}
	for _, w := range work {
		l.Iters = append(l.Iters, &Iter{Events: w.events(), Lits: litDelta(w.lits, st.lits)})
	}
	st.emit(&Event{Kind: "loop", Loop: l, Pos: d.pos, In: fr.fn, Defer: true})
	outs := []*CallOut{{St: st}}
	if pan {
		p := st.clone()
		p.pan = mk("upanic", d.site+"~", nil)
		outs = append(outs, &CallOut{St: p})
	}
	return outs
}

func litDelta(a, b map[*Term]bool) map[*Term]bool {
	r := map[*Term]bool{}
	for t, v := range a {
		if w, ok := b[t]; !ok || w != v {
			r[t] = v
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Simple instructions.

func (it *Interp) simple(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		o := mk("obj", it.site(fr, in), in.Type())
		st.alloc(o)
		o.Pos = in.Pos()
		fr.env[in] = o
	case *ssa.BinOp:
		fr.env[in] = it.binop(in.Op, it.value(fr, in.X), it.value(fr, in.Y), in.X.Type(), in.Type())
	case *ssa.UnOp:
		x := it.value(fr, in.X)
		switch in.Op {
		case token.MUL:
			if it.Cfg.Loads != nil && it.Cfg.Loads(x) {
				st.emit(&Event{Kind: "load", Addr: x, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in), Defer: fr.isDefer})
			}
			if it.Cfg.Derefs && x.Op != "obj" && x.Op != "faddr" && x.Op != "iaddr" && x.Op != "global" {
				st.emit(&Event{Kind: "deref", Recv: x, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in), Defer: fr.isDefer})
			}
			fr.env[in] = it.loadAddr(st, x, in.Type())
		case token.NOT:
			fr.env[in] = mkNot(x)
		case token.SUB:
			if isIntegerType(in.Type()) {
				fr.env[in] = linOf(x).scale(-1).term(in.Type())
				return
			}
			fr.env[in] = mk("un", in.Op.String(), in.Type(), x)
		default:
			fr.env[in] = mk("un", in.Op.String(), in.Type(), x)
		}
	case *ssa.Store:
		a, v := it.value(fr, in.Addr), it.value(fr, in.Val)
		if a.Op != "obj" {
			st.emit(&Event{Kind: "store", Addr: a, Val: v, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in), Defer: fr.isDefer})
		}
		if base, t := st.placed(a, v); t != nil {
			st.replace(fr, base, t)
			return
		}
		st.store(a, v, in.Val.Type())
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var x ssa.Value
		if c, ok := in.(*ssa.ChangeType); ok {
			x = c.X
		} else {
			x = in.(*ssa.ChangeInterface).X
		}
		fr.env[in.(ssa.Value)] = it.value(fr, x)
	case *ssa.Convert:
		x := it.value(fr, in.X)
		switch {
		case isIntegerType(in.X.Type()) && isIntegerType(in.Type()),
			types.Identical(under(in.X.Type()), under(in.Type())):
			fr.env[in] = x
		default:
			if x.Op == "const" && x.Const.Kind() == constant.String && isStringType(in.Type()) {
				fr.env[in] = x
				return
			}
			t := mk("conv", typeKey(in.Type()), in.Type(), x)
			t.TAux = in.Type()
			fr.env[in] = t
		}
	case *ssa.MultiConvert:
		t := mk("conv", typeKey(in.Type()), in.Type(), it.value(fr, in.X))
		t.TAux = in.Type()
		fr.env[in] = t
	case *ssa.MakeInterface:
		x := it.value(fr, in.X)
		t := mkIface(in.X.Type(), x)
		if t.Pos == 0 {
			t.Pos = in.Pos()
		}
		fr.env[in] = t
	case *ssa.MakeClosure:
		var binds []*Term
		for _, b := range in.Bindings {
			binds = append(binds, it.value(fr, b))
		}
		fr.env[in] = mkClosure(in.Fn.(*ssa.Function), binds)
	case *ssa.MakeMap:
		o := mk("obj", it.site(fr, in), in.Type())
		st.alloc(o)
		st.setMapState(o, mk("mapempty", "", nil))
		fr.env[in] = o
	case *ssa.MakeChan:
		o := mk("obj", it.site(fr, in), in.Type())
		st.alloc(o)
		fr.env[in] = o
	case *ssa.MakeSlice:
		n := it.value(fr, in.Len)
		if c, ok := constInt(n); ok && c == 0 {
			fr.env[in] = mk("seq", "", in.Type())
			return
		}
		fr.env[in] = mk("made", it.site(fr, in), in.Type(), n)
	case *ssa.Slice:
		fr.env[in] = it.sliceExpr(fr, st, in)
	case *ssa.FieldAddr:
		x := it.value(fr, in.X)
		owner := deref(in.X.Type())
		s := under(owner).(*types.Struct)
		if it.Cfg.Derefs && x.Op != "obj" && x.Op != "faddr" {
			st.emit(&Event{Kind: "deref", Recv: x, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in), Defer: fr.isDefer})
		}
		fr.env[in] = mkFaddr(x, in.Field, s, owner)
	case *ssa.Field:
		fr.env[in] = mkField(it.value(fr, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		fr.env[in] = mkIaddr(it.value(fr, in.X), it.value(fr, in.Index), in.Type())
	case *ssa.Index:
		x, i := it.value(fr, in.X), it.value(fr, in.Index)
		if x.Op == "seq" {
			if n := linOf(i); n.isConst() && n.c >= 0 && n.c < int64(len(x.Args)) {
				fr.env[in] = x.Args[n.c]
				return
			}
		}
		fr.env[in] = mk("index", "", in.Type(), x, i)
	case *ssa.Lookup:
		x, k := it.value(fr, in.X), it.value(fr, in.Index)
		if _, ok := under(in.X.Type()).(*types.Map); !ok {
			fr.env[in] = mk("index", "", in.Type(), x, k)
			return
		}
		m := it.mapOf(st, x)
		vt := under(in.X.Type()).(*types.Map).Elem()
		v := st.lookup(m, k, vt)
		if in.CommaOk {
			h := mkHas(m, k)
			if b, known := st.decide(h); known {
				h = mkBool(b)
			}
			fr.env[in] = mk("tuple", "", nil, v, h)
		} else {
			fr.env[in] = v
		}
	case *ssa.MapUpdate:
		m, k, v := it.value(fr, in.Map), it.value(fr, in.Key), it.value(fr, in.Value)
		st.emit(&Event{Kind: "mapset", Recv: m, Args: []*Term{k}, Val: v, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in), Defer: fr.isDefer})
		st.setMapState(m, mk("mapset", "", nil, it.mapOf(st, m), k, v))
	case *ssa.Range:
		x := it.value(fr, in.X)
		if _, ok := under(in.X.Type()).(*types.Map); ok {
			fr.env[in] = mk("rng", it.site(fr, in), nil, it.mapOf(st, x), x)
		} else {
			fr.env[in] = mk("rngs", it.site(fr, in), nil, x)
		}
	case *ssa.Extract:
		t := it.value(fr, in.Tuple)
		if t.Op == "tuple" {
			fr.env[in] = t.Args[in.Index]
		} else {
			fr.env[in] = mk("extract", itoa(in.Index), in.Type(), t)
		}
	case *ssa.Send:
		ch, v := it.value(fr, in.Chan), it.value(fr, in.X)
		it.send(fr, st, ch, v, in)
	default:
		it.fail(in.Pos(), "unsupported instruction %T in %s", in, fr.fn)
	}
}

func (it *Interp) loadAddr(st *State, a *Term, typ types.Type) *Term {
	if a.Op == "global" {
		if _, ok := st.heap[a]; !ok {
			if v := it.P.globalInit(a.Aux); v != nil {
				return v
			}
		}
	}
	return st.load(a, typ)
}

// mapOf returns the contents of a map, looking through package-level tables.
func (it *Interp) mapOf(st *State, ref *Term) *Term {
	m := st.mapState(ref)
	if m.Op == "mapinit" && ref.Op == "ld" && ref.Args[0].Op == "global" {
		if t := it.P.globalInit(ref.Args[0].Aux + "[]"); t != nil {
			return t
		}
	}
	return m
}

func (it *Interp) sliceExpr(fr *Frame, st *State, in *ssa.Slice) *Term {
	x := it.value(fr, in.X)
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return tNil
		}
		return it.value(fr, v)
	}
	lo, hi := bound(in.Low), bound(in.High)
	if p, ok := under(in.X.Type()).(*types.Pointer); ok {
		if arr, ok := under(p.Elem()).(*types.Array); ok {
			n := arr.Len()
			if it.Cfg.Stack != nil && x.Op == "obj" && arr.Elem() == types.Typ[types.Uintptr] {
				// filled in later
				if hi.Op == "nil" {
					hi = mkInt(n)
				}
				return mk("slice", "", in.Type(), x, lo, hi)
			}
			// slicing an array: take its elements
			if x.Op == "obj" && n <= 64 {
				elems := make([]*Term, n)
				written := false
				for k := range elems {
					a := mkIaddr(x, mkInt(int64(k)), types.NewPointer(arr.Elem()))
					if _, ok := st.heap[a]; ok {
						written = true
					}
					elems[k] = st.load(a, arr.Elem())
				}
				if !written && n > 0 && in.High != nil {
					// make([]T, n, cap) compiles to a slice of an array
					if c, ok := constInt(hi); ok && c == 0 {
						return mk("seq", "", in.Type())
					}
				}
				return mkSlice(mk("seq", "", in.Type(), elems...), lo, hi, in.Type())
			}
			if c, ok := constInt(hi); ok && c == 0 {
				return mk("seq", "", in.Type())
			}
			return mk("arr", it.site(fr, in), in.Type(), x, lo, hi)
		}
	}
	t := mkSlice(x, lo, hi, in.Type())
	if it.Cfg.Clips && in.Max != nil && in.High != nil && it.value(fr, in.Max) == hi {
		return cloneTerm(t)
	}
	return t
}

func (it *Interp) binop(op token.Token, x, y *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return mkEq(x, y, xt)
	case token.NEQ:
		return mkNot(mkEq(x, y, xt))
	}
	if x.Op == "const" && y.Op == "const" && op != token.SHL && op != token.SHR {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.Const.Kind() == y.Const.Kind() {
				return mkBool(constant.Compare(x.Const, op, y.Const))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.Const.Kind() == y.Const.Kind() && (x.Const.Kind() == constant.Int || op == token.ADD || op == token.SUB || op == token.MUL) {
				return mkConst(constant.BinaryOp(x.Const, op, y.Const), rt)
			}
		}
	}
	if isIntegerType(xt) {
		a, b := linOf(x), linOf(y)
		switch op {
		case token.ADD:
			return a.plus(b, 1).term(rt)
		case token.SUB:
			return a.plus(b, -1).term(rt)
		case token.MUL:
			if a.isConst() {
				return b.scale(a.c).term(rt)
			}
			if b.isConst() {
				return a.scale(b.c).term(rt)
			}
		case token.LSS:
			return cmpTerms(x, y, b.plus(a, -1))
		case token.GTR:
			return cmpTerms(y, x, a.plus(b, -1))
		case token.LEQ:
			return mkNot(cmpTerms(y, x, a.plus(b, -1)))
		case token.GEQ:
			return mkNot(cmpTerms(x, y, b.plus(a, -1)))
		}
	}
	if isStringType(xt) && op == token.ADD {
		if s, ok := constStr(x); ok && s == "" {
			return y
		}
		if s, ok := constStr(y); ok && s == "" {
			return x
		}
		return mk("cat", "", rt, x, y)
	}
	switch op {
	case token.LSS:
		return mk("lt", "", rt, x, y)
	case token.GTR:
		return mk("lt", "", rt, y, x)
	case token.LEQ:
		return mkNot(mk("lt", "", rt, y, x))
	case token.GEQ:
		return mkNot(mk("lt", "", rt, x, y))
	}
	return mk("bin", op.String(), rt, x, y)
}

// cmpTerms is x < y where d = y - x. A comparison of a three-way comparison's
// result with zero becomes the comparison it stands for.
func cmpTerms(x, y *Term, d lin) *Term {
	if n, ok := constInt(y); ok && n == 0 && x.Op == "cmp" { // cmp(a,b) < 0
		return ltTerm(x.Args[0], x.Args[1])
	}
	if n, ok := constInt(x); ok && n == 0 && y.Op == "cmp" { // 0 < cmp(a,b)
		return ltTerm(y.Args[1], y.Args[0])
	}
	return mkGt0(d)
}

func ltTerm(a, b *Term) *Term {
	if isTimeType(a.Typ) || isTimeType(b.Typ) || isIntegerType(a.Typ) || isIntegerType(b.Typ) {
		return mkGt0(linOf(b).plus(linOf(a), -1))
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

func (it *Interp) next(fr *Frame, st *State, in *ssa.Next) []*CallOut {
	r := it.value(fr, in.Iter)
	site := it.site(fr, in)
	if r.Op == "rng" && (r.Args[0].Op == "mapempty" || r.Args[0].Op == "nil") {
		return []*CallOut{{St: st, Vals: []*Term{mk("tuple", "", nil, tFalse, tNil, tNil)}}}
	}
	tt := in.Type().(*types.Tuple)
	var k, v *Term
	if in.IsString {
		k = mk("rk", site, tt.At(1).Type(), r.Args[0])
		v = mk("rv", site, tt.At(2).Type(), r.Args[0])
	} else {
		mt := under(r.Args[1].Typ)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		if m, ok := mt.(*types.Map); ok {
			kt, vt = m.Key(), m.Elem()
		}
		k = mk("rk", site, kt, r.Args[0])
		v = mk("lookup", "", vt, r.Args[0], k)
	}
	more := mk("more", site, types.Typ[types.Bool], r.Args[0])
	a, b := st.clone(), st
	a.assume(more, true)
	if !in.IsString {
		a.assume(mkHas(r.Args[0], k), true)
	}
	b.assume(more, false)
	return []*CallOut{
		{St: a, Vals: []*Term{mk("tuple", "", nil, tTrue, k, v)}},
		{St: b, Vals: []*Term{mk("tuple", "", nil, tFalse, tNil, tNil)}},
	}
}

// ---------------------------------------------------------------------------
// Channels and goroutines. A goroutine is interpreted where it is started,
// with its events marked; only data flow through channels is tracked.

func chanCell(ch *Term) *Term { return mk("chancell", "", nil, ch) }

func (it *Interp) send(fr *Frame, st *State, ch, v *Term, in ssa.Instruction) {
	st.emit(&Event{Kind: "send", Recv: ch, Val: v, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in)})
	q, ok := st.heap[chanCell(ch)]
	if !ok {
		q = mk("seq", "", nil)
	}
	st.heap[chanCell(ch)] = mkAppend(q, mk("seq", "", nil, v))
	if !st.local(chanCell(ch)) {
		st.leak(v)
	}
}

func (it *Interp) recvValue(st *State, ch *Term, typ types.Type, site string) *Term {
	if q, ok := st.heap[chanCell(ch)]; ok && q.Op == "seq" && len(q.Args) > 0 {
		st.heap[chanCell(ch)] = mk("seq", "", nil, q.Args[1:]...)
		return q.Args[0]
	}
	if st.heap[chanClosed(ch)] == tTrue {
		return zeroTerm(typ)
	}
	return mk("res", site+":recv", typ)
}

func chanClosed(ch *Term) *Term { return mk("chanclosed", "", nil, ch) }

func (it *Interp) recv(fr *Frame, st *State, in *ssa.UnOp) {
	ch := it.value(fr, in.X)
	et := under(in.X.Type()).(*types.Chan).Elem()
	v := it.recvValue(st, ch, et, it.site(fr, in))
	st.emit(&Event{Kind: "recv", Recv: ch, Val: v, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in)})
	if in.CommaOk {
		fr.env[in] = mk("tuple", "", nil, v, mk("res", it.site(fr, in)+":ok", types.Typ[types.Bool]))
	} else {
		fr.env[in] = v
	}
}

func (it *Interp) selectStmt(fr *Frame, b *ssa.BasicBlock, i int, st *State, in *ssa.Select, lp *natLoop) []*Outcome {
	var outs []*Outcome
	n := len(in.States)
	if !in.Blocking {
		n++
	}
	for k := 0; k < n; k++ {
		f, s := fr.clone(), st.clone()
		idx := k
		if k == len(in.States) {
			idx = -1
		}
		vals := []*Term{mkInt(int64(idx)), mk("res", it.site(fr, in)+":ok", types.Typ[types.Bool])}
		for j, sc := range in.States {
			ch := it.value(fr, sc.Chan)
			if sc.Dir == types.SendOnly {
				if j == k {
					it.send(f, s, ch, it.value(fr, sc.Send), in)
				}
				continue
			}
			et := under(sc.Chan.Type()).(*types.Chan).Elem()
			if j == k {
				v := it.recvValue(s, ch, et, it.site(fr, in)+":"+itoa(j))
				s.emit(&Event{Kind: "recv", Recv: ch, Val: v, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in)})
				vals = append(vals, v)
			} else {
				vals = append(vals, zeroTerm(et))
			}
		}
		if k == len(in.States) {
			for _, sc := range in.States {
				if sc.Dir != types.SendOnly {
					s.emit(&Event{Kind: "polled", Recv: it.value(fr, sc.Chan), Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in)})
				}
			}
		}
		f.env[in] = mk("tuple", "", nil, vals...)
		outs = append(outs, it.runFrom(f, b, i+1, s, lp)...)
	}
	return outs
}

func (it *Interp) goStmt(fr *Frame, st *State, in *ssa.Go) []*CallOut {
	fn, args := it.resolve(fr, in.Common())
	st.emit(&Event{Kind: "go", Recv: fn, Args: args, Pos: in.Pos(), In: fr.fn, Depth: fr.depth, Site: it.site(fr, in)})
	g := st.g
	id, _ := strconv.Atoi(instrID(in))
	st.g = id + 1
	var outs []*CallOut
	for _, o := range it.callResolved(fr, st, in.Common(), fn, args, it.site(fr, in), in.Pos(), false) {
		if o.PVal != nil {
			continue // crashes the program
		}
		o.St.g = g
		outs = append(outs, &CallOut{St: o.St})
	}
	return outs
}

// ---------------------------------------------------------------------------
// Loops.

type natLoop struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// loopAt returns the natural loop with the given header, if there is one.
func (p *Program) loopAt(b *ssa.BasicBlock) *natLoop {
	fn := b.Parent()
	ls, ok := p.loops[fn]
	if !ok {
		ls = map[*ssa.BasicBlock]*natLoop{}
		for _, x := range fn.Blocks {
			for _, h := range x.Succs {
				if !h.Dominates(x) {
					continue
				}
				l := ls[h]
				if l == nil {
					l = &natLoop{fn: fn, header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					ls[h] = l
				}
				work := []*ssa.BasicBlock{x}
				for len(work) > 0 {
					y := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[y] {
						continue
					}
					l.blocks[y] = true
					work = append(work, y.Preds...)
				}
			}
		}
		p.loops[fn] = ls
	}
	return ls[b]
}

// inLoop reports whether a site (relative to a frame) is within a loop.
func inLoop(site string, fr *Frame, l *natLoop) bool {
	if !strings.HasPrefix(site, fr.ctx) {
		return false
	}
	rest := site[len(fr.ctx):]
	if rest == "" || (rest[0] != '#' && rest[0] != '/') {
		return false
	}
	rest = rest[1:]
	if strings.HasPrefix(rest, "L") {
		n := 0
		for _, c := range rest[1:] {
			if c < '0' || c > '9' {
				break
			}
			n = n*10 + int(c-'0')
		}
		return n < len(fr.fn.Blocks) && l.blocks[fr.fn.Blocks[n]]
	}
	n, digits := 0, 0
	for _, c := range rest {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
		digits++
	}
	if digits == 0 || n >= len(instrOf) {
		return false
	}
	in := instrOf[n]
	return in.Block() != nil && l.blocks[in.Block()]
}

func perIteration(t *Term, fr *Frame, l *natLoop) bool {
	return t.contains(func(x *Term) bool {
		switch x.Op {
		case "res", "obj", "upanic", "mu", "iter", "rk", "rv", "hav", "made", "rng", "arr", "newerr":
			return inLoop(x.Aux, fr, l)
		}
		return false
	})
}

type loopVar struct {
	phi  *ssa.Phi
	cell *Term
	typ  types.Type
	mu   *Term
	init *Term
	step *int64 // affine
	inv  bool
}

func (it *Interp) runLoop(fr *Frame, l *natLoop, pred *ssa.BasicBlock, st *State, outer *natLoop) []*Outcome {
	id := fr.ctx + "#L" + itoa(l.header.Index)
	iter := mk("iter", id, types.Typ[types.Int])
	k := predIndex(l.header, pred)
	var vars []*loopVar
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vars = append(vars, &loopVar{
			phi: p, typ: p.Type(),
			mu:   mk("mu", id+":"+p.Name()+"/"+p.Comment, p.Type()),
			init: it.value(fr, p.Edges[k]),
		})
	}
	cells := map[*Term]*loopVar{}
	epoch := cloneMap(st.epoch)
	pre := st.evs
	sum := &Loop{ID: id, Fn: fr.fn, Pos: loopPos(l), Init: map[*Term]*Term{}, Iter: iter}
	var loopDef *deferred // the calls deferred by earlier iterations
	var outs []*Outcome
	var iters []*Iter
	for round := 0; ; round++ {
		if round > 30 {
			it.fail(l.header.Instrs[0].Pos(), "loop analysis does not converge in %s", fr.fn)
		}
		f, s := fr.clone(), st.clone()
		s.evs = nil
		if loopDef != nil {
			f.defers = append(f.defers, loopDef)
		}
		base := len(f.defers)
		for _, v := range vars {
			val := v.mu
			switch {
			case v.inv:
				val = v.init
			case v.step != nil:
				val = linOf(v.init).plus(linOf(iter), *v.step).term(v.typ)
			}
			if v.phi != nil {
				f.env[v.phi] = val
			} else {
				s.heap[v.cell] = val
			}
		}
		start := s.clone()
		outs = it.runFrom(f, l.header, firstNonPhi(l.header), s, l)

		// find further varying cells
		grew := false
		iters = nil
		for _, o := range outs {
			if o.Kind != "back" {
				continue
			}
			for c, v := range o.St.heap {
				if cells[c] != nil || start.heap[c] == v {
					continue
				}
				if r := root(c); r.Op == "obj" && !start.objs[r] {
					continue
				}
				if perIteration(c, fr, l) {
					continue
				}
				iv, ok := st.heap[c]
				if !ok {
					iv = it.cellInit(st, c, v)
				}
				if iv == v {
					continue
				}
				nv := &loopVar{cell: c, mu: mk("mu", id+":c"+itoa(c.ID), v.Typ), init: iv, typ: v.Typ}
				cells[c] = nv
				vars = append(vars, nv)
				grew = true
			}
			for c := range start.heap {
				if _, ok := o.St.heap[c]; !ok && cells[c] == nil && !perIteration(c, fr, l) {
					// dropped by an unknown effect
					nv := &loopVar{cell: c, mu: mk("mu", id+":c"+itoa(c.ID), start.heap[c].Typ), init: start.heap[c], typ: start.heap[c].Typ}
					cells[c] = nv
					vars = append(vars, nv)
					grew = true
				}
			}
			for e, v := range o.St.epoch {
				if start.epoch[e] != v && start.epoch[e] != id {
					st.epoch[e] = id
					grew = true
				}
			}
		}
		if grew {
			continue
		}
		// classify
		next := func(o *Outcome, v *loopVar) *Term {
			if v.phi != nil {
				return it.value(o.fr, v.phi.Edges[predIndex(l.header, o.from)])
			}
			if x, ok := o.St.heap[v.cell]; ok {
				return x
			}
			return mk("hav", id+":"+itoa(v.cell.ID), v.typ)
		}
		changed := false
		for _, v := range vars {
			if v.step != nil || v.inv {
				// check that the classification still holds
				cur := v.init
				if v.step != nil {
					cur = linOf(v.init).plus(linOf(iter), *v.step).plus(lin{c: *v.step}, 1).term(v.typ)
				}
				for _, o := range outs {
					if o.Kind == "back" && next(o, v) != cur {
						it.fail(l.header.Instrs[0].Pos(), "unstable loop variable in %s", fr.fn)
					}
				}
				continue
			}
			inv, aff, n := true, isIntegerType(v.typ) || isIntegerType(v.mu.Typ), 0
			var step int64
			for _, o := range outs {
				if o.Kind != "back" {
					continue
				}
				x := next(o, v)
				inv = inv && x == v.mu
				d := linOf(x).plus(linOf(v.mu), -1)
				if !d.isConst() || (n > 0 && d.c != step) {
					aff = false
				}
				step = d.c
				n++
			}
			if n == 0 {
				continue
			}
			if inv {
				v.inv, changed = true, true
			} else if aff && step != 0 {
				v.step, changed = &step, true
			}
		}
		for _, o := range outs {
			if o.Kind != "back" || len(o.fr.defers) == base {
				continue
			}
			ds := o.fr.defers[base:]
			if loopDef == nil {
				loopDef = &deferred{loop: sum, site: id, pos: sum.Pos}
				changed = true
			} else if len(loopDef.calls) > 0 && len(loopDef.calls) != len(ds) {
				it.fail(sum.Pos, "iterations of a loop defer different calls")
			}
			loopDef.calls = append([]*deferred(nil), ds...)
		}
		if changed {
			continue
		}
		for _, o := range outs {
			if o.Kind != "back" {
				continue
			}
			x := &Iter{Events: o.St.events(), Lits: litDelta(o.St.lits, st.lits), Next: map[*Term]*Term{}}
			for _, v := range vars {
				if v.step == nil && !v.inv {
					x.Next[v.mu] = next(o, v)
				}
			}
			iters = append(iters, x)
		}
		break
	}

	if len(iters) == 0 && len(vars) > 0 && loopDef == nil {
		// it turns out that no iteration is ever completed
		st.epoch = epoch
		return it.unroll(fr, l, pred, st, outer, 0)
	}
	if !it.Cfg.NoUnroll && constTrip(iters, iter) {
		return it.unroll(fr, l, pred, st, outer, 0)
	}

	outs, iters = it.peelLast(fr, l, pred, st, vars, outs, iters)
	sum.Iters = iters
	for _, v := range vars {
		if v.step == nil && !v.inv {
			sum.Init[v.mu] = v.init
		}
	}
	fills := it.findFills(fr, l, sum, outs)
	var res, ends []*Outcome
	for _, o := range outs {
		if o.Kind == "back" {
			continue
		}
		for _, f := range fills {
			f.apply(o, iter)
		}
		copies(sum, o)
		for _, v := range vars {
			if emptied(v, iters, o) {
				o.St.heap[v.cell] = mk("mapempty", "", nil)
			}
		}
		ends = append(ends, mapCopies(sum, []*Outcome{o})...)
	}
	for _, o := range ends {
		// re-attach what happened before the loop
		sub := o.St.events()
		o.St.evs = pre
		g := o.St.g
		if len(iters) > 0 && o.peeled != "none" {
			o.St.g = st.g
			u := o.St.pan
			o.St.pan = nil
			o.St.emit(&Event{Kind: "loop", Loop: sum, Pos: sum.Pos, In: fr.fn, Depth: fr.depth, Site: id, Unwind: st.pan != nil})
			o.St.pan = u
		}
		for _, e := range sub {
			n := 1
			if o.St.evs != nil {
				n = o.St.evs.n + 1
			}
			o.St.evs = &evNode{o.St.evs, e, n}
		}
		o.St.g = g
		if o.Kind == "exit" {
			res = append(res, it.goTo(o.fr, o.from, o.to, o.St, outer)...)
		} else {
			res = append(res, o)
		}
	}
	return res
}

// emptied reports whether a loop has deleted every entry of a map when it ends
// at o.
func emptied(v *loopVar, iters []*Iter, o *Outcome) bool {
	if v.cell == nil || v.step != nil || v.inv || o.Kind != "exit" || o.St.heap[v.cell] != v.mu || len(iters) == 0 {
		return false
	}
	for _, x := range iters {
		d := x.Next[v.mu]
		if d == nil || d.Op != "mapdel" || d.Args[0] != v.mu || d.Args[1].Op != "rk" || d.Args[1].Args[0] != v.init {
			return false
		}
	}
	return mapExhausted(o.St.lits, v.init)
}

// peelLast treats loops that end because of a flag or an error that their last
// iteration set: the way out of such a loop is replaced by the ways out after
// no iteration, and after a last iteration.
func (it *Interp) peelLast(fr *Frame, l *natLoop, pred *ssa.BasicBlock, st *State, vars []*loopVar, outs []*Outcome, iters []*Iter) ([]*Outcome, []*Iter) {
	flags := map[*Term]bool{}
	for _, v := range vars {
		if v.step == nil && !v.inv && v.mu.Typ != nil && (isBoolTerm(v.mu) || isErrorType(v.mu.Typ)) {
			flags[v.mu] = true
		}
	}
	if len(flags) == 0 {
		return outs, iters
	}
	header := func(o *Outcome) bool { return o.Kind == "exit" && o.from == l.header }
	var peel bool
	for _, o := range outs {
		if !header(o) {
			continue
		}
		for a := range litDelta(o.St.lits, st.lits) {
			if flags[a] || a.Op == "eq" && (flags[a.Args[0]] || flags[a.Args[1]]) {
				peel = true
			}
		}
	}
	if !peel {
		return outs, iters
	}
	// just the decision whether to go on
	test := &natLoop{fn: l.fn, header: l.header, blocks: map[*ssa.BasicBlock]bool{l.header: true}}
	var res []*Outcome
	for _, o := range outs {
		if !header(o) {
			res = append(res, o)
		}
	}
	// no iteration
	f, s := fr.clone(), st.clone()
	s.evs = nil
	it.phis(f, l.header, pred)
	for _, o := range it.runFrom(f, l.header, firstNonPhi(l.header), s, test) {
		if header(o) && !l.blocks[o.to] {
			o.peeled = "none"
			res = append(res, o)
		}
	}
	// a last iteration
	var more []*Iter
	n := 0
	for _, b := range outs {
		if b.Kind != "back" {
			continue
		}
		x := iters[n]
		n++
		f, s := b.fr.clone(), b.St.clone()
		it.phis(f, l.header, b.from)
		for _, o := range it.runFrom(f, l.header, firstNonPhi(l.header), s, test) {
			if !header(o) {
				continue
			}
			if !l.blocks[o.to] {
				o.peeled = "last"
				res = append(res, o)
				continue
			}
			more = append(more, &Iter{Events: o.St.events(), Lits: litDelta(o.St.lits, st.lits), Next: x.Next})
			res = append(res, &Outcome{Kind: "back", St: o.St})
		}
	}
	for i := range res {
		if res[i].Kind == "back" && res[i].fr != nil {
			res[i] = nil
		}
	}
	return slices.DeleteFunc(res, func(o *Outcome) bool { return o == nil }), more
}

func isErrorType(t types.Type) bool { return typeKey(t) == "error" }

// A fill is a slice, made before a loop, that the loop's iterations assign the
// elements of.
type fill struct {
	slice *Term
	mu    *Term // the elements assigned so far; nil if they are not known
	id    string
}

// findFills finds the slices that a loop fills: those for which iteration i
// assigns element i, whichever way the iteration goes.
func (it *Interp) findFills(fr *Frame, l *natLoop, sum *Loop, outs []*Outcome) []*fill {
	var fs []*fill
	by := map[*Term]*fill{}
	eachCell := func(o *Outcome, f func(base, c, v *Term)) {
		for c, v := range o.St.heap {
			a := c
			for a.Op == "faddr" {
				a = a.Args[0]
			}
			if a.Op == "iaddr" && a.Args[0].Op == "made" && perIteration(a.Args[1], fr, l) && !perIteration(a.Args[0], fr, l) {
				f(a.Args[0], c, v)
			}
		}
	}
	for _, o := range outs {
		if o.Kind == "back" {
			eachCell(o, func(base, c, v *Term) {
				if by[base] == nil {
					by[base] = &fill{slice: base, id: sum.ID + ":fill" + itoa(base.ID)}
					fs = append(fs, by[base])
				}
			})
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].slice.ID < fs[j].slice.ID })
	for _, f := range fs {
		next := map[*Iter]*Term{}
		ok, n := true, 0
		for _, o := range outs {
			if o.Kind != "back" {
				continue
			}
			var val *Term
			eachCell(o, func(base, c, v *Term) {
				if base != f.slice {
					return
				}
				if c.Op != "iaddr" || c.Args[1] != sum.Iter || val != nil {
					ok = false
				}
				val = v
			})
			if val == nil {
				ok = false
			} else {
				next[sum.Iters[n]] = val
			}
			n++
		}
		if !ok {
			continue
		}
		f.mu = mk("mu", f.id, f.slice.Typ)
		sum.Init[f.mu] = mk("seq", "", f.slice.Typ)
		for x, v := range next {
			x.Next[f.mu] = mkAppend(f.mu, mk("seq", "", f.slice.Typ, v))
		}
	}
	return fs
}

// copies replaces, on a path that leaves a loop after its last iteration, the
// slices to which each iteration appended one element of another slice.
func copies(sum *Loop, o *Outcome) {
	for mu, init := range sum.Init {
		var src *Term
		for _, x := range sum.Iters {
			e := x.Next[mu]
			if e == nil || e.Op != "append" || e.Args[0] != mu || e.Args[1].Op != "seq" || len(e.Args[1].Args) != 1 {
				src = nil
				break
			}
			e = e.Args[1].Args[0]
			if e.Op != "index" || e.Args[1] != sum.Iter || src != nil && src != e.Args[0] || sum.Init[e.Args[0]] != nil {
				src = nil
				break
			}
			src = e.Args[0]
		}
		if src == nil {
			continue
		}
		if more, known := o.St.decide(mkGt0(linOf(mkLen(src)).plus(linOf(sum.Iter), -1))); !known || more {
			continue
		}
		replace(o, mu, mkAppend(init, src))
	}
}

// mapCopies replaces, on the paths that leave a loop after its last iteration,
// the maps in which each iteration appended one element of a slice to the same
// entry. Without any elements such a map is not changed.
func mapCopies(sum *Loop, outs []*Outcome) []*Outcome {
	for mu, init := range sum.Init {
		var src, key *Term
		var typ types.Type
		for _, x := range sum.Iters {
			e := x.Next[mu]
			src = nil
			if e == nil || e.Op != "mapset" || e.Args[0] != mu || key != nil && e.Args[1] != key || varies(sum, e.Args[1]) {
				break
			}
			key = e.Args[1]
			v := e.Args[2]
			if v.Op != "append" || v.Args[0].Op != "lookup" || v.Args[0].Args[0] != mu || v.Args[0].Args[1] != key || v.Args[1].Op != "seq" || len(v.Args[1].Args) != 1 {
				break
			}
			typ = v.Args[0].Typ
			v = v.Args[1].Args[0]
			if v.Op != "index" || v.Args[1] != sum.Iter || varies(sum, v.Args[0]) || len(sum.Iters) > 1 {
				break
			}
			src = v.Args[0]
		}
		if src == nil {
			continue
		}
		var res []*Outcome
		for _, o := range outs {
			if more, known := o.St.decide(mkGt0(linOf(mkLen(src)).plus(linOf(sum.Iter), -1))); !known || more {
				res = append(res, o)
				continue
			}
			yes, no := o.St.split(mkGt0(linOf(mkLen(src))))
			for i, ss := range [][]*State{yes, no} {
				for _, s := range ss {
					n := *o
					n.St = s.clone()
					if o.fr != nil {
						n.fr = o.fr.clone()
					}
					n.Vals = slices.Clone(o.Vals)
					v := init
					if i == 0 {
						v = mk("mapset", "", nil, init, key, mkAppend(s.lookup(init, key, typ), src))
					}
					replace(&n, mu, v)
					res = append(res, &n)
				}
			}
		}
		outs = res
	}
	return outs
}

// varies reports whether a value may differ between the iterations of a loop.
func varies(sum *Loop, t *Term) bool {
	return t.contains(func(x *Term) bool { return x == sum.Iter || sum.Init[x] != nil })
}

func replace(o *Outcome, old, v *Term) {
	for c, x := range o.St.heap {
		if x.contains(func(y *Term) bool { return y == old }) {
			o.St.heap[c] = subst(x, old, v)
		}
	}
	for k, x := range o.fr.env {
		if x != nil && x.contains(func(y *Term) bool { return y == old }) {
			o.fr.env[k] = subst(x, old, v)
		}
	}
	for i, x := range o.Vals {
		o.Vals[i] = subst(x, old, v)
	}
}

// apply replaces the slice, on a path that leaves the loop.
func (f *fill) apply(o *Outcome, iter *Term) {
	v := mk("hav", f.id, f.slice.Typ)
	if f.mu != nil {
		more := mkGt0(linOf(f.slice.Args[0]).plus(linOf(iter), -1))
		if m, known := o.St.decide(more); known && !m {
			v = f.mu
		}
	}
	for c := range o.St.heap {
		if c.contains(func(y *Term) bool { return y == f.slice }) {
			delete(o.St.heap, c)
		}
	}
	replace(o, f.slice, v)
}

func loopPos(l *natLoop) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.header}, sortedBlocks(l)...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.fn.Pos()
}

func sortedBlocks(l *natLoop) []*ssa.BasicBlock {
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	return bs
}

func (it *Interp) cellInit(st *State, c, v *Term) *Term {
	if c.Op == "mapcell" {
		return st.mapState(c.Args[0])
	}
	if c.Op == "chancell" {
		return mk("seq", "", nil)
	}
	if c.Op == "textcell" {
		return textOf(st, c.Args[0])
	}
	if c.Op == "chanclosed" {
		return tFalse
	}
	typ := v.Typ
	if p, ok := under(c.Typ).(*types.Pointer); ok {
		typ = p.Elem()
	}
	if typ == nil {
		return mkLoad(c, nil)
	}
	return st.load(c, typ)
}

// constTrip reports whether the loop runs a number of times that is a
// constant.
func constTrip(iters []*Iter, iter *Term) bool {
	for _, x := range iters {
		for a := range x.Lits {
			if a.Op != "gt0" && a.Op != "eq0" {
				continue
			}
			l := linOf(a.Args[0])
			if len(l.m) == 1 && l.m[iter] != 0 && l.c >= -16 && l.c <= 16 {
				return true
			}
		}
	}
	return false
}

func (it *Interp) unroll(fr *Frame, l *natLoop, pred *ssa.BasicBlock, st *State, outer *natLoop, n int) []*Outcome {
	if n > 20 {
		it.fail(loopPos(l), "constant loop too long in %s", fr.fn)
	}
	f := fr.clone()
	it.phis(f, l.header, pred)
	save := f.ctx
	f.ctx = fr.ctx + "/" + instrID(l.header.Instrs[0]) + "u" + itoa(n)
	outs := it.runFrom(f, l.header, firstNonPhi(l.header), st, l)
	var res []*Outcome
	for _, o := range outs {
		switch o.Kind {
		case "back":
			o.fr.ctx = save
			res = append(res, it.unroll(o.fr, l, o.from, o.St, outer, n+1)...)
		case "exit":
			o.fr.ctx = save
			res = append(res, it.goTo(o.fr, o.from, o.to, o.St, outer)...)
		default:
			res = append(res, o)
		}
	}
	return res
}
