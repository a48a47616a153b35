package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A stackShape is what the call stack looks like where the analysed program
// does not determine it.
type stackShape struct {
	// Outer is the number of frames beyond the user's.
	Outer int
	// Runtime is the number of frames of the runtime between the start of a
	// panic and the function that panics.
	Runtime int
}

// The frames of a stack are represented by keys.
const (
	modFrame     = "module:"
	rtFrame      = "runtime:"
	userFrame    = "user:"
	panickFrame  = "panicker:"
	outerFrame   = "outer:"
	entryUser    = userFrame + "entry"
	frameFnOp    = "framefn"
	frameFileOp  = "framefile"
	frameLineOp  = "frameline"
	frameNearOp  = "framenear"
	framesCellOp = "framescell"
)

// walksStack tells whether the loops of fn are followed frame by frame.
func (it *Interp) walksStack(fn *ssa.Function) bool {
	if it.Cfg.Stack == nil {
		return false
	}
	if p := pkgOf(fn); p != nil && p.Path() == modulePath+"/location" {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					if p := pkgOf(f); p != nil && p.Path() == "runtime" {
						return true
					}
				}
			}
		}
	}
	return false
}

// frames are the frames of the stack, beginning with that of fr.
func (it *Interp) frames(fr *Frame) []string {
	sh := it.Cfg.Stack
	var l []string
	for f := fr; f != nil; f = f.parent {
		if f.user != "" {
			l = append(l, userFrame+f.user)
			continue
		}
		if f.fn.Synthetic == "" || f.fn.Parent() != nil || f.fn.Origin() != nil {
			l = append(l, modFrame+runtimeName(f.fn))
		}
		if f.pan == nil {
			continue
		}
		l = append(l, rtFrame+"runtime.gopanic")
		for i := 0; i < sh.Runtime; i++ {
			l = append(l, rtFrame+"runtime.panic"+itoa(i))
		}
		if f.pan.Op == "upanic" {
			l = append(l, panickFrame+f.pan.Aux)
		} else {
			l = append(l, modFrame+"panic")
		}
	}
	l = append(l, entryUser)
	for i := 0; i < sh.Outer; i++ {
		l = append(l, outerFrame+itoa(i))
	}
	return l
}

// runtimeName is the name that the runtime gives to a function.
func runtimeName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		return runtimeName(p) + ".func" + fn.Name()[strings.LastIndexByte(fn.Name(), '$')+1:]
	}
	path := ""
	if p := pkgOf(fn); p != nil {
		path = p.Path() + "."
	}
	if rv := fn.Signature.Recv(); rv != nil {
		t, ptr := rv.Type(), false
		if p, ok := t.(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if ptr {
				return path + "(*" + n.Obj().Name() + ")." + fn.Name()
			}
			return path + n.Obj().Name() + "." + fn.Name()
		}
	}
	return path + fn.Name()
}

func frameFn(key string) *Term {
	for _, k := range []string{modFrame, rtFrame} {
		if s, ok := strings.CutPrefix(key, k); ok {
			return mkStr(s)
		}
	}
	return mk(frameFnOp, key, types.Typ[types.String])
}

func frameFile(key string) *Term { return mk(frameFileOp, key, types.Typ[types.String]) }
func frameLine(key string) *Term { return mk(frameLineOp, key, types.Typ[types.Int]) }

func framePC(st *State, key string) *Term {
	pc := mk("framepc", key, types.Typ[types.Uintptr])
	st.assume(mkEq0(linOf(pc)), false)
	return pc
}

// pcsOf are the addresses of the elements of a list of program counters.
func pcsOf(st *State, s *Term) ([]*Term, bool) {
	ptr := types.NewPointer(types.Typ[types.Uintptr])
	switch s.Op {
	case "nil":
		return nil, true
	case "slice":
		lo, hi := int64(0), int64(-1)
		if s.Args[1].Op != "nil" {
			c, ok := constInt(s.Args[1])
			if !ok {
				return nil, false
			}
			lo = c
		}
		if s.Args[2].Op != "nil" {
			c, ok := constInt(s.Args[2])
			if !ok {
				return nil, false
			}
			hi = c
		}
		if b := s.Args[0]; b.Op == "obj" {
			var r []*Term
			for i := lo; i < hi; i++ {
				r = append(r, mkIaddr(b, mkInt(i), ptr))
			}
			return r, hi >= 0
		}
		r, ok := pcsOf(st, s.Args[0])
		if hi < 0 {
			hi = int64(len(r))
		}
		if !ok || lo < 0 || lo > hi || hi > int64(len(r)) {
			return nil, false
		}
		return r[lo:hi], true
	case "made":
		n, ok := constInt(s.Args[0])
		if !ok || n > 4096 {
			return nil, false
		}
		var r []*Term
		for i := int64(0); i < n; i++ {
			r = append(r, mkIaddr(s, mkInt(i), ptr))
		}
		return r, true
	}
	return nil, false
}

// stackModel gives the meaning of functions that inspect the call stack or
// find out where functions are defined.
func (it *Interp) stackModel(fr *Frame, st *State, name string, args []*Term, sig *types.Signature, site string) []*CallOut {
	ret := func(vs ...*Term) []*CallOut { return []*CallOut{{St: st, Vals: vs}} }
	skipped := func(l []string) []string {
		n, ok := constInt(args[0])
		if !ok {
			panic(giveUp{"the number of frames to skip is not determined in " + fr.fn.String()})
		}
		if n < 0 {
			n = 0
		}
		if n > int64(len(l)) {
			n = int64(len(l))
		}
		return l[n:]
	}
	str := func(f func(a, b string) bool) []*CallOut {
		b, ok := constStr(args[1])
		if !ok {
			return nil
		}
		if a, ok := constStr(args[0]); ok {
			return ret(mkBool(f(a, b)))
		}
		if args[0].Op == frameFnOp && b == "runtime." && name != "strings.HasSuffix" {
			return ret(tFalse)
		}
		return nil
	}
	switch name {
	case "strings.HasPrefix":
		return str(strings.HasPrefix)
	case "strings.HasSuffix":
		return str(strings.HasSuffix)
	case "strings.Contains":
		return str(strings.Contains)
	case "runtime.Callers":
		l := skipped(append([]string{rtFrame + "runtime.Callers"}, it.frames(fr)...))
		cells, ok := pcsOf(st, args[1])
		if !ok {
			panic(giveUp{"the list of program counters cannot be followed in " + fr.fn.String()})
		}
		n := min(len(l), len(cells))
		for i := 0; i < n; i++ {
			st.heap[cells[i]] = framePC(st, l[i])
		}
		return ret(mkInt(int64(n)))
	case "runtime.CallersFrames":
		cells, ok := pcsOf(st, args[0])
		if !ok {
			panic(giveUp{"the list of program counters cannot be followed in " + fr.fn.String()})
		}
		var pcs []*Term
		for _, c := range cells {
			if pc := st.load(c, types.Typ[types.Uintptr]); pc.Op == "framepc" {
				pcs = append(pcs, pc)
			}
		}
		o := mk("obj", site, sig.Results().At(0).Type())
		st.alloc(o)
		st.heap[mk(framesCellOp, "", nil, o)] = mk("seq", "", nil, pcs...)
		return ret(o)
	case "(*runtime.Frames).Next":
		c := mk(framesCellOp, "", nil, args[0])
		rest, ok := st.heap[c]
		if !ok {
			panic(giveUp{"the frames of the stack cannot be followed in " + fr.fn.String()})
		}
		t := sig.Results().At(0).Type()
		if len(rest.Args) == 0 {
			return ret(zeroTerm(t), tFalse)
		}
		pc := rest.Args[0]
		st.heap[c] = mk("seq", "", nil, rest.Args[1:]...)
		s := under(t).(*types.Struct)
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			switch f := s.Field(i); f.Name() {
			case "PC":
				fs[i] = pc
			case "Function":
				fs[i] = frameFn(pc.Aux)
			case "File":
				fs[i] = frameFile(pc.Aux)
			case "Line":
				fs[i] = frameLine(pc.Aux)
			case "Func":
				fs[i] = mk("framefunc", pc.Aux, f.Type())
			default:
				fs[i] = mk("frame"+f.Name(), pc.Aux, f.Type())
			}
		}
		return ret(mkStruct(t, fs), mkBool(len(rest.Args) > 1))
	case "runtime.Caller":
		l := skipped(it.frames(fr))
		if len(l) == 0 {
			return ret(zeroTerm(types.Typ[types.Uintptr]), mkStr(""), mkInt(0), tFalse)
		}
		return ret(framePC(st, l[0]), frameFile(l[0]), frameLine(l[0]), tTrue)
	case "runtime.FuncForPC":
		if args[0].Op == "framepc" {
			f := mk("framefunc", args[0].Aux, sig.Results().At(0).Type())
			st.assume(mkEq(tNil, f, nil), false)
			return ret(f)
		}
		return ret(pureResults(name, args, sig)...)
	case "(*runtime.Func).Name":
		if args[0].Op == "framefunc" {
			return ret(frameFn(args[0].Aux))
		}
		return ret(pureResults(name, args, sig)...)
	case "(*runtime.Func).FileLine", "(*runtime.Func).Entry":
		if args[0].Op == "framefunc" {
			// the line of a return address may be the one after the call
			var vs []*Term
			for i := 0; i < sig.Results().Len(); i++ {
				vs = append(vs, mk(frameNearOp, args[0].Aux+":"+itoa(i), sig.Results().At(i).Type()))
			}
			return ret(vs...)
		}
		return ret(pureResults(name, args, sig)...)
	case "(reflect.Type).MethodByName", "(reflect.Value).MethodByName":
		return ret(pureResults(name, args, sig)...)
	}
	return nil
}
