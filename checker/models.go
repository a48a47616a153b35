package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pureModel reports whether a function's results depend only on its
// arguments, and it has no effects.
func pureModel(name string, pkg *types.Package) bool {
	if pkg == nil {
		return name == "(error).Error"
	}
	base := name[strings.LastIndexByte(name, '.')+1:]
	switch p := pkg.Path(); {
	case p == "github.com/dogmatiq/configkit":
		return !strings.HasPrefix(base, "Accept") && !strings.HasPrefix(base, "From") && !strings.HasPrefix(base, "Range") && !configIter(name)
	case p == "github.com/dogmatiq/enginekit/message":
		return !kindSwitch(base)
	case p == "time":
		switch base {
		case "Now", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Stop", "Reset":
			return false
		}
		return true
	case p == "fmt":
		return strings.HasPrefix(base, "Sprint")
	case p == "strings":
		return !strings.Contains(name, "Builder") && !strings.Contains(name, "Reader)") && !strings.Contains(name, "Replacer")
	case p == "strconv", p == "unicode", p == "unicode/utf8", p == "math", p == "path", p == "path/filepath":
		return true
	case p == "bytes":
		return !strings.Contains(name, "Buffer") && !strings.Contains(name, "Reader)")
	case p == "errors":
		return base == "Is" || base == "Unwrap"
	case p == "reflect":
		switch base {
		case "TypeOf", "ValueOf", "DeepEqual", "TypeFor", "Pointer", "Interface", "IsNil", "Kind", "Type", "Elem", "Name", "String", "PkgPath", "IsValid", "AssignableTo", "Implements":
			return true
		}
	case p == "google.golang.org/protobuf/proto":
		return base == "Equal" || base == "Clone"
	case p == "regexp":
		switch base {
		case "MustCompile", "Compile", "MatchString", "QuoteMeta":
			return true
		}
	case p == "context":
		return base == "Done" || base == "Value" || base == "Background" || base == "TODO"
	case p == "github.com/dogmatiq/dogma":
		return base == "MessageDescription"
	}
	return false
}

// configIter reports whether a function of the configkit package is an
// iteration that is analysed through its body.
func configIter(name string) bool {
	return strings.Contains(name, "EntityMessages") && (strings.Contains(name, ").Produced") || strings.Contains(name, ").Consumed")) ||
		strings.Contains(name, "RichHandlerSet).AcceptRichVisitor")
}

// kindSwitch reports whether a function of the message package takes callbacks.
func kindSwitch(name string) bool {
	n := strings.ToLower(name)
	return strings.HasPrefix(n, "switch") || strings.HasPrefix(n, "map") || strings.HasPrefix(n, "try") || strings.Contains(n, "$")
}

func pureResults(name string, args []*Term, sig *types.Signature) []*Term {
	res := sig.Results()
	if res.Len() == 1 {
		return []*Term{mk("pure", name, res.At(0).Type(), args...)}
	}
	vals := make([]*Term, res.Len())
	for i := range vals {
		vals[i] = mk("pure", name+":"+itoa(i), res.At(i).Type(), args...)
	}
	return vals
}

// model gives the meaning of well-known functions.
func (it *Interp) model(fr *Frame, st *State, name string, fn *ssa.Function, args []*Term, sig *types.Signature, site string, pos token.Pos, isDefer bool) []*CallOut {
	one := func(t *Term) []*CallOut { return []*CallOut{{St: st, Vals: []*Term{t}}} }
	gname := name
	if fn != nil && fn.Origin() != nil {
		gname = it.P.nameOf(fn.Origin())
	}
	if it.Cfg.Stack != nil {
		if r := it.stackModel(fr, st, gname, args, sig, site); r != nil {
			return r
		}
	}
	boolT := types.Typ[types.Bool]
	switch gname {
	// instants
	case "(time.Time).Before":
		return one(mkGt0(linOf(args[1]).plus(linOf(args[0]), -1)))
	case "(time.Time).After":
		return one(mkGt0(linOf(args[0]).plus(linOf(args[1]), -1)))
	case "(time.Time).Equal":
		return one(mkEq0(linOf(args[0]).plus(linOf(args[1]), -1)))
	case "(time.Time).Compare":
		return one(mk("cmp", "", types.Typ[types.Int], args[0], args[1]))
	case "(time.Time).Sub":
		return one(linOf(args[0]).plus(linOf(args[1]), -1).term(sig.Results().At(0).Type()))
	case "(time.Time).Add":
		return one(linOf(args[0]).plus(linOf(args[1]), 1).term(sig.Results().At(0).Type()))
	case "(time.Time).IsZero":
		z := zeroTerm(fnTimeType(args[0], sig, fn))
		return one(mkEq0(linOf(args[0]).plus(linOf(z), -1)))
	case "time.Since", "time.Until":
		// a reading of the clock
		now := mk("res", site, it.P.timeType())
		st.emit(&Event{Kind: "call", Name: "time.Now", Method: "Now", Res: []*Term{now}, Site: site, Pos: pos, In: fr.fn, Depth: fr.depth, Defer: isDefer || fr.isDefer})
		d := linOf(now).plus(linOf(args[0]), -1)
		if gname == "time.Until" {
			d = d.scale(-1)
		}
		return one(d.term(sig.Results().At(0).Type()))
	case "cmp.Compare", "strings.Compare":
		return one(mk("cmp", "", types.Typ[types.Int], args[0], args[1]))

	// errors
	case "go.uber.org/multierr.Append":
		return one(st.joinErrs(args[0], args[1]))
	case "go.uber.org/multierr.AppendInto":
		t := deref(sig.Params().At(0).Type())
		e := st.joinErrs(st.load(args[0], t), args[1])
		if args[0].Op != "obj" {
			st.emit(&Event{Kind: "store", Addr: args[0], Val: e, Pos: pos, In: fr.fn, Depth: fr.depth, Site: site, Defer: fr.isDefer || isDefer})
		}
		st.store(args[0], e, t)
		return one(mkNot(mkEq(tNil, args[1], nil)))
	case "go.uber.org/multierr.Combine", "errors.Join":
		if args[0].Op == "seq" || args[0].Op == "nil" {
			e := tNil
			for _, a := range args[0].Args {
				e = st.joinErrs(e, a)
			}
			return one(e)
		}
		return one(mk("joinall", "", sig.Results().At(0).Type(), args[0]))
	case "fmt.Errorf":
		if f, ok := constStr(args[0]); ok {
			t := mk("wrap", f, sig.Results().At(0).Type(), variadic(args[1])...)
			return one(t)
		}
		return one(mk("wrap", "?", sig.Results().At(0).Type(), append([]*Term{args[0]}, variadic(args[1])...)...))
	case "errors.Is":
		if newError(args[1]) {
			if v, ok := isErr(args[0], args[1]); ok {
				return one(mkBool(v))
			}
		}
	case "errors.New":
		return one(mk("newerr", site, sig.Results().At(0).Type(), args...))

	// message kinds
	case "github.com/dogmatiq/enginekit/message.KindOf":
		mt := mk("pure", "github.com/dogmatiq/enginekit/message.TypeOf", it.P.messageType, args[0])
		return one(mk("pure", "(github.com/dogmatiq/enginekit/message.Type).Kind", sig.Results().At(0).Type(), mt))
	case "github.com/dogmatiq/enginekit/message.KindFor":
		mt := mk("typefor", typeKey(fn.TypeArgs()[0]), it.P.messageType)
		mt.TAux = fn.TypeArgs()[0]
		return one(mk("pure", "(github.com/dogmatiq/enginekit/message.Type).Kind", sig.Results().At(0).Type(), mt))
	case "github.com/dogmatiq/enginekit/message.TypeFor":
		t := mk("typefor", typeKey(fn.TypeArgs()[0]), sig.Results().At(0).Type())
		t.TAux = fn.TypeArgs()[0]
		return one(t)

	// slices
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints":
		it.sortModel(fr, st, gname, args, site, pos)
		return []*CallOut{{St: st}}
	case "slices.SortedFunc", "slices.SortedStableFunc":
		return nil
	case "slices.Clone":
		return one(cloneTerm(args[0]))
	case "slices.DeleteFunc":
		s := args[0]
		if s.Op == "clone" {
			s = s.Args[0]
		}
		t := mk("filter", "not", args[0].Typ, s, args[1])
		t.Pos = pos
		return one(t)
	case "slices.Concat":
		if args[0].Op == "seq" {
			r := mk("seq", "", sig.Results().At(0).Type())
			for _, a := range args[0].Args {
				r = mkAppend(r, a)
			}
			return one(r)
		}
	case "slices.Insert":
		// The elements of a list that is not a copy may be moved in place.
		s, added := args[0], args[2]
		if i, ok := constInt(args[1]); ok && i == 0 && added.Op == "seq" && (s.Op == "clone" || s.Op == "seq") {
			if s.Op == "clone" {
				s = s.Args[0]
			}
			return one(mkAppend(added, s))
		}
	case "sort.Search":
		t := mk("search", site, types.Typ[types.Int], args...)
		searchStates[t] = st.clone()
		return one(t)

	// maps
	case "maps.Clone":
		m := it.mapOf(st, args[0])
		o := mk("obj", site, sig.Results().At(0).Type())
		st.alloc(o)
		st.setMapState(o, m)
		return one(o)

	case "sync.OnceFunc", "(*sync.Once).Do":
		return nil
	case "(error).Error":
		return one(mk("pure", name, types.Typ[types.String], args...))
	case "context.WithValue":
		return one(mk("pure", name, sig.Results().At(0).Type(), args...))
	}
	_ = boolT
	return nil
}

func fnTimeType(x *Term, sig *types.Signature, fn *ssa.Function) types.Type {
	if fn != nil && fn.Signature.Recv() != nil {
		return fn.Signature.Recv().Type()
	}
	return x.Typ
}

func variadic(t *Term) []*Term {
	if t.Op == "seq" {
		return t.Args
	}
	if t.Op == "nil" {
		return nil
	}
	return []*Term{mk("spread", "", nil, t)}
}

func cloneTerm(s *Term) *Term {
	if s.Op == "nil" || s.Op == "seq" || s.Op == "clone" {
		return s
	}
	return mk("clone", "", s.Typ, s)
}

// joinErrs combines two errors, either of which may be nil.
func (st *State) joinErrs(a, b *Term) *Term {
	if v, known := st.decide(mkEq(tNil, a, nil)); known && v {
		return b
	}
	if v, known := st.decide(mkEq(tNil, b, nil)); known && v {
		return a
	}
	return mk("errs", "", a.Typ, a, b)
}

// isErr decides whether err wraps target, which is a new error.
func isErr(err, target *Term) (bool, bool) {
	switch {
	case err == target:
		return true, true
	case err.Op == "nil" || err.Op == "newerr":
		return false, true
	case err.Op == "wrap":
		if err.Aux == "?" {
			return false, false
		}
		for _, w := range wrapped(err) {
			if v, ok := isErr(w, target); v || !ok {
				return v, ok
			}
		}
		return false, true
	}
	return false, false
}

// wrapped returns the errors that a "wrap" term wraps.
func wrapped(t *Term) []*Term {
	f := t.Aux
	var r []*Term
	arg := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && arg < len(t.Args) {
			r = append(r, t.Args[arg])
		}
		arg++
	}
	return r
}

// searchStates are the states in which searches were performed.
var searchStates = map[*Term]*State{}

// sortModel replaces a slice by its sorted version wherever it is held.
func (it *Interp) sortModel(fr *Frame, st *State, name string, args []*Term, site string, pos token.Pos) {
	x := args[0]
	key := tNil
	if x.Op == "iface" {
		if name == "sort.Sort" || name == "sort.Stable" {
			if fn := it.P.MethodOf(x.TAux, "Less"); fn != nil {
				key = mkFunc(fn)
			}
		}
		x = x.Args[0]
	}
	if len(args) > 1 {
		key = args[1]
	}
	s := mk("sorted", name, x.Typ, x, key)
	st.emit(&Event{Kind: "sort", Name: name, Recv: x, Args: []*Term{key}, Val: s, Pos: pos, In: fr.fn, Depth: fr.depth, Site: site})
	st.replace(fr, x, s)
}

var _ = constant.MakeBool
