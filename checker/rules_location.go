package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	checks["C35"] = checkC35
}

// checkC35: source locations shown to users name the right line.
func checkC35(r *Report) {
	r.Rule("action", 4, "an action's location is that of the call of the function that made it, in every part")
	r.Rule("scope", 3, "a panic about a use of a scope has the location of that use in the application")
	r.Rule("handler", 4, "a panic about what a handler's method returned has the location at which that method is defined")
	r.Rule("panic", 8, "a panic about an unexpected message has the location of the application's call of panic()")
	r.Rule("shown", 3, "the text of a location shows its file and line if known, and otherwise its function")

	shapes := []stackShape{{Outer: 0}, {Outer: 2}, {Outer: 20}, {Outer: 20, Runtime: 2}}
	for i := range shapes {
		sh := &shapes[i]
		salt := "stack" + itoa(i)
		r.actionLocations(sh, salt)
		for _, kind := range ctrlKinds {
			k := findCtrl(r, kind)
			for _, op := range []string{"Handle", "Tick"} {
				k.panicLocations(r, op, sh, salt)
			}
		}
	}
	r.locationText()
}

// locationIs checks every part of a location.
func (r *Report) locationIs(rule, where string, pos token.Pos, loc *Term, t types.Type, what, frame string) {
	for _, f := range []struct {
		name string
		want *Term
	}{{"Func", frameFn(frame)}, {"File", frameFile(frame)}, {"Line", frameLine(frame)}} {
		got := structField(loc, t, f.name)
		r.Check(rule, where, pos, got == f.want, "the %s of the location is %s instead of that of %s", f.name, frameOf(got), what)
	}
}

// frameOf describes a part of a location.
func frameOf(t *Term) string {
	if t == nil {
		return "unknown"
	}
	switch t.Op {
	case frameFnOp, frameFileOp, frameLineOp:
		kind, rest, _ := strings.Cut(t.Aux, ":")
		switch kind + ":" {
		case modFrame, rtFrame:
			return "that of " + rest
		case userFrame:
			return "that of the application's call"
		case panickFrame:
			return "that of the application's panic"
		default:
			return "that of a caller of the application"
		}
	case frameNearOp:
		return "that of the instruction after the call"
	}
	return t.String()
}

func locationType(r *Report) types.Type {
	t := r.P.Type("location", "Location")
	if t == nil {
		panic(giveUp{"cannot find the type location.Location"})
	}
	return t
}

// actionLocations checks the locations of actions.
func (r *Report) actionLocations(sh *stackShape, salt string) {
	at := r.P.Type("", "Action")
	if at == nil {
		panic(giveUp{"cannot find the type Action"})
	}
	lt := locationType(r)
	for _, fn := range constructors(r) {
		if res := fn.Signature.Results(); res.Len() != 1 || !types.Identical(res.At(0).Type(), at) {
			continue
		}
		var args []*Term
		for _, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isCallOption(r, s.Elem()) {
				args = append(args, mk("seq", "", p.Type()))
				continue
			}
			args = append(args, mk("param", fn.Name()+"."+p.Name(), p.Type()))
		}
		for _, p := range only(r.Run(Config{Locations: true, Stack: sh, Salt: salt}, fn, nil, args...), "ret") {
			v := p.Vals[0]
			qs, known := r.invoke(Config{Salt: salt}, p.after(), v, "Location")
			if !known {
				r.Check("action", fn.Name(), fn.Pos(), false, "what it returns is not known to have a location")
				continue
			}
			for _, q := range only(qs, "ret") {
				r.locationIs("action", fn.Name(), fn.Pos(), q.Vals[0], lt, "the call of "+fn.Name(), entryUser)
			}
		}
	}
}

// panicLocations checks the locations in the panics of a controller.
func (k *ctrl) panicLocations(r *Report, op string, sh *stackShape, salt string) {
	lt := locationType(r)
	cc := k.clients()
	fn := k.handle
	if op == "Tick" {
		fn = k.tick
	}
	cfg := Config{OnCall: cc.onCall, Locations: true, Stack: sh, Salt: salt, MayPanic: func(ev *Event) bool { return isUserCall(ev) }}
	ps := r.Run(cfg, fn, nil, k.args(fn)...)
	for _, cl := range allClients(ps) {
		for _, u := range cl.Trans {
			b := panicStruct(u.PVal, "UnexpectedBehavior")
			if u.Kind != "panic" || b == nil {
				continue
			}
			pos := posOf(u.Events)
			if !pos.IsValid() {
				pos = cl.Call.Pos
			}
			r.locationIs("scope", k.kind+": "+u.Op, pos, panicField(b, "Location"), lt, "the use of "+u.Op, userFrame+cl.Call.Site)
		}
	}
	for _, p := range ps {
		if p.Kind != "panic" {
			continue
		}
		var last, origin *Event
		for _, ev := range p.Events {
			if isUserCall(ev) {
				last = ev
			}
			if origin == nil && ev.Panics && ev.MFunc != nil && (ev.Kind == "call" || ev.Kind == "upanic") {
				origin = ev
			}
		}
		if m := panicStruct(p.PVal, "UnexpectedMessage"); m != nil && origin != nil {
			where := k.kind + ": " + recvTypeName(origin.MFunc) + "." + origin.Method
			r.locationIs("panic", where, origin.Pos, panicField(m, "PanicLocation"), lt, "the panic in "+origin.Method, panickFrame+origin.Site)
			continue
		}
		b := panicStruct(p.PVal, "UnexpectedBehavior")
		if b == nil || origin != nil || last == nil {
			continue
		}
		where := k.kind + ": " + last.Method
		loc := panicField(b, "Location")
		if sc, _ := scopeArg(last); sc != nil && structField(loc, lt, "Func") == frameFn(userFrame+last.Site) {
			continue // a use of the scope
		}
		r.definedAt("handler", where, last, lits(p.Lits), loc, lt)
	}
}

// definedAt checks that a location is that of the definition of the method
// that is called.
func (r *Report) definedAt(rule, where string, call *Event, ls lits, loc *Term, lt types.Type) {
	fn, file, line := structField(loc, lt, "Func"), structField(loc, lt, "File"), structField(loc, lt, "Line")
	if fn == mkStr("") && file == fn && line == mkInt(0) {
		// unknown to the runtime
		for a, v := range ls {
			if a.contains(func(t *Term) bool {
				return t.Op == "pure" && t.Aux == "runtime.FuncForPC" && r.isMethodPC(t.Args[0], call)
			}) && ls.decidesNil(a, v) {
				r.Check(rule, where, call.Pos, true, "")
				return
			}
		}
	}
	for _, f := range []struct {
		name string
		got  *Term
		aux  string
	}{{"Func", fn, "(*runtime.Func).Name"}, {"File", file, "(*runtime.Func).FileLine:0"}, {"Line", line, "(*runtime.Func).FileLine:1"}} {
		g := f.got
		ok := g != nil && g.Op == "pure" && g.Aux == f.aux
		if ok {
			d := g.Args[0]
			ok = d.Op == "pure" && d.Aux == "runtime.FuncForPC" && r.isMethodPC(d.Args[0], call)
			if ok && len(g.Args) > 1 {
				ok = g.Args[1] == d.Args[0] || g.Args[1].Op == "pure" && g.Args[1].Aux == "(*runtime.Func).Entry" && g.Args[1].Args[0] == d
			}
		}
		r.Check(rule, where, call.Pos, ok, "the %s of the location is %s instead of that of the definition of %s", f.name, frameOf(g), call.Method)
	}
}

// decidesNil tells whether a literal says that a value is nil.
func (ls lits) decidesNil(a *Term, v bool) bool {
	return v && a.Op == "eq" && (a.Args[0].Op == "nil" || a.Args[1].Op == "nil")
}

// isMethodPC tells whether a term is the address of the method that is called.
func (r *Report) isMethodPC(pc *Term, call *Event) bool {
	if pc.Op != "pure" || pc.Aux != "(reflect.Value).Pointer" {
		return false
	}
	v := pc.Args[0]
	if v.Op == "field" {
		v = v.Args[0]
	} else if f := fieldLoad(v, "Func"); f != nil {
		v = f
	}
	if v.Op != "pure" || v.Aux != "(reflect.Type).MethodByName:0" {
		return false
	}
	t := v.Args[0]
	return t.Op == "pure" && t.Aux == "reflect.TypeOf" && stripIface(t.Args[0]) == stripIface(call.Recv) && v.Args[1] == mkStr(call.Method)
}

// locationText checks how locations are shown.
func (r *Report) locationText() {
	lt := locationType(r)
	s := under(lt).(*types.Struct)
	fn := need(r.P.MethodOf(lt, "String"), "location.Location.String")
	loc := mk("param", "loc", lt)
	part := func(name string) *Term {
		i := fieldNamed(s, name)
		if i < 0 {
			panic(giveUp{"cannot find the field " + name + " of location.Location"})
		}
		return mkField(loc, i, s.Field(i).Type())
	}
	file, line, name := part("File"), part("Line"), part("Func")
	for _, c := range []struct {
		what          string
		noFile, noFun bool
	}{{"with a file", false, false}, {"with a file only", false, true}, {"with a function only", true, false}} {
		st := newState()
		st.assume(mkEq(file, mkStr(""), nil), c.noFile)
		st.assume(mkEq(name, mkStr(""), nil), c.noFun)
		for _, p := range r.Run(Config{Locations: true, Texts: true}, fn, st, loc) {
			if !r.Check("shown", c.what, fn.Pos(), p.Kind == "ret", "the text of a location panics") {
				continue
			}
			ts := tokens(p.Vals[0])
			at := func(f func(t *Term) bool) int {
				for i, x := range ts {
					if !x.lit && f(x.t) {
						return i
					}
				}
				return -1
			}
			if c.noFile {
				r.Check("shown", c.what, fn.Pos(), at(func(t *Term) bool { return t == name }) >= 0, "the text %s does not show the function", describe(p.Vals[0]))
				continue
			}
			i := at(func(t *Term) bool {
				return t == file || t.Op == "pure" && (t.Aux == "path.Base" || t.Aux == "path/filepath.Base") && t.Args[0] == file
			})
			ok := i >= 0 && i+2 < len(ts) && ts[i+1].lit && strings.HasPrefix(ts[i+1].s, ":") && !ts[i+2].lit && ts[i+2].t == line
			r.Check("shown", c.what, fn.Pos(), ok, "the text %s does not show the file and line", describe(p.Vals[0]))
		}
	}
}
