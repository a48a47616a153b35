package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = checkC28
}

// makesOption recognises the functions of the engine package that make
// options for operations.
func makesOption(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == nil || p.Path() != modulePath+"/engine" || fn.Signature.Recv() != nil {
		return false
	}
	res := fn.Signature.Results()
	return res.Len() == 1 && typeKey(res.At(0).Type()) == modulePath+"/engine.OperationOption"
}

// A setting is an entry that an option sets in one of the tables of enabled
// handlers and handler types.
type setting struct {
	byType   bool
	key, val *Term
}

// settings are the entries that an option made by a function sets.
func (r *Report) settings(fn *ssa.Function, args []*Term) (ss []setting, ok bool) {
	oo := optionsType(r)
	first := true
	for _, p := range only(r.Run(Config{}, fn, nil, args...), "ret") {
		qs := only(r.applyOption(p.St, p.Vals[0], "applyOperationOption"), "ret")
		if len(qs) == 0 {
			return nil, false
		}
		for _, q := range qs {
			var these []setting
			q.each(func(ev *Event, sc scope) {
				if ev.Kind != "mapset" || len(ev.Args) != 1 || len(sc.loops) > 0 {
					if ev.Kind == "mapdel" || ev.Kind == "mapset" || ev.Kind == "mapclear" {
						these = append(these, setting{key: tNil})
					}
					return
				}
				x := ev.Recv
				if x.Op != "ld" || root(x.Args[0]).Op != "param" || !types.Identical(deref(root(x.Args[0]).Typ), oo) {
					return
				}
				m, isMap := under(x.Typ).(*types.Map)
				if !isMap {
					return
				}
				these = append(these, setting{byType: typeKey(m.Key()) != "string", key: ev.Args[0], val: ev.Val})
			})
			if !first && len(these) != len(ss) {
				return nil, false
			}
			ss, first = these, false
		}
	}
	return ss, !first
}

func checkC28(r *Report) {
	r.Rule("defaults", 1, "a new test disables integrations and projections, and nothing else")
	r.Rule("applied", 2, "every operation of a test is performed with the test's own settings, which no later option changes")
	r.Rule("names", 2, "every name is added to the test's settings, after all earlier ones, with the value asked for")
	r.Rule("names-refused", 2, "unknown names, and enabling a handler that is disabled by its configuration, are refused, and nothing else is")
	r.Rule("patterns", 2, "exactly the handlers that match a pattern, and are not disabled by their configuration, are added to the test's settings, after all earlier ones, with the value asked for")
	r.Rule("patterns-refused", 2, "a pattern that matches no such handler is refused, and nothing else is")
	r.Rule("confined", 4, "nothing but the settings of that test is changed")

	oi, ts, tt := testField(r, "options", func(t types.Type) bool { return isSliceKey(t, modulePath+"/engine.OperationOption") })
	ai, _, _ := testField(r, "application", func(t types.Type) bool {
		return strings.HasSuffix(typeKey(t), "configkit.RichApplication") || strings.HasSuffix(typeKey(t), "configkit.Application")
	})
	cfg := Config{Opaque: makesOption}

	// defaults
	fn := need(r.P.Func("", "BeginContext"), "BeginContext")
	kinds := handlerTypes(r)
	for _, p := range only(r.Run(Config{Opaque: makesOption, OnCall: keepOptions}, fn, nil), "ret") {
		enabled := map[string]string{}
		why := ""
		for _, pc := range elements(p.St, p.St.load(mkFaddr(p.Vals[0], oi, ts, tt), fieldVar(ts, oi).Type())) {
			made := madeBy(p.Events, pc.t)
			if !pc.elem || made == nil {
				why = "an option is not known: " + pc.String()
				continue
			}
			ss, ok := r.settings(made.Callee, made.Args)
			if !ok {
				why = "the effect of " + made.Callee.Name() + " is not known"
			}
			for _, s := range ss {
				if !s.byType || kinds[s.key] == "" {
					why = "a handler is enabled or disabled: " + s.key.String()
					continue
				}
				enabled[kinds[s.key]] = s.val.String()
			}
		}
		if why == "" {
			for k, want := range map[string]string{"aggregate": "", "process": "", "integration": tFalse.String(), "projection": tFalse.String()} {
				got := enabled[k]
				if want == "" && got == tTrue.String() {
					got = ""
				}
				if got != want {
					why = "the setting for " + k + " handlers is " + got
				}
			}
		}
		r.Check("defaults", "BeginContext", fn.Pos(), why == "", "%s", why)
	}

	// operations
	for _, name := range []string{"Expect", "Prepare"} {
		fn := testMethod(r, name)
		oaddr := mkFaddr(nthParam(fn, 0), oi, ts, tt)
		cap := capture{}
		n := 0
		for _, p := range r.Run(Config{Opaque: makesOption, OnCall: performed(r, cap)}, fn, nil) {
			p.each(func(ev *Event, sc scope) {
				if !isRootIface(ev, "Action", "Do") {
					return
				}
				n++
				st, opts := cap[ev], scopeOptions(r, ev)
				if st == nil || opts == nil {
					r.Check("applied", "Test."+name, ev.Pos, false, "the options of the action are not known")
					return
				}
				own := st.load(oaddr, fieldVar(ts, oi).Type())
				whole, why := 0, ""
				for _, pc := range elements(st, opts) {
					switch {
					case !pc.elem && pc.loop == nil && pc.t == own:
						whole++
					case pc.elem:
						made := madeBy(append(append([]*Event{}, p.Events...), iterEvents(sc)...), pc.t)
						if made == nil {
							why = "an option is not known: " + pc.t.String()
							continue
						}
						ss, ok := r.settings(made.Callee, made.Args)
						if !ok || len(ss) > 0 && whole > 0 {
							why = made.Callee.Name() + " overrides the settings of the test"
						}
					default:
						why = "an option is not known: " + pc.String()
					}
				}
				if why == "" && whole != 1 {
					why = "the settings of the test are used " + itoa(whole) + " times"
				}
				r.Check("applied", "Test."+name, ev.Pos, why == "", "%s", why)
			})
		}
		r.Check("applied", "Test."+name, fn.Pos(), n > 0, "no action is performed")
	}

	// changes of settings
	for _, x := range []struct {
		name   string
		like   bool
		enable bool
	}{{"EnableHandlers", false, true}, {"DisableHandlers", false, false}, {"EnableHandlersLike", true, true}, {"DisableHandlersLike", true, false}} {
		fn := testMethod(r, x.name)
		if len(fn.Params) != 2 {
			panic(giveUp{"the parameters of Test." + x.name + " are not as expected"})
		}
		t, in := nthParam(fn, 0), nthParam(fn, 1)
		c := &enabling{r: r, name: "Test." + x.name, fn: fn, enable: x.enable, in: in,
			app: mkLoad(mkFaddr(t, ai, ts, tt), fieldVar(ts, ai).Type())}
		oaddr := mkFaddr(t, oi, ts, tt)
		old := mkLoad(oaddr, fieldVar(ts, oi).Type())
		rets := 0
		for _, p := range r.Run(cfg, fn, nil) {
			bad := ""
			p.each(func(ev *Event, _ scope) {
				if ev.Kind == "store" && ev.Addr != oaddr {
					if o := root(ev.Addr); o.Op != "obj" {
						bad = "it changes " + ev.Addr.String()
					}
				}
				if ev.Kind == "store" && ev.Addr.Op == "iaddr" && appendBase(ev.Addr.Args[0]) == old {
					bad = "it overwrites an element of the test's settings"
				}
			})
			r.Check("confined", c.name, fn.Pos(), bad == "", "%s", bad)
			if p.Kind == "ret" {
				rets++
				got := flatten(p.St.load(oaddr, fieldVar(ts, oi).Type()), loopVarsIn(p.Events))
				if x.like {
					c.patterns(p, old, got)
				} else {
					c.names(p, old, got)
				}
				continue
			}
			if x.like {
				c.patternPanic(p)
			} else {
				c.namePanic(p)
			}
		}
		rule := "names"
		if x.like {
			rule = "patterns"
		}
		r.Check(rule, c.name, fn.Pos(), rets > 0, "it never returns")
	}
}

// handlerTypes maps the constants for handler types to their names.
func handlerTypes(r *Report) map[*Term]string {
	for _, q := range r.P.Mod {
		for path, imp := range q.Imports {
			if path != "github.com/dogmatiq/configkit" {
				continue
			}
			m := map[*Term]string{}
			for _, n := range []string{"Aggregate", "Process", "Integration", "Projection"} {
				c, ok := imp.Types.Scope().Lookup(n + "HandlerType").(*types.Const)
				if !ok {
					panic(giveUp{"cannot find configkit." + n + "HandlerType"})
				}
				m[mkConst(c.Val(), c.Type())] = strings.ToLower(n)
			}
			return m
		}
	}
	panic(giveUp{"cannot find the handler types"})
}

// madeBy is the call that made an option.
func madeBy(evs []*Event, opt *Term) *Event {
	var r *Event
	eachEvent(evs, scope{lits: lits{}}, func(ev *Event, _ scope) {
		if ev.Kind == "call" && ev.Callee != nil && len(ev.Res) == 1 && ev.Res[0] == opt && makesOption(ev.Callee) {
			r = ev
		}
	})
	return r
}

func iterEvents(sc scope) []*Event {
	var r []*Event
	for _, x := range sc.iters {
		r = append(r, x.Events...)
	}
	return r
}

// enabling is the analysis of a method that enables or disables handlers.
type enabling struct {
	r      *Report
	name   string
	fn     *ssa.Function
	enable bool
	in     *Term // the names or patterns
	app    *Term
}

// sets reports whether an option, as made in some iteration, gives the
// setting asked for to name(key).
func (c *enabling) sets(evs []*Event, opt *Term) (key *Term, why string) {
	made := madeBy(evs, opt)
	if made == nil {
		return nil, "an option is not known: " + opt.String()
	}
	ss, ok := c.r.settings(made.Callee, made.Args)
	if !ok || len(ss) != 1 || ss[0].byType {
		return nil, made.Callee.Name() + " does not enable or disable one handler"
	}
	v, known := constBool(ss[0].val)
	if !known || v != c.enable {
		return nil, "the setting that is added is " + ss[0].val.String()
	}
	return ss[0].key, ""
}

func constBool(t *Term) (val, ok bool) {
	switch t {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	return false, false
}

// loopsIn calls f with every loop of a path, and the conditions under which
// it was left.
func loopsIn(evs []*Event, ls lits, f func(l *Loop, after lits)) {
	for _, ev := range evs {
		if ev.Kind != "loop" {
			continue
		}
		f(ev.Loop, ls)
		for _, x := range ev.Loop.Iters {
			loopsIn(x.Events, ls.with(x.Lits), f)
		}
	}
}

// known is the condition that a name is that of a handler, and disabled that
// the handler is disabled by its configuration.
func (c *enabling) byName(a, name *Term) (known bool, h *Term) {
	if a.Op != "pure" || len(a.Args) != 2 || a.Args[1] != name || !c.handlers(a.Args[0]) {
		return false, nil
	}
	if strings.HasSuffix(a.Aux, ".ByName:1") {
		return true, mk("pure", strings.TrimSuffix(a.Aux, "1")+"0", nil, a.Args...)
	}
	return false, nil
}

// handlers reports whether t is the set of the application's handlers.
func (c *enabling) handlers(t *Term) bool {
	if t.Op != "pure" || len(t.Args) != 1 || t.Args[0] != c.app {
		return false
	}
	return strings.HasSuffix(t.Aux, ".Handlers") || strings.HasSuffix(t.Aux, ".RichHandlers")
}

// usable reports what conditions say about a name: whether it is known, and
// whether its handler is disabled.
func (c *enabling) usable(ls lits, name *Term) (known, unknown, disabled, enabled bool) {
	for a, v := range ls {
		if ok, _ := c.byName(a, name); ok {
			known, unknown = known || v, unknown || !v
		}
		if x := pureCall(a, "IsDisabled"); len(x) == 1 && len(x[0].Args) == 2 && x[0].Args[1] == name && strings.HasSuffix(x[0].Aux, ".ByName:0") && c.handlers(x[0].Args[0]) {
			disabled, enabled = disabled || v, enabled || !v
		}
	}
	return
}

func (c *enabling) names(p *Path, old *Term, got []piece) {
	r := c.r
	why := ""
	switch {
	case lits(p.Lits).holds(mkEq0(linOf(mkLen(c.in)))) && len(got) == 1:
		if got[0].elem || got[0].t != old {
			why = "the settings become " + piecesString(got)
		}
	case len(got) != 2 || got[0].elem || got[0].loop != nil || got[0].t != old || got[1].loop == nil:
		why = "the settings become " + piecesString(got)
	default:
		l := got[1].loop
		if !completed(p.Lits, l, c.in) {
			why = "the loop may end before the last name"
		}
		for i, alt := range got[1].alts {
			if len(alt) != 1 || !alt[0].elem {
				why = "the settings added for a name are " + piecesString(alt)
				break
			}
			key, w := c.sets(l.Iters[i].Events, alt[0].t)
			if w != "" {
				why = w
				break
			}
			if key.Op != "index" || key.Args[0] != c.in || !fullIndex(key.Args[1], c.in, l) {
				why = "the setting is for the name " + key.String()
			}
		}
	}
	r.Check("names", c.name, c.fn.Pos(), why == "", "%s", why)

	// no name that must be refused
	if lits(p.Lits).holds(mkEq0(linOf(mkLen(c.in)))) {
		return
	}
	why = "names are not checked"
	loopsIn(p.Events, p.Lits, func(l *Loop, after lits) {
		if why == "" || !completed(after, l, c.in) || len(l.Iters) == 0 {
			return
		}
		w := ""
		for _, x := range l.Iters {
			idx := mk("index", "", nil, c.in, l.Iter)
			known, _, _, enabled := c.usable(after.with(x.Lits), idx)
			if !known {
				w = "an unknown name may be accepted"
			} else if c.enable && !enabled {
				w = "a handler that is disabled by its configuration may be enabled"
			}
		}
		if why = w; w == "" {
			return
		}
	})
	r.Check("names-refused", c.name, c.fn.Pos(), why == "", "%s", why)
}

func (c *enabling) namePanic(p *Path) {
	ok := false
	seen := map[*Term]bool{}
	for a := range p.Lits {
		a.contains(func(x *Term) bool {
			if x.Op == "index" && x.Args[0] == c.in && !seen[x] {
				seen[x] = true
				_, unknown, disabled, _ := c.usable(p.Lits, x)
				if unknown || c.enable && disabled {
					ok = true
				}
			}
			return false
		})
	}
	c.r.Check("names-refused", c.name, c.fn.Pos(), ok, "it panics for another reason: %v", p.PVal)
}

// A candidate is a handler that is considered in a loop over all handlers.
type candidate struct {
	set  *Term // the map of handlers
	name *Term // its name
	cfg  *Term // its configuration
}

// candidateOf finds the handler that an iteration considers.
func (c *enabling) candidateOf(ls map[*Term]bool) *candidate {
	for a, v := range ls {
		if a.Op != "more" || !v {
			continue
		}
		m := a.Args[0]
		x := m
		if x.Op == "mapinit" {
			x = x.Args[0]
		}
		if c.handlers(x) {
			k := &candidate{set: m}
			for b, w := range ls {
				if b.Op == "has" && w && b.Args[0] == m && b.Args[1].Op == "rk" && b.Args[1].Aux == a.Aux {
					k.name = b.Args[1]
				}
			}
			if k.name != nil {
				return k
			}
		}
	}
	return nil
}

// isName reports whether t is the name of the candidate.
func (k *candidate) isName(t *Term) bool {
	if x := fieldLoad(t, "Name"); x != nil {
		if x == k.name {
			return true
		}
	}
	h := handlerName(t)
	return h != nil && k.isHandler(h)
}

func (k *candidate) isHandler(t *Term) bool {
	return t.Op == "lookup" && t.Args[0] == k.set && t.Args[1] == k.name
}

// about is what conditions say about the candidate: whether it matches a
// pattern, and whether it is disabled.
func (c *enabling) about(k *candidate, ls lits) (match, mismatch, disabled, enabled bool, pattern *Term) {
	for a, v := range ls {
		if x := pureCall(a, "IsDisabled"); len(x) == 1 && k.isHandler(x[0]) {
			disabled, enabled = disabled || v, enabled || !v
		}
		var pat, name *Term
		switch {
		case a.Op == "pure" && a.Aux == "(*regexp.Regexp).MatchString":
			re := a.Args[0]
			if re.Op == "pure" && (re.Aux == "regexp.MustCompile" || re.Aux == "regexp.Compile:0") {
				pat, name = re.Args[0], a.Args[1]
			}
		case a.Op == "pure" && a.Aux == "regexp.MatchString:0":
			pat, name = a.Args[0], a.Args[1]
		}
		if pat != nil && k.isName(name) && pat.Op == "index" && pat.Args[0] == c.in {
			match, mismatch = match || v, mismatch || !v
			pattern = pat
		}
	}
	return
}

// inserted are the keys and elements that an iteration adds to collections.
func inserted(l *Loop, x *Iter) (ts []*Term) {
	for _, ev := range x.Events {
		if ev.Kind == "mapset" && len(ev.Args) == 1 {
			ts = append(ts, ev.Args[0])
		}
	}
	for mu, next := range x.Next {
		if next.Op == "append" {
			for _, pc := range flatten(next, nil) {
				if pc.elem {
					ts = append(ts, pc.t)
				} else if pc.t != mu {
					ts = append(ts, pc.t)
				}
			}
		}
	}
	return ts
}

// scan checks the loops over all handlers: an iteration adds the handler's
// name to a collection, or its setting to the options, exactly if it matches
// and is not disabled. It returns the collections.
func (c *enabling) scan(p *Path) (colls map[*Term]bool, loops map[*Loop]bool, why string) {
	colls, loops = map[*Term]bool{}, map[*Loop]bool{}
	why = "the handlers are not considered"
	n := 0
	var visit func(evs []*Event, ls lits, outer []*Loop)
	visit = func(evs []*Event, ls lits, outer []*Loop) {
		for _, ev := range evs {
			if ev.Kind != "loop" {
				continue
			}
			l := ev.Loop
			chain := append(append([]*Loop{}, outer...), l)
			for _, x := range l.Iters {
				all := ls.with(x.Lits)
				k := c.candidateOf(x.Lits)
				if k == nil {
					visit(x.Events, all, chain)
					continue
				}
				loops[l] = true
				if n == 0 {
					why = ""
				}
				n++
				match, mismatch, disabled, enabled, pat := c.about(k, all)
				ins := inserted(l, x)
				if len(ins) == 0 {
					if !disabled && !mismatch && why == "" {
						why = "a handler that matches and is not disabled is left out"
					}
					continue
				}
				if !match || !enabled {
					why = "a handler that does not match, or is disabled by its configuration, is added"
				}
				if pat != nil {
					okIdx := false
					for _, o := range outer {
						okIdx = okIdx || fullIndex(pat.Args[1], c.in, o)
					}
					if !okIdx {
						why = "handlers are matched against the pattern " + pat.String()
					}
				}
				for _, t := range ins {
					name := t
					if made := madeBy(x.Events, t); made != nil {
						var w string
						if name, w = c.sets(x.Events, t); w != "" {
							why = w
							continue
						}
					}
					if !k.isName(name) {
						why = "the name that is added is " + name.String()
					}
				}
				for _, o := range chain {
					for mu := range o.Init {
						colls[mu] = true
					}
				}
			}
			if loops[l] {
				for _, x := range l.Iters {
					if k := c.candidateOf(x.Lits); k != nil && !mapExhausted(ls, k.set) {
						why = "the loop over the handlers may end early"
					}
				}
			}
		}
	}
	visit(p.Events, p.Lits, nil)
	return colls, loops, why
}

func (c *enabling) patterns(p *Path, old *Term, got []piece) {
	r := c.r
	check := func(why string) bool { return r.Check("patterns", c.name, c.fn.Pos(), why == "", "%s", why) }
	none := lits(p.Lits).holds(mkEq0(linOf(mkLen(c.in))))
	colls, loops, why := c.scan(p)
	if none && len(loops) == 0 {
		why = ""
	}
	if !check(why) {
		return
	}
	if len(got) == 0 || got[0].elem || got[0].loop != nil || got[0].t != old {
		check("the settings become " + piecesString(got))
		return
	}
	// every pattern is considered
	all := none
	loopsIn(p.Events, p.Lits, func(l *Loop, after lits) {
		inner := false
		for _, x := range l.Iters {
			loopsIn(x.Events, lits{}, func(m *Loop, _ lits) { inner = inner || loops[m] })
		}
		if inner && completed(after, l, c.in) {
			all = true
			// a pattern without matches is refused
			c.unmatched(l, loops)
		}
	})
	if !check(map[bool]string{false: "the patterns are not all considered"}[all]) {
		return
	}
	// everything that was added becomes a setting
	if len(got) == 1 {
		if !none {
			check("no settings are added")
		}
		return
	}
	var settle func(ps []piece, evs []*Event, ls lits, in *Loop)
	settle = func(ps []piece, evs []*Event, ls lits, in *Loop) {
		for _, pc := range ps {
			switch {
			case pc.loop != nil && loops[pc.loop]:
				// added directly
			case pc.loop != nil:
				for i, alt := range pc.alts {
					x := pc.loop.Iters[i]
					nested := false
					for _, a := range alt {
						nested = nested || a.loop != nil
					}
					if len(alt) == 0 {
						check("not everything that matches is added to the settings")
						return
					}
					if nested {
						settle(alt, x.Events, ls.with(x.Lits), pc.loop)
						continue
					}
					if len(alt) != 1 || !alt[0].elem {
						check("the settings added are " + piecesString(alt))
						return
					}
					key, w := c.sets(x.Events, alt[0].t)
					if w != "" {
						check(w)
						return
					}
					coll, whole := wholly(key, pc.loop, ls, p.Events)
					if !colls[coll] {
						check("the settings added are for " + key.String())
						return
					}
					check(map[bool]string{false: "not everything that matches is added to the settings"}[whole])
				}
			default:
				check("the settings become " + piecesString(got))
			}
		}
	}
	settle(got[1:], p.Events, p.Lits, nil)
}

// wholly finds the collection that a loop's iterations go through, one element
// or key each, and whether they go through all of it.
func wholly(key *Term, l *Loop, ls lits, evs []*Event) (coll *Term, whole bool) {
	coll = key
	switch key.Op {
	case "rk":
		coll = key.Args[0]
		whole = mapExhausted(ls, coll)
	case "index":
		coll = key.Args[0]
		whole = fullIndex(key.Args[1], coll, l) && completed(ls, l, coll)
	}
	for coll.Op == "sorted" || coll.Op == "clone" {
		coll = coll.Args[0]
	}
	// a list of the elements of another collection
	for _, ev := range evs {
		if ev.Kind != "loop" || len(ev.Loop.Iters) != 1 {
			continue
		}
		init, next := ev.Loop.Init[coll], ev.Loop.Iters[0].Next[coll]
		if init == nil || !isEmpty(init) || next.Op != "append" || next.Args[0] != coll || next.Args[1].Op != "seq" || len(next.Args[1].Args) != 1 {
			continue
		}
		if c, w := wholly(next.Args[1].Args[0], ev.Loop, ls, evs); w {
			return c, whole
		}
	}
	return coll, whole
}

// isEmpty reports whether a slice is known to have no elements.
func isEmpty(t *Term) bool {
	if n, ok := constInt(mkLen(t)); ok {
		return n == 0
	}
	return t.Op == "nil" || t.Op == "seq" && len(t.Args) == 0
}

// unmatched checks that an iteration over the patterns goes on only if some
// handler was added.
func (c *enabling) unmatched(l *Loop, loops map[*Loop]bool) {
	for _, x := range l.Iters {
		ok := false
		loopsIn(x.Events, lits{}, func(m *Loop, _ lits) {
			if loops[m] {
				ok = ok || tellsAdded(m, x.Lits, true)
			}
		})
		c.r.Check("patterns-refused", c.name, c.fn.Pos(), ok, "a pattern that matches no handler may be accepted")
	}
}

func (c *enabling) patternPanic(p *Path) {
	_, loops, _ := c.scan(p)
	ok := false
	loopsIn(p.Events, p.Lits, func(m *Loop, after lits) {
		if loops[m] && tellsAdded(m, after, false) {
			ok = true
		}
	})
	for a, v := range p.Lits {
		// an invalid pattern, or (never) an invalid name
		if a.Op == "eq" && !v && a.contains(func(x *Term) bool {
			return x.Op == "pure" && (strings.HasPrefix(x.Aux, "regexp.") || strings.HasSuffix(x.Aux, "ValidateIdentityName"))
		}) {
			ok = true
		}
	}
	c.r.Check("patterns-refused", c.name, c.fn.Pos(), ok, "it panics for another reason: %v", p.PVal)
}

// tellsAdded reports whether conditions say that some (or that no) iteration
// of a loop added something: by a flag, a counter or the length of a list.
func tellsAdded(l *Loop, ls lits, added bool) bool {
	for mu, init := range l.Init {
		flag, list := true, true
		up, down := false, false
		for _, x := range l.Iters {
			next := x.Next[mu]
			if next == nil {
				flag, list = false, false
				break
			}
			if len(inserted(l, x)) == 0 {
				flag = flag && next == mu
				list = list && next == mu
				continue
			}
			b, isB := constBool(next)
			flag = flag && isB
			up, down = up || isB && b, down || isB && !b
			ok := next.Op == "append" && appendBase(next) == mu
			d := linOf(next).plus(linOf(mu), -1)
			ok = ok || d.isConst() && d.c > 0
			list = list && ok
		}
		if b, isB := constBool(init); flag && isB && (up != down) && b == down {
			if added == up && ls.holds(mu) || added != up && ls.refutes(mu) {
				return true
			}
		}
		if list {
			n := mu
			if _, ok := under(mu.Typ).(*types.Slice); ok {
				n = mkLen(mu)
				if !isEmpty(init) {
					continue
				}
			} else if k, ok := constInt(init); !ok || k != 0 {
				continue
			}
			zero := ls.holds(mkEq0(linOf(n))) || ls.refutes(mkGt0(linOf(n)))
			pos := ls.refutes(mkEq0(linOf(n))) || ls.holds(mkGt0(linOf(n)))
			if added && pos || !added && zero {
				return true
			}
		}
	}
	return false
}
