package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["C36"] = checkC36
}

const (
	dapperPath = "github.com/dogmatiq/dapper"
	diffPath   = "github.com/sergi/go-diff/diffmatchpatch"
)

// checkC36: diffs and renderings of messages are faithful.
func checkC36(r *Report) {
	r.Rule("operands", 1, "the messages that are compared in a report are the expected one, then the most similar one produced, both as rendered by the printer of the report")
	r.Rule("pieces", 1, "every piece of the difference is written, in order and unaltered, with marks that tell what is missing from what was not expected")
	r.Rule("printer", 3, "the printer of a report is the one that has the annotations, in the reports of nested expectations too")
	r.Rule("annotations", 1, "the printer has one annotator for each annotation of the test")
	r.Rule("annotator", 1, "an annotator gives the text of its annotation exactly for the values of the same type that are equal to the annotated one")
	r.Rule("kept", 4, "nothing else that is done with a test changes its annotations")
	r.Rule("annotate", 1, "annotating a value adds the value and the text to the annotations of the test and changes none of them")

	r.differences()
	r.annotations()
}

// rendering gives the meaning of the functions that render and compare texts.
func rendering(_ *Interp, _ *Frame, st *State, ev *Event) []*CallOut {
	if ev.Callee == nil {
		return nil
	}
	p := pkgOf(ev.Callee)
	if p == nil {
		return nil
	}
	args := ev.Args
	if ev.Recv != nil {
		args = append([]*Term{ev.Recv}, args...)
	}
	switch p.Path() {
	case dapperPath:
		if ev.Recv != nil && ev.Method == "Format" {
			return []*CallOut{{St: st, Vals: []*Term{mk("pure", "rendering", ev.Res[0].Typ, args...)}}}
		}
	case diffPath:
		if len(ev.Res) == 1 && ev.Recv != nil {
			if strings.HasPrefix(ev.Method, "DiffMain") && len(ev.Args) >= 2 {
				ev.Res = []*Term{mk("pure", "difference", ev.Res[0].Typ, ev.Args[:2]...)}
				st.emit(ev)
				return []*CallOut{{St: st, Vals: ev.Res}}
			}
			if strings.HasPrefix(ev.Method, "DiffCleanup") {
				return []*CallOut{{St: st, Vals: []*Term{mk("pure", "tidied", ev.Res[0].Typ, ev.Args...)}}}
			}
		}
	}
	return nil
}

func isDifference(t *Term) bool {
	for t.Op == "pure" && t.Aux == "tidied" {
		t = t.Args[0]
	}
	return t.Op == "pure" && t.Aux == "difference"
}

// printerOf is the printer in the context of a report.
func printerOf(r *Report, ctx *Term) *Term {
	t := r.P.Type("", "ReportGenerationContext")
	if t == nil {
		panic(giveUp{"cannot find the type ReportGenerationContext"})
	}
	i := fieldOfType(t, func(t types.Type) bool { return typeKey(t) == "*"+dapperPath+".Printer" })
	if i < 0 {
		panic(giveUp{"ReportGenerationContext does not have a printer"})
	}
	return mkField(ctx, i, under(t).(*types.Struct).Field(i).Type())
}

// differences checks the differences shown in reports.
func (r *Report) differences() {
	ct := r.P.Type("", "ReportGenerationContext")
	for _, fn := range rootMethods(r, "Predicate", "Report") {
		if fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		ctx := paramOfType(fn, typeKey(ct))
		name := typeName(fn)
		args := make([]*Term, len(fn.Params))
		for i := range args {
			args[i] = nthParam(fn, i)
		}
		self := args[0]
		printer := printerOf(r, ctx)
		for _, p := range only(r.Run(Config{Texts: true, OnCall: rendering, Salt: "diff"}, fn, nil, args...), "ret") {
			var diff *Event
			p.each(func(ev *Event, _ scope) {
				if isRootIface(ev, "Predicate", "Report") {
					x := printerOf(r, ev.Args[0])
					r.Check("printer", name, ev.Pos, x == printer, "a nested report has the printer %s", describe(x))
				}
				if ev.Kind == "call" && len(ev.Res) == 1 && isDifference(ev.Res[0]) {
					if diff != nil {
						r.Check("operands", name, ev.Pos, false, "messages are compared twice in one report")
					}
					diff = ev
				}
			})
			if diff == nil {
				continue
			}
			a, b := diff.Args[0], diff.Args[1]
			r.Check("operands", name, diff.Pos, r.isRendering(a, printer, func(m *Term) bool {
				x := root(addrOf(m))
				return x == self && m.Typ != nil && typeKey(m.Typ) == dogmaPath+".Message" && fieldLoad(m, "Message") == nil
			}), "the first text is %s instead of the rendering of the expected message", describe(a))
			r.Check("operands", name, diff.Pos, r.isRendering(b, printer, func(m *Term) bool {
				e := fieldLoad(m, "Message")
				return e != nil && e.Typ != nil && typeKey(e.Typ) == "*"+modulePath+"/envelope.Envelope" && root(addrOf(e)) == self
			}), "the second text is %s instead of the rendering of the similar message", describe(b))
			r.pieces(name, p, diff)
		}
	}
}

// addrOf is the address that a value is loaded from.
func addrOf(t *Term) *Term {
	if (t.Op == "ld" || t.Op == "hav") && len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

func (r *Report) isRendering(t, printer *Term, f func(m *Term) bool) bool {
	return t.Op == "pure" && t.Aux == "rendering" && len(t.Args) == 2 && t.Args[0] == printer && f(stripIface(t.Args[1]))
}

// pieces checks that the whole difference is part of a text.
func (r *Report) pieces(name string, p *Path, diff *Event) {
	done := loopVarsIn(p.Events)
	found := false
	for c, v := range p.St.heap {
		if c.Op != "textcell" {
			continue
		}
		for _, pc := range flatten(v, done) {
			if pc.loop == nil {
				continue
			}
			shows := false
			for _, alt := range pc.alts {
				for _, x := range alt {
					if x.t != nil && x.t.contains(isDifference) {
						shows = true
					}
				}
			}
			if !shows {
				continue
			}
			r.Check("pieces", name, diff.Pos, !found, "the difference is shown twice")
			found = true
			r.marked(name, p, pc)
		}
	}
	r.Check("pieces", name, diff.Pos, found, "the difference is not part of the report")
}

// marked checks how the pieces of a difference are written by a loop.
func (r *Report) marked(name string, p *Path, pc piece) {
	l := pc.loop
	check := func(ok bool, format string, args ...any) bool {
		return r.Check("pieces", name, l.Pos, ok, format, args...)
	}
	kinds := []struct {
		name string
		n    int64
		mark string
	}{{"insertion", 1, "+"}, {"deletion", -1, "-"}, {"common part", 0, ""}}
	seen := map[string]bool{}
	for i, alt := range pc.alts {
		it := l.Iters[i]
		var ts []textToken
		for _, x := range alt {
			if x.t == nil {
				check(false, "a piece is written by another loop")
				return
			}
			ts = append(ts, tokens(x.t)...)
		}
		// the element that is written
		var elem, text *Term
		n := 0
		for _, t := range ts {
			if t.lit {
				continue
			}
			n++
			if x := fieldLoad(t.t, "Text"); isElement(x) && isDifference(x.Args[0]) {
				elem, text = x, t.t
			}
		}
		// the kinds of pieces that this is done for
		typ := func(x *Term) bool {
			e := fieldLoad(x, "Type")
			return isElement(e) && isDifference(e.Args[0])
		}
		for _, k := range kinds {
			if !possible(it.Lits, typ, k.n) {
				continue
			}
			seen[k.name] = true
			if !check(text != nil && n == 1, "the text of a piece that is %s is written as %s", article(k.name), tokensString(ts)) {
				continue
			}
			check(elem.Args[1] == l.Iter, "the pieces are not all written in order")
			check(completed(p.Lits, l, elem.Args[0]), "the pieces may not all be written")
			before, after, at := "", "", false
			for _, t := range ts {
				switch {
				case !t.lit:
					at = true
				case at:
					after += t.s
				default:
					before += t.s
				}
			}
			switch {
			case k.mark == "":
				check(before == "" && after == "", "a common part is written as %s", tokensString(ts))
			default:
				other := "+-"
				other = strings.Replace(other, k.mark, "", 1)
				for _, s := range []string{before, after} {
					check(strings.Contains(s, k.mark) && !strings.Contains(s, other), "%s is written as %s", article(k.name), tokensString(ts))
				}
			}
		}
	}
	for _, k := range kinds {
		check(seen[k.name], "%s is not written", article(k.name))
	}
}

// isElement recognises an element of a list, or its address.
func isElement(t *Term) bool { return t != nil && (t.Op == "index" || t.Op == "iaddr") }

func article(s string) string {
	if strings.ContainsAny(s[:1], "aeiou") {
		return "an " + s
	}
	return "a " + s
}

func tokensString(ts []textToken) string {
	var ss []string
	for _, t := range ts {
		if t.lit {
			ss = append(ss, `"`+t.s+`"`)
		} else {
			ss = append(ss, t.t.String())
		}
	}
	if len(ss) == 0 {
		return "nothing"
	}
	return strings.Join(ss, " ")
}

// possible tells whether conditions allow an integer to have a value.
func possible(ls lits, is func(*Term) bool, n int64) bool {
	var x *Term
	for a := range ls {
		a.contains(func(t *Term) bool {
			if is(t) {
				x = t
			}
			return false
		})
	}
	if x == nil {
		return true
	}
	st := newState()
	eq := mkEq0(linOf(x).plus(lin{c: n}, -1))
	if v, known := ls.decide(eq); known {
		return v
	}
	for a, v := range ls {
		b := subst(a, x, mkInt(n))
		if w, known := st.decide(b); known && w != v {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------

// testing keeps what is tested from changing the annotations.
func testing(_ *Interp, _ *Frame, st *State, ev *Event) []*CallOut {
	for _, t := range []string{"Action", "Expectation", "Predicate", "TestingT"} {
		if isRootIface(ev, t, ev.Method) {
			st.emit(ev)
			return []*CallOut{{St: st, Vals: ev.Res}}
		}
	}
	return nil
}

// annotations checks the annotations of a test.
func (r *Report) annotations() {
	tt := r.P.Type("", "Test")
	at := r.P.Type("", "Annotation")
	if tt == nil || at == nil {
		panic(giveUp{"cannot find the annotations of a test"})
	}
	i := fieldOfType(tt, func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), at)
	})
	if i < 0 {
		panic(giveUp{"a test does not have a list of annotations"})
	}
	ts := under(tt).(*types.Struct)
	field := func(test *Term) *Term { return mkFaddr(test, i, ts, tt) }

	// adding one
	fn := testMethod(r, "Annotate")
	if len(fn.Params) != 3 {
		panic(giveUp{"Test.Annotate does not have the expected parameters"})
	}
	test, v, text := nthParam(fn, 0), nthParam(fn, 1), nthParam(fn, 2)
	for _, p := range r.Run(Config{}, fn, nil, test, v, text) {
		if !r.Check("annotate", "Test.Annotate", fn.Pos(), p.Kind == "ret", "it panics with %s", describe(p.PVal)) {
			continue
		}
		old := mkLoad(field(test), ts.Field(i).Type())
		ps := flatten(p.St.load(field(test), ts.Field(i).Type()), loopVarsIn(p.Events))
		ok := len(ps) == 2 && !ps[0].elem && ps[0].t == old && ps[1].elem
		if ok {
			a := ps[1].t
			ok = structField(a, at, "Value") == v && structField(a, at, "Text") == text
		}
		r.Check("annotate", "Test.Annotate", fn.Pos(), ok, "the annotations become %s", piecesString(ps))
		for c := range p.St.heap {
			if c.Op == "iaddr" && c.Args[0] == old {
				r.Check("annotate", "Test.Annotate", fn.Pos(), false, "an earlier annotation is changed")
			}
		}
		r.Check("annotate", "Test.Annotate", fn.Pos(), p.Vals[0] == test, "it returns %s instead of the test", describe(p.Vals[0]))
	}

	// keeping them
	for _, fn := range exportedFuncs(r, tt) {
		if fn.Name() == "Annotate" {
			continue
		}
		args := []*Term{nthParam(fn, 0)}
		for i := range fn.Params[1:] {
			args = append(args, nthParam(fn, i+1))
		}
		test, t := args[0], ts.Field(i).Type()
		for _, p := range r.Run(Config{OnCall: testing, Salt: "keeps"}, fn, nil, args...) {
			x := p.St.load(field(test), t)
			r.Check("kept", fn.Name(), fn.Pos(), x == mkLoad(field(test), t), "the annotations of the test become %s", describe(x))
		}
	}

	// using them
	fn = testMethod(r, "Expect")
	test = nthParam(fn, 0)
	args := []*Term{test}
	for i := range fn.Params[1:] {
		args = append(args, nthParam(fn, i+1))
	}
	list := mkLoad(field(test), ts.Field(i).Type())
	made := map[*Event]func() *Term{} // the annotation that an annotator is for
	reported := false
	cfg := Config{Salt: "annot", OnCall: func(it *Interp, fr *Frame, st *State, ev *Event) []*CallOut {
		if outs := rendering(it, fr, st, ev); outs != nil {
			return outs
		}
		if isAnnotator(ev) {
			ev.Res = []*Term{mk("annotator", ev.Site, ev.Res[0].Typ)}
			made[ev] = r.annotator(it, st, ev, at)
			st.emit(ev)
			return []*CallOut{{St: st, Vals: ev.Res}}
		}
		return testing(it, fr, st, ev)
	}}
	for _, p := range r.Run(cfg, fn, nil, args...) {
		var printer *Event
		p.each(func(ev *Event, _ scope) {
			if ev.Kind == "call" && ev.Callee != nil && ev.Callee.Name() == "NewPrinter" && pkgOf(ev.Callee) != nil && pkgOf(ev.Callee).Path() == dapperPath {
				printer = ev
			}
			if !isRootIface(ev, "Predicate", "Report") {
				return
			}
			reported = true
			x := printerOf(r, ev.Args[0])
			r.Check("printer", "Test.Expect", ev.Pos, printer != nil && len(printer.Res) == 1 && x == printer.Res[0], "the printer of the report is %s", describe(x))
		})
		if printer == nil {
			continue
		}
		why := eachOnce(p, list, isAnnotator, func(ev *Event) *Term { return made[ev]() }, false)
		r.Check("annotations", "Test.Expect", printer.Pos, why == "", "%s", why)
		n := 0
		for _, pc := range flatten(printer.Args[0], loopVarsIn(p.Events)) {
			if pc.loop == nil {
				continue
			}
			for _, alt := range pc.alts {
				ok := len(alt) == 1 && alt[0].t != nil && alt[0].t.Op == "annotator"
				if ok {
					n++
				}
				r.Check("annotations", "Test.Expect", printer.Pos, ok, "an annotation results in the options %s", piecesString(alt))
			}
		}
		r.Check("annotations", "Test.Expect", printer.Pos, n > 0, "the printer does not have the annotators")
	}
	r.Check("printer", "Test.Expect", fn.Pos(), reported, "there is no report")
}

func isAnnotator(ev *Event) bool {
	return ev.Kind == "call" && ev.Callee != nil && ev.Callee.Name() == "WithAnnotator" && pkgOf(ev.Callee) != nil && pkgOf(ev.Callee).Path() == dapperPath
}

// annotator interprets an annotator. The function that it returns checks what
// it does, and returns the annotation that it is for.
func (r *Report) annotator(it *Interp, st *State, ev *Event, at types.Type) func() *Term {
	sig, ok := ev.Args[0].Typ.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 {
		panic(giveUp{"cannot find the parameter of an annotator"})
	}
	vt := sig.Params().At(0).Type()
	v := mk("param", "rendered", vt)
	outs := it.RunValue(ev.Args[0], st.clone(), []*Term{v})
	check := func(ok bool, format string, args ...any) bool {
		return r.Check("annotator", "Test.Expect", ev.Pos, ok, format, args...)
	}
	return func() *Term {
		if !check(len(outs) > 0, "it is not known what an annotator does") {
			return nil
		}
		var a *Term
		for _, o := range outs {
			if o.Kind == "ret" {
				if x := fieldLoad(o.Vals[0], "Text"); x != nil {
					a = x
				}
			}
		}
		if !check(a != nil, "an annotator never gives the text of an annotation") {
			return nil
		}
		part := func(name string) *Term {
			if a.Op == "iaddr" {
				s := under(at).(*types.Struct)
				i := fieldNamed(s, name)
				return mkLoad(mkFaddr(a, i, s, at), s.Field(i).Type())
			}
			return structField(a, at, name)
		}
		value, text := part("Value"), part("Text")
		rv := structField(v, vt, "Value")
		for _, o := range outs {
			if !check(o.Kind == "ret", "an annotator panics with %s", describe(o.PVal)) {
				continue
			}
			ls := lits(o.St.lits)
			same, known := false, false
			for x, w := range ls {
				if x.Op != "eq" {
					continue
				}
				for k := 0; k < 2; k++ {
					m, n := x.Args[k], x.Args[1-k]
					if as := pureNamed(m, "reflect.TypeOf"); len(as) == 1 && stripIface(as[0]) == value {
						if as := pureNamed(n, "(reflect.Value).Type"); len(as) == 1 && as[0] == rv || n == structField(v, vt, "DynamicType") {
							same, known = w, true
						}
					}
				}
			}
			eq, compared := r.equalByDefault(ls, value, mk("pure", "(reflect.Value).Interface", nil, rv))
			switch got := o.Vals[0]; got {
			case text:
				check(known && same, "an annotation is shown for a value of another type")
				check(compared && eq, "an annotation is shown for a value that is not equal to the annotated one")
			case mkStr(""):
				check(known && !same || compared && !eq, "an annotation is not shown for a value that is equal to the annotated one")
			default:
				check(false, "an annotator gives the text %s", describe(got))
			}
		}
		if a.Op == "iaddr" {
			return mk("index", "", at, a.Args...)
		}
		return a
	}
}
