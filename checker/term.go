package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Term is an abstract value, identified by its provenance. Terms are
// hash-consed, so that two values with the same provenance are the same
// pointer.
type Term struct {
	ID   int
	Op   string
	Args []*Term
	Aux  string

	Typ   types.Type     // static type, when known
	TAux  types.Type     // type operand (iface, isT, conv, zero, struct)
	Const constant.Value // for "const"
	Fn    *ssa.Function  // for "func" and "closure"
	Idx   int            // field or result index
	Pos   token.Pos      // where it was made, for reports
}

var (
	termTable = map[string]*Term{}
	typeKeys  = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	n := t
	if _, ok := types.Unalias(t).(*types.Named); ok {
		n = types.Unalias(t)
	}
	k := types.TypeString(n, nil)
	typeKeys[t] = k
	return k
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := termTable[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(termTable) + 1, Op: op, Aux: aux, Typ: typ, Args: args}
	termTable[k] = t
	return t
}

var (
	tNil   = mk("nil", "", nil)
	tTrue  = mkConst(constant.MakeBool(true), types.Typ[types.Bool])
	tFalse = mkConst(constant.MakeBool(false), types.Typ[types.Bool])
)

func mkConst(v constant.Value, typ types.Type) *Term {
	t := mk("const", fmt.Sprintf("%d:%s", v.Kind(), v.ExactString()), typ)
	t.Const = v
	return t
}

func mkInt(n int64) *Term  { return mkConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkFunc(fn *ssa.Function) *Term {
	t := mk("func", fmt.Sprintf("%s@%p", fn.String(), fn), fn.Signature)
	t.Fn = fn
	return t
}

func mkClosure(fn *ssa.Function, binds []*Term) *Term {
	if len(binds) == 0 {
		return mkFunc(fn)
	}
	t := mk("closure", fmt.Sprintf("%s@%p", fn.String(), fn), fn.Signature, binds...)
	t.Fn = fn
	return t
}

func mkFaddr(base *Term, idx int, st *types.Struct, owner types.Type) *Term {
	if idx >= firstNested {
		return nestedFields[idx-firstNested].at(base)
	}
	name := strconv.Itoa(idx)
	var ft types.Type
	if st != nil && idx < st.NumFields() {
		name = st.Field(idx).Name()
		ft = types.NewPointer(st.Field(idx).Type())
	}
	t := mk("faddr", strconv.Itoa(idx)+":"+name, ft, base)
	t.Idx = idx
	if owner != nil {
		t.TAux = owner
	}
	return t
}

func mkIaddr(base, idx *Term, typ types.Type) *Term {
	// normalise through re-slicing
	for base.Op == "slice" {
		lo := base.Args[1]
		if lo.Op != "nil" {
			idx = addTerms(idx, lo)
		}
		base = base.Args[0]
	}
	return mk("iaddr", "", typ, base, idx)
}

func mkField(v *Term, idx int, typ types.Type) *Term {
	switch v.Op {
	case "struct":
		if idx < len(v.Args) {
			return v.Args[idx]
		}
	case "ld":
		if st, ok := under(v.Typ).(*types.Struct); ok {
			a := mkFaddr(v.Args[0], idx, st, v.Typ)
			return mkLoad(a, typ)
		}
	case "zero":
		if typ != nil {
			return zeroTerm(typ)
		}
	}
	name := strconv.Itoa(idx)
	if st, ok := under(v.Typ).(*types.Struct); ok && idx < st.NumFields() {
		name += ":" + st.Field(idx).Name()
	}
	t := mk("field", name, typ, v)
	t.Idx = idx
	return t
}

func mkLoad(addr *Term, typ types.Type) *Term {
	if addr.Op == "iaddr" {
		return mk("index", "", typ, addr.Args...)
	}
	return mk("ld", "", typ, addr)
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// modulePath is the path of the module under analysis.
var modulePath = "github.com/dogmatiq/testkit"

func inModulePath(p string) bool {
	return p == modulePath || strings.HasPrefix(p, modulePath+"/")
}

// splitStruct reports whether values of type t are tracked field by field.
func splitStruct(t types.Type) (*types.Struct, bool) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		if p == nil || !inModulePath(p.Path()) {
			return nil, false
		}
	}
	return st, true
}

func zeroTerm(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkConst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.ToFloat(constant.MakeInt64(0)), t)
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return tNil
	case *types.Struct:
		if st, ok := splitStruct(t); ok {
			args := make([]*Term, st.NumFields())
			for i := range args {
				args[i] = zeroTerm(st.Field(i).Type())
			}
			return mkStruct(t, args)
		}
	}
	z := mk("zero", typeKey(t), t)
	z.TAux = t
	return z
}

func mkStruct(t types.Type, args []*Term) *Term {
	// re-assembling every field of one value is that value
	if len(args) > 0 {
		var whole *Term
		same := true
		for i, a := range args {
			if a.Op != "field" || a.Idx != i || (whole != nil && a.Args[0] != whole) {
				same = false
				break
			}
			whole = a.Args[0]
		}
		if same && whole != nil && whole.Typ != nil && sameFields(whole.Typ, t) {
			return whole
		}
		same, whole = true, nil
		for i, a := range args {
			if a.Op != "ld" || a.Args[0].Op != "faddr" || a.Args[0].Idx != i || a.Args[0].TAux == nil ||
				typeKey(deref(a.Args[0].TAux)) != typeKey(t) || (whole != nil && a.Args[0].Args[0] != whole) {
				same = false
				break
			}
			whole = a.Args[0].Args[0]
		}
		if same && whole != nil {
			return mk("ld", "", t, whole)
		}
	}
	s := mk("struct", typeKey(t), t, args...)
	s.TAux = t
	return s
}

// sameFields reports whether a value of type a can be converted to b without
// any change to its fields.
func sameFields(a, b types.Type) bool {
	return typeKey(a) == typeKey(b) || types.IdenticalIgnoreTags(a.Underlying(), b.Underlying())
}

func mkIface(t types.Type, v *Term) *Term {
	x := mk("iface", typeKey(t), nil, v)
	x.TAux = t
	return x
}

func mkNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.Op == "not":
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

// ---------------------------------------------------------------------------
// Linear forms over integers and instants.

type lin struct {
	c int64
	m map[*Term]int64
}

func linOf(t *Term) lin {
	if t.Op == "const" && t.Const.Kind() == constant.Int {
		if n, ok := constant.Int64Val(t.Const); ok {
			return lin{c: n}
		}
	}
	if t.Op == "lin" {
		parts := strings.Split(t.Aux, ",")
		c, _ := strconv.ParseInt(parts[0], 10, 64)
		l := lin{c: c, m: map[*Term]int64{}}
		for i, a := range t.Args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.m[a] = k
		}
		return l
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (a lin) plus(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, m: map[*Term]int64{}}
	for t, n := range a.m {
		r.m[t] = n
	}
	for t, n := range b.m {
		r.m[t] += k * n
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (a lin) scale(k int64) lin {
	r := lin{c: a.c * k, m: map[*Term]int64{}}
	for t, n := range a.m {
		if n*k != 0 {
			r.m[t] = n * k
		}
	}
	return r
}

func (a lin) isConst() bool { return len(a.m) == 0 }

func (a lin) sorted() []*Term {
	ts := make([]*Term, 0, len(a.m))
	for t := range a.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func (a lin) term(typ types.Type) *Term {
	ts := a.sorted()
	if len(ts) == 0 {
		return mkConst(constant.MakeInt64(a.c), typ)
	}
	if a.c == 0 && len(ts) == 1 && a.m[ts[0]] == 1 {
		return ts[0]
	}
	var b strings.Builder
	b.WriteString(strconv.FormatInt(a.c, 10))
	for _, t := range ts {
		b.WriteByte(',')
		b.WriteString(strconv.FormatInt(a.m[t], 10))
	}
	return mk("lin", b.String(), typ, ts...)
}

func addTerms(a, b *Term) *Term { return linOf(a).plus(linOf(b), 1).term(a.Typ) }
func subTerms(a, b *Term) *Term { return linOf(a).plus(linOf(b), -1).term(a.Typ) }

// mkGt0 returns the atom "l > 0" (possibly negated into canonical form).
func mkGt0(l lin) *Term {
	if l.isConst() {
		return mkBool(l.c > 0)
	}
	ts := l.sorted()
	// a single non-negative quantity: l = k*t + c
	if len(ts) == 1 && nonNegative(ts[0]) {
		t, k := ts[0], l.m[ts[0]]
		if k == 1 && l.c == 0 { // t > 0
			return mkNot(mkEq0(lin{m: map[*Term]int64{t: 1}}))
		}
		if k == 1 && l.c > 0 {
			return tTrue
		}
		if k == -1 && l.c == 1 { // t < 1
			return mkEq0(lin{m: map[*Term]int64{t: 1}})
		}
		if k == -1 && l.c <= 0 {
			return tFalse
		}
	}
	if l.m[ts[0]] < 0 {
		// l > 0  <=>  not (-l >= 0)  <=>  not (1 - l > 0)
		return mkNot(mk("gt0", "", types.Typ[types.Bool], l.scale(-1).plus(lin{c: 1}, 1).term(nil)))
	}
	return mk("gt0", "", types.Typ[types.Bool], l.term(nil))
}

func mkEq0(l lin) *Term {
	if l.isConst() {
		return mkBool(l.c == 0)
	}
	ts := l.sorted()
	if l.m[ts[0]] < 0 {
		l = l.scale(-1)
	}
	if s := stringLen(l); s != nil && l.c == 0 {
		return mkEq(s, mkStr(""), s.Typ)
	}
	if len(ts) == 1 && nonNegative(ts[0]) && l.c > 0 {
		return tFalse
	}
	return mk("eq0", "", types.Typ[types.Bool], l.term(nil))
}

// stringLen returns the string of which l is the length, plus a constant.
func stringLen(l lin) *Term {
	if len(l.m) != 1 {
		return nil
	}
	for t, n := range l.m {
		if t.Op == "len" && t.Aux == "string" && n == 1 {
			return t.Args[0]
		}
	}
	return nil
}

func nonNegative(t *Term) bool { return t.Op == "len" || t.Op == "cap" || t.Op == "iter" }

// ---------------------------------------------------------------------------
// Sequences.

func mkLen(s *Term) *Term {
	switch s.Op {
	case "nil":
		return mkInt(0)
	case "const":
		if s.Const.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(s.Const))))
		}
	case "seq":
		return mkInt(int64(len(s.Args)))
	case "append":
		return addTerms(mkLen(s.Args[0]), mkLen(s.Args[1]))
	case "slice":
		lo, hi := s.Args[1], s.Args[2]
		var h *Term
		if hi.Op == "nil" {
			h = mkLen(s.Args[0])
		} else {
			h = hi
		}
		if lo.Op == "nil" {
			return h
		}
		return subTerms(h, lo)
	case "sorted", "clone":
		return mkLen(s.Args[0])
	case "made":
		return s.Args[0]
	case "conv":
		if len(s.Args) == 1 && isByteStringConv(s) {
			return mkLen(s.Args[0])
		}
	}
	return mk("len", "", types.Typ[types.Int], s)
}

func isByteStringConv(s *Term) bool {
	str := func(t types.Type) bool {
		b, ok := under(t).(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	byt := func(t types.Type) bool {
		sl, ok := under(t).(*types.Slice)
		if !ok {
			return false
		}
		b, ok := under(sl.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	f, t := s.Args[0].Typ, s.TAux
	return (str(f) || byt(f)) && (str(t) || byt(t))
}

func mkAppend(a, b *Term) *Term {
	if b.Op == "nil" || (b.Op == "seq" && len(b.Args) == 0) {
		return a
	}
	if a.Op == "nil" && b.Op == "seq" {
		return b
	}
	if a.Op == "seq" && b.Op == "seq" {
		return mk("seq", "", a.Typ, append(append([]*Term{}, a.Args...), b.Args...)...)
	}
	typ := a.Typ
	if typ == nil {
		typ = b.Typ
	}
	return mk("append", "", typ, a, b)
}

func mkSlice(s, lo, hi *Term, typ types.Type) *Term {
	if lo.Op == "const" && lo.Const.Kind() == constant.Int && constant.Sign(lo.Const) == 0 {
		lo = tNil
	}
	if hi.Op != "nil" && s.Op != "nil" && hi == mkLen(s) {
		hi = tNil
	}
	if lo.Op == "nil" && hi.Op == "nil" {
		return s
	}
	if s.Op == "seq" {
		l, h := int64(0), int64(len(s.Args))
		ok := true
		if lo.Op != "nil" {
			x := linOf(lo)
			ok = ok && x.isConst()
			l = x.c
		}
		if hi.Op != "nil" {
			x := linOf(hi)
			ok = ok && x.isConst()
			h = x.c
		}
		if ok && l >= 0 && l <= h && h <= int64(len(s.Args)) {
			return mk("seq", "", s.Typ, s.Args[l:h]...)
		}
	}
	if s.Op == "slice" && hi.Op == "nil" {
		// s[a:b][c:] == s[a+c:b]
		base, a := s.Args[0], s.Args[1]
		if a.Op == "nil" {
			return mkSlice(base, lo, s.Args[2], typ)
		}
		return mkSlice(base, addTerms(a, lo), s.Args[2], typ)
	}
	return mk("slice", "", typ, s, lo, hi)
}

// ---------------------------------------------------------------------------
// Equality.

func isIntegerType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isTimeType(t types.Type) bool {
	return t != nil && typeKey(t) == "time.Time"
}

// nonNil reports whether t is certainly not nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "obj", "iface", "closure", "func", "global", "faddr", "iaddr", "wrap", "upanic", "newerr", "mapobj", "seqobj", "struct", "const", "rtpanic":
		return true
	case "seq":
		return len(t.Args) > 0
	case "append":
		return nonNil(t.Args[1]) || nonNil(t.Args[0])
	case "errs":
		return nonNil(t.Args[0]) || nonNil(t.Args[1])
	case "made":
		return true
	}
	return false
}

// nonEmpty recognises texts that cannot be empty.
func nonEmpty(t *Term) bool {
	if s, ok := constStr(t); ok {
		return s != ""
	}
	switch t.Op {
	case "cat":
		return nonEmpty(t.Args[0]) || nonEmpty(t.Args[1])
	case "conv":
		return nonEmpty(t.Args[0])
	case "pure":
		if t.Aux == "fmt.Sprintf" {
			f, ok := constStr(t.Args[0])
			if !ok {
				return nonEmpty(t.Args[0])
			}
			// anything but verbs without a width
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					return true
				}
				for i++; i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0; i++ {
				}
				if i < len(f) && '1' <= f[i] && f[i] <= '9' {
					return true
				}
			}
		}
	}
	return false
}

func mkEq(a, b *Term, typ types.Type) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "const" && b.Op == "const" {
		if a.Const.Kind() == b.Const.Kind() {
			return mkBool(constant.Compare(a.Const, token.EQL, b.Const))
		}
	}
	if b.Op == "const" && a.Op != "const" {
		a, b = b, a
	}
	if a.Op == "const" {
		switch a.Const.Kind() {
		case constant.Bool:
			if constant.BoolVal(a.Const) {
				return b
			}
			return mkNot(b)
		case constant.String:
			if constant.StringVal(a.Const) == "" {
				if nonEmpty(b) {
					return tFalse
				}
				return mkEq0(linOf(mkLen(b)))
			}
			if b.Op == frameFnOp && strings.HasPrefix(constant.StringVal(a.Const), "runtime.") {
				return tFalse
			}
		case constant.Int:
			if k := kindAtom(a, b); k != nil {
				return k
			}
			return mkEq0(linOf(a).plus(linOf(b), -1))
		}
	}
	if a.Op == "nil" || b.Op == "nil" {
		x := a
		if a.Op == "nil" {
			x = b
		}
		if x.Op == "nil" {
			return tTrue
		}
		if nonNil(x) {
			return tFalse
		}
		return mk("eq", "", types.Typ[types.Bool], tNil, x)
	}
	if isIntegerType(typ) || a.Op == "lin" || b.Op == "lin" {
		return mkEq0(linOf(a).plus(linOf(b), -1))
	}
	if a.Op == "iface" && b.Op == "iface" {
		if !types.Identical(a.TAux, b.TAux) {
			return tFalse
		}
		return mkEq(a.Args[0], b.Args[0], a.TAux)
	}
	// all values of a type without fields are equal
	for _, x := range [][2]*Term{{a, b}, {b, a}} {
		if x[0].Op == "iface" && x[1].Op != "iface" {
			if s, ok := under(x[0].TAux).(*types.Struct); ok && s.NumFields() == 0 {
				return mkIsT(x[1], x[0].TAux)
			}
		}
	}
	// distinct freshly allocated objects
	if a.Op == "obj" && b.Op == "obj" {
		return tFalse
	}
	// distinct new errors
	if newError(a) && (newError(b) || b.Op == "iface") || newError(b) && a.Op == "iface" {
		return tFalse
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func newError(t *Term) bool { return t.Op == "newerr" || t.Op == "wrap" }

// kindAtom turns a comparison of a message's kind with a constant into the
// corresponding type test.
func kindAtom(c, k *Term) *Term {
	if k.Op != "pure" || !strings.HasSuffix(k.Aux, "message.Type).Kind") {
		return nil
	}
	mt := k.Args[0]
	if mt.Op != "pure" || !strings.HasSuffix(mt.Aux, "message.TypeOf") {
		return nil
	}
	n, _ := constant.Int64Val(c.Const)
	for name, typ := range messageKinds {
		if kv, ok := messageKindValues[name]; ok && kv == n {
			return mkIsT(mt.Args[0], typ)
		}
	}
	return nil
}

// messageKinds maps "CommandKind" etc to the Dogma interface types; both maps
// are filled in by the loader.
var (
	messageKinds      = map[string]types.Type{}
	messageKindValues = map[string]int64{}
)

func mkIsT(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		if it, ok := under(t).(*types.Interface); ok {
			return mkBool(types.Implements(x.TAux, it))
		}
		return mkBool(types.Identical(x.TAux, t))
	}
	if x.Op == "nil" {
		return tFalse
	}
	r := mk("isT", typeKey(t), types.Typ[types.Bool], x)
	r.TAux = t
	return r
}

// exclusiveTypes reports whether no value can have dynamic type t and u.
func exclusiveTypes(t, u types.Type) bool {
	if types.Identical(t, u) {
		return false
	}
	ti, tok := under(t).(*types.Interface)
	ui, uok := under(u).(*types.Interface)
	switch {
	case !tok && !uok:
		return true
	case !tok && uok:
		return !types.Implements(t, ui)
	case tok && !uok:
		return !types.Implements(u, ti)
	}
	for i := 0; i < ti.NumMethods(); i++ {
		m := ti.Method(i)
		for j := 0; j < ui.NumMethods(); j++ {
			n := ui.Method(j)
			if m.Id() == n.Id() && !types.Identical(m.Type(), n.Type()) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Printing and searching.

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 7 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d + 1) }
	list := func(ts []*Term) string {
		var ss []string
		for _, a := range ts {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	short := func(s string) string {
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch t.Op {
	case "const":
		return t.Const.String()
	case "nil":
		return "nil"
	case "param":
		return t.Aux
	case "faddr":
		return "&" + arg(0) + "." + t.Aux[strings.IndexByte(t.Aux, ':')+1:]
	case "iaddr":
		return "&" + arg(0) + "[" + arg(1) + "]"
	case "index":
		return arg(0) + "[" + arg(1) + "]"
	case "ld":
		a := t.Args[0]
		if a.Op == "faddr" {
			return a.Args[0].str(d+1) + "." + a.Aux[strings.IndexByte(a.Aux, ':')+1:]
		}
		if a.Op == "global" {
			return short(a.Aux)
		}
		return "*" + arg(0)
	case "field":
		n := t.Aux
		if i := strings.IndexByte(n, ':'); i >= 0 {
			n = n[i+1:]
		}
		return arg(0) + "." + n
	case "lin":
		return "(" + t.Aux + ":" + list(t.Args) + ")"
	case "gt0":
		return "0<" + arg(0)
	case "eq0":
		return arg(0) + "==0"
	case "eq":
		return arg(0) + "==" + arg(1)
	case "not":
		return "!" + arg(0)
	case "isT":
		return arg(0) + " is " + short(t.Aux)
	case "pure":
		return short(t.Aux) + "(" + list(t.Args) + ")"
	case "res":
		return "res[" + short(t.Aux) + "]"
	case "struct", "zero":
		return short(t.Aux) + "{" + list(t.Args) + "}"
	case "iface":
		return arg(0)
	case "func", "closure":
		return "fn:" + t.Fn.Name()
	case "slice":
		lo, hi := "", ""
		if t.Args[1].Op != "nil" {
			lo = arg(1)
		}
		if t.Args[2].Op != "nil" {
			hi = arg(2)
		}
		return arg(0) + "[" + lo + ":" + hi + "]"
	case "seq":
		return "[" + list(t.Args) + "]"
	case "mu", "iter":
		return t.Op + "{" + t.Aux + "}"
	}
	if len(t.Args) == 0 {
		return t.Op + "{" + short(t.Aux) + "}"
	}
	if t.Aux != "" {
		return t.Op + "{" + short(t.Aux) + "}(" + list(t.Args) + ")"
	}
	return t.Op + "(" + list(t.Args) + ")"
}

// contains reports whether any sub-term of t satisfies f.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(*Term) bool
	walk = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// subst replaces from by to throughout t. Only value-level operators that are
// rebuilt structurally are supported.
func subst(t, from, to *Term) *Term {
	if !t.contains(func(x *Term) bool { return x == from }) {
		return t
	}
	memo := map[*Term]*Term{}
	var walk func(*Term) *Term
	walk = func(x *Term) *Term {
		if x == from {
			return to
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		same := true
		for i, a := range x.Args {
			args[i] = walk(a)
			same = same && args[i] == a
		}
		r := x
		if !same {
			r = rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return walk(t)
}

func rebuild(x *Term, args []*Term) *Term {
	switch x.Op {
	case "lin":
		l := linOf(x)
		r := lin{c: l.c, m: map[*Term]int64{}}
		for i, a := range x.Args {
			r = r.plus(linOf(args[i]), l.m[a])
		}
		return r.term(x.Typ)
	case "gt0":
		return mkGt0(linOf(args[0]))
	case "eq0":
		return mkEq0(linOf(args[0]))
	case "eq":
		return mkEq(args[0], args[1], nil)
	case "not":
		return mkNot(args[0])
	case "len":
		if n := mkLen(args[0]); n.Op != "len" || x.Aux == "" {
			return n
		}
		return mk("len", x.Aux, x.Typ, args[0])
	case "append":
		return mkAppend(args[0], args[1])
	case "slice":
		return mkSlice(args[0], args[1], args[2], x.Typ)
	case "field":
		return mkField(args[0], x.Idx, x.Typ)
	case "isT":
		return mkIsT(args[0], x.TAux)
	case "index":
		return mk("index", "", x.Typ, args...)
	}
	n := mk(x.Op, x.Aux, x.Typ, args...)
	n.TAux, n.Fn, n.Idx, n.Const = x.TAux, x.Fn, x.Idx, x.Const
	return n
}
