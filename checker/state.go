package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An Event is something observable that happens along a path.
type Event struct {
	Kind   string // call, notify, loop, store, mapset, mapdel, send, recv, close, go, sort, recover
	Name   string // qualified name of the callee
	Method string // bare name of the callee
	Recv   *Term
	Args   []*Term
	Res    []*Term
	Callee *ssa.Function // static callee, if any
	MFunc  *types.Func   // method, for interface calls
	Addr   *Term         // for stores
	Val    *Term
	Loop   *Loop
	G      int  // goroutine
	Defer  bool // performed by a deferred call
	Panics bool // the call terminated by panicking
	Local  bool // the observer is analysed itself
	Unwind bool // happens while a panic is unwinding
	Site   string
	Pos    token.Pos
	In     *ssa.Function
	Depth  int
}

type evNode struct {
	prev *evNode
	ev   *Event
	n    int
}

// A Loop is the summary of a loop: what one arbitrary iteration may do.
type Loop struct {
	ID     string
	Fn     *ssa.Function
	Pos    token.Pos
	Init   map[*Term]*Term // mu -> value on entry
	Iters  []*Iter         // iterations that go around again
	Iter   *Term           // the iteration counter
	Rev    bool            // executes in reverse order (deferred calls)
	Client *Client         // set for the uses of a scope by user code
}

// An Iter is one way through the body of a loop.
type Iter struct {
	Events []*Event
	Lits   map[*Term]bool
	Next   map[*Term]*Term // mu -> value at the end of the iteration
	Use    *Use            // set for the uses of a scope
}

// State is the abstract state on one path.
type State struct {
	heap  map[*Term]*Term
	lits  map[*Term]bool
	evs   *evNode
	epoch map[string]string
	objs  map[*Term]bool // allocated objects
	pan   *Term          // panic being unwound
	g     int
	ghost map[string]string
	repl  []replaced
	// leaked holds the objects that code which is not analysed may refer to
	leaked map[*Term]bool
}

// leak records that values become known to code that is not analysed.
func (st *State) leak(ts ...*Term) {
	var found []*Term
	for _, t := range ts {
		if t == nil {
			continue
		}
		t.contains(func(x *Term) bool {
			if x.Op == "obj" && !st.leaked[x] {
				st.leaked[x] = true
				found = append(found, x)
			}
			return false
		})
	}
	if len(found) == 0 {
		return
	}
	var next []*Term
	for c, v := range st.heap {
		r := root(c)
		for _, o := range found {
			if r == o {
				next = append(next, v)
			}
		}
	}
	st.leak(next...)
}

// local reports whether an address is only known to the analysed code.
func (st *State) local(a *Term) bool {
	r := root(a)
	return r.Op == "obj" && !st.leaked[r]
}

// written reports whether elements of a slice have been stored.
func (st *State) written(s *Term) bool {
	for c := range st.heap {
		if c.Op == "iaddr" && c.Args[0] == s {
			return true
		}
	}
	return false
}

// filled is what a newly made slice consists of after all elements of x are
// copied to a part of it that leaves room only for a known number of elements.
func (st *State) filled(d, x *Term, site string) (base, t *Term) {
	base = d
	before := int64(0)
	if d.Op == "slice" && len(d.Args) == 3 && d.Args[2].Op == "nil" {
		n, ok := constInt(d.Args[1])
		if !ok {
			return nil, nil
		}
		base, before = d.Args[0], n
	}
	if base.Op != "made" || before > 8 || !types.Identical(under(base.Typ), under(x.Typ)) {
		return nil, nil
	}
	room := linOf(subTerms(subTerms(base.Args[0], mkInt(before)), mkLen(x)))
	if !room.isConst() || room.c < 0 || room.c > 8 {
		return nil, nil
	}
	zero := zeroTerm(under(base.Typ).(*types.Slice).Elem())
	first := make([]*Term, before)
	for i := range first {
		first[i] = zero
	}
	for c, v := range st.heap {
		if c.Op != "iaddr" || c.Args[0] != base {
			continue
		}
		n, ok := constInt(c.Args[1])
		if !ok || n < 0 || n >= before {
			return nil, nil
		}
		first[n] = v
	}
	for c := range st.heap {
		if c.Op == "iaddr" && c.Args[0] == base {
			delete(st.heap, c)
		}
	}
	t = cloneTerm(x)
	if before > 0 {
		t = mkAppend(mk("seq", "", base.Typ, first...), t)
	}
	if room.c > 0 {
		last := make([]*Term, room.c)
		for i := range last {
			last[i] = zero
		}
		t = mkAppend(t, mk("seq", "room:"+site, base.Typ, last...))
	}
	return base, t
}

// placed is what such a slice consists of after an element is put into the
// room that was left.
func (st *State) placed(a, v *Term) (base, t *Term) {
	if a.Op != "iaddr" || a.Args[0].Op != "append" {
		return nil, nil
	}
	base = a.Args[0]
	for _, x := range st.repl {
		if x.from == base {
			base = x.to
		}
	}
	if base.Op != "append" {
		return nil, nil
	}
	room := base.Args[1]
	if room.Op != "seq" || !strings.HasPrefix(room.Aux, "room:") {
		return nil, nil
	}
	n := linOf(subTerms(a.Args[1], mkLen(base.Args[0])))
	if !n.isConst() || n.c < 0 || n.c >= int64(len(room.Args)) {
		return nil, nil
	}
	es := append([]*Term(nil), room.Args...)
	es[n.c] = v
	return base, mkAppend(base.Args[0], mk("seq", room.Aux, room.Typ, es...))
}

// replaced records that a slice was modified in place.
type replaced struct{ from, to *Term }

// replace puts the new contents of a slice wherever it is held.
func (st *State) replace(fr *Frame, from, to *Term) {
	for c, v := range st.heap {
		if v == from {
			st.heap[c] = to
		}
	}
	if from.Op == "ld" {
		if _, ok := st.heap[from.Args[0]]; !ok {
			st.heap[from.Args[0]] = to
		}
	}
	st.repl = append(st.repl[:len(st.repl):len(st.repl)], replaced{from, to})
	st.refresh(fr, len(st.repl)-1)
}

// refresh updates the values held in a frame's registers.
func (st *State) refresh(fr *Frame, since int) {
	for _, x := range st.repl[since:] {
		for r, v := range fr.env {
			if v == x.from {
				fr.env[r] = x.to
			}
		}
	}
}

func newState() *State {
	return &State{
		heap:  map[*Term]*Term{},
		lits:  map[*Term]bool{},
		epoch: map[string]string{},
		objs:  map[*Term]bool{},
		ghost: map[string]string{},

		leaked: map[*Term]bool{},
	}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	c := *st
	c.heap = cloneMap(st.heap)
	c.lits = cloneMap(st.lits)
	c.epoch = cloneMap(st.epoch)
	c.objs = cloneMap(st.objs)
	c.ghost = cloneMap(st.ghost)
	c.leaked = cloneMap(st.leaked)
	return &c
}

func (st *State) emit(ev *Event) {
	ev.G = st.g
	ev.Unwind = ev.Unwind || st.pan != nil
	n := 1
	if st.evs != nil {
		n = st.evs.n + 1
	}
	st.evs = &evNode{st.evs, ev, n}
}

func (st *State) events() []*Event {
	var n int
	if st.evs != nil {
		n = st.evs.n
	}
	r := make([]*Event, n)
	for e := st.evs; e != nil; e = e.prev {
		n--
		r[n] = e.ev
	}
	return r
}

// ---------------------------------------------------------------------------
// Literals.

// decide reports the truth of a condition, if the path determines it.
func (st *State) decide(a *Term) (val, known bool) {
	switch {
	case a == tTrue:
		return true, true
	case a == tFalse:
		return false, true
	case a.Op == "not":
		v, k := st.decide(a.Args[0])
		return !v, k
	}
	if v, ok := st.lits[a]; ok {
		return v, true
	}
	switch a.Op {
	case "eq":
		x, y := a.Args[0], a.Args[1]
		if x.Op == "nil" {
			if y.Op == "errs" {
				v0, k0 := st.decide(mkEq(tNil, y.Args[0], nil))
				v1, k1 := st.decide(mkEq(tNil, y.Args[1], nil))
				if (k0 && !v0) || (k1 && !v1) {
					return false, true
				}
				if k0 && k1 {
					return true, true
				}
				return false, false
			}
			if y.Op == "lookup" {
				if v, known := st.decide(mkHas(y.Args[0], y.Args[1])); known && !v {
					return true, true
				}
			}
			// a map with an entry is not nil
			for l, v := range st.lits {
				if v && l.Op == "has" && l.Args[0].Op == "mapinit" && l.Args[0].Args[0] == y {
					return false, true
				}
			}
			// a value known to have some dynamic type, or to equal something
			// that is not nil, is not nil
			for l, v := range st.lits {
				if v && l.Op == "isT" && l.Args[0] == y {
					return false, true
				}
				if v && l.Op == "eq" && (l.Args[0] == y && nonNil(l.Args[1]) || l.Args[1] == y && nonNil(l.Args[0])) {
					return false, true
				}
			}
			return false, false
		}
		for l, v := range st.lits {
			if l.Op != "eq" || !v {
				continue
			}
			// x == p (known) and p, y both constants that differ
			for i := 0; i < 2; i++ {
				p, q := l.Args[i], l.Args[1-i]
				for j := 0; j < 2; j++ {
					s, u := a.Args[j], a.Args[1-j]
					if p == s && distinct(q, u) {
						return false, true
					}
				}
			}
		}
	case "isT":
		x := a.Args[0]
		if v, k := st.lits[mkEq(tNil, x, nil)]; k && v {
			return false, true
		}
		for l, v := range st.lits {
			if l.Op != "isT" || l.Args[0] != x || !v {
				continue
			}
			if exclusiveTypes(l.TAux, a.TAux) {
				return false, true
			}
			if it, ok := under(a.TAux).(*types.Interface); ok && types.Implements(l.TAux, it) {
				return true, true
			}
		}
	case "gt0", "eq0":
		return st.decideLin(a)
	case "has":
		return decideHas(st, a)
	}
	return false, false
}

func decideHas(st *State, a *Term) (bool, bool) {
	m, k := a.Args[0], a.Args[1]
	switch m.Op {
	case "nil", "mapempty":
		return false, true
	case "mapinit":
		if v, known := st.lits[mkEq(tNil, m.Args[0], nil)]; known && v {
			return false, true
		}
	case "mapset":
		if m.Args[1] == k {
			return true, true
		}
		if e, known := st.decide(mkEq(m.Args[1], k, k.Typ)); known {
			if e {
				return true, true
			}
			return st.decide(mkHas(m.Args[0], k))
		}
		if v, known := st.decide(mkHas(m.Args[0], k)); known && v {
			return true, true
		}
	case "mapdel":
		if m.Args[1] == k {
			return false, true
		}
		if v, known := st.decide(mkHas(m.Args[0], k)); known && !v {
			return false, true
		}
		if e, known := st.decide(mkEq(m.Args[1], k, k.Typ)); known && !e {
			return st.decide(mkHas(m.Args[0], k))
		}
	}
	return false, false
}

func mkHas(m, k *Term) *Term {
	if m.Op == "nil" || m.Op == "mapempty" {
		return tFalse
	}
	if m.Op == "mapset" && m.Args[1] == k {
		return tTrue
	}
	return mk("has", "", types.Typ[types.Bool], m, k)
}

func distinct(a, b *Term) bool {
	return mkEq(a, b, nil) == tFalse
}

// decideLin decides an integer comparison from the bounds the path implies.
func (st *State) decideLin(a *Term) (bool, bool) {
	l := linOf(a.Args[0])
	const inf = int64(1) << 60
	lo, hi := -inf, inf // bounds on l minus its constant part
	same := func(m lin) (int64, bool) {
		if len(m.m) != len(l.m) {
			return 0, false
		}
		k := int64(0)
		for t, n := range l.m {
			x := m.m[t]
			if x == n && k >= 0 {
				k = 1
			} else if x == -n && k <= 0 {
				k = -1
			} else {
				return 0, false
			}
		}
		return k, true
	}
	if len(l.m) == 1 {
		for t, n := range l.m {
			if t.Op == "len" && n == 1 && t.Args[0].Op == "pure" && strings.HasPrefix(t.Args[0].Aux, "strconv.Format") {
				lo = 1
			} else if nonNegative(t) && n == 1 {
				lo = 0
			} else if nonNegative(t) && n == -1 {
				hi = 0
			}
		}
	}
	ne := map[int64]bool{}
	for x, v := range st.lits {
		if x.Op != "gt0" && x.Op != "eq0" {
			continue
		}
		m := linOf(x.Args[0])
		k, ok := same(m)
		if !ok {
			continue
		}
		// m = k*L + m.c, where L is the variable part of l
		switch {
		case x.Op == "eq0" && v:
			e := -m.c * k
			lo, hi = max(lo, e), min(hi, e)
		case x.Op == "eq0" && !v:
			ne[-m.c*k] = true
		default:
			// v: k*L > -m.c   ;  !v: k*L <= -m.c
			if (k == 1) == v {
				if v {
					lo = max(lo, 1-m.c)
				} else {
					lo = max(lo, m.c) // -L <= -m.c
				}
			} else {
				if v {
					hi = min(hi, m.c-1) // -L > -m.c
				} else {
					hi = min(hi, -m.c)
				}
			}
		}
	}
	for ne[lo] {
		lo++
	}
	for ne[hi] {
		hi--
	}
	if a.Op == "gt0" {
		if lo+l.c > 0 && lo > -inf {
			return true, true
		}
		if hi+l.c <= 0 && hi < inf {
			return false, true
		}
		if st.atLeast(l, 1) {
			return true, true
		}
		if st.atLeast(l.scale(-1), 0) {
			return false, true
		}
		return false, false
	}
	if lo == hi && lo+l.c == 0 {
		return true, true
	}
	if (lo > -inf && lo+l.c > 0) || (hi < inf && hi+l.c < 0) || ne[-l.c] {
		return false, true
	}
	if st.atLeast(l, 1) || st.atLeast(l.scale(-1), 1) {
		return false, true
	}
	return false, false
}

// atLeast reports whether l >= n follows from one known comparison together
// with the fact that lengths and iteration counts are not negative.
func (st *State) atLeast(l lin, n int64) bool {
	follows := func(e lin) bool { // l - n - e >= 0, given e >= 0
		d := l.plus(e, -1)
		if d.c < n {
			return false
		}
		for t, k := range d.m {
			if k < 0 || !nonNegative(t) {
				return false
			}
		}
		return true
	}
	if follows(lin{}) {
		return true
	}
	for x, v := range st.lits {
		if x.Op != "gt0" && (x.Op != "eq0" || !v) {
			continue
		}
		m := linOf(x.Args[0])
		switch {
		case x.Op == "gt0" && v:
			if follows(m.plus(lin{c: -1}, 1)) {
				return true
			}
		case x.Op == "gt0":
			if follows(m.scale(-1)) {
				return true
			}
		default:
			if follows(m) || follows(m.scale(-1)) {
				return true
			}
		}
	}
	return false
}

// assume records a condition; it returns false if the path is infeasible.
func (st *State) assume(a *Term, v bool) bool {
	for a.Op == "not" {
		a, v = a.Args[0], !v
	}
	if x, known := st.decide(a); known {
		return x == v
	}
	st.lits[a] = v
	if !v && a.Op == "eq" && a.Args[0].Op == "nil" && a.Args[1].Op == "lookup" {
		// what a map does not have is nil
		return st.assume(mkHas(a.Args[1].Args[0], a.Args[1].Args[1]), true)
	}
	return true
}

// split forks a state on a condition.
func (st *State) split(c *Term) (yes, no []*State) {
	if v, known := st.decide(c); known {
		if v {
			return []*State{st}, nil
		}
		return nil, []*State{st}
	}
	neg := false
	for c.Op == "not" {
		c, neg = c.Args[0], !neg
	}
	// nil-ness of a combination of errors
	if c.Op == "eq" && c.Args[0].Op == "nil" && c.Args[1].Op == "errs" {
		e := c.Args[1]
		y0, n0 := st.split(mkEq(tNil, e.Args[0], nil))
		var y, n []*State
		n = append(n, n0...)
		for _, s := range y0 {
			y1, n1 := s.split(mkEq(tNil, e.Args[1], nil))
			y, n = append(y, y1...), append(n, n1...)
		}
		if neg {
			return n, y
		}
		return y, n
	}
	a, b := st.clone(), st.clone()
	if a.assume(c, true) {
		yes = append(yes, a)
	}
	if b.assume(c, false) {
		no = append(no, b)
	}
	if neg {
		return no, yes
	}
	return yes, no
}

// ---------------------------------------------------------------------------
// Memory.

// root returns the object an address is part of.
func root(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" || a.Op == "mapcell" || a.Op == "chancell" || a.Op == "chanclosed" || a.Op == "textcell" {
		a = a.Args[0]
	}
	return a
}

func fieldKey(owner types.Type, idx int) string {
	if idx >= firstNested {
		f := nestedFields[idx-firstNested]
		n := len(f.path) - 1
		return fieldKey(f.owners[n], f.path[n])
	}
	return strings.TrimLeft(typeKey(owner), "*") + "#" + itoa(idx)
}

func (st *State) load(addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if s, ok := splitStruct(typ); ok {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = st.load(mkFaddr(addr, i, s, typ), s.Field(i).Type())
		}
		return mkStruct(typ, args)
	}
	if a := smallArray(typ); a != nil && root(addr).Op == "obj" {
		args := make([]*Term, a.Len())
		for i := range args {
			args[i] = st.load(mkIaddr(addr, mkInt(int64(i)), types.NewPointer(a.Elem())), a.Elem())
		}
		return mk("seq", "", typ, args...)
	}
	if addr.Op == "faddr" {
		for b, path := addr.Args[0], []*Term{addr}; ; {
			if v, ok := st.heap[b]; ok {
				for i := len(path) - 1; i >= 0; i-- {
					var ft types.Type
					if p, ok := under(path[i].Typ).(*types.Pointer); ok {
						ft = p.Elem()
					}
					v = mkField(v, path[i].Idx, ft)
				}
				return v
			}
			if b.Op == "iaddr" {
				if v := st.element(b.Args[0], b.Args[1]); v != nil {
					for i := len(path) - 1; i >= 0; i-- {
						v = mkField(v, path[i].Idx, deref(path[i].Typ))
					}
					return v
				}
			}
			if b.Op != "faddr" {
				break
			}
			path = append(path, b)
			b = b.Args[0]
		}
	}
	if addr.Op == "iaddr" {
		base, idx := addr.Args[0], addr.Args[1]
		// another element may have been overwritten
		for c, v := range st.heap {
			if c.Op == "iaddr" && c.Args[0] == base {
				if e, known := st.decide(mkEq(c.Args[1], idx, types.Typ[types.Int])); known {
					if e {
						return v
					}
					continue
				}
				return mk("hav", "elem", typ, addr)
			}
		}
		if base.Op == "seq" {
			if n := linOf(idx); n.isConst() && n.c >= 0 && n.c < int64(len(base.Args)) {
				return base.Args[n.c]
			}
		}
		if base.Op == "append" {
			// an element of the second operand
			if n := linOf(subTerms(idx, mkLen(base.Args[0]))); n.isConst() && n.c >= 0 {
				return st.load(mkIaddr(base.Args[1], mkInt(n.c), addr.Typ), typ)
			}
			if v, known := st.decide(mkGt0(linOf(mkLen(base.Args[0])).plus(linOf(idx), -1))); known && v {
				return st.load(mkIaddr(base.Args[0], idx, addr.Typ), typ)
			}
		}
		if base.Op == "clone" {
			return st.load(mkIaddr(base.Args[0], idx, addr.Typ), typ)
		}
		if st.objs[root(base)] && base.Op == "obj" {
			return zeroTerm(typ)
		}
		if base.Op == "made" {
			return zeroTerm(typ)
		}
	}
	if st.objs[root(addr)] && root(addr).Op == "obj" {
		return zeroTerm(typ)
	}
	if addr.Op == "faddr" && addr.TAux != nil {
		if e := st.epoch[fieldKey(deref(addr.TAux), addr.Idx)]; e != "" {
			return mk("hav", e, typ, addr)
		}
	}
	return mkLoad(addr, typ)
}

// smallArray is the type of an array whose elements are followed one by one.
func smallArray(t types.Type) *types.Array {
	if a, ok := under(t).(*types.Array); ok && a.Len() <= 16 {
		return a
	}
	return nil
}

// element is an element of a list that is written out, no part of which has
// been overwritten.
func (st *State) element(base, idx *Term) *Term {
	for c := range st.heap {
		for c.Op == "faddr" {
			c = c.Args[0]
		}
		if c.Op == "iaddr" && c.Args[0] == base {
			return nil
		}
	}
	switch base.Op {
	case "seq":
		if n := linOf(idx); n.isConst() && n.c >= 0 && n.c < int64(len(base.Args)) {
			return base.Args[n.c]
		}
	case "append":
		if n := linOf(subTerms(idx, mkLen(base.Args[0]))); n.isConst() && n.c >= 0 {
			return st.element(base.Args[1], mkInt(n.c))
		}
	case "clone":
		return st.element(base.Args[0], idx)
	}
	return nil
}

func (st *State) store(addr, v *Term, typ types.Type) {
	if s, ok := splitStruct(typ); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			st.store(mkFaddr(addr, i, s, typ), mkField(v, i, ft), ft)
		}
		return
	}
	if a := smallArray(typ); a != nil && root(addr).Op == "obj" {
		for i := int64(0); i < a.Len(); i++ {
			e := mk("index", "", a.Elem(), v, mkInt(i))
			switch {
			case v.Op == "seq" && int(i) < len(v.Args):
				e = v.Args[i]
			case v.Op == "zero":
				e = zeroTerm(a.Elem())
			}
			st.store(mkIaddr(addr, mkInt(i), types.NewPointer(a.Elem())), e, a.Elem())
		}
		return
	}
	// storing into part of a value tracked as a whole
	if addr.Op == "faddr" {
		if w, ok := st.heap[addr.Args[0]]; ok {
			if s, ok := under(w.Typ).(*types.Struct); ok {
				delete(st.heap, addr.Args[0])
				for i := 0; i < s.NumFields(); i++ {
					ft := s.Field(i).Type()
					st.heap[mkFaddr(addr.Args[0], i, s, w.Typ)] = mkField(w, i, ft)
				}
			}
		}
	} else if s, ok := under(typ).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			delete(st.heap, mkFaddr(addr, i, s, typ))
		}
	}
	st.heap[addr] = v
	if !st.local(addr) {
		st.leak(v)
	}
}

func (st *State) alloc(o *Term) {
	st.objs[o] = true
	for c := range st.heap {
		if root(c) == o {
			delete(st.heap, c)
		}
	}
}

// mapState returns the contents of the map that ref refers to.
func (st *State) mapState(ref *Term) *Term {
	if ref.Op == "nil" {
		return mk("mapempty", "", nil)
	}
	c := mk("mapcell", "", nil, ref)
	if v, ok := st.heap[c]; ok {
		return v
	}
	if ref.Op == "obj" {
		return mk("mapempty", "", nil)
	}
	if ref.Op == "ld" && ref.Args[0].Op == "faddr" && ref.Args[0].TAux != nil {
		if e := st.epoch["map:"+fieldKey(deref(ref.Args[0].TAux), ref.Args[0].Idx)]; e != "" {
			return mk("hav", e, nil, c)
		}
	}
	return mk("mapinit", "", nil, ref)
}

func (st *State) setMapState(ref, v *Term) {
	c := mk("mapcell", "", nil, ref)
	st.heap[c] = v
	if !st.local(c) {
		st.leak(v)
	}
}

func (st *State) lookup(m, k *Term, typ types.Type) *Term {
	switch m.Op {
	case "nil", "mapempty":
		return zeroTerm(typ)
	case "mapset":
		if m.Args[1] == k {
			return m.Args[2]
		}
		if e, known := st.decide(mkEq(m.Args[1], k, k.Typ)); known {
			if e {
				return m.Args[2]
			}
			return st.lookup(m.Args[0], k, typ)
		}
	case "mapdel":
		if m.Args[1] == k {
			return zeroTerm(typ)
		}
		if e, known := st.decide(mkEq(m.Args[1], k, k.Typ)); known && !e {
			return st.lookup(m.Args[0], k, typ)
		}
	}
	if v, known := st.decide(mkHas(m, k)); known && !v {
		return zeroTerm(typ)
	}
	return mk("lookup", "", typ, m, k)
}

func constInt(t *Term) (int64, bool) {
	if t.Op == "const" && t.Const.Kind() == constant.Int {
		return constant.Int64Val(t.Const)
	}
	return 0, false
}

func constStr(t *Term) (string, bool) {
	if t.Op == "const" && t.Const.Kind() == constant.String {
		return constant.StringVal(t.Const), true
	}
	return "", false
}
