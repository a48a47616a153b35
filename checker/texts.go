package main

import (
	"go/types"
	"strings"
)

// The text written to a string builder or buffer is a list of pieces.

func textCell(b *Term) *Term { return mk("textcell", "", nil, b) }

func textOf(st *State, b *Term) *Term {
	if t, ok := st.heap[textCell(b)]; ok {
		return t
	}
	if root(b).Op == "obj" {
		return mk("seq", "", nil)
	}
	return mk("ld", "text", nil, textCell(b))
}

// builder is the string builder or buffer that a writer is.
func builder(w *Term) *Term {
	t := w.Typ
	if w.Op == "iface" {
		t, w = w.TAux, w.Args[0]
	}
	if t != nil {
		switch typeKey(deref(t)) {
		case "strings.Builder", "bytes.Buffer":
			return w
		}
	}
	return nil
}

// textModel gives the meaning of functions that write or use texts.
func (it *Interp) textModel(st *State, name string, args []*Term, sig *types.Signature) []*CallOut {
	write := func(b, s *Term) []*CallOut {
		st.heap[textCell(b)] = mkAppend(textOf(st, b), mk("seq", "", nil, s))
		res := sig.Results()
		vals := make([]*Term, res.Len())
		for i := range vals {
			vals[i] = tNil
			if t := res.At(i).Type(); isIntegerType(t) {
				vals[i] = mkLen(s)
			}
		}
		return []*CallOut{{St: st, Vals: vals}}
	}
	switch name {
	case "io.WriteString":
		if b := builder(args[0]); b != nil {
			return write(b, args[1])
		}
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		if b := builder(args[0]); b != nil {
			return write(b, mk("pure", "fmt.S"+strings.TrimPrefix(name, "fmt.F"), types.Typ[types.String], args[1:]...))
		}
	case "fmt.Sprintf":
		// only texts without verbs are used like this
		if _, ok := constStr(args[0]); !ok && len(variadic(args[1])) == 0 {
			return []*CallOut{{St: st, Vals: []*Term{args[0]}}}
		}
	}
	m, ok := strings.CutPrefix(name, "(*strings.Builder).")
	if !ok {
		m, ok = strings.CutPrefix(name, "(*bytes.Buffer).")
	}
	if !ok || len(args) == 0 {
		return nil
	}
	switch b := args[0]; m {
	case "WriteString", "Write", "WriteByte", "WriteRune":
		return write(b, args[1])
	case "Grow":
		return []*CallOut{{St: st}}
	case "Reset":
		st.heap[textCell(b)] = mk("seq", "", nil)
		return []*CallOut{{St: st}}
	case "String":
		return []*CallOut{{St: st, Vals: []*Term{mk("text", "", types.Typ[types.String], textOf(st, b))}}}
	case "Bytes":
		return []*CallOut{{St: st, Vals: []*Term{mk("text", "", sig.Results().At(0).Type(), textOf(st, b))}}}
	case "Len":
		return []*CallOut{{St: st, Vals: []*Term{mkLen(mk("text", "", types.Typ[types.String], textOf(st, b)))}}}
	}
	return nil
}

// A token is a constant part of a text, or some value that occurs in it.
type textToken struct {
	lit bool
	s   string
	t   *Term
}

// tokens are what a text consists of. Values that are not shown as they are
// occur as the term that alters them.
func tokens(t *Term) []textToken {
	if s, ok := constStr(t); ok {
		return []textToken{{lit: true, s: s}}
	}
	all := func(ts []*Term) (r []textToken) {
		for _, x := range ts {
			r = append(r, tokens(x)...)
		}
		return r
	}
	switch t.Op {
	case "text", "seq", "append", "cat", "clone", "struct":
		return all(t.Args)
	case "iface", "conv":
		return tokens(t.Args[0])
	case "nil":
		return nil
	case "pure":
		switch t.Aux {
		case "fmt.Sprint", "fmt.Sprintln":
			return all(t.Args)
		case "strconv.Itoa":
			return tokens(t.Args[0])
		case "strings.Join":
			var r []textToken
			for i, x := range variadic(t.Args[0]) {
				if i > 0 {
					r = append(r, tokens(t.Args[1])...)
				}
				r = append(r, tokens(x)...)
			}
			return r
		case "fmt.Sprintf":
			args := variadic(t.Args[1])
			f, ok := constStr(t.Args[0])
			if !ok {
				if len(args) == 0 {
					return tokens(t.Args[0])
				}
				break
			}
			return formatted(f, args)
		}
	}
	return []textToken{{t: t}}
}

// formatted are the tokens of a formatted text.
func formatted(f string, args []*Term) (r []textToken) {
	lit := ""
	flush := func() {
		if lit != "" {
			r = append(r, textToken{lit: true, s: lit})
		}
		lit = ""
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		flush()
		if len(args) == 0 {
			return append(r, textToken{lit: true, s: "%!"})
		}
		flags := f[i+1 : j]
		if (f[j] == 's' || f[j] == 'v' || f[j] == 'd' || f[j] == 'q') && !strings.ContainsAny(flags, ".*[]#") {
			r = append(r, tokens(args[0])...)
		} else {
			r = append(r, textToken{t: mk("fmt", f[i:j+1], nil, args[0])})
		}
		args = args[1:]
		i = j
	}
	flush()
	return r
}
