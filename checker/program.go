package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded module.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // by path, all packages
	Mod   []*packages.Package          // packages of the module
	SSA   *ssa.Program
	loops map[*ssa.Function]map[*ssa.BasicBlock]*natLoop

	names       map[*ssa.Function]string
	inits       map[string]*Term
	messageType types.Type
	modsets     map[string]*modset
	getters     map[*types.Func]bool
	Source      map[*ssa.Function]bool
}

// Load type-checks the module in dir and builds its intermediate form.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if at := sugaredLoops(pkgs); len(at) > 0 {
		cfg.ParseFile = parseDesugared(at)
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
	}
	var errs []string
	p := &Program{Dir: dir, Pkgs: map[string]*packages.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, names: map[*ssa.Function]string{}, modsets: map[string]*modset{}, getters: map[*types.Func]bool{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		p.Pkgs[q.PkgPath] = q
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	for _, q := range pkgs {
		if inModulePath(q.PkgPath) {
			p.Mod = append(p.Mod, q)
		}
	}
	if len(p.Mod) == 0 {
		return nil, fmt.Errorf("no packages of %s in %s", modulePath, dir)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	p.Fset = prog.Fset
	p.findKinds()
	return p, nil
}

func (p *Program) findKinds() {
	m := p.Pkgs["github.com/dogmatiq/enginekit/message"]
	d := p.Pkgs["github.com/dogmatiq/dogma"]
	if m == nil || d == nil {
		return
	}
	for k, n := range map[string]string{"CommandKind": "Command", "EventKind": "Event", "TimeoutKind": "Timeout"} {
		c, ok := m.Types.Scope().Lookup(k).(*types.Const)
		t := d.Types.Scope().Lookup(n)
		if !ok || t == nil {
			continue
		}
		messageKinds[k] = t.Type()
		v, _ := constant.Int64Val(constant.ToInt(c.Val()))
		messageKindValues[k] = v
	}
	if t := m.Types.Scope().Lookup("Type"); t != nil {
		p.messageType = t.Type()
	}
}

// Pos renders a position relative to the module.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, ps.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// nameOf is the qualified name of a function, without type arguments.
func (p *Program) nameOf(fn *ssa.Function) string {
	if n, ok := p.names[fn]; ok {
		return n
	}
	n := fn.String()
	if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
		n = o.FullName()
	} else if o := fn.Origin(); o != nil && o != fn {
		n = p.nameOf(o)
	}
	p.names[fn] = n
	return n
}

// method returns the concrete method that a call on a value of type t reaches.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func (p *Program) pkg(rel string) *ssa.Package {
	path := modulePath
	if rel != "" {
		path += "/" + rel
	}
	q := p.Pkgs[path]
	if q == nil {
		return nil
	}
	return p.SSA.Package(q.Types)
}

// timeType is the type of instants.
func (p *Program) timeType() types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == "time" {
			return q.Pkg.Scope().Lookup("Time").Type()
		}
	}
	return nil
}

// Func finds a package-level function by name.
func (p *Program) Func(rel, name string) *ssa.Function {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}
	return q.Func(name)
}

// Type finds a named type.
func (p *Program) Type(rel, name string) types.Type {
	path := rel
	if !strings.Contains(rel, ".") {
		path = modulePath
		if rel != "" {
			path += "/" + rel
		}
	}
	q := p.Pkgs[path]
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Method finds a declared method (on T or *T) by name.
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	t := p.Type(rel, typ)
	if t == nil {
		return nil
	}
	return p.MethodOf(t, name)
}

// MethodOf finds a method of a type (or its pointer) by name.
func (p *Program) MethodOf(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == name {
				fn := p.SSA.MethodValue(s)
				if fn != nil && fn.Synthetic == "" {
					return fn
				}
				if fn != nil && x != t {
					return fn
				}
				if fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}

// globalInit returns the value of a package-level variable that is
// initialised to a constant or function and never reassigned.
func (p *Program) globalInit(name string) *Term {
	if p.inits == nil {
		p.inits = map[string]*Term{}
		stores := map[string]int{}
		var sps []*ssa.Package
		for _, q := range p.Mod {
			sps = append(sps, p.SSA.Package(q.Types))
		}
		// which has lists of constants
		for _, sp := range p.SSA.AllPackages() {
			if sp.Pkg.Path() == "github.com/dogmatiq/configkit" {
				sps = append(sps, sp)
			}
		}
		for _, sp := range sps {
			if sp == nil {
				continue
			}
			for _, fn := range allFuncs(p, sp) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							g, ok := (*op).(*ssa.Global)
							if !ok {
								continue
							}
							if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
								if writesElements(u) {
									stores[g.String()] += 2
								}
								continue
							}
							stores[g.String()]++
							s, ok := in.(*ssa.Store)
							if !ok || fn.Name() != "init" || s.Addr != g {
								stores[g.String()] += 2
								continue
							}
							if t := initValue(s.Val); t != nil {
								p.inits[g.String()] = t
							}
							// what a map holds, which is not its identity
							if t := initMap(s.Val); t != nil {
								p.inits[g.String()+"[]"] = t
							}
						}
					}
				}
			}
		}
		for g, n := range stores {
			if n != 1 {
				delete(p.inits, g)
				delete(p.inits, g+"[]")
			}
		}
	}
	return p.inits[name]
}

// initValue is the value with which a package variable is initialised, if it
// is a constant, function, new error or list of these.
func initValue(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return mkConst(v.Value, v.Type())
		}
	case *ssa.Function:
		return mkFunc(v)
	case *ssa.MakeClosure:
		if len(v.Bindings) == 0 {
			return mkFunc(v.Fn.(*ssa.Function))
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
			if g := storedIn(v); g != nil {
				return mk("newerr", "global:"+g.String(), v.Type())
			}
		}
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		arr, ok := under(deref(a.Type())).(*types.Array)
		if !ok || arr.Len() > 32 {
			return nil
		}
		elems := make([]*Term, arr.Len())
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				if r != v {
					return nil
				}
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok || len(*ia.Referrers()) != 1 {
				return nil
			}
			st, ok := (*ia.Referrers())[0].(*ssa.Store)
			if !ok || st.Addr != ia {
				return nil
			}
			elems[k.Int64()] = initValue(st.Val)
		}
		for _, e := range elems {
			if e == nil {
				return nil
			}
		}
		return mk("seq", "", v.Type(), elems...)
	}
	return nil
}

// initMap is the contents of a map literal of constants or functions that is
// assigned to a package variable.
func initMap(v ssa.Value) *Term {
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	t := mk("mapempty", "", nil)
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			k, x := initValue(r.Key), initValue(r.Value)
			if r.Map != m || k == nil || x == nil {
				return nil
			}
			t = mk("mapset", "", nil, t, k, x)
		case *ssa.Store:
			if r.Val != m {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return t
}

// storedIn is the package variable that a value is assigned to.
func storedIn(v ssa.Value) *ssa.Global {
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok {
			if g, ok := s.Addr.(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

// writesElements reports whether a list or map may be modified by the function
// that has loaded it.
func writesElements(v ssa.Value) bool {
	switch under(v.Type()).(type) {
	case *types.Slice:
	case *types.Map:
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if f := r.Call.StaticCallee(); f != nil && f.Origin() != nil && f.Origin().String() == "maps.Clone" {
					continue
				}
				return true
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, q := range *r.Referrers() {
				if u, ok := q.(*ssa.UnOp); !ok || u.Op != token.MUL {
					return true
				}
			}
		case *ssa.Call:
			if f := r.Call.StaticCallee(); f != nil && f.Origin() != nil {
				switch f.Origin().String() {
				case "slices.Clone", "slices.Contains", "slices.Index":
					continue
				}
			}
			if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() == "copy" && r.Call.Args[0] == v {
				return true
			}
		case *ssa.Range, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// allFuncs lists the functions with source in a package, including methods
// and function literals.
func allFuncs(p *Program, sp *ssa.Package) []*ssa.Function {
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		fns = append(fns, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	names := make([]string, 0, len(sp.Members))
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			named, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < named.NumMethods(); i++ {
				add(p.SSA.FuncValue(named.Method(i)))
			}
		}
	}
	return fns
}

// ModFuncs lists every function with source in the module.
func (p *Program) ModFuncs() []*ssa.Function {
	var r []*ssa.Function
	for _, q := range p.Mod {
		if sp := p.SSA.Package(q.Types); sp != nil {
			r = append(r, allFuncs(p, sp)...)
		}
	}
	return r
}

var _ = ast.Print
var _ = os.Exit
