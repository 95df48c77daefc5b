package main

// Effects of repository functions: which memory they may write that they did
// not allocate themselves, through the whole call graph.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Effects struct {
	p     *Prog
	sum   map[*ssa.Function]*effSum
	impls map[string][]*ssa.Function // method name -> repository methods
}

type effSum struct {
	writes map[string]ssa.Instruction // "Type.field", "elem:T", "map:T", "global:x" -> a site
	calls  map[*ssa.Function]ssa.Instruction
	dyn    []ssa.Instruction // calls of function values
	out    []ssa.Instruction // output (fmt.Print*, os.Exit)
}

func newEffects(p *Prog) *Effects {
	e := &Effects{p: p, sum: map[*ssa.Function]*effSum{}, impls: map[string][]*ssa.Function{}}
	for _, t := range p.namedTypes() {
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			if fn := p.prog.FuncValue(m); fn != nil {
				e.impls[m.Name()] = append(e.impls[m.Name()], fn)
			}
		}
	}
	for _, fn := range p.funcs {
		e.local(fn)
	}
	return e
}

// root of an address: the allocation, parameter, load... it is based on
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isLocalAlloc(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(addrRoot(e)) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return x.IsNil()
		case *ssa.UnOp:
			// a local variable shared with closures, only ever assigned new memory
			cell, ok := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !ok {
				return false
			}
			return onlyAssigned(cell, rec)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return rec(addrRoot(x.Call.Args[0]))
			}
		}
		return false
	}
	return rec(v)
}

// onlyAssigned: every value assigned to the variable satisfies ok.
func onlyAssigned(cell ssa.Value, ok func(ssa.Value) bool) bool {
	for _, r := range *cell.Referrers() {
		switch y := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if y.Addr != cell || !ok(addrRoot(y.Val)) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range y.Bindings {
				if b == cell && !onlyAssigned(y.Fn.(*ssa.Function).FreeVars[i], ok) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func typeStr(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "joeson.", "")
}

// target names the memory an address designates.
func target(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return typeStr(t) + "." + fieldName(t, x.Field)
	case *ssa.IndexAddr:
		return "elem:" + typeStr(x.X.Type())
	case *ssa.Global:
		return "global:" + x.Name()
	}
	return "*" + typeStr(v.Type())
}

// capturedIn: the function whose local variable a closure's free variable is.
func capturedIn(v ssa.Value) *ssa.Function {
	fv, ok := v.(*ssa.FreeVar)
	if !ok {
		return nil
	}
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for i, o := range fn.FreeVars {
				if o != fv {
					continue
				}
				if _, ok := mc.Bindings[i].(*ssa.Alloc); ok {
					return fn.Parent()
				}
				return capturedIn(mc.Bindings[i])
			}
		}
	}
	return nil
}

// targets: storing a whole object stores each of its fields.
func targets(s *ssa.Store) (r []string) {
	if capturedIn(addrRoot(s.Addr)) != nil {
		return []string{"captured:" + addrRoot(s.Addr).Name()}
	}
	switch s.Addr.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return []string{target(s.Addr)}
	}
	t := s.Addr.Type().Underlying().(*types.Pointer).Elem()
	if _, named := t.(*types.Named); named {
		if st, isStruct := t.Underlying().(*types.Struct); isStruct {
			for i := 0; i < st.NumFields(); i++ {
				r = append(r, typeStr(t)+"."+st.Field(i).Name())
			}
			return r
		}
	}
	return []string{target(s.Addr)}
}

func (e *Effects) local(fn *ssa.Function) *effSum {
	if s, ok := e.sum[fn]; ok {
		return s
	}
	s := &effSum{writes: map[string]ssa.Instruction{}, calls: map[*ssa.Function]ssa.Instruction{}}
	e.sum[fn] = s
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !isLocalAlloc(addrRoot(x.Addr)) {
					for _, w := range targets(x) {
						s.writes[w] = in
					}
				}
			case *ssa.MapUpdate:
				if !isLocalAlloc(x.Map) {
					s.writes["map:"+mapName(x.Map)] = in
				}
			case *ssa.Send, *ssa.Go:
				s.writes["concurrency"] = in
			case *ssa.MakeClosure:
				// a closure made here may be called by whoever gets it
				s.calls[x.Fn.(*ssa.Function)] = in
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "copy", "clear":
						if !isLocalAlloc(addrRoot(cc.Args[0])) {
							s.writes["builtin "+b.Name()+":"+typeStr(cc.Args[0].Type())] = in
						}
					}
					continue
				}
				if cc.IsInvoke() {
					for _, m := range e.implsOf(cc.Value.Type(), cc.Method) {
						s.calls[m] = in
					}
					continue
				}
				if callee := cc.StaticCallee(); callee != nil {
					if inRepo(callee) {
						s.calls[callee] = in
					} else if n := callee.String(); strings.HasPrefix(n, "fmt.Print") || n == "os.Exit" {
						s.out = append(s.out, in)
					}
					continue
				}
				s.dyn = append(s.dyn, in)
			}
			// functions passed as values
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && inRepo(f) {
					if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().StaticCallee() == f {
						continue
					}
					s.calls[f] = in
				}
			}
		}
	}
	return s
}

// mapName names a map by the field it comes from when that is visible.
func mapName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok {
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			return target(f)
		}
	}
	return typeStr(v.Type())
}

func (e *Effects) implsOf(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, fn := range e.impls[m.Name()] {
		recv := fn.Signature.Recv().Type()
		if types.Implements(recv, it) {
			r = append(r, fn)
			continue
		}
		// promoted through embedding: some repository type that has this very method
		for _, nt := range e.p.namedTypes() {
			for _, tt := range []types.Type{nt, types.NewPointer(nt)} {
				if types.Implements(tt, it) {
					if sel := e.p.prog.MethodSets.MethodSet(tt).Lookup(m.Pkg(), m.Name()); sel != nil && sel.Obj() == fn.Object() {
						r = append(r, fn)
						goto next
					}
				}
			}
		}
	next:
	}
	return r
}

// reach lists the functions reachable from fn (fn included), not entering stop.
func (e *Effects) reach(from []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	par := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for _, f := range from {
		if f != nil && (stop == nil || !stop(f)) {
			par[f] = nil
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		var cs []*ssa.Function
		for c := range e.local(f).calls {
			cs = append(cs, c)
		}
		sort.Slice(cs, func(i, j int) bool { return cs[i].String() < cs[j].String() })
		for _, c := range cs {
			if _, seen := par[c]; seen || (stop != nil && stop(c)) {
				continue
			}
			par[c] = f
			work = append(work, c)
		}
	}
	return par
}

func chain(par map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var r []string
	for f != nil {
		r = append([]string{short(f)}, r...)
		f = par[f]
	}
	return strings.Join(r, " -> ")
}

// pure: no write to memory the function (and what it calls) did not allocate.
// What a lazy getter remembers is no write.
func (e *Effects) pure(fn *ssa.Function) bool {
	for f := range e.reach([]*ssa.Function{fn}, isLazyGet) {
		if s := e.local(f); len(s.writes) > 0 || len(s.dyn) > 0 {
			return false
		}
	}
	return true
}

func isLazyGet(f *ssa.Function) bool {
	return strings.Contains(f.String(), "helpers.Lazy[") && f.Name() == "Get"
}

// textOnly: pure, and only produces text (or nothing).
func (e *Effects) textOnly(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		b, ok := res.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 || res.At(i).Type() != types.Typ[types.String] {
			return false
		}
	}
	if res.Len() == 0 && guards(fn, map[*ssa.Function]bool{}) {
		return false
	}
	return e.pure(fn)
}

// guards: a function without result that refuses some of its arguments.
func guards(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && inRepo(c) && c.Signature.Results().Len() == 0 && guards(c, seen) {
					return true
				}
			}
		}
	}
	return false
}
