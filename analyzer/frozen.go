package main

// What an operator is made of (elements, bounds, texts) is what it was built
// with: after its constructor only the visit of its elements replaces them.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frozen struct {
	p       *Prog
	kinds   map[*types.Named]map[string]bool // content fields
	callers map[*ssa.Function][]*ssa.CallCommon
	escapes map[*ssa.Function]bool // used as a value
}

func newFrozen(p *Prog, names []string) *frozen {
	f := &frozen{p, map[*types.Named]map[string]bool{}, map[*ssa.Function][]*ssa.CallCommon{}, map[*ssa.Function]bool{}}
	for _, n := range names {
		t, ok := p.typ(n).(*types.Named)
		if !ok {
			continue
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fs := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			if v := s.Field(i); !v.Embedded() && !strings.Contains(typeStr(v.Type()), "Lazy[") {
				fs[v.Name()] = true
			}
		}
		f.kinds[t] = fs
	}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				var callee *ssa.Function
				if isCall {
					if callee = c.Common().StaticCallee(); callee != nil {
						f.callers[callee] = append(f.callers[callee], c.Common())
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(isCall && c.Common().Value == g) {
						f.escapes[g] = true
					}
				}
			}
		}
	}
	return f
}

// content: the address is that of a content field
func (f *frozen) content(v ssa.Value) (*types.Named, string, ssa.Value) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, "", nil
	}
	t, ok := derefType(fa.X.Type()).(*types.Named)
	if !ok {
		return nil, "", nil
	}
	if n := fieldName(t, fa.Field); f.kinds[t][n] {
		return t, n, fa.X
	}
	return nil, "", nil
}

// list: the slice is the one of a content field
func (f *frozen) list(v ssa.Value, seen map[ssa.Value]bool) (*types.Named, string, ssa.Value) {
	if seen[v] {
		return nil, "", nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return f.content(x.X)
		}
	case *ssa.Slice:
		return f.list(x.X, seen)
	case *ssa.MakeInterface:
		return f.list(x.X, seen)
	case *ssa.ChangeType:
		return f.list(x.X, seen)
	case *ssa.Convert:
		return f.list(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if t, n, b := f.list(e, seen); t != nil {
				return t, n, b
			}
		}
	}
	return nil, "", nil
}

// building: the object is one that is being made
func (f *frozen) building(v ssa.Value, depth int) bool {
	v = addrRoot(v)
	if isLocalAlloc(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if cell := x.X; x.Op == token.MUL {
			if a, ok := cell.(*ssa.Alloc); ok {
				return onlyAssigned(a, func(y ssa.Value) bool { return f.building(y, depth+1) })
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		if depth > 4 || f.escapes[fn] || len(f.callers[fn]) == 0 {
			return false
		}
		for i, p := range fn.Params {
			if p != x {
				continue
			}
			for _, c := range f.callers[fn] {
				if i >= len(c.Args) || !f.building(c.Args[i], depth+1) {
					return false
				}
			}
		}
		return true
	case *ssa.Call: // made by a function of the repository
		g := x.Call.StaticCallee()
		if depth > 4 || g == nil || g.Blocks == nil || !inRepo(g) || g.Signature.Results().Len() != 1 {
			return false
		}
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !f.building(r.Results[0], depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// changes: the function stores into the slice it is given
func (f *frozen) changes(fn *ssa.Function, i int, depth int) bool {
	if fn.Blocks == nil || i >= len(fn.Params) {
		return false
	}
	roots := map[ssa.Value]bool{fn.Params[i]: true}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && roots[addrRoot(ia.X)] {
					return true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "copy" || bi.Name() == "clear") && roots[addrRoot(c.Args[0])] {
						return true
					}
					continue
				}
				for j, a := range c.Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if roots[addrRoot(a)] && f.reorders(c, j, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// reorders: the call may change the slice given as this argument
func (f *frozen) reorders(c *ssa.CallCommon, i, depth int) bool {
	callee := c.StaticCallee()
	if callee == nil || depth > 4 {
		return false
	}
	if inRepo(callee) {
		return f.changes(callee, i, depth)
	}
	pkg := ""
	if callee.Pkg != nil {
		pkg = callee.Pkg.Pkg.Path()
	} else if o := callee.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	}
	switch pkg {
	case "sort":
		return !strings.HasPrefix(callee.Name(), "Search") && !strings.HasSuffix(callee.Name(), "AreSorted") && !strings.HasSuffix(callee.Name(), "IsSorted")
	case "slices":
		n := callee.Name()
		for _, x := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact"} {
			if strings.HasPrefix(n, x) {
				return true
			}
		}
	case "math/rand", "math/rand/v2":
		return true
	}
	return false
}

// checkFrozen: operators keep the elements they were built with.
func checkFrozen(p *Prog, rep *Report, names ...string) {
	f := newFrozen(p, names)
	eff := p.effects()
	var late []*ssa.Function
	for _, fn := range p.funcs {
		if n := fn.Name(); fn.Signature.Recv() != nil && (n == "prepare" || n == "parse" || n == "String") || n == "postinit" {
			late = append(late, fn)
		}
	}
	after := eff.reach(late, nil)
	for _, fn := range p.funcs {
		if fn.Pkg != p.root {
			continue
		}
		visit := func(t *types.Named) bool {
			o := outermost(fn)
			return o.Name() == "forEachChild" && o.Signature.Recv() != nil && derefType(o.Signature.Recv().Type()) == t
		}
		bad := func(ok bool, in ssa.Instruction, t *types.Named, n, what string) {
			rep.funcs[short(fn)] = true
			rep.check(p, ok, "frozen."+t.Obj().Name(), in.Pos(), "%s %s the %s of a %s that is in use", short(fn), what, n, t.Obj().Name())
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if t, n, base := f.content(x.Addr); t != nil {
						ok := visit(t) || f.building(base, 0)
						if !ok {
							// added to while rules are compiled
							c, isC := x.Val.(*ssa.Call)
							if isC {
								bi, isB := c.Call.Value.(*ssa.Builtin)
								if isB && bi.Name() == "append" {
									t2, n2, _ := f.list(c.Call.Args[0], map[ssa.Value]bool{})
									_, late := after[fn]
									ok = t2 == t && n2 == n && !late
								}
							}
						}
						bad(ok, in, t, n, "replaces")
						continue
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if t, n, base := f.list(ia.X, map[ssa.Value]bool{}); t != nil {
							bad(visit(t) || f.building(base, 0), in, t, n, "changes an element of")
						}
						continue
					}
					// a whole operator is stored over another
					if t, ok := derefType(x.Addr.Type()).(*types.Named); ok && f.kinds[t] != nil {
						bad(f.building(x.Addr, 0), in, t, "content", "replaces")
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "clear" {
							if t, n, base := f.list(c.Args[0], map[ssa.Value]bool{}); t != nil {
								bad(visit(t) || f.building(base, 0), x, t, n, "changes")
							}
						}
						continue
					}
					for i, a := range c.Args {
						if t, n, base := f.list(a, map[ssa.Value]bool{}); t != nil {
							if _, isSlice := a.Type().Underlying().(*types.Slice); !isSlice && !types.IsInterface(a.Type()) {
								continue
							}
							bad(visit(t) || f.building(base, 0) || !f.reorders(c, i, 0), x, t, n, "changes the order of")
						}
					}
				}
			}
		}
	}
	for t, fs := range f.kinds {
		if len(fs) > 0 {
			rep.floor("frozen."+t.Obj().Name(), 1)
		}
	}
}
