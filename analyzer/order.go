package main

// C25: nothing depends on map iteration order, time, randomness or addresses.

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopOf: the blocks of the natural loop with this header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

type orderCheck struct {
	p   *Prog
	rep *Report
	ef  *Effects

	depth int
}

func checkOrder(p *Prog, rep *Report) {
	x := &orderCheck{p: p, rep: rep, ef: p.effects()}
	var fns []*ssa.Function
	for _, f := range p.funcs {
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if len(f.Blocks) > 0 && f.Synthetic != "package initializer" && (pk == p.root || pk == p.help) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		rep.funcs[short(f)] = true
		rep.obl["order.function"]++
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x.source(f, in)
				if r, ok := in.(*ssa.Range); ok {
					if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
						rep.obl["order.map-loop"]++
						x.mapLoop(f, r)
					}
				}
			}
		}
	}
}

// source: what differs between runs
func (x *orderCheck) source(f *ssa.Function, in ssa.Instruction) {
	bad := func(what string) { x.rep.add(x.p, "order.source", in.Pos(), "%s", what) }
	switch y := in.(type) {
	case *ssa.Go:
		bad("starts a goroutine: what it does depends on scheduling")
	case *ssa.Select:
		bad("select chooses at random")
	case *ssa.Convert:
		_, ptr := y.X.Type().Underlying().(*types.Pointer)
		b, isB := y.X.Type().Underlying().(*types.Basic)
		t, toB := y.Type().Underlying().(*types.Basic)
		if (ptr || isB && b.Kind() == types.UnsafePointer) && toB && t.Info()&types.IsInteger != 0 {
			bad("uses an address as a number")
		}
	case *ssa.Call:
		cc := y.Common()
		if m := cc.StaticCallee(); m != nil && !inRepo(m) && m.Name() != "init" {
			x.rep.obl["order.call"]++
			name := m.String()
			if o := m.Origin(); o != nil {
				name = o.String()
			}
			pkg := ""
			if m.Pkg != nil {
				pkg = m.Pkg.Pkg.Path()
			} else if o := m.Origin(); o != nil && o.Pkg != nil {
				pkg = o.Pkg.Pkg.Path()
			}
			switch {
			case pkg == "time" || pkg == "math/rand" || pkg == "math/rand/v2" || pkg == "crypto/rand" || pkg == "hash/maphash":
				bad("calls " + name + ", which differs from run to run")
			case pkg == "os" && name != "os.Getenv" && name != "os.LookupEnv" && name != "os.Exit":
				bad("calls " + name + ", which depends on the environment")
			case pkg == "runtime" || pkg == "runtime/debug":
				bad("calls " + name + ", which differs from run to run")
			case strings.HasPrefix(name, "(reflect.Value).MapKeys") || strings.HasPrefix(name, "(reflect.Value).MapRange") || strings.HasPrefix(name, "(reflect.Value).Pointer") || strings.HasPrefix(name, "(reflect.Value).UnsafePointer"):
				bad("calls " + name + ", which differs from run to run")
			case pkg == "maps" && (strings.HasSuffix(name, "maps.Keys") || strings.HasSuffix(name, "maps.Values") || strings.HasSuffix(name, "maps.All")):
				for _, r := range *y.Referrers() {
					c, ok := r.(*ssa.Call)
					if _, dbg := r.(*ssa.DebugRef); dbg {
						continue
					}
					g := ""
					if ok && c.Call.StaticCallee() != nil {
						g = c.Call.StaticCallee().String()
						if o := c.Call.StaticCallee().Origin(); o != nil {
							g = o.String()
						}
					}
					if !(strings.HasPrefix(g, "slices.Sorted") || g == "maps.Collect" || g == "maps.Insert") && !(g == "slices.Collect" && x.sortedAfter(c, nil)) {
						bad("goes through a map in no particular order")
					}
				}
			case pkg == "fmt":
				for _, a := range cc.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
						bad("prints an address")
					}
				}
				for _, a := range variadicArgs(cc) {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						switch mi.X.Type().Underlying().(type) {
						case *types.Signature, *types.Chan:
							bad("prints an address")
						}
					}
				}
			}
		}
	}
}

// variadicArgs: the values put in the argument list of a call like fmt.Println
func variadicArgs(cc *ssa.CallCommon) []ssa.Value {
	var r []ssa.Value
	if len(cc.Args) == 0 {
		return nil
	}
	s, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok {
					r = append(r, st.Val)
				}
			}
		}
	}
	return r
}

func isSortCall(in ssa.Instruction, v ssa.Value) bool { return sortCall(in, v, 0) }

// sortCall: the call sorts v, itself or through a function of the repository
func sortCall(in ssa.Instruction, v ssa.Value, depth int) bool {
	c, ok := in.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
		return false
	}
	g := c.Call.StaticCallee()
	name := g.String()
	if o := g.Origin(); o != nil {
		name = o.String()
	}
	if inRepo(g) && depth < 4 {
		for i, a := range c.Call.Args {
			if a == v && i < len(g.Params) && sortsParam(g, g.Params[i], depth+1) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") && !strings.HasSuffix(name, "AreSorted"), strings.HasPrefix(name, "slices.Sort"):
	default:
		return false
	}
	a := c.Call.Args[0]
	for {
		if a == v {
			return true
		}
		switch y := a.(type) {
		case *ssa.MakeInterface:
			a = y.X
		case *ssa.ChangeType:
			a = y.X
		case *ssa.Convert:
			a = y.X
		case *ssa.UnOp:
			if y.Op == token.MUL {
				a = y.X
				continue
			}
			return false
		default:
			return false
		}
	}
}

// sortsParam: the function sorts this parameter before using it otherwise or
// returning
func sortsParam(g *ssa.Function, prm *ssa.Parameter, depth int) bool {
	var sorts []ssa.Instruction
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Call); ok && sortCall(in, prm, depth) {
				sorts = append(sorts, in)
				continue
			}
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			_, ret := in.(*ssa.Return)
			use := ret
			for _, o := range in.Operands(nil) {
				if *o == prm {
					if _, mi := in.(*ssa.MakeInterface); !mi {
						use = true
					}
				}
			}
			if _, dbg := in.(*ssa.DebugRef); !use || dbg {
				continue
			}
			ok := false
			for _, s := range sorts {
				ok = ok || s == in || before(s, in)
			}
			if !ok {
				return false
			}
		}
	}
	return len(sorts) > 0
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// sortedAfter: every use of v outside the loop comes after v was sorted.
func (x *orderCheck) sortedAfter(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	var add func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	add = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if loop[r.Block()] {
				continue
			}
			switch y := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.MakeInterface:
				add(y)
				continue
			case *ssa.ChangeType:
				add(y)
				continue
			case *ssa.Phi:
				add(y)
				continue
			case *ssa.UnOp:
				if _, isCell := v.(*ssa.Alloc); isCell {
					add(y)
					continue
				}
			case *ssa.Store:
				if y.Addr == v {
					continue // the variable is set
				}
			case *ssa.MakeClosure:
				// the comparison given to sort
				only := true
				for _, u := range *y.Referrers() {
					c, ok := u.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(c.Call.StaticCallee().String(), "sort.") && !strings.HasPrefix(c.Call.StaticCallee().String(), "slices.Sort") {
						only = false
					}
				}
				if only {
					continue
				}
			}
			if isSortCall(r, v) {
				sorts = append(sorts, r)
			} else {
				uses = append(uses, r)
			}
		}
	}
	add(v)
	for _, u := range uses {
		ok := false
		if c, isC := u.(*ssa.Call); isC {
			if b, isB := c.Call.Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
				ok = true
			}
		}
		if r, isR := u.(*ssa.Return); isR && x.callersSort(r, seen) {
			ok = true
		}
		for _, s := range sorts {
			if before(s, u) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// callersSort: what this return gives is sorted by every caller before use
func (x *orderCheck) callersSort(r *ssa.Return, of map[ssa.Value]bool) bool {
	f := r.Parent()
	if x.depth > 4 || f.Object() == nil || f.Object().Exported() && f.Pkg == x.p.root {
		return false
	}
	x.depth++
	defer func() { x.depth-- }()
	idx := -1
	for i, v := range r.Results {
		if of[v] {
			if idx >= 0 {
				return false
			}
			idx = i
		}
	}
	if idx < 0 {
		return false
	}
	n := 0
	for _, g := range x.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					h, ok := (*o).(*ssa.Function)
					if !ok || h != f && (h.Origin() == nil || h.Origin() != f && h.Origin() != f.Origin()) {
						continue
					}
					c, isC := in.(*ssa.Call)
					if !isC || c.Call.Value != h {
						return false // used as a value
					}
					n++
					var v ssa.Value = c
					if len(r.Results) > 1 {
						v = nil
						for _, u := range *c.Referrers() {
							if e, ok := u.(*ssa.Extract); ok && e.Index == idx {
								if !x.sortedAfter(e, nil) {
									return false
								}
							}
						}
						continue
					}
					if !x.sortedAfter(v, nil) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// fromKey: v is made from the key (and value) of the round only, or from what
// the loop does not change; so it is the same in whatever order rounds come.
func (x *orderCheck) mapLoop(f *ssa.Function, r *ssa.Range) {
	if x.neverFilled(r.X, 0) {
		x.rep.sample("%s: the rules of a choice that is not a rank are never filled", x.p.pos(r.Pos()))
		return
	}
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	loop := loopOf(head)
	bad := func(in ssa.Instruction, what string) {
		pos := in.Pos()
		if !pos.IsValid() {
			pos = r.Pos()
		}
		x.rep.add(x.p, "order.map-loop", pos, "goes through a map (%s) in no particular order and %s", typeStr(r.X.Type()), what)
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && loop[in.Block()]
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch y := v.(type) {
			case *ssa.Extract:
				return y.Tuple == next && y.Index == 1
			case *ssa.Convert:
				v = y.X
			case *ssa.ChangeType:
				v = y.X
			case *ssa.MakeInterface:
				v = y.X
			case *ssa.UnOp:
				// a variable of the round
				al, ok := y.X.(*ssa.Alloc)
				if !ok || !loop[al.Block()] {
					return false
				}
				v = nil
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == al {
						if v != nil {
							return false
						}
						v = st.Val
					}
				}
				if v == nil {
					return false
				}
			default:
				return false
			}
		}
	}
	// values carried from one round to the next
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range phi.Edges {
			if !loop[head.Preds[i]] || e == phi {
				continue
			}
			if !x.carried(phi, e, loop, inLoop) {
				bad(in, "keeps something from one round to the next ("+phi.Comment+")")
				break
			}
		}
	}
	for _, b := range f.Blocks {
		if !loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				if !isKey(y.Key) && !isLocalIn(y.Map, loop) {
					bad(in, "fills a map under other keys than its own")
				}
			case *ssa.Store:
				root := addrRoot(y.Addr)
				if isLocalIn(root, loop) || tracerArg(y.Addr) && inLoop(root) {
					continue
				}
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok && isKey(ia.Index) {
					continue
				}
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok && !inLoop(ia.X) {
					// one place per round, sorted afterwards
					if ph, ok := ia.Index.(*ssa.Phi); ok && ph.Block() == head && x.sortedAfter(ia.X, loop) {
						continue
					}
				}
				if al, ok := root.(*ssa.Alloc); ok && y.Addr == al { // a variable captured by a closure
					if ap, ok := y.Val.(*ssa.Call); ok {
						if bi, isB := ap.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" && x.sortedAfter(al, loop) {
							continue
						}
					}
				}
				if _, ok := y.Val.(*ssa.Const); ok && !severalConsts(y, loop) {
					continue
				}
				if ex, ok := y.Addr.(*ssa.Extract); ok && ex.Tuple == next && ex.Index == 2 && placesMap(r.X) {
					continue // each round writes to its own place
				}
				bad(in, "writes "+target(y.Addr))
			case *ssa.Return:
				for _, v := range y.Results {
					if inLoop(v) {
						bad(in, "returns from one of its rounds")
					}
				}
			case *ssa.Panic:
				// whichever round panics, it panics; the message may differ
			case *ssa.Send, *ssa.Defer:
				bad(in, "acts in that order")
			case *ssa.Call:
				cc := y.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete":
						if len(cc.Args) == 2 && !isKey(cc.Args[1]) {
							bad(in, "deletes other keys than its own")
						}
					case "print", "println":
						bad(in, "prints in that order")
					}
					continue
				}
				for _, why := range x.callOrder(cc) {
					bad(in, why)
				}
			}
		}
		// values leaving the loop by a break
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, e := range phi.Edges {
					if s.Preds[i] == b && inLoop(e) {
						bad(in, "keeps a value of the round it stops at")
					}
				}
			}
		}
	}
	// values of the last round used after the loop
	for _, b := range f.Blocks {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			if _, isPhi := in.(*ssa.Phi); isPhi {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil || !inLoop(*op) {
					continue
				}
				if d, ok := (*op).(ssa.Instruction); ok && d.Block() != head && !isAllocV(*op) {
					bad(in, "uses a value of one of its rounds afterwards")
				}
			}
		}
	}
}

// placesMap: a map written out in the function, of the addresses of distinct
// variables or fields.
func placesMap(v ssa.Value) bool {
	mm, ok := v.(*ssa.MakeMap)
	if !ok {
		return false
	}
	type place struct {
		base  ssa.Value
		field int
	}
	seen := map[place]bool{}
	for _, u := range *mm.Referrers() {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			var pl place
			switch a := y.Value.(type) {
			case *ssa.FieldAddr:
				pl = place{a.X, a.Field}
			case *ssa.Alloc:
				pl = place{a, -1}
			default:
				return false
			}
			if y.Map != v || seen[pl] {
				return false
			}
			seen[pl] = true
		case *ssa.Range, *ssa.Lookup, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func isAllocV(v ssa.Value) bool { _, ok := v.(*ssa.Alloc); return ok }

// severalConsts: the loop stores different constants in the same variable
func severalConsts(s *ssa.Store, loop map[*ssa.BasicBlock]bool) bool {
	for b := range loop {
		for _, in := range b.Instrs {
			o, ok := in.(*ssa.Store)
			if ok && o != s && target(o.Addr) == target(s.Addr) {
				k1, ok1 := o.Val.(*ssa.Const)
				k2 := s.Val.(*ssa.Const)
				if !ok1 || k1.String() != k2.String() {
					return true
				}
			}
		}
	}
	return false
}

func isLocalIn(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch y := v.(type) {
	case *ssa.Alloc:
		return loop[y.Block()]
	case *ssa.MakeMap:
		return loop[y.Block()]
	case *ssa.MakeSlice:
		return loop[y.Block()]
	}
	return false
}

// carried: what a round adds does not depend on the rounds before
func (x *orderCheck) carried(phi *ssa.Phi, e ssa.Value, loop map[*ssa.BasicBlock]bool, inLoop func(ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var consts []string
	var rec func(e ssa.Value) bool
	rec = func(e ssa.Value) bool {
		if e == phi || seen[e] {
			return true
		}
		seen[e] = true
		switch y := e.(type) {
		case *ssa.Const:
			consts = append(consts, y.String())
			return true
		case *ssa.Phi:
			if !inLoop(y) {
				return true
			}
			for _, v := range y.Edges {
				if !rec(v) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			// a sum, a count
			if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && (y.Op == token.ADD || y.Op == token.OR || y.Op == token.AND || y.Op == token.XOR || y.Op == token.MUL) {
				return y.X == phi && !uses(y.Y, phi) || y.Y == phi && !uses(y.X, phi) || seen[y.X] || seen[y.Y]
			}
			return false
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					return rec(y.Call.Args[0]) && x.sortedAfter(phi, loop)
				case "min", "max":
					return true
				}
			}
			if c := y.Call.StaticCallee(); c != nil {
				n := short(c)
				if o := c.Origin(); o != nil {
					n = short(o)
				}
				if strings.HasSuffix(n, "helpers.Max[T]") || strings.HasSuffix(n, "helpers.Min[T]") || strings.HasSuffix(n, "helpers.Max") || strings.HasSuffix(n, "helpers.Min") {
					return true
				}
			}
		}
		return false
	}
	if !rec(e) {
		return false
	}
	for _, c := range consts {
		if c != consts[0] {
			return false
		}
	}
	return true
}

func uses(v ssa.Value, w ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == w {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && rec(*o) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// callOrder: what the call does shows in which order it is made
func (x *orderCheck) callOrder(cc *ssa.CallCommon) []string {
	var callees []*ssa.Function
	if cc.IsInvoke() {
		callees = x.ef.implsOf(cc.Value.Type(), cc.Method)
		if len(callees) == 0 {
			return []string{"calls " + cc.Method.Name() + " in that order"}
		}
	} else if c := cc.StaticCallee(); c != nil {
		if !inRepo(c) {
			switch {
			case strings.HasPrefix(c.String(), "fmt.Print"), strings.HasPrefix(c.String(), "fmt.Fprint"), strings.Contains(c.String(), "Builder).Write"), strings.Contains(c.String(), "Buffer).Write"), strings.HasPrefix(c.String(), "log."):
				return []string{"prints in that order"}
			}
			return nil
		}
		callees = []*ssa.Function{c}
	} else {
		return []string{"calls a function in that order"}
	}
	for _, c := range callees {
		if !x.ef.pure(c) {
			return []string{"calls " + short(c) + " in that order, which has effects"}
		}
	}
	return nil
}

// neverFilled: the rules of a choice which is not the one of a rank. Rules are
// only included in ranks (see checkIncludes).
func (x *orderCheck) neverFilled(v ssa.Value, depth int) bool {
	if prm, ok := v.(*ssa.Parameter); ok {
		return x.everyArg(prm, depth, x.neverFilled)
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return typeStr(t) == "rule" && fieldName(t, fa.Field) == "rules" && x.choiceRule(fa.X, depth)
}

// choiceRule: v is the *rule of a choice
func (x *orderCheck) choiceRule(v ssa.Value, depth int) bool {
	switch y := v.(type) {
	case *ssa.Parameter:
		return x.everyArg(y, depth, x.choiceRule)
	case *ssa.Call:
		c := y.Call.StaticCallee()
		return c != nil && c.Name() == "getRule" && isPlainChoice(y.Call.Args[0])
	case *ssa.UnOp:
		f, ok := y.X.(*ssa.FieldAddr)
		return ok && typeStr(f.X.Type()) == "*choice" && isPlainChoice(f.X)
	}
	return false
}

// everyArg: ok holds of what every call gives for this parameter
func (x *orderCheck) everyArg(prm *ssa.Parameter, depth int, ok func(ssa.Value, int) bool) bool {
	f := prm.Parent()
	if depth > 4 || f.Object() == nil || f.Object().Exported() {
		return false
	}
	idx := -1
	for i, q := range f.Params {
		if q == prm {
			idx = i
		}
	}
	n := 0
	for _, g := range x.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != f {
						continue
					}
					c, isC := in.(ssa.CallInstruction)
					if !isC || c.Common().Value != f || !ok(c.Common().Args[idx], depth+1) {
						return false
					}
					n++
				}
			}
		}
	}
	return n > 0
}

func isPlainChoice(v ssa.Value) bool {
	if typeStr(v.Type()) != "*choice" {
		return false
	}
	switch y := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Extract:
		_, ok := y.Tuple.(*ssa.TypeAssert)
		return ok
	case *ssa.TypeAssert:
		return true
	case *ssa.FreeVar:
		return true
	}
	return false
}

// checkIncludes: rules are only included in ranks.
func checkIncludes(p *Prog, rep *Report) {
	n := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || short(c.Call.StaticCallee()) != "(*joeson.rule).Include" {
					continue
				}
				if f.Synthetic != "" {
					continue
				}
				n++
				v := c.Call.Args[0]
				ok = false
				for v != nil {
					if strings.Contains(typeStr(v.Type()), "rank") {
						ok = true
						break
					}
					switch y := v.(type) {
					case *ssa.UnOp:
						v = y.X
					case *ssa.FieldAddr:
						v = y.X
					case *ssa.Call:
						v = nil
						if len(y.Call.Args) > 0 {
							v = y.Call.Args[0]
						}
					default:
						v = nil
					}
				}
				if !ok {
					rep.undecided("%s: rules are included in something else than a rank: loops over the rules of a choice may depend on the order of a map", p.pos(c.Pos()))
				}
			}
		}
	}
	rep.obl["order.include"] += n
}

func init() {
	checks["C25"] = checkDef{rule: "every loop over a map does the same whatever the order of its rounds (keys collected are sorted before use, writes are keyed by the round's key, what is carried is commutative); no goroutine, select, clock, randomness, address or environment (but TRACE and exit) is used",
		f: func(p *Prog, rep *Report) {
			checkOrder(p, rep)
			checkIncludes(p, rep)
			rep.floor("order.function", 250)
			rep.floor("order.call", 100)
		}}
}
