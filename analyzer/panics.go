package main

// C29: what a callback panics with reaches the caller of the parse.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ends: calls that end the process or the goroutine
var ends = map[string]bool{
	"os.Exit": true, "syscall.Exit": true, "runtime.Goexit": true,
	"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
}

// isRuleCallback: the type of the callbacks of rules
func isRuleCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() == 0 || s.Results().Len() != 1 {
		return false
	}
	ast := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Ast"
	}
	return ast(s.Params().At(0).Type()) && ast(s.Results().At(0).Type())
}

// runsRules: callbacks of rules may run while fn does
func runsRules(p *Prog, fn *ssa.Function) bool {
	eff := p.effects()
	for f := range eff.reach([]*ssa.Function{fn}, nil) {
		for _, in := range eff.local(f).dyn {
			if c, ok := in.(ssa.CallInstruction); ok && isRuleCallback(c.Common().Value.Type()) {
				return true
			}
		}
	}
	return false
}

// rethrows: on every path from the recover on which there is a value, fn
// panics with that very value.
func rethrows(rec *ssa.Call) bool {
	fn := rec.Parent()
	is := map[ssa.Value]bool{rec: true}
	same := func(v ssa.Value) bool {
		for {
			if is[v] {
				return true
			}
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.Extract:
				v = x.Tuple
			default:
				return false
			}
		}
	}
	// cells the value is kept in
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.UnOp:
					if a, ok := x.X.(*ssa.Alloc); ok && !is[x] {
						n, all := 0, true
						for _, r := range *a.Referrers() {
							if s, ok := r.(*ssa.Store); ok && s.Addr == a {
								n++
								all = all && same(s.Val)
							}
						}
						if n > 0 && all {
							is[x], changed = true, true
						}
					}
				case *ssa.Phi:
					all := !is[x]
					for _, v := range x.Edges {
						all = all && same(v)
					}
					if all {
						is[x], changed = true, true
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		if from == 0 {
			if seen[b] {
				return true
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Panic:
				return same(x.X)
			case *ssa.Return:
				return false
			case *ssa.If:
				// without a value there is nothing to hand on
				if c, ok := x.Cond.(*ssa.BinOp); ok && (same(c.X) && isNilConst(c.Y) || same(c.Y) && isNilConst(c.X)) {
					if c.Op.String() == "==" {
						return walk(b.Succs[1], 0)
					}
					return walk(b.Succs[0], 0)
				}
			}
		}
		for _, s := range b.Succs {
			if !walk(s, 0) {
				return false
			}
		}
		return true
	}
	for i, in := range rec.Block().Instrs {
		if in == ssa.Instruction(rec) {
			return walk(rec.Block(), i+1)
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// checkPanics: nothing that runs during a parse keeps a panic from its caller.
func checkPanics(p *Prog, rep *Report) {
	eff := p.effects()
	var from []*ssa.Function
	for _, n := range []string{"ParseString", "ParseTokens", "parse"} {
		if f := p.ownMethod("Grammar", n); f != nil {
			from = append(from, f)
		}
	}
	if len(from) < 2 {
		rep.lost = append(rep.lost, "the entry points of a parse were not found")
		return
	}
	par := eff.reach(from, nil)
	var fns []*ssa.Function
	for f := range par {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	callbacks := 0
	for _, f := range fns {
		rep.funcs[short(f)] = true
		rep.obl["function"]++
		for _, in := range eff.local(f).dyn {
			if c, ok := in.(ssa.CallInstruction); ok && isRuleCallback(c.Common().Value.Type()) {
				callbacks++
				rep.check(p, !isGo(in), "goroutine", in.Pos(), "a callback runs in a goroutine of its own: what it panics with ends the process")
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					rep.check(p, false, "goroutine", x.Pos(), "a part of the parse runs in another goroutine (%s): what a callback panics with there ends the process", chain(par, f))
				case ssa.CallInstruction:
					cc := x.Common()
					if c := cc.StaticCallee(); c != nil && ends[c.String()] {
						rep.check(p, false, "exit", in.Pos(), "a parse may end the process or the goroutine: %s", chain(par, f))
					}
					bi, ok := cc.Value.(*ssa.Builtin)
					if !ok || bi.Name() != "recover" {
						continue
					}
					rec, isCall := x.(*ssa.Call)
					if isCall && rethrows(rec) {
						rep.obl["recover"]++
						continue
					}
					// whose panics?
					who := deferrers(p, f)
					quiet := len(who) > 0
					for _, w := range who {
						if runsRules(p, w) {
							quiet = false
							rep.check(p, false, "recover", in.Pos(), "%s recovers what a callback panicked with and does not panic with it again", short(w))
						}
					}
					if len(who) == 0 {
						rep.undecided("%s recovers: where it is deferred was not found", short(f))
					} else if quiet {
						rep.obl["recover"]++
					}
				}
			}
		}
	}
	rep.obl["callback"] = callbacks
}

func isGo(in ssa.Instruction) bool { _, ok := in.(*ssa.Go); return ok }

// deferrers: the functions that defer f
func deferrers(p *Prog, f *ssa.Function) (r []*ssa.Function) {
	for _, g := range p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				v := d.Call.Value
				if m, ok := v.(*ssa.MakeClosure); ok {
					v = m.Fn
				}
				if v == ssa.Value(f) || d.Call.StaticCallee() == f {
					r = append(r, g)
				}
			}
		}
	}
	return
}

// checkParseErrors: they carry what they were made with and are told apart.
func checkParseErrors(p *Prog, rep *Report) {
	pe := p.typ("ParseError")
	if pe == nil || p.fn("IsParseError") == nil || p.fn("NewParseError") == nil {
		rep.lost = append(rep.lost, "ParseError was not found")
		return
	}
	for _, is := range []bool{true, false} {
		guard(rep, "IsParseError", func() {
			v := newEnv(p, rep, "IsParseError")
			e := v.e
			x := e.symVal(v.st, p.typ("Ast"), "x", "x").(RefV)
			v.st.nilF[x.obj] = false
			var arg Val = x
			if is {
				arg = IfaceV{pe, e.symVal(v.st, pe, "pe", "pe")}
			} else {
				e.assume(v.st, &Form{op: fType, obj: x.obj, typ: pe}, false)
				e.assume(v.st, &Form{op: fType, obj: x.obj, typ: types.NewPointer(pe)}, false)
			}
			n := 0
			for _, o := range v.noPanic(v.run(p.fn("IsParseError"), arg), true) {
				n++
				b, ok := o.ret.(BoolV)
				v.chkO(o, ok && e.decide(o.st, b.f) == map[bool]tri{true: 1, false: 2}[is], "told", "a ParseError and another result are not told apart (%v)", is)
			}
			v.reached(n, 1)
			v.done()
		})
	}
	made := func(what string, fn *ssa.Function, ctxFirst bool) {
		guard(rep, what, func() {
			v := newEnv(p, rep, what)
			e := v.e
			e.inlineText = true
			msg := e.symVal(v.st, types.Typ[types.String], "message", "message")
			v.st.ghost["message"] = msg
			n := 0
			for _, o := range v.noPanic(v.run(fn, v.ctx, msg), true) {
				n++
				st := o.st
				r := o.ret
				if iv, ok := r.(IfaceV); ok {
					v.chkO(o, types.Identical(iv.typ, pe), "kind", "what is made is no ParseError")
					r = iv.val
				}
				sv, ok := r.(StructV)
				if !ok || sv.f == nil {
					e.undecided("%s: what is returned is not understood", what)
					continue
				}
				text, ctx := false, false
				s := pe.Underlying().(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					x := sv.f[i]
					text = text || e.same(st, x, msg)
					ctx = ctx || e.same(st, x, v.ctx)
				}
				v.chkO(o, text, "message", "the message is not kept as it was given")
				v.chkO(o, ctx, "context", "the context of the parse is not kept")
			}
			v.reached(n, 1)
			v.done()
		})
	}
	made("NewParseError", p.fn("NewParseError"), true)
	if m := p.method("ParseContext", "Error"); m != nil {
		made("ParseContext.Error", m, true)
	} else {
		rep.lost = append(rep.lost, "ParseContext.Error was not found")
	}
}

func init() {
	checks["C29"] = checkDef{rule: "in every function that a parse may reach: no recover on behalf of a function that runs callbacks unless it panics again with the same value on all paths, no goroutine, no end of the process or of the goroutine; a ParseError keeps its message and context and is told apart",
		f: func(p *Prog, rep *Report) {
			checkPanics(p, rep)
			checkParseErrors(p, rep)
			rep.floor("function", 60)
			rep.floor("callback", 1)
			rep.floor("IsParseError.told", 2)
			rep.floor("ParseContext.Error.message", 1)
		}}
}
