package main

// C13: a result already produced is not modified.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ownMonitor reports every write into memory of a result that the analysed
// code did not create itself.
func (v *Env) ownMonitor() {
	e := v.e
	mem := map[ObjID]bool{}
	resultType := func(t types.Type) bool {
		if n, ok := t.(*types.Named); ok {
			switch n.Obj().Name() {
			case "NativeMap", "NativeArray", "ParseError":
				return true
			}
		}
		return false
	}
	prev := e.OnMaterialize
	e.OnMaterialize = func(e *Engine, st *State, s StructV, i int, name string, y Val) Val {
		if prev != nil {
			y = prev(e, st, s, i, name, y)
		}
		if resultType(s.typ) {
			if sl, ok := y.(SliceV); ok {
				mem[sl.arr] = true
			} else if id := objOf(y); id != 0 && fieldName(s.typ, i) != "Attr" {
				mem[id] = true
			}
		}
		return y
	}
	isAstT := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Ast"
	}
	foreign := func(o *Obj) bool {
		if o.fresh {
			return false
		}
		if mem[o.id] || resultType(o.typ) {
			return true
		}
		if o.kind == OArray {
			return isAstT(o.typ)
		}
		if m, ok := o.typ.Underlying().(*types.Map); ok {
			return isAstT(m.Elem())
		}
		return false
	}
	e.OnStore = func(e *Engine, st *State, pv PtrV, y Val, pos pos0) {
		o := e.get(st, pv.obj)
		e.Check(st, !foreign(o), v.rule+".store", pos, "writes into a result already produced (%s)", typeStr(o.typ))
	}
	e.OnMapSet = func(e *Engine, st *State, m *Obj, k, x Val, pos pos0) {
		e.Check(st, !foreign(m), v.rule+".map", pos, "sets or deletes a key of a result already produced")
	}
	e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos pos0) {
		if st.zone.ub(base.len) <= 0 && base.arr == 0 {
			return
		}
		o := e.get(st, base.arr)
		e.Check(st, o == nil || !foreign(o), v.rule+".append", pos, "appends in the memory of a result already produced")
	}
	for _, t := range []string{"Ast", "Parser"} {
		e.ifHooks[t+".SetAttribute"] = func(c *CallCtx) []Result {
			v.chk(c.st, false, "attribute", c, "sets an attribute of a result already produced")
			return one(c.st, TupleV{})
		}
		e.ifHooks[t+".SetOrigin"] = func(c *CallCtx) []Result { return one(c.st, TupleV{}) }
		e.ifHooks[t+".String"] = func(c *CallCtx) []Result { return one(c.st, e.symStr(c.st, "", "text")) }
	}
	e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
		fail := c.st.clone()
		v.havocPos(fail)
		r := v.freshAst(c.st, "result")
		v.advance(c.st)
		return []Result{{st: fail, ret: NilV{}}, {st: c.st, ret: r}}
	}
	e.hooks["(*helpers.Lazy[T]).Get"] = func(c *CallCtx) []Result {
		return one(c.st, e.symVal(c.st, c.sig.Results().At(0).Type(), "", "lazy"))
	}
	e.hooks["(*joeson.ParseContext).log"] = func(c *CallCtx) []Result { return one(c.st, TupleV{}) }
	e.dynHook = func(c *CallCtx) []Result {
		var res types.Type
		if c.sig != nil && c.sig.Results().Len() == 1 {
			res = c.sig.Results().At(0).Type()
		}
		if res == nil || !isAstT(res) {
			return e.defaultCall(c)
		}
		none := c.st.clone()
		v.havocPos(none)
		v.havocPos(c.st)
		return []Result{{st: none, ret: NilV{}}, {st: c.st, ret: v.freshAst(c.st, "result")}}
	}
}

// checkOwn runs every operator, and wrap(), with any children.
func checkOwn(p *Prog, rep *Report) (done map[*ssa.Function]bool) {
	done = map[*ssa.Function]bool{}
	run := func(what string, f func(v *Env)) {
		guard(rep, what, func() {
			v := newEnv(p, rep, "own")
			v.wellFormed()
			v.ownMonitor()
			f(v)
			for b := range v.e.visited {
				done[b.Parent()] = true
			}
			var keep []Violation
			for _, x := range v.e.viol { // panics are not the matter here
				if x.rule == "own.store" || x.rule == "own.map" || x.rule == "own.append" || x.rule == "own.attribute" {
					keep = append(keep, x)
				}
			}
			v.e.viol = keep
			v.done()
		})
	}
	n := 0
	for _, t := range p.namedTypes() {
		name := t.Obj().Name()
		m := p.ownMethod(name, "parse")
		if m == nil || m.Signature.Params().Len() != 1 || typeStr(m.Signature.Params().At(0).Type()) != "*ParseContext" || name == "Grammar" {
			continue
		}
		n++
		run(name, func(v *Env) {
			var self Val
			if _, isP := m.Signature.Recv().Type().Underlying().(*types.Pointer); isP {
				self = v.selfPtr(name)
			} else {
				self = v.e.symVal(v.st, p.typ(name), "self", "self")
			}
			v.self = nil
			outs := v.run(m, self, v.ctx)
			v.reached(len(outs), 1)
		})
	}
	if n < 9 {
		rep.lost = append(rep.lost, "the operators were not found")
	}
	for _, isRule := range []bool{false, true} {
		run("wrap", func(v *Env) {
			delete(v.e.hooks, "joeson.wrap")
			x := v.e.symVal(v.st, p.typ("Parser"), "x", "x").(RefV)
			v.st.nilF[x.obj] = false
			rule := v.ruleOf(v.st, x)
			v.e.assume(v.st, v.e.eqForm(v.st, v.loadField(v.st, rule, "parser"), x), isRule)
			if isRule { // labels are put on results the same way for all nodes
				v.e.assume(v.st, v.e.eqForm(v.st, v.loadField(v.st, rule, "label"), StrV{}), true)
				v.e.assume(v.st, v.e.form(v.st, v.loadField(v.st, rule, "skipCache")), false)
			}
			v.e.hooks["body"] = func(c *CallCtx) []Result {
				// a recursion may have happened
				st := c.st
				for _, id := range sortedObjs(st) {
					if o := v.e.get(st, id); o.kind == OCell && typeStr(o.typ) == "frame" {
						v.storeField(st, PtrV{obj: id}, "loopstage", IntV{linSym(v.e.freshSym("loopstage"))})
						m := v.e.symVal(st, types.NewSlice(types.Typ[types.Bool]), "", "wipemask")
						v.storeField(st, PtrV{obj: id}, "wipemask", m)
					}
				}
				none := st.clone()
				v.havocPos(none)
				v.advance(st)
				return []Result{{st: none, ret: NilV{}}, {st: st, ret: v.freshAst(st, "result")}}
			}
			got := 0
			for _, w := range v.run(p.fn("wrap"), FuncV{native: "body"}, x) {
				if f, ok := w.ret.(FuncV); ok && f.fn != nil {
					w.st.frames = nil
					got += len(v.e.Run(w.st, f.fn, []Val{v.ctx}, f.binds))
				}
			}
			v.reached(got, 3)
		})
	}
	return done
}

func sortedObjs(st *State) []ObjID {
	var r []ObjID
	for id := range st.heap {
		r = append(r, id)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// checkOwnCalls: what a parse reaches elsewhere does not write to results.
func checkOwnCalls(p *Prog, rep *Report, done map[*ssa.Function]bool) {
	ef := p.effects()
	par := ef.reach(parseRoots(p), nil)
	var fns []*ssa.Function
	for f := range par {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		rep.obl["own.function"]++
		if done[f] || f.Signature.Recv() != nil && f.Name() == "SetOrigin" {
			continue
		}
		s := ef.local(f)
		for _, w := range sortedKeys(s.writes) {
			rep.obl["own.write"]++
			if resultMemory(w) {
				rep.add(p, "own.elsewhere", s.writes[w].Pos(), "a parse writes %s of a result it may not have just created (%s)", w, chain(par, f))
			}
		}
	}
}

func resultMemory(w string) bool {
	switch w {
	case "NativeMap.vals", "NativeMap.keys", "NativeMap.Attr", "*NativeArray", "*NativeMap", "elem:[]Ast", "elem:NativeArray", "map:NativeMap.vals", "Attr.attributes", "map:Attr.attributes":
		return true
	}
	return false
}

func init() {
	checks["C13"] = checkDef{rule: "abstract interpretation of every operator and of wrap() with any children and callbacks: each store, map update and append goes to memory created by the same run, never into a result a child or the memo table gave; and effect analysis of whatever else a parse reaches",
		f: func(p *Prog, rep *Report) {
			checkSequence(p, rep, seqRules{own: true})
			checkOwnCalls(p, rep, checkOwn(p, rep))
			rep.floor("sequence.own-map", 1)
			rep.floor("own.store", 10)
			rep.floor("own.map", 1)
			rep.floor("own.append", 2)
		}}
}
