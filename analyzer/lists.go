package main

// C30: native arrays hold what was put in them. C31: lazies compute once.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type narr struct {
	*Env
	self PtrV
	was  SliceV
	J    Lin
	some bool
}

// newNarr: any array; J is the place of one of its elements, if there is one
func newNarr(p *Prog, rep *Report, rule string, some bool) *narr {
	a := &narr{Env: newEnv(p, rep, rule), some: some}
	e := a.e
	e.inlineText = true
	a.self = a.selfPtr("NativeArray")
	a.was = e.asSlice(a.st, e.load(a.st, a.self), nil)
	a.J = linSym(e.symByName("J"))
	z := a.st.zw()
	if !some {
		z.addLE(a.was.len)
		e.ordered = map[ObjID]bool{a.was.arr: true}
		return a
	}
	z.addLE(a.J.neg())
	z.addLE(a.J.addc(1).sub(a.was.len))
	e.skolems = map[ObjID][]Lin{a.was.arr: {a.J}}
	e.mkSkolems = []Lin{a.J}
	e.ordered = map[ObjID]bool{a.was.arr: true}
	return a
}

func (a *narr) chk(o Outcome, ok bool, rule, format string, x ...any) {
	if !ok && o.st.zone.infeasible() {
		return
	}
	a.e.Check(o.st, ok, a.rule+"."+rule, o.pos, format, x...)
}

func (a *narr) at(st *State, s SliceV, i Lin) Val {
	return a.e.elemGet(st, a.e.get(st, s.arr), s.off.add(i))
}

// kept: the elements that were there are there, at their place
func (a *narr) kept(o Outcome, now SliceV, n Lin) {
	a.chk(o, a.eqLin(o.st, now.len, n), "length", "the number of elements is not right")
	if !a.some {
		return
	}
	a.chk(o, a.e.same(o.st, a.at(o.st, now, a.J), a.at(o.st, a.was, a.J)), "order", "the elements that were there, or their order, change")
}

func checkArrays(p *Prog, rep *Report) {
	at := func(name string, f func(a *narr, fn *ssa.Function) int) {
		guard(rep, "NativeArray."+name, func() {
			fn := p.method("NativeArray", name)
			if fn == nil {
				rep.lost = append(rep.lost, "NativeArray."+name+" was not found")
				return
			}
			for _, some := range []bool{true, false} {
				if !some && name == "Get" {
					continue
				}
				a := newNarr(p, rep, "NativeArray."+name, some)
				a.reached(f(a, fn), 1)
				a.done()
			}
		})
	}
	now := func(a *narr, o Outcome) SliceV { return a.e.asSlice(o.st, a.e.load(o.st, a.self), nil) }
	at("Append", func(a *narr, fn *ssa.Function) (n int) {
		x := a.e.symVal(a.st, p.typ("Ast"), "x", "x")
		a.st.ghost["x"] = x
		for _, o := range a.noPanic(a.run(fn, a.self, x), true) {
			n++
			s := now(a, o)
			a.kept(o, s, a.was.len.addc(1))
			if a.eqLin(o.st, s.len, a.was.len.addc(1)) {
				a.chk(o, a.e.same(o.st, a.at(o.st, s, a.was.len), x), "last", "the last element is not the one that was appended")
			}
		}
		return
	})
	at("Get", func(a *narr, fn *ssa.Function) (n int) {
		for _, o := range a.noPanic(a.run(fn, a.self, IntV{a.J}), true) {
			n++
			a.chk(o, a.e.same(o.st, o.ret, a.at(o.st, a.was, a.J)), "value", "the element given is not the one at that place")
			a.kept(o, now(a, o), a.was.len)
		}
		return
	})
	at("Length", func(a *narr, fn *ssa.Function) (n int) {
		for _, o := range a.noPanic(a.run(fn, a.self), true) {
			n++
			a.chk(o, a.eqLin(o.st, a.e.lin(o.ret), a.was.len), "value", "the length is not the number of elements")
			a.kept(o, now(a, o), a.was.len)
		}
		return
	})
	at("Array", func(a *narr, fn *ssa.Function) (n int) {
		for _, o := range a.noPanic(a.run(fn, a.self), true) {
			n++
			a.kept(o, a.e.asSlice(o.st, o.ret, nil), a.was.len)
		}
		return
	})
	guard(rep, "NewNativeArray", func() {
		a := newNarr(p, rep, "NewNativeArray", true)
		n := 0
		for _, o := range a.noPanic(a.run(p.fn("NewNativeArray"), a.was), true) {
			n++
			r, ok := derefIface(o.ret).(PtrV)
			if !ok {
				a.e.undecided("NewNativeArray: what is returned is not understood")
				continue
			}
			a.kept(o, a.e.asSlice(o.st, a.e.load(o.st, r), nil), a.was.len)
		}
		a.reached(n, 1)
		a.done()
	})
	guard(rep, "NewEmptyNativeArray", func() {
		v := newEnv(p, rep, "NewEmptyNativeArray")
		n := 0
		for _, o := range v.noPanic(v.run(p.fn("NewEmptyNativeArray")), true) {
			n++
			r, ok := derefIface(o.ret).(PtrV)
			if !ok {
				v.e.undecided("NewEmptyNativeArray: what is returned is not understood")
				continue
			}
			s := v.e.asSlice(o.st, v.e.load(o.st, r), nil)
			v.e.Check(o.st, v.eqLin(o.st, s.len, linConst(0)), v.rule+".empty", o.pos, "a new empty array has elements")
			v.e.Check(o.st, v.e.get(o.st, r.obj).fresh, v.rule+".fresh", o.pos, "the new array is shared with others")
		}
		v.reached(n, 1)
		v.done()
	})
}

// lazyMethod: a method of an instance of helpers.Lazy
func lazyMethod(p *Prog, t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// lazyConstructors: what makes an instance of Lazy from a value, from a function
func lazyConstructors(p *Prog, lt types.Type) (fromValue, fromFunc *ssa.Function) {
	var cons [2]*ssa.Function // from a value, from a function
	origin := lt.(*types.Named).Origin()
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || f.Blocks == nil {
			continue
		}
		pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		if n, ok := pt.Elem().(*types.Named); !ok || n.Origin() != origin || !types.Identical(n, lt) && f.Signature.TypeParams().Len() == 0 {
			continue
		}
		k := 0
		if _, isF := f.Params[0].Type().Underlying().(*types.Signature); isF {
			k = 1
		}
		if cons[k] == nil || f.Signature.TypeParams().Len() == 0 {
			cons[k] = f // the instance, else the generic function
		}
	}
	return cons[0], cons[1]
}

// checkLazy follows Get, Set, IsSet and the constructors of an instance.
func checkLazy(p *Prog, rep *Report) {
	var lt types.Type // as used for the grammar of the notation
	if o, ok := p.typ("GrammarOptions").(*types.Named); ok {
		s := o.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Lazy" {
					lt = n
				}
			}
		}
	}
	if lt == nil {
		rep.lost = append(rep.lost, "the lazy grammar was not found")
		return
	}
	get, set, isSet := lazyMethod(p, lt, "Get"), lazyMethod(p, lt, "Set"), lazyMethod(p, lt, "IsSet")
	if get == nil || set == nil || isSet == nil {
		rep.lost = append(rep.lost, "the methods of Lazy were not found")
		return
	}
	vt := get.Signature.Results().At(0).Type()
	fromValue, fromFunc := lazyConstructors(p, lt)
	cons := []*ssa.Function{fromValue, fromFunc}
	type how struct {
		name string
		mk   func(v *Env) (Val, Val, bool) // the lazy, its value when it has one
	}
	var cases []how
	field := func(v *Env, self PtrV, fun bool) string {
		s := lt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if _, isF := s.Field(i).Type().Underlying().(*types.Signature); isF == fun {
				return s.Field(i).Name()
			}
		}
		panic(engineErr("the fields of Lazy were not recognised"))
	}
	any := func(v *Env, name string, t types.Type) Val {
		x := v.e.symVal(v.st, t, name, name)
		v.st.ghost["given "+name] = x
		return x
	}
	lazy := func(v *Env) PtrV {
		x := v.e.symVal(v.st, types.NewPointer(lt), "lazy", "lazy").(PtrV)
		v.st.nilF[x.obj] = false
		return x
	}
	// from any state, when it is kept as a pointer and a function; otherwise
	// from what the constructors make
	ptrs, funs := 0, 0
	fs := lt.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		switch fs.Field(i).Type().Underlying().(type) {
		case *types.Pointer:
			ptrs++
		case *types.Signature:
			funs++
		}
	}
	if ptrs == 1 && funs == 1 && fs.NumFields() == 2 {
		cases = append(cases, how{"value known", func(v *Env) (Val, Val, bool) {
			l := lazy(v)
			x := any(v, "x", vt)
			cell, ok := v.loadField(v.st, l, field(v, l, false)).(PtrV)
			if !ok {
				panic(engineErr("the value kept by a Lazy was not recognised"))
			}
			v.st.nilF[cell.obj] = false
			v.e.store(v.st, cell, x)
			return l, x, true
		}}, how{"not computed yet", func(v *Env) (Val, Val, bool) {
			l := lazy(v)
			v.storeField(v.st, l, field(v, l, false), NilV{})
			f := v.loadField(v.st, l, field(v, l, true))
			v.st.nilF[objOf(f)] = false
			return l, nil, false
		}})
	}
	for i, c := range cons {
		if c == nil {
			continue
		}
		i, c := i, c
		cases = append(cases, how{c.Name(), func(v *Env) (Val, Val, bool) {
			t := vt
			if i == 1 {
				t = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", vt)), false)
			}
			x := any(v, "x", t)
			if i == 1 {
				v.st.nilF[objOf(x)] = false
			}
			outs := v.noPanic(v.run(c, x), true)
			if len(outs) != 1 {
				panic(engineErr("the constructor of a Lazy has several outcomes"))
			}
			v.st = outs[0].st
			v.st.frames = nil
			v.chkO(outs[0], v.eqLin(v.st, ghostLin(v.st, "calls"), linConst(0)), "early", "the value is computed before it is asked for")
			return outs[0].ret, x, i == 0
		}})
	}
	n := 0
	for _, cs := range cases {
		for _, steps := range [][]string{{"Get", "Get", "IsSet", "Get"}, {"Set", "Get", "IsSet", "Get"}, {"IsSet", "Get", "IsSet", "Get"},
			{"Get", "Set", "Get", "IsSet"}, {"Set", "Set", "Get", "IsSet"}} {
			guard(rep, "Lazy "+cs.name, func() {
				v := newEnv(p, rep, "Lazy")
				e := v.e
				e.OnElem = nil
				v.st.ghost["calls"] = IntV{linConst(0)}
				e.dynHook = func(c *CallCtx) []Result {
					r := e.symVal(c.st, vt, "", "computed")
					c.st.ghost["calls"] = IntV{ghostLin(c.st, "calls").addc(1)}
					c.st.ghost["computed"] = r
					return one(c.st, r)
				}
				delete(e.hooks, "(*helpers.Lazy[T]).Get")
				l, val, known := cs.mk(v)
				l = derefIface(l)
				states := []Outcome{{st: v.st}}
				for _, step := range steps {
					var next []Outcome
					for _, o := range states {
						v.st = o.st
						v.st.frames = nil
						before := ghostLin(v.st, "calls")
						switch step {
						case "Set":
							y := any(v, "y", vt)
							for _, o := range v.noPanic(v.run(set, l, y), true) {
								v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "calls"), before), "set", "setting the value computes it")
								o.st.ghost["now"] = y
								next = append(next, o)
							}
						case "IsSet":
							for _, o := range v.noPanic(v.run(isSet, l), true) {
								has := known || o.st.ghost["now"] != nil || o.st.ghost["computed"] != nil
								v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "calls"), before), "asked", "asking whether there is a value computes it")
								b, ok := o.ret.(BoolV)
								v.chkO(o, ok && e.decide(o.st, b.f) == map[bool]tri{true: 1, false: 2}[has], "is-set", "whether there is a value is not answered right")
								next = append(next, o)
							}
						case "Get":
							want := int64(0)
							if !known && v.st.ghost["now"] == nil && v.st.ghost["computed"] == nil {
								want = 1
							}
							for _, o := range v.noPanic(v.run(get, l), true) {
								n++
								st := o.st
								x := val
								if now := st.ghost["now"]; now != nil {
									x = now
								} else if !known {
									x = st.ghost["computed"]
								}
								v.chkO(o, v.eqLin(st, ghostLin(st, "calls"), before.addc(want)), "once", "the value is not computed exactly once, when it is first asked for")
								v.chkO(o, x != nil && e.same(st, o.ret, x), "value", "the value given is not the one computed or set")
								next = append(next, o)
							}
						}
					}
					states = next
				}
				v.reached(len(states), 1)
				v.done()
			})
		}
	}
	rep.obl["lazy.cases"] = n
}

func init() {
	checks["C30"] = checkDef{rule: "any list of elements: Append adds the element at the end and keeps the others at their places, Get, Length and Array answer as the list does and change nothing, constructors hold the elements given",
		f: func(p *Prog, rep *Report) {
			checkArrays(p, rep)
			rep.floor("NativeArray.Append.last", 2)
			rep.floor("NativeArray.Get.value", 1)
			rep.floor("NewNativeArray.order", 1)
		}}
	checks["C31"] = checkDef{rule: "a lazy value with its value known, not computed yet, made from a value or from a function, asked for it, set or tested first: the function is called exactly once, when first asked, never when the value is known or was set, and the value given is the one computed or last set",
		f: func(p *Prog, rep *Report) {
			checkLazy(p, rep)
			rep.floor("Lazy.once", 12)
			rep.floor("Lazy.is-set", 8)
		}}
}
