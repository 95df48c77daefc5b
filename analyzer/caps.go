package main

// Which operators capture and which labels they carry: constructors and
// prepare() (C15).

import (
	"go/types"
)

func (v *Env) method(st *State, recv PtrV, name string) Val {
	t := types.NewPointer(v.e.get(st, recv.obj).typ)
	ms := v.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return FuncV{fn: v.p.prog.MethodValue(ms.At(i))}
		}
	}
	panic(engineErr("no method " + name + " of " + t.String()))
}

// boolIs: the boolean field of the rule of x
func (v *Env) boolIs(st *State, x Val, want bool) bool {
	b, ok := x.(BoolV)
	return ok && v.e.decide(st, b.f) == map[bool]tri{true: yes, false: no}[want]
}

// built: the pointer or struct a constructor returned, as something fields can be read from
func (v *Env) ruleField(st *State, x Val, name string) Val {
	e := v.e
	switch y := x.(type) {
	case IfaceV:
		return v.ruleField(st, y.val, name)
	case PtrV:
		return v.loadField(st, y, name)
	case StructV:
		o := e.newObj(OCell, y.typ, "value")
		n := *o
		n.v = y
		st.heap[o.id] = &n
		return v.loadField(st, PtrV{obj: o.id}, name)
	}
	panic(engineErr("constructor result " + e.show(st, x)))
}

func labelClasses(v *Env, label Val, f func(st *State, class string)) {
	st0 := v.st
	for _, class := range []string{"", "@", "&", "other"} {
		st := st0.clone()
		for _, x := range []string{"", "@", "&"} {
			v.e.assume(st, v.e.eqForm(st, label, StrV{s: x}), class == x)
		}
		if !st.dead {
			f(st, class)
		}
	}
}

func checkCaptures(p *Prog, rep *Report) {
	str := func(s string) Val { return IfaceV{p.typ("NativeString"), StrV{s: s}} }
	// constructors
	type ctor struct {
		fn   string
		args func(v *Env) []Val
		want bool
		what string
	}
	nmT := types.NewPointer(p.typ("NativeMap"))
	parser := func(v *Env, name string) Val {
		x := v.e.symVal(v.st, p.typ("Parser"), name, name)
		v.st.nilF[objOf(x)] = false
		return x
	}
	asMap := func(v *Env) []Val {
		m := v.e.symVal(v.st, nmT, "it", "it").(PtrV)
		v.st.nilF[m.obj] = false
		return []Val{IfaceV{nmT, m}}
	}
	nameArr := func(s string, param bool) func(v *Env) []Val {
		return func(v *Env) []Val {
			naT := p.typ("NativeArray")
			arr := v.e.newObj(OArray, p.typ("Ast"), "args")
			arr.fresh = true
			v.st.heap[arr.id] = arr
			v.e.elemSet(v.st, arr, linConst(0), str(s), true)
			n := int64(1)
			if param {
				v.e.elemSet(v.st, v.e.get(v.st, arr.id), linConst(1), parser(v, "param"), true)
				n = 2
			}
			c := v.e.newObj(OCell, naT, "array")
			c.v = SliceV{arr.id, linConst(0), linConst(n)}
			v.st.heap[c.id] = c
			return []Val{IfaceV{types.NewPointer(naT), PtrV{obj: c.id}}}
		}
	}
	list := []ctor{
		{"newStr", func(v *Env) []Val { return []Val{v.e.symStr(v.st, "s", "s")} }, false, "a string literal"},
		{"newLookahead", asMap, false, "a lookahead"},
		{"newNot", func(v *Env) []Val { return []Val{parser(v, "it")} }, false, "a negative lookahead"},
		{"newRegexFromString", func(v *Env) []Val { return []Val{v.e.symStr(v.st, "s", "s")} }, true, "a regular expression"},
	}
	for _, n := range []string{"_", "__", "_x", "_X", "x", "x_", "X_Y", "a"} {
		n := n
		list = append(list,
			ctor{"newRef", func(v *Env) []Val { return []Val{str(n)} }, n[0] != '_', "a reference to " + n},
			ctor{"newRef", nameArr(n, false), n[0] != '_', "a reference to " + n},
			ctor{"newRef", nameArr(n, true), n[0] != '_', "a reference with parameter to " + n})
	}
	for _, c := range list {
		guard(rep, c.fn, func() {
			v := newEnv(p, rep, c.fn)
			v.e.hooks["(*joeson.NativeMap).GetOrPanic"] = func(cc *CallCtx) []Result { return one(cc.st, parser(v, "expr")) }
			v.e.hooks["(*joeson.NativeMap).Get"] = v.e.hooks["(*joeson.NativeMap).GetOrPanic"]
			n := 0
			for _, o := range v.run(p.fn(c.fn), c.args(v)...) {
				if o.panic != "" {
					continue
				}
				n++
				v.chkO(o, v.boolIs(o.st, v.ruleField(o.st, o.ret, "capture"), c.want), "captures", "%s has the wrong capture flag", c.what)
			}
			v.reached(n, 1)
			v.done()
		})
	}
	// a repetition captures when its element does
	for _, captures := range []bool{false, true} {
		guard(rep, "newPattern", func() {
			v := newEnv(p, rep, "newPattern")
			value := parser(v, "value")
			v.e.assume(v.st, v.e.form(v.st, v.loadField(v.st, v.ruleOf(v.st, value), "capture")), captures)
			get := func(cc *CallCtx) Val {
				if s, ok := cc.args[1].(StrV); ok && s.obj == 0 && s.s == "value" {
					return value
				}
				return v.e.symVal(cc.st, p.typ("Ast"), "", "option")
			}
			v.e.hooks["(*joeson.NativeMap).Get"] = func(cc *CallCtx) []Result { return one(cc.st, get(cc)) }
			v.e.hooks["(*joeson.NativeMap).GetOrPanic"] = v.e.hooks["(*joeson.NativeMap).Get"]
			v.e.hooks["(*joeson.NativeMap).GetExists"] = func(cc *CallCtx) []Result {
				return one(cc.st, TupleV{[]Val{get(cc), BoolV{v.e.opaqueForm(cc.st, "exists")}}})
			}
			n := 0
			for _, o := range v.run(p.fn("newPattern"), asMap(v)...) {
				if o.panic != "" {
					continue
				}
				n++
				v.chkO(o, v.boolIs(o.st, v.ruleField(o.st, o.ret, "capture"), captures), "captures", "a repetition does not capture exactly when its element does")
				v.chkO(o, v.e.same(o.st, v.ruleField(o.st, o.ret, "value"), value), "value", "the repeated element is another one")
			}
			v.reached(n, 1)
			v.done()
		})
	}
	// an alternation captures when all its alternatives do
	guard(rep, "choice", func() {
		v := newEnv(p, rep, "choice")
		e := v.e
		self := v.selfPtr("choice")
		alts := e.asSlice(v.st, v.loadField(v.st, self, "choices"), p.typ("Ast"))
		v.st.ghost["k"] = IntV{linConst(0)}
		v.st.ghost["no"] = BoolV{fBool(false)}
		e.ifHooks["Parser.getRule"] = func(c *CallCtx) []Result {
			st := c.st
			r := v.ruleOf(st, c.recv)
			arr, idx, ok := v.elemTag(st, c.recv)
			if !ok || arr != alts.arr {
				return one(st, r)
			}
			f := e.form(st, v.loadField(st, r, "capture"))
			not := st.clone()
			e.assume(not, f, false)
			not.note(c.pos, "an alternative does not capture")
			not.ghost["no"] = BoolV{fBool(true)}
			e.assume(st, f, true)
			if v.eqLin(st, idx, ghostLin(st, "k").add(alts.off)) {
				st.ghost["k"] = IntV{ghostLin(st, "k").addc(1)}
			}
			return []Result{{st: not, ret: r}, {st: st, ret: r}}
		}
		outs := v.noPanic(v.run(p.method("choice", "prepare"), self), true)
		for _, o := range outs {
			c := v.loadField(o.st, self, "capture")
			no := e.decide(o.st, o.st.ghost["no"].(BoolV).f) == yes
			if no {
				v.chkO(o, v.boolIs(o.st, c, false), "captures", "an alternation captures although an alternative does not")
			} else {
				v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "k"), alts.len) && v.boolIs(o.st, c, true), "captures", "whether an alternation captures does not follow from all its alternatives")
			}
		}
		v.reached(len(outs), 2)
		v.done()
	})
	// an optional captures when its element does, and carries its labels
	guard(rep, "existential", func() {
		v0 := newEnv(p, rep, "existential")
		self := v0.selfPtr("existential")
		label := v0.loadField(v0.st, self, "label")
		own := map[ObjID]string{}
		for _, f := range []string{"labels_", "captures_"} {
			l := v0.loadField(v0.st, self, f).(PtrV)
			v0.st.nilF[l.obj] = false
			own[l.obj] = f
		}
		it := v0.loadField(v0.st, self, "it")
		v0.st.nilF[objOf(it)] = false
		theirs := map[ObjID]string{}
		r := v0.ruleOf(v0.st, it)
		lists := map[string]SliceV{}
		for _, f := range []string{"labels_", "captures_"} {
			l := v0.loadField(v0.st, r, f).(PtrV)
			v0.st.nilF[l.obj] = false
			theirs[l.obj] = f
			var et types.Type = types.Typ[types.String]
			if f == "captures_" {
				et = p.typ("Ast")
			}
			lists[f] = v0.e.symVal(v0.st, types.NewSlice(et), "its."+f, f).(SliceV)
		}
		v0.e.hooks["(*helpers.Lazy[T]).Get"] = func(c *CallCtx) []Result {
			id := objOf(c.args[0])
			if f, ok := own[id]; ok {
				if x, ok := c.st.ghost["set."+f]; ok {
					return one(c.st, x)
				}
				return nil
			}
			f, ok := theirs[id]
			if !ok {
				return nil
			}
			a := c.st.clone()
			a.zw().addEQ(lists[f].len)
			c.st.zw().addLE(lists[f].len.neg().addc(1))
			return []Result{{st: a, ret: lists[f]}, {st: c.st, ret: lists[f]}}
		}
		v0.e.hooks["(*helpers.Lazy[T]).Set"] = func(c *CallCtx) []Result {
			if f, ok := own[objOf(c.args[0])]; ok {
				c.st.ghost["set."+f] = c.args[1]
			}
			return one(c.st, TupleV{})
		}
		st0 := v0.st
		n := 0
		labelClasses(v0, label, func(st *State, class string) {
			v0.st = st
			for _, o := range v0.noPanic(v0.run(p.method("existential", "prepare"), self), true) {
				n++
				z := o.st.zone
				slice := func(f string) (SliceV, bool) {
					x, ok := o.st.ghost["set."+f]
					if !ok {
						return SliceV{}, false
					}
					if isNil(x) {
						return v0.e.asSlice(o.st, x, types.NewSlice(p.typ("Ast"))), true
					}
					s, ok := x.(SliceV)
					return s, ok
				}
				caps, ok := slice("captures_")
				v0.chkO(o, ok && v0.eqLin(o.st, caps.len, lists["captures_"].len), "captures", "an optional does not have the captures of its element")
				c := v0.loadField(o.st, self, "capture")
				cl := lists["captures_"].len
				v0.chkO(o, z.ub(cl) <= 0 && v0.boolIs(o.st, c, false) || z.lb(cl) > 0 && v0.boolIs(o.st, c, true), "captures", "an optional does not capture exactly when its element does")
				lab, ok := slice("labels_")
				lab2 := v0.loadField(o.st, self, "label")
				if class == "other" {
					good := ok && v0.eqLin(o.st, lab.len, linConst(1))
					if good {
						good = v0.e.same(o.st, v0.e.elemGet(o.st, v0.e.get(o.st, lab.arr), lab.off), label)
					}
					v0.chkO(o, good, "labels", "an optional with a label of its own does not carry just that label")
					v0.chkO(o, v0.e.same(o.st, lab2, label), "labels", "the label of an optional is changed")
					continue
				}
				v0.chkO(o, ok && v0.eqLin(o.st, lab.len, lists["labels_"].len), "labels", "an optional does not carry the labels of its element")
				ll := lists["labels_"].len
				if class == "" && z.lb(ll) > 0 {
					v0.chkO(o, v0.e.same(o.st, lab2, StrV{s: "@"}), "labels", "the labels of an optional element are not merged into the sequence")
				} else if class == "" {
					v0.chkO(o, z.ub(ll) <= 0 && v0.e.same(o.st, lab2, label), "labels", "the label of an optional does not follow from its element's labels")
				} else {
					v0.chkO(o, v0.e.same(o.st, lab2, label), "labels", "the label of an optional is changed")
				}
			}
		})
		v0.st = st0
		v0.reached(n, 8)
		v0.done()
	})
	// default lists of labels and captures
	guard(rep, "rule", func() {
		v := newEnv(p, rep, "rule")
		e := v.e
		e.maxSteps = 1 << 20
		outs := v.run(p.fn("newRule"))
		for _, o := range outs {
			self := o.ret.(PtrV)
			st0 := o.st
			label := e.symStr(st0, "label", "label")
			v.storeField(st0, self, "label", label)
			v.st = st0
			v.chkO(o, v.boolIs(st0, v.loadField(st0, self, "capture"), true), "captures", "a parser does not capture by default")
			labelClasses(v, label, func(st *State, class string) {
				st.frames = nil
				l := v.loadField(st, self, "labels_").(PtrV)
				get := v.method(st, l, "Get").(FuncV)
				for _, q := range v.noPanic(e.Run(st, get.fn, []Val{l}, nil), true) {
					s := e.asSlice(q.st, q.ret, types.NewSlice(types.Typ[types.String]))
					if class == "" {
						v.chkO(q, q.st.zone.ub(s.len) <= 0, "labels", "an unlabelled parser carries a label")
					} else {
						v.chkO(q, v.eqLin(q.st, s.len, linConst(1)) && e.same(q.st, e.elemGet(q.st, e.get(q.st, s.arr), s.off), label), "labels", "a labelled parser does not carry its label")
					}
				}
			})
			for _, b := range []bool{false, true} {
				st := st0.clone()
				st.frames = nil
				v.storeField(st, self, "capture", BoolV{fBool(b)})
				l := v.loadField(st, self, "captures_").(PtrV)
				get := v.method(st, l, "Get").(FuncV)
				for _, q := range v.noPanic(e.Run(st, get.fn, []Val{l}, nil), true) {
					s := e.asSlice(q.st, q.ret, types.NewSlice(p.typ("Ast")))
					n := int64(0)
					if b {
						n = 1
					}
					v.chkO(q, v.eqLin(q.st, s.len, linConst(n)), "captures", "a parser does not count as one capture exactly when it captures")
				}
			}
		}
		v.reached(len(outs), 1)
		v.done()
	})
	// the labels of a reference labelled @ are those of the rule it names
	guard(rep, "ref", func() {
		v := newEnv(p, rep, "ref")
		e := v.e
		for _, o := range v.run(p.fn("newRef"), str("x")) {
			if o.panic != "" {
				continue
			}
			self := o.ret.(PtrV)
			label := e.symStr(o.st, "label", "label")
			v.storeField(o.st, self, "label", label)
			gm := e.symVal(o.st, types.NewPointer(p.typ("Grammar")), "grammar", "grammar").(PtrV)
			o.st.nilF[gm.obj] = false
			v.storeField(o.st, self, "grammar", gm)
			v.st = o.st
			target := parser(v, "target")
			tl := v.loadField(o.st, v.ruleOf(o.st, target), "labels_").(PtrV)
			o.st.nilF[tl.obj] = false
			lists := e.symVal(o.st, types.NewSlice(types.Typ[types.String]), "target.labels", "labels").(SliceV)
			e.hooks["(*joeson.Grammar).getRuleRef"] = func(c *CallCtx) []Result {
				if !v.chk(c.st, e.same(c.st, c.args[1], StrV{s: "x"}), "labels", c, "another rule than the referenced one is looked up") {
					return nil
				}
				miss := c.st.clone()
				return []Result{{st: miss, ret: NilV{}}, {st: c.st, ret: target}}
			}
			labelClasses(v, label, func(st *State, class string) {
				st.frames = nil
				l := v.loadField(st, self, "labels_").(PtrV)
				get := v.method(st, l, "Get").(FuncV)
				e.hooks["(*helpers.Lazy[T]).Get"] = func(c *CallCtx) []Result {
					if objOf(c.args[0]) == tl.obj {
						c.st.ghost["asked"] = BoolV{fBool(true)}
						return one(c.st, lists)
					}
					return nil
				}
				for _, q := range e.Run(st, get.fn, []Val{l}, nil) {
					if q.panic != "" {
						v.chkO(q, class == "@", "labels", "asking the labels of a reference panics (%s)", q.panic)
						continue
					}
					s := e.asSlice(q.st, q.ret, types.NewSlice(types.Typ[types.String]))
					switch class {
					case "":
						v.chkO(q, q.st.zone.ub(s.len) <= 0, "labels", "an unlabelled reference carries labels")
					case "@":
						v.chkO(q, v.eqLin(q.st, s.len, lists.len) && s.arr == lists.arr, "labels", "a reference labelled @ does not carry the labels of its rule")
					default:
						v.chkO(q, v.eqLin(q.st, s.len, linConst(1)) && e.same(q.st, e.elemGet(q.st, e.get(q.st, s.arr), s.off), label), "labels", "a labelled reference does not carry its label")
					}
				}
			})
		}
		v.done()
	})
	rep.floor("existential.captures", 4)
	rep.floor("choice.captures", 2)
	rep.floor("newRef.captures", 16)
	rep.floor("rule.labels", 4)
	rep.floor("ref.labels", 4)
}

// checkChildLabels: who makes a map of a labelled element. A sequence records
// the labels of its elements itself; any other parser that has an element
// leaves it to the element, or the label is lost. An optional element of a
// sequence may leave it to the sequence, except when what it gives is merged
// (@, &): that has to be a map.
func checkChildLabels(p *Prog, rep *Report) {
	for _, t := range p.parserKinds() {
		name := t.Obj().Name()
		if len(p.children(t)) == 0 || name == "not" || name == "lookahead" {
			continue // no element, or one whose result is not used
		}
		fn := p.method(name, "handlesChildLabel")
		guard(rep, name, func() {
			v := newEnv(p, rep, name)
			e := v.e
			e.OnElem = nil
			self := v.selfPtr(name)
			var rule Val = self
			if name != "Grammar" {
				rule = v.ruleOf(v.st, self)
				v.st.nilF[objOf(rule)] = false
			}
			label, parent := v.loadField(v.st, rule, "label"), v.loadField(v.st, rule, "parent")
			handles := BoolV{e.opaqueForm(v.st, "handles")}
			e.ifHooks["Parser.handlesChildLabel"] = func(c *CallCtx) []Result {
				if e.same(c.st, c.recv, parent) {
					return one(c.st, handles)
				}
				return e.defaultCall(c)
			}
			n := 0
			labelClasses(v, label, func(st *State, class string) {
				for _, root := range []bool{true, false} {
					for _, by := range []bool{true, false} {
						if root && by {
							continue
						}
						s := st.clone()
						s.nilF[objOf(parent)] = root
						if !root {
							e.assume(s, handles.f, by)
						}
						v.st = s
						for _, o := range v.noPanic(v.run(fn, self), true) {
							n++
							b, ok := o.ret.(BoolV)
							is := no
							if ok {
								is = e.decide(o.st, b.f)
							}
							switch {
							case name == "sequence":
								v.chkO(o, ok && is == yes, "child-label", "a sequence leaves the labels it records to its elements")
							case name == "existential" && by && class != "@" && class != "&":
								// the label is its own, or none is involved
							default:
								v.chkO(o, ok && is == no, "child-label", "the label of an element of a %s is recorded neither by it nor by the element (label %q, parent recording labels: %v)", name, class, by)
							}
						}
					}
				}
			})
			v.reached(n, 1)
			v.done()
		})
	}
	rep.floor("existential.child-label", 8)
	rep.floor("sequence.child-label", 8)
}
