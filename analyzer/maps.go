package main

// C24: NativeMap keeps its keys and values consistent.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type nmap struct {
	*Env
	self         PtrV
	valsF, keysF string
	vals         RefV
	keys         SliceV
	k            StrV
	v0           Val
	J, W         Lin
	listed       bool
}

// mapShape: the fields holding the values and the keys
func mapShape(p *Prog) (vals, keys string) {
	t := p.typ("NativeMap")
	if t == nil {
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Map:
			if vals != "" {
				return "", ""
			}
			vals = s.Field(i).Name()
		case *types.Slice:
			if typeStr(u.Elem()) == "string" {
				if keys != "" {
					return "", ""
				}
				keys = s.Field(i).Name()
			}
		}
	}
	return
}

// newNmap: any map whose keys are those listed, each once; k is one of them
// (the W-th) or none.
func newNmap(p *Prog, rep *Report, rule string, listed bool) *nmap {
	m := &nmap{Env: newEnv(p, rep, rule), listed: listed}
	m.valsF, m.keysF = mapShape(p)
	if m.valsF == "" || m.keysF == "" {
		panic(engineErr("the fields of NativeMap were not recognised"))
	}
	e, st := m.e, m.st
	e.inlineText = true
	m.self = m.selfPtr("NativeMap")
	m.vals = m.loadField(st, m.self, m.valsF).(RefV)
	st.nilF[m.vals.obj] = false
	m.keys = e.asSlice(st, m.loadField(st, m.self, m.keysF), nil)
	m.k = e.symVal(st, types.Typ[types.String], "k", "k").(StrV)
	m.v0 = e.symVal(st, p.typ("Ast"), "v0", "v0")
	st.nilF[objOf(m.v0)] = false
	st.ghost["key"], st.ghost["value"] = m.k, m.v0 // known across loops
	for _, n := range []string{"NativeArray", "NativeMap"} {
		e.hooks["(*joeson."+n+").Concat"] = func(c *CallCtx) []Result { return e.defaultCall(c) }
	}
	m.J, m.W = linSym(e.symByName("J")), linSym(e.symByName("W"))
	z := st.zw()
	z.addLE(m.J.neg())
	z.addLE(m.J.addc(1).sub(m.keys.len))
	e.skolems = map[ObjID][]Lin{m.keys.arr: {m.J}}
	e.mkSkolems = []Lin{m.J}
	e.ordered = map[ObjID]bool{m.keys.arr: true}
	if listed {
		z.addLE(m.W.neg())
		z.addLE(m.W.addc(1).sub(m.keys.len))
		e.skolems[m.keys.arr] = []Lin{m.W, m.J}
	}
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
		if o.id != m.keys.arr {
			return x
		}
		if m.listed && m.eqLin(st, idx, m.W) {
			return m.k
		}
		if !m.listed || st.zone.lb(idx.sub(m.W)) > 0 || st.zone.ub(idx.sub(m.W)) < 0 {
			e.assume(st, e.eqForm(st, m.k, x), false)
			e.assume(st, e.eqForm(st, x, m.k), false)
		}
		return x
	}
	vo := *e.get(st, m.vals.obj)
	if listed {
		vo.entries = append(vo.entries, mapEnt{m.k, m.v0, true})
	} else {
		vo.entries = append(vo.entries, mapEnt{m.k, nil, false})
	}
	vo.written = true // kept across loops
	st.heap[m.vals.obj] = &vo
	return m
}

func (m *nmap) chkM(o Outcome, ok bool, rule, format string, a ...any) {
	if !ok && o.st.zone.infeasible() {
		return
	}
	m.e.Check(o.st, ok, m.rule+"."+rule, o.pos, format, a...)
}

func (m *nmap) same0(st *State, v Val) bool {
	if m.listed {
		return m.e.same(st, v, m.v0)
	}
	return isNil(v)
}

// bools: the outcomes by a boolean result
func (m *nmap) bools(o Outcome, b Val) (yes, no []Outcome) {
	f := b.(BoolV).f
	a, c := o, o
	a.st, c.st = o.st.clone(), o.st
	m.e.assume(a.st, f, true)
	m.e.assume(c.st, f, false)
	if !a.st.dead && !a.st.zone.bad && !a.st.zone.infeasible() {
		yes = append(yes, a)
	}
	if !c.st.dead && !c.st.zone.bad && !c.st.zone.infeasible() {
		no = append(no, c)
	}
	return
}

// holdsKeys: the list of keys is the one before, added to
func (m *nmap) holdsKeys(o Outcome, added bool) {
	st := o.st
	now := m.e.asSlice(st, m.loadField(st, m.self, m.keysF), nil)
	want := m.keys.len
	if added {
		want = want.addc(1)
	}
	if added {
		m.chkM(o, !m.eqLin(st, now.len, m.keys.len), "new-key", "a new key is not added to the keys")
	} else {
		m.chkM(o, st.zone.ub(now.len.sub(want)) <= 0, "known-key", "a key that is there already is listed again")
	}
	m.chkM(o, m.eqLin(st, now.len, want), "keys", "the number of keys is not right afterwards")
	if !m.eqLin(st, now.len, want) {
		return
	}
	at := func(s SliceV, i Lin) Val { return m.e.elemGet(st, m.e.get(st, s.arr), s.off.add(i)) }
	if added {
		m.chkM(o, m.e.same(st, at(now, m.keys.len), m.k), "new-key", "the key added at the end is not the one that was set")
	}
	// without keys before there is nothing to compare
	some := st.clone()
	if some.zone.ub(m.keys.len) > 0 {
		st = some
		m.chkM(o, m.e.same(st, at(now, m.J), at(m.keys, m.J)), "order", "the keys that were there, or their order, change")
	}
}

func checkMaps(p *Prog, rep *Report) {
	at := func(name string, f func(m *nmap, fn *ssa.Function)) {
		fn := p.method("NativeMap", name)
		if fn == nil {
			return
		}
		for _, listed := range []bool{true, false} {
			guard(rep, "NativeMap."+name, func() {
				m := newNmap(p, rep, "NativeMap."+name, listed)
				f(m, fn)
				m.done()
			})
		}
	}
	at("Set", func(m *nmap, fn *ssa.Function) {
		e := m.e
		x := e.symVal(m.st, p.typ("Ast"), "x", "x")
		m.st.ghost["set"] = x
		e.OnMapSet = func(e *Engine, st *State, o *Obj, k, v Val, pos token.Pos) {
			if o.id == m.vals.obj {
				e.Check(st, e.same(st, k, m.k), m.rule+".other-key", pos, "the value of another key is changed (%s)", e.show(st, k))
			}
		}
		n := 0
		for _, o := range m.noPanic(m.run(fn, m.self, m.k, x), true) {
			n++
			got, ok := m.valueOf(o.st, m.k)
			m.chkM(o, ok && e.same(o.st, got, x), "value", "the value set is not the one kept")
			m.holdsKeys(o, !m.listed)
		}
		m.reached(n, 1)
	})
	lookup := func(name string, f func(m *nmap, o Outcome)) {
		at(name, func(m *nmap, fn *ssa.Function) {
			n := 0
			m.frozen()
			for _, o := range m.run(fn, m.self, m.k) {
				n++
				f(m, o)
			}
			m.reached(n, 1)
		})
	}
	quiet := func(m *nmap, o Outcome) bool {
		m.chkM(o, o.panic == "", "panic", "panics: %s", o.panic)
		return o.panic == ""
	}
	answer := func(m *nmap, o Outcome, b Val, what string) {
		yes, no := m.bools(o, b)
		for _, c := range yes {
			m.chkM(c, m.listed, "absent", "an absent key is reported as %s", what)
		}
		for _, c := range no {
			m.chkM(c, !m.listed, "present", "a key that is there is not reported as %s", what)
		}
	}
	lookup("GetExists", func(m *nmap, o Outcome) {
		if quiet(m, o) {
			t := o.ret.(TupleV)
			answer(m, o, t.v[1], "present")
			m.chkM(o, m.same0(o.st, t.v[0]), "value", "the value given is not the one last set")
		}
	})
	lookup("Get", func(m *nmap, o Outcome) {
		if quiet(m, o) {
			m.chkM(o, m.same0(o.st, o.ret), "value", "the value given is not the one last set")
		}
	})
	lookup("GetOrPanic", func(m *nmap, o Outcome) {
		if o.panic != "" {
			m.chkM(o, !m.listed, "present", "refuses a key that is there")
			return
		}
		m.chkM(o, m.listed, "absent", "an absent key is not refused")
		if m.listed {
			m.chkM(o, m.same0(o.st, o.ret), "value", "the value given is not the one last set")
		}
	})
	lookup("Exists", func(m *nmap, o Outcome) {
		if quiet(m, o) {
			answer(m, o, o.ret, "present")
		}
	})
	lookup("IsUndefined", func(m *nmap, o Outcome) {
		if !quiet(m, o) {
			return
		}
		yes, no := m.bools(o, o.ret)
		yesT, noT := tri(1), tri(2)
		isU := func(st *State) tri {
			return m.e.decide(st, &Form{op: fType, obj: objOf(m.v0), typ: p.typ("NativeUndefined")})
		}
		for _, c := range yes {
			m.chkM(c, !m.listed || isU(c.st) == yesT, "defined", "a key with a value is reported as undefined")
		}
		for _, c := range no {
			m.chkM(c, m.listed && isU(c.st) == noT, "undefined", "a key that is absent or undefined is reported as defined")
		}
	})
	for _, name := range []string{"GetStringExists", "GetIntExists"} {
		lookup(name, func(m *nmap, o Outcome) {
			if o.panic != "" {
				m.chkM(o, m.listed, "absent", "panics for an absent key")
				return
			}
			answer(m, o, o.ret.(TupleV).v[1], "present")
		})
	}
	// any of several keys: the first that is there
	at("GetWhicheverOrPanic", func(m *nmap, fn *ssa.Function) {
		e := m.e
		m.frozen()
		ks := e.asSlice(m.st, e.symVal(m.st, types.NewSlice(types.Typ[types.String]), "ks", "ks"), nil)
		I := linSym(e.symByName("I"))
		if m.listed {
			z := m.st.zw()
			z.addLE(I.neg())
			z.addLE(I.addc(1).sub(ks.len))
			e.skolems[ks.arr] = []Lin{I}
			e.ordered[ks.arr] = true
		}
		old := e.OnElem
		e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
			if o.id != ks.arr {
				return old(e, st, o, idx, x)
			}
			if m.listed {
				if m.eqLin(st, idx, I) {
					return m.k
				}
				if st.zone.ub(idx.sub(I)) >= 0 {
					return x // any key
				}
			}
			e.assume(st, e.eqForm(st, m.k, x), false)
			vo := *e.get(st, m.vals.obj)
			vo.entries = append(append([]mapEnt(nil), vo.entries...), mapEnt{x, nil, false})
			st.heap[m.vals.obj] = &vo
			return x
		}
		n := 0
		for _, o := range m.run(fn, m.self, ks) {
			n++
			if o.panic != "" {
				m.chkM(o, !m.listed, "present", "refuses although one of the keys is there")
				continue
			}
			m.chkM(o, m.listed, "absent", "no key is there and it does not refuse")
			if m.listed {
				m.chkM(o, e.same(o.st, o.ret, m.v0), "value", "the value given is not that of the first of the keys that is there")
			}
		}
		m.reached(n, 1)
	})
	at("Keys", func(m *nmap, fn *ssa.Function) {
		m.frozen()
		n := 0
		for _, o := range m.noPanic(m.run(fn, m.self), true) {
			n++
			st := o.st
			r := m.e.asSlice(st, o.ret, nil)
			m.chkM(o, m.eqLin(st, r.len, m.keys.len), "all", "the keys given are not all the keys")
			if st.zone.ub(m.keys.len) > 0 {
				m.chkM(o, m.e.same(st, m.e.elemGet(st, m.e.get(st, r.arr), r.off.add(m.J)), m.e.elemGet(st, m.e.get(st, m.keys.arr), m.keys.off.add(m.J))), "order", "the keys given are not those listed, in order")
			}
		}
		m.reached(n, 1)
	})
	guard(rep, "NativeMap.IsEmpty", func() {
		fn := p.method("NativeMap", "IsEmpty")
		for _, some := range []bool{true, false} {
			m := newNmap(p, rep, "NativeMap.IsEmpty", some)
			vo := *m.e.get(m.st, m.vals.obj)
			if !some {
				m.st.zw().bad = false
				vo.sym, vo.entries = false, nil
				ko := *m.e.get(m.st, m.keys.arr)
				m.st.heap[ko.id] = &ko
				m.storeField(m.st, m.self, m.keysF, SliceV{m.keys.arr, linConst(0), linConst(0)})
			}
			m.st.heap[vo.id] = &vo
			n := 0
			for _, o := range m.noPanic(m.run(fn, m.self), true) {
				yes, no := m.bools(o, o.ret)
				n++
				for _, c := range yes {
					m.chkM(c, !some, "empty", "a map with a key is reported as empty")
				}
				for _, c := range no {
					m.chkM(c, some, "nonempty", "a map without keys is reported as not empty")
				}
			}
			m.reached(n, 1)
			m.done()
		}
	})
	checkNewMap(p, rep)
}

func (m *nmap) valueOf(st *State, k Val) (Val, bool) {
	r, isR := m.loadField(st, m.self, m.valsF).(RefV)
	if !isR {
		return nil, false
	}
	for _, x := range m.e.get(st, r.obj).entries {
		if m.e.same(st, x.k, k) {
			return x.v, x.present
		}
	}
	return nil, false
}

// frozen: lookups change nothing
func (m *nmap) frozen() {
	m.e.OnMapSet = func(e *Engine, st *State, o *Obj, k, v Val, pos token.Pos) {
		if o.id == m.vals.obj {
			e.Check(st, false, m.rule+".changes", pos, "a lookup changes the map")
		}
	}
}

// checkNewMap: the keys of a map made from values are those of the values,
// each once.
func checkNewMap(p *Prog, rep *Report) {
	guard(rep, "NewNativeMap", func() {
		v := newEnv(p, rep, "NewNativeMap")
		e := v.e
		e.OnElem = nil
		e.inlineText = true
		vals, keys := mapShape(p)
		fn := p.fn("NewNativeMap")
		if vals == "" || fn == nil || len(fn.Params) != 1 {
			panic(engineErr("NewNativeMap was not found"))
		}
		h := e.symVal(v.st, fn.Params[0].Type(), "h", "h").(RefV)
		v.st.nilF[h.obj] = false
		v.st.ghost["n"] = IntV{linConst(0)}
		done := func(st *State, pos token.Pos) {
			if st.ghost["pending"] != nil && !st.zone.infeasible() {
				if e.appends == 0 {
					e.undecided("%s: how the keys are collected is not understood", v.rule)
				} else {
					e.Check(st, false, v.rule+".all", pos, "a key of the values is not listed")
				}
			}
		}
		e.OnMapNext = func(e *Engine, st *State, o *Obj, k Val, pos token.Pos) {
			if o.id != h.obj {
				return
			}
			done(st, pos)
			if k == nil {
				delete(st.ghost, "pending")
				return
			}
			st.ghost["pending"] = k
			st.ghost["n"] = IntV{ghostLin(st, "n").addc(1)}
		}
		e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos token.Pos) {
			e.appends++
			if k := st.ghost["pending"]; k != nil && added != nil && e.same(st, added, k) {
				delete(st.ghost, "pending")
			}
		}
		n := 0
		for _, o := range v.noPanic(v.run(fn, h), true) {
			n++
			st := o.st
			self, isP := derefIface(o.ret).(PtrV)
			if !isP {
				e.undecided("%s: what is returned is not understood", v.rule)
				continue
			}
			e.Check(st, e.same(st, v.loadField(st, self, vals), h), v.rule+".values", o.pos, "the values are not kept")
			ks := e.asSlice(st, v.loadField(st, self, keys), nil)
			if e.appends > 0 && !st.zone.infeasible() {
				e.Check(st, v.eqLin(st, ks.len, ghostLin(st, "n")), v.rule+".keys", o.pos, "the keys listed are not those of the values, each once")
			}
		}
		v.reached(n, 1)
		v.done()
	})
}

func init() {
	checks["C24"] = checkDef{rule: "Set changes the value of its key only, lists a key that was absent once, at the end, and leaves the other keys as they are; each lookup answers as the values do for a key that is there and for one that is not; a map made from values lists each of their keys once",
		f: func(p *Prog, rep *Report) {
			checkMaps(p, rep)
			rep.floor("NativeMap.Set.value", 2)
			rep.floor("NativeMap.GetExists.value", 2)
			rep.floor("NewNativeMap.keys", 1)
		}}
}
