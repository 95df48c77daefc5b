package main

// Typestate monitor of wrap(): memo table, left recursion, stack of active
// rules, callbacks (C06, C07, C08, C09, C14).

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

type memoCase struct {
	rule      bool   // the node is a rule
	cb        bool   // it has a callback
	label     string // "none", "root" (no parent), "handled", "own"
	skip      bool   // SkipCache
	slot      string // "nil", "unset", "remembered", "1", "2", "3"
	remembers string // "nil" or "result", for remembered
}

func (mc memoCase) active() bool {
	return mc.slot == "1" || mc.slot == "1m" || mc.slot == "2" || mc.slot == "3"
}

func memoCases() []memoCase {
	var r []memoCase
	for _, cb := range []bool{false, true} {
		for _, l := range []string{"none", "root", "handled", "own"} {
			r = append(r, memoCase{cb: cb, label: l, slot: "nil"})
			for _, skip := range []bool{false, true} {
				for _, s := range []string{"nil", "unset", "remembered"} {
					r = append(r, memoCase{rule: true, cb: cb, label: l, skip: skip, slot: s})
				}
			}
		}
	}
	for _, s := range []string{"1", "1m", "2", "3"} {
		r = append(r, memoCase{rule: true, cb: true, label: "none", slot: s})
	}
	return r
}

type memoRules struct{ memo, loop, stack, cb bool }

func checkMemo(p *Prog, rep *Report, want memoRules) {
	n := 0
	for _, c := range memoCases() {
		guard(rep, "wrap", func() { n += memoRun(p, rep, c, want) })
	}
	if n < 30 {
		rep.lost = append(rep.lost, "wrap: the analysis reached "+itoa(n)+" outcomes")
	}
}

// elemList tags maps built to hold one known pair
func (v *Env) pairHooks() {
	e := v.e
	nmT := types.NewPointer(v.p.typ("NativeMap"))
	fresh := func(st *State, tag *Tag) Val {
		o := e.newObj(OCell, v.p.typ("NativeMap"), "pair")
		o.sym, o.fresh = true, true
		o.tag = tag
		st.heap[o.id] = o
		st.nilF[o.id] = false
		return PtrV{obj: o.id}
	}
	e.hooks["joeson.NewNativeMap"] = func(c *CallCtx) []Result {
		var tag *Tag
		if r, ok := c.args[0].(RefV); ok {
			o := e.get(c.st, r.obj)
			if o.fresh && !o.sym && len(o.entries) == 1 && o.entries[0].present {
				tag = &Tag{"pair", []Val{o.entries[0].k, o.entries[0].v}}
			}
		}
		r := fresh(c.st, tag)
		if _, isIf := c.sig.Results().At(0).Type().Underlying().(*types.Interface); isIf {
			return one(c.st, IfaceV{nmT, r})
		}
		return one(c.st, r)
	}
	e.hooks["joeson.NewEmptyNativeMap"] = func(c *CallCtx) []Result {
		return one(c.st, fresh(c.st, &Tag{"nopair", nil}))
	}
	e.hooks["(*joeson.NativeMap).Set"] = func(c *CallCtx) []Result {
		id := objOf(c.args[0])
		o := *e.get(c.st, id)
		if o.tag != nil && o.tag.kind == "nopair" {
			o.tag = &Tag{"pair", []Val{c.args[1], c.args[2]}}
		} else {
			o.tag = nil
		}
		c.st.heap[id] = &o
		return one(c.st, TupleV{})
	}
}

func (v *Env) isPair(st *State, x, key, val Val) bool {
	i, ok := x.(IfaceV)
	if !ok {
		return false
	}
	t := v.e.tagOf(st, i.val)
	return t != nil && t.kind == "pair" && v.e.same(st, t.args[0], key) && v.e.same(st, t.args[1], val)
}

func memoRun(p *Prog, rep *Report, mc memoCase, want memoRules) int {
	v := newEnv(p, rep, "wrap")
	e := v.e
	delete(e.hooks, "joeson.wrap")
	e.hooks["(*joeson.ParseContext).log"] = func(c *CallCtx) []Result { return one(c.st, TupleV{}) }
	v.pairHooks()
	st := v.st
	g := st.ghost
	z := st.zw()
	none := NilV{}
	num := func(n int64) Val { return IntV{linConst(n)} }
	T, F := BoolV{fBool(true)}, BoolV{fBool(false)}
	is := func(st *State, k string) bool { return e.decide(st, st.ghost[k].(BoolV).f) == yes }
	on := func(w bool, st *State, ok bool, rule string, c *CallCtx, format string, a ...any) bool {
		if !w {
			return ok
		}
		return v.chk(st, ok, rule, c, format, a...)
	}
	onO := func(w bool, o Outcome, ok bool, rule string, format string, a ...any) bool {
		if !w {
			return ok
		}
		return v.chkO(o, ok, rule, format, a...)
	}

	// the context: a table of L+1 rows of numRules slots
	nr := e.lin(v.loadField(st, v.ctx, "numRules"))
	frames := e.asSlice(st, v.loadField(st, v.ctx, "frames"), p.typ("Ast"))
	z = st.zw()
	z.addEQ(frames.len.sub(v.L).addc(-1))
	stk := e.asSlice(st, v.loadField(st, v.ctx, "stack"), p.typ("Ast"))
	sl0 := e.lin(v.loadField(st, v.ctx, "stackLength"))
	z = st.zw()
	z.addLE(sl0.neg())
	z.addLE(sl0.sub(stk.len))
	if !mc.rule || mc.active() {
		// something is active
		z.addLE(sl0.neg().addc(1))
	}
	p0 := ghostLin(st, "P0")

	// the node
	x := e.symVal(st, p.typ("Parser"), "x", "x").(RefV)
	st.nilF[x.obj] = false
	rule := v.ruleOf(st, x).(PtrV)
	id := e.lin(v.loadField(st, rule, "id"))
	z = st.zw()
	if mc.rule {
		z.addLE(id.neg())
		z.addLE(id.addc(1).sub(nr))
		v.storeField(st, rule, "parser", x)
	} else {
		e.assume(st, e.eqForm(st, v.loadField(st, rule, "parser"), x), false)
	}
	cb := v.loadField(st, rule, "cb")
	st.nilF[objOf(cb)] = !mc.cb
	label := v.loadField(st, rule, "label")
	parent := v.loadField(st, rule, "parent")
	e.assume(st, e.eqForm(st, label, StrV{}), mc.label == "none")
	handles := BoolV{fBool(mc.label == "handled")}
	st.nilF[objOf(parent)] = mc.label == "root"
	if mc.label == "none" {
		delete(st.nilF, objOf(parent))
		handles = BoolV{e.opaqueForm(st, "handles")}
	}
	e.ifHooks["Parser.handlesChildLabel"] = func(c *CallCtx) []Result {
		if e.same(c.st, c.recv, parent) {
			return one(c.st, handles)
		}
		return e.defaultCall(c)
	}
	own := mc.label == "own"
	e.assume(st, e.form(st, v.loadField(st, rule, "skipCache")), mc.skip)
	st.nilF[objOf(v.loadField(st, rule, "parser"))] = false

	// slots and stack entries
	frameT := types.NewPointer(p.typ("frame"))
	isFrames := func(st *State, o *Obj) bool { return o.id == frames.arr }
	isPtrFrame := func(t types.Type) bool { return types.Identical(t, frameT) }
	rowOf := func(o *Obj) bool { return isPtrFrame(o.typ) && strings.HasPrefix(o.name, "ctx.frames[") }
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, y Val) Val {
		if isFrames(st, o) {
			st.zw().addEQ(y.(SliceV).len.sub(nr))
			return y
		}
		pv, ok := y.(PtrV)
		if !ok {
			return y
		}
		// every other table of entries is (a copy of) the stack
		if isPtrFrame(o.typ) && !rowOf(o) && o.tag == nil {
			st.nilF[pv.obj] = false
			fid, fpos := e.lin(v.loadField(st, pv, "id")), e.lin(v.loadField(st, pv, "pos"))
			z := st.zw()
			z.addLE(fid.neg())
			z.addLE(fid.addc(1).sub(nr))
			z.addLE(fpos.sub(p0))
			z.addLE(fpos.neg())
		}
		return y
	}
	slot := func(st *State) Val {
		row := e.elemGet(st, e.get(st, frames.arr), frames.off.add(p0)).(SliceV)
		return e.elemGet(st, e.get(st, row.arr), row.off.add(id))
	}
	fld := func(st *State, f Val, name string) Val { return v.loadField(st, f.(PtrV), name) }
	flin := func(st *State, f Val, name string) Lin { return e.lin(fld(st, f, name)) }
	var row0 SliceV
	var F0 Val = none
	if mc.rule {
		row0 = e.elemGet(st, e.get(st, frames.arr), frames.off.add(p0)).(SliceV)
		f := slot(st).(PtrV)
		F0 = f
		z = st.zw()
		if mc.slot == "nil" {
			st.nilF[f.obj] = true
			F0 = none
		} else {
			st.nilF[f.obj] = false
			z.addEQ(flin(st, f, "pos").sub(p0))
			z.addEQ(flin(st, f, "id").sub(id))
			stage, end, res := flin(st, f, "loopstage"), flin(st, f, "endpos"), fld(st, f, "result")
			mask := e.asSlice(st, fld(st, f, "wipemask"), types.NewSlice(types.Typ[types.Bool]))
			z = st.zw()
			z.addLE(end.sub(v.L))
			z.addLE(stage.neg().addc(-1))
			setStage := func(n int64) { z.addEQ(stage.addc(-n)) }
			unset := func() {
				z.addEQ(end.addc(1))
				st.nilF[objOf(res)] = true
			}
			switch mc.slot {
			case "unset":
				z.addLE(stage)
				unset()
			case "remembered":
				setStage(0)
				z.addLE(end.neg())
			case "1":
				setStage(1)
				unset()
				e.assume(st, e.nilForm(st, mask), true)
			case "1m": // with the mask of an earlier recursion
				setStage(1)
				unset()
				st.nilF[mask.arr] = false
			case "2":
				setStage(2)
				unset()
				st.nilF[mask.arr] = false
			case "3":
				setStage(3)
				st.nilF[objOf(res)] = false
				z.addLE(end.neg())
				st.nilF[mask.arr] = false
			}
			if mc.slot == "1m" || mc.slot == "2" || mc.slot == "3" {
				z = st.zw()
				z.addEQ(mask.len.sub(nr))
			}
			g["F0.result"], g["F0.endpos"], g["F0.stage"] = res, IntV{end}, IntV{stage}
		}
	}
	active := mc.active()
	wantWrapped := mc.rule || mc.cb || own

	g["n"], g["cbn"] = num(0), num(0)
	g["R"], g["end"], g["cbret"], g["best"] = none, g["P0"], none, none
	g["bestEnd"], g["bestRound"], g["tab"] = g["P0"], num(0), num(0)
	g["rec"], g["further"], g["origin"] = F, F, F
	g["mcur"] = IntV{sl0.addc(-1)} // next stack entry to mark, counted below the new activation
	g["mdone"] = num(0)            // and how many were marked
	e.OnHead = func(e *Engine, st *State) {
		// the last round ended strictly further than the one before
		st.ghost["further"] = BoolV{fBool(is(st, "further") || furtherNow(v, st))}
	}

	topIs := func(st *State, f Val) bool {
		s := e.asSlice(st, v.loadField(st, v.ctx, "stack"), p.typ("Ast"))
		if st.zone.lb(s.len.sub(sl0)) < 1 {
			return false
		}
		o := e.get(st, s.arr)
		for _, el := range o.elems {
			if v.eqLin(st, el.idx, s.off.add(sl0)) {
				return e.same(st, el.v, f)
			}
		}
		return false
	}
	sl := func(st *State) Lin { return e.lin(v.loadField(st, v.ctx, "stackLength")) }

	// what the round that just ended produced: checks of C14
	round := func(st *State, chk func(ok bool, rule, format string, a ...any)) {
		R := st.ghost["R"]
		if isNil(R) || !wantWrapped {
			chk(v.eqLin(st, ghostLin(st, "cbn"), linConst(0)), "callback", "the callback is called although the body failed")
			return
		}
		if mc.cb {
			chk(v.eqLin(st, ghostLin(st, "cbn"), linConst(1)), "callback", "the callback is not called exactly once for a success of the body")
			if isNil(st.ghost["cbret"]) {
				return
			}
		} else {
			chk(v.eqLin(st, ghostLin(st, "cbn"), linConst(0)), "callback", "a callback is called that is not the rule's")
		}
		chk(is(st, "origin"), "origin", "the location of the match is not recorded on the result")
	}
	// isRound: y is what the last round produced
	isRound := func(st *State, y Val) bool {
		R := st.ghost["R"]
		switch {
		case isNil(R):
			return e.nilness(st, y) == yes
		case mc.cb && !v.eqLin(st, ghostLin(st, "cbn"), linConst(0)):
			return e.same(st, y, st.ghost["cbret"])
		case own:
			return v.isPair(st, y, label, R)
		}
		return e.same(st, y, R)
	}
	roundNil := func(st *State) tri {
		R := st.ghost["R"]
		if isNil(R) {
			return yes
		}
		if mc.cb {
			return e.nilness(st, st.ghost["cbret"])
		}
		return no
	}

	e.hooks["body"] = func(c *CallCtx) []Result {
		st := c.st
		on(want.memo, st, e.same(st, c.args[0], v.ctx), "ctx", c, "the body runs with another context")
		on(want.memo, st, e.same(st, c.args[1], x), "node", c, "the body runs for another node")
		on(want.memo || want.loop, st, v.posEq(st, p0), "start", c, "the body does not start at the position the rule was tried at")
		on(want.memo || want.loop, st, !active, "recursion", c, "a rule that is already active at this position is run again instead of answering what it has")
		n := ghostLin(st, "n")
		nn := st.zone.lb(n)
		var f Val = none
		if mc.rule {
			f = slot(st)
			if !on(want.stack, st, e.nilness(st, f) == no && topIs(st, f), "entry", c, "no entry for this rule and position is on top of the stack while its body runs") {
				if e.nilness(st, f) != no {
					return []Result{}
				}
			}
			on(want.stack, st, v.eqLin(st, sl(st), sl0.addc(1)), "push", c, "the stack does not have exactly one more entry while the body runs")
			on(want.stack || want.memo, st, v.eqLin(st, flin(st, f, "pos"), p0) && v.eqLin(st, flin(st, f, "id"), id), "keyed", c, "the entry is not the one of this rule and position")
			if !mc.skip {
				stage, end, res := flin(st, f, "loopstage"), flin(st, f, "endpos"), fld(st, f, "result")
				on(want.memo, st, mc.slot != "remembered", "hit", c, "the body runs although its outcome is remembered")
				if nn < 1 {
					on(want.loop, st, st.zone.ub(end) < 0 && e.nilness(st, res) == yes && v.eqLin(st, stage, linConst(1)), "seed", c, "the first round does not start from a failing seed")
				} else {
					on(want.loop, st, is(st, "rec"), "once", c, "the body runs again although the rule did not recurse")
					on(want.loop, st, isRound(st, res) && e.nilness(st, res) == no, "grow-result", c, "the recursion is not answered with the previous result")
					on(want.loop, st, v.eqLin(st, end, ghostLin(st, "end")), "grow-end", c, "the recursion is not answered with the previous end")
					on(want.loop, st, st.zone.lb(stage) >= 2 && st.zone.ub(stage) <= 3, "grow-stage", c, "recursions of this round are not recognised")
					on(want.loop, st, st.zone.ub(n) <= 1 || is(st, "further") || furtherNow(v, st), "grow-progress", c, "goes on growing although the last round did not end strictly further")
					on(want.loop, st, v.eqLin(st, ghostLin(st, "tab"), linConst(-1)), "wiped", c, "the answers of the involved rules are not forgotten before the next round")
					round(st, func(ok bool, rule, format string, a ...any) { on(want.cb, st, ok, rule, c, format, a...) })
					st.ghost["best"], st.ghost["bestEnd"], st.ghost["bestRound"] = res, st.ghost["end"], st.ghost["n"]
				}
			} else {
				on(want.memo, st, nn < 1, "once", c, "the body runs twice")
			}
		} else {
			on(want.memo, st, nn < 1, "once", c, "the body runs twice")
			on(want.stack, st, v.eqLin(st, sl(st), sl0), "push", c, "the stack is changed by an element that is not a rule")
		}
		st.ghost["n"] = IntV{n.addc(1)}
		st.ghost["tab"] = IntV{n.addc(1)}
		st.ghost["cbn"], st.ghost["cbret"], st.ghost["origin"], st.ghost["further"] = num(0), none, F, F
		// the stack may have been reallocated, the entries of the active rules stay
		old := e.asSlice(st, v.loadField(st, v.ctx, "stack"), p.typ("Ast"))
		cur := sl(st)
		o := e.newObj(OArray, e.get(st, old.arr).typ, "stack")
		o.sym, o.fresh = true, true
		if c0, isC := cur.isConst(); !isC || c0 > 0 {
			o.hasBase, o.base, o.baseOff, o.baseN = true, old.arr, old.off, cur
		}
		type known struct {
			idx Lin
			v   Val
		}
		var keep []known
		for _, x := range []Lin{sl0.addc(-1), sl0} {
			if st.zone.lb(x) >= 0 && st.zone.lb(cur.sub(x)) >= 1 {
				keep = append(keep, known{x, e.elemGet(st, e.get(st, old.arr), old.off.add(x))})
			}
		}
		st.heap[o.id] = o
		for _, k := range keep {
			e.elemSet(st, e.get(st, o.id), k.idx, k.v, true)
		}
		ln := linSym(e.freshSym("stack.len"))
		st.zw().addLE(cur.sub(ln))
		v.storeField(st, v.ctx, "stack", SliceV{o.id, linConst(0), ln})
		outs := []*State{st}
		if mc.rule && !mc.skip {
			r := st.clone()
			r.note(c.pos, "the body recurses into the rule")
			stage := flin(r, f, "loopstage")
			if v.eqLin(r, stage, linConst(1)) {
				v.storeField(r, f, "loopstage", num(2))
			}
			m := e.symVal(r, types.NewSlice(types.Typ[types.Bool]), "", "wipemask").(SliceV)
			r.nilF[m.arr] = false
			r.zw().addEQ(m.len.sub(nr))
			v.storeField(r, f, "wipemask", m)
			r.ghost["rec"] = T
			if !is(st, "rec") {
				outs = append(outs, r)
			} else {
				outs[0] = r
			}
		}
		var rs []Result
		for _, s := range outs {
			fail := s.clone()
			fail.note(c.pos, "the body fails")
			v.havocPos(fail)
			fail.ghost["R"], fail.ghost["end"] = none, fail.ghost["pos"]
			rs = append(rs, Result{st: fail, ret: NilV{}})
			s.note(c.pos, "the body succeeds")
			s.ghost["prev"] = s.ghost["end"]
			s.ghost["end"] = IntV{v.advance(s)}
			r := v.freshAst(s, "result")
			s.ghost["R"] = r
			rs = append(rs, Result{st: s, ret: r})
		}
		return rs
	}
	e.dynHook = func(c *CallCtx) []Result {
		if !e.same(c.st, c.recv, cb) {
			return nil
		}
		st := c.st
		R := st.ghost["R"]
		on(want.cb, st, v.eqLin(st, ghostLin(st, "cbn"), linConst(0)), "callback", c, "the callback is called more than once")
		on(want.cb, st, !isNil(R) && st.zone.lb(ghostLin(st, "n")) >= 1, "callback", c, "the callback is called although the body did not succeed")
		if own {
			on(want.cb, st, v.isPair(st, c.args[0], label, R), "callback-arg", c, "the callback of a labelled rule is not given its result under its label (%s)", e.show(st, c.args[0]))
		} else {
			on(want.cb, st, e.same(st, c.args[0], R), "callback-arg", c, "the callback is not given the result of the body (%s)", e.show(st, c.args[0]))
		}
		on(want.cb, st, e.same(st, c.args[1], v.ctx), "callback-arg", c, "the callback is given another context")
		on(want.cb, st, e.same(st, c.args[2], x), "callback-arg", c, "the callback is given another rule")
		on(want.cb, st, !is(st, "origin"), "callback", c, "the location is recorded before the callback ran")
		st.ghost["cbn"] = IntV{ghostLin(st, "cbn").addc(1)}
		fail := st.clone()
		fail.note(c.pos, "the callback returns nil")
		fail.ghost["cbret"] = none
		r := v.freshAst(st, "callback's")
		st.ghost["cbret"] = r
		return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
	}
	// the line is that of the position it was asked at
	st.ghost["line"], st.ghost["lineAt"] = num(0), num(-1)
	e.ifHooks["CodeStream.Line"] = func(c *CallCtx) []Result {
		st := c.st
		if !v.eqLin(st, ghostLin(st, "lineAt"), ghostLin(st, "pos")) {
			st.ghost["line"] = e.symVal(st, types.Typ[types.Int], "", "line")
			st.ghost["lineAt"] = st.ghost["pos"]
		}
		return one(st, st.ghost["line"])
	}
	code := e.symVal(st, types.Typ[types.String], "code", "code")
	e.ifHooks["CodeStream.Code"] = func(c *CallCtx) []Result { return one(c.st, code) }
	origin := func(c *CallCtx, target Val, o Val) {
		st := c.st
		s, ok := o.(StructV)
		if !on(want.cb, st, ok && isRound(st, target), "origin", c, "the location is recorded on something else than the result") {
			return
		}
		get := func(name string) Val {
			x, _, _ := e.structField(st, s, fieldIndex(s.typ, name)[0], "", "origin")
			return x
		}
		f := e.asSlice(st, v.loadField(st, v.ctx, "stack"), p.typ("Ast"))
		var start Lin
		if mc.rule {
			start = p0
		} else {
			top := e.elemGet(st, e.get(st, f.arr), f.off.add(sl0).addc(-1))
			start = flin(st, top, "pos")
		}
		on(want.cb, st, v.eqLin(st, e.lin(get("Start")), start), "origin", c, "the recorded start is not where the rule started")
		on(want.cb, st, v.eqLin(st, e.lin(get("End")), ghostLin(st, "end")), "origin", c, "the recorded end is not where the match ended")
		on(want.cb, st, e.same(st, get("Line"), st.ghost["line"]) && v.eqLin(st, ghostLin(st, "lineAt"), ghostLin(st, "end")), "origin", c, "the recorded line is not the one of the stream at the end of the match")
		on(want.cb, st, e.same(st, get("Code"), code), "origin", c, "the recorded source is not the one of the stream")
		st.ghost["origin"] = T
	}
	e.ifHooks["Ast.SetOrigin"] = func(c *CallCtx) []Result {
		origin(c, c.recv, c.args[0])
		return one(c.st, TupleV{})
	}
	e.hooks["(*joeson.NativeMap).SetOrigin"] = func(c *CallCtx) []Result {
		origin(c, IfaceV{types.NewPointer(p.typ("NativeMap")), c.args[0]}, c.args[1])
		return one(c.st, TupleV{})
	}
	e.hooks["(*joeson.ParseContext).wipeWith"] = func(c *CallCtx) []Result {
		st := c.st
		on(want.loop, st, mc.rule && e.same(st, c.args[1], slot(st)), "wipe", c, "the frames of another rule's recursion are wiped")
		if mc.rule {
			m := fld(st, slot(st), "wipemask")
			on(want.loop, st, e.nilness(st, m) == no, "wipe", c, "wipes without knowing what to wipe")
		}
		tab := st.ghost["tab"]
		st.ghost["tab"] = num(-1)
		switch e.decide(st, e.form(st, c.args[2])) {
		case yes:
			r := e.symVal(st, c.sig.Results().At(0).Type(), "", "stash").(SliceV)
			st.nilF[r.arr] = false
			o := *e.get(st, r.arr)
			o.tag = &Tag{"stash", []Val{tab}}
			st.heap[r.arr] = &o
			st.ghost["stashOf"], st.ghost["stashLen"] = tab, IntV{r.len}
			return one(st, r)
		case no:
			return one(st, NilV{})
		}
		return e.defaultCall(c)
	}
	e.hooks["(*joeson.ParseContext).restoreWith"] = func(c *CallCtx) []Result {
		st := c.st
		s, ok := c.args[1].(SliceV)
		if !ok {
			return one(st, TupleV{})
		}
		t := e.get(st, s.arr).tag
		if on(want.loop, st, t != nil && t.kind == "stash", "restore", c, "restores something that was not stashed") {
			on(want.loop, st, v.eqLin(st, ghostLin(st, "tab"), linConst(-1)), "restore", c, "answers of an abandoned round are kept")
			st.ghost["tab"] = t.args[0]
		}
		return one(st, TupleV{})
	}
	e.OnStore = func(e *Engine, st *State, pv PtrV, y Val, pos pos0) {
		bad := func(w bool, ok bool, rule, format string, a ...any) {
			if w {
				e.Check(st, ok, "wrap."+rule, pos, format, a...)
			}
		}
		o := e.get(st, pv.obj)
		if pv.elem == nil {
			if nt, ok := o.typ.(*types.Named); ok && nt.Obj().Name() == "frame" && !o.fresh && mc.rule {
				bad(want.memo, e.same(st, PtrV{obj: pv.obj}, slot(st)), "foreign", "writes the entry of another rule or position")
			}
			return
		}
		switch {
		case o.id == stk.arr:
			bad(want.stack, st.zone.lb(pv.elem.sub(stk.off).sub(sl0)) >= 0, "below", "overwrites the stack entry of another active rule")
		case o.id == frames.arr:
			bad(want.memo, false, "foreign", "replaces a row of the memo table")
		case rowOf(o):
			ok := mc.rule && o.id == row0.arr && v.eqLin(st, *pv.elem, row0.off.add(id))
			bad(want.memo, ok, "foreign", "stores an entry under another rule or position (%s)", e.linStr(*pv.elem))
			f, isP := y.(PtrV)
			if ok && isP && e.nilness(st, y) == no {
				bad(want.memo, v.eqLin(st, flin(st, f, "pos"), p0) && v.eqLin(st, flin(st, f, "id"), id), "keyed", "the entry stored is not the one of this rule and position")
				bad(want.memo, st.zone.ub(flin(st, f, "endpos")) < 0 && st.zone.ub(flin(st, f, "loopstage")) <= 0, "fresh", "a new entry already answers something")
			}
		case active && mc.rule:
			// the mask of what is involved in the recursion
			if b, ok := o.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
				return
			}
			m, ok := fld(st, slot(st), "wipemask").(SliceV)
			if !ok || m.arr != o.id {
				return
			}
			bad(want.loop, e.decide(st, e.form(st, y)) == yes, "mask", "an involved rule is not marked")
			cur := ghostLin(st, "mcur")
			f := stackAt(v, st, cur)
			// the same entry, counted from the top
			if up := sl0.addc(-1).sub(ghostLin(st, "mdone")); f == nil || !v.eqLin(st, pv.elem.sub(m.off), flin(st, f, "id")) {
				if g := stackAt(v, st, up); g != nil && v.eqLin(st, pv.elem.sub(m.off), flin(st, g, "id")) {
					cur, f = up, g
				}
			}
			bad(want.loop, st.zone.lb(cur) >= 0 && f != nil && v.eqLin(st, pv.elem.sub(m.off), flin(st, f, "id")), "mask", "the rules marked are not the ones active above, in turn")
			bad(want.loop, f != nil && v.eqLin(st, flin(st, f, "pos"), p0), "mask", "a rule active at another position is marked")
			bad(want.loop, f != nil && st.zone.isNE(flin(st, f, "id").sub(id)), "mask", "the recursing rule itself is marked")
			st.ghost["mcur"] = IntV{cur.addc(-1)}
			st.ghost["mdone"] = IntV{ghostLin(st, "mdone").addc(1)}
		}
	}

	// run
	var outs []Outcome
	for _, w := range v.noPanic(v.run(p.fn("wrap"), FuncV{native: "body"}, x), true) {
		f, ok := w.ret.(FuncV)
		if !ok || f.fn == nil {
			rep.lost = append(rep.lost, "wrap: does not return a function")
			continue
		}
		w.st.frames = nil
		outs = append(outs, v.noPanic(e.Run(w.st, f.fn, []Val{v.ctx}, f.binds), true)...)
	}
	for _, o := range outs {
		st := o.st
		n := ghostLin(st, "n")
		onO(want.stack, o, v.eqLin(st, sl(st), sl0), "balance", "the stack of active rules is not as it was")
		nn := st.zone.lb(n)
		var f Val = none
		if mc.rule {
			f = slot(st)
			if e.nilness(st, f) != no {
				onO(want.memo || want.stack, o, mc.slot == "nil" && nn < 1 && false, "entry", "the entry of the rule is gone")
				continue
			}
			if mc.slot != "nil" {
				onO(want.memo, o, e.same(st, f, F0), "entry", "the entry of the rule is replaced")
			}
		}
		if nn >= 1 {
			round(st, func(ok bool, rule, format string, a ...any) { onO(want.cb, o, ok, rule, format, a...) })
		}
		switch {
		case active:
			stage := flin(st, f, "loopstage")
			onO(want.loop, o, nn < 1, "recursion", "a recursion runs the rule again")
			onO(want.loop, o, e.same(st, o.ret, st.ghost["F0.result"]), "answer", "a recursion is not answered with the current result")
			onO(want.loop, o, e.same(st, fld(st, f, "result"), st.ghost["F0.result"]) && v.eqLin(st, flin(st, f, "endpos"), ghostLin(st, "F0.endpos")), "answer", "a recursion changes what is remembered")
			if mc.slot == "3" {
				onO(want.loop, o, v.posEq(st, ghostLin(st, "F0.endpos")), "answer", "a recursion does not end where the current result ends")
				onO(want.loop, o, v.eqLin(st, stage, linConst(3)), "stage", "a recursion changes the stage of the growth")
			} else {
				onO(want.loop, o, v.posEq(st, p0), "answer", "a failing recursion moves the position")
				onO(want.loop, o, v.eqLin(st, stage, linConst(2)), "stage", "a recursion is not recorded")
			}
			onO(want.loop, o, e.nilness(st, fld(st, f, "wipemask")) == no, "mask", "a recursion leaves no mask of the involved rules")
			done := false
			for _, cur := range []Lin{ghostLin(st, "mcur"), sl0.addc(-1).sub(ghostLin(st, "mdone"))} {
				if done || st.zone.ub(cur) < 0 {
					done = true
				} else if t := stackAt(v, st, cur); t != nil {
					done = st.zone.ub(flin(st, t, "pos").sub(p0)) < 0 || v.eqLin(st, flin(st, t, "id"), id)
				}
			}
			onO(want.loop, o, done, "mask", "not every rule active between the recursion and its owner is marked")
			continue
		case mc.rule && !mc.skip && mc.slot == "remembered":
			onO(want.memo, o, nn < 1, "hit", "the body runs although its outcome is remembered")
			onO(want.memo, o, e.same(st, o.ret, st.ghost["F0.result"]), "hit", "another result than the remembered one is returned (%s)", e.show(st, o.ret))
			onO(want.memo, o, v.posEq(st, ghostLin(st, "F0.endpos")), "hit", "the position is not moved to the remembered end")
			onO(want.memo, o, e.same(st, fld(st, f, "result"), st.ghost["F0.result"]) && v.eqLin(st, flin(st, f, "endpos"), ghostLin(st, "F0.endpos")) && st.zone.ub(flin(st, f, "loopstage")) <= 0, "hit", "what is remembered changes")
			continue
		case nn < 1:
			onO(want.memo, o, false, "run", "the body is not run")
			continue
		}
		if !is(st, "rec") {
			onO(want.memo, o, st.zone.ub(n) <= 1, "once", "the body runs more than once")
			onO(want.memo || want.cb, o, isRound(st, o.ret), "result", "the result is not what the body and the callback produced (%s)", e.show(st, o.ret))
			onO(want.memo, o, v.posEq(st, ghostLin(st, "end")), "end", "does not end where the body ended")
			if !mc.rule {
				continue
			}
			end, res, stage := flin(st, f, "endpos"), fld(st, f, "result"), flin(st, f, "loopstage")
			if mc.skip {
				if mc.slot == "nil" {
					onO(want.memo, o, st.zone.ub(end) < 0 && e.nilness(st, res) == yes, "skipcache", "the outcome of a SkipCache rule is remembered")
				} else {
					onO(want.memo, o, e.same(st, res, st.ghost["F0.result"]) && v.eqLin(st, end, ghostLin(st, "F0.endpos")), "skipcache", "the outcome of a SkipCache rule is remembered")
				}
				continue
			}
			onO(want.memo, o, e.same(st, res, o.ret), "set", "the result is not remembered")
			onO(want.memo, o, v.eqLin(st, end, ghostLin(st, "end")), "set", "the end position is not remembered")
			onO(want.memo, o, st.zone.ub(stage) <= 0, "set", "the rule stays marked as active")
			continue
		}
		// the rule recursed
		end, res, stage := flin(st, f, "endpos"), fld(st, f, "result"), flin(st, f, "loopstage")
		onO(want.loop || want.memo, o, st.zone.ub(stage) <= 0, "set", "the rule stays marked as active")
		if st.zone.ub(n) <= 1 {
			onO(want.loop, o, roundNil(st) == yes, "grow-on", "a recursive success is not grown")
			onO(want.loop, o, e.nilness(st, o.ret) == yes, "result", "the result is not what the body produced")
			onO(want.memo, o, e.nilness(st, res) == yes && (st.zone.ub(end) < 0 || v.posEq(st, end)), "set", "something else than the failure is remembered")
			continue
		}
		last := roundNil(st) == yes || st.zone.ub(ghostLin(st, "end").sub(ghostLin(st, "bestEnd"))) <= 0
		onO(want.loop, o, last, "grow-on", "stops growing although the last round ended strictly further")
		onO(want.loop, o, e.same(st, o.ret, st.ghost["best"]), "best", "the longest result is not the one returned (%s)", e.show(st, o.ret))
		onO(want.loop, o, v.posEq(st, ghostLin(st, "bestEnd")), "best", "does not end where the longest result ends")
		onO(want.loop || want.memo, o, e.same(st, res, st.ghost["best"]) && v.eqLin(st, end, ghostLin(st, "bestEnd")), "set", "something else than the longest result is remembered")
		kept := v.eqLin(st, ghostLin(st, "tab"), ghostLin(st, "bestRound"))
		if !kept && v.eqLin(st, ghostLin(st, "tab"), linConst(-1)) && st.ghost["stashLen"] != nil {
			// there was nothing to restore
			kept = v.eqLin(st, ghostLin(st, "stashOf"), ghostLin(st, "bestRound")) && st.zone.ub(ghostLin(st, "stashLen")) <= 0
		}
		onO(want.loop, o, kept, "restored", "the answers of the involved rules are not those of the round that was kept")
	}
	v.done()
	return len(outs)
}

// checkOrigins: the location recorded on a result is the one it tells. Arrays,
// strings and numbers have none.
func checkOrigins(p *Prog, rep *Report) {
	ast, _ := p.typ("Ast").Underlying().(*types.Interface)
	for _, t := range p.namedTypes() {
		name := t.Obj().Name()
		set, get := p.method(name, "SetOrigin"), p.method(name, "GetOrigin")
		_, isStruct := t.Underlying().(*types.Struct)
		if set == nil || get == nil || !isStruct || name != "Attr" && !types.Implements(types.NewPointer(t), ast) {
			continue
		}
		if m, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, p.root.Pkg, "SetOrigin"); m == nil || types.IsInterface(m.(*types.Func).Type().(*types.Signature).Recv().Type()) {
			continue // of what it holds
		}
		if r, ok := get.Signature.Results().At(0).Type().(*types.Named); !ok || r.Obj().Name() != "Origin" {
			continue
		}
		guard(rep, "origin", func() {
			v := newEnv(p, rep, "origin")
			e, st := v.e, v.st
			self := v.selfPtr(name)
			var recv Val = self
			val := func(fn *ssa.Function) Val {
				if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); isPtr {
					return recv
				}
				return nil
			}
			o := e.zeroVal(p.typ("Origin")).(StructV)
			o.f = append([]Val{}, o.f...)
			for i, n := 0, o.typ.Underlying().(*types.Struct); i < n.NumFields(); i++ {
				o.f[i] = e.symVal(st, n.Field(i).Type(), "", n.Field(i).Name())
			}
			if val(set) == nil || val(get) == nil {
				return // a value without room for a location
			}
			for _, a := range v.run(set, recv, o) {
				if a.panic != "" {
					continue
				}
				a.st.frames = nil
				for _, b := range e.Run(a.st, get, []Val{recv}, nil) {
					if b.panic != "" {
						continue
					}
					for _, f := range []string{"Code", "Start", "End", "Line"} {
						v.chkO(b, e.same(b.st, v.structField(b.st, b.ret, f), v.structField(b.st, o, f)), "told",
							"the %s of the location told by a %s is not the one recorded (%s, not %s)", f, name, e.show(b.st, v.structField(b.st, b.ret, f)), e.show(b.st, v.structField(b.st, o, f)))
					}
				}
			}
			v.done()
		})
	}
	rep.floor("origin.told", 4)
}

func furtherNow(v *Env, st *State) bool {
	return st.zone.lb(ghostLin(st, "n")) >= 2 && st.zone.lb(ghostLin(st, "end").sub(ghostLin(st, "bestEnd"))) > 0
}

// stackAt reads the i-th stack entry of the entries below the new activation
func stackAt(v *Env, st *State, i Lin) Val {
	if st.zone.lb(i) < 0 {
		return nil
	}
	s := v.e.asSlice(st, v.loadField(st, v.ctx, "stack"), v.p.typ("Ast"))
	return v.e.elemGet(st, v.e.get(st, s.arr), s.off.add(i))
}

func init() {
	checks["C07"] = checkDef{rule: "abstract interpretation of wrap() (memo, loop growth, stack, result preparation inlined; every initial state of the memo entry) against a typestate monitor of memoization",
		f: func(p *Prog, rep *Report) { checkMemo(p, rep, memoRules{memo: true}); checkNewContext(p, rep) }}
	checks["C08"] = checkDef{rule: "abstract interpretation of wrap() against a typestate monitor of left recursion",
		f: func(p *Prog, rep *Report) { checkMemo(p, rep, memoRules{loop: true}); checkTables(p, rep) }}
	checks["C09"] = checkDef{rule: "abstract interpretation of wrap() against a typestate monitor of the stack of active rules",
		f: func(p *Prog, rep *Report) { checkMemo(p, rep, memoRules{stack: true}) }}
	checks["C14"] = checkDef{rule: "abstract interpretation of wrap() against a typestate monitor of callbacks",
		f: func(p *Prog, rep *Report) { checkMemo(p, rep, memoRules{cb: true}); checkOrigins(p, rep) }}
}
