package main

// Typestate monitors of the parsing operators (C01..C06, C15).

import (
	"go/types"
	"strings"
)

// noPanic reports panics of an operator.
func (v *Env) noPanic(outs []Outcome, explicitToo bool) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.panic == "" {
			r = append(r, o)
			continue
		}
		if isRuntimePanic(o.panic) || explicitToo {
			v.e.Violate(o.st, v.rule+".no-panic", o.pos, "may panic (%s)", o.panic)
		}
	}
	return r
}

func (v *Env) wrapOnce(o Outcome) {
	n, ok := o.st.ghost["wraps"].(IntV)
	v.e.Check(o.st, ok && v.eqLin(o.st, n.l, linConst(1)), v.rule+".wrapped", o.pos, "a path returns without going through wrap() exactly once (memo, stack and callbacks are bypassed)")
	if ok {
		v.e.Check(o.st, v.e.same(o.st, o.st.ghost["body"], o.ret), v.rule+".wrapped-result", o.pos, "the value returned is not the one of the wrapped body")
	}
}

// forward: a success never ends before its start (the other monitors assume it
// of their children).
func (v *Env) forward(o Outcome) {
	if v.e.nilness(o.st, o.ret) != yes {
		v.e.Check(o.st, o.st.zone.lb(v.pos(o.st).sub(ghostLin(o.st, "P0"))) >= 0, v.rule+".forward", o.pos, "succeeds at a position before its start")
	}
}

func (v *Env) chk(st *State, ok bool, rule string, c *CallCtx, format string, a ...any) bool {
	return v.e.Check(st, ok, v.rule+"."+rule, c.pos, format, a...)
}
func (v *Env) chkO(o Outcome, ok bool, rule string, format string, a ...any) bool {
	return v.e.Check(o.st, ok, v.rule+"."+rule, o.pos, format, a...)
}

// classify splits the outcomes on nilness of the result.
func (v *Env) verdict(o Outcome) tri {
	t := v.e.nilness(o.st, o.ret)
	if t == unk {
		v.e.Violate(o.st, v.rule+".result", o.pos, "undetermined result %s", v.e.show(o.st, o.ret))
	}
	return t
}

// ordered choice (choice and rank)
func checkChoice(p *Prog, rep *Report, typ string) {
	guard(rep, typ, func() {
		v := newEnv(p, rep, typ)
		self := v.selfPtr(typ)
		alts := v.e.asSlice(v.st, v.loadField(v.st, self, "choices"), p.typ("Ast"))
		v.st.ghost["k"] = IntV{linConst(0)}
		v.st.ghost["won"] = NilV{}
		v.e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
			st := c.st
			arr, idx, ok := v.elemTag(st, c.recv)
			k := ghostLin(st, "k")
			if !v.chk(st, ok && arr == alts.arr && v.eqLin(st, idx, k.add(alts.off)), "in-order", c, "parses something else than the next alternative in order (%s)", v.e.show(st, c.recv)) {
				return nil
			}
			v.chk(st, v.e.same(st, c.args[0], v.ctx), "ctx", c, "an alternative is parsed with another context")
			v.chk(st, isNil(st.ghost["won"]), "stop-at-first", c, "an alternative is tried after one succeeded")
			v.chk(st, v.posEq(st, ghostLin(st, "P0")), "from-start", c, "an alternative is not tried from the position where the alternation started")
			fail := st.clone()
			fail.note(c.pos, "the alternative fails")
			v.havocPos(fail)
			fail.ghost["k"] = IntV{k.addc(1)}
			st.note(c.pos, "the alternative succeeds")
			r := v.freshAst(st, "result")
			st.ghost["won"] = r
			st.ghost["end"] = IntV{v.advance(st)}
			st.ghost["k"] = IntV{k.addc(1)}
			return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
		}
		outs := v.noPanic(v.run(p.method(typ, "parse"), self, v.ctx), false)
		for _, o := range outs {
			v.wrapOnce(o)
			v.forward(o)
			switch v.verdict(o) {
			case yes:
				v.chkO(o, isNil(o.st.ghost["won"]), "fail-iff", "fails although an alternative succeeded")
				v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "k"), alts.len), "fail-all", "fails before every alternative was tried")
				v.chkO(o, v.posEq(o.st, ghostLin(o.st, "P0")), "fail-pos", "fails without restoring the position")
			case no:
				if v.chkO(o, !isNil(o.st.ghost["won"]) && v.e.same(o.st, o.ret, o.st.ghost["won"]), "result", "the result is not the one of the alternative that succeeded") {
					v.chkO(o, v.posEq(o.st, ghostLin(o.st, "end")), "end-pos", "the end position is not the one of the alternative that succeeded")
				}
			}
		}
		v.reached(len(outs), 2)
		v.done()
	})
}

// reached: the analysis went through the operator (else it is void).
func (v *Env) reached(n, min int) {
	if n < min {
		v.rep.lost = append(v.rep.lost, v.rule+": the analysis reached "+itoa(n)+" outcome(s)")
	}
}

// single child operators: existential, lookahead, not
func checkUnary(p *Prog, rep *Report, typ, field string) {
	guard(rep, typ, func() {
		v := newEnv(p, rep, typ)
		self := v.selfPtr(typ)
		child := v.loadField(v.st, self, field)
		v.st.nilF[objOf(child)] = false
		v.st.ghost["tried"] = IntV{linConst(0)}
		v.st.ghost["res"] = NilV{}
		v.e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
			st := c.st
			if !v.chk(st, v.e.same(st, c.recv, child), "child", c, "parses something else than its element (%s)", v.e.show(st, c.recv)) {
				return nil
			}
			v.chk(st, v.e.same(st, c.args[0], v.ctx), "ctx", c, "the element is parsed with another context")
			v.chk(st, v.eqLin(st, ghostLin(st, "tried"), linConst(0)), "once", c, "the element is tried more than once")
			v.chk(st, v.posEq(st, ghostLin(st, "P0")), "from-start", c, "the element is not tried from the current position")
			st.ghost["tried"] = IntV{ghostLin(st, "tried").addc(1)}
			fail := st.clone()
			fail.note(c.pos, "the element fails")
			v.havocPos(fail)
			st.note(c.pos, "the element succeeds")
			r := v.freshAst(st, "result")
			st.ghost["res"] = r
			st.ghost["end"] = IntV{v.advance(st)}
			return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
		}
		outs := v.noPanic(v.run(p.method(typ, "parse"), self, v.ctx), true)
		for _, o := range outs {
			v.wrapOnce(o)
			v.forward(o)
			v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "tried"), linConst(1)), "tried", "a path decides without trying the element exactly once")
			ok := !isNil(o.st.ghost["res"]) // the element succeeded
			back := v.posEq(o.st, ghostLin(o.st, "P0"))
			switch v.verdict(o) {
			case yes: // fails
				switch typ {
				case "existential":
					v.chkO(o, false, "never-fails", "fails")
				case "lookahead":
					v.chkO(o, !ok, "verdict", "fails although the element succeeded")
				case "not":
					v.chkO(o, ok, "verdict", "fails although the element failed")
				}
				v.chkO(o, back, "position", "fails without leaving the position where it was")
			case no:
				switch {
				case typ == "existential" && ok:
					v.chkO(o, v.e.same(o.st, o.ret, o.st.ghost["res"]), "result", "the result is not the one of the element")
					v.chkO(o, v.posEq(o.st, ghostLin(o.st, "end")), "end-pos", "the end position is not the one of the element")
					continue
				case typ == "lookahead":
					v.chkO(o, ok, "verdict", "succeeds although the element failed")
				case typ == "not":
					v.chkO(o, !ok, "verdict", "succeeds although the element succeeded")
				}
				v.chkO(o, v.isUndef(o.ret), "undefined", "the result is not the undefined value (%s)", v.e.show(o.st, o.ret))
				v.chkO(o, back, "position", "does not leave the position where it was")
			}
		}
		v.reached(len(outs), 2)
		v.done()
	})
}

// ---- lists of results

// listLen checks that s holds exactly the results marked (kind, 0), (kind, 1), ...
func (v *Env) isList(st *State, s SliceV, kind string) bool {
	if n, ok := s.len.isConst(); ok && n == 0 {
		return true
	}
	o := v.e.get(st, s.arr)
	if o.tag != nil && o.tag.kind == "list:"+kind && v.eqLin(st, s.off, linConst(0)) {
		return true
	}
	lo, hi := st.zone.lb(s.len), st.zone.ub(s.len)
	if lo != hi || hi > 8 {
		return false
	}
	for i := int64(0); i < hi; i++ {
		x := v.e.elemGet(st, v.e.get(st, s.arr), s.off.addc(i))
		n, ok := v.marked(st, x, kind)
		if !ok || !v.eqLin(st, n, linConst(i)) {
			return false
		}
	}
	return true
}

func (v *Env) marked(st *State, x Val, kind string) (Lin, bool) {
	t := v.e.tagOf(st, x)
	if t == nil || t.kind != kind {
		return Lin{}, false
	}
	return t.args[0].(IntV).l, true
}

func (v *Env) mark(st *State, x RefV, kind string, n Lin) {
	o := *v.e.get(st, x.obj)
	o.tag = &Tag{kind, []Val{IntV{n}}}
	st.heap[x.obj] = &o
}

// trackList maintains the tag of lists built by appending marked results.
func (v *Env) trackList(kinds ...string) {
	v.e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, _ pos0) {
		for _, kind := range kinds {
			n, ok := v.marked(st, added, kind)
			if ok && v.isList(st, base, kind) && v.eqLin(st, n, base.len) {
				r := *e.get(st, res.id)
				r.tag = &Tag{"list:" + kind, nil}
				st.heap[res.id] = &r
			}
		}
	}
}

// nativeArray is the slice held by a *NativeArray result.
func (v *Env) nativeArray(st *State, x Val) (SliceV, bool) {
	i, ok := x.(IfaceV)
	if !ok || !types.Identical(i.typ, types.NewPointer(v.p.typ("NativeArray"))) {
		return SliceV{}, false
	}
	p, ok := i.val.(PtrV)
	if !ok {
		return SliceV{}, false
	}
	switch s := v.e.load(st, p).(type) {
	case SliceV:
		return s, true
	case NilV:
		return v.e.asSlice(st, s, v.p.typ("NativeArray")), true
	}
	return SliceV{}, false
}

// repetition
func checkPattern(p *Prog, rep *Report) {
	for _, c := range []string{"max<0", "max=0", "max>0"} {
		checkPatternCase(p, rep, c)
	}
}

func checkPatternCase(p *Prog, rep *Report, maxCase string) {
	guard(rep, "pattern", func() {
		v := newEnv(p, rep, "pattern")
		self := v.selfPtr("pattern")
		value := v.loadField(v.st, self, "value")
		join := v.loadField(v.st, self, "join")
		v.st.nilF[objOf(value)] = false
		min := v.e.lin(v.loadField(v.st, self, "min"))
		max := v.e.lin(v.loadField(v.st, self, "max"))
		switch maxCase {
		case "max<0":
			v.st.zw().addLE(max.addc(1))
		case "max=0":
			v.st.zw().addEQ(max)
		default:
			v.st.zw().addLE(max.neg().addc(1))
		}
		g := v.st.ghost
		g["k"] = IntV{linConst(0)}        // occurrences matched
		g["end"] = g["P0"]                // end of the last of them
		g["prev"] = g["P0"]               // end of the one before
		g["joined"] = BoolV{fBool(false)} // a join has just matched
		g["failed"] = BoolV{fBool(false)} // the last attempt failed
		g["progress"] = BoolV{fBool(true)}
		v.trackList("occ")
		isB := func(st *State, k string) bool { return v.e.decide(st, st.ghost[k].(BoolV).f) == yes }
		// the occurrence matched last consumed something, or was required
		progress := func(st *State) bool {
			k := ghostLin(st, "k")
			z := st.zone
			return isB(st, "progress") || z.ub(k) <= 1 || z.ub(k.sub(min)) <= 0 || z.lb(ghostLin(st, "end").sub(ghostLin(st, "prev"))) > 0
		}
		v.e.OnHead = func(e *Engine, st *State) {
			st.ghost["progress"] = BoolV{fBool(progress(st))}
		}
		hasJoin := func(st *State) tri { return triNot(v.e.nilness(st, join)) }
		v.e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
			st := c.st
			v.chk(st, v.e.same(st, c.args[0], v.ctx), "ctx", c, "parses with another context")
			v.chk(st, !isB(st, "failed"), "stop-on-miss", c, "goes on after an attempt failed")
			k, end := ghostLin(st, "k"), ghostLin(st, "end")
			if v.e.same(st, c.recv, join) {
				v.chk(st, st.zone.lb(k) >= 1, "join-between", c, "a join is tried before an occurrence")
				v.chk(st, !isB(st, "joined"), "one-join", c, "two joins are tried in a row")
				v.chk(st, v.posEq(st, end), "join-pos", c, "a join is not tried at the end of the last occurrence")
				v.chk(st, progress(st), "progress", c, "goes on although the last occurrence consumed nothing")
				fail := st.clone()
				fail.note(c.pos, "the join fails")
				v.havocPos(fail)
				fail.ghost["failed"] = BoolV{fBool(true)}
				st.note(c.pos, "the join succeeds")
				r := v.freshAst(st, "joined")
				st.ghost["joined"] = BoolV{fBool(true)}
				st.ghost["jend"] = IntV{v.advance(st)}
				return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
			}
			if !v.chk(st, v.e.same(st, c.recv, value), "operands", c, "parses something else than its value or its join (%s)", v.e.show(st, c.recv)) {
				return nil
			}
			if isB(st, "joined") {
				v.chk(st, v.posEq(st, ghostLin(st, "jend")), "occ-pos", c, "an occurrence is not tried at the end of the join")
			} else {
				v.chk(st, v.posEq(st, end), "occ-pos", c, "an occurrence is not tried at the end of the previous one")
				v.chk(st, st.zone.ub(k) <= 0 || hasJoin(st) == no || v.neverUndef(st, join), "join-required", c, "an occurrence is tried without the join that must precede it")
				v.chk(st, progress(st), "progress", c, "goes on although the last occurrence consumed nothing")
			}
			fail := st.clone()
			fail.note(c.pos, "the occurrence fails")
			v.havocPos(fail)
			fail.ghost["failed"] = BoolV{fBool(true)}
			st.note(c.pos, "the occurrence succeeds")
			r := v.freshAst(st, "occurrence")
			v.mark(st, r, "occ", k)
			st.ghost["k"] = IntV{k.addc(1)}
			st.ghost["prev"] = st.ghost["end"]
			st.ghost["end"] = IntV{v.advance(st)}
			st.ghost["joined"] = BoolV{fBool(false)}
			st.ghost["progress"] = BoolV{fBool(false)}
			return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
		}
		outs := v.noPanic(v.run(p.method("pattern", "parse"), self, v.ctx), false)
		for _, o := range outs {
			st := o.st
			v.wrapOnce(o)
			v.forward(o)
			z := st.zone
			k, end, prev := ghostLin(st, "k"), ghostLin(st, "end"), ghostLin(st, "prev")
			maxed := func(n Lin) bool { return z.lb(max) >= 0 && z.lb(n.sub(max)) >= 0 }
			switch v.verdict(o) {
			case yes:
				v.chkO(o, v.posEq(st, ghostLin(st, "P0")), "fail-pos", "fails without leaving the position where it was")
				v.chkO(o, z.ub(k.sub(min)) < 0, "fail-iff", "fails although enough occurrences matched")
				v.chkO(o, isB(st, "failed") || maxed(k), "greedy", "fails before an attempt failed")
			case no:
				s, ok := v.nativeArray(st, o.ret)
				if !v.chkO(o, ok, "shape", "the result is not an array (%s)", v.e.show(st, o.ret)) {
					continue
				}
				n := s.len
				v.chkO(o, v.isList(st, s, "occ"), "list", "the result does not list the occurrences' results in order")
				v.chkO(o, z.lb(n.sub(min)) >= 0 || z.ub(min) <= 0, "min", "succeeds with fewer than the minimum")
				v.chkO(o, z.ub(n.sub(max)) <= 0 || z.ub(max) < 0, "max", "accepts more than the maximum")
				switch {
				case v.eqLin(st, n, k):
					v.chkO(o, v.posEq(st, end), "end-pos", "does not stop at the end of the last occurrence accepted")
					v.chkO(o, isB(st, "failed") || maxed(n) || z.ub(end.sub(prev)) <= 0 && z.lb(n.sub(min)) >= 0 && z.lb(n) >= 2, "greedy", "stops before an attempt failed or the maximum is reached")
				case v.eqLin(st, n, k.addc(-1)):
					// a last occurrence that consumed nothing may be left out
					v.chkO(o, z.ub(end.sub(prev)) <= 0 && z.lb(end.sub(prev)) >= 0 && z.lb(n) >= 1, "greedy", "leaves out an occurrence that matched")
					v.chkO(o, v.posEq(st, prev), "end-pos", "does not stop at the end of the last occurrence accepted")
				default:
					v.chkO(o, false, "greedy", "does not accept every occurrence that matched")
				}
			}
		}
		v.reached(len(outs), 2)
		v.done()
	})
}

// neverUndef: x is known to hold the undefined value (a join left out).
func (v *Env) neverUndef(st *State, x Val) bool {
	if tf := st.typF[objOf(x)]; tf != nil && tf.is != nil {
		return strings.HasSuffix(tf.is.String(), "NativeUndefined")
	}
	return false
}

func init() {
	checks["C01"] = checkDef{rule: "abstract interpretation of choice.parse and rank.parse (every path, loops to fixpoint, any number of alternatives) against a typestate monitor of ordered choice: the i-th child parsed is the i-th alternative, from the start position, none after a success, and result, position and failure follow; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkChoice(p, rep, "choice")
			checkChoice(p, rep, "rank")
			checkFrozen(p, rep, "choice", "rank")
			rep.floor("choice.in-order", 2)
			rep.floor("rank.in-order", 2)
		}}
	checks["C03"] = checkDef{rule: "abstract interpretation of pattern.parse (every path, any bounds, with and without join) against a typestate monitor of greedy bounded repetition; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkPattern(p, rep)
			checkFrozen(p, rep, "pattern")
			rep.floor("pattern.occ-pos", 3)
			rep.floor("pattern.join-pos", 1)
		}}
	checks["C04"] = checkDef{rule: "abstract interpretation of lookahead.parse and not.parse against a typestate monitor: one attempt at the current position, verdict as specified, undefined result, position restored on every path; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkUnary(p, rep, "lookahead", "expr")
			checkUnary(p, rep, "not", "it")
			checkFrozen(p, rep, "lookahead", "not")
			rep.floor("lookahead.child", 1)
			rep.floor("not.child", 1)
		}}
	checks["C05"] = checkDef{rule: "abstract interpretation of existential.parse against a typestate monitor: one attempt, the element's result and end on success, undefined value and restored position on failure, never a failure; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkUnary(p, rep, "existential", "it")
			checkFrozen(p, rep, "existential")
			rep.floor("existential.child", 1)
		}}
}
