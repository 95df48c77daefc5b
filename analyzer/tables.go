package main

// The memo table itself: its creation, forgetting and restoring the frames
// involved in a recursion. Decided for an arbitrary rule number J (and rows J,
// K), which stands for every one.

import (
	"go/types"
)

func checkTables(p *Prog, rep *Report) {
	guard(rep, "wipe", func() {
		for _, stashing := range []bool{true, false} {
			for _, masked := range []bool{true, false} {
				for _, had := range []bool{true, false} {
					wipeRun(p, rep, stashing, masked, had)
				}
			}
		}
		for _, s := range []string{"nil", "none", "frame"} {
			restoreRun(p, rep, s)
		}
		rep.floor("wipe.row", 6)
		rep.floor("restore.row", 2)
	})
}

// tableEnv: frames is a table of L+1 rows of nr entries
func tableEnv(p *Prog, rep *Report, rule string) (v *Env, frames SliceV, nr, J Lin) {
	v = newEnv(p, rep, rule)
	e, st := v.e, v.st
	nr = e.lin(v.loadField(st, v.ctx, "numRules"))
	frames = e.asSlice(st, v.loadField(st, v.ctx, "frames"), p.typ("Ast"))
	J = linSym(e.symByName("J"))
	z := st.zw()
	e.skolems = map[ObjID][]Lin{}
	e.mkSkolems = []Lin{J}
	z.addEQ(frames.len.sub(v.L).addc(-1))
	z.addLE(J.neg())
	z.addLE(J.addc(1).sub(nr))
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, y Val) Val {
		if o.id == frames.arr {
			st.zw().addEQ(y.(SliceV).len.sub(nr))
		}
		return y
	}
	return
}

// onlyWrites reports writes to anything else than fresh objects and row's array
func (v *Env) onlyWrites(arrs ...ObjID) {
	v.e.OnStore = func(e *Engine, st *State, pv PtrV, y Val, pos pos0) {
		o := e.get(st, pv.obj)
		if o.fresh {
			return
		}
		for _, a := range arrs {
			if a == o.id {
				return
			}
		}
		e.Check(st, false, v.rule+".foreign", pos, "changes %s", e.show(st, PtrV{obj: pv.obj}))
	}
}

func wipeRun(p *Prog, rep *Report, stashing, masked, had bool) {
	v, frames, nr, J := tableEnv(p, rep, "wipe")
	e, st := v.e, v.st
	fr := e.symVal(st, types.NewPointer(p.typ("frame")), "fr", "fr").(PtrV)
	st.nilF[fr.obj] = false
	pos := e.lin(v.loadField(st, fr, "pos"))
	z := st.zw()
	z.addLE(pos.neg())
	z.addLE(pos.sub(v.L))
	mask := e.asSlice(st, v.loadField(st, fr, "wipemask"), types.NewSlice(types.Typ[types.Bool]))
	st.nilF[mask.arr] = false
	st.zw().addEQ(mask.len.sub(nr))
	row := e.elemGet(st, e.get(st, frames.arr), frames.off.add(pos)).(SliceV)
	e.skolems[row.arr] = []Lin{row.off.add(J)}
	e.skolems[frames.arr] = []Lin{frames.off.add(pos)}
	e.skolems[mask.arr] = []Lin{mask.off.add(J)}
	old := e.elemGet(st, e.get(st, row.arr), row.off.add(J)).(PtrV)
	st.nilF[old.obj] = !had
	e.assume(st, e.form(st, e.elemGet(st, e.get(st, mask.arr), mask.off.add(J))), masked)
	v.onlyWrites(row.arr)
	outs := v.noPanic(e.Run(st, p.method("ParseContext", "wipeWith"), []Val{v.ctx, fr, BoolV{fBool(stashing)}}, nil), true)
	for _, o := range outs {
		s := o.st
		now := e.elemGet(s, e.get(s, row.arr), row.off.add(J))
		isOld := func(y Val) bool { return e.same(s, y, old) || !had && e.nilness(s, y) == yes }
		if masked {
			v.chkO(o, e.nilness(s, now) == yes, "row", "what an involved rule remembers is not forgotten")
		} else {
			v.chkO(o, isOld(now), "row", "what a rule that is not involved remembers is forgotten (%s)", e.show(s, now))
		}
		v.chkO(o, v.posEq(s, ghostLin(s, "P0")), "pos", "the position moves")
		if !stashing {
			continue
		}
		r, ok := o.ret.(SliceV)
		if !v.chkO(o, ok && v.eqLin(s, r.len, nr), "stash", "the frames forgotten are not stashed by rule number (%s)", e.show(s, o.ret)) {
			continue
		}
		x := e.elemGet(s, e.get(s, r.arr), r.off.add(J))
		if masked {
			v.chkO(o, isOld(x), "stash", "what is forgotten is not stashed")
		} else {
			v.chkO(o, e.nilness(s, x) == yes, "stash", "something that was not forgotten is stashed")
		}
	}
	v.done()
}

func restoreRun(p *Prog, rep *Report, slot string) {
	v, frames, nr, J := tableEnv(p, rep, "restore")
	e, st := v.e, v.st
	// every frame of a stash comes from one row P
	P := linSym(e.symByName("P"))
	z := st.zw()
	z.addLE(P.neg())
	z.addLE(P.sub(v.L))
	row := e.elemGet(st, e.get(st, frames.arr), frames.off.add(P)).(SliceV)
	e.skolems[row.arr] = []Lin{row.off.add(J)}
	e.skolems[frames.arr] = []Lin{frames.off.add(P)}
	old := e.elemGet(st, e.get(st, row.arr), row.off.add(J))
	stash := e.symVal(st, p.typ("stash"), "stash", "stash").(SliceV)
	onElem := e.OnElem
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, y Val) Val {
		if o.id == stash.arr {
			st.zw().addEQ(e.lin(v.loadField(st, y.(PtrV), "pos")).sub(P))
		}
		return onElem(e, st, o, idx, y)
	}
	var was Val = NilV{}
	var arg Val = stash
	if slot == "nil" {
		arg = NilV{}
	} else {
		st.nilF[stash.arr] = false
		st.zw().addEQ(stash.len.sub(nr))
		e.skolems[stash.arr] = []Lin{stash.off.add(J)}
		was = e.elemGet(st, e.get(st, stash.arr), stash.off.add(J))
		st.nilF[objOf(was)] = slot == "none"
	}
	v.onlyWrites(row.arr)
	outs := v.noPanic(e.Run(st, p.method("ParseContext", "restoreWith"), []Val{v.ctx, arg}, nil), true)
	for _, o := range outs {
		s := o.st
		now := e.elemGet(s, e.get(s, row.arr), row.off.add(J))
		if slot == "frame" {
			v.chkO(o, e.same(s, now, was), "row", "a stashed frame is not put back in its place")
		} else {
			v.chkO(o, e.same(s, now, old), "row", "something that was not stashed is restored")
		}
		v.chkO(o, v.posEq(s, ghostLin(s, "P0")), "pos", "the position moves")
	}
	v.done()
}

// checkNewContext: a parse starts with an empty table of its own and an empty stack
func checkNewContext(p *Prog, rep *Report) {
	guard(rep, "context", func() {
		v := newEnv(p, rep, "context")
		e, st := v.e, v.st
		nr := e.symVal(st, types.Typ[types.Int], "numRules", "numRules").(IntV)
		opts := e.symVal(st, types.NewPointer(p.typ("TraceOptions")), "opts", "opts").(PtrV)
		st.nilF[opts.obj] = false
		J, K, I := linSym(e.symByName("J")), linSym(e.symByName("K")), linSym(e.symByName("I"))
		e.mkSkolems = []Lin{J, K}
		z := st.zw()
		z.addLE(nr.l.neg())
		for _, r := range []Lin{J, K} {
			z.addLE(r.neg())
			z.addLE(r.sub(v.L))
		}
		z.addLE(I.neg())
		z.addLE(I.addc(1).sub(nr.l))
		z.addNE(J.sub(K))
		v.onlyWrites()
		outs := v.noPanic(e.Run(st, p.fn("newParseContext"), []Val{v.code, nr, opts}, nil), true)
		for _, o := range outs {
			s := o.st
			c, ok := o.ret.(PtrV)
			if !v.chkO(o, ok && e.get(s, c.obj).fresh, "fresh", "does not make a new context") {
				continue
			}
			v.chkO(o, e.same(s, v.loadField(s, c, "Code"), v.code), "code", "the context is for another stream")
			v.chkO(o, v.eqLin(s, e.lin(v.loadField(s, c, "numRules")), nr.l), "rules", "the context is not for the number of rules of the grammar")
			v.chkO(o, v.eqLin(s, e.lin(v.loadField(s, c, "stackLength")), linConst(0)), "stack", "a parse does not start with an empty stack")
			po, isP := v.loadField(s, c, "parseOptions").(PtrV)
			v.chkO(o, isP && e.get(s, po.obj).fresh, "options", "the parse options are not those of this parse only")
			f := e.asSlice(s, v.loadField(s, c, "frames"), p.typ("Ast"))
			if !v.chkO(o, e.get(s, f.arr).fresh && s.zone.lb(f.len.sub(v.L)) >= 1, "table", "the memo table has not a row for each position, the end included") {
				continue
			}
			var rows []SliceV
			for _, r := range []Lin{J, K} {
				y, ok := e.elemGet(s, e.get(s, f.arr), f.off.add(r)).(SliceV)
				if !v.chkO(o, ok && s.zone.lb(y.len.sub(nr.l)) >= 0, "row", "a row of the memo table has not an entry for each rule (%s)", e.show(s, e.elemGet(s, e.get(s, f.arr), f.off.add(r)))) {
					continue
				}
				rows = append(rows, y)
				v.chkO(o, e.get(s, y.arr).fresh && e.nilness(s, e.elemGet(s, e.get(s, y.arr), y.off.add(I))) == yes, "row", "a parse does not start with an empty memo table")
			}
			if len(rows) == 2 {
				v.chkO(o, rows[0].arr != rows[1].arr, "row", "two positions share a row of the memo table")
			}
		}
		if len(outs) == 0 {
			rep.lost = append(rep.lost, "newParseContext: no outcome")
		}
		v.done()
	})
}
