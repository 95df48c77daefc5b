package main

// Typestate monitor of sequences (C02, C15, C13).

import (
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

type seqRules struct{ order, shape, own bool }

func checkSequence(p *Prog, rep *Report, want seqRules) {
	guard(rep, "sequence", func() {
		// the lazies are the ones its constructor binds
		v := newEnv(p, rep, "sequence")
		e := v.e
		it := v.e.symVal(v.st, types.NewPointer(p.typ("NativeArray")), "it", "it").(PtrV)
		v.st.nilF[it.obj] = false
		v.e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
			if id := objOf(x); id != 0 {
				st.nilF[id] = false
			}
			return x
		}
		var built []Outcome
		for _, o := range v.run(p.fn("newSequence"), IfaceV{types.NewPointer(p.typ("NativeArray")), it}) {
			if o.panic == "" {
				built = append(built, o)
			}
		}
		if len(built) == 0 {
			rep.lost = append(rep.lost, "newSequence: no outcome")
		}
		for _, o := range built {
			self, ok := o.ret.(PtrV)
			if !ok {
				rep.lost = append(rep.lost, "newSequence: not a pointer")
				continue
			}
			seqRun(p, rep, v, o.st, self, want)
		}
		if want.shape {
			if where := otherMaps(p, e); where != "" {
				var keep []Violation
				for _, x := range e.viol {
					switch x.rule {
					case "sequence.merge", "sequence.object", "sequence.labels", "sequence.no-panic":
					default:
						keep = append(keep, x)
					}
				}
				if len(keep) < len(e.viol) {
					e.undecided("a map is filled another way than with Set (in %s): what it holds is not followed", where)
				}
				e.viol = keep
			}
		}
		v.done()
	})
}

// otherMaps: a function that was run and fills maps of results itself.
func otherMaps(p *Prog, e *Engine) string {
	where := ""
	for b := range e.visited {
		f := b.Parent()
		if strings.HasSuffix(short(f), "NewNativeMap") || f.Signature.Recv() != nil && f.Name() == "Set" {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if strings.HasSuffix(typeStr(x.Map.Type()), "]Ast") {
					where = short(f)
				}
			case *ssa.Alloc:
				if typeStr(x.Type()) == "*NativeMap" {
					where = short(f)
				}
			}
		}
	}
	return where
}

func seqRun(p *Prog, rep *Report, v *Env, st0 *State, self PtrV, want seqRules) {
	e := v.e
	st0.frames = nil
	st0.trace = nil
	nmT := types.NewPointer(p.typ("NativeMap"))
	v.st = st0
	v.self = IfaceV{types.NewPointer(p.typ("sequence")), self}
	parserSlice := types.NewSlice(p.typ("Parser"))
	v.storeField(st0, self, "sequence", e.symVal(st0, parserSlice, "elements", "elements"))
	seq := e.asSlice(st0, v.loadField(st0, self, "sequence"), p.typ("Ast"))
	n := seq.len
	none := NilV{}
	zero := IntV{linConst(0)}
	T, F := BoolV{fBool(true)}, BoolV{fBool(false)}
	g := st0.ghost
	for _, k := range []string{"k", "kl", "kc", "TL", "TC", "ncap"} {
		g[k] = zero
	}
	g["end"] = g["P0"]
	g["failed"], g["free"], g["mapped"] = F, F, F
	g["lastcap"], g["acc"], g["pendR"], g["pendL"] = none, none, none, none
	g["pend"] = StrV{s: ""}
	for _, c := range []string{"c1", "c2"} {
		g[c+".src"], g[c+".dst"], g[c+".j"], g[c+".n"] = none, none, zero, zero
	}
	is := func(st *State, k string) bool { return e.decide(st, st.ghost[k].(BoolV).f) == yes }
	pendIs := func(st *State) string { return st.ghost["pend"].(StrV).s }
	chkP := func(on bool, st *State, ok bool, rule string, c *CallCtx, format string, a ...any) bool {
		if !on {
			return ok
		}
		return v.chk(st, ok, rule, c, format, a...)
	}

	// children's label and capture lists
	e.ifHooks["Parser.getRule"] = func(c *CallCtx) []Result {
		r := v.ruleOf(c.st, c.recv).(PtrV)
		o := e.get(c.st, r.obj)
		if _, ok := o.virt["lists"]; !ok {
			for _, f := range []string{"labels_", "captures_"} {
				l := v.loadField(c.st, r, f).(PtrV)
				c.st.nilF[l.obj] = false
				n := *e.get(c.st, l.obj)
				n.tag = &Tag{f, []Val{c.recv}}
				c.st.heap[l.obj] = &n
			}
			e.setVirt(c.st, r.obj, "lists", zero)
		}
		return one(c.st, r)
	}
	e.hooks["(*helpers.Lazy[T]).Get"] = func(c *CallCtx) []Result {
		st := c.st
		t := e.tagOf(st, c.args[0])
		if t == nil || (t.kind != "labels_" && t.kind != "captures_") {
			return nil // the sequence's own: interpreted
		}
		kk, tt := "kl", "TL"
		if t.kind == "captures_" {
			kk, tt = "kc", "TC"
		}
		arr, idx, ok := v.elemTag(st, t.args[0])
		if z, ok := idx.isConst(); ok && z == 0 {
			st.ghost[kk], st.ghost[tt] = zero, zero
		}
		if !chkP(want.shape, st, ok && arr == seq.arr && v.eqLin(st, idx, ghostLin(st, kk).add(seq.off)), "lists-in-order", c, "the %s of the elements are not collected once each, in order", t.kind) {
			return nil
		}
		r := e.symVal(st, c.sig.Results().At(0).Type(), "", t.kind).(SliceV)
		st.ghost[kk] = IntV{ghostLin(st, kk).addc(1)}
		st.ghost[tt] = IntV{ghostLin(st, tt).add(r.len)}
		return one(st, r)
	}
	// keys listed by a map are present in it
	keysOf := func(st *State, k Val) (PtrV, Lin, bool) {
		arr, idx, ok := v.elemTag(st, k)
		if !ok {
			return PtrV{}, Lin{}, false
		}
		if t := e.get(st, arr).tag; t != nil && t.kind == "keysof" {
			return t.args[0].(PtrV), idx, true
		}
		return PtrV{}, Lin{}, false
	}
	e.OnMapAbsent = func(e *Engine, st *State, m *Obj, k Val) bool {
		if src, _, ok := keysOf(st, k); ok {
			if vals, ok := v.loadField(st, src, "vals").(RefV); ok && vals.obj == m.id {
				return false
			}
		}
		return true
	}
	bindKeys := func(st *State, m PtrV) {
		ks := e.symVal(st, types.NewSlice(types.Typ[types.String]), "", "keys").(SliceV)
		o := *e.get(st, ks.arr)
		o.tag = &Tag{"keysof", []Val{m}}
		st.heap[ks.arr] = &o
		v.storeField(st, m, "keys", ks)
		vals := e.symVal(st, types.NewMap(types.Typ[types.String], p.typ("Ast")), "", "vals").(RefV)
		st.nilF[vals.obj] = false
		v.storeField(st, m, "vals", vals)
	}
	keysLen := func(st *State, m PtrV) Lin {
		return e.asSlice(st, v.loadField(st, m, "keys"), types.NewSlice(types.Typ[types.String])).len
	}
	mapVal := func(x Val) Val {
		if i, ok := x.(IfaceV); ok && types.Identical(i.typ, nmT) {
			return i.val
		}
		return none
	}
	mapOf := func(x Val) (PtrV, bool) {
		if i, ok := x.(IfaceV); ok && types.Identical(i.typ, nmT) {
			m, ok := i.val.(PtrV)
			return m, ok
		}
		return PtrV{}, false
	}
	sameP := func(st *State, a, b Val) bool {
		_, na := a.(NilV)
		_, nb := b.(NilV)
		return !na && !nb && e.same(st, a, b)
	}
	complete := func(st *State, c string, src Val) bool {
		return sameP(st, st.ghost[c+".src"], src) && v.eqLin(st, ghostLin(st, c+".j"), ghostLin(st, c+".n"))
	}
	clear := func(st *State) {
		for _, c := range []string{"c1", "c2"} {
			st.ghost[c+".src"], st.ghost[c+".dst"], st.ghost[c+".j"], st.ghost[c+".n"] = none, none, zero, zero
		}
		st.ghost["pend"] = StrV{s: ""}
		st.ghost["pendR"], st.ghost["pendL"] = none, none
	}
	// discharge: what the previous element's label requires has been done
	discharge := func(st *State) string {
		if is(st, "free") {
			return ""
		}
		defer clear(st)
		acc := st.ghost["acc"]
		R, _ := mapOf(st.ghost["pendR"])
		switch pendIs(st) {
		case "":
			if !isNil(st.ghost["c1.src"]) {
				return "keys are copied for an element without label"
			}
		case "other":
			return "the result of a labelled element is not recorded under its label"
		case "@", "&":
			empty := st.zone.ub(keysLen(st, R)) <= 0
			st.ghost["mapped"] = T
			if pendIs(st) == "@" || isNil(acc) {
				if empty {
					return ""
				}
				if !complete(st, "c1", R) || !isNil(st.ghost["c2.src"]) {
					return "the keys of an element labelled " + pendIs(st) + " are not all merged, once, in order"
				}
				if isNil(acc) {
					st.ghost["acc"] = st.ghost["c1.dst"]
				} else if !sameP(st, acc, st.ghost["c1.dst"]) {
					return "the keys of an element labelled " + pendIs(st) + " are merged into another map"
				}
				return ""
			}
			c := "c1"
			if !empty {
				if !complete(st, "c1", R) {
					return "the keys of an element labelled & are not all copied first, in order"
				}
				c = "c2"
			}
			if !complete(st, c, acc) || (c == "c2" && !sameP(st, st.ghost["c1.dst"], st.ghost["c2.dst"])) {
				return "the keys recorded before an element labelled & are not all added to it"
			}
			st.ghost["acc"] = st.ghost[c+".dst"]
		}
		return ""
	}
	havocMap := func(st *State, m PtrV) {
		bindKeys(st, m)
		st.zw().addLE(keysLen(st, m).neg().addc(1))
	}
	e.hooks["(*joeson.NativeMap).Set"] = func(c *CallCtx) []Result {
		st := c.st
		dst, k, x := c.args[0].(PtrV), c.args[1], c.args[2]
		chkP(want.own, st, e.get(st, dst.obj).fresh, "own-map", c, "writes into a map it did not create (%s): a result already produced is modified", e.show(st, dst))
		if !want.shape {
			return one(st, TupleV{})
		}
		if is(st, "free") {
			havocMap(st, dst)
			return one(st, TupleV{})
		}
		acc := st.ghost["acc"]
		if src, j, ok := keysOf(st, k); ok {
			cc := ""
			for _, n := range []string{"c2", "c1"} {
				if sameP(st, st.ghost[n+".src"], src) && sameP(st, st.ghost[n+".dst"], dst) {
					cc = n
					break
				}
				if !isNil(st.ghost[n+".src"]) {
					break
				}
			}
			if cc == "" {
				cc = "c1"
				if !isNil(st.ghost["c1.src"]) {
					cc = "c2"
					v.chk(st, v.eqLin(st, ghostLin(st, "c1.j"), ghostLin(st, "c1.n")), "merge", c, "keys are left out of a merge")
					v.chk(st, isNil(st.ghost["c2.src"]), "merge", c, "keys are merged more often than labelled")
				}
				st.ghost[cc+".src"], st.ghost[cc+".dst"] = src, dst
				st.ghost[cc+".j"], st.ghost[cc+".n"] = zero, IntV{keysLen(st, src)}
			}
			v.chk(st, v.eqLin(st, j, ghostLin(st, cc+".j")), "merge", c, "keys are not merged in order")
			st.ghost[cc+".j"] = IntV{ghostLin(st, cc+".j").addc(1)}
			t := e.tagOf(st, x)
			good := t != nil && t.kind == "mapelem" && e.same(st, t.args[1], k)
			if good {
				vals, isRef := v.loadField(st, src, "vals").(RefV)
				good = isRef && vals.obj == t.args[0].(RefV).obj
			}
			v.chk(st, good, "merge", c, "a key is merged with another value than its own (%s)", e.show(st, x))
			R := mapVal(st.ghost["pendR"])
			v.chk(st, sameP(st, src, R) || sameP(st, src, acc), "merge", c, "keys of something else are merged")
		} else {
			v.chk(st, pendIs(st) == "other", "labels", c, "records a key for an element that has no label of its own")
			if pendIs(st) == "other" {
				v.chk(st, e.same(st, k, st.ghost["pendL"]), "labels", c, "a result is recorded under another key than its label")
				v.chk(st, e.same(st, x, st.ghost["pendR"]), "labels", c, "another value than the element's result is recorded under its label")
				v.chk(st, sameP(st, acc, dst) || isNil(acc), "labels", c, "a label is recorded in another map than the result")
				st.ghost["acc"] = dst
				clear(st)
			}
		}
		havocMap(st, dst)
		return one(st, TupleV{})
	}
	v.trackList("cap")
	e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
		st := c.st
		arr, idx, ok := v.elemTag(st, c.recv)
		k := ghostLin(st, "k")
		if !chkP(want.order, st, ok && arr == seq.arr && v.eqLin(st, idx, k.add(seq.off)), "in-order", c, "parses something else than the next element (%s)", e.show(st, c.recv)) {
			return nil
		}
		chkP(want.order, st, e.same(st, c.args[0], v.ctx), "ctx", c, "an element is parsed with another context")
		chkP(want.order, st, !is(st, "failed"), "stop-on-failure", c, "goes on after an element failed")
		chkP(want.order, st, v.posEq(st, ghostLin(st, "end")), "from-end", c, "an element is not started where the previous one stopped")
		st.ghost["k"] = IntV{k.addc(1)}
		z := st.zone
		TL, TC := ghostLin(st, "TL"), ghostLin(st, "TC")
		allL := v.eqLin(st, ghostLin(st, "kl"), n)
		object := z.lb(TL) > 0
		if want.shape {
			v.chk(st, object || (allL && z.ub(TL) <= 0), "shape-by-labels", c, "the shape is chosen without looking at every label")
			if msg := discharge(st); msg != "" {
				v.chk(st, false, "merge", c, "%s", msg)
			}
		}
		fail := st.clone()
		fail.note(c.pos, "the element fails")
		v.havocPos(fail)
		fail.ghost["failed"] = T
		st.note(c.pos, "the element succeeds")
		st.ghost["end"] = IntV{v.advance(st)}
		rs := []Result{{st: fail, ret: NilV{}}}
		if !want.shape {
			return append(rs, Result{st: st, ret: v.freshAst(st, "result")})
		}
		rule := v.ruleOf(st, c.recv).(PtrV)
		_ = TC
		if !object {
			capF := e.form(st, v.loadField(st, rule, "capture"))
			not := st.clone()
			e.assume(not, capF, false)
			not.note(c.pos, "the element does not capture")
			rs = append(rs, Result{st: not, ret: v.freshAst(not, "uncaptured")})
			e.assume(st, capF, true)
			r := v.freshAst(st, "captured")
			v.mark(st, r, "cap", ghostLin(st, "ncap"))
			st.ghost["ncap"] = IntV{ghostLin(st, "ncap").addc(1)}
			st.ghost["lastcap"] = r
			return append(rs, Result{st: st, ret: r})
		}
		label := v.loadField(st, rule, "label")
		for _, class := range []string{"", "@", "&", "other"} {
			s := st.clone()
			for _, x := range []string{"", "@", "&"} {
				if class == x {
					e.assume(s, e.eqForm(s, label, StrV{s: x}), true)
				} else {
					e.assume(s, e.eqForm(s, label, StrV{s: x}), false)
				}
			}
			if s.dead {
				continue
			}
			s.note(c.pos, "its label is "+class)
			switch class {
			case "":
				rs = append(rs, Result{st: s, ret: v.freshAst(s, "unlabelled")})
			case "other":
				r := v.freshAst(s, "labelled")
				s.ghost["pend"], s.ghost["pendR"], s.ghost["pendL"] = StrV{s: "other"}, r, label
				rs = append(rs, Result{st: s, ret: r})
			default:
				u := s.clone()
				u.note(c.pos, "it is undefined")
				us := e.symVal(u, p.typ("NativeUndefined"), "", "undef")
				rs = append(rs, Result{st: u, ret: IfaceV{p.typ("NativeUndefined"), us}})
				w := s.clone()
				w.note(c.pos, "it is neither a map nor undefined")
				w.ghost["free"] = T
				wr := v.freshAst(w, "other")
				for _, t := range []types.Type{nmT, p.typ("NativeUndefined")} {
					e.assume(w, &Form{op: fType, obj: wr.obj, typ: t}, false)
				}
				rs = append(rs, Result{st: w, ret: wr})
				s.note(c.pos, "it is a map")
				m := e.symVal(s, nmT, "", "map").(PtrV)
				s.nilF[m.obj] = false
				bindKeys(s, m)
				r := IfaceV{nmT, m}
				s.ghost["pend"], s.ghost["pendR"] = StrV{s: class}, r
				rs = append(rs, Result{st: s, ret: r})
			}
		}
		return rs
	}
	outs := v.run(p.method("sequence", "parse"), self, v.ctx)
	var ended, outs2 []Outcome
	for _, o := range outs {
		if o.panic == "" {
			ended = append(ended, o)
		}
		if o.panic == "" || !is(o.st, "free") {
			outs2 = append(outs2, o)
		}
	}
	if want.shape {
		ended = v.noPanic(outs2, true)
	}
	outs = ended
	for _, o := range outs {
		st := o.st
		chkO := func(on, ok bool, rule, format string, a ...any) bool {
			if !on {
				return ok
			}
			return v.chkO(o, ok, rule, format, a...)
		}
		if want.order {
			v.wrapOnce(o)
			v.forward(o)
		}
		switch v.verdict(o) {
		case yes:
			chkO(want.order, is(st, "failed"), "fail-iff", "fails although no element failed")
		case no:
			chkO(want.order, !is(st, "failed"), "fail-iff", "succeeds although an element failed")
			chkO(want.order, v.eqLin(st, ghostLin(st, "k"), n), "all", "succeeds before every element was parsed")
			chkO(want.order, v.posEq(st, ghostLin(st, "end")), "end-pos", "does not stop where the last element stopped")
			if !want.shape || is(st, "free") {
				continue
			}
			z := st.zone
			if msg := discharge(st); msg != "" {
				v.chkO(o, false, "merge", "%s", msg)
			}
			TL, TC := ghostLin(st, "TL"), ghostLin(st, "TC")
			if z.ub(n) <= 0 {
				chkO(true, v.isUndef(o.ret) || func() bool { s, ok := v.nativeArray(st, o.ret); return ok && z.ub(s.len) <= 0 }(), "empty", "an empty sequence yields %s", e.show(st, o.ret))
				continue
			}
			if z.lb(TL) > 0 {
				acc := st.ghost["acc"]
				m, isMap := mapOf(o.ret)
				if isNil(acc) {
					ok := v.isUndef(o.ret)
					if is(st, "mapped") {
						ok = isMap && e.get(st, m.obj).fresh
					}
					chkO(true, ok, "object", "no key was recorded but the result is %s", e.show(st, o.ret))
				} else {
					chkO(true, isMap && sameP(st, m, acc), "object", "a sequence with labels does not yield the map of its labels (%s)", e.show(st, o.ret))
				}
				continue
			}
			chkO(true, v.eqLin(st, ghostLin(st, "kl"), n), "shape-by-labels", "the shape is chosen without looking at every label")
			allC := v.eqLin(st, ghostLin(st, "kc"), n)
			switch {
			case z.lb(TC) > 1:
				s, ok := v.nativeArray(st, o.ret)
				chkO(true, ok && v.isList(st, s, "cap") && v.eqLin(st, s.len, ghostLin(st, "ncap")), "array", "a sequence with several captures does not yield the array of its capturing elements' results, in order (%s)", e.show(st, o.ret))
			case allC && z.ub(TC) <= 1:
				if isNil(st.ghost["lastcap"]) {
					chkO(true, v.isUndef(o.ret), "single", "no element captures but the result is %s", e.show(st, o.ret))
				} else {
					chkO(true, e.same(st, o.ret, st.ghost["lastcap"]), "single", "the result is not the one of the capturing element (%s)", e.show(st, o.ret))
				}
			default:
				chkO(true, false, "shape-by-captures", "the shape is chosen without counting every capture")
			}
		}
	}
	v.reached(len(outs), 3)
}

func init() {
	checks["C02"] = checkDef{rule: "abstract interpretation of newSequence followed by sequence.parse (every path, every result shape, any number of elements) against a typestate monitor: the i-th child parsed is the i-th element, started where the previous one stopped, none after a failure; success iff all succeeded, at the end of the last; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkSequence(p, rep, seqRules{order: true})
			checkFrozen(p, rep, "sequence")
			rep.floor("sequence.in-order", 3)
		}}
	checks["C15"] = checkDef{rule: "abstract interpretation of newSequence followed by sequence.parse against a typestate monitor of the result's shape: every label and capture list is consulted, labelled results are recorded under their label, keys of @ and & elements are merged completely and in order, arrays list exactly the capturing elements; and of the constructors that set capture flags",
		f: func(p *Prog, rep *Report) {
			checkSequence(p, rep, seqRules{shape: true})
			checkCaptures(p, rep)
			checkChildLabels(p, rep)
			rep.floor("sequence.labels", 1)
			rep.floor("sequence.merge", 1)
			rep.floor("sequence.array", 1)
			rep.floor("sequence.single", 1)
		}}
}
