package main

// C21 (lines and columns) and C22 (places of tokens in the original text).

import (
	"go/types"
)

// lineScan follows a constructor that records where lines start.
type lineScan struct {
	*Env
	typ  string
	text StrV
}

func (s *lineScan) soft(st *State) bool { return st.joined || st.ghost["unmodelled"] != nil }

func (s *lineScan) check(st *State, ok bool, rule string, pos pos0, format string, a ...any) bool {
	if !ok && s.soft(st) {
		s.e.undecided("%s.%s: not proved", s.rule, rule)
		return false
	}
	return s.e.Check(st, ok, s.rule+"."+rule, pos, format, a...)
}

// read: text[lo:hi) was looked at; nl is the value of its only rune or byte
func (s *lineScan) read(st *State, lo, hi Lin, nl Val) {
	s.settle(st)
	s.check(st, s.eqLin(st, ghostLin(st, "scan"), lo), "whole", 0, "part of the text is not looked at")
	st.ghost["scan"] = IntV{hi}
	st.ghost["from"] = IntV{lo}
	st.ghost["nl"] = nl
	st.ghost["reads"] = BoolV{fBool(true)}
	st.ghost["got"] = IntV{linConst(0)}
}

// settle: what was read last is accounted for
func (s *lineScan) settle(st *State) {
	nl, ok := st.ghost["nl"].(IntV)
	if !ok {
		return
	}
	got, _ := ghostLin(st, "got").isConst()
	is := &Form{op: fEQ, lin: nl.l.addc(-'\n')}
	if c, ok := nl.l.isConst(); ok {
		is = fBool(c == '\n')
	}
	d := s.e.decide(st, is)
	if d == unk && s.asked(st) {
		s.e.undecided("%s: how newlines are recognised is not understood", s.rule)
	} else {
		if d != no {
			s.check(st, got >= 1, "newline", 0, "no line starts after a newline")
			s.check(st, got <= 1, "once", 0, "a line is recorded twice")
		}
		if d != yes {
			s.check(st, got == 0 || d == unk && got == 0, "only", 0, "a line starts where there is no newline")
		}
	}
	st.ghost["nl"] = NilV{}
	st.ghost["got"] = IntV{linConst(0)}
}

// asked: the path depends on facts about parts of the text
func (s *lineScan) asked(st *State) bool {
	for _, k := range sortedKeys(st.preds) {
		for _, a := range st.preds[k].p.args {
			if t, ok := a.(StrV); ok && t.obj == s.text.obj {
				return true
			}
		}
	}
	return false
}

func (s *lineScan) add(st *State, v Val, pos pos0) {
	iv, ok := v.(IntV)
	if !ok {
		return
	}
	if _, some := st.ghost["nl"].(IntV); !some {
		if s.eqLin(st, iv.l, linConst(0)) && st.ghost["reads"] == nil {
			return // the first line
		}
		if st.ghost["reads"] == nil && st.ghost["other"] == nil {
			s.e.undecided("%s: how newlines are found is not understood", s.rule)
			return
		}
		s.check(st, false, "only", pos, "a line is recorded while no newline was read")
		return
	}
	got := ghostLin(st, "got")
	st.ghost["got"] = IntV{got.addc(1)}
	st.ghost["lines"] = IntV{ghostLin(st, "lines").addc(1)}
	a, b := ghostLin(st, "from").addc(1), ghostLin(st, "scan")
	s.check(st, s.eqLin(st, iv.l, a) || s.eqLin(st, iv.l, b), "start", pos, "a line does not start just after the newline")
}

// nextNL models the search of a newline in the rest of the text.
func (s *lineScan) nextNL(c *CallCtx) []Result {
	t, ok := c.args[0].(StrV)
	if !ok || t.obj != s.text.obj {
		return nil
	}
	switch x := c.args[1].(type) {
	case StrV:
		if x.obj != 0 || x.s != "\n" {
			return nil
		}
	case IntV:
		if k, isC := x.l.isConst(); !isC || k != '\n' {
			return nil
		}
	default:
		return nil
	}
	miss := c.st.clone()
	s.read(miss, t.lo, t.hi, NilV{})
	i := linSym(s.e.freshSym("index"))
	z := c.st.zw()
	z.addLE(i.neg())
	z.addLE(i.addc(1).sub(strLen(t)))
	s.settle(c.st)
	s.check(c.st, s.eqLin(c.st, ghostLin(c.st, "scan"), t.lo), "whole", c.pos, "part of the text is not looked at")
	c.st.ghost["scan"] = IntV{t.lo.add(i)}
	s.read(c.st, t.lo.add(i), t.lo.add(i).addc(1), IntV{linConst('\n')})
	return []Result{{st: miss, ret: IntV{linConst(-1)}}, {st: c.st, ret: IntV{i}}}
}

func isIntSlice(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int
}

// checkLineStarts decides the line table of NewRuneStream / NewTokenStream
func checkLineStarts(p *Prog, rep *Report, typ string, sh streamFields) {
	guard(rep, "New"+typ, func() {
		v := newEnv(p, rep, "New"+typ)
		e := v.e
		e.OnElem = nil
		e.inlineText = true
		e.unroll = 3
		e.unmodelled = map[string]bool{"(*strings.Builder).WriteString": true, "(*strings.Builder).String": true, "(*strings.Builder).Grow": true, "strings.Count": true}
		text := e.symVal(v.st, types.Typ[types.String], "text", "text").(StrV)
		s := &lineScan{Env: v, typ: typ, text: text}
		v.st.ghost["scan"] = IntV{text.lo}
		v.st.ghost["from"] = IntV{text.lo}
		v.st.ghost["lines"] = IntV{linConst(0)}
		v.st.ghost["got"] = IntV{linConst(0)}
		v.st.ghost["nl"] = NilV{}
		args := []Val{text}
		fn := p.fn("New" + typ)
		if fn != nil && len(fn.Params) == 2 {
			args = append(args, e.symVal(v.st, fn.Params[1].Type(), "toks", "toks"))
		}
		e.OnNextRune = func(e *Engine, st *State, sv StrV, pos Lin, r Val) {
			if sv.obj == text.obj {
				s.read(st, sv.lo, sv.hi, r)
				return
			}
			// a newline of another text
			st.ghost["other"] = BoolV{fBool(true)}
		}
		e.OnByte = e.OnNextRune
		e.mkSkolems = []Lin{linConst(0)}
		e.OnHead = func(e *Engine, st *State) { s.settle(st) }
		e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos pos0) {
			if isIntSlice(res.typ) {
				s.add(st, added, pos)
			}
		}
		e.OnStore = func(e *Engine, st *State, pv PtrV, y Val, pos pos0) {
			o := e.get(st, pv.obj)
			if _, isI := y.(IntV); !isI || pv.elem == nil || len(pv.path) > 0 || o.site == "varargs" || o.site == "slicelit" {
				return
			}
			if l := y.(IntV); st.ghost["reads"] == nil && s.eqLin(st, l.l, linConst(0)) {
				return
			}
			s.add(st, y, pos)
		}
		for _, n := range []string{"Index", "IndexByte", "IndexRune"} {
			e.hooks["strings."+n] = s.nextNL
		}
		n := 0
		for _, o := range v.noPanic(v.run(fn, args...), true) {
			n++
			self, isP := derefIface(o.ret).(PtrV)
			if !isP {
				continue
			}
			s.settle(o.st)
			if o.st.ghost["reads"] == nil && o.st.zone.ub(strLen(text)) > 0 {
				e.undecided("%s: the text is looked at in a way that is not understood", s.rule)
				continue
			}
			s.check(o.st, s.eqLin(o.st, ghostLin(o.st, "scan"), text.hi), "whole", o.pos, "the end of the text is not looked at")
			ls := e.asSlice(o.st, v.loadField(o.st, self, sh.ls), nil)
			s.check(o.st, s.eqLin(o.st, ls.len, ghostLin(o.st, "lines").addc(1)), "all", o.pos, "the table of lines is not the one recorded")
			if z := o.st.zone; z.lb(ls.len) >= 1 {
				first, ok := e.elemGet(o.st, e.get(o.st, ls.arr), ls.off).(IntV)
				s.check(o.st, ok && s.eqLin(o.st, first.l, linConst(0)), "first", o.pos, "the first line does not start at 0")
			}
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkLines decides C21.
func checkLines(p *Prog, rep *Report) {
	eachStream(p, rep, func(typ string, sh streamFields) {
		checkLineStarts(p, rep, typ, sh)
		checkLineAnswers(p, rep, typ, sh)
		checkPeekLines(p, rep, typ, sh)
	})
}

// checkLineAnswers: lines and columns asked for
func checkLineAnswers(p *Prog, rep *Report, typ string, sh streamFields) {
	for _, cs := range streamCases(sh.toks != "") {
		at := func(name string, want func(s *stream) Lin) {
			fn := p.method(typ, name)
			guard(rep, typ+"."+name, func() {
				s := newStream(p, rep, typ+"."+name, typ, sh, cs)
				if name != "PosToLine" {
					s.lineOf()
				}
				args := []Val{s.self}
				if len(fn.Params) > 1 {
					args = append(args, IntV{s.Q})
				}
				n := 0
				for _, o := range s.noPanicS(s.run(fn, args...)) {
					n++
					got, ok := o.ret.(IntV)
					s.chkS(o, ok && s.eqLin(o.st, got.l, want(s)), "answer", "%s is not the one of the text", name)
				}
				s.reached(n, 1)
				s.done()
			})
		}
		line := func(s *stream) Lin { return s.R }
		col := func(s *stream) Lin { return s.orig.sub(s.LSR) }
		if cs.atPos {
			at("Line", line)
			at("Col", col)
		} else {
			at("PosToLine", line)
			at("PosToCol", col)
		}
	}
}

func checkPeekLines(p *Prog, rep *Report, typ string, sh streamFields) {
	fn := p.method(typ, "PeekLines")
	for _, cs := range streamCases(sh.toks != "") {
		if !cs.atPos {
			continue
		}
		for count := 0; count <= 3; count++ {
			guard(rep, typ+".PeekLines", func() {
				s := newStream(p, rep, typ+".PeekLines", typ, sh, cs)
				e := s.e
				s.lineOf()
				sl := fn.Params[1].Type()
				a := e.asSlice(s.st, e.symVal(s.st, sl, "n", "n"), sl)
				s.fixedLen(a, count)
				n := 0
				for _, o := range s.noPanicS(s.run(fn, s.self, a)) {
					n++
					var at []Lin
					for i := 0; i < count; i++ {
						at = append(at, e.lin(e.elemGet(o.st, e.get(o.st, a.arr), a.off.addc(int64(i)))))
					}
					if count <= 1 {
						at = append(at, linConst(0))
					}
					s.peeked(o, at)
				}
				s.reached(n, 1)
				s.done()
			})
		}
	}
}

// cases of o under f and its negation
func (s *stream) fork(o Outcome, f *Form) (y, n []Outcome) {
	for _, v := range []bool{true, false} {
		c := o
		c.st = o.st.clone()
		s.e.assume(c.st, f, v)
		if c.st.dead || c.st.zone.bad {
			continue
		}
		if v {
			y = append(y, c)
		} else {
			n = append(n, c)
		}
	}
	return
}

func leForm(l Lin) *Form {
	if c, ok := l.isConst(); ok {
		return fBool(c <= 0)
	}
	return foldLE(l)
}

// peeked: o.ret is the lines R+min(at) to R+max(at) of the text.
func (s *stream) peeked(o Outcome, at []Lin) {
	type pick struct {
		o        Outcome
		min, max Lin
	}
	ps := []pick{{o, at[0], at[0]}}
	for _, l := range at[1:] {
		var n []pick
		for _, q := range ps {
			y, no := s.fork(q.o, leForm(l.sub(q.min)))
			for _, c := range y { // l <= min <= max
				n = append(n, pick{c, l, q.max})
			}
			for _, c := range no {
				y2, n2 := s.fork(c, leForm(q.max.sub(l)))
				for _, d := range y2 {
					n = append(n, pick{d, q.min, l})
				}
				for _, d := range n2 {
					n = append(n, pick{d, q.min, q.max})
				}
			}
		}
		ps = n
	}
	elem := func(st *State, i Lin) Lin {
		return s.e.lin(s.e.elemGet(st, s.e.get(st, s.ls.arr), s.ls.off.add(i)))
	}
	for _, q := range ps {
		a, b := s.R.add(q.min), s.R.add(q.max)
		// all before the text, or all after it
		past, in := s.fork(q.o, leForm(s.ls.len.sub(a)))
		for _, c := range past {
			s.emptyPeek(c)
		}
		for _, c := range in {
			before, in := s.fork(c, leForm(b.addc(1)))
			for _, c := range before {
				s.emptyPeek(c)
			}
			for _, c := range in {
				neg, pos := s.fork(c, leForm(a))
				for i, cs := range [][]Outcome{neg, pos} {
					from := a
					if i == 0 {
						from = linConst(0)
					}
					for _, c := range cs {
						last, mid := s.fork(c, leForm(s.ls.len.sub(b).addc(-1)))
						for _, c := range last {
							for _, st := range s.e.sideCases(c.st, s.e.get(c.st, s.ls.arr), s.ls.off.add(from)) {
								s.peekIs(c, st, elem(st, from), strLen(s.O))
							}
						}
						for _, c := range mid {
							for _, st := range s.e.sideCases(c.st, s.e.get(c.st, s.ls.arr), s.ls.off.add(from)) {
								for _, st := range s.e.sideCases(st, s.e.get(st, s.ls.arr), s.ls.off.add(b.addc(1))) {
									s.peekIs(c, st, elem(st, from), elem(st, b.addc(1)).addc(-1))
								}
							}
						}
					}
				}
			}
		}
	}
}

func (s *stream) emptyPeek(o Outcome) {
	r, ok := o.ret.(StrV)
	s.chkS(o, ok && o.st.zone.ub(strLen(r)) <= 0, "outside", "PeekLines gives text although no such line exists")
}

func (s *stream) peekIs(o Outcome, st *State, lo, hi Lin) {
	o.st = st
	s.chkS(o, s.isSub(st, o.ret, s.O, s.O.lo.add(lo), s.O.lo.add(hi)), "lines", "PeekLines does not give exactly the lines asked for")
}

func init() {
	checks["C21"] = checkDef{rule: "the constructors record a line start exactly after each newline of the text, looking at all of it; PosToLine, PosToCol, Line, Col answer the line whose start is the last one at or before the position, and the distance to it; PeekLines gives the text from the start of the first line asked for to the end of the last, lines outside the text left out",
		f: func(p *Prog, rep *Report) {
			checkLines(p, rep)
			rep.floor("RuneStream.PosToLine.answer", 1)
			rep.floor("RuneStream.PeekLines.lines", 1)
			rep.floor("TokenStream.PosToCol.answer", 1)
			rep.floor("TokenStream.PeekLines.lines", 1)
		}}
}

// ---- C22

func checkTokens(p *Prog, rep *Report) {
	const typ = "TokenStream"
	sh, ok := streamShape(p, typ)
	if !ok || sh.toks == "" {
		rep.lost = append(rep.lost, "the fields of "+typ+" were not recognised")
		return
	}
	checkLineAnswers(p, rep, typ, sh)
	checkTexts(p, rep, typ, sh)
	checkWork(p, rep, typ, sh)
	checkExcerpts(p, rep, typ, sh)
	if sr, ok := streamShape(p, "RuneStream"); ok {
		checkTexts(p, rep, "RuneStream", sr)
		checkExcerpts(p, rep, "RuneStream", sr)
	}
}

// checkTexts: which of the two texts is meant
func checkTexts(p *Prog, rep *Report, typ string, sh streamFields) {
	for _, k := range []struct {
		name string
		want func(s *stream, o Outcome) bool
		what string
	}{
		{"Code", func(s *stream, o Outcome) bool { return s.e.same(o.st, o.ret, s.O) }, "the original text"},
		{"Length", func(s *stream, o Outcome) bool { return s.eqLin(o.st, s.e.lin(o.ret), strLen(s.O)) }, "the length of the original text"},
		{"workLength", func(s *stream, o Outcome) bool { return s.eqLin(o.st, s.e.lin(o.ret), s.N) }, "the length of the text that is matched"},
		{"Pos", func(s *stream, o Outcome) bool { return s.eqLin(o.st, s.e.lin(o.ret), s.pos) }, "the position in the text that is matched"},
	} {
		guard(rep, typ+"."+k.name, func() {
			s := newStream(p, rep, typ+"."+k.name, typ, sh, streamCase{atPos: true})
			n := 0
			for _, o := range s.noPanicS(s.run(p.method(typ, k.name), s.self)) {
				n++
				s.chkS(o, k.want(s, o), "which", "%s is not %s", k.name, k.what)
			}
			s.reached(n, 1)
			s.done()
		})
	}
}

// checkWork: the text matched is that of all the tokens in order.
func checkWork(p *Prog, rep *Report, typ string, sh streamFields) {
	guard(rep, "New"+typ, func() {
		v := newEnv(p, rep, "New"+typ)
		e := v.e
		e.OnElem = nil
		e.inlineText = true
		e.unroll = 3
		e.unmodelled = map[string]bool{"(*strings.Builder).Grow": true, "strings.Count": true}
		for _, n := range []string{"TrimSpace", "ToLower", "ToUpper", "ReplaceAll", "Replace", "Trim", "TrimLeft", "TrimRight", "TrimSuffix", "Title", "Index", "IndexByte"} {
			e.unmodelled["strings."+n] = true // any text
		}
		fn := p.fn("New" + typ)
		if fn == nil || len(fn.Params) != 2 {
			rep.lost = append(rep.lost, "New"+typ+" was not found")
			return
		}
		text := e.symVal(v.st, types.Typ[types.String], "text", "text").(StrV)
		toks := e.asSlice(v.st, e.symVal(v.st, fn.Params[1].Type(), "toks", "toks"), nil)
		e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
			tv, ok := x.(StructV)
			if !ok || o.id != toks.arr {
				return x
			}
			su := tv.typ.Underlying().(*types.Struct)
			f := make([]Val, len(tv.f))
			for i := range f {
				f[i] = e.symVal(st, su.Field(i).Type(), "", "token."+su.Field(i).Name())
			}
			return StructV{typ: tv.typ, f: f, name: tv.name}
		}
		v.st.ghost["k"] = IntV{linConst(0)}
		soft := func(st *State) bool { return st.joined || st.ghost["unmodelled"] != nil }
		check := func(st *State, ok bool, rule string, pos pos0, format string, a ...any) {
			if !ok && st.zone.infeasible() {
				return
			}
			if !ok && soft(st) {
				e.undecided("%s.%s: not proved", v.rule, rule)
				return
			}
			e.Check(st, ok, v.rule+"."+rule, pos, format, a...)
		}
		write := func(c *CallCtx) []Result {
			k := ghostLin(c.st, "k")
			if b, seen := c.st.ghost["builder"]; seen && !e.same(c.st, b, c.args[0]) {
				e.undecided("%s: texts are put together in several places", v.rule)
			}
			c.st.ghost["builder"] = c.args[0]
			if c.st.zone.ub(k.addc(1).sub(toks.len)) > 0 {
				check(c.st, false, "order", c.pos, "more is written than the tokens")
				return one(c.st, e.defaultCall(c)[0].ret)
			}
			t := e.elemGet(c.st, e.get(c.st, toks.arr), toks.off.add(k)).(StructV)
			want := v.structField(c.st, t, "Repr")
			check(c.st, e.same(c.st, c.args[1], want), "order", c.pos, "the text written is not that of the next token (%s)", e.show(c.st, c.args[1]))
			c.st.ghost["k"] = IntV{k.addc(1)}
			return e.defaultCall(c)
		}
		e.hooks["(*strings.Builder).WriteString"] = write
		for _, n := range []string{"WriteByte", "WriteRune", "Write", "Reset"} {
			e.hooks["(*strings.Builder)."+n] = func(c *CallCtx) []Result {
				check(c.st, false, "order", c.pos, "something else than a token is written")
				return e.defaultCall(c)
			}
		}
		e.hooks["(*strings.Builder).String"] = func(c *CallCtx) []Result {
			r := e.symStr(c.st, "", "built")
			c.st.ghost["built"] = r
			c.st.ghost["upto"] = c.st.ghost["k"]
			return one(c.st, r)
		}
		n := 0
		for _, o := range v.noPanic(v.run(fn, text, toks), true) {
			n++
			self, isP := derefIface(o.ret).(PtrV)
			if !isP {
				continue
			}
			st := o.st
			check(st, e.same(st, v.loadField(st, self, sh.orig), text), "original", o.pos, "the original text is not kept")
			kept := e.asSlice(st, v.loadField(st, self, sh.toks), nil)
			check(st, kept.arr == toks.arr && v.eqLin(st, kept.len, toks.len) && v.eqLin(st, kept.off, toks.off), "tokens", o.pos, "the tokens are not kept")
			built, ok := st.ghost["built"]
			if !ok {
				if st.zone.ub(toks.len) > 0 {
					e.undecided("%s: how the text of the tokens is put together is not understood", v.rule)
				}
				continue
			}
			check(st, e.same(st, v.loadField(st, self, sh.text), built), "work", o.pos, "the text matched is not the one put together")
			check(st, v.eqLin(st, ghostLin(st, "upto"), toks.len), "all", o.pos, "the text matched is not that of all the tokens")
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkExcerpts: Print and PrintDebug show the original text at the position.
func checkExcerpts(p *Prog, rep *Report, typ string, sh streamFields) {
	for _, name := range []string{"Print", "PrintDebug"} {
		fn := p.method(typ, name)
		if fn == nil {
			continue
		}
		for _, cs := range streamCases(sh.toks != "") {
			if !cs.atPos || !cs.lastLine {
				continue
			}
			guard(rep, typ+"."+name, func() {
				s := newStream(p, rep, typ+"."+name, typ, sh, cs)
				e := s.e
				s.lineOf()
				if name == "PrintDebug" {
					e.unroll, e.pairs = 0, false
				}
				e.unmodelled = nil
				n := 0
				check := func(st *State, ok bool, rule string, pos pos0, format string, a ...any) {
					if !ok && st.zone.infeasible() {
						return
					}
					e.Check(st, ok, s.rule+"."+rule, pos, format, a...)
				}
				ON := strLen(s.O)
				at := func(st *State, l Lin) bool {
					return s.eqLin(st, l, s.orig) || s.eqLin(st, l, ON) && st.zone.lb(s.orig.sub(ON)) >= 0
				}
				e.OnSub = func(e *Engine, st *State, t StrV, pos pos0) {
					z := st.zone
					if z.ub(strLen(t)) <= 0 {
						return
					}
					switch t.obj {
					case s.O.obj:
						if name == "Print" && at(st, t.hi.sub(s.O.lo)) {
							st.ghost["before"] = BoolV{fBool(true)}
						}
						if name == "Print" && at(st, t.lo.sub(s.O.lo)) {
							st.ghost["after"] = BoolV{fBool(true)}
						}
						whole := s.eqLin(st, t.lo, s.O.lo) && s.eqLin(st, t.hi, s.O.hi)
						n++
						check(st, whole || at(st, t.lo.sub(s.O.lo)) || at(st, t.hi.sub(s.O.lo)), "excerpt", pos, "an excerpt is not the text just before or after the position")
					case s.T.obj:
						whole := s.eqLin(st, t.lo, s.T.lo) && s.eqLin(st, t.hi, s.T.hi)
						n++
						check(st, whole, "excerpt", pos, "an excerpt is not taken from the original text")
					}
				}
				e.hooks["strconv.Itoa"] = func(c *CallCtx) []Result {
					l := e.lin(c.args[0])
					if s.isTok && l.equal(s.pos) {
						check(c.st, s.eqLin(c.st, l, s.orig), "offset", c.pos, "the offset shown is the one in the tokenized text")
					}
					if s.isTok && l.equal(s.N) {
						check(c.st, s.eqLin(c.st, l, ON), "offset", c.pos, "the length shown is the one of the tokenized text")
					}
					return nil
				}
				m := 0
				for _, o := range s.run(fn, s.self) {
					m++
					if n == 0 || name != "Print" {
						continue
					}
					// a position inside the original text
					in := o.st.clone()
					e.assume(in, leForm(s.orig.sub(ON)), true)
					for i, side := range []string{"before", "after"} {
						some := in.clone()
						e.assume(some, leForm([]Lin{linConst(1).sub(s.orig), s.orig.addc(1).sub(ON)}[i]), true)
						if in.dead || in.zone.bad || some.dead || some.zone.bad {
							continue
						}
						c := o
						c.st = some
						s.chkS(c, some.ghost[side] != nil, "shown", "the text %s the position is not shown", side)
					}
				}
				s.reached(m, 1)
				if n == 0 {
					e.undecided("%s: no excerpt was seen", s.rule)
				}
				s.done()
			})
		}
	}
}

func init() {
	checks["C22"] = checkDef{rule: "with position Q in the token K of any token table (lengths and offsets symbolic), every line, column, excerpt and offset given is the one at OriginalOffset[K]+Q-WorkOffset[K] of the original text; lengths, positions and texts are those of the right text; the text matched is the concatenation of all tokens in order",
		f: func(p *Prog, rep *Report) {
			checkTokens(p, rep)
			rep.floor("TokenStream.PosToCol.answer", 1)
			rep.floor("TokenStream.Length.which", 1)
			rep.floor("TokenStream.Print.excerpt", 1)
			rep.floor("NewTokenStream.work", 1)
		}}
}
