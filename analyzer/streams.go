package main

// Streams: C19 (matching), C20 (position), C21 (lines), C22 (token coordinates).

import (
	"go/types"
	"strings"
)

// stream is an abstract RuneStream or TokenStream satisfying the invariants
// its constructor is checked to establish.
type stream struct {
	*Env
	typ    string
	self   PtrV
	isTok  bool
	posF   string
	T      StrV // text that is matched
	O      StrV // text lines are counted in
	N      Lin  // len(T)
	pos    Lin  // current position
	ls     SliceV
	toks   SliceV
	Q      Lin // position asked for
	orig   Lin // place in O of position Q
	R, LSR Lin // line of orig, and where it starts
	K      Lin // token of Q
}

type streamFields struct{ pos, text, orig, ls, toks string }

// fields of a stream type, by type (and by what the constructor stores)
func streamShape(p *Prog, typ string) (f streamFields, ok bool) {
	t := p.typ(typ)
	if t == nil {
		return
	}
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return
	}
	var strs []string
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.String {
				strs = append(strs, n)
			} else if u.Kind() == types.Int {
				if f.pos != "" {
					return f, false
				}
				f.pos = n
			}
		case *types.Slice:
			if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Int {
				f.ls = n
			} else if typeStr(u.Elem()) == "Token" {
				f.toks = n
			}
		}
	}
	switch {
	case len(strs) == 1 && f.toks == "":
		f.text, f.orig = strs[0], strs[0]
	case len(strs) == 2 && f.toks != "":
		f.orig = ""
		// the original text is the one given to the constructor
		rep := newReport("")
		v := newEnv(p, rep, "shape")
		text := v.e.symVal(v.st, types.Typ[types.String], "arg", "arg")
		toks := v.e.symVal(v.st, types.NewSlice(p.typ("Token")), "toks", "toks")
		guard(rep, typ, func() {
			no := map[string]bool{}
			for _, o := range v.run(p.fn("New"+typ), text, toks) {
				if o.panic != "" {
					continue
				}
				for _, n := range strs {
					pv, isP := derefIface(o.ret).(PtrV)
					if !isP || !v.e.same(o.st, v.loadField(o.st, pv, n), text) {
						no[n] = true
					}
				}
			}
			for _, n := range strs {
				if !no[n] && len(no) == 1 {
					f.orig = n
				}
			}
		})
		for _, n := range strs {
			if n != f.orig {
				f.text = n
			}
		}
	}
	return f, f.pos != "" && f.text != "" && f.orig != "" && f.ls != ""
}

func derefIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.val
	}
	return v
}

type streamCase struct {
	noToks, lastTok, lastLine bool
	atPos                     bool // the position asked for is the current one
}

func (c streamCase) String() string {
	s := ""
	if c.noToks {
		s += " no-token"
	}
	if c.lastTok {
		s += " last-token"
	}
	if c.lastLine {
		s += " last-line"
	}
	return s
}

// newStream: position Q (the current one, or any) of a stream in any state.
func newStream(p *Prog, rep *Report, rule, typ string, sh streamFields, cs streamCase) *stream {
	v := newEnv(p, rep, rule)
	s := &stream{Env: v, typ: typ, posF: sh.pos, isTok: sh.toks != ""}
	e, st := v.e, v.st
	e.OnElem = nil
	e.inlineText = true
	e.pairs = true
	e.unroll = 2
	e.unmodelled = map[string]bool{"fmt.Sprintf": true, "strconv.Itoa": true, "fmt.Sprint": true, "fmt.Println": true}
	for _, n := range []string{"ToLower", "ToUpper", "ReplaceAll", "Replace", "Title", "ToTitle", "ToValidUTF8"} {
		e.unmodelled["strings."+n] = true // any text
	}
	s.self = v.selfPtr(typ)
	v.self = nil
	z := st.zw()
	str := func(f string) StrV { return v.loadField(st, s.self, f).(StrV) }
	s.T, s.O = str(sh.text), str(sh.orig)
	s.N = strLen(s.T)
	s.pos = e.lin(v.loadField(st, s.self, sh.pos))
	z.addLE(s.pos.neg())
	z.addLE(s.pos.sub(s.N))
	s.ls = e.asSlice(st, v.loadField(st, s.self, sh.ls), nil)
	z.addLE(s.ls.len.neg().addc(1))
	s.Q = s.pos
	if !cs.atPos {
		s.Q = linSym(e.symByName("Q"))
		z.addLE(s.Q.neg())
		z.addLE(s.Q.sub(s.N))
	}
	e.skolems = map[ObjID][]Lin{}
	e.ordered = map[ObjID]bool{}
	s.orig = s.Q
	ON := strLen(s.O)
	var work, rlen Lin
	if s.isTok {
		s.toks = e.asSlice(st, v.loadField(st, s.self, sh.toks), nil)
		if cs.noToks {
			z.addEQ(s.toks.len)
			z.addEQ(s.N)
			s.orig = linConst(0)
		} else {
			s.K = linSym(e.symByName("K"))
			z.addLE(s.K.neg())
			z.addLE(s.K.addc(1).sub(s.toks.len))
			if cs.lastTok {
				z.addEQ(s.K.addc(1).sub(s.toks.len))
			} else {
				z.addLE(s.K.addc(2).sub(s.toks.len))
			}
		}
	}
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
		z := st.zw()
		switch o.id {
		case s.ls.arr:
			l := e.lin(x)
			z.addLE(l.neg())
			z.addLE(l.sub(ON))
			if st.zone.isZero(idx) {
				z.addEQ(l)
			} else if st.zone.lb(idx) > 0 {
				z.addLE(idx.sub(l))
			}
			if len(s.LSR.t) > 0 || s.LSR.c != 0 {
				if st.zone.ub(idx.sub(s.R)) < 0 {
					z.addLE(l.add(s.R).sub(idx).sub(s.LSR))
					z.addLE(l.addc(1).sub(s.LSR))
				} else if st.zone.lb(idx.sub(s.R)) > 0 {
					z.addLE(s.LSR.add(idx).sub(s.R).sub(l))
					z.addLE(s.LSR.addc(1).sub(l))
					z.addLE(s.orig.addc(1).sub(l))
				}
			}
			for _, y := range o.elems {
				u := e.lin(y.v)
				if d := y.idx.sub(idx); st.zone.ub(d) < 0 {
					z.addLE(u.add(idx).sub(y.idx).sub(l))
					z.addLE(u.addc(1).sub(l))
				} else if st.zone.lb(d) > 0 {
					z.addLE(l.add(y.idx).sub(idx).sub(u))
					z.addLE(l.addc(1).sub(u))
				}
			}
		case s.toks.arr:
			if !s.isTok {
				return x
			}
			tv := x.(StructV)
			f := make([]Val, len(tv.f))
			su := tv.typ.Underlying().(*types.Struct)
			var w, n Lin
			for i := range f {
				nm := ""
				if tv.name != "" {
					nm = tv.name + "." + su.Field(i).Name()
				}
				f[i] = e.symVal(st, su.Field(i).Type(), nm, "token")
				switch su.Field(i).Name() {
				case "Repr":
					n = strLen(f[i].(StrV))
				case "OriginalOffset":
					l := e.lin(f[i])
					z.addLE(l.neg())
					z.addLE(l.sub(ON))
				case "WorkOffset":
					w = e.lin(f[i])
					z.addLE(w.neg())
				}
			}
			z.addLE(w.add(n).sub(s.N))
			if st.zone.isZero(idx) {
				z.addEQ(w)
			}
			if st.zone.isZero(idx.addc(1).sub(s.toks.len)) {
				z.addEQ(w.add(n).sub(s.N))
			}
			if len(work.t) > 0 {
				if st.zone.ub(idx.sub(s.K)) < 0 {
					z.addLE(w.add(n).sub(work))
				} else if st.zone.lb(idx.sub(s.K)) > 0 {
					z.addLE(work.add(rlen).sub(w))
					z.addLE(s.Q.addc(1).sub(w))
				}
			}
			return StructV{typ: tv.typ, f: f, name: tv.name}
		}
		return x
	}
	if s.isTok && !cs.noToks {
		e.skolems[s.toks.arr] = []Lin{s.K}
		e.ordered[s.toks.arr] = true
		k := e.elemGet(st, e.get(st, s.toks.arr), s.K).(StructV)
		work, rlen = e.lin(s.field(k, "WorkOffset")), strLen(s.field(k, "Repr").(StrV))
		z := st.zw()
		z.addLE(work.sub(s.Q))
		if !cs.lastTok {
			z.addLE(s.Q.addc(1).sub(work).sub(rlen))
		}
		s.orig = e.lin(s.field(k, "OriginalOffset")).add(s.Q).sub(work)
	}
	s.R = linSym(e.symByName("R"))
	z = st.zw()
	z.addLE(s.R.neg())
	if cs.lastLine {
		z.addEQ(s.R.addc(1).sub(s.ls.len))
	} else {
		z.addLE(s.R.addc(2).sub(s.ls.len))
	}
	e.skolems[s.ls.arr] = []Lin{s.R}
	e.ordered[s.ls.arr] = true
	l := e.lin(e.elemGet(st, e.get(st, s.ls.arr), s.R))
	s.LSR = l
	z = st.zw()
	z.addLE(l.sub(s.orig))
	return s
}

func (s *stream) field(v StructV, name string) Val {
	su := v.typ.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return v.f[i]
		}
	}
	panic(engineErr("no field " + name))
}

// chkS is chkO, undecided when the path depends on functions not modelled
func (s *stream) chkS(o Outcome, ok bool, rule, format string, a ...any) bool {
	if !ok && o.st.zone.infeasible() {
		return true
	}
	if u, isU := o.st.ghost["unmodelled"]; !ok && isU {
		s.e.undecided("%s.%s: depends on %s", s.rule, rule, u.(StrV).s)
		return false
	}
	if !ok && o.st.joined {
		s.e.undecided("%s.%s: not proved after a loop", s.rule, rule)
		return false
	}
	return s.chkO(o, ok, rule, format, a...)
}

// noPanicS is noPanic; panics that depend on values merged in loops are undecided
func (s *stream) noPanicS(outs []Outcome) []Outcome {
	var r []Outcome
	for _, o := range outs {
		if o.panic != "" && (o.st.joined || o.st.ghost["unmodelled"] != nil) {
			s.e.undecided("%s: %s not excluded after a loop", s.rule, o.panic)
			continue
		}
		r = append(r, o)
	}
	return s.noPanic(r, true)
}

// lineOf: PosToLine (decided on its own) answers the line
func (s *stream) lineOf() {
	h := s.e.p.method(s.typ, "PosToLine")
	s.e.hooks[short(h)] = func(c *CallCtx) []Result {
		if !s.eqLin(c.st, s.e.lin(c.args[1]), s.Q) {
			return nil
		}
		return one(c.st, IntV{s.R})
	}
}

func (s *stream) end(st *State) Lin { return s.e.lin(s.loadField(st, s.self, s.posF)) }

func (s *stream) inRange(o Outcome, what string) {
	p := s.end(o.st)
	s.chkS(o, o.st.zone.lb(p) >= 0 && o.st.zone.ub(p.sub(s.N)) <= 0, "range", "%s leaves the position out of [0, length]", what)
}
func (s *stream) still(o Outcome, what string) {
	s.chkS(o, s.eqLin(o.st, s.end(o.st), s.pos), "still", "%s moves the position", what)
}

// onlyPos: nothing of the stream but its position is written
func (s *stream) onlyPos() {
	s.e.OnStore = func(e *Engine, st *State, pv PtrV, y Val, pos pos0) {
		o := e.get(st, pv.obj)
		if o.fresh {
			return
		}
		if pv.obj == s.self.obj && len(pv.path) == 1 {
			su := o.typ.Underlying().(*types.Struct)
			if su.Field(pv.path[0]).Name() == s.posF {
				return
			}
		}
		e.Check(st, false, s.rule+".writes", pos, "changes %s of the stream", e.show(st, pv))
	}
}

// split on a boolean
func (s *stream) splitBool(o Outcome, b Val) (r []struct {
	o   Outcome
	yes bool
}) {
	f := s.e.form(o.st, b)
	for _, val := range []bool{true, false} {
		c := o
		c.st = o.st.clone()
		s.e.assume(c.st, f, val)
		if !c.st.dead {
			r = append(r, struct {
				o   Outcome
				yes bool
			}{c, val})
		}
	}
	return
}

// prefixAt: whether needle lies in T at position at
func (s *stream) prefixAt(st *State, at Lin, needle StrV) tri {
	z := st.zone
	stop := at.add(strLen(needle))
	if z.lb(stop.sub(s.N)) > 0 {
		return no
	}
	if z.ub(strLen(needle)) <= 0 {
		return yes
	}
	nk := s.e.valKey(needle)
	look := func(st *State) tri {
		var r tri = unk
		for _, k := range sortedKeys(st.preds) {
			pf := st.preds[k]
			switch pf.p.name {
			case "streq":
				a, b := pf.p.args[0].(StrV), pf.p.args[1].(StrV)
				if s.e.valKey(a) == nk {
					a, b = b, a
				}
				if s.e.valKey(b) != nk || a.obj != s.T.obj || !s.eqLin(st, a.lo, at) {
					continue
				}
				if pf.val {
					return yes
				}
				if s.eqLin(st, a.hi, stop) {
					r = no
				}
			case "hasprefix":
				a, b := pf.p.args[0].(StrV), pf.p.args[1].(StrV)
				if s.e.valKey(b) != nk || a.obj != s.T.obj || !s.eqLin(st, a.lo, at) {
					continue
				}
				if pf.val {
					return yes
				}
				if st.zone.lb(a.hi.sub(stop)) >= 0 {
					r = no
				}
			}
		}
		return r
	}
	if r := look(st); r != unk {
		return r
	}
	c := st.clone()
	s.e.assume(c, foldLE(stop.sub(s.N)), true)
	if c.dead {
		return no
	}
	if look(c) == no {
		return no
	}
	return unk
}

// isSub: v is T[lo:hi)
func (s *stream) isSub(st *State, v Val, t StrV, lo, hi Lin) bool {
	x, ok := v.(StrV)
	if !ok {
		return false
	}
	if x.obj == t.obj && s.eqLin(st, x.lo, lo) && s.eqLin(st, x.hi, hi) {
		return true
	}
	return st.zone.ub(strLen(x)) <= 0 && st.zone.ub(hi.sub(lo)) <= 0
}

func (s *stream) cases() []streamCase { return streamCases(s.isTok) }

func streamCases(tok bool) []streamCase {
	var r []streamCase
	for _, atPos := range []bool{true, false} {
		for _, ll := range []bool{true, false} {
			if !tok {
				r = append(r, streamCase{lastLine: ll, atPos: atPos})
				continue
			}
			r = append(r, streamCase{noToks: true, lastLine: ll, atPos: atPos}, streamCase{lastTok: true, lastLine: ll, atPos: atPos}, streamCase{lastLine: ll, atPos: atPos})
		}
	}
	return r
}

var streamTypes = []string{"RuneStream", "TokenStream"}

// eachStream runs f on both kinds of stream.
func eachStream(p *Prog, rep *Report, f func(typ string, sh streamFields)) {
	for _, typ := range streamTypes {
		sh, ok := streamShape(p, typ)
		if !ok {
			rep.lost = append(rep.lost, "the fields of "+typ+" were not recognised")
			continue
		}
		f(typ, sh)
	}
}

// ---- C19

func checkMatching(p *Prog, rep *Report) {
	eachStream(p, rep, func(typ string, sh streamFields) {
		cs := streamCase{atPos: true, lastTok: true, lastLine: true}
		at := func(name string, f func(s *stream)) {
			guard(rep, typ+"."+name, func() {
				s := newStream(p, rep, typ+"."+name, typ, sh, cs)
				s.onlyPos()
				f(s)
				s.done()
			})
		}
		at("MatchString", func(s *stream) {
			e := s.e
			needle := e.symVal(s.st, types.Typ[types.String], "needle", "needle").(StrV)
			n := 0
			for _, o := range s.noPanic(s.run(p.method(typ, "MatchString"), s.self, needle), true) {
				t := o.ret.(TupleV)
				for _, c := range s.splitBool(o, t.v[0]) {
					o := c.o
					n++
					hit := s.prefixAt(o.st, s.pos, needle)
					stop := s.pos.add(strLen(needle))
					if c.yes {
						s.chkS(o, hit == yes, "match", "reports a match of a text that is not known to be at the position")
						s.chkS(o, s.eqLin(o.st, s.end(o.st), stop), "advance", "a match does not leave the position just after the text matched")
						s.chkS(o, e.same(o.st, t.v[1], needle) || s.isSub(o.st, t.v[1], s.T, s.pos, stop), "text", "the text returned is not the one matched")
					} else {
						s.chkS(o, hit == no, "miss", "reports no match where the text could be at the position")
						s.still(o, "a mismatch")
					}
				}
			}
			s.reached(n, 2)
		})
		at("MatchRegexp", func(s *stream) {
			e := s.e
			fn := p.method(typ, "MatchRegexp")
			re := e.symVal(s.st, fn.Params[1].Type(), "re", "re")
			n := 0
			for _, o := range s.noPanic(s.run(fn, s.self, re), true) {
				t := o.ret.(TupleV)
				for _, c := range s.splitBool(o, t.v[0]) {
					o := c.o
					n++
					g := o.st.ghost
					txt, asked := g["re.text"].(StrV)
					if !asked {
						if g["unmodelled"] == nil {
							s.chkS(o, !c.yes && o.st.zone.lb(s.pos.sub(s.N)) >= 0 && false, "asked", "answers without asking the regular expression")
						} else {
							s.e.undecided("%s: the regular expression is asked through %s", s.rule, g["unmodelled"].(StrV).s)
						}
						continue
					}
					if !s.chkS(o, s.isSub(o.st, txt, s.T, s.pos, s.N) && txt.obj == s.T.obj, "where", "the regular expression is not run on the rest of the text") {
						continue
					}
					rv := g["re.re"]
					if pv, ok := rv.(PtrV); ok {
						rv = e.load(o.st, pv)
					}
					if sv, ok := rv.(StructV); ok {
						s.chkS(o, sv.name == "re", "which", "another regular expression is run")
					}
					hit, _ := g["re.hit"].(BoolV)
					from, to := g["re.from"].(IntV).l, g["re.to"].(IntV).l
					if c.yes {
						if !s.chkS(o, hit.f.b && s.eqLin(o.st, from, linConst(0)), "match", "reports a match that does not start at the position") {
							continue
						}
						s.chkS(o, s.eqLin(o.st, s.end(o.st), s.pos.add(to)), "advance", "a match does not leave the position just after the text matched")
						s.chkS(o, s.isSub(o.st, t.v[1], s.T, s.pos, s.pos.add(to)), "text", "the text returned is not the one matched")
					} else {
						s.chkS(o, !hit.f.b || o.st.zone.lb(from) > 0 || o.st.zone.isNE(from), "miss", "reports no match where the expression matches at the position")
						s.still(o, "a mismatch")
					}
				}
			}
			s.reached(n, 2)
		})
		at("MatchRune", func(s *stream) {
			e := s.e
			fn := p.method(typ, "MatchRune")
			fv := e.symVal(s.st, fn.Params[1].Type(), "pred", "pred").(RefV)
			s.st.nilF[fv.obj] = false
			e.OnNextRune = func(e *Engine, st *State, sv StrV, pos Lin, r Val) {
				if sv.obj == s.T.obj && s.eqLin(st, sv.lo, s.pos) {
					st.ghost["rune"], st.ghost["rune.w"] = r, IntV{sv.hi.sub(sv.lo)}
				}
			}
			e.dynHook = func(c *CallCtx) []Result {
				if c.recv.(RefV).obj != fv.obj {
					return nil
				}
				r, ok := c.st.ghost["rune"]
				if c.st.ghost["unmodelled"] == nil {
					s.chk(c.st, ok && e.same(c.st, r, c.args[0]), "asked", c, "the test is not given the rune at the position (%s)", e.show(c.st, c.args[0]))
				}
				miss := c.st.clone()
				miss.ghost["fits"] = BoolV{fBool(false)}
				c.st.ghost["fits"] = BoolV{fBool(true)}
				return []Result{{st: miss, ret: BoolV{fBool(false)}}, {st: c.st, ret: BoolV{fBool(true)}}}
			}
			n := 0
			for _, o := range s.noPanic(s.run(fn, s.self, fv), true) {
				t := o.ret.(TupleV)
				for _, c := range s.splitBool(o, t.v[0]) {
					o := c.o
					n++
					fits, asked := o.st.ghost["fits"].(BoolV)
					if c.yes {
						if !s.chkS(o, asked && fits.f.b, "match", "reports a match of a rune the test was not asked about or refused") {
							continue
						}
						s.chkS(o, s.eqLin(o.st, s.end(o.st), s.pos.add(e.lin(o.st.ghost["rune.w"]))), "advance", "a match does not leave the position just after the rune")
						s.chkS(o, e.same(o.st, t.v[1], o.st.ghost["rune"]), "rune", "the rune returned is not the one matched")
					} else {
						s.chkS(o, asked && !fits.f.b || o.st.zone.lb(s.pos.sub(s.N)) >= 0, "miss", "reports no match of a rune the test accepts, or without asking it")
						s.still(o, "a mismatch")
					}
				}
			}
			s.reached(n, 3)
		})
		at("GetUntil", func(s *stream) {
			needle := s.e.symVal(s.st, types.Typ[types.String], "needle", "needle")
			n := 0
			s.e.hooks["strings.Index"] = func(c *CallCtx) []Result {
				rs := stdModels["strings.Index"](c)
				x, ok := c.args[0].(StrV)
				for _, r := range rs {
					if ok && s.isSub(r.st, x, s.T, s.pos, s.N) && s.e.same(r.st, c.args[1], needle) {
						r.st.ghost["until"] = r.ret
					}
				}
				return rs
			}
			s.e.hooks["strings.LastIndex"] = func(c *CallCtx) []Result {
				rs := stdModels["strings.LastIndex"](c)
				for _, r := range rs {
					if s.e.same(r.st, c.args[1], needle) {
						r.st.ghost["last"] = r.ret
					}
				}
				return rs
			}
			for _, o := range s.noPanic(s.run(p.method(typ, "GetUntil"), s.self, needle), true) {
				n++
				end := s.end(o.st)
				if i, ok := o.st.ghost["last"]; ok && s.eqLin(o.st, end, s.pos.add(s.e.lin(i)).add(strLen(needle.(StrV)))) {
					s.chkS(o, false, "until", "GetUntil moves to the last place where the end is found, not to the first")
				} else if i, ok := o.st.ghost["until"]; !ok {
					s.e.undecided("%s.until: where the end is was not found by strings.Index or strings.Cut on the text from the position", s.rule)
				} else if at := s.e.lin(i); o.st.zone.lb(at) >= 0 {
					s.chkS(o, s.eqLin(o.st, end, s.pos.add(at).add(strLen(needle.(StrV)))), "until", "GetUntil does not move to just after the first place where the end is found")
				} else {
					s.chkS(o, s.eqLin(o.st, end, s.N) || s.eqLin(o.st, end, s.pos), "until", "GetUntil of an end which is not found moves elsewhere than to the end of the text")
				}
				s.inRange(o, "GetUntil")
				s.chkS(o, o.st.zone.lb(end.sub(s.pos)) >= 0, "forward", "GetUntil moves backwards")
				s.chkS(o, s.isSub(o.st, o.ret, s.T, s.pos, end), "text", "GetUntil does not return the text it moved over")
			}
			s.reached(n, 2)
		})
	})
	checkTerminals(p, rep)
}

// checkTerminals: the parsers of literals and regular expressions.
func checkTerminals(p *Prog, rep *Report) {
	for _, k := range []struct{ typ, match, field string }{{"str", "MatchString", "Str"}, {"regex", "MatchRegexp", "re"}} {
		guard(rep, k.typ, func() {
			v := newEnv(p, rep, k.typ+".parse")
			e := v.e
			fn := p.ownMethod(k.typ, "parse")
			if fn == nil {
				rep.lost = append(rep.lost, k.typ+".parse was not found")
				return
			}
			var self Val
			t := p.typ(k.typ)
			st, isS := t.Underlying().(*types.Struct)
			if !isS {
				return
			}
			fieldOf := func(name string) (types.Type, bool) {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == name {
						return st.Field(i).Type(), true
					}
				}
				return nil, false
			}
			field := k.field
			if _, ok := fieldOf(field); !ok { // renamed: the only field of the kind
				field = ""
				for i := 0; i < st.NumFields(); i++ {
					ts := st.Field(i).Type().String()
					if k.typ == "str" && ts == "string" || k.typ == "regex" && strings.HasSuffix(ts, "regexp.Regexp") {
						field = st.Field(i).Name()
					}
				}
			}
			if field == "" {
				rep.lost = append(rep.lost, "no text in "+k.typ)
				return
			}
			var want Val
			if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); isP {
				sp := v.selfPtr(k.typ)
				self = sp
				want = v.loadField(v.st, sp, field)
			} else {
				self = e.symVal(v.st, t, "self", "self")
				v.self = IfaceV{t, self}
				want = v.structField(v.st, self, field)
				self = v.withField(v.st, self.(StructV), field, want)
				v.self = nil
			}
			e.ifHooks["CodeStream."+k.match] = func(c *CallCtx) []Result {
				st := c.st
				ok := e.same(st, c.args[0], want)
				if sv, isV := c.args[0].(StructV); isV {
					w, isW := want.(StructV)
					ok = isW && sv.name == w.name
				}
				v.chk(st, ok, "what", c, "something else than the text of the element is matched (%s)", e.show(st, c.args[0]))
				v.chk(st, st.ghost["tried"] == nil, "once", c, "matched twice")
				v.chk(st, v.posEq(st, ghostLin(st, "P0")), "where", c, "matched elsewhere than at the position")
				st.ghost["tried"] = BoolV{fBool(true)}
				miss := st.clone()
				miss.ghost["m"] = NilV{}
				junk := e.symStr(miss, "", "junk")
				m := e.symStr(st, "", "matched")
				st.ghost["m"] = m
				to := v.advance(st)
				st.ghost["to"] = IntV{to}
				return []Result{{st: miss, ret: TupleV{[]Val{BoolV{fBool(false)}, junk}}}, {st: st, ret: TupleV{[]Val{BoolV{fBool(true)}, m}}}}
			}
			n := 0
			for _, o := range v.noPanic(v.run(fn, self, v.ctx), true) {
				n++
				m := o.st.ghost["m"]
				if !v.chkO(o, m != nil, "tried", "answers without matching") {
					continue
				}
				if isNil(m) {
					v.chkO(o, v.verdict(o) == yes, "miss", "succeeds although the text did not match")
					v.chkO(o, v.posEq(o.st, ghostLin(o.st, "P0")), "still", "a failure moves the position")
					continue
				}
				r, ok := o.ret.(IfaceV)
				v.chkO(o, ok && types.Identical(r.typ, p.typ("NativeString")) && e.same(o.st, r.val, m), "text", "the result is not the text matched (%s)", e.show(o.st, o.ret))
				v.chkO(o, v.posEq(o.st, ghostLin(o.st, "to")), "end", "does not stop where the match ends")
			}
			v.reached(n, 2)
			v.done()
		})
	}
}

func (v *Env) withField(st *State, s StructV, name string, x Val) Val {
	n := s
	n.f = append([]Val(nil), s.f...)
	su := s.typ.Underlying().(*types.Struct)
	for i := range n.f {
		if su.Field(i).Name() == name {
			n.f[i] = x
		}
	}
	return n
}

// ---- C20

func checkPositions(p *Prog, rep *Report) {
	moves := map[string]bool{"SetPos": true, "GetUntil": true, "MatchString": true, "MatchRegexp": true, "MatchRune": true}
	eachStream(p, rep, func(typ string, sh streamFields) {
		guard(rep, typ+".SetPos", func() {
			s := newStream(p, rep, typ+".SetPos", typ, sh, streamCase{atPos: true, lastTok: true, lastLine: true})
			s.onlyPos()
			n := s.e.symVal(s.st, types.Typ[types.Int], "n", "n")
			l := s.e.lin(n)
			seen := 0
			for _, o := range s.run(p.method(typ, "SetPos"), s.self, n) {
				if o.panic == "" {
					seen++
					s.chkS(o, s.eqLin(o.st, s.end(o.st), l), "sets", "SetPos does not set the position it is given")
					s.inRange(o, "SetPos")
					continue
				}
				s.chkS(o, !isRuntimePanic(o.panic) && (o.st.zone.ub(l) < 0 || o.st.zone.lb(l.sub(s.N)) > 0), "refuses", "SetPos refuses a position inside the text (%s)", o.panic)
			}
			s.reached(seen, 1)
			s.done()
		})
		mset := p.prog.MethodSets.MethodSet(types.NewPointer(p.typ(typ)))
		for i := 0; i < mset.Len(); i++ {
			name := mset.At(i).Obj().Name()
			if !mset.At(i).Obj().Exported() && name != "workLength" || name == "SetPos" {
				continue
			}
			fn := p.method(typ, name)
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			for _, cs := range streamCases(sh.toks != "") {
				if !cs.atPos && !strings.HasPrefix(name, "PosTo") {
					continue
				}
				if moves[name] && (cs.noToks || !cs.lastLine) {
					continue
				}
				counts := []int{-1}
				if fn.Signature.Variadic() {
					counts = []int{-1, 0, 1, 2}
				}
				for _, count := range counts {
					guard(rep, typ+"."+name, func() {
						s := newStream(p, rep, typ+"."+name, typ, sh, cs)
						s.onlyPos()
						if strings.HasPrefix(name, "Print") {
							s.e.unroll, s.e.pairs = 0, false
							s.anySlice()
						}
						if name != "PosToLine" {
							s.lineOf()
						}
						args := []Val{s.self}
						for _, prm := range fn.Params[1:] {
							var a Val
							if strings.HasPrefix(name, "PosTo") {
								a = IntV{s.Q}
							} else {
								a = s.e.symVal(s.st, prm.Type(), prm.Name(), prm.Name())
							}
							if id := objOf(a); id != 0 {
								if _, isF := prm.Type().Underlying().(*types.Signature); isF {
									s.st.nilF[id] = false
								}
							}
							if sl, isS := prm.Type().Underlying().(*types.Slice); isS && count >= 0 {
								s.fixedLen(s.e.asSlice(s.st, a, sl), count)
							}
							args = append(args, a)
						}
						n := 0
						for _, o := range s.noPanicS(s.run(fn, args...)) {
							n++
							if moves[name] {
								s.inRange(o, name)
							} else {
								s.still(o, name)
							}
						}
						s.reached(n, 1)
						s.done()
					})
				}
			}
		}
	})
	checkSlicing(p, rep)
	checkStreamStart(p, rep)
}

// fixedLen: a slice of exactly n elements, its loops followed one by one
func (s *stream) fixedLen(v SliceV, n int) {
	s.st.zw().addEQ(v.len.addc(-int64(n)))
	if s.e.unroll < n+2 {
		s.e.unroll = n + 2
	}
	s.e.noMerge = true
}

// anySlice: SliceString (decided on its own) gives some part of its text
func (s *stream) anySlice() {
	s.e.hooks["helpers.SliceString"] = func(c *CallCtx) []Result {
		x, ok := c.args[0].(StrV)
		if !ok {
			return nil
		}
		lo, hi := linSym(s.e.freshSym("from")), linSym(s.e.freshSym("to"))
		z := c.st.zw()
		z.addLE(x.lo.sub(lo))
		z.addLE(lo.sub(hi))
		z.addLE(hi.sub(x.hi))
		r := x
		r.lo, r.hi = lo, hi
		return one(c.st, r)
	}
}

// checkSlicing: SliceString never panics and gives a part of its text.
func checkSlicing(p *Prog, rep *Report) {
	fn := p.helperFn("SliceString")
	if fn == nil {
		return // not there: inlined where it was used
	}
	guard(rep, "SliceString", func() {
		v := newEnv(p, rep, "SliceString")
		v.e.OnElem = nil
		v.e.inlineText = true
		text := v.e.symVal(v.st, types.Typ[types.String], "text", "text").(StrV)
		a := v.e.symVal(v.st, types.Typ[types.Int], "from", "from")
		b := v.e.symVal(v.st, types.Typ[types.Int], "to", "to")
		n := 0
		for _, o := range v.noPanic(v.run(fn, text, a, b), true) {
			n++
			r, ok := o.ret.(StrV)
			z := o.st.zone
			v.chkO(o, ok && (z.ub(strLen(r)) <= 0 || r.obj == text.obj && z.lb(r.lo.sub(text.lo)) >= 0 && z.lb(text.hi.sub(r.hi)) >= 0), "part", "the result is not a part of the text")
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkStreamStart: a stream starts at 0, with the text it is given.
func checkStreamStart(p *Prog, rep *Report) {
	for _, typ := range streamTypes {
		sh, ok := streamShape(p, typ)
		if !ok {
			continue
		}
		guard(rep, "New"+typ, func() {
			v := newEnv(p, rep, "New"+typ)
			v.e.OnElem = nil
			v.e.inlineText = true
			text := v.e.symVal(v.st, types.Typ[types.String], "text", "text")
			args := []Val{text}
			fn := p.fn("New" + typ)
			if fn != nil && len(fn.Params) == 2 {
				args = append(args, v.e.symVal(v.st, fn.Params[1].Type(), "toks", "toks"))
			}
			n := 0
			for _, o := range v.noPanic(v.run(fn, args...), true) {
				n++
				self, isP := derefIface(o.ret).(PtrV)
				if !v.chkO(o, isP, "stream", "no stream is returned") {
					continue
				}
				l := v.e.lin(v.loadField(o.st, self, sh.pos))
				v.chkO(o, v.eqLin(o.st, l, linConst(0)), "zero", "a stream does not start at position 0")
				v.chkO(o, v.e.same(o.st, v.loadField(o.st, self, sh.orig), text), "text", "the text of the stream is not the one it is given")
			}
			v.reached(n, 1)
			v.done()
		})
	}
}

func init() {
	checks["C19"] = checkDef{rule: "on every path of MatchString/MatchRegexp/MatchRune/GetUntil of both streams: a match is of the text exactly at the position, is returned whole and the position ends just after it; no match leaves the position; the literal and regex parsers yield exactly what matched; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkMatching(p, rep)
			checkFrozen(p, rep, "str", "regex")
			rep.floor("RuneStream.MatchString.match", 1)
			rep.floor("TokenStream.MatchString.match", 1)
		}}
	checks["C20"] = checkDef{rule: "on every path of every exported method of both streams, in any state the constructors allow: no panic, no write but to the position, and to it only by SetPos/GetUntil/Match*; positions stay within [0,len]; SetPos sets exactly what it is given and refuses exactly what is out of range",
		f: func(p *Prog, rep *Report) {
			checkPositions(p, rep)
			rep.floor("RuneStream.SetPos.sets", 1)
			rep.floor("TokenStream.SetPos.sets", 1)
		}}
}
