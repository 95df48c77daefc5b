package main

// Summaries of the standard library functions the repository calls.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func stdModel(fn *ssa.Function) Hook { return stdModels[fn.String()] }

var stdModels map[string]Hook

func init() {
	stdModels = map[string]Hook{
		"strings.Index": func(c *CallCtx) []Result {
			s, sub := c.args[0].(StrV), c.args[1].(StrV)
			hp := c.e.prefixForm(c.st, s, sub)
			miss, at0 := c.st.clone(), c.st.clone()
			c.e.assume(miss, hp, false)
			c.e.assume(at0, hp, true)
			c.e.assume(c.st, hp, false)
			i := linSym(c.e.freshSym("index"))
			z := c.st.zw()
			z.addLE(i.neg().addc(1))
			z.addLE(i.add(strLen(sub)).sub(strLen(s)))
			return living([]Result{{st: miss, ret: IntV{linConst(-1)}}, {st: at0, ret: IntV{linConst(0)}}, {st: c.st, ret: IntV{i}}})
		},
		"strings.Cut": func(c *CallCtx) []Result {
			s, sub := c.args[0].(StrV), c.args[1].(StrV)
			index := c.e.hooks["strings.Index"]
			if index == nil {
				index = stdModels["strings.Index"]
			}
			rs := index(c)
			for i, r := range rs {
				at := c.e.lin(r.ret)
				if r.st.zone.ub(at) < 0 {
					rs[i].ret = TupleV{[]Val{s, StrV{s: ""}, BoolV{fBool(false)}}}
				} else {
					rs[i].ret = TupleV{[]Val{c.e.substr(r.st, s, linConst(0), at), c.e.substr(r.st, s, at.add(strLen(sub)), strLen(s)), BoolV{fBool(true)}}}
				}
			}
			return rs
		},
		"strings.HasPrefix": func(c *CallCtx) []Result {
			if a, b, ok := constStrs(c); ok {
				return one(c.st, BoolV{fBool(strings.HasPrefix(a, b))})
			}
			return one(c.st, BoolV{c.e.prefixForm(c.st, c.args[0].(StrV), c.args[1].(StrV))})
		},
		"strings.HasSuffix": func(c *CallCtx) []Result {
			if a, b, ok := constStrs(c); ok {
				return one(c.st, BoolV{fBool(strings.HasSuffix(a, b))})
			}
			return one(c.st, BoolV{&Form{op: fPred, pred: &Pred{"hassuffix", []Val{c.args[0], c.args[1]}}}})
		},
		"strings.EqualFold": func(c *CallCtx) []Result {
			return one(c.st, BoolV{&Form{op: fPred, pred: &Pred{"equalfold", []Val{c.args[0], c.args[1]}}}})
		},
		"strings.CutPrefix": func(c *CallCtx) []Result {
			s, sub := c.args[0].(StrV), c.args[1].(StrV)
			hp := c.e.prefixForm(c.st, s, sub)
			no := c.st.clone()
			c.e.assume(no, hp, false)
			c.e.assume(c.st, hp, true)
			return living([]Result{{st: no, ret: TupleV{[]Val{s, BoolV{fBool(false)}}}}, {st: c.st, ret: TupleV{[]Val{c.e.substr(c.st, s, strLen(sub), strLen(s)), BoolV{fBool(true)}}}}})
		},
		"strings.TrimPrefix": func(c *CallCtx) []Result {
			s, sub := c.args[0].(StrV), c.args[1].(StrV)
			hp := c.e.prefixForm(c.st, s, sub)
			no := c.st.clone()
			c.e.assume(no, hp, false)
			c.e.assume(c.st, hp, true)
			return living([]Result{{st: no, ret: s}, {st: c.st, ret: c.e.substr(c.st, s, strLen(sub), strLen(s))}})
		},
		"strings.TrimSuffix": func(c *CallCtx) []Result {
			if a, b, ok := constStrs(c); ok {
				return one(c.st, StrV{s: strings.TrimSuffix(a, b)})
			}
			s, suf := c.args[0].(StrV), c.args[1].(StrV)
			hs := &Form{op: fPred, pred: &Pred{"hassuffix", []Val{s, suf}}}
			no := c.st.clone()
			c.e.assume(no, hs, false)
			c.e.assume(c.st, hs, true)
			c.st.zw().addLE(strLen(suf).sub(strLen(s)))
			return living([]Result{{st: no, ret: s}, {st: c.st, ret: c.e.substr(c.st, s, linConst(0), strLen(s).sub(strLen(suf)))}})
		},
		"strings.TrimSpace": trimModel(true, true, func(a []string) string { return strings.TrimSpace(a[0]) }),
		"strings.Trim":      trimModel(true, true, func(a []string) string { return strings.Trim(a[0], a[1]) }),
		"strings.TrimLeft":  trimModel(true, false, func(a []string) string { return strings.TrimLeft(a[0], a[1]) }),
		"strings.TrimRight": trimModel(false, true, func(a []string) string { return strings.TrimRight(a[0], a[1]) }),
		"strings.Count": func(c *CallCtx) []Result {
			n := linSym(c.e.freshSym("count"))
			c.st.zw().addLE(n.neg())
			c.st.zw().addLE(n.sub(strLen(c.args[0].(StrV))).addc(-1))
			return one(c.st, c.e.factOf(c.st, "count", n, c.args[0], c.args[1]))
		},
		"strings.LastIndex": func(c *CallCtx) []Result {
			n := linSym(c.e.freshSym("last"))
			c.st.zw().addLE(n.neg().addc(-1))
			c.st.zw().addLE(n.add(strLen(c.args[1].(StrV))).sub(strLen(c.args[0].(StrV))))
			return one(c.st, c.e.factOf(c.st, "last", n, c.args[0], c.args[1]))
		},
		"strings.LastIndexByte": func(c *CallCtx) []Result {
			n := linSym(c.e.freshSym("last"))
			c.st.zw().addLE(n.neg().addc(-1))
			c.st.zw().addLE(n.sub(strLen(c.args[0].(StrV))).addc(1))
			b, ok := c.e.lin(c.args[1]).isConst()
			if !ok {
				return one(c.st, IntV{n})
			}
			return one(c.st, c.e.factOf(c.st, "last", n, c.args[0], StrV{s: string(rune(b))}))
		},
		"sort.SearchInts": func(c *CallCtx) []Result {
			// the least i with a[i] >= x
			e := c.e
			a := e.asSlice(c.st, c.args[0], types.NewSlice(types.Typ[types.Int]))
			return searchInts(c, a, e.lin(c.args[1]))
		},
		"strings.Repeat": func(c *CallCtx) []Result {
			n := c.e.lin(c.args[1])
			if !c.e.require(c.st, foldLE(n.neg()), "strings: negative Repeat count", c.pos) {
				return []Result{}
			}
			return one(c.st, c.e.symStr(c.st, "", "Repeat"))
		},
		"unicode/utf8.DecodeLastRuneInString": decodeModel,
		"unicode/utf8.DecodeRuneInString":     decodeModel,
		"sort.Search":                         searchModel,
		"(*regexp.Regexp).FindStringIndex":    findIndexModel,
		"strconv.Atoi": func(c *CallCtx) []Result {
			bad := c.st.clone()
			e := c.e
			n := e.symVal(bad, types.Typ[types.Int], "", "badint")
			er := e.symVal(bad, types.Universe.Lookup("error").Type(), "", "err").(RefV)
			bad.nilF[er.obj] = false
			t := &Tag{"atoierr", []Val{c.args[0]}}
			eo := *e.get(bad, er.obj)
			eo.tag = t
			bad.heap[er.obj] = &eo
			s := linSym(e.freshSym("atoi"))
			p := Pred{"atoi", []Val{c.args[0], IntV{s}}}
			c.st.preds[e.predKey(p)] = predFact{p, true}
			return []Result{{st: bad, ret: TupleV{[]Val{n, er}}}, {st: c.st, ret: TupleV{[]Val{IntV{s}, NilV{}}}}}
		},
		"os.Exit": func(c *CallCtx) []Result {
			return []Result{{st: c.st, panic: "exit"}}
		},
		"reflect.TypeOf": func(c *CallCtx) []Result {
			switch c.e.nilness(c.st, c.args[0]) {
			case yes:
				return one(c.st, NilV{})
			case no:
				v := c.e.symVal(c.st, c.sig.Results().At(0).Type(), "", "reflect.Type").(RefV)
				c.st.nilF[v.obj] = false
				return one(c.st, v)
			}
			a := c.st.clone()
			c.e.assume(a, c.e.nilForm(a, c.args[0]), true)
			c.e.assume(c.st, c.e.nilForm(c.st, c.args[0]), false)
			v := c.e.symVal(c.st, c.sig.Results().At(0).Type(), "", "reflect.Type").(RefV)
			c.st.nilF[v.obj] = false
			return []Result{{st: a, ret: NilV{}}, {st: c.st, ret: v}}
		},
		"errors.New": nonNilResult,
		"fmt.Errorf": nonNilResult,
	}
}

func (e *Engine) prefixForm(st *State, s, sub StrV) *Form {
	if s.obj == 0 && sub.obj == 0 {
		return fBool(strings.HasPrefix(s.s, sub.s))
	}
	return &Form{op: fPred, pred: &Pred{"hasprefix", []Val{e.canonStr(st, s), e.canonStr(st, sub)}}}
}

func living(rs []Result) (r []Result) {
	for _, x := range rs {
		if !x.st.dead && !x.st.zone.bad {
			r = append(r, x)
		}
	}
	return
}

func nonNilResult(c *CallCtx) []Result {
	v := c.e.symVal(c.st, c.sig.Results().At(0).Type(), "", "error").(RefV)
	c.st.nilF[v.obj] = false
	return one(c.st, v)
}

func decodeModel(c *CallCtx) []Result {
	s := c.args[0].(StrV)
	n := strLen(s)
	e := c.e
	r := linSym(e.freshSym("rune"))
	w := linSym(e.freshSym("size"))
	var rs []Result
	if e.decide(c.st, foldLE(n)) != no {
		a := c.st.clone()
		e.assume(a, foldLE(n), true)
		rs = append(rs, Result{st: a, ret: TupleV{[]Val{IntV{r}, IntV{linConst(0)}}}})
	}
	e.assume(c.st, foldLE(n), false)
	z := c.st.zw()
	z.addLE(r.neg())
	z.addLE(w.neg().addc(1))
	z.addLE(w.addc(-4))
	z.addLE(w.sub(n))
	if e.OnNextRune != nil && s.obj != 0 && c.fn.Name() == "DecodeRuneInString" {
		e.OnNextRune(e, c.st, StrV{obj: s.obj, lo: s.lo, hi: s.lo.add(w)}, linConst(0), IntV{r})
	}
	return append(rs, Result{st: c.st, ret: TupleV{[]Val{IntV{r}, IntV{w}}}})
}

// sort.Search(n, f): i in [0,n], f(i) when i<n, !f(i-1) when i>0 (f monotone).
func searchModel(c *CallCtx) []Result {
	e := c.e
	n := e.lin(c.args[0])
	i := linSym(e.freshSym("found"))
	z := c.st.zw()
	z.addLE(i.neg())
	// i <= max(n,0)
	if c.st.zone.lb(n) < 0 {
		return []Result{{st: c.st, ret: IntV{i}}}
	}
	z.addLE(i.sub(n))
	f := c.args[1]
	c.st.ghost["search.i"] = IntV{i}
	c.st.ghost["search.n"] = IntV{n}
	c.st.ghost["search.f"] = f
	fin := func(e *Engine, st *State) []Result {
		r := IntV{st.zone.eqFold(st.ghost["search.i"].(IntV).l)}
		delete(st.ghost, "search.i")
		delete(st.ghost, "search.n")
		delete(st.ghost, "search.f")
		return one(st, r)
	}
	low := func(e *Engine, st *State) []Result { // f(i-1) is false when i>0
		i := st.ghost["search.i"].(IntV).l
		z0 := st.clone()
		e.assume(z0, foldLE(i), true)
		var rs []Result
		if !z0.dead {
			rs = append(rs, fin(e, z0)...)
		}
		e.assume(st, foldLE(i), false)
		if !st.dead {
			rs = append(rs, Result{st: st, tail: &Tail{fn: st.ghost["search.f"], args: []Val{IntV{i.addc(-1)}},
				after: func(e *Engine, st *State, ret Val) []Result {
					e.assume(st, e.form(st, ret), false)
					if st.dead {
						return nil
					}
					return fin(e, st)
				}}})
		}
		return rs
	}
	atEnd := c.st.clone()
	e.assume(atEnd, foldLE(n.sub(i)), true)
	var rs []Result
	if !atEnd.dead {
		rs = append(rs, low(e, atEnd)...)
	}
	e.assume(c.st, foldLE(n.sub(i)), false)
	if !c.st.dead {
		rs = append(rs, Result{st: c.st, tail: &Tail{fn: f, args: []Val{IntV{i}},
			after: func(e *Engine, st *State, ret Val) []Result {
				e.assume(st, e.form(st, ret), true)
				if st.dead {
					return nil
				}
				return low(e, st)
			}}})
	}
	return rs
}

// searchInts: a[i] >= x when i < len, a[i-1] < x when i > 0. The elements are
// compared through the skolems of the array.
func searchInts(c *CallCtx, a SliceV, x Lin) []Result {
	e := c.e
	i := linSym(e.freshSym("found"))
	z := c.st.zw()
	z.addLE(i.neg())
	z.addLE(i.sub(a.len))
	var rs []Result
	at := func(st *State, k Lin, f func(st *State, v Lin)) []*State {
		var r []*State
		for _, s := range e.sideCases(st, e.get(st, a.arr), a.off.add(k)) {
			v := e.elemGet(s, e.get(s, a.arr), a.off.add(k)).(IntV).l
			f(s, v)
			if !s.dead {
				r = append(r, s)
			}
		}
		return r
	}
	end := c.st.clone()
	e.assume(end, foldLE(a.len.sub(i)), true)
	var mid []*State
	if !end.dead {
		mid = append(mid, end)
	}
	e.assume(c.st, foldLE(a.len.sub(i)), false)
	if !c.st.dead {
		mid = append(mid, at(c.st, i, func(st *State, v Lin) { e.assume(st, foldLE(x.sub(v)), true) })...)
	}
	for _, m := range mid {
		first := m.clone()
		e.assume(first, foldLE(i), true)
		if !first.dead {
			rs = append(rs, Result{st: first, ret: IntV{i}})
		}
		e.assume(m, foldLE(i), false)
		if !m.dead {
			for _, s := range at(m, i.addc(-1), func(st *State, v Lin) { e.assume(st, foldLE(x.sub(v)), false) }) {
				rs = append(rs, Result{st: s, ret: IntV{i}})
			}
		}
	}
	return rs
}

// sideCases splits on where idx is, relative to the skolems of the array
func (e *Engine) sideCases(st *State, o *Obj, idx Lin) []*State {
	r := []*State{st}
	for _, x := range e.skolems[o.id] {
		var n []*State
		for _, s := range r {
			for _, f := range []*Form{{op: fEQ, lin: x.sub(idx)}, foldLE(x.sub(idx).addc(1)), foldLE(idx.sub(x).addc(1))} {
				if f.op == fEQ && len(f.lin.t) == 0 {
					f = fBool(f.lin.c == 0)
				}
				a := s.clone()
				e.assume(a, f, true)
				if !a.dead {
					n = append(n, a)
				}
			}
		}
		r = n
	}
	return r
}

func (e *Engine) substr(st *State, s StrV, lo, hi Lin) Val {
	o := e.strObj(st, s)
	return e.normStr(st, StrV{obj: o.obj, lo: o.lo.add(lo), hi: o.lo.add(hi)})
}

// factOf records what the number is
func (e *Engine) factOf(st *State, kind string, n Lin, args ...Val) Val {
	p := Pred{kind, append([]Val{IntV{n}}, args...)}
	st.preds[e.predKey(p)] = predFact{p, true}
	return IntV{n}
}

func findIndexModel(c *CallCtx) []Result {
	e := c.e
	s := c.args[1].(StrV)
	miss := c.st.clone()
	a, b := linSym(e.freshSym("from")), linSym(e.freshSym("to"))
	z := c.st.zw()
	z.addLE(a.neg())
	z.addLE(a.sub(b))
	z.addLE(b.sub(strLen(s)))
	o := e.newObj(OArray, types.Typ[types.Int], "loc")
	o.fresh = true
	o.elems = []elemEnt{{linConst(0), IntV{a}}, {linConst(1), IntV{b}}}
	o.tag = &Tag{"loc", []Val{s}}
	c.st.heap[o.id] = o
	for _, st := range []*State{c.st, miss} {
		hit := BoolV{fBool(st == c.st)}
		st.ghost["re.text"], st.ghost["re.hit"], st.ghost["re.from"], st.ghost["re.to"], st.ghost["re.re"] = s, hit, IntV{a}, IntV{b}, c.args[0]
	}
	return []Result{{st: miss, ret: NilV{}}, {st: c.st, ret: SliceV{o.id, linConst(0), linConst(2)}}}
}

func constStrs(c *CallCtx) (string, string, bool) {
	a, ok1 := c.args[0].(StrV)
	b, ok2 := c.args[1].(StrV)
	return a.s, b.s, ok1 && ok2 && a.obj == 0 && b.obj == 0
}

// trimModel: the text without some of its beginning, or of its end.
func trimModel(left, right bool, known func([]string) string) Hook {
	return func(c *CallCtx) []Result {
		var cs []string
		for _, a := range c.args {
			if s, ok := a.(StrV); ok && s.obj == 0 {
				cs = append(cs, s.s)
			}
		}
		if len(cs) == len(c.args) {
			return one(c.st, StrV{s: known(cs)})
		}
		s := c.args[0].(StrV)
		z := c.st.zw()
		lo, hi := linConst(0), strLen(s)
		if left {
			lo = linSym(c.e.freshSym("trimmed"))
			z.addLE(lo.neg())
			z.addLE(lo.sub(strLen(s)))
		}
		if right {
			hi = linSym(c.e.freshSym("trimmed"))
			z.addLE(lo.sub(hi))
			z.addLE(hi.sub(strLen(s)))
		}
		return one(c.st, c.e.substr(c.st, s, lo, hi))
	}
}
