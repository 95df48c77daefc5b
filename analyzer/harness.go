package main

// Common environment of the parse-phase analyses: an abstract ParseContext
// whose stream is reduced to its position, and abstract children.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Report struct {
	id       string
	tier     string
	p        *Prog
	lost     []string // anchors that could not be resolved
	viol     []Violation
	undec    []string
	obl      map[string]int
	funcs    map[string]bool
	states   int
	outs     int
	samples  []string
	rules    []string
	knownHit map[string]bool
}

func newReport(id string) *Report {
	return &Report{id: id, obl: map[string]int{}, funcs: map[string]bool{}, knownHit: map[string]bool{}}
}

func (r *Report) add(p *Prog, rule string, pos token.Pos, format string, a ...any) {
	r.viol = append(r.viol, Violation{rule: rule, what: fmt.Sprintf(format, a...), pos: p.pos(pos), fn: p.fnAt(pos)})
}
func (r *Report) check(p *Prog, ok bool, rule string, pos token.Pos, format string, a ...any) bool {
	r.obl[rule]++
	if !ok {
		r.add(p, rule, pos, format, a...)
	}
	return ok
}
func (r *Report) undecided(format string, a ...any) {
	r.undec = append(r.undec, fmt.Sprintf(format, a...))
}
func (r *Report) sample(format string, a ...any) {
	if len(r.samples) < 40 {
		r.samples = append(r.samples, fmt.Sprintf(format, a...))
	}
}
func (r *Report) floor(rule string, n int) {
	if r.obl[rule] < n {
		r.lost = append(r.lost, fmt.Sprintf("rule %s was applied %d times, at least %d instances were confirmed by hand: the code it is about was not reached", rule, r.obl[rule], n))
	}
}

// take collects what an engine found.
func (r *Report) take(e *Engine) {
	r.viol = append(r.viol, e.viol...)
	for _, u := range e.dumpUndec() {
		r.undecided("%s", u)
	}
	for k, n := range e.obl {
		r.obl[k] += n
	}
	for b := range e.visited {
		r.funcs[short(b.Parent())] = true
	}
	r.states += e.steps
	r.outs += len(e.out)
}

type Env struct {
	e    *Engine
	p    *Prog
	rep  *Report
	st   *State
	ctx  PtrV
	code RefV
	L    Lin
	self Val // receiver of the analysed operator
	rule string
}

func newEnv(p *Prog, rep *Report, rule string) *Env {
	e := newEngine(p)
	v := &Env{e: e, p: p, rep: rep, st: newState(), rule: rule}
	e.eff = p.effects()
	v.ctx = e.symVal(v.st, types.NewPointer(p.typ("ParseContext")), "ctx", "ctx").(PtrV)
	v.st.nilF[v.ctx.obj] = false
	v.code = v.loadField(v.st, v.ctx, "Code").(RefV)
	v.st.nilF[v.code.obj] = false
	v.L = linSym(e.symByName("L"))
	p0 := linSym(e.symByName("P0"))
	z := v.st.zw()
	z.addLE(p0.neg())
	z.addLE(p0.sub(v.L))
	v.st.ghost["pos"] = IntV{p0}
	v.st.ghost["P0"] = IntV{p0}
	// grammars are trees of non-nil parsers
	e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, x Val) Val {
		if n, ok := o.typ.(*types.Named); ok && n.Obj().Name() == "Parser" && o.sym && !o.lost {
			st.nilF[objOf(x)] = false
		}
		return x
	}
	e.ifHooks["CodeStream.Pos"] = func(c *CallCtx) []Result { return one(c.st, c.st.ghost["pos"]) }
	e.ifHooks["CodeStream.SetPos"] = func(c *CallCtx) []Result {
		c.st.ghost["pos"] = c.args[0]
		return one(c.st, TupleV{})
	}
	e.ifHooks["CodeStream.workLength"] = func(c *CallCtx) []Result { return one(c.st, IntV{v.L}) }
	for _, m := range []string{"MatchString", "MatchRegexp", "MatchRune", "GetUntil"} {
		e.ifHooks["CodeStream."+m] = func(c *CallCtx) []Result {
			v.havocPos(c.st)
			return c.e.defaultCall(c)
		}
	}
	e.ifHooks["Parser.getRule"] = func(c *CallCtx) []Result { return one(c.st, v.ruleOf(c.st, c.recv)) }
	e.ifHooks["Ast.getRule"] = e.ifHooks["Parser.getRule"]
	e.hooks["joeson.wrap"] = func(c *CallCtx) []Result {
		return one(c.st, FuncV{native: "wrapped", binds: []Val{c.args[0], c.args[1]}})
	}
	e.hooks["wrapped"] = func(c *CallCtx) []Result {
		f := c.recv.(FuncV)
		if v.self != nil {
			v.e.Check(c.st, c.e.same(c.st, f.binds[1], v.self), v.rule+".wrap-self", c.pos, "the operator is wrapped under another parser (%s instead of %s)", c.e.show(c.st, f.binds[1]), c.e.show(c.st, v.self))
		}
		v.e.Check(c.st, c.e.same(c.st, c.args[0], v.ctx), v.rule+".wrap-ctx", c.pos, "the wrapped operator runs with another context")
		n := c.st.ghost["wraps"]
		if n == nil {
			n = IntV{linConst(0)}
		}
		c.st.ghost["wraps"] = IntV{n.(IntV).l.addc(1)}
		return []Result{{st: c.st, tail: &Tail{fn: f.binds[0], args: []Val{c.args[0], f.binds[1]},
			after: func(e *Engine, st *State, ret Val) []Result {
				st.ghost["body"] = ret
				return one(st, ret)
			}}}}
	}
	return v
}

func (p *Prog) effects() *Effects {
	if p.eff == nil {
		p.eff = newEffects(p)
	}
	return p.eff
}

// ruleOf is the *rule of an abstract parser.
func (v *Env) ruleOf(st *State, recv Val) Val {
	id := objOf(recv)
	if id == 0 {
		return v.e.symVal(st, types.NewPointer(v.p.typ("rule")), "", "rule")
	}
	o := v.e.get(st, id)
	if r, ok := o.virt["rule"]; ok {
		return r
	}
	name := ""
	if o.name != "" {
		name = o.name + ".rule"
	}
	r := v.e.symVal(st, types.NewPointer(v.p.typ("rule")), name, "rule").(PtrV)
	st.nilF[r.obj] = false
	n := *v.e.get(st, r.obj)
	n.tag = &Tag{"ruleof", []Val{RefV{id}}}
	st.heap[r.obj] = &n
	v.e.setVirt(st, id, "rule", r)
	return r
}

func (v *Env) pos(st *State) Lin { return st.ghost["pos"].(IntV).l }

// havocPos sets the position to any position of the stream.
func (v *Env) havocPos(st *State) Lin {
	s := linSym(v.e.freshSym("pos"))
	z := st.zw()
	z.addLE(s.neg())
	z.addLE(s.sub(v.L))
	st.ghost["pos"] = IntV{s}
	return s
}

// advance sets the position to anywhere from the current one on: where a
// successful parser stops (each operator is checked to never stop before its
// start).
func (v *Env) advance(st *State) Lin {
	from := v.pos(st)
	to := v.havocPos(st)
	st.zw().addLE(from.sub(to))
	return to
}

// fieldPath finds a (possibly promoted) field: the list of derefs and indices.
func fieldIndex(t types.Type, name string) []int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if r := fieldIndex(s.Field(i).Type(), name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

// loadField reads a (possibly promoted) field of *p.
func (v *Env) loadField(st *State, p Val, name string) Val {
	ptr := p.(PtrV)
	o := v.e.get(st, ptr.obj)
	t := o.typ
	idx := fieldIndex(t, name)
	if idx == nil {
		panic(engineErr("no field " + name + " in " + t.String()))
	}
	cur := ptr
	for k, i := range idx {
		cur = PtrV{obj: cur.obj, elem: cur.elem, path: append(append([]int(nil), cur.path...), i)}
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if k == len(idx)-1 {
			return v.e.load(st, cur)
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			cur = v.e.load(st, cur).(PtrV)
			v.st.nilF[cur.obj] = false
			t = pt.Elem()
		} else {
			t = ft
		}
	}
	return nil
}

func (v *Env) storeField(st *State, p Val, name string, x Val) {
	ptr := p.(PtrV)
	t := v.e.get(st, ptr.obj).typ
	idx := fieldIndex(t, name)
	if idx == nil {
		panic(engineErr("no field " + name + " in " + t.String()))
	}
	cur := ptr
	for k, i := range idx {
		cur = PtrV{obj: cur.obj, elem: cur.elem, path: append(append([]int(nil), cur.path...), i)}
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if k == len(idx)-1 {
			v.e.store(st, cur, x)
			return
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			cur = v.e.load(st, cur).(PtrV)
			t = pt.Elem()
		} else {
			t = ft
		}
	}
}

// selfPtr makes an abstract receiver of named type.
func (v *Env) selfPtr(typ string) PtrV {
	t := v.p.typ(typ)
	if t == nil {
		panic(engineErr("no type " + typ))
	}
	s := v.e.symVal(v.st, types.NewPointer(t), "self", "self").(PtrV)
	v.st.nilF[s.obj] = false
	v.self = IfaceV{types.NewPointer(t), s}
	return s
}

func (v *Env) freshAst(st *State, hint string) RefV {
	r := v.e.symVal(st, v.p.typ("Ast"), "", hint).(RefV)
	st.nilF[r.obj] = false
	return r
}

func (v *Env) run(fn *ssa.Function, args ...Val) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(engineErr); ok {
				v.e.undecided("%s: %s", v.rule, string(ee))
				return
			}
			panic(r)
		}
	}()
	if fn == nil {
		v.e.undecided("%s: function not found", v.rule)
		return nil
	}
	return v.e.Run(v.st, fn, args, nil)
}

func (v *Env) done() { v.rep.take(v.e) }

func guard(rep *Report, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(engineErr); ok {
				rep.undecided("%s: %s", what, string(ee))
				return
			}
			panic(r)
		}
	}()
	f()
}

func isNil(v Val) bool { _, ok := v.(NilV); return ok }

// elemTag: v is element idx of array arr
func (v *Env) elemTag(st *State, x Val) (ObjID, Lin, bool) {
	t := v.e.tagOf(st, x)
	if t == nil || t.kind != "elem" {
		return 0, Lin{}, false
	}
	return t.args[0].(PtrV).obj, t.args[1].(IntV).l, true
}

func (v *Env) eqLin(st *State, a, b Lin) bool {
	d := a.sub(b)
	return st.zone.ub(d) == 0 && st.zone.lb(d) == 0
}
func (v *Env) posEq(st *State, l Lin) bool { return v.eqLin(st, v.pos(st), l) }

func ghostLin(st *State, k string) Lin { return st.ghost[k].(IntV).l }

// isUndef: the value is a NativeUndefined.
func (v *Env) isUndef(x Val) bool {
	i, ok := x.(IfaceV)
	if !ok {
		return false
	}
	return types.Identical(i.typ, v.p.typ("NativeUndefined"))
}

func trimMod(s string) string { return strings.ReplaceAll(s, modPath, "joeson") }

var _ = token.NoPos

type pos0 = token.Pos

func itoa(n int) string { return fmt.Sprint(n) }
