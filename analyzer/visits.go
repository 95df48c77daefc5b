package main

// C16: every element is visited, every rule registered, every reference
// resolved.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// child is a place of a parser that holds other parsers
type child struct {
	path []string // fields to go through
	list bool
}

func (c child) name() string { return strings.Join(c.path, ".") }

// children: the fields holding elements; what belongs to every rule and the
// parameter of a reference are not elements.
func (p *Prog) children(t types.Type) (r []child) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch ts := typeStr(f.Type()); {
		case ts == "*rule" || ts == "*Attr" || ts == "*TraceOptions" || f.Name() == "param":
		case f.Embedded():
			if pt, ok := f.Type().(*types.Pointer); ok {
				for _, c := range p.children(pt.Elem()) {
					r = append(r, child{append([]string{f.Name()}, c.path...), c.list})
				}
			}
		case types.Identical(f.Type(), p.typ("Parser")):
			r = append(r, child{[]string{f.Name()}, false})
		case types.Identical(f.Type(), types.NewSlice(p.typ("Parser"))):
			r = append(r, child{[]string{f.Name()}, true})
		}
	}
	return
}

// parserKinds: the concrete types with a forEachChild of their own
func (p *Prog) parserKinds() (r []*types.Named) {
	iface := p.typ("Parser").Underlying().(*types.Interface)
	for _, t := range p.namedTypes() {
		if types.IsInterface(t) || !(types.Implements(t, iface) || types.Implements(types.NewPointer(t), iface)) {
			continue
		}
		if p.ownMethod(t.Obj().Name(), "forEachChild") != nil {
			r = append(r, t)
		}
	}
	return
}

func (v *Env) freshParser(st *State, name string) RefV {
	x := v.e.symVal(st, v.p.typ("Parser"), "", name).(RefV)
	st.nilF[x.obj] = false
	return x
}

func checkForEachChild(p *Prog, rep *Report, t *types.Named) {
	name := t.Obj().Name()
	fn := p.ownMethod(name, "forEachChild")
	kids := p.children(t)
	nlists := 1
	for _, k := range kids {
		if k.list {
			nlists = 4
		}
	}
	none := make([]int, len(kids)+1) // which single child is absent
	for i := range none {
		none[i] = i - 1
	}
	for _, k := range kids {
		if k.list {
			longList(p, rep, t, k)
		}
	}
	for _, absent := range none {
		if absent >= 0 && kids[absent].list {
			continue
		}
		for nrules := 0; nrules <= 2; nrules++ {
			for nlist := 0; nlist < nlists; nlist++ {
				guard(rep, name, func() { feachRun(p, rep, t, fn, kids, absent, nrules, nlist) })
			}
		}
	}
}

func feachRun(p *Prog, rep *Report, t *types.Named, fn *ssa.Function, kids []child, absent, nrules, nlist int) {
	name := t.Obj().Name()
	rule := name + ".forEachChild"
	v := newEnv(p, rep, rule)
	e, st := v.e, v.st
	e.OnElem = nil
	e.unroll, e.noMerge = 12, true
	e.wholeMaps = true
	soft := map[string]bool{}
	e.unmodelled = soft
	ptr := e.symVal(st, types.NewPointer(t), "self", "self").(PtrV)
	st.nilF[ptr.obj] = false
	holder := func(st *State, k child) (PtrV, string) {
		cur := ptr
		for _, f := range k.path[:len(k.path)-1] {
			cur = v.loadField(st, cur, f).(PtrV)
			st.nilF[cur.obj] = false
		}
		return cur, k.path[len(k.path)-1]
	}
	list := func(t types.Type, xs []Val) SliceV {
		o := e.newObj(OArray, t, "list")
		st.heap[o.id] = o
		st.nilF[o.id] = false
		for i, x := range xs {
			e.elemSet(st, e.get(st, o.id), linConst(int64(i)), x, false)
		}
		return SliceV{o.id, linConst(0), linConst(int64(len(xs)))}
	}
	// the rule, with the rules included in it
	rl := v.loadField(st, ptr, "rule").(PtrV)
	for _, k := range kids { // reached through an embedded parser
		h, _ := holder(st, k)
		if len(k.path) > 1 {
			rl = v.loadField(st, h, "rule").(PtrV)
		}
	}
	st.nilF[rl.obj] = false
	var want [][]Val // what is visited, in groups
	names := []string{"b", "a"}[:nrules]
	m := v.loadField(st, rl, "rules").(RefV)
	st.nilF[m.obj] = false
	mo := *e.get(st, m.obj)
	var keys, rules []Val
	for _, n := range names {
		x := v.freshParser(st, "rule "+n)
		mo.entries = append(mo.entries, mapEnt{StrV{s: n}, x, true})
		keys = append(keys, StrV{s: n})
		rules = append(rules, x)
	}
	st.heap[m.obj] = &mo
	v.storeField(st, rl, "rules", m)
	v.storeField(st, rl, "rulesK", list(types.Typ[types.String], keys))
	want = append(want, rules)
	vals := make([][]Val, len(kids))
	for i, k := range kids {
		h, f := holder(st, k)
		switch {
		case k.list:
			var xs []Val
			for j := 0; j < nlist; j++ {
				xs = append(xs, v.freshParser(st, fmt.Sprintf("%s[%d]", f, j)))
			}
			v.storeField(st, h, f, list(p.typ("Parser"), xs))
			vals[i] = xs
		case i == absent:
			v.storeField(st, h, f, NilV{})
		default:
			x := v.freshParser(st, f)
			v.storeField(st, h, f, x)
			vals[i] = []Val{x}
		}
		want = append(want, vals[i])
	}
	st.ghost["n"] = IntV{linConst(0)}
	e.dynHook = func(c *CallCtx) []Result {
		st := c.st
		if len(c.args) != 1 {
			return nil
		}
		n, _ := ghostLin(st, "n").isConst()
		st.ghost[fmt.Sprint("visit", n)] = c.args[0]
		st.ghost["n"] = IntV{linConst(n + 1)}
		r := v.freshParser(st, "walked")
		o := *e.get(st, r.obj)
		o.tag = &Tag{"walked", []Val{c.args[0]}}
		st.heap[r.obj] = &o
		return one(st, r)
	}
	f := e.symVal(st, fn.Signature.Params().At(0).Type(), "f", "f").(RefV)
	st.nilF[f.obj] = false
	var self Val = ptr
	if _, isP := fn.Signature.Recv().Type().(*types.Pointer); !isP {
		self = e.load(st, ptr)
	}
	chk := func(o Outcome, ok bool, r, format string, a ...any) {
		if !ok && o.st.zone.infeasible() {
			return
		}
		if u, isU := o.st.ghost["unmodelled"]; !ok && isU {
			e.undecided("%s.%s: depends on %s", rule, r, u.(StrV).s)
			return
		}
		e.Check(o.st, ok, "children."+r, o.pos, "%s: %s", rule, fmt.Sprintf(format, a...))
	}
	n := 0
	for _, o := range v.run(fn, self, f) {
		n++
		if o.panic != "" {
			chk(o, false, "no-panic", "panics (%s)", o.panic)
			continue
		}
		st := o.st
		nv, _ := ghostLin(st, "n").isConst()
		at := func(x Val) int64 {
			r := int64(-1)
			for i := int64(0); i < nv; i++ {
				if e.same(st, st.ghost[fmt.Sprint("visit", i)], x) {
					if r >= 0 {
						return -2
					}
					r = i
				}
			}
			return r
		}
		all := int64(0)
		last := int64(-1)
		for gi, g := range want {
			what := "the rules included"
			if gi > 0 {
				what = kids[gi-1].name()
				if name != "Grammar" {
					last = -1
				}
			}
			for _, x := range g {
				all++
				i := at(x)
				chk(o, i >= 0, "visited", "an element of %s is not visited exactly once", what)
				if i >= 0 {
					chk(o, i > last, "order", "the elements of %s are not visited in order", what)
					last = i
				}
			}
		}
		chk(o, nv == all, "others", "something else than the elements is visited")
		walked := func(x, from Val) bool {
			t := e.tagOf(st, x)
			return t != nil && t.kind == "walked" && e.same(st, t.args[0], from)
		}
		nm := v.loadField(st, rl, "rules")
		for i, k := range names {
			ok := false
			if r, isR := nm.(RefV); isR {
				for _, en := range e.get(st, r.obj).entries {
					if s, isS := en.k.(StrV); isS && s.obj == 0 && s.s == k {
						ok = en.present && walked(en.v, rules[i])
					}
				}
			}
			chk(o, ok, "kept", "a rule included is lost")
		}
		for i, k := range kids {
			h, f := holder(st, k)
			now := v.loadField(st, h, f)
			if !k.list {
				if i == absent {
					chk(o, e.nilness(st, now) == yes, "kept", "%s appears from nothing", k.name())
				} else {
					chk(o, walked(now, vals[i][0]), "kept", "%s is not what its visit gave", k.name())
				}
				continue
			}
			s, ok := now.(SliceV)
			if ok {
				ok = v.eqLin(st, s.len, linConst(int64(nlist)))
				for j := 0; ok && j < nlist; j++ {
					ok = walked(e.elemGet(st, e.get(st, s.arr), s.off.addc(int64(j))), vals[i][j])
				}
			} else {
				ok = nlist == 0
			}
			chk(o, ok, "kept", "the elements of %s are not, in order, those their visits gave", k.name())
		}
	}
	v.reached(n, 1)
	v.done()
}

// longList: the elements of a list of any length, each visited and kept in
// order.
func longList(p *Prog, rep *Report, t *types.Named, k child) {
	name := t.Obj().Name()
	guard(rep, name, func() {
		rule := name + ".forEachChild"
		v := newEnv(p, rep, rule)
		e, st := v.e, v.st
		ptr := v.selfPtr(name)
		h := ptr
		for _, f := range k.path[:len(k.path)-1] {
			h = v.loadField(st, h, f).(PtrV)
			st.nilF[h.obj] = false
		}
		f := k.path[len(k.path)-1]
		rl := v.loadField(st, h, "rule").(PtrV)
		st.nilF[rl.obj] = false
		v.storeField(st, rl, "rules", NilV{})
		v.storeField(st, rl, "rulesK", NilV{})
		l := e.symVal(st, types.NewSlice(p.typ("Parser")), "list", "list").(SliceV)
		st.nilF[l.arr] = false
		v.storeField(st, h, f, l)
		st.ghost["k"], st.ghost["a"] = IntV{linConst(0)}, IntV{linConst(0)}
		nth := func(st *State, x Val, k string) bool {
			arr, i, ok := v.elemTag(st, x)
			return ok && arr == l.arr && v.eqLin(st, i, ghostLin(st, k))
		}
		e.dynHook = func(c *CallCtx) []Result {
			st := c.st
			if len(c.args) != 1 {
				return nil
			}
			e.Check(st, nth(st, c.args[0], "k"), "children.next", c.pos, "%s: the elements of %s are not visited each once, in order", rule, k.name())
			r := v.freshParser(st, "walked")
			o := *e.get(st, r.obj)
			o.tag = &Tag{"walked", []Val{c.args[0]}}
			st.heap[r.obj] = &o
			st.ghost["k"] = IntV{ghostLin(st, "k").addc(1)}
			return one(st, r)
		}
		e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos token.Pos) {
			e.appends++
			if added == nil {
				return
			}
			t := e.tagOf(st, added)
			e.Check(st, t != nil && t.kind == "walked" && nth(st, t.args[0], "a"), "children.kept-next", pos, "%s: the elements of %s are not kept each once, in order", rule, k.name())
			st.ghost["a"] = IntV{ghostLin(st, "a").addc(1)}
		}
		fs := e.symVal(st, p.ownMethod(name, "forEachChild").Signature.Params().At(0).Type(), "f", "f").(RefV)
		st.nilF[fs.obj] = false
		n := 0
		for _, o := range v.noPanic(v.run(p.ownMethod(name, "forEachChild"), ptr, fs), true) {
			n++
			if o.st.zone.infeasible() {
				continue
			}
			e.Check(o.st, v.eqLin(o.st, ghostLin(o.st, "k"), l.len), "children.all", o.pos, "%s: an element of %s is not visited", rule, k.name())
			if e.appends > 0 {
				e.Check(o.st, v.eqLin(o.st, ghostLin(o.st, "a"), l.len), "children.kept-all", o.pos, "%s: an element of %s is not kept", rule, k.name())
				now := e.asSlice(o.st, v.loadField(o.st, h, f), nil)
				e.Check(o.st, v.eqLin(o.st, now.len, l.len), "children.kept-all", o.pos, "%s: %s does not hold as many elements as before", rule, k.name())
			}
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkWalk: Pre, then the children, then Post, for any node.
func checkWalk(p *Prog, rep *Report, pre, post bool) {
	guard(rep, "Walk", func() {
		fn := p.fn("Walk")
		if fn == nil || len(fn.Params) != 3 {
			rep.lost = append(rep.lost, "Walk was not found")
			return
		}
		v := newEnv(p, rep, "Walk")
		e, st := v.e, v.st
		node := v.freshParser(st, "node")
		parent := e.symVal(st, p.typ("Parser"), "parent", "parent")
		kid := v.freshParser(st, "child")
		wt := fn.Params[2].Type()
		s, ok := wt.Underlying().(*types.Struct)
		if !ok {
			e.undecided("Walk: the callbacks are not understood")
			v.done()
			return
		}
		pp := StructV{typ: wt, f: make([]Val, s.NumFields())}
		funcs := map[string]RefV{}
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			if n == "Pre" && pre || n == "Post" && post {
				f := e.symVal(st, s.Field(i).Type(), n, n).(RefV)
				st.nilF[f.obj] = false
				funcs[n] = f
				pp.f[i] = f
			} else {
				pp.f[i] = e.zeroVal(s.Field(i).Type())
			}
		}
		ev := func(st *State, x string) {
			old := ""
			if g := st.ghost["events"]; g != nil {
				old = g.(StrV).s + " "
			}
			st.ghost["events"] = StrV{s: old + x}
		}
		e.dynHook = func(c *CallCtx) []Result {
			st := c.st
			if len(c.args) != 2 {
				return nil
			}
			ok := e.same(st, c.args[0], node) && e.same(st, c.args[1], parent)
			v.chk(st, ok, "arguments", c, "a callback is not given the node and its parent")
			switch c.recv.(RefV).obj {
			case funcs["Pre"].obj:
				ev(st, "pre")
				stop := st.clone()
				stop.ghost["stop"] = BoolV{fBool(true)}
				return []Result{{st: st, ret: StrV{}}, {st: stop, ret: StrV{s: "__stop__"}}}
			case funcs["Post"].obj:
				ev(st, "post")
				return one(st, StrV{})
			}
			return nil
		}
		e.ifHooks["Parser.forEachChild"] = func(c *CallCtx) []Result {
			st := c.st
			v.chk(st, e.same(st, c.recv, node), "node", c, "the children of another node are visited")
			ev(st, "children")
			return []Result{{st: st, tail: &Tail{fn: c.args[0], args: []Val{kid}, after: func(e *Engine, st *State, ret Val) []Result {
				v.chk(st, e.same(st, ret, kid), "child", c, "a child is replaced while walking")
				return one(st, c.recv)
			}}}}
		}
		e.hooks["joeson.Walk"] = func(c *CallCtx) []Result {
			st := c.st
			ok := e.same(st, c.args[0], kid) && e.same(st, c.args[1], node)
			if q, isS := c.args[2].(StructV); isS && ok {
				for i := range pp.f {
					ok = ok && q.f[i] != nil && e.same(st, q.f[i], pp.f[i])
				}
			}
			v.chk(st, ok, "recursion", c, "a child is not walked with its parent and the same callbacks")
			ev(st, "walk")
			return one(st, c.args[0])
		}
		n := 0
		for _, o := range v.noPanic(v.run(fn, node, parent, pp), true) {
			n++
			want := "children walk"
			if pre {
				want = "pre " + want
			}
			if post {
				want += " post"
			}
			if _, stopped := o.st.ghost["stop"]; stopped {
				want = "pre"
			}
			got := ""
			if g := o.st.ghost["events"]; g != nil {
				got = g.(StrV).s
			}
			v.chkO(o, got == want, "order", "goes through [%s] instead of [%s]", got, want)
			v.chkO(o, e.same(o.st, o.ret, node), "result", "another node is returned")
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkPostinit follows one node, of any kind, through the passes.
func checkPostinit(p *Prog, rep *Report, isRule, mono, shared bool) *Env {
	var env *Env
	guard(rep, "postinit", func() {
		fn := p.method("Grammar", "postinit")
		if fn == nil {
			rep.lost = append(rep.lost, "postinit was not found")
			return
		}
		v := newEnv(p, rep, "postinit")
		env = v
		e, st := v.e, v.st
		gm := v.selfPtr("Grammar")
		rank := v.loadField(st, gm, "rank").(RefV)
		st.nilF[rank.obj] = false
		gr := v.loadField(st, gm, "rule").(PtrV)
		st.nilF[gr.obj] = false
		top := v.loadField(st, gm, "TraceOptions").(PtrV)
		st.nilF[top.obj] = false
		N := e.lin(v.loadField(st, gm, "numrules"))
		st.zw().addLE(N.neg())
		keys := e.asSlice(st, v.loadField(st, gr, "rulesK"), nil)
		rules := v.loadField(st, gr, "rules").(RefV)
		ids := v.loadField(st, gm, "id2rule").(RefV)
		st.nilF[rules.obj], st.nilF[ids.obj] = false, false
		node := e.symVal(st, p.typ("Parser"), "node", "node").(RefV)
		st.nilF[node.obj] = false
		parent := e.symVal(st, p.typ("Parser"), "parent", "parent").(RefV)
		st.nilF[parent.obj] = false
		nr := v.ruleOf(st, node).(PtrV)
		pr := v.ruleOf(st, parent).(PtrV)
		prule := v.loadField(st, pr, "parser")
		name := v.loadField(st, nr, "name")
		if isRule {
			v.storeField(st, nr, "parser", node)
		} else {
			v.storeField(st, nr, "parser", NilV{})
			v.storeField(st, nr, "parent", NilV{})
		}
		if shared {
			// an element already found elsewhere in the tree
			other := e.symVal(st, p.typ("Parser"), "elsewhere", "elsewhere").(RefV)
			st.nilF[other.obj] = false
			v.storeField(st, nr, "parent", other)
		}
		if id := objOf(prule); id != 0 {
			// the parent's rule is another node
			e.assume(st, e.eqForm(st, prule, node), false)
		}
		isGm := func(st *State, x Val) bool {
			d := derefIface(x)
			return e.same(st, d, gm) || e.same(st, x, rank)
		}
		e.hooks["(*joeson.Grammar).PrintRules"] = func(c *CallCtx) []Result { return one(c.st, TupleV{}) }
		phase := func(st *State) string {
			if g := st.ghost["phase"]; g != nil {
				return g.(StrV).s
			}
			return ""
		}
		e.ifHooks["Parser.prepare"] = func(c *CallCtx) []Result {
			if e.same(c.st, c.recv, node) {
				g := v.loadField(c.st, nr, "grammar")
				v.chk(c.st, e.same(c.st, g, gm), "connected", c, "an element is prepared before it is connected")
				v.chk(c.st, phase(c.st) == "post", "prepare-order", c, "an element is prepared before its children")
				c.st.ghost["prepared"] = BoolV{fBool(true)}
			}
			return one(c.st, TupleV{})
		}
		// a pass over the children: any child is given back
		kid := v.freshParser(st, "child")
		alt := v.freshParser(st, "alternative")
		var kidV Val = kid
		if mono {
			ct := types.NewPointer(p.typ("choice"))
			cp := e.symVal(st, ct, "mono", "mono").(PtrV)
			st.nilF[cp.obj] = false
			o := e.newObj(OArray, p.typ("Parser"), "one")
			st.heap[o.id] = o
			st.nilF[o.id] = false
			e.elemSet(st, o, linConst(0), alt, false)
			for _, k := range p.children(p.typ("choice")) {
				if k.list {
					v.storeField(st, cp, k.name(), SliceV{o.id, linConst(0), linConst(1)})
				}
			}
			cr := v.loadField(st, cp, "rule").(PtrV)
			st.nilF[cr.obj] = false
			kidV = IfaceV{ct, cp}
		} else { // any other child
			e.assume(st, &Form{op: fType, obj: kid.obj, typ: types.NewPointer(p.typ("choice"))}, false)
		}
		st.ghost["kid"], st.ghost["alt"] = kidV, alt
		e.ifHooks["Parser.forEachChild"] = func(c *CallCtx) []Result {
			return []Result{{st: c.st, tail: &Tail{fn: c.args[0], args: []Val{c.st.ghost["kid"]}, after: func(e *Engine, st *State, ret Val) []Result {
				ok := e.same(st, ret, st.ghost["kid"]) || mono && e.same(st, ret, st.ghost["alt"])
				v.chk(st, ok, "tree", c, "an element is replaced by another (%s)", e.show(st, ret))
				return one(st, c.recv)
			}}}}
		}
		e.hooks["joeson.Walk"] = func(c *CallCtx) []Result {
			st := c.st
			if !isGm(st, c.args[0]) {
				// part of a pass: any node is followed on its own
				if e.same(st, c.args[0], st.ghost["kid"]) || e.same(st, c.args[0], st.ghost["alt"]) {
					st.ghost["down"] = IntV{ghostLin(st, "down").addc(1)}
				}
				return one(st, c.args[0])
			}
			pp, ok := c.args[2].(StructV)
			if !ok {
				return nil
			}
			s := pp.typ.Underlying().(*types.Struct)
			get := func(name string) Val {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == name {
						if pp.f[i] == nil {
							return e.zeroVal(s.Field(i).Type())
						}
						return pp.f[i]
					}
				}
				return NilV{}
			}
			st.ghost["passes"] = BoolV{fBool(true)}
			st.ghost["down"] = IntV{linConst(0)}
			// the children, which Walk goes through unless it is told to stop
			once := func(st *State, stop bool) {
				d := ghostLin(st, "down")
				if !stop {
					d = d.addc(1)
				}
				v.chk(st, st.zone.lb(d) >= 1, "each", c, "a pass over the grammar does not go through the children of an element")
				v.chk(st, st.zone.ub(d) <= 1, "once", c, "a pass over the grammar goes more than once through the children of an element: the work doubles at each level of nesting")
			}
			end := func(e *Engine, st *State, _ Val) []Result {
				once(st, st.ghost["stop"] != nil)
				delete(st.ghost, "phase")
				delete(st.ghost, "stop")
				return one(st, c.args[0])
			}
			post := func(e *Engine, st *State, ret Val) []Result {
				if s, isS := ret.(StrV); isS && s.obj == 0 && s.s == "__stop__" {
					st.ghost["stop"] = BoolV{fBool(true)}
					return end(e, st, nil)
				}
				st.ghost["phase"] = StrV{s: "post"}
				if f := get("Post"); e.nilness(st, f) != yes {
					return []Result{{st: st, tail: &Tail{fn: f, args: []Val{node, parent}, after: end}}}
				}
				return end(e, st, nil)
			}
			if f := get("Pre"); e.nilness(st, f) != yes {
				st.ghost["phase"] = StrV{s: "pre"}
				return []Result{{st: st, tail: &Tail{fn: f, args: []Val{node, parent}, after: post}}}
			}
			return post(e, st, StrV{})
		}
		n := 0
		for _, o := range v.run(fn, gm) {
			n++
			st := o.st
			if shared {
				v.chkO(o, o.panic != "", "shared", "an element found at two places of a grammar is not refused: it has one parent and one rule only")
				continue
			}
			if o.panic != "" {
				if !st.zone.infeasible() {
					v.chkO(o, false, "no-panic", "a grammar is refused (%s)", o.panic)
				}
				continue
			}
			if st.ghost["passes"] == nil {
				e.undecided("postinit: how the elements are gone through is not understood")
				continue
			}
			kind := "an element"
			if isRule {
				kind = "a rule"
			}
			v.chkO(o, e.same(st, v.loadField(st, nr, "grammar"), gm), "grammar", "%s does not get its grammar", kind)
			v.chkO(o, e.same(st, v.loadField(st, nr, "parent"), parent), "parent", "%s does not get its parent", kind)
			v.chkO(o, st.ghost["prepared"] != nil, "prepared", "%s is not prepared", kind)
			now := e.lin(v.loadField(st, gm, "numrules"))
			if count := p.method("Grammar", "CountRules"); count != nil {
				c := *v
				c.st = st.clone()
				c.st.frames = nil
				for _, q := range c.noPanic(c.run(count, gm), true) {
					d := e.lin(q.ret).sub(now)
					if lo, hi := q.st.zone.lb(d), q.st.zone.ub(d); lo <= 0 && hi >= 0 && lo != hi {
						e.undecided("CountRules: how the rules are counted is not understood")
						continue
					}
					v.chkO(q, v.eqLin(q.st, e.lin(q.ret), now), "counted", "CountRules does not answer the number of rules")
				}
			}
			ks := e.asSlice(st, v.loadField(st, gr, "rulesK"), nil)
			entry := func(m Val, k Val) (Val, bool) {
				r, isR := m.(RefV)
				if !isR {
					return nil, false
				}
				for _, en := range e.get(st, r.obj).entries {
					if en.present && e.same(st, en.k, k) {
						return en.v, true
					}
				}
				return nil, false
			}
			if !isRule {
				v.chkO(o, e.same(st, v.loadField(st, nr, "parser"), prule) || e.nilness(st, prule) == yes, "rule", "an element does not know the rule it is in")
				v.chkO(o, v.eqLin(st, now, N) && v.eqLin(st, ks.len, keys.len), "only-rules", "what is not a rule is registered")
				continue
			}
			id := e.lin(v.loadField(st, nr, "id"))
			v.chkO(o, v.eqLin(st, now, N.addc(1)), "count", "a rule is not counted once")
			v.chkO(o, v.eqLin(st, id, N), "number", "the number of a rule is not the next one (%s)", e.linStr(id))
			x, ok := entry(v.loadField(st, gm, "id2rule"), IntV{id})
			v.chkO(o, ok && e.same(st, x, node), "by-number", "a rule is not found under its number")
			x, ok = entry(v.loadField(st, gr, "rules"), name)
			v.chkO(o, ok && e.same(st, x, node), "by-name", "a rule is not found under its name")
			ok = v.eqLin(st, ks.len, keys.len.addc(1))
			if ok {
				ok = e.same(st, e.elemGet(st, e.get(st, ks.arr), ks.off.add(keys.len)), name)
			}
			v.chkO(o, ok, "listed", "a rule is not listed once, after those before")
			f := e.form(st, v.loadField(st, gm, "wasInitialized"))
			v.chkO(o, e.decide(st, f) == yes, "ready", "the grammar is not said to be ready")
		}
		v.reached(n, 1)
		v.done()
	})
	return env
}

// checkRef: a reference parses as the rule it names.
func checkRef(p *Prog, rep *Report, there bool) {
	guard(rep, "ref", func() {
		v := newEnv(p, rep, "ref")
		e, st := v.e, v.st
		self := v.selfPtr("ref")
		var name Val
		s := p.typ("ref").Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if typeStr(s.Field(i).Type()) == "string" {
				if name != nil {
					panic(engineErr("the name of a reference was not recognised"))
				}
				name = v.loadField(st, self, s.Field(i).Name())
			}
		}
		if name == nil {
			panic(engineErr("the name of a reference was not recognised"))
		}
		rl := v.loadField(st, self, "rule").(PtrV)
		st.nilF[rl.obj] = false
		gm := v.loadField(st, rl, "grammar").(PtrV)
		st.nilF[gm.obj] = false
		gr := v.loadField(st, gm, "rule").(PtrV)
		st.nilF[gr.obj] = false
		m := v.loadField(st, gr, "rules").(RefV)
		st.nilF[m.obj] = false
		target := v.freshParser(st, "target")
		mo := *e.get(st, m.obj)
		if there {
			mo.entries = append(mo.entries, mapEnt{name, target, true})
		} else {
			mo.entries = append(mo.entries, mapEnt{name, nil, false})
		}
		st.heap[m.obj] = &mo
		e.hooks["(*joeson.ParseContext).stackPeek"] = func(c *CallCtx) []Result {
			f := e.symVal(c.st, c.sig.Results().At(0).Type(), "", "frame").(PtrV)
			c.st.nilF[f.obj] = false
			return one(c.st, f)
		}
		st.ghost["calls"] = IntV{linConst(0)}
		e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
			st := c.st
			v.chk(st, there && e.same(st, c.recv, target), "target", c, "a reference parses as something else than the rule of its name")
			v.chk(st, e.same(st, c.args[0], v.ctx), "context", c, "a reference parses in another context")
			st.ghost["calls"] = IntV{ghostLin(st, "calls").addc(1)}
			fail := st.clone()
			v.havocPos(fail)
			fail.ghost["res"] = NilV{}
			r := v.freshAst(st, "result")
			v.advance(st)
			st.ghost["res"] = r
			return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
		}
		n := 0
		for _, o := range v.run(p.method("ref", "parse"), self, v.ctx) {
			n++
			if !there {
				v.chkO(o, o.panic != "" && !isRuntimePanic(o.panic), "missing", "a reference to a rule that does not exist is not reported")
				continue
			}
			if o.panic != "" {
				v.chkO(o, false, "no-panic", "a reference to a rule that exists is refused (%s)", o.panic)
				continue
			}
			v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "calls"), linConst(1)), "once", "the rule is not parsed exactly once")
			v.chkO(o, o.st.ghost["res"] != nil && e.same(o.st, o.ret, o.st.ghost["res"]), "result", "the result is not the one of the rule")
		}
		v.reached(n, 1)
		v.done()
	})
}

// checkNumbers: nothing else gives numbers to rules.
func checkNumbers(p *Prog, rep *Report, seen map[*ssa.Function]bool) {
	for _, fn := range p.funcs {
		if seen[fn] || !inRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem()
				f := st.Underlying().(*types.Struct).Field(fa.Field)
				if typeStr(st) != "rule" || f.Name() != "id" {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				rep.obl["numbers.only"]++
				rep.viol = append(rep.viol, Violation{rule: "numbers.only", pos: p.pos(s.Pos()), fn: short(fn), what: "the number of a rule is changed outside of its registration"})
			}
		}
	}
	rep.obl["numbers.only"]++
}

func checkVisits(p *Prog, rep *Report) {
	for _, t := range p.parserKinds() {
		switch t.Obj().Name() {
		case "NativeUndefined", "cLine":
			continue // no element, never part of a tree
		}
		checkForEachChild(p, rep, t)
	}
	for _, c := range [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}} {
		checkWalk(p, rep, c[0], c[1])
	}
	seen := map[*ssa.Function]bool{}
	for _, c := range [][3]bool{{true, false, false}, {false, false, false}, {true, true, false}, {false, true, false}, {false, false, true}} {
		if v := checkPostinit(p, rep, c[0], c[1], c[2]); v != nil {
			for b := range v.e.visited {
				seen[b.Parent()] = true
			}
		}
	}
	checkNumbers(p, rep, seen)
	checkRef(p, rep, true)
	checkRef(p, rep, false)
}

func init() {
	checks["C16"] = checkDef{rule: "every kind of parser visits each of its elements once, in order, and keeps what the visit gives; Walk calls back before and after the children of a node; the passes over a grammar connect every element, register each rule once under its name and the next number, and prepare it after its children; a reference parses as the rule of its name or panics; and structurally: after its constructor, only the visit of its elements stores into an operator",
		f: func(p *Prog, rep *Report) {
			checkVisits(p, rep)
			checkFrozen(p, rep, "ref")
			rep.floor("children.visited", 60)
			rep.floor("Walk.order", 4)
			rep.floor("postinit.number", 1)
			rep.floor("postinit.shared", 1)
			rep.floor("ref.target", 1)
		}}
}
