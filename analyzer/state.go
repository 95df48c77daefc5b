package main

// Facts (assume/decide), equality of abstract values, canonical form of
// states at loop heads.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tri int

const (
	unk tri = iota
	yes
	no
)

func triNot(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unk
}

func (e *Engine) nilness(st *State, v Val) tri {
	switch x := v.(type) {
	case NilV:
		return yes
	case IfaceV, FuncV:
		return no
	case PtrV:
		if x.elem != nil || len(x.path) > 0 {
			return no
		}
		return e.objNil(st, x.obj)
	case RefV:
		return e.objNil(st, x.obj)
	case SliceV:
		if st.zone.lb(x.len) > 0 {
			return no
		}
		o := e.get(st, x.arr)
		if !o.sym {
			return no
		}
		return e.objNil(st, x.arr)
	case StrV, IntV, BoolV, StructV:
		return no
	}
	return unk
}

func (e *Engine) objNil(st *State, id ObjID) tri {
	if b, ok := st.nilF[id]; ok {
		if b {
			return yes
		}
		return no
	}
	o := e.get(st, id)
	if o.fresh && !o.sym {
		return no
	}
	if o.tag != nil && o.tag.kind == "global" {
		return no
	}
	return unk
}

func (e *Engine) nilForm(st *State, v Val) *Form {
	switch e.nilness(st, v) {
	case yes:
		return fBool(true)
	case no:
		return fBool(false)
	}
	switch x := v.(type) {
	case PtrV:
		return &Form{op: fNil, obj: x.obj}
	case RefV:
		return &Form{op: fNil, obj: x.obj}
	case SliceV:
		return &Form{op: fNil, obj: x.arr}
	}
	return e.opaqueForm(st, "nil?")
}

func (e *Engine) opaqueForm(st *State, hint string) *Form {
	o := e.newObj(OOpaque, types.Typ[types.Bool], hint)
	o.sym = true
	st.heap[o.id] = o
	return &Form{op: fPred, pred: &Pred{"sym", []Val{RefV{o.id}}}}
}

func (e *Engine) decide(st *State, f *Form) tri {
	var r tri
	switch f.op {
	case fConst:
		if f.b {
			return yes
		}
		return no
	case fLE:
		if st.zone.ub(f.lin) <= 0 {
			r = yes
		} else if st.zone.lb(f.lin) > 0 {
			r = no
		} else if st.zone.lb(f.lin) == 0 && st.zone.isNE(f.lin) {
			r = no
		}
	case fEQ:
		u, l := st.zone.ub(f.lin), st.zone.lb(f.lin)
		if u == 0 && l == 0 {
			r = yes
		} else if st.zone.isNE(f.lin) {
			r = no
		}
	case fNil:
		r = e.objNil(st, f.obj)
	case fType:
		r = e.typeTest(st, f.obj, f.typ)
	case fPred:
		if pf, ok := st.preds[e.predKey(*f.pred)]; ok {
			r = no
			if pf.val {
				r = yes
			}
		} else if f.pred.name == "streq" {
			r = e.streqDerived(st, f.pred)
		} else if f.pred.name == "eq" {
			r = e.eqDerived(st, f.pred)
		}
	}
	if f.neg {
		r = triNot(r)
	}
	return r
}

// a value known equal to another constant differs from this one
func (e *Engine) streqDerived(st *State, p *Pred) tri {
	a, b := p.args[0].(StrV), p.args[1].(StrV)
	if a.obj == 0 {
		a, b = b, a
	}
	if b.obj == 0 {
		ak := e.valKey(a)
		for _, pf := range st.preds {
			if pf.p.name == "streq" && pf.val {
				x, y := pf.p.args[0].(StrV), pf.p.args[1].(StrV)
				if x.obj == 0 {
					x, y = y, x
				}
				if y.obj == 0 && e.valKey(x) == ak && y.s != b.s {
					return no
				}
			}
		}
	}
	la, lb := strLen(a), strLen(b)
	if st.zone.isNE(la.sub(lb)) {
		return no
	}
	if st.zone.ub(la) <= 0 && st.zone.ub(lb) <= 0 {
		return yes
	}
	return unk
}

func (e *Engine) eqDerived(st *State, p *Pred) tri {
	na, nb := e.nilness(st, p.args[0]), e.nilness(st, p.args[1])
	if na == yes && nb == yes {
		return yes
	}
	if (na == yes && nb == no) || (na == no && nb == yes) {
		return no
	}
	return unk
}

func strLen(s StrV) Lin {
	if s.obj == 0 {
		return linConst(int64(len(s.s)))
	}
	return s.hi.sub(s.lo)
}

func (e *Engine) typeTest(st *State, obj ObjID, t types.Type) tri {
	if e.objNil(st, obj) == yes {
		return no
	}
	o := e.get(st, obj)
	tf := st.typF[obj]
	if it, ok := t.Underlying().(*types.Interface); ok {
		if o.kind == OIface && types.Implements(o.typ, it) && e.objNil(st, obj) == no {
			return yes
		}
		if tf != nil {
			if tf.is != nil {
				if types.Implements(tf.is, it) {
					return yes
				}
				return no
			}
			for _, x := range tf.imp {
				if types.Identical(x, t) || types.Implements(x, it) {
					return yes
				}
			}
			for _, x := range tf.nim {
				if types.Identical(x, t) || types.Implements(t, x.Underlying().(*types.Interface)) {
					return no
				}
			}
		}
		return unk
	}
	if o.kind == OIface {
		if it, ok := o.typ.Underlying().(*types.Interface); ok && !types.Implements(t, it) {
			return no
		}
	}
	if tf != nil {
		if tf.is != nil {
			if types.Identical(tf.is, t) {
				return yes
			}
			return no
		}
		for _, x := range tf.not {
			if types.Identical(x, t) {
				return no
			}
		}
		for _, x := range tf.nim {
			if types.Implements(t, x.Underlying().(*types.Interface)) {
				return no
			}
		}
		for _, x := range tf.imp {
			if !types.Implements(t, x.Underlying().(*types.Interface)) {
				return no
			}
		}
	}
	return unk
}

// assume restricts st to f == val; st.dead when that is impossible.
func (e *Engine) assume(st *State, f *Form, val bool) {
	switch e.decide(st, f) {
	case yes:
		if !val {
			st.dead = true
		}
		return
	case no:
		if val {
			st.dead = true
		}
		return
	}
	if f.neg {
		val = !val
	}
	switch f.op {
	case fLE:
		if val {
			st.zw().addLE(f.lin)
		} else {
			st.zw().addLE(f.lin.neg().addc(1))
		}
	case fEQ:
		if val {
			st.zw().addEQ(f.lin)
		} else {
			st.zw().addNE(f.lin)
		}
	case fNil:
		st.nilF[f.obj] = val
		if o := e.get(st, f.obj); val && o.kind == OArray {
			// nil slices are empty: lengths are tied by the creator
			for _, t := range e.sliceLens(st, f.obj) {
				st.zw().addEQ(t)
			}
		}
	case fType:
		tf := &typeFact{}
		if old := st.typF[f.obj]; old != nil {
			*tf = *old
		}
		if _, ok := f.typ.Underlying().(*types.Interface); ok {
			if val {
				tf.imp = append(append([]types.Type(nil), tf.imp...), f.typ)
				st.nilF[f.obj] = false
			} else {
				tf.nim = append(append([]types.Type(nil), tf.nim...), f.typ)
			}
		} else if val {
			tf.is = f.typ
			st.nilF[f.obj] = false
		} else {
			tf.not = append(append([]types.Type(nil), tf.not...), f.typ)
		}
		st.typF[f.obj] = tf
	case fPred:
		st.preds[e.predKey(*f.pred)] = predFact{*f.pred, val}
		if val && f.pred.name == "streq" {
			a, b := f.pred.args[0].(StrV), f.pred.args[1].(StrV)
			st.zw().addEQ(strLen(a).sub(strLen(b)))
		}
		if val && f.pred.name == "hasprefix" {
			st.zw().addLE(strLen(f.pred.args[1].(StrV)).sub(strLen(f.pred.args[0].(StrV))))
		}
		if e.OnAssume != nil {
			e.OnAssume(e, st, f, val)
		}
	}
	if st.zone.bad {
		st.dead = true
	}
}

// sliceLens finds the symbolic length of a named array object
func (e *Engine) sliceLens(st *State, id ObjID) []Lin {
	o := e.get(st, id)
	if o.name != "" {
		if s, ok := e.symIdx[o.name+".len"]; ok {
			return []Lin{linSym(s)}
		}
	}
	return nil
}

func (e *Engine) eqForm(st *State, a, b Val) *Form {
	if _, ok := a.(NilV); ok {
		return e.nilForm(st, b)
	}
	if _, ok := b.(NilV); ok {
		return e.nilForm(st, a)
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			l := x.l.sub(y.l)
			if c, ok := l.isConst(); ok {
				return fBool(c == 0)
			}
			return &Form{op: fEQ, lin: l}
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			if x.f.op == fConst {
				x, y = y, x
			}
			if y.f.op == fConst {
				if y.f.b {
					return x.f
				}
				return x.f.not()
			}
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.obj == 0 && y.obj == 0 {
				return fBool(x.s == y.s)
			}
			if x.obj == y.obj {
				d1, d2 := x.lo.sub(y.lo), x.hi.sub(y.hi)
				if st.zone.ub(d1) == 0 && st.zone.lb(d1) == 0 && st.zone.ub(d2) == 0 && st.zone.lb(d2) == 0 {
					return fBool(true)
				}
			}
			if y.obj == 0 && y.s == "" {
				return &Form{op: fEQ, lin: strLen(x)}
			}
			if x.obj == 0 && x.s == "" {
				return &Form{op: fEQ, lin: strLen(y)}
			}
			return &Form{op: fPred, pred: &Pred{"streq", []Val{e.canonStr(st, x), e.canonStr(st, y)}}}
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if x.obj == y.obj && len(x.path) == len(y.path) {
				same := (x.elem == nil) == (y.elem == nil)
				for i := range x.path {
					same = same && x.path[i] == y.path[i]
				}
				if same && x.elem == nil {
					return fBool(true)
				}
				if same {
					return &Form{op: fEQ, lin: x.elem.sub(*y.elem)}
				}
				return fBool(false)
			}
			ox, oy := e.get(st, x.obj), e.get(st, y.obj)
			if x.obj != y.obj && (ox.fresh || oy.fresh) && !(ox.sym && oy.sym) {
				return fBool(false)
			}
		}
	case RefV:
		if y, ok := b.(RefV); ok && x.obj == y.obj {
			return fBool(true)
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			if !types.Identical(x.typ, y.typ) {
				return fBool(false)
			}
			return e.eqForm(st, x.val, y.val)
		}
	}
	return &Form{op: fPred, pred: &Pred{"eq", []Val{a, b}}}
}

// canonStr: a whole string is written with the length of its object
func (e *Engine) canonStr(st *State, s StrV) StrV {
	if s.obj == 0 {
		return s
	}
	o := e.get(st, s.obj)
	if d := s.hi.sub(o.slen); st.zone.isZero(d) {
		s.hi = o.slen
	}
	if c, ok := s.lo.isConst(); !ok || c != 0 {
		if st.zone.isZero(s.lo) {
			s.lo = linConst(0)
		}
	}
	return s
}

// provably equal values
func (e *Engine) same(st *State, a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if e.valKey(a) == e.valKey(b) {
		return true
	}
	// an iface made from a symbolic iface's concrete view
	if x, ok := a.(IfaceV); ok {
		if o := objOf(x.val); o != 0 {
			if t := e.get(st, o).tag; t != nil && t.kind == "dyn" {
				if e.same(st, t.args[0], b) {
					return true
				}
			}
		}
	}
	if y, ok := b.(IfaceV); ok {
		if o := objOf(y.val); o != 0 {
			if t := e.get(st, o).tag; t != nil && t.kind == "dyn" {
				if x, isI := a.(IfaceV); !isI || e.valKey(x) != e.valKey(y) {
					return e.same(st, a, t.args[0])
				}
			}
		}
	}
	return e.decide(st, e.eqForm(st, a, b)) == yes
}

// ---- liveness

type liveInfo struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	out   map[*ssa.BasicBlock]map[ssa.Value]bool
	heads map[*ssa.BasicBlock]bool
}

func (e *Engine) live(fn *ssa.Function) *liveInfo {
	if li, ok := e.liveC[fn]; ok {
		return li
	}
	li := &liveInfo{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		li.in[b] = map[ssa.Value]bool{}
		li.out[b] = map[ssa.Value]bool{}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				li.heads[b] = true
			}
		}
	}
	tracked := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s] {
					cur[v] = true
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
					if tracked(ph.Edges[pi]) {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			// phis of successors that are also live-in there are defined on entry: handled by in[]
			for v := range cur {
				if !li.out[b][v] {
					li.out[b][v] = true
					changed = true
				}
			}
			live := map[ssa.Value]bool{}
			for v := range li.out[b] {
				live[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if tracked(*op) {
						live[*op] = true
					}
				}
			}
			for v := range live {
				if !li.in[b][v] {
					li.in[b][v] = true
					changed = true
				}
			}
		}
	}
	e.liveC[fn] = li
	return li
}

// liveAt returns the values needed from instruction index pc of b on.
func (e *Engine) liveAt(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	li := e.live(b.Parent())
	live := map[ssa.Value]bool{}
	for v := range li.out[b] {
		live[v] = true
	}
	for k := len(b.Instrs) - 1; k >= pc; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			switch (*op).(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			default:
				live[*op] = true
			}
		}
	}
	return live
}

// ---- canonical form

type canon struct {
	e      *Engine
	st     *State
	key    strings.Builder
	objMap map[ObjID]ObjID // anonymous old -> canonical
	order  []ObjID
	locs   []Lin // value of the n-th integer location
	n      *State
	symTo  map[Sym]Lin // anonymous symbol -> over location symbols
	phis   [][2]int    // locations of the variables of the loop entered: location, variable
}

// Two passes: shape (collect locations, number objects), then rebuild.
func (e *Engine) canonicalize(st *State) (string, *State) {
	// prune environments
	for i, f := range st.frames {
		var lv map[ssa.Value]bool
		if i == len(st.frames)-1 {
			lv = e.liveAt(f.block, f.pc)
		} else {
			lv = e.liveAt(f.block, f.pc+1)
			// the frame's pc points at the pending call
		}
		for v := range f.env {
			if !lv[v] {
				delete(f.env, v)
			}
		}
	}
	c := &canon{e: e, st: st, objMap: map[ObjID]ObjID{}, symTo: map[Sym]Lin{}}
	// pass 1
	for i, f := range st.frames {
		fmt.Fprintf(&c.key, "|%s@%d.%d", f.fn.String(), f.block.Index, f.pc)
		if len(f.visits) > 0 {
			for _, b := range f.fn.Blocks {
				if n := f.visits[b]; n > 0 {
					fmt.Fprintf(&c.key, "v%d:%d", b.Index, n)
				}
			}
		}
		if f.running {
			c.key.WriteString("D")
			c.shape(f.retv)
		}
		for k, v := range sortedEnv(f.env) {
			c.key.WriteString(" " + v.Name() + "=")
			n := len(c.locs)
			c.shape(f.env[v])
			if ph, ok := v.(*ssa.Phi); ok && e.pairs && i == len(st.frames)-1 && ph.Block() == f.block {
				for ; n < len(c.locs); n++ {
					c.phis = append(c.phis, [2]int{n, k})
				}
			}
		}
		for _, d := range f.defers {
			c.key.WriteString(" defer")
			c.shape(d.fn)
			for _, a := range d.args {
				c.shape(a)
			}
		}
	}
	for _, g := range sortedKeys(st.ghost) {
		c.key.WriteString(" $" + g + "=")
		c.shape(st.ghost[g])
	}
	// named objects nothing was written to are re-materialised on demand
	var nm []string
	byName := map[string]ObjID{}
	for id, o := range st.heap {
		if o.name != "" && o.written {
			nm = append(nm, o.name)
			byName[o.name] = id
		}
	}
	sort.Strings(nm)
	for _, s := range nm {
		o := st.heap[byName[s]]
		c.key.WriteString("\n@" + s + ":")
		c.shapeObj(o)
	}
	for i := 0; i < len(c.order); i++ {
		o := e.get(st, c.order[i])
		fmt.Fprintf(&c.key, "\n#%d:", i)
		c.shapeObj(o)
	}
	// facts
	var facts []string
	ref := func(id ObjID) (string, bool) {
		if n, ok := c.objMap[id]; ok {
			return fmt.Sprintf("#%d", n), true
		}
		if o := e.get(st, id); o.name != "" {
			return "@" + o.name, true
		}
		return "", false
	}
	for id, b := range st.nilF {
		if r, ok := ref(id); ok {
			facts = append(facts, fmt.Sprintf("nil %s %v", r, b))
		}
	}
	for id, tf := range st.typF {
		if r, ok := ref(id); ok {
			s := "ty " + r + " "
			if tf.is != nil {
				s += "is " + tf.is.String()
			}
			for _, l := range [][]types.Type{tf.not, tf.imp, tf.nim} {
				var p []string
				for _, t := range l {
					p = append(p, t.String())
				}
				sort.Strings(p)
				s += "/" + strings.Join(p, ",")
			}
			facts = append(facts, s)
		}
	}
	// symbol map
	for i, l := range c.locs {
		if len(l.t) == 1 && (l.t[0].k == 1 || l.t[0].k == -1) && e.symAnon[l.t[0].s] {
			s := l.t[0].s
			if _, ok := c.symTo[s]; !ok {
				// l = k*s + c  => s = k*(loc - c)
				loc := linSym(e.tmpSym(i))
				c.symTo[s] = loc.addc(-l.c).scale(l.t[0].k)
			}
		}
	}
	// rebuild
	n := &State{trace: st.trace, joined: st.joined, heap: map[ObjID]*Obj{}, nilF: map[ObjID]bool{}, typF: map[ObjID]*typeFact{},
		preds: map[string]predFact{}, ghost: map[string]Val{}}
	c.n = n
	cnt := 0
	reb := func(v Val) Val { return c.rebuild(v, &cnt) }
	for _, f := range st.frames {
		g := *f
		if f.running {
			g.retv = reb(f.retv)
		}
		g.env = make(map[ssa.Value]Val, len(f.env))
		for _, v := range sortedEnv(f.env) {
			g.env[v] = reb(f.env[v])
		}
		g.defers = nil
		for _, d := range f.defers {
			nd := deferred{fn: reb(d.fn), method: d.method, site: d.site}
			for _, a := range d.args {
				nd.args = append(nd.args, reb(a))
			}
			g.defers = append(g.defers, nd)
		}
		n.frames = append(n.frames, &g)
	}
	for _, g := range sortedKeys(st.ghost) {
		n.ghost[g] = reb(st.ghost[g])
	}
	for _, s := range nm {
		o := st.heap[byName[s]]
		n.heap[o.id] = c.rebuildObj(o, o.id, &cnt)
	}
	for i := 0; i < len(c.order); i++ {
		o := e.get(st, c.order[i])
		id := e.canonObj(i)
		n.heap[id] = c.rebuildObj(o, id, &cnt)
	}
	if cnt != len(c.locs) {
		panic(engineErr(fmt.Sprintf("canonicalize: %d locations, %d rebuilt", len(c.locs), cnt)))
	}
	obj := func(id ObjID) (ObjID, bool) {
		if k, ok := c.objMap[id]; ok {
			return e.canonObj(int(k)), true
		}
		if e.get(st, id).name != "" {
			return id, true
		}
		return 0, false
	}
	for id, b := range st.nilF {
		if x, ok := obj(id); ok {
			n.nilF[x] = b
		}
	}
	for id, tf := range st.typF {
		if x, ok := obj(id); ok {
			n.typF[x] = tf
		}
	}
	for _, pf := range st.preds {
		np := Pred{name: pf.p.name}
		ok := true
		for _, a := range pf.p.args {
			v, good := c.renameVal(a)
			if !good {
				ok = false
				break
			}
			np.args = append(np.args, v)
		}
		if ok {
			np = e.untmpPred(np, len(c.locs))
			n.preds[e.predKey(np)] = predFact{np, pf.val}
			facts = append(facts, fmt.Sprintf("pred %s %v", e.predKey(np), pf.val))
		}
	}
	sort.Strings(facts)
	for _, f := range facts {
		c.key.WriteString("\n" + f)
	}
	// zone: every location is a node of the old zone plus a constant
	z := st.zone.clone()
	nz := newZone()
	ids, offs := []int{0}, []int64{0}
	locOf := map[Sym]Lin{}
	for i, l := range c.locs {
		u := z.node(l)
		nz.addNode(linSym(e.locSym(i)))
		ids, offs = append(ids, u), append(offs, l.c)
		locOf[e.tmpSym(i)] = linSym(e.locSym(i))
	}
	if e.pairs {
		for _, k := range c.pairs() {
			l := c.locs[k[0]].add(c.locs[k[1]])
			u := z.node(l)
			nz.addNode(linSym(e.locSym(k[0])).add(linSym(e.locSym(k[1]))))
			ids, offs = append(ids, u), append(offs, l.c)
		}
	}
	ren := func(l Lin) (Lin, bool) {
		l = l.subst(func(s Sym) (Lin, bool) {
			x, ok := c.symTo[s]
			if i, in := z.idx[symHash(s)]; !ok && in && e.symAnon[s] && z.d[i][0] < INF && z.d[0][i] == -z.d[i][0] {
				return linConst(z.d[i][0]), true
			}
			return x, ok
		})
		for _, t := range l.t {
			if _, ok := locOf[t.s]; !ok && e.symAnon[t.s] {
				return l, false
			}
		}
		return l.subst(func(s Sym) (Lin, bool) { x, ok := locOf[s]; return x, ok }), true
	}
	// a location which is the difference of two others stays related to both
	for i, l := range c.locs {
		if len(l.t) != 2 || !l.isDiff() || l.t[0].k*l.t[0].k != 1 {
			continue
		}
		var pos, neg Lin
		for _, t := range l.t {
			if t.k > 0 {
				pos = linSym(t.s)
			} else {
				neg = linSym(t.s)
			}
		}
		if pr, ok := ren(pos); !ok || len(pr.t) == 0 {
			continue
		}
		r, ok := ren(neg)
		if !ok || len(r.t) == 0 {
			continue
		}
		r = r.add(linSym(e.locSym(i)))
		if _, dup := nz.find(r); dup {
			continue
		}
		nz.addNode(r.noConst())
		ids, offs = append(ids, z.node(pos)), append(offs, l.c-r.c)
	}
	for u, l := range z.nodes[1:] {
		r, ok := ren(l)
		if !ok || len(r.t) == 0 {
			continue
		}
		if _, dup := nz.find(r); dup {
			continue
		}
		nz.addNode(r.noConst())
		// node = r + c, so r without its constant = node - c
		ids, offs = append(ids, u+1), append(offs, -r.c)
	}
	m := len(nz.nodes)
	nz.d = make([][]int64, m)
	for i := range nz.d {
		nz.d[i] = make([]int64, m)
		for j := range nz.d[i] {
			v := z.d[ids[i]][ids[j]]
			if v < INF {
				v += offs[i] - offs[j]
			}
			nz.d[i][j] = v
		}
	}
	for _, q := range z.neq {
		if r, ok := ren(q); ok {
			nz.neq = append(nz.neq, r)
		}
	}
	nz.bad = z.bad
	z = nz
	n.zone = z
	return c.key.String(), n
}

// pairs of locations of the variables of the loop being entered: their sums
// are related to the others
func (c *canon) pairs() (r [][2]int) {
	for i, x := range c.phis {
		for _, y := range c.phis[i+1:] {
			if x[1] != y[1] {
				r = append(r, [2]int{x[0], y[0]})
			}
		}
	}
	return
}

func (e *Engine) tmpSym(i int) Sym {
	for len(e.tmps) <= i {
		e.tmps = append(e.tmps, e.symByName("~t"+strconv.Itoa(len(e.tmps))))
	}
	return e.tmps[i]
}
func (e *Engine) locSym(i int) Sym {
	for len(e.locsS) <= i {
		e.locsS = append(e.locsS, e.symByName("~"+strconv.Itoa(len(e.locsS))))
	}
	return e.locsS[i]
}
func (e *Engine) canonObj(i int) ObjID {
	for len(e.canonO) <= i {
		e.nobj++
		e.canonO = append(e.canonO, ObjID(e.nobj))
	}
	return e.canonO[i]
}

func sortedEnv(m map[ssa.Value]Val) []ssa.Value {
	r := make([]ssa.Value, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for v := range m {
		r = append(r, v)
	}
	sort.Strings(r)
	return r
}

func (c *canon) loc(l Lin) {
	c.key.WriteString("i")
	c.locs = append(c.locs, l)
}

func (c *canon) obj(id ObjID) {
	o := c.e.get(c.st, id)
	if o.name != "" {
		c.key.WriteString("@" + o.name)
		return
	}
	n, ok := c.objMap[id]
	if !ok {
		n = ObjID(len(c.order))
		c.objMap[id] = n
		c.order = append(c.order, id)
	}
	fmt.Fprintf(&c.key, "#%d", n)
}

func (c *canon) shape(v Val) {
	switch x := v.(type) {
	case nil:
		c.key.WriteString("_")
	case IntV:
		c.loc(x.l)
	case BoolV:
		switch c.e.decide(c.st, x.f) {
		case yes:
			c.key.WriteString("T")
		case no:
			c.key.WriteString("F")
		default:
			if x.f.op == fPred && x.f.pred.name == "sym" {
				if x.f.neg {
					c.key.WriteString("!")
				}
				c.key.WriteString("b")
				c.shape(x.f.pred.args[0])
			} else {
				c.key.WriteString("b?")
			}
		}
	case StrV:
		if x.obj == 0 {
			c.key.WriteString(strconv.Quote(x.s))
		} else {
			c.key.WriteString("S")
			c.obj(x.obj)
			c.loc(x.lo)
			c.loc(x.hi)
		}
	case PtrV:
		c.key.WriteString("&")
		c.obj(x.obj)
		if x.elem != nil {
			c.loc(*x.elem)
		}
		for _, i := range x.path {
			fmt.Fprintf(&c.key, ".%d", i)
		}
	case RefV:
		c.obj(x.obj)
	case NilV:
		c.key.WriteString("nil")
	case IfaceV:
		c.key.WriteString("I{" + x.typ.String() + " ")
		c.shape(x.val)
		c.key.WriteString("}")
	case SliceV:
		c.key.WriteString("[")
		c.obj(x.arr)
		c.loc(x.off)
		c.loc(x.len)
		c.key.WriteString("]")
	case FuncV:
		if x.fn != nil {
			c.key.WriteString("f:" + x.fn.String())
		} else {
			c.key.WriteString("n:" + x.native)
		}
		for _, b := range x.binds {
			c.key.WriteString(",")
			c.shape(b)
		}
	case TupleV:
		c.key.WriteString("(")
		for _, y := range x.v {
			c.shape(y)
			c.key.WriteString(",")
		}
		c.key.WriteString(")")
	case StructV:
		c.key.WriteString("{" + x.name)
		for _, y := range x.f {
			c.shape(y)
			c.key.WriteString(",")
		}
		c.key.WriteString("}")
	default:
		panic(engineErr(fmt.Sprintf("shape of %T", v)))
	}
}

// keepElem: entries of a re-readable array at transient indices are dropped.
func (c *canon) keepElem(o *Obj, x elemEnt) bool {
	return c.e.linNamed(x.idx)
}
func (c *canon) keepEntry(o *Obj, m mapEnt) bool {
	switch k := m.k.(type) {
	case StrV:
		if k.obj == 0 {
			return true
		}
		k = c.e.canonStr(c.st, k)
		return c.e.get(c.st, k.obj).name != "" && c.e.linNamed(k.lo) && c.e.linNamed(k.hi)
	case IntV:
		return c.e.linNamed(k.l)
	}
	return false
}

func (c *canon) shapeObj(o *Obj) {
	fmt.Fprintf(&c.key, "%d %v %v %v", o.kind, c.symAfter(o), o.fresh, o.written)
	if o.typ != nil {
		c.key.WriteString(o.typ.String())
	}
	if o.v != nil {
		c.key.WriteString(" v=")
		c.shape(o.v)
	}
	for _, x := range o.elems {
		if c.keepElem(o, x) {
			c.key.WriteString(" [" + x.idx.key() + "]=")
			c.shape(x.v)
		}
	}
	for _, m := range o.entries {
		if c.keepEntry(o, m) {
			fmt.Fprintf(&c.key, " {%v ", m.present)
			c.shape(m.k)
			c.shape(m.v)
			c.key.WriteString("}")
		}
	}
	if o.kind == OStr {
		c.loc(o.slen)
	}
	for _, k := range sortedKeys(o.virt) {
		if o.name == "" {
			c.key.WriteString(" ~" + k + "=")
			c.shape(o.virt[k])
		}
	}
	if o.lost || c.loses(o) {
		c.key.WriteString(" lost")
	}
	if o.tag != nil {
		c.key.WriteString(" tag=" + o.tag.kind)
		for _, a := range o.tag.args {
			c.key.WriteString(",")
			c.shape(a)
		}
	}
}

// an array or map that loses entries becomes one with unknown content
func (c *canon) symAfter(o *Obj) bool {
	if o.sym {
		return true
	}
	if o.hasBase {
		return true
	}
	for _, x := range o.elems {
		if !c.keepElem(o, x) {
			return true
		}
	}
	for _, m := range o.entries {
		if !c.keepEntry(o, m) {
			return true
		}
	}
	return false
}

// loses: content written to o is forgotten, what is read from it later is not
// its initial content
func (c *canon) loses(o *Obj) bool {
	if !o.written && !o.fresh {
		return false
	}
	if o.hasBase {
		return true
	}
	for _, x := range o.elems {
		if !c.keepElem(o, x) {
			return true
		}
	}
	for _, m := range o.entries {
		if !c.keepEntry(o, m) {
			return true
		}
	}
	return false
}

func (c *canon) rebuildObj(o *Obj, id ObjID, cnt *int) *Obj {
	n := *o
	n.id = id
	n.sym = c.symAfter(o)
	n.lost = o.lost || c.loses(o)
	n.hasBase = false
	n.base, n.baseOff, n.baseN = 0, Lin{}, Lin{}
	if o.v != nil {
		n.v = c.rebuild(o.v, cnt)
	}
	n.elems = nil
	for _, x := range o.elems {
		if c.keepElem(o, x) {
			n.elems = append(n.elems, elemEnt{x.idx, c.rebuild(x.v, cnt)})
		}
	}
	n.entries = nil
	for _, m := range o.entries {
		if c.keepEntry(o, m) {
			k := c.rebuild(m.k, cnt)
			v := c.rebuild(m.v, cnt)
			n.entries = append(n.entries, mapEnt{k, v, m.present})
		}
	}
	if o.kind == OStr {
		n.slen = c.rebuild(IntV{o.slen}, cnt).(IntV).l
	}
	n.virt = nil
	if o.name == "" && len(o.virt) > 0 {
		n.virt = map[string]Val{}
		for _, k := range sortedKeys(o.virt) {
			n.virt[k] = c.rebuild(o.virt[k], cnt)
		}
	}
	if o.tag != nil {
		t := &Tag{kind: o.tag.kind}
		for _, a := range o.tag.args {
			t.args = append(t.args, c.rebuild(a, cnt))
		}
		n.tag = t
	}
	return &n
}

func (c *canon) newID(id ObjID) ObjID {
	if k, ok := c.objMap[id]; ok {
		return c.e.canonObj(int(k))
	}
	return id
}

func (c *canon) rebuild(v Val, cnt *int) Val {
	next := func() Lin {
		l := linSym(c.e.locSym(*cnt))
		*cnt++
		return l
	}
	switch x := v.(type) {
	case IntV:
		return IntV{next()}
	case BoolV:
		switch c.e.decide(c.st, x.f) {
		case yes:
			return BoolV{fBool(true)}
		case no:
			return BoolV{fBool(false)}
		}
		if x.f.op == fPred && x.f.pred.name == "sym" {
			return BoolV{&Form{op: fPred, neg: x.f.neg, pred: &Pred{"sym", []Val{c.rebuild(x.f.pred.args[0], cnt)}}}}
		}
		return BoolV{c.e.opaqueForm(c.n, "b")}
	case StrV:
		if x.obj == 0 {
			return x
		}
		lo := next()
		hi := next()
		return StrV{obj: c.newID(x.obj), lo: lo, hi: hi}
	case PtrV:
		n := PtrV{obj: c.newID(x.obj), path: x.path}
		if x.elem != nil {
			l := next()
			n.elem = &l
		}
		return n
	case RefV:
		return RefV{c.newID(x.obj)}
	case IfaceV:
		return IfaceV{x.typ, c.rebuild(x.val, cnt)}
	case SliceV:
		off := next()
		ln := next()
		return SliceV{c.newID(x.arr), off, ln}
	case FuncV:
		n := FuncV{fn: x.fn, native: x.native}
		for _, b := range x.binds {
			n.binds = append(n.binds, c.rebuild(b, cnt))
		}
		return n
	case TupleV:
		n := TupleV{}
		for _, b := range x.v {
			n.v = append(n.v, c.rebuild(b, cnt))
		}
		return n
	case StructV:
		n := StructV{typ: x.typ, name: x.name}
		for _, b := range x.f {
			if b == nil {
				n.f = append(n.f, nil)
			} else {
				n.f = append(n.f, c.rebuild(b, cnt))
			}
		}
		return n
	}
	return v
}

// renameVal renames a value that is not itself a location (predicate
// arguments); the result is over temporary symbols.
func (c *canon) renameVal(v Val) (Val, bool) {
	lin := func(l Lin) (Lin, bool) {
		r := l.subst(func(s Sym) (Lin, bool) { x, ok := c.symTo[s]; return x, ok })
		for _, t := range r.t {
			if c.e.symAnon[t.s] {
				if _, ok := c.tmpIndex(t.s); !ok {
					return r, false
				}
			}
		}
		return r, true
	}
	id := func(o ObjID) (ObjID, bool) {
		if k, ok := c.objMap[o]; ok {
			return c.e.canonObj(int(k)), true
		}
		return o, c.e.get(c.st, o).name != ""
	}
	switch x := v.(type) {
	case IntV:
		l, ok := lin(x.l)
		return IntV{l}, ok
	case StrV:
		if x.obj == 0 {
			return x, true
		}
		o, ok := id(x.obj)
		lo, ok1 := lin(x.lo)
		hi, ok2 := lin(x.hi)
		return StrV{obj: o, lo: lo, hi: hi}, ok && ok1 && ok2
	case PtrV:
		o, ok := id(x.obj)
		n := PtrV{obj: o, path: x.path}
		if x.elem != nil {
			l, ok1 := lin(*x.elem)
			n.elem = &l
			ok = ok && ok1
		}
		return n, ok
	case RefV:
		o, ok := id(x.obj)
		return RefV{o}, ok
	case IfaceV:
		n, ok := c.renameVal(x.val)
		return IfaceV{x.typ, n}, ok
	case NilV:
		return x, true
	}
	return v, false
}

func (c *canon) tmpIndex(s Sym) (int, bool) {
	for i := range c.locs {
		if c.e.tmpSym(i) == s {
			return i, true
		}
	}
	return 0, false
}

func (e *Engine) untmpPred(p Pred, n int) Pred {
	m := map[Sym]Lin{}
	for i := 0; i < n; i++ {
		m[e.tmpSym(i)] = linSym(e.locSym(i))
	}
	lin := func(l Lin) Lin { return l.subst(func(s Sym) (Lin, bool) { x, ok := m[s]; return x, ok }) }
	var ren func(v Val) Val
	ren = func(v Val) Val {
		switch x := v.(type) {
		case IntV:
			return IntV{lin(x.l)}
		case StrV:
			x.lo, x.hi = lin(x.lo), lin(x.hi)
			return x
		case PtrV:
			if x.elem != nil {
				l := lin(*x.elem)
				x.elem = &l
			}
			return x
		case IfaceV:
			x.val = ren(x.val)
			return x
		}
		return v
	}
	r := Pred{name: p.name}
	for _, a := range p.args {
		r.args = append(r.args, ren(a))
	}
	return r
}
