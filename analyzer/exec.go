package main

// The interpreter: runs SSA over abstract states to a fixpoint at loop heads.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	e      *Engine
	st     *State
	fn     *ssa.Function // statically known callee, or nil
	method string        // interface method name when fn is nil
	recv   Val
	args   []Val // without the receiver for interface calls, with it for static ones
	site   ssa.Instruction
	pos    token.Pos
	sig    *types.Signature
}

type Tail struct {
	fn    Val
	args  []Val
	after func(e *Engine, st *State, ret Val) []Result
}

type Result struct {
	st    *State
	ret   Val
	panic string
	tail  *Tail
}

type Hook func(c *CallCtx) []Result

type Outcome struct {
	st    *State
	ret   Val
	panic string // "" normal; "explicit: ..." or "runtime: ..."
	pos   token.Pos
}

type Violation struct {
	rule string
	what string
	pos  string
	fn   string // enclosing function
	path []string
}

type headEnt struct {
	st    *State
	n     int
	clone bool
}

type Engine struct {
	appends          int                       // appended elements seen by a monitor
	errHook          func(c *CallCtx) []Result // static callees, before anything else
	unknownRecursion bool                      // recursive calls return unknown results
	p                *Prog

	nsym    int
	symIdx  map[string]Sym
	symNm   map[Sym]string
	symAnon map[Sym]bool
	nobj    int
	objIdx  map[string]ObjID
	protos  map[ObjID]*Obj
	liveC   map[*ssa.Function]*liveInfo
	tmps    []Sym
	locsS   []Sym
	canonO  []ObjID

	OnMaterialize   func(e *Engine, st *State, s StructV, i int, name string, v Val) Val
	mkSkolems       []Lin           // the same for new arrays
	skolems         map[ObjID][]Lin // indices of named arrays accesses are always compared with
	ordered         map[ObjID]bool  // whether the comparison tells which side
	unmodelled      map[string]bool // not nil: note calls of unknown functions, but these
	OnElem          func(e *Engine, st *State, o *Obj, idx Lin, v Val) Val
	OnAssume        func(e *Engine, st *State, f *Form, val bool)
	OnAppend        func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos token.Pos)
	OnStore         func(e *Engine, st *State, p PtrV, v Val, pos token.Pos)
	OnMapGet        func(e *Engine, st *State, m *Obj, k, v Val) Val
	OnMapAbsent     func(e *Engine, st *State, m *Obj, k Val) bool           // false: the key cannot be absent
	OnMapNext       func(e *Engine, st *State, m *Obj, k Val, pos token.Pos) // iterations; k nil: the end
	OnMapSet        func(e *Engine, st *State, m *Obj, k, v Val, pos token.Pos)
	OnReturn        func(e *Engine, st *State, fn *ssa.Function, ret Val)
	OnNextRune      func(e *Engine, st *State, s StrV, pos Lin, r Val)
	OnByte          func(e *Engine, st *State, s StrV, pos Lin, r Val)
	OnSub           func(e *Engine, st *State, s StrV, pos token.Pos)
	noMerge         bool // unrolled rounds are never merged
	OnHead          func(e *Engine, st *State)
	OnView          func(e *Engine, st *State, id ObjID, t types.Type, v Val)
	abstractMethods map[string]bool
	StrictNil       bool // unknown nilness of pointers is an obligation too

	hooks        map[string]Hook
	ifHooks      map[string]Hook
	dynHook      func(c *CallCtx) []Result // calls of symbolic function values
	inline       func(fn *ssa.Function) bool
	pairs        bool // relate sums of loop variables at loop heads
	unroll       int  // first visits of a loop head that are kept apart
	wholeMaps    bool // maps have the entries listed only
	recDepth     int  // recursive calls that are followed
	inlineText   bool // run functions that only produce text too
	inlineConcat bool // including those that only put texts together
	eff          *Effects
	work         []*State
	heads        map[string]*headEnt
	out          []Outcome
	viol         []Violation
	violSeen     map[string]bool
	undec        []string

	steps, maxSteps, forks, joins int
	maxDepth                      int
	visited                       map[*ssa.BasicBlock]bool
	obl                           map[string]int // obligations checked, by rule
	sites                         map[string]bool
}

func newEngine(p *Prog) *Engine {
	e := &Engine{p: p, symIdx: map[string]Sym{}, symNm: map[Sym]string{}, symAnon: map[Sym]bool{}, objIdx: map[string]ObjID{},
		protos: map[ObjID]*Obj{}, liveC: map[*ssa.Function]*liveInfo{}, hooks: map[string]Hook{}, ifHooks: map[string]Hook{},
		heads: map[string]*headEnt{}, violSeen: map[string]bool{}, maxSteps: 3000000, maxDepth: 40,
		visited: map[*ssa.BasicBlock]bool{}, obl: map[string]int{}, sites: map[string]bool{}}
	return e
}

func newState() *State {
	return &State{heap: map[ObjID]*Obj{}, zone: newZone(), nilF: map[ObjID]bool{}, typF: map[ObjID]*typeFact{},
		preds: map[string]predFact{}, ghost: map[string]Val{}}
}

func (e *Engine) undecided(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range e.undec {
		if x == s {
			return
		}
	}
	e.undec = append(e.undec, s)
}

func (e *Engine) path(st *State) []string {
	var r []string
	for t := st.trace; t != nil && len(r) < 40; t = t.up {
		s := e.p.pos(t.pos)
		if t.msg != "" {
			s += " " + t.msg
		}
		r = append(r, s)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

var objNum = regexp.MustCompile(`#[0-9]+`)

// Violate reports a broken obligation.
func (e *Engine) Violate(st *State, rule string, pos token.Pos, format string, a ...any) {
	what := fmt.Sprintf(format, a...)
	k := rule + "|" + e.p.pos(pos) + "|" + objNum.ReplaceAllString(what, "")
	if e.violSeen[k] || st != nil && st.zone.infeasible() {
		return
	}
	e.violSeen[k] = true
	v := Violation{rule: rule, what: what, pos: e.p.pos(pos), fn: e.p.fnAt(pos)}
	if st != nil {
		v.path = e.path(st)
	}
	e.viol = append(e.viol, v)
}

// Check counts an obligation and reports it when broken.
func (e *Engine) Check(st *State, ok bool, rule string, pos token.Pos, format string, a ...any) bool {
	e.obl[rule]++
	if !ok {
		e.Violate(st, rule, pos, format, a...)
	}
	return ok
}

func (e *Engine) push(st *State) {
	if !st.dead && !st.zone.bad {
		e.work = append(e.work, st)
	}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Run interprets fn(args) from st and returns the outcomes.
func (e *Engine) Run(st *State, fn *ssa.Function, args []Val, binds []Val) []Outcome {
	e.out = nil
	e.heads = map[string]*headEnt{}
	if !e.enter(st, fn, args, binds, nil, nil) {
		return e.out
	}
	e.work = []*State{st}
	for len(e.work) > 0 {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		if e.steps > e.maxSteps {
			e.undecided("step limit reached in %s", short(fn))
			break
		}
		e.execSafe(s)
	}
	return e.out
}

func (e *Engine) execSafe(st *State) {
	defer func() {
		if r := recover(); r != nil {
			ee, ok := r.(engineErr)
			if !ok {
				panic(r)
			}
			where := ""
			if len(st.frames) > 0 {
				f := st.top()
				where = short(f.fn)
				if f.pc < len(f.block.Instrs) {
					where += " at " + e.p.pos(f.block.Instrs[f.pc].Pos()) + " " + f.block.Instrs[f.pc].String()
				}
			}
			if debugHeads {
				debug.PrintStack()
			}
			e.undecided("%s: %s", where, string(ee))
		}
	}()
	e.exec(st)
}

func (e *Engine) enter(st *State, fn *ssa.Function, args []Val, binds []Val, call ssa.Instruction, after func(e *Engine, st *State, ret Val) []Result) bool {
	if len(fn.Blocks) == 0 {
		e.undecided("no body: %s", short(fn))
		return false
	}
	if len(st.frames) >= e.maxDepth {
		e.undecided("call depth limit in %s", short(fn))
		return false
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], call: call, after: after}
	if len(args) != len(fn.Params) {
		panic(engineErr(fmt.Sprintf("%s: %d args for %d params", short(fn), len(args), len(fn.Params))))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	st.frames = append(st.frames, f)
	e.visited[f.block] = true
	return true
}

func (e *Engine) panicOut(st *State, msg string, pos token.Pos) {
	if st.dead || st.zone.bad {
		return
	}
	e.out = append(e.out, Outcome{st: st, panic: msg, pos: pos})
}

func (e *Engine) val(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Global:
		name := "global:" + x.String()
		id, ok := e.objIdx[name]
		if !ok {
			o := e.namedObj(OCell, x.Type().(*types.Pointer).Elem(), name)
			o.tag = &Tag{kind: "global"}
			id = o.id
		}
		return PtrV{obj: id}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{native: "builtin " + x.Name()}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(engineErr("no value for " + v.Name() + " in " + short(f.fn)))
}

func (e *Engine) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Slice); ok {
			return NilV{}
		}
		return e.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolV{fBool(constant.BoolVal(c.Value))}
	case constant.String:
		return StrV{s: constant.StringVal(c.Value)}
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			break
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return IntV{linConst(n)}
		}
	}
	return e.symVal(st, c.Type(), "const:"+c.Value.ExactString(), "const")
}

func (e *Engine) lin(v Val) Lin {
	if x, ok := v.(IntV); ok {
		return x.l
	}
	panic(engineErr(fmt.Sprintf("integer expected, %T", v)))
}

func (e *Engine) form(st *State, v Val) *Form {
	if x, ok := v.(BoolV); ok {
		return x.f
	}
	return e.opaqueForm(st, "b")
}

// asSlice views a value as a slice.
func (e *Engine) asSlice(st *State, v Val, t types.Type) SliceV {
	switch x := v.(type) {
	case SliceV:
		return x
	case NilV:
		et := types.Type(types.Typ[types.Int])
		if s, ok := t.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		o := e.newObj(OArray, et, "nil slice")
		st.heap[o.id] = o
		return SliceV{o.id, linConst(0), linConst(0)}
	}
	panic(engineErr(fmt.Sprintf("slice expected, %T", v)))
}

// strObj views a string value as a substring of an object.
func (e *Engine) strObj(st *State, s StrV) StrV {
	if s.obj != 0 {
		return s
	}
	name := "lit" + strconv.Quote(s.s)
	id, ok := e.objIdx[name]
	if !ok {
		o := e.namedObj(OStr, types.Typ[types.String], name)
		o.slen = linConst(int64(len(s.s)))
		o.tag = &Tag{"lit", []Val{StrV{s: s.s}}}
		id = o.id
	}
	return StrV{obj: id, lo: linConst(0), hi: linConst(int64(len(s.s)))}
}

func (e *Engine) normStr(st *State, s StrV) StrV {
	if s.obj == 0 {
		return s
	}
	o := e.get(st, s.obj)
	if o.tag != nil && o.tag.kind == "lit" {
		lo, ok1 := s.lo.isConst()
		hi, ok2 := s.hi.isConst()
		c := o.tag.args[0].(StrV).s
		if ok1 && ok2 && lo >= 0 && hi <= int64(len(c)) && lo <= hi {
			return StrV{s: c[lo:hi]}
		}
	}
	return s
}

func set(f *Frame, v ssa.Value, x Val) { f.env[v] = x }

// goTo moves the top frame to block b (entered from its current block).
// It returns false when the state was absorbed at a loop head.
func (e *Engine) goTo(st *State, b *ssa.BasicBlock) *State {
	f := st.top()
	pi := -1
	for i, p := range b.Preds {
		if p == f.block {
			pi = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.block, f.pc = b, n
	e.visited[b] = true
	if !e.live(f.fn).heads[b] {
		return st
	}
	// a condition carried around a loop in a variable: one state per value, so
	// that what it says about the other values is not lost when states are merged
	for i := 0; i < n; i++ {
		ph := b.Instrs[i].(*ssa.Phi)
		bv, ok := vals[i].(BoolV)
		if !ok || bv.f == nil || bv.f.op == fConst {
			continue
		}
		switch e.decide(st, bv.f) {
		case yes:
			f.env[ph] = BoolV{fBool(true)}
		case no:
			f.env[ph] = BoolV{fBool(false)}
		default:
			e.forks++
			o := st.clone()
			e.assume(o, bv.f, false)
			if !o.dead && !o.zone.bad {
				o.top().env[ph] = BoolV{fBool(false)}
				if o = e.atLoop(o, b); o != nil {
					e.push(o)
				}
			}
			e.assume(st, bv.f, true)
			if st.dead || st.zone.bad {
				return nil
			}
			f.env[ph] = BoolV{fBool(true)}
		}
		break
	}
	return e.atLoop(st, b)
}

// atLoop brings st to the head b of a loop.
func (e *Engine) atLoop(st *State, b *ssa.BasicBlock) *State {
	f := st.top()
	if e.unroll > 0 && f.visits[b] < e.unroll {
		m := map[*ssa.BasicBlock]int{b: 1}
		for k, n := range f.visits {
			if k == b {
				n++
			}
			m[k] = n
		}
		f.visits = m
		if e.noMerge {
			if e.OnHead != nil {
				e.OnHead(e, st)
			}
			return st
		}
	}
	return e.atHead(st)
}

func (e *Engine) atHead(st *State) *State {
	if e.OnHead != nil {
		e.OnHead(e, st)
	}
	key, ns := e.canonicalize(st)
	h := e.heads[key]
	if h != nil {
		dbgHead(e, key, h.st.zone, ns.zone)
	} else {
		dbgHead(e, key, nil, ns.zone)
	}
	if h == nil {
		e.heads[key] = &headEnt{st: ns.clone(), n: 1}
		return ns
	}
	h.n++
	z, ch := zoneJoin(h.st.zone, ns.zone, h.n > 3)
	e.joins++
	h.st.joined = true
	if !ch {
		return nil
	}
	if h.n > 5000 {
		e.undecided("no fixpoint at %s in %s", e.p.pos(st.top().block.Instrs[0].Pos()), short(st.top().fn))
		return nil
	}
	z.own = true
	h.st.zone = z
	n := h.st.clone()
	n.trace = st.trace
	return n
}

// deref checks the base of a memory access; nil result: the state ended.
func (e *Engine) deref(st *State, v Val, pos token.Pos) (PtrV, bool) {
	switch x := v.(type) {
	case PtrV:
		switch e.nilness(st, x) {
		case yes:
			e.panicOut(st, "runtime: nil pointer dereference", pos)
			return PtrV{}, false
		case unk:
			o := e.get(st, x.obj)
			if o.mayNil || e.StrictNil {
				p := st.clone()
				p.nilF[x.obj] = true
				e.panicOut(p, "runtime: nil pointer dereference", pos)
			}
			st.nilF[x.obj] = false
		}
		return x, true
	case NilV:
		e.panicOut(st, "runtime: nil pointer dereference", pos)
		return PtrV{}, false
	}
	panic(engineErr(fmt.Sprintf("dereference of %T", v)))
}

// splitIdx forks the state so that idx is equal to or different from every
// known element of o; it returns false when it forked (instruction re-executed).
func (e *Engine) splitIdx(st *State, o *Obj, idx Lin) bool {
	at := e.skolems[o.id]
	for _, x := range o.elems {
		at = append(at[:len(at):len(at)], x.idx)
	}
	for _, x := range at {
		f := &Form{op: fEQ, lin: x.sub(idx)}
		if len(f.lin.t) == 0 {
			continue
		}
		d := e.decide(st, f)
		if d == no && e.ordered[o.id] && st.zone.ub(f.lin) >= 0 && st.zone.lb(f.lin) <= 0 {
			b := st.clone()
			e.assume(b, foldLE(f.lin.addc(1)), true)
			e.push(b)
			e.assume(st, foldLE(f.lin.neg().addc(1)), true)
			e.push(st)
			e.forks++
			return false
		}
		if d == unk {
			a := st.clone()
			e.assume(a, f, true)
			e.push(a)
			if e.ordered[o.id] {
				b := st.clone()
				e.assume(b, foldLE(x.sub(idx).addc(1)), true) // x < idx
				e.push(b)
				e.assume(st, foldLE(idx.sub(x).addc(1)), true)
				e.push(st)
				e.forks++
				return false
			}
			e.assume(st, f, false)
			e.push(st)
			e.forks++
			return false
		}
	}
	if o.hasBase {
		d := idx.sub(o.baseN)
		if st.zone.ub(d) >= 0 && st.zone.lb(d) < 0 {
			f := &Form{op: fLE, lin: d.addc(1)}
			a := st.clone()
			e.assume(a, f, true)
			e.push(a)
			e.assume(st, f, false)
			e.push(st)
			e.forks++
			return false
		}
		if st.zone.ub(d) < 0 {
			return e.splitIdx(st, e.get(st, o.base), idx.add(o.baseOff))
		}
	}
	return true
}

func (e *Engine) prepPtr(st *State, p PtrV) bool {
	if p.elem == nil {
		return true
	}
	return e.splitIdx(st, e.get(st, p.obj), *p.elem)
}

// inRange makes lo<=x (<=hi) hold, with a panicking branch otherwise.
func (e *Engine) require(st *State, f *Form, msg string, pos token.Pos) bool {
	switch e.decide(st, f) {
	case yes:
		return true
	case no:
		e.panicOut(st, "runtime: "+msg, pos)
		return false
	}
	if debugReq {
		println("REQUIRE", msg, e.p.pos(pos), e.showForm(st, f), "\n", st.zone.dump(e))
	}
	p := st.clone()
	e.assume(p, f, false)
	e.panicOut(p, "runtime: "+msg, pos)
	e.assume(st, f, true)
	return !st.dead
}

func le(a, b Lin) *Form { return &Form{op: fLE, lin: a.sub(b)} } // a <= b

func (e *Engine) exec(st *State) {
	for !st.dead && !st.zone.bad {
		e.steps++
		if e.steps > e.maxSteps {
			return
		}
		f := st.top()
		in := f.block.Instrs[f.pc]
		switch x := in.(type) {
		case *ssa.DebugRef:
			f.pc++
		case *ssa.Alloc:
			o := e.newObj(OCell, x.Type().(*types.Pointer).Elem(), x.Comment)
			o.fresh = true
			st.heap[o.id] = o
			set(f, x, PtrV{obj: o.id})
			f.pc++
		case *ssa.UnOp:
			if !e.unop(st, f, x) {
				return
			}
		case *ssa.BinOp:
			r, ok := e.binop(st, f, x)
			if !ok {
				return
			}
			set(f, x, r)
			f.pc++
		case *ssa.Phi:
			panic(engineErr("phi outside block entry"))
		case *ssa.FieldAddr:
			b := e.val(st, f, x.X)
			p, ok := e.deref(st, b, x.Pos())
			if !ok {
				return
			}
			np := PtrV{obj: p.obj, elem: p.elem, path: append(append([]int(nil), p.path...), x.Field)}
			set(f, x, np)
			f.pc++
		case *ssa.Field:
			s, ok := e.val(st, f, x.X).(StructV)
			if !ok {
				panic(engineErr("field of non struct"))
			}
			v, _, _ := e.structField(st, s, x.Field, "", "field")
			set(f, x, v)
			f.pc++
		case *ssa.IndexAddr:
			if !e.indexAddr(st, f, x) {
				return
			}
		case *ssa.Index:
			if !e.index(st, f, x) {
				return
			}
		case *ssa.Lookup:
			if !e.lookup(st, f, x) {
				return
			}
		case *ssa.Store:
			p, ok := e.deref(st, e.val(st, f, x.Addr), x.Pos())
			if !ok {
				return
			}
			if !e.prepPtr(st, p) {
				return
			}
			v := e.val(st, f, x.Val)
			if e.OnStore != nil {
				e.OnStore(e, st, p, v, x.Pos())
			}
			e.store(st, p, v)
			f.pc++
		case *ssa.MapUpdate:
			if !e.mapUpdate(st, f, x) {
				return
			}
		case *ssa.MakeMap:
			o := e.newObj(OMap, x.Type(), "map")
			o.fresh = true
			st.heap[o.id] = o
			set(f, x, RefV{o.id})
			f.pc++
		case *ssa.MakeSlice:
			l := e.lin(e.val(st, f, x.Len))
			if !e.require(st, le(linConst(0), l), "makeslice: len out of range", x.Pos()) {
				return
			}
			o := e.newObj(OArray, x.Type().Underlying().(*types.Slice).Elem(), "make")
			o.fresh = true
			st.heap[o.id] = o
			for _, k := range e.mkSkolems {
				e.elemSet(st, e.get(st, o.id), k, e.zeroVal(o.typ), false)
			}
			set(f, x, SliceV{o.id, linConst(0), l})
			f.pc++
		case *ssa.MakeChan:
			set(f, x, e.symVal(st, x.Type(), "", "chan"))
			f.pc++
		case *ssa.MakeClosure:
			fv := FuncV{fn: x.Fn.(*ssa.Function)}
			for _, b := range x.Bindings {
				fv.binds = append(fv.binds, e.val(st, f, b))
			}
			set(f, x, fv)
			f.pc++
		case *ssa.MakeInterface:
			set(f, x, e.makeIface(st, x.X.Type(), e.val(st, f, x.X)))
			f.pc++
		case *ssa.ChangeType:
			set(f, x, e.val(st, f, x.X))
			f.pc++
		case *ssa.ChangeInterface:
			set(f, x, e.val(st, f, x.X))
			f.pc++
		case *ssa.Convert:
			set(f, x, e.convert(st, x.X.Type(), x.Type(), e.val(st, f, x.X)))
			f.pc++
		case *ssa.TypeAssert:
			if !e.typeAssert(st, f, x) {
				return
			}
		case *ssa.Extract:
			t, ok := e.val(st, f, x.Tuple).(TupleV)
			if !ok {
				panic(engineErr("extract of non tuple"))
			}
			set(f, x, t.v[x.Index])
			f.pc++
		case *ssa.Slice:
			if !e.slice(st, f, x) {
				return
			}
		case *ssa.Range:
			o := e.newObj(OOpaque, types.Typ[types.Int], "iter")
			o.fresh = true
			v := e.val(st, f, x.X)
			if s, ok := v.(StrV); ok {
				o.v = TupleV{[]Val{e.strObj(st, s), IntV{linConst(0)}}}
			} else {
				o.v = TupleV{[]Val{v}}
			}
			st.heap[o.id] = o
			set(f, x, RefV{o.id})
			f.pc++
		case *ssa.Next:
			if !e.next(st, f, x) {
				return
			}
		case *ssa.Jump:
			n := e.goTo(st, f.block.Succs[0])
			if n == nil {
				return
			}
			st = n
		case *ssa.If:
			fm := e.form(st, e.val(st, f, x.Cond))
			switch e.decide(st, fm) {
			case yes:
				n := e.goTo(st, f.block.Succs[0])
				if n == nil {
					return
				}
				st = n
			case no:
				n := e.goTo(st, f.block.Succs[1])
				if n == nil {
					return
				}
				st = n
			default:
				e.forks++
				b := st.clone()
				bb := f.block
				e.assume(b, fm, false)
				if !b.dead {
					b.note(x.Cond.Pos(), "else")
					if n := e.goTo(b, bb.Succs[1]); n != nil {
						e.push(n)
					}
				}
				e.assume(st, fm, true)
				if st.dead {
					return
				}
				st.note(x.Cond.Pos(), "then")
				n := e.goTo(st, bb.Succs[0])
				if n == nil {
					return
				}
				st = n
			}
		case *ssa.Return:
			var ret Val
			switch len(x.Results) {
			case 0:
				ret = TupleV{}
			case 1:
				ret = e.val(st, f, x.Results[0])
			default:
				t := TupleV{}
				for _, r := range x.Results {
					t.v = append(t.v, e.val(st, f, r))
				}
				ret = t
			}
			if !e.ret(st, ret, x.Pos()) {
				return
			}
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.pc++
				break
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if d.method != nil {
				if !e.invoke(st, d.fn, d.method, d.args, in) {
					return
				}
				break
			}
			if !e.callVal(st, d.fn, d.args, in, nil) {
				return
			}
		case *ssa.Panic:
			v := e.val(st, f, x.X)
			e.panicOut(st, "explicit: "+e.show(st, v), x.Pos())
			return
		case *ssa.Defer:
			d := deferred{fn: e.val(st, f, x.Call.Value), site: x}
			if x.Call.IsInvoke() {
				d.method = x.Call.Method
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, e.val(st, f, a))
			}
			f.defers = append(f.defers, d)
			f.pc++
		case *ssa.Call:
			if !e.call(st, f, x) {
				return
			}
		default:
			panic(engineErr(fmt.Sprintf("unsupported instruction %T", in)))
		}
	}
}

// ret returns from the top frame. false: the state ended.
func (e *Engine) ret(st *State, ret Val, pos token.Pos) bool {
	f := st.top()
	if !pos.IsValid() {
		pos = f.fn.Pos()
	}
	if e.OnReturn != nil {
		e.OnReturn(e, st, f.fn, ret)
		if st.dead {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		if f.after != nil {
			for _, r := range f.after(e, st, ret) {
				if !r.st.dead && !r.st.zone.bad {
					if r.panic != "" {
						e.panicOut(r.st, r.panic, pos)
					} else {
						e.out = append(e.out, Outcome{st: r.st, ret: r.ret, pos: pos})
					}
				}
			}
			return false
		}
		e.out = append(e.out, Outcome{st: st, ret: ret, pos: pos})
		return false
	}
	if f.after != nil {
		return e.deliver(st, f.after(e, st, ret), f.call)
	}
	e.finish(st, f.call, ret)
	return true
}

func (e *Engine) finish(st *State, call ssa.Instruction, ret Val) {
	f := st.top()
	switch c := call.(type) {
	case *ssa.Call:
		f.env[c] = ret
		f.pc++
	case *ssa.RunDefers: // stay, next defer
	default:
		panic(engineErr("finish"))
	}
}

// deliver hands the results of a hook to the caller frame; the first live
// result continues in st.
func (e *Engine) deliver(st *State, rs []Result, site ssa.Instruction) bool {
	for _, r := range rs {
		if r.st.dead || r.st.zone.bad {
			continue
		}
		if r.panic != "" {
			e.panicOut(r.st, r.panic, site.Pos())
			continue
		}
		if r.tail != nil {
			if e.callVal(r.st, r.tail.fn, r.tail.args, site, r.tail.after) {
				e.push(r.st)
			}
			continue
		}
		e.finish(r.st, site, r.ret)
		e.push(r.st)
	}
	return false
}

func (e *Engine) unop(st *State, f *Frame, x *ssa.UnOp) bool {
	v := e.val(st, f, x.X)
	switch x.Op {
	case token.MUL:
		if _, isOpaque := v.(RefV); isOpaque {
			set(f, x, e.symVal(st, x.Type(), "", "load"))
			f.pc++
			return true
		}
		p, ok := e.deref(st, v, x.Pos())
		if !ok {
			return false
		}
		if !e.prepPtr(st, p) {
			return false
		}
		set(f, x, e.load(st, p))
	case token.NOT:
		set(f, x, BoolV{e.form(st, v).not()})
	case token.SUB:
		if i, ok := v.(IntV); ok {
			set(f, x, IntV{i.l.neg()})
		} else {
			set(f, x, e.symVal(st, x.Type(), "", "neg"))
		}
	default:
		set(f, x, e.symVal(st, x.Type(), "", "unop"))
		if x.CommaOk {
			panic(engineErr("receive"))
		}
	}
	f.pc++
	return true
}

func (e *Engine) binop(st *State, f *Frame, x *ssa.BinOp) (Val, bool) {
	a, b := e.val(st, f, x.X), e.val(st, f, x.Y)
	switch x.Op {
	case token.EQL:
		return BoolV{e.eqForm(st, a, b)}, true
	case token.NEQ:
		return BoolV{e.eqForm(st, a, b).not()}, true
	}
	ia, oka := a.(IntV)
	ib, okb := b.(IntV)
	if oka && okb {
		switch x.Op {
		case token.ADD:
			return IntV{ia.l.add(ib.l)}, true
		case token.SUB:
			return IntV{ia.l.sub(ib.l)}, true
		case token.MUL:
			if c, ok := ia.l.isConst(); ok {
				return IntV{ib.l.scale(c)}, true
			}
			if c, ok := ib.l.isConst(); ok {
				return IntV{ia.l.scale(c)}, true
			}
		case token.LSS:
			return BoolV{foldLE(ia.l.sub(ib.l).addc(1))}, true
		case token.LEQ:
			return BoolV{foldLE(ia.l.sub(ib.l))}, true
		case token.GTR:
			return BoolV{foldLE(ib.l.sub(ia.l).addc(1))}, true
		case token.GEQ:
			return BoolV{foldLE(ib.l.sub(ia.l))}, true
		case token.QUO, token.REM, token.SHR, token.SHL, token.AND, token.OR, token.XOR, token.AND_NOT:
			ca, ok1 := ia.l.isConst()
			cb, ok2 := ib.l.isConst()
			if ok1 && ok2 {
				switch {
				case x.Op == token.QUO && cb != 0:
					return IntV{linConst(ca / cb)}, true
				case x.Op == token.REM && cb != 0:
					return IntV{linConst(ca % cb)}, true
				case x.Op == token.SHR && cb >= 0 && cb < 63:
					return IntV{linConst(ca >> uint(cb))}, true
				case x.Op == token.SHL && cb >= 0 && cb < 40:
					return IntV{linConst(ca << uint(cb))}, true
				case x.Op == token.AND:
					return IntV{linConst(ca & cb)}, true
				case x.Op == token.OR:
					return IntV{linConst(ca | cb)}, true
				}
			}
			if x.Op == token.QUO || x.Op == token.REM {
				if !e.require(st, &Form{op: fEQ, lin: ib.l, neg: true}, "division by zero", x.Pos()) {
					return nil, false
				}
			}
			r := linSym(e.freshSym("op"))
			if st.zone.lb(ia.l) >= 0 && ok2 && cb > 0 && (x.Op == token.QUO || x.Op == token.SHR) {
				st.zw().addLE(r.neg())
				st.zw().addLE(r.sub(ia.l))
				if st.zone.lb(ia.l) > 0 && (x.Op == token.SHR && cb >= 1 || x.Op == token.QUO && cb >= 2) {
					st.zw().addLE(r.sub(ia.l).addc(1))
				}
			}
			if x.Op == token.REM && ok2 && cb > 0 && st.zone.lb(ia.l) >= 0 {
				st.zw().addLE(r.neg())
				st.zw().addLE(r.addc(1 - cb))
			}
			return IntV{r}, true
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return BoolV{e.opaqueForm(st, "cmp")}, true
		}
		return IntV{linSym(e.freshSym("op"))}, true
	}
	sa, oka := a.(StrV)
	sb, okb := b.(StrV)
	if oka && okb {
		switch x.Op {
		case token.ADD:
			return e.concat(st, sa, sb), true
		default:
			if sa.obj == 0 && sb.obj == 0 {
				switch x.Op {
				case token.LSS:
					return BoolV{fBool(sa.s < sb.s)}, true
				case token.GTR:
					return BoolV{fBool(sa.s > sb.s)}, true
				case token.LEQ:
					return BoolV{fBool(sa.s <= sb.s)}, true
				case token.GEQ:
					return BoolV{fBool(sa.s >= sb.s)}, true
				}
			}
			return BoolV{&Form{op: fPred, pred: &Pred{"str" + x.Op.String(), []Val{sa, sb}}}}, true
		}
	}
	return e.symVal(st, x.Type(), "", "binop"), true
}

func foldLE(l Lin) *Form {
	if c, ok := l.isConst(); ok {
		return fBool(c <= 0)
	}
	return &Form{op: fLE, lin: l}
}

func (e *Engine) concat(st *State, a, b StrV) Val {
	if a.obj == 0 && b.obj == 0 {
		return StrV{s: a.s + b.s}
	}
	if a.obj == 0 && a.s == "" {
		return b
	}
	if b.obj == 0 && b.s == "" {
		return a
	}
	if a.obj == b.obj {
		if d := a.hi.sub(b.lo); st.zone.ub(d) == 0 && st.zone.lb(d) == 0 {
			return StrV{obj: a.obj, lo: a.lo, hi: b.hi}
		}
	}
	s := e.symStr(st, "", "concat")
	st.zw().addEQ(s.hi.sub(strLen(a)).sub(strLen(b)))
	if e.concatDepth(st, a) >= 12 || e.concatDepth(st, b) >= 12 {
		return s // text built in a loop
	}
	n := *e.get(st, s.obj)
	n.tag = &Tag{"concat", []Val{a, b}}
	st.heap[s.obj] = &n
	return s
}

func (e *Engine) concatDepth(st *State, s StrV) int {
	if s.obj == 0 {
		return 0
	}
	t := e.get(st, s.obj).tag
	if t == nil || t.kind != "concat" {
		return 0
	}
	return 1 + max(e.concatDepth(st, t.args[0].(StrV)), e.concatDepth(st, t.args[1].(StrV)))
}

func (e *Engine) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) bool {
	b := e.val(st, f, x.X)
	i := e.lin(e.val(st, f, x.Index))
	var s SliceV
	if p, ok := b.(PtrV); ok {
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			p2, ok := e.deref(st, p, x.Pos())
			if !ok {
				return false
			}
			s, ok = e.load(st, p2).(SliceV)
			if !ok {
				panic(engineErr("array cell"))
			}
			f = st.top()
		}
	} else {
		s = e.asSlice(st, b, x.X.Type())
	}
	if !e.require(st, le(linConst(0), i), "index out of range", x.Pos()) {
		return false
	}
	if !e.require(st, foldLE(i.addc(1).sub(s.len)), "index out of range", x.Pos()) {
		return false
	}
	idx := s.off.add(i)
	set(st.top(), x, PtrV{obj: s.arr, elem: &idx})
	st.top().pc++
	return true
}

func (e *Engine) index(st *State, f *Frame, x *ssa.Index) bool {
	b := e.val(st, f, x.X)
	i := e.lin(e.val(st, f, x.Index))
	switch s := b.(type) {
	case StrV:
		if !e.strIndex(st, x, s, i) {
			return false
		}
		return true
	case SliceV:
		if !e.require(st, le(linConst(0), i), "index out of range", x.Pos()) || !e.require(st, foldLE(i.addc(1).sub(s.len)), "index out of range", x.Pos()) {
			return false
		}
		idx := s.off.add(i)
		if !e.splitIdx(st, e.get(st, s.arr), idx) {
			return false
		}
		set(st.top(), x, e.elemGet(st, e.get(st, s.arr), idx))
		st.top().pc++
		return true
	}
	panic(engineErr("index"))
}

func (e *Engine) strIndex(st *State, x ssa.Value, s StrV, i Lin) bool {
	if !e.require(st, le(linConst(0), i), "index out of range", x.Pos()) || !e.require(st, foldLE(i.addc(1).sub(strLen(s))), "index out of range", x.Pos()) {
		return false
	}
	if c, ok := i.isConst(); ok && s.obj == 0 {
		set(st.top(), x, IntV{linConst(int64(s.s[c]))})
	} else {
		r := linSym(e.freshSym("byte"))
		st.zw().addLE(r.neg())
		st.zw().addLE(r.addc(-255))
		set(st.top(), x, IntV{r})
		if e.OnByte != nil && s.obj != 0 {
			e.OnByte(e, st, StrV{obj: s.obj, lo: s.lo.add(i), hi: s.lo.add(i).addc(1)}, i, IntV{r})
		}
	}
	st.top().pc++
	return true
}

func (e *Engine) slice(st *State, f *Frame, x *ssa.Slice) bool {
	b := e.val(st, f, x.X)
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		return e.lin(e.val(st, f, v))
	}
	if s, ok := b.(StrV); ok {
		n := strLen(s)
		lo, hi := get(x.Low, linConst(0)), get(x.High, n)
		if !e.require(st, foldLE(lo.neg()), "slice bounds out of range", x.Pos()) ||
			!e.require(st, foldLE(lo.sub(hi)), "slice bounds out of range", x.Pos()) ||
			!e.require(st, foldLE(hi.sub(n)), "slice bounds out of range", x.Pos()) {
			return false
		}
		cl, ok1 := lo.isConst()
		ch, ok2 := hi.isConst()
		var r Val
		if s.obj == 0 && ok1 && ok2 {
			r = StrV{s: s.s[cl:ch]}
		} else {
			o := e.strObj(st, s)
			r = e.normStr(st, StrV{obj: o.obj, lo: o.lo.add(lo), hi: o.lo.add(hi)})
			if e.OnSub != nil {
				e.OnSub(e, st, StrV{obj: o.obj, lo: o.lo.add(lo), hi: o.lo.add(hi)}, x.Pos())
			}
		}
		set(st.top(), x, r)
		st.top().pc++
		return true
	}
	var s SliceV
	if p, ok := b.(PtrV); ok {
		p2, ok := e.deref(st, p, x.Pos())
		if !ok {
			return false
		}
		s, ok = e.load(st, p2).(SliceV)
		if !ok {
			panic(engineErr("array cell"))
		}
	} else if _, isNil := b.(NilV); isNil {
		s = e.asSlice(st, b, x.X.Type())
	} else {
		s = e.asSlice(st, b, x.X.Type())
	}
	lo, hi := get(x.Low, linConst(0)), get(x.High, s.len)
	// hi may go up to the capacity; it is required to be within the length here
	// unless the array was made by the analysed code, whose extent is unknown
	if !e.require(st, foldLE(lo.neg()), "slice bounds out of range", x.Pos()) ||
		!e.require(st, foldLE(lo.sub(hi)), "slice bounds out of range", x.Pos()) {
		return false
	}
	if x.High != nil {
		if !e.require(st, foldLE(hi.sub(s.len)), "slice bounds out of range", x.Pos()) {
			return false
		}
	}
	set(st.top(), x, SliceV{s.arr, s.off.add(lo), hi.sub(lo)})
	st.top().pc++
	return true
}

// ---- maps

func (e *Engine) mapObj(st *State, v Val) (*Obj, bool) {
	switch x := v.(type) {
	case RefV:
		return e.get(st, x.obj), true
	case NilV:
		return nil, true
	}
	return nil, false
}

// mapSplit forks on the equality of k with known keys; -1 not among the known
// ones, -2 forked.
func (e *Engine) mapSplit(st *State, o *Obj, k Val) int {
	for i, m := range o.entries {
		fm := e.eqForm(st, m.k, k)
		switch e.decide(st, fm) {
		case yes:
			return i
		case unk:
			a := st.clone()
			e.assume(a, fm, true)
			e.push(a)
			e.assume(st, fm, false)
			e.push(st)
			e.forks++
			return -2
		}
	}
	return -1
}

func (e *Engine) lookup(st *State, f *Frame, x *ssa.Lookup) bool {
	b := e.val(st, f, x.X)
	k := e.val(st, f, x.Index)
	if s, ok := b.(StrV); ok {
		return e.strIndex(st, x, s, e.lin(k))
	}
	o, ok := e.mapObj(st, b)
	if !ok {
		panic(engineErr("lookup"))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	fin := func(s *State, v Val, present bool) {
		if x.CommaOk {
			set(s.top(), x, TupleV{[]Val{v, BoolV{fBool(present)}}})
		} else {
			set(s.top(), x, v)
		}
		s.top().pc++
	}
	if o != nil && e.nilness(st, b) == yes {
		o = nil
	}
	if o == nil {
		fin(st, e.zeroVal(mt.Elem()), false)
		return true
	}
	i := e.mapSplit(st, o, k)
	if i == -2 {
		return false
	}
	o = e.get(st, o.id)
	if i >= 0 {
		m := o.entries[i]
		if m.present {
			fin(st, m.v, true)
		} else {
			fin(st, e.zeroVal(mt.Elem()), false)
		}
		return true
	}
	if !o.sym {
		fin(st, e.zeroVal(mt.Elem()), false)
		return true
	}
	// unknown: present or absent
	a := st.clone()
	n := *e.get(a, o.id)
	n.entries = append(append([]mapEnt(nil), n.entries...), mapEnt{k, nil, false})
	a.heap[o.id] = &n
	fin(a, e.zeroVal(mt.Elem()), false)
	if e.OnMapAbsent == nil || e.OnMapAbsent(e, a, e.get(a, o.id), k) {
		e.push(a)
		e.forks++
	}
	name := ""
	if o.name != "" && !o.lost {
		if s, ok := k.(StrV); ok {
			if s.obj == 0 {
				name = o.name + "[" + strconv.Quote(s.s) + "]"
			} else if so := e.get(st, s.obj); so.name != "" && s.lo.equal(linConst(0)) && s.hi.equal(so.slen) {
				name = o.name + "[" + so.name + "]"
			}
		}
		if s, ok := k.(IntV); ok && e.linNamed(s.l) {
			name = o.name + "[" + e.linStr(s.l) + "]"
		}
	}
	v := e.symVal(st, mt.Elem(), name, o.site+"[k]")
	if id := objOf(v); id != 0 {
		no := *e.get(st, id)
		if no.tag == nil {
			no.tag = &Tag{"mapelem", []Val{RefV{o.id}, k}}
			st.heap[id] = &no
		}
	}
	if e.OnMapGet != nil {
		v = e.OnMapGet(e, st, e.get(st, o.id), k, v)
	}
	m := *e.get(st, o.id)
	m.entries = append(append([]mapEnt(nil), m.entries...), mapEnt{k, v, true})
	st.heap[o.id] = &m
	fin(st, v, true)
	return true
}

func (e *Engine) mapUpdate(st *State, f *Frame, x *ssa.MapUpdate) bool {
	b := e.val(st, f, x.Map)
	k, v := e.val(st, f, x.Key), e.val(st, f, x.Value)
	o, ok := e.mapObj(st, b)
	if !ok {
		panic(engineErr("map update"))
	}
	if o == nil || e.nilness(st, b) == yes {
		e.panicOut(st, "runtime: assignment to entry in nil map", x.Pos())
		return false
	}
	i := e.mapSplit(st, o, k)
	if i == -2 {
		return false
	}
	if e.OnMapSet != nil {
		e.OnMapSet(e, st, e.get(st, o.id), k, v, x.Pos())
		if st.dead {
			return false
		}
	}
	n := *e.get(st, o.id)
	n.entries = append([]mapEnt(nil), n.entries...)
	if i >= 0 {
		n.entries[i] = mapEnt{n.entries[i].k, v, true}
	} else {
		n.entries = append(n.entries, mapEnt{k, v, true})
	}
	n.written = true
	st.heap[o.id] = &n
	f.pc++
	return true
}

func (e *Engine) next(st *State, f *Frame, x *ssa.Next) bool {
	r := e.val(st, f, x.Iter).(RefV)
	it := e.get(st, r.obj)
	tv := it.v.(TupleV)
	if x.IsString {
		s := tv.v[0].(StrV)
		pos := tv.v[1].(IntV).l
		n := strLen(s)
		end := foldLE(n.sub(pos)) // n <= pos
		d := e.decide(st, end)
		if d != no {
			a := st
			if d == unk {
				a = st.clone()
				e.assume(a, end, true)
			}
			if !a.dead {
				set(a.top(), x, TupleV{[]Val{BoolV{fBool(false)}, IntV{linConst(0)}, IntV{linConst(0)}}})
				a.top().pc++
				e.push(a)
			}
			if d == yes {
				return false
			}
		}
		e.assume(st, end, false)
		w := linSym(e.freshSym("w"))
		z := st.zw()
		z.addLE(w.neg().addc(1))
		z.addLE(w.addc(-4))
		z.addLE(pos.add(w).sub(n))
		rn := linSym(e.freshSym("rune"))
		z.addLE(rn.neg())
		no := *it
		no.v = TupleV{[]Val{s, IntV{pos.add(w)}}}
		st.heap[r.obj] = &no
		rv := IntV{rn}
		if e.OnNextRune != nil {
			e.OnNextRune(e, st, StrV{obj: s.obj, lo: s.lo.add(pos), hi: s.lo.add(pos).add(w)}, pos, rv)
		}
		set(st.top(), x, TupleV{[]Val{BoolV{fBool(true)}, IntV{pos}, rv}})
		st.top().pc++
		e.push(st)
		return false
	}
	// map
	o, _ := e.mapObj(st, tv.v[0])
	stop := func(a *State) {
		t := x.Type().(*types.Tuple)
		set(a.top(), x, TupleV{[]Val{BoolV{fBool(false)}, e.zeroVal2(a, t.At(1).Type()), e.zeroVal2(a, t.At(2).Type())}})
		a.top().pc++
		if e.OnMapNext != nil && o != nil {
			e.OnMapNext(e, a, e.get(a, o.id), nil, x.Pos())
		}
		e.push(a)
	}
	if o == nil || (!o.sym && len(o.entries) == 0) {
		stop(st)
		return false
	}
	if e.wholeMaps { // every entry is listed: they come in another order
		i := linConst(0)
		if len(tv.v) > 1 {
			i = tv.v[1].(IntV).l
		}
		n := int(i.c)
		var there []mapEnt
		for _, m := range o.entries {
			if m.present {
				there = append([]mapEnt{m}, there...)
			}
		}
		if n >= len(there) {
			stop(st)
			return false
		}
		no := *it
		no.v = TupleV{[]Val{tv.v[0], IntV{i.addc(1)}}}
		st.heap[r.obj] = &no
		set(st.top(), x, TupleV{[]Val{BoolV{fBool(true)}, there[n].k, there[n].v}})
		st.top().pc++
		e.push(st)
		return false
	}
	stop(st.clone())
	t := o.typ.Underlying().(*types.Map)
	for _, m := range o.entries {
		if m.present {
			a := st.clone()
			if e.OnMapNext != nil {
				e.OnMapNext(e, a, e.get(a, o.id), m.k, x.Pos())
			}
			set(a.top(), x, TupleV{[]Val{BoolV{fBool(true)}, m.k, m.v}})
			a.top().pc++
			e.push(a)
		}
	}
	if o.sym {
		k := e.symVal(st, t.Key(), "", "key")
		v := e.symVal(st, t.Elem(), "", "mapval")
		if id := objOf(v); id != 0 {
			no := *e.get(st, id)
			if no.tag == nil {
				no.tag = &Tag{"mapelem", []Val{RefV{o.id}, k}}
				st.heap[id] = &no
			}
		}
		if e.OnMapGet != nil {
			v = e.OnMapGet(e, st, e.get(st, o.id), k, v)
		}
		if e.OnMapNext != nil {
			e.OnMapNext(e, st, e.get(st, o.id), k, x.Pos())
		}
		set(st.top(), x, TupleV{[]Val{BoolV{fBool(true)}, k, v}})
		st.top().pc++
		e.push(st)
	}
	return false
}

func (e *Engine) zeroVal2(st *State, t types.Type) Val {
	if t == nil {
		return NilV{}
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return e.zeroVal(t)
}

// ---- interfaces

func (e *Engine) makeIface(st *State, t types.Type, v Val) Val {
	if types.IsInterface(t) {
		return v
	}
	if id := objOf(v); id != 0 {
		o := e.get(st, id)
		if o.tag != nil && o.tag.kind == "dyn" && types.Identical(t, o.tag.args[1].(StructV).typ) && !o.written {
			if s, ok := v.(StrV); !ok || (s.lo.equal(linConst(0)) && s.hi.equal(o.slen)) {
				return o.tag.args[0]
			}
		}
	}
	return IfaceV{t, v}
}

// view is the concrete value of symbolic interface object o, of type t.
func (e *Engine) view(st *State, id ObjID, t types.Type) Val {
	o := e.get(st, id)
	key := "view:" + t.String()
	if v, ok := o.virt[key]; ok {
		return v
	}
	name := ""
	if o.name != "" {
		name = o.name + ".(" + types.TypeString(t, shortQual) + ")"
	}
	v := e.symVal(st, t, name, o.site+".("+types.TypeString(t, shortQual)+")")
	if vid := objOf(v); vid != 0 {
		n := *e.get(st, vid)
		n.tag = &Tag{"dyn", []Val{RefV{id}, StructV{typ: t}}}
		st.heap[vid] = &n
		if _, ok := t.Underlying().(*types.Pointer); ok {
			if e.OnView != nil {
				e.OnView(e, st, id, t, v)
			}
		}
	}
	e.setVirt(st, id, key, v)
	return v
}

func (e *Engine) setVirt(st *State, id ObjID, key string, v Val) {
	n := *e.get(st, id)
	m := make(map[string]Val, len(n.virt)+1)
	for k, x := range n.virt {
		m[k] = x
	}
	m[key] = v
	n.virt = m
	st.heap[id] = &n
}

func (e *Engine) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) bool {
	v := e.val(st, f, x.X)
	T := x.AssertedType
	good := func(s *State, r Val) {
		if x.CommaOk {
			set(s.top(), x, TupleV{[]Val{r, BoolV{fBool(true)}}})
		} else {
			set(s.top(), x, r)
		}
		s.top().pc++
	}
	bad := func(s *State) bool {
		if x.CommaOk {
			set(s.top(), x, TupleV{[]Val{e.zeroVal(T), BoolV{fBool(false)}}})
			s.top().pc++
			return true
		}
		e.panicOut(s, "runtime: interface conversion fails", x.Pos())
		return false
	}
	switch y := v.(type) {
	case NilV:
		return bad(st)
	case IfaceV:
		if it, ok := T.Underlying().(*types.Interface); ok {
			if types.Implements(y.typ, it) {
				good(st, y)
				return true
			}
			return bad(st)
		}
		if types.Identical(y.typ, T) {
			good(st, y.val)
			return true
		}
		return bad(st)
	case RefV:
		fm := &Form{op: fType, obj: y.obj, typ: T}
		mk := func(s *State) Val {
			if types.IsInterface(T) {
				return RefV{y.obj}
			}
			return e.view(s, y.obj, T)
		}
		switch e.decide(st, fm) {
		case yes:
			good(st, mk(st))
			return true
		case no:
			return bad(st)
		}
		a := st.clone()
		e.assume(a, fm, false)
		if !a.dead && bad(a) {
			a.note(x.Pos(), "not "+types.TypeString(T, shortQual))
			e.push(a)
		}
		e.assume(st, fm, true)
		if st.dead {
			return false
		}
		e.forks++
		st.note(x.Pos(), "is "+types.TypeString(T, shortQual))
		good(st, mk(st))
		return true
	}
	panic(engineErr(fmt.Sprintf("type assertion on %T", v)))
}

func (e *Engine) convert(st *State, from, to types.Type, v Val) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return v
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			if c, ok := v.(IntV).l.isConst(); ok {
				return StrV{s: string(rune(c))}
			}
			s := e.symStr(st, "", "string(rune)")
			st.zw().addLE(s.hi.neg().addc(1))
			st.zw().addLE(s.hi.addc(-4))
			n := *e.get(st, s.obj)
			n.tag = &Tag{"ofrune", []Val{v}}
			st.heap[s.obj] = &n
			return s
		}
	}
	if s, ok := v.(StrV); ok {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			r := e.symVal(st, to, "", "bytes").(SliceV)
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				st.zw().addEQ(r.len.sub(strLen(s)))
			} else {
				st.zw().addLE(r.len.sub(strLen(s)))
			}
			n := *e.get(st, r.arr)
			n.tag = &Tag{"ofstr", []Val{s}}
			st.heap[r.arr] = &n
			st.nilF[r.arr] = false
			return r
		}
	}
	if s, ok := v.(SliceV); ok {
		if ok2 && tb.Info()&types.IsString != 0 {
			o := e.get(st, s.arr)
			if o.tag != nil && o.tag.kind == "ofstr" && !o.written && s.off.equal(linConst(0)) {
				str := o.tag.args[0].(StrV)
				if d := strLen(str).sub(s.len); st.zone.ub(d) == 0 && st.zone.lb(d) == 0 {
					return str
				}
			}
			return e.symStr(st, "", "string(bytes)")
		}
	}
	return e.symVal(st, to, "", "convert")
}

// ---- calls

func (e *Engine) call(st *State, f *Frame, x *ssa.Call) bool {
	c := x.Call
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(st, f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, f, x, b, args)
	}
	if c.IsInvoke() {
		return e.invoke(st, e.val(st, f, c.Value), c.Method, args, x)
	}
	if fn := c.StaticCallee(); fn != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return e.callVal(st, e.val(st, f, mc), args, x, nil)
		}
		return e.callFn(st, fn, args, nil, x, nil)
	}
	return e.callVal(st, e.val(st, f, c.Value), args, x, nil)
}

func (e *Engine) invoke(st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) bool {
	switch y := recv.(type) {
	case NilV:
		e.panicOut(st, "runtime: method call on nil interface", site.Pos())
		return false
	case IfaceV:
		ms := e.p.prog.MethodSets.MethodSet(y.typ)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			panic(engineErr("no method " + m.Name() + " on " + y.typ.String()))
		}
		fn := e.p.prog.MethodValue(sel)
		return e.callFn(st, fn, append([]Val{y.val}, args...), nil, site, nil)
	case RefV:
		switch e.nilness(st, y) {
		case yes:
			e.panicOut(st, "runtime: method call on nil interface", site.Pos())
			return false
		case unk:
			p := st.clone()
			p.nilF[y.obj] = true
			p.note(site.Pos(), objName(e.get(st, y.obj))+" is nil")
			e.panicOut(p, "runtime: method call on nil interface "+objName(e.get(st, y.obj)), site.Pos())
			st.nilF[y.obj] = false
		}
		if tf := st.typF[y.obj]; tf != nil && tf.is != nil && !e.keepAbstract(m.Name()) {
			ms := e.p.prog.MethodSets.MethodSet(tf.is)
			if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
				if fn := e.p.prog.MethodValue(sel); fn != nil && inRepo(fn) {
					return e.callFn(st, fn, append([]Val{e.view(st, y.obj, tf.is)}, args...), nil, site, nil)
				}
			}
		}
		cc := &CallCtx{e: e, st: st, method: m.Name(), recv: recv, args: args, site: site, pos: site.Pos(), sig: m.Type().(*types.Signature)}
		o := e.get(st, y.obj)
		if h := e.ifHooks[ifaceName(o.typ)+"."+m.Name()]; h != nil {
			return e.deliver(st, h(cc), site)
		}
		if h := e.ifHooks["*."+m.Name()]; h != nil {
			return e.deliver(st, h(cc), site)
		}
		return e.deliver(st, e.defaultCall(cc), site)
	}
	panic(engineErr(fmt.Sprintf("invoke on %T", recv)))
}

// Methods whose symbolic treatment is kept even when the dynamic type is known.
func (e *Engine) keepAbstract(name string) bool { return e.abstractMethods[name] }

func ifaceName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

func (e *Engine) callVal(st *State, fv Val, args []Val, site ssa.Instruction, after func(e *Engine, st *State, ret Val) []Result) bool {
	switch y := fv.(type) {
	case FuncV:
		if y.fn != nil {
			return e.callFn(st, y.fn, args, y.binds, site, after)
		}
		if h := e.hooks[y.native]; h != nil {
			cc := &CallCtx{e: e, st: st, recv: y, args: args, site: site, pos: site.Pos(), sig: sigOf(site)}
			return e.deliverAfter(st, h(cc), site, after)
		}
		panic(engineErr("native " + y.native))
	case NilV:
		e.panicOut(st, "runtime: call of nil function", site.Pos())
		return false
	case RefV:
		switch e.nilness(st, y) {
		case yes:
			e.panicOut(st, "runtime: call of nil function", site.Pos())
			return false
		case unk:
			p := st.clone()
			p.nilF[y.obj] = true
			e.panicOut(p, "runtime: call of nil function "+objName(e.get(st, y.obj)), site.Pos())
			st.nilF[y.obj] = false
		}
		cc := &CallCtx{e: e, st: st, recv: fv, args: args, site: site, pos: site.Pos(), sig: sigOf(site)}
		if e.dynHook != nil {
			if rs := e.dynHook(cc); rs != nil {
				return e.deliverAfter(st, rs, site, after)
			}
		}
		return e.deliverAfter(st, e.defaultCall(cc), site, after)
	}
	panic(engineErr(fmt.Sprintf("call of %T", fv)))
}

func sigOf(site ssa.Instruction) *types.Signature {
	if c, ok := site.(ssa.CallInstruction); ok {
		return c.Common().Signature()
	}
	return nil
}

func (e *Engine) deliverAfter(st *State, rs []Result, site ssa.Instruction, after func(e *Engine, st *State, ret Val) []Result) bool {
	if after == nil {
		return e.deliver(st, rs, site)
	}
	for _, r := range rs {
		if r.st.dead || r.st.zone.bad {
			continue
		}
		if r.panic != "" {
			e.panicOut(r.st, r.panic, site.Pos())
			continue
		}
		if r.tail != nil {
			panic(engineErr("tail in tail"))
		}
		e.deliver(r.st, after(e, r.st, r.ret), site)
	}
	return false
}

func (e *Engine) callFn(st *State, fn *ssa.Function, args, binds []Val, site ssa.Instruction, after func(e *Engine, st *State, ret Val) []Result) bool {
	cc := &CallCtx{e: e, st: st, fn: fn, args: args, site: site, pos: site.Pos(), sig: fn.Signature}
	if e.errHook != nil {
		if rs := e.errHook(cc); rs != nil {
			return e.deliverAfter(st, rs, site, after)
		}
	}
	if h := e.hooks[short(fn)]; h != nil {
		rs := h(cc)
		if rs != nil {
			return e.deliverAfter(st, rs, site, after)
		}
	}
	if o := fn.Origin(); o != nil && o != fn {
		if h := e.hooks[short(o)]; h != nil {
			if rs := h(cc); rs != nil {
				return e.deliverAfter(st, rs, site, after)
			}
		}
	}
	if m := stdModel(fn); m != nil {
		if rs := m(cc); rs != nil {
			return e.deliverAfter(st, rs, site, after)
		}
	}
	if inRepo(fn) && len(fn.Blocks) > 0 && (e.inline == nil || e.inline(fn)) {
		depth := 0
		for _, fr := range st.frames {
			if fr.fn == fn {
				if depth++; depth <= e.recDepth {
					continue
				}
				if e.unknownRecursion {
					return e.deliverAfter(st, e.defaultCall(cc), site, after)
				}
				// recursion: unknown result
				e.undecided("recursion through %s at %s", short(fn), e.p.pos(site.Pos()))
				return false
			}
		}
		if e.eff != nil && (justConcat(fn) && !e.inlineConcat || !e.inlineText && !justSelects(fn)) && !justConverts(fn) && e.eff.textOnly(fn) {
			return e.deliverAfter(st, e.defaultCall(cc), site, after)
		}
		st.note(site.Pos(), "call "+short(fn))
		return e.enter(st, fn, args, binds, site, after)
	}
	if e.unmodelled != nil && !e.unmodelled[fn.String()] && !inRepo(fn) {
		st.ghost["unmodelled"] = StrV{s: fn.String()}
	}
	return e.deliverAfter(st, e.defaultCall(cc), site, after)
}

// justConverts: the text is an argument, under another type.
func justConverts(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.ChangeType, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return len(fn.Params) > 0
}

// justSelects: the text is one of those at hand (a name, a label, a constant),
// perhaps put together with others, not a description made by formatting.
func justSelects(fn *ssa.Function) bool {
	if fn.Signature.Results().Len() == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				g := c.Common().StaticCallee()
				if c.Common().IsInvoke() && c.Common().Method.Name() != "String" || g != nil && inRepo(g) && g.Signature.Results().Len() == 1 && !isString(g.Signature.Results().At(0).Type()) {
					continue // getRule() and the like
				}
				return false
			}
		}
		for _, s := range b.Succs {
			if s.Index <= b.Index && s.Dominates(b) {
				return false // a loop
			}
		}
	}
	return true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// justConcat: straight-line code that cannot panic.
func justConcat(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.BinOp, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// defaultCall returns fresh results.
func (e *Engine) defaultCall(c *CallCtx) []Result {
	var res *types.Tuple
	if c.sig != nil {
		res = c.sig.Results()
	}
	hint := c.method
	if c.fn != nil {
		hint = c.fn.Name()
	}
	return []Result{{st: c.st, ret: e.freshResults(c.st, res, hint)}}
}

func (e *Engine) freshResults(st *State, res *types.Tuple, hint string) Val {
	if res == nil || res.Len() == 0 {
		return TupleV{}
	}
	if res.Len() == 1 {
		return e.symVal(st, res.At(0).Type(), "", hint)
	}
	t := TupleV{}
	for i := 0; i < res.Len(); i++ {
		t.v = append(t.v, e.symVal(st, res.At(i).Type(), "", hint))
	}
	return t
}

func one(st *State, v Val) []Result { return []Result{{st: st, ret: v}} }

func (e *Engine) builtin(st *State, f *Frame, x *ssa.Call, b *ssa.Builtin, args []Val) bool {
	done := func(v Val) bool {
		set(st.top(), x, v)
		st.top().pc++
		return true
	}
	switch b.Name() {
	case "len":
		switch y := args[0].(type) {
		case StrV:
			return done(IntV{strLen(y)})
		case SliceV:
			return done(IntV{y.len})
		case NilV:
			return done(IntV{linConst(0)})
		case RefV:
			return done(IntV{e.mapLen(st, y.obj)})
		case PtrV:
			if a, ok := x.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if at, ok := a.Elem().Underlying().(*types.Array); ok {
					return done(IntV{linConst(at.Len())})
				}
			}
		}
	case "cap":
		l := linConst(0)
		if s, ok := args[0].(SliceV); ok {
			l = s.len
		}
		c := linSym(e.freshSym("cap"))
		st.zw().addLE(l.sub(c))
		return done(IntV{c})
	case "append":
		return e.doAppend(st, x, args)
	case "copy":
		d, isD := args[0].(SliceV)
		src, isS := args[1].(SliceV)
		if _, none := args[1].(NilV); none {
			return done(IntV{linConst(0)})
		}
		if isD && isS {
			k, ok1 := d.len.isConst()
			m, ok2 := src.len.isConst()
			if m < k {
				k = m
			}
			if ok1 && ok2 && k <= 16 {
				var xs []Val
				for i := int64(0); i < k; i++ {
					xs = append(xs, e.elemGet(st, e.get(st, src.arr), src.off.addc(i)))
				}
				for i, v := range xs {
					e.elemSet(st, e.get(st, d.arr), d.off.addc(int64(i)), v, true)
				}
				return done(IntV{linConst(k)})
			}
		}
		if isD && isS {
			o := *e.get(st, d.arr)
			if off, ok := d.off.isConst(); ok && off == 0 && o.fresh && !o.written && !o.sym && !o.hasBase && st.zone.ub(src.len.sub(d.len)) <= 0 && src.arr != d.arr {
				o.elems = nil // zeroes
				st.heap[d.arr] = &o
				e.copyOf(st, &o, src)
				return done(IntV{src.len})
			}
		}
		n := linSym(e.freshSym("copied"))
		st.zw().addLE(n.neg())
		if d, ok := args[0].(SliceV); ok {
			o := *e.get(st, d.arr)
			o.elems, o.sym, o.written, o.hasBase, o.tag = nil, true, true, false, nil
			st.heap[d.arr] = &o
			st.zw().addLE(n.sub(d.len))
		}
		return done(IntV{n})
	case "delete":
		o, _ := e.mapObj(st, args[0])
		if o == nil {
			return done(TupleV{})
		}
		i := e.mapSplit(st, o, args[1])
		if i == -2 {
			return false
		}
		n := *e.get(st, o.id)
		n.entries = append([]mapEnt(nil), n.entries...)
		if i >= 0 {
			n.entries[i].present = false
			n.entries[i].v = nil
		} else if n.sym {
			n.entries = append(n.entries, mapEnt{args[1], nil, false})
		}
		n.written = true
		st.heap[o.id] = &n
		if e.OnMapSet != nil {
			e.OnMapSet(e, st, e.get(st, o.id), args[1], nil, x.Pos())
		}
		return done(TupleV{})
	case "panic":
		e.panicOut(st, "explicit: "+e.show(st, args[0]), x.Pos())
		return false
	case "print", "println":
		return done(TupleV{})
	case "ssa:wrapnilchk":
		return done(args[0])
	case "min", "max":
		if len(args) == 2 {
			a, ok1 := args[0].(IntV)
			c, ok2 := args[1].(IntV)
			if ok1 && ok2 {
				fm := foldLE(a.l.sub(c.l)) // a <= c
				pick := func(s *State, first bool) {
					v := c
					if first == (b.Name() == "min") {
						v = a
					}
					set(s.top(), x, v)
					s.top().pc++
				}
				switch e.decide(st, fm) {
				case yes:
					pick(st, true)
					return true
				case no:
					pick(st, false)
					return true
				}
				o := st.clone()
				e.assume(o, fm, false)
				pick(o, false)
				e.push(o)
				e.assume(st, fm, true)
				pick(st, true)
				return true
			}
		}
	}
	if b.Name() == "recover" && rethrows(x) {
		// functions deferred are followed on a return only, where there is
		// no panic; the one of a panic goes on, as it does without them
		return done(NilV{})
	}
	panic(engineErr("builtin " + b.Name()))
}

func (e *Engine) mapLen(st *State, id ObjID) Lin {
	o := e.get(st, id)
	if !o.sym {
		n := int64(0)
		for _, m := range o.entries {
			if m.present {
				n++
			}
		}
		return linConst(n)
	}
	if v, ok := o.virt["len"]; ok && !o.written {
		return v.(IntV).l
	}
	l := linSym(e.freshSym("maplen"))
	st.zw().addLE(l.neg())
	n := int64(0)
	for _, m := range o.entries {
		if m.present {
			n++
		}
	}
	st.zw().addLE(l.neg().addc(n))
	if !o.written {
		e.setVirt(st, id, "len", IntV{l})
	}
	return l
}

func (e *Engine) doAppend(st *State, x *ssa.Call, args []Val) bool {
	base := e.asSlice(st, args[0], x.Call.Args[0].Type())
	elemT := x.Type().Underlying().(*types.Slice).Elem()
	if len(args) == 1 {
		set(st.top(), x, base)
		st.top().pc++
		return true
	}
	if s, ok := args[1].(StrV); ok {
		r := e.symVal(st, x.Type(), "", "append").(SliceV)
		st.zw().addEQ(r.len.sub(base.len).sub(strLen(s)))
		set(st.top(), x, r)
		st.top().pc++
		return true
	}
	add := e.asSlice(st, args[1], x.Call.Args[1].Type())
	n, isC := add.len.isConst()
	split := func(f *Form) bool {
		if e.decide(st, f) != unk {
			return false
		}
		a := st.clone()
		e.assume(a, f, true)
		e.push(a)
		e.assume(st, f, false)
		e.push(st)
		e.forks++
		return true
	}
	if isC && n <= 64 {
		for _, s := range e.mkSkolems {
			if split(&Form{op: fLE, lin: s.sub(base.len).addc(1)}) {
				return false
			}
			if st.zone.ub(s.sub(base.len)) < 0 {
				if !e.splitIdx(st, e.get(st, base.arr), base.off.add(s)) {
					return false
				}
				continue
			}
			for k := int64(0); k < n; k++ {
				if split(&Form{op: fEQ, lin: s.sub(base.len).addc(-k)}) {
					return false
				}
			}
		}
	}
	o := e.newObj(OArray, elemT, "append")
	o.fresh = true
	if bc, ok := base.len.isConst(); ok && bc == 0 {
		// nothing before
	} else {
		o.base, o.baseOff, o.baseN, o.hasBase = base.arr, base.off, base.len, true
	}
	if !isC || n > 64 {
		// unknown number of elements
		if bc, ok := base.len.isConst(); ok && bc == 0 && add.arr != 0 {
			st.heap[o.id] = o
			e.copyOf(st, o, add)
			o = e.get(st, o.id)
		} else {
			o.sym = true
			o.hasBase = false
		}
		st.heap[o.id] = o
		o.tag = nil
		if e.OnAppend != nil {
			e.OnAppend(e, st, base, add, o, x.Pos())
		}
		set(st.top(), x, SliceV{o.id, linConst(0), base.len.add(add.len)})
		st.top().pc++
		return true
	}
	st.heap[o.id] = o
	for k := int64(0); k < n; k++ {
		idx := add.off.addc(k)
		ao := e.get(st, add.arr)
		if !e.splitIdx(st, ao, idx) {
			return false
		}
		v := e.elemGet(st, ao, idx)
		at := base.len.addc(k)
		for _, s := range e.mkSkolems {
			if st.zone.isZero(s.sub(at)) {
				at = s
			}
		}
		e.elemSet(st, e.get(st, o.id), at, v, false)
	}
	for _, s := range e.mkSkolems {
		if st.zone.ub(s.sub(base.len)) < 0 {
			v := e.elemGet(st, e.get(st, base.arr), base.off.add(s))
			e.elemSet(st, e.get(st, o.id), s, v, false)
		}
	}
	set(st.top(), x, SliceV{o.id, linConst(0), base.len.addc(n)})
	if e.OnAppend != nil {
		var v Val
		if n == 1 {
			v = e.elemGet(st, e.get(st, add.arr), add.off)
		} else {
			v = add
		}
		no := *e.get(st, o.id)
		st.heap[o.id] = &no
		e.OnAppend(e, st, base, v, &no, x.Pos())
		if st.dead {
			return false
		}
	}
	st.top().pc++
	return true
}

// ---- misc

func (e *Engine) dumpUndec() []string {
	r := append([]string(nil), e.undec...)
	sort.Strings(r)
	return r
}

func isRuntimePanic(s string) bool { return strings.HasPrefix(s, "runtime:") }

// copyOf: the array o begins with what src holds
func (e *Engine) copyOf(st *State, o *Obj, src SliceV) {
	o.base, o.baseOff, o.baseN, o.hasBase = src.arr, src.off, src.len, true
	for _, s := range append(append([]Lin(nil), e.skolems[src.arr]...), e.mkSkolems...) {
		if st.zone.lb(s) >= 0 && st.zone.ub(s.sub(src.len)) < 0 {
			v := e.elemGet(st, e.get(st, src.arr), src.off.add(s))
			e.elemSet(st, e.get(st, o.id), s, v, false)
		}
	}
}
