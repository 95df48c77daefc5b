package main

// Abstract values, heap objects and states of the typestate interpreter.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int32

type Val interface{}

type (
	IntV  struct{ l Lin }
	BoolV struct{ f *Form }
	// StrV is a constant (obj==0) or the substring [lo,hi) of string object obj
	StrV struct {
		obj    ObjID
		s      string
		lo, hi Lin
	}
	// PtrV is an address: object, optional element index, field path
	PtrV struct {
		obj  ObjID
		elem *Lin
		path []int
	}
	RefV   struct{ obj ObjID } // symbolic interface, map, func, chan or opaque value
	NilV   struct{}
	IfaceV struct {
		typ types.Type
		val Val
	}
	SliceV struct {
		arr      ObjID
		off, len Lin
	}
	FuncV struct {
		fn     *ssa.Function
		binds  []Val
		native string // key of a native function value
	}
	TupleV  struct{ v []Val }
	StructV struct {
		typ  types.Type
		f    []Val // nil: not materialised yet (symbolic struct)
		name string
	}
)

// Tag is the provenance of a symbolic object.
type Tag struct {
	kind string
	args []Val
}

type objKind int

const (
	OCell objKind = iota
	OArray
	OMap
	OIface
	OStr
	OFunc
	OOpaque
)

type elemEnt struct {
	idx Lin
	v   Val
}
type mapEnt struct {
	k, v    Val
	present bool
}

type Obj struct {
	id    ObjID
	kind  objKind
	typ   types.Type // cell: type of content; array: element type; iface: interface type; map: map type
	sym   bool       // contents not written here are unknown (else zero)
	name  string     // stable name when not ""
	v     Val        // cell content
	elems []elemEnt
	// appended array: elements [0,n) are those of base from off; the rest explicit
	base    ObjID
	baseOff Lin
	baseN   Lin
	hasBase bool
	virt    map[string]Val // stable results of methods and views
	entries []mapEnt
	slen    Lin // string length
	tag     *Tag
	site    string // allocation site, diagnostics
	fresh   bool   // allocated by the analysed code (not an input)
	mayNil  bool   // dereferencing needs a proof
	written bool
	lost    bool // written content was forgotten
}

// ---- formulas

type Pred struct {
	name string
	args []Val
}

type fop int

const (
	fConst fop = iota
	fLE        // lin <= 0
	fEQ        // lin == 0
	fNil       // obj is nil
	fType      // dynamic type of obj is typ / implements typ
	fPred
)

type Form struct {
	op   fop
	b    bool
	lin  Lin
	obj  ObjID
	typ  types.Type
	pred *Pred
	neg  bool
}

func fBool(b bool) *Form { return &Form{op: fConst, b: b} }
func (f *Form) not() *Form {
	if f.op == fConst {
		return fBool(!f.b)
	}
	n := *f
	n.neg = !f.neg
	return &n
}

type typeFact struct {
	is  types.Type
	not []types.Type
	imp []types.Type // implements
	nim []types.Type // does not implement
}

type predFact struct {
	p   Pred
	val bool
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	block   *ssa.BasicBlock
	pc      int
	call    ssa.Instruction // call instruction in the caller waiting for the result (nil: outermost)
	after   func(e *Engine, st *State, ret Val) []Result
	defers  []deferred
	running bool // running defers
	retv    Val
	discard bool
	visits  map[*ssa.BasicBlock]int // loop heads, when Engine.unroll is set
}
type deferred struct {
	fn     Val
	method *types.Func // of an interface call, fn being the receiver
	args   []Val
	site   ssa.Instruction
}

type traceNode struct {
	up  *traceNode
	pos token.Pos
	msg string
}

type State struct {
	frames []*Frame
	heap   map[ObjID]*Obj
	zone   *Zone
	nilF   map[ObjID]bool
	typF   map[ObjID]*typeFact
	preds  map[string]predFact
	ghost  map[string]Val
	trace  *traceNode
	dead   bool
	joined bool // merged with another state at a loop head
}

func (st *State) clone() *State {
	n := &State{trace: st.trace, joined: st.joined}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[ObjID]*Obj, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.zone = st.zone
	st.zone.own = false
	n.nilF = make(map[ObjID]bool, len(st.nilF))
	for k, v := range st.nilF {
		n.nilF[k] = v
	}
	n.typF = make(map[ObjID]*typeFact, len(st.typF))
	for k, v := range st.typF {
		n.typF[k] = v
	}
	n.preds = make(map[string]predFact, len(st.preds))
	for k, v := range st.preds {
		n.preds[k] = v
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return n
}

func (st *State) zw() *Zone {
	if !st.zone.own {
		st.zone = st.zone.clone()
	}
	return st.zone
}

func (st *State) note(pos token.Pos, msg string) {
	st.trace = &traceNode{st.trace, pos, msg}
}

// ---- names

func (e *Engine) symByName(name string) Sym {
	if s, ok := e.symIdx[name]; ok {
		return s
	}
	e.nsym++
	s := Sym(e.nsym)
	e.symIdx[name] = s
	e.symNm[s] = name
	if strings.HasPrefix(name, "~") {
		e.symAnon[s] = true
	}
	return s
}
func (e *Engine) freshSym(hint string) Sym {
	e.nsym++
	s := Sym(e.nsym)
	e.symNm[s] = hint + "'" + strconv.Itoa(e.nsym)
	e.symAnon[s] = true
	return s
}
func (e *Engine) symName(s Sym) string { return e.symNm[s] }

func (e *Engine) newObj(k objKind, typ types.Type, hint string) *Obj {
	e.nobj++
	o := &Obj{id: ObjID(e.nobj), kind: k, typ: typ, site: hint}
	return o
}

func (e *Engine) namedObj(k objKind, typ types.Type, name string) *Obj {
	if id, ok := e.objIdx[name]; ok {
		return e.protos[id]
	}
	o := e.newObj(k, typ, name)
	o.name = name
	o.sym = true
	e.objIdx[name] = o.id
	e.protos[o.id] = o
	return o
}

func (e *Engine) get(st *State, id ObjID) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := e.protos[id]; ok {
		return o
	}
	panic(engineErr(fmt.Sprintf("dangling object %d", id)))
}

type engineErr string

// ---- materialisation

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// symVal makes an unknown value of type t. With name != "" it is a stable
// (named) value; otherwise it is a fresh anonymous one.
func (e *Engine) symVal(st *State, t types.Type, name, hint string) Val {
	named := name != ""
	mk := func(k objKind, typ types.Type) *Obj {
		if named {
			return e.namedObj(k, typ, name)
		}
		o := e.newObj(k, typ, hint)
		o.sym = true
		st.heap[o.id] = o
		return o
	}
	sym := func() Lin {
		if named {
			return linSym(e.symByName(name))
		}
		return linSym(e.freshSym(hint))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			o := mk(OOpaque, t)
			return BoolV{&Form{op: fPred, pred: &Pred{"sym", []Val{RefV{o.id}}}}}
		case u.Info()&types.IsInteger != 0:
			l := sym()
			if u.Info()&types.IsUnsigned != 0 {
				st.zw().addLE(l.neg())
			}
			return IntV{l}
		case u.Info()&types.IsString != 0:
			return e.symStr(st, name, hint)
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return RefV{mk(OOpaque, t).id}
	case *types.Pointer:
		o := mk(OCell, u.Elem())
		return PtrV{obj: o.id}
	case *types.Interface:
		return RefV{mk(OIface, t).id}
	case *types.Map:
		return RefV{mk(OMap, t).id}
	case *types.Signature:
		return RefV{mk(OFunc, t).id}
	case *types.Chan:
		return RefV{mk(OOpaque, t).id}
	case *types.Slice:
		o := mk(OArray, u.Elem())
		var l Lin
		if named {
			l = linSym(e.symByName(name + ".len"))
		} else {
			l = linSym(e.freshSym(hint + ".len"))
		}
		st.zw().addLE(l.neg())
		return SliceV{o.id, linConst(0), l}
	case *types.Array:
		o := mk(OArray, u.Elem())
		return SliceV{o.id, linConst(0), linConst(u.Len())}
	case *types.Struct:
		return StructV{typ: t, f: make([]Val, u.NumFields()), name: name}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			n := ""
			if named {
				n = name + "." + strconv.Itoa(i)
			}
			tv.v = append(tv.v, e.symVal(st, u.At(i).Type(), n, hint))
		}
		return tv
	}
	return RefV{mk(OOpaque, t).id}
}

func (e *Engine) symStr(st *State, name, hint string) StrV {
	var o *Obj
	if name != "" {
		if id, ok := e.objIdx[name]; ok {
			o = e.protos[id]
		} else {
			o = e.namedObj(OStr, types.Typ[types.String], name)
			o.slen = linSym(e.symByName("len(" + name + ")"))
		}
	} else {
		o = e.newObj(OStr, types.Typ[types.String], hint)
		o.sym = true
		o.slen = linSym(e.freshSym("len(" + hint + ")"))
		st.heap[o.id] = o
	}
	st.zw().addLE(o.slen.neg())
	return StrV{obj: o.id, lo: linConst(0), hi: o.slen}
}

func (e *Engine) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{fBool(false)}
		case u.Info()&types.IsInteger != 0:
			return IntV{linConst(0)}
		case u.Info()&types.IsString != 0:
			return StrV{}
		}
		return NilV{}
	case *types.Struct:
		s := StructV{typ: t, f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return nil // allocated by the caller
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, e.zeroVal(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return strconv.Itoa(i)
}

// structField returns field i, materialising it; the second result is the
// struct to write back when it changed.
func (e *Engine) structField(st *State, s StructV, i int, ownerName, hint string) (Val, StructV, bool) {
	if s.f[i] != nil {
		return s.f[i], s, false
	}
	su := s.typ.Underlying().(*types.Struct)
	ft := su.Field(i).Type()
	fn := su.Field(i).Name()
	name := ""
	if s.name != "" {
		name = s.name + "." + fn
	}
	v := e.symVal(st, ft, name, hint+"."+fn)
	if e.OnMaterialize != nil {
		v = e.OnMaterialize(e, st, s, i, name, v)
	}
	n := s
	n.f = append([]Val(nil), s.f...)
	n.f[i] = v
	return v, n, true
}

// cell returns the content of a cell object.
func (e *Engine) cell(st *State, o *Obj) Val {
	if o.v != nil {
		return o.v
	}
	n := *o
	if o.sym {
		if _, isStruct := o.typ.Underlying().(*types.Struct); isStruct {
			nm := ""
			if o.name != "" {
				nm = o.name
			}
			n.v = StructV{typ: o.typ, f: make([]Val, o.typ.Underlying().(*types.Struct).NumFields()), name: nm}
		} else {
			nm := ""
			if o.name != "" {
				nm = "*" + o.name
			}
			n.v = e.symVal(st, o.typ, nm, o.site)
		}
	} else {
		n.v = e.zeroVal(o.typ)
		if n.v == nil { // array
			at := o.typ.Underlying().(*types.Array)
			a := e.newObj(OArray, at.Elem(), o.site)
			a.fresh = o.fresh
			st.heap[a.id] = a
			n.v = SliceV{a.id, linConst(0), linConst(at.Len())}
		}
	}
	if o.name == "" || !o.sym || true {
		st.heap[o.id] = &n
	}
	return n.v
}

func (e *Engine) loadPath(st *State, v Val, path []int, hint string) (Val, Val, bool) {
	if len(path) == 0 {
		return v, v, false
	}
	s, ok := v.(StructV)
	if !ok {
		panic(engineErr(fmt.Sprintf("field path on %T", v)))
	}
	fv, s2, ch := e.structField(st, s, path[0], "", hint)
	r, fv2, ch2 := e.loadPath(st, fv, path[1:], hint)
	if ch2 {
		if !ch {
			s2.f = append([]Val(nil), s2.f...)
		}
		s2.f[path[0]] = fv2
		ch = true
	}
	return r, s2, ch
}

func (e *Engine) storePath(st *State, v Val, path []int, x Val, hint string) Val {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(StructV)
	if !ok {
		panic(engineErr(fmt.Sprintf("store path on %T", v)))
	}
	fv := s.f[path[0]]
	if len(path) > 1 && fv == nil {
		fv, s, _ = e.structField(st, s, path[0], "", hint)
	}
	n := s
	n.f = append([]Val(nil), s.f...)
	n.f[path[0]] = e.storePath(st, fv, path[1:], x, hint)
	return n
}

// load reads through an address. Element indices must have been split before.
func (e *Engine) load(st *State, p PtrV) Val {
	o := e.get(st, p.obj)
	if p.elem != nil {
		v := e.elemGet(st, o, *p.elem)
		r, v2, ch := e.loadPath(st, v, p.path, o.site)
		if ch {
			e.elemSet(st, e.get(st, p.obj), *p.elem, v2, false)
		}
		return r
	}
	if o.kind != OCell {
		if len(p.path) == 0 {
			return RefV{o.id}
		}
		panic(engineErr("load of non-cell"))
	}
	v := e.cell(st, o)
	r, v2, ch := e.loadPath(st, v, p.path, o.site)
	if ch {
		n := *e.get(st, p.obj)
		n.v = v2
		st.heap[p.obj] = &n
	}
	return r
}

func (e *Engine) store(st *State, p PtrV, x Val) {
	o := e.get(st, p.obj)
	if p.elem != nil {
		if len(p.path) == 0 {
			e.elemSet(st, o, *p.elem, x, true)
			return
		}
		v := e.elemGet(st, o, *p.elem)
		e.elemSet(st, e.get(st, p.obj), *p.elem, e.storePath(st, v, p.path, x, o.site), true)
		return
	}
	if o.kind != OCell {
		panic(engineErr("store to non-cell"))
	}
	v := e.cell(st, o)
	n := *e.get(st, p.obj)
	n.v = e.storePath(st, v, p.path, x, o.site)
	n.written = true
	st.heap[p.obj] = &n
}

func (e *Engine) elemGet(st *State, o *Obj, idx Lin) Val {
	for i := len(o.elems) - 1; i >= 0; i-- {
		d := o.elems[i].idx.sub(idx)
		if st.zone.ub(d) == 0 && st.zone.lb(d) == 0 {
			return o.elems[i].v
		}
	}
	if o.hasBase {
		if st.zone.ub(idx.sub(o.baseN)) < 0 {
			return e.elemGet(st, e.get(st, o.base), idx.add(o.baseOff))
		}
	}
	for _, s := range e.skolems[o.id] {
		if st.zone.isZero(s.sub(idx)) {
			idx = s
		}
	}
	var v Val
	if o.sym {
		name := ""
		if o.name != "" && !o.lost && e.linNamed(idx) {
			name = o.name + "[" + e.linStr(idx) + "]"
		}
		v = e.symVal(st, o.typ, name, o.site+"[]")
		if id := objOf(v); id != 0 {
			n := *e.get(st, id)
			if n.tag == nil {
				n.tag = &Tag{"elem", []Val{PtrV{obj: o.id}, IntV{idx}}}
				st.heap[id] = &n
			}
		}
		if e.OnElem != nil {
			v = e.OnElem(e, st, o, idx, v)
		}
	} else {
		v = e.zeroVal(o.typ)
		if v == nil {
			panic(engineErr("array of arrays"))
		}
	}
	e.elemSet(st, e.get(st, o.id), idx, v, false)
	return v
}

func (e *Engine) elemSet(st *State, o *Obj, idx Lin, v Val, write bool) {
	if write && !o.lost {
		// what is there now must be known before the rest is forgotten
		for _, s := range e.skolems[o.id] {
			if !st.zone.isZero(s.sub(idx)) {
				e.elemGet(st, e.get(st, o.id), s)
			} else {
				idx = s
			}
		}
		o = e.get(st, o.id)
	}
	n := *o
	n.elems = nil
	for _, x := range o.elems {
		d := x.idx.sub(idx)
		u, l := st.zone.ub(d), st.zone.lb(d)
		if u == 0 && l == 0 {
			if e.linNamed(x.idx) {
				idx = x.idx // the name that survives loop heads
			}
			continue
		}
		if write && !st.zone.isNE(d) {
			// may alias: splitElem should have decided; forget it
			continue
		}
		n.elems = append(n.elems, x)
	}
	n.elems = append(n.elems, elemEnt{idx, v})
	if write {
		n.written = true
	}
	st.heap[o.id] = &n
}

func (e *Engine) linNamed(l Lin) bool {
	for _, t := range l.t {
		if e.symAnon[t.s] {
			return false
		}
	}
	return true
}

func objOf(v Val) ObjID {
	switch x := v.(type) {
	case RefV:
		return x.obj
	case PtrV:
		if x.elem == nil && len(x.path) == 0 {
			return x.obj
		}
	case StrV:
		return x.obj
	}
	return 0
}

func (e *Engine) tagOf(st *State, v Val) *Tag {
	if id := objOf(v); id != 0 {
		return e.get(st, id).tag
	}
	return nil
}

// ---- printing

func (e *Engine) show(st *State, v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case IntV:
		return e.linStr(x.l)
	case BoolV:
		return e.showForm(st, x.f)
	case StrV:
		if x.obj == 0 {
			return strconv.Quote(x.s)
		}
		o := e.get(st, x.obj)
		return fmt.Sprintf("%s[%s:%s]", objName(o), e.linStr(x.lo), e.linStr(x.hi))
	case PtrV:
		s := "&" + objName(e.get(st, x.obj))
		if x.elem != nil {
			s += "[" + e.linStr(*x.elem) + "]"
		}
		for _, i := range x.path {
			s += "." + strconv.Itoa(i)
		}
		return s
	case RefV:
		return objName(e.get(st, x.obj))
	case NilV:
		return "nil"
	case IfaceV:
		return types.TypeString(x.typ, shortQual) + "(" + e.show(st, x.val) + ")"
	case SliceV:
		return fmt.Sprintf("%s[%s:+%s]", objName(e.get(st, x.arr)), e.linStr(x.off), e.linStr(x.len))
	case FuncV:
		if x.fn != nil {
			return x.fn.String()
		}
		return "native:" + x.native
	case TupleV:
		var p []string
		for _, y := range x.v {
			p = append(p, e.show(st, y))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case StructV:
		var p []string
		for _, y := range x.f {
			p = append(p, e.show(st, y))
		}
		return types.TypeString(x.typ, shortQual) + "{" + strings.Join(p, ", ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func shortQual(p *types.Package) string { return p.Name() }

func objName(o *Obj) string {
	if o.name != "" {
		return o.name
	}
	return fmt.Sprintf("%s#%d", o.site, o.id)
}

func (e *Engine) showForm(st *State, f *Form) string {
	s := ""
	switch f.op {
	case fConst:
		return strconv.FormatBool(f.b)
	case fLE:
		s = e.linStr(f.lin) + "<=0"
	case fEQ:
		s = e.linStr(f.lin) + "==0"
	case fNil:
		s = objName(e.get(st, f.obj)) + "==nil"
	case fType:
		s = objName(e.get(st, f.obj)) + ".(" + types.TypeString(f.typ, shortQual) + ")"
	case fPred:
		s = e.predKey(*f.pred)
	}
	if f.neg {
		return "!(" + s + ")"
	}
	return s
}

// valKey is a textual identity of a value in the current naming.
func (e *Engine) valKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case IntV:
		return "i" + x.l.key()
	case BoolV:
		return "b" + e.formKey(x.f)
	case StrV:
		if x.obj == 0 {
			return "s" + strconv.Quote(x.s)
		}
		return fmt.Sprintf("S%d[%s:%s]", x.obj, x.lo.key(), x.hi.key())
	case PtrV:
		s := fmt.Sprintf("p%d", x.obj)
		if x.elem != nil {
			s += "[" + x.elem.key() + "]"
		}
		for _, i := range x.path {
			s += "." + strconv.Itoa(i)
		}
		return s
	case RefV:
		return fmt.Sprintf("r%d", x.obj)
	case NilV:
		return "nil"
	case IfaceV:
		return "I(" + x.typ.String() + ")" + e.valKey(x.val)
	case SliceV:
		return fmt.Sprintf("sl%d[%s:%s]", x.arr, x.off.key(), x.len.key())
	case FuncV:
		s := "f" + x.native
		if x.fn != nil {
			s += x.fn.String()
		}
		for _, b := range x.binds {
			s += "," + e.valKey(b)
		}
		return s
	case TupleV:
		s := "t("
		for _, b := range x.v {
			s += "," + e.valKey(b)
		}
		return s + ")"
	case StructV:
		s := "st("
		for _, b := range x.f {
			s += "," + e.valKey(b)
		}
		return s + ")"
	}
	return fmt.Sprintf("?%T", v)
}
func (e *Engine) formKey(f *Form) string {
	s := ""
	switch f.op {
	case fConst:
		s = strconv.FormatBool(f.b)
	case fLE:
		s = "le" + f.lin.key()
	case fEQ:
		s = "eq" + f.lin.key()
	case fNil:
		s = fmt.Sprintf("nil%d", f.obj)
	case fType:
		s = fmt.Sprintf("ty%d:%s", f.obj, f.typ)
	case fPred:
		s = e.predKey(*f.pred)
	}
	if f.neg {
		s = "!" + s
	}
	return s
}
func (e *Engine) predKey(p Pred) string {
	var a []string
	for _, v := range p.args {
		a = append(a, e.valKey(v))
	}
	if p.name == "eq" || p.name == "streq" {
		sort.Strings(a)
	}
	return p.name + "(" + strings.Join(a, ";") + ")"
}
