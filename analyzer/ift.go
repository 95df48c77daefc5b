package main

// C12: information flow from trace options. What depends on them may only be
// traces.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ift struct {
	p       *Prog
	rep     *Report
	ef      *Effects
	fns     []*ssa.Function
	inFn    map[*ssa.Function]bool
	taint   map[ssa.Value]bool
	retTnt  map[*ssa.Function]bool
	safeC   map[*ssa.Function]string
	changed bool
	regions map[*ssa.BasicBlock]token.Pos // block -> the branch it depends on
	dead    map[*ssa.BasicBlock]bool
}

// memory that only serves tracing
func traceMemory(w string) bool {
	for _, a := range []string{"TraceOptions.", "ParseContext.loopStack", "ParseContext.TraceOptions", "elem:[]string", "Lazy[", "helpers.Lazy["} {
		if strings.HasPrefix(w, a) {
			return true
		}
	}
	return false
}

func traceSource(t types.Type, field string) bool {
	switch typeStr(t) {
	case "TraceOptions":
		return true
	case "parseOptions":
		return field == "debug" || field == "skipLog"
	case "ParseContext":
		return field == "loopStack"
	}
	return false
}

// traceFunc: functions that make up trace options; they are about nothing else.
func traceFunc(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() == 1 {
		t := r.At(0).Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if typeStr(t) == "TraceOptions" {
			return true
		}
	}
	if rc := f.Signature.Recv(); rc != nil && strings.TrimPrefix(typeStr(rc.Type()), "*") == "TraceOptions" {
		return true
	}
	return false
}

func newIFT(p *Prog, rep *Report) *ift {
	x := &ift{p: p, rep: rep, ef: p.effects(), inFn: map[*ssa.Function]bool{}, taint: map[ssa.Value]bool{},
		retTnt: map[*ssa.Function]bool{}, safeC: map[*ssa.Function]string{}, regions: map[*ssa.BasicBlock]token.Pos{}}
	for _, f := range p.funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Synthetic != "instance of" && f.Origin() == nil || traceFunc(f) {
			continue
		}
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if pk == p.root || pk == p.help {
			x.fns = append(x.fns, f)
			x.inFn[f] = true
		}
	}
	return x
}

func (x *ift) mark(v ssa.Value) {
	if v != nil && !x.taint[v] {
		x.taint[v] = true
		x.changed = true
	}
}

// postDominators by iteration; nil stands for the exit
func postDom(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	all := map[*ssa.BasicBlock]bool{nil: true}
	for _, b := range f.Blocks {
		all[b] = true
	}
	pd := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{nil: {nil: true}}
	for _, b := range f.Blocks {
		m := map[*ssa.BasicBlock]bool{}
		for k := range all {
			m[k] = true
		}
		pd[b] = m
	}
	succs := func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		if len(b.Succs) == 0 {
			return []*ssa.BasicBlock{nil}
		}
		return b.Succs
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			m := map[*ssa.BasicBlock]bool{}
			for k := range all {
				in := true
				for _, s := range succs(b) {
					if !pd[s][k] {
						in = false
						break
					}
				}
				if in || k == b {
					m[k] = true
				}
			}
			if len(m) != len(pd[b]) {
				pd[b] = m
				changed = true
			}
		}
	}
	return pd
}

func ipdom(pd map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool, b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	n := -1
	for k := range pd[b] {
		if k == b {
			continue
		}
		if len(pd[k]) > n {
			best, n = k, len(pd[k])
		}
	}
	return best
}

// arms: the blocks only one side of the branch reaches before it joins
func arms(b, join *ssa.BasicBlock) [2]map[*ssa.BasicBlock]bool {
	var r [2]map[*ssa.BasicBlock]bool
	for i := range r {
		r[i] = map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{b.Succs[i]}
		for len(work) > 0 {
			c := work[len(work)-1]
			work = work[:len(work)-1]
			if c == join || r[i][c] {
				continue
			}
			r[i][c] = true
			if c == b { // round a loop: what follows is another round
				continue
			}
			work = append(work, c.Succs...)
		}
	}
	for c := range r[0] {
		if r[1][c] {
			delete(r[0], c)
			delete(r[1], c)
		}
	}
	return r
}

func (x *ift) run() {
	type branch struct {
		f    *ssa.Function
		b    *ssa.BasicBlock
		join *ssa.BasicBlock
		arm  [2]map[*ssa.BasicBlock]bool
	}
	pds := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	brs := map[*ssa.BasicBlock]*branch{}
	for x.changed = true; x.changed; {
		x.changed = false
		for _, f := range x.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					x.flow(f, in)
				}
				br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok || !x.taint[br.Cond] {
					continue
				}
				t := brs[b]
				if t == nil {
					if pds[f] == nil {
						pds[f] = postDom(f)
					}
					t = &branch{f: f, b: b, join: ipdom(pds[f], b)}
					t.arm = arms(b, t.join)
					brs[b] = t
					x.changed = true
				}
				// what differs where the sides join
				for _, c := range f.Blocks {
					for _, in := range c.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						var vals []ssa.Value
						for i, e := range phi.Edges {
							pr := c.Preds[i]
							if (t.arm[0][pr] || t.arm[1][pr] || pr == b) && !(t.arm[0][c] || t.arm[1][c]) {
								vals = append(vals, e)
							}
						}
						for _, y := range vals {
							if y != vals[0] {
								x.mark(phi)
							}
						}
					}
				}
				// a result chosen by the branch
				for i := range t.arm {
					for c := range t.arm[i] {
						if x.regions[c] == 0 {
							x.regions[c] = condPos(br)
						}
						if r, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && !x.sameReturn(t.b, r) && !x.retTnt[f] {
							x.retTnt[f] = true
							x.changed = true
						}
					}
				}
			}
		}
	}
	var keys []*branch
	for _, t := range brs {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool {
		return condPos(keys[i].b.Instrs[len(keys[i].b.Instrs)-1].(*ssa.If)) < condPos(keys[j].b.Instrs[len(keys[j].b.Instrs)-1].(*ssa.If))
	})
	for _, t := range keys {
		x.rep.obl["trace.branch"]++
		x.rep.funcs[short(t.f)] = true
		var sig [2]map[string]token.Pos
		for i := range sig {
			sig[i] = map[string]token.Pos{}
			for c := range t.arm[i] {
				for _, in := range c.Instrs {
					for _, s := range x.acts(t.f, in) {
						sig[i][s] = in.Pos()
					}
				}
			}
			x.rep.obl["trace.side"]++
		}
		for i := range sig {
			for _, s := range sortedKeys(sig[i]) {
				if _, both := sig[1-i][s]; both {
					x.rep.undecided("%s: whichever way the trace options decide, %s in %s", x.p.pos(condPos(t.b.Instrs[len(t.b.Instrs)-1].(*ssa.If))), s, short(t.f))
					continue
				}
				pos := sig[i][s]
				if !pos.IsValid() {
					pos = condPos(t.b.Instrs[len(t.b.Instrs)-1].(*ssa.If))
				}
				x.rep.add(x.p, "trace.effect", pos, "%s depending on trace options (test at %s)", s, x.p.pos(condPos(t.b.Instrs[len(t.b.Instrs)-1].(*ssa.If))))
			}
		}
	}
	// results and memory
	for _, f := range x.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					x.rep.obl["trace.store"]++
					if x.taint[y.Val] && !isLocalAlloc(addrRoot(y.Addr)) && !traceMemory(target(y.Addr)) && !tracerArg(y.Addr) {
						x.rep.add(x.p, "trace.stored", y.Pos(), "what trace options say is stored in %s", target(y.Addr))
					}
				case *ssa.MapUpdate:
					if x.taint[y.Value] || x.taint[y.Key] {
						x.rep.add(x.p, "trace.stored", y.Pos(), "what trace options say is stored in %s", mapName(y.Map))
					}
				}
			}
		}
		if x.retTnt[f] && f.Signature.Results().Len() > 0 && parserResult(f) {
			x.rep.add(x.p, "trace.result", f.Pos(), "what %s returns depends on trace options", short(f))
		}
		if parserResult(f) {
			x.rep.obl["trace.result"]++
		}
	}
}

// tracerArg: an argument list being filled (fmt.Println...)
func tracerArg(a ssa.Value) bool {
	_, ok := addrRoot(a).(*ssa.Alloc)
	return ok
}

func condPos(br *ssa.If) token.Pos {
	if br.Cond.Pos().IsValid() {
		return br.Cond.Pos()
	}
	for i := len(br.Block().Instrs) - 1; i >= 0; i-- {
		if p := br.Block().Instrs[i].Pos(); p.IsValid() {
			return p
		}
	}
	return br.Block().Parent().Pos()
}

// sameReturn: every return that may follow the branch gives the same value
func (x *ift) sameReturn(b *ssa.BasicBlock, r *ssa.Return) bool {
	after := map[*ssa.BasicBlock]bool{}
	for work := append([]*ssa.BasicBlock{}, b.Succs...); len(work) > 0; {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if !after[c] {
			after[c] = true
			work = append(work, c.Succs...)
		}
	}
	for c := range after {
		o, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i := range o.Results {
			a, c := o.Results[i], r.Results[i]
			k1, ok1 := a.(*ssa.Const)
			k2, ok2 := c.(*ssa.Const)
			if ok1 && ok2 && k1.String() == k2.String() {
				continue
			}
			in, isI := a.(ssa.Instruction)
			if sameRead(a, c) {
				continue
			}
			if a != c || isI && after[in.Block()] { // computed again after the branch
				return false
			}
		}
	}
	return true
}

// sameRead: both read the same field of the same thing.
func sameRead(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x == y || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.Field == g.Field && f.X == g.X
}

// parserResult: the outcome of parsing or of compiling
func parserResult(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		switch strings.TrimPrefix(typeStr(f.Signature.Results().At(i).Type()), "*") {
		case "Ast", "Parser", "Grammar", "frame", "stash", "rank", "rule", "ParseError", "NativeMap", "NativeArray":
			return true
		}
	}
	return false
}

func (x *ift) flow(f *ssa.Function, in ssa.Instruction) {
	switch y := in.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				if n := fieldName(t, fa.Field); traceSource(t, n) && !isRefType(y.Type()) || traceSource(t, n) && n == "loopStack" {
					x.mark(y)
				}
			}
			// a local variable
			if al, ok := y.X.(*ssa.Alloc); ok && x.taint[al] {
				x.mark(y)
			}
			return
		}
		if x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.Field:
		if traceSource(y.X.Type(), fieldName(y.X.Type(), y.Field)) || x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.Store:
		if al, ok := y.Addr.(*ssa.Alloc); ok && (x.taint[y.Val] || x.regions[y.Block()] != 0) {
			x.mark(al)
		}
	case *ssa.BinOp:
		if x.taint[y.X] || x.taint[y.Y] {
			x.mark(y)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if x.taint[e] {
				x.mark(y)
			}
		}
	case *ssa.Convert:
		if x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.ChangeType:
		if x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.MakeInterface:
		if x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.Extract:
		if x.taint[y.Tuple] {
			x.mark(y)
		}
	case *ssa.Slice:
		if x.taint[y.X] || y.Low != nil && x.taint[y.Low] || y.High != nil && x.taint[y.High] {
			x.mark(y)
		}
	case *ssa.IndexAddr:
		if x.taint[y.X] || x.taint[y.Index] {
			x.mark(y)
		}
	case *ssa.Lookup:
		if x.taint[y.Index] || x.taint[y.X] {
			x.mark(y)
		}
	case *ssa.Return:
		for _, r := range y.Results {
			if x.taint[r] && !x.retTnt[f] {
				x.retTnt[f] = true
				x.changed = true
			}
		}
	case *ssa.Call:
		cc := y.Common()
		var args []ssa.Value
		if cc.IsInvoke() {
			args = append(args, cc.Value)
		}
		args = append(args, cc.Args...)
		for _, g := range x.callees(cc) {
			if x.inFn[g] {
				for i, a := range args {
					if i < len(g.Params) && x.taint[a] {
						x.mark(g.Params[i])
					}
				}
				if x.retTnt[g] {
					x.mark(y)
				}
			}
		}
		if callee := cc.StaticCallee(); callee == nil && !cc.IsInvoke() || callee != nil && !inRepo(callee) {
			for _, a := range args {
				if x.taint[a] {
					x.mark(y)
				}
			}
		}
	}
}

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

func (x *ift) callees(cc *ssa.CallCommon) []*ssa.Function {
	if cc.IsInvoke() {
		return x.ef.implsOf(cc.Value.Type(), cc.Method)
	}
	if c := cc.StaticCallee(); c != nil {
		return []*ssa.Function{c}
	}
	return nil
}

// acts: what an instruction does beyond tracing
func (x *ift) acts(f *ssa.Function, in ssa.Instruction) []string {
	switch y := in.(type) {
	case *ssa.Store:
		if !isLocalAlloc(addrRoot(y.Addr)) {
			for _, w := range targets(y) {
				if !traceMemory(w) {
					return []string{"writes " + w}
				}
			}
		}
	case *ssa.MapUpdate:
		if !isLocalAlloc(y.Map) {
			return []string{"writes " + mapName(y.Map)}
		}
	case *ssa.Panic:
		return []string{"panics"}
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
		return []string{fmt.Sprintf("does %T", in)}
	case *ssa.Call:
		cc := y.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "copy", "clear":
				if !isLocalAlloc(addrRoot(cc.Args[0])) {
					return []string{b.Name()}
				}
			}
			return nil
		}
		if cc.IsInvoke() {
			var r []string
			for _, m := range x.callees(cc) {
				if w := x.safe(m); w != "" {
					r = append(r, "calls "+cc.Method.Name()+", which "+w)
				}
			}
			if len(r) > 1 {
				r = r[:1]
			}
			return r
		}
		c := cc.StaticCallee()
		if c == nil {
			return []string{"calls a function value"}
		}
		if !inRepo(c) {
			if c.String() == "os.Exit" {
				return []string{"exits"}
			}
			return nil
		}
		if w := x.safe(c); w != "" {
			return []string{"calls " + short(c) + ", which " + w}
		}
	}
	return nil
}

// safe: "" when calling f is only tracing, else why not
func (x *ift) safe(f *ssa.Function) string {
	if w, ok := x.safeC[f]; ok {
		return w
	}
	x.safeC[f] = ""
	r := ""
	par := x.ef.reach([]*ssa.Function{f}, nil)
	var fns []*ssa.Function
	for g := range par {
		fns = append(fns, g)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, g := range fns {
		s := x.ef.local(g)
		for _, w := range sortedKeys(s.writes) {
			if !traceMemory(w) && r == "" {
				r = "writes " + w
			}
		}
		if len(s.dyn) > 0 && !isLazyGet(g) && r == "" {
			r = "calls function values (" + short(g) + ")"
		}
		for _, o := range s.out {
			if c, ok := o.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().String() == "os.Exit" && r == "" {
				r = "exits"
			}
		}
	}
	x.safeC[f] = r
	return r
}

func checkTraceFlow(p *Prog, rep *Report) *ift {
	x := newIFT(p, rep)
	x.run()
	rep.floor("trace.branch", 12)
	rep.floor("trace.result", 40)
	return x
}

// checkPrinters: printing the context, an element or a result does not panic.
func checkPrinters(p *Prog, rep *Report) {
	run := func(typ, name string, prep func(v *Env, self Val) []Val) {
		guard(rep, typ+"."+name, func() {
			v := newEnv(p, rep, "print")
			v.e.OnElem = nil
			v.e.inlineText = true
			fn := p.ownMethod(typ, name)
			if fn == nil {
				return
			}
			var self Val
			if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); isP {
				self = v.selfPtr(typ)
			} else {
				self = v.e.symVal(v.st, p.typ(typ), "self", "self")
			}
			v.wellFormed()
			args := prep(v, self)
			outs := v.noPanic(v.run(fn, args...), true)
			for _, o := range outs {
				v.chkO(o, v.posEq(o.st, ghostLin(o.st, "P0")), "pos", "printing moves the position")
			}
			v.reached(len(outs), 1)
			v.done()
		})
	}
	str := func(v *Env, self Val) []Val { return []Val{self} }
	n := 0
	for _, t := range p.namedTypes() {
		name := t.Obj().Name()
		if m := p.ownMethod(name, "String"); m != nil && m.Signature.Params().Len() == 0 && isAst(p, t) {
			run(name, "String", str)
			n++
		}
	}
	if n < 15 {
		rep.lost = append(rep.lost, "the String methods were not found")
	}
	run("ParseContext", "log", func(v *Env, self Val) []Val {
		st := v.st
		// the context being traced is the one of the stream of the environment
		v.storeField(st, self, "Code", v.code)
		for _, f := range []string{"parseOptions"} {
			st.nilF[objOf(v.loadField(st, self, f))] = false
		}
		sl := v.e.lin(v.loadField(st, self, "stackLength"))
		st.zw().addLE(sl.neg())
		o := v.e.symVal(st, types.NewPointer(p.typ("TraceOptions")), "opts", "opts").(PtrV)
		st.nilF[o.obj] = false
		return []Val{self, v.e.symStr(st, "", "message"), o}
	})
	rep.floor("print.pos", 20)
}

func isAst(p *Prog, t types.Type) bool {
	it := p.typ("Ast").Underlying().(*types.Interface)
	return types.Implements(t, it) || types.Implements(types.NewPointer(t), it)
}

// wellFormed: the elements of a built grammar and the results of a parse have
// no nil part, apart from those that may be missing.
func (v *Env) wellFormed() {
	opt := map[string]bool{"grammar": true, "parent": true, "cb": true, "frames": true, "stack": true, "result": true, "param": true, "wipemask": true, "rank": true}
	v.e.OnMaterialize = func(e *Engine, st *State, s StructV, i int, name string, y Val) Val {
		f := s.typ.Underlying().(*types.Struct).Field(i).Name()
		if id := objOf(y); id != 0 && !opt[f] {
			if _, isS := y.(SliceV); !isS {
				st.nilF[id] = false
			}
		}
		return y
	}
	v.e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, y Val) Val {
		if id := objOf(y); id != 0 {
			if _, isS := y.(SliceV); !isS {
				st.nilF[id] = false
			}
		}
		return y
	}
	v.e.OnMapGet = func(e *Engine, st *State, m *Obj, k, y Val) Val {
		if id := objOf(y); id != 0 {
			st.nilF[id] = false
		}
		return y
	}
	// the keys listed are those present (C24)
	v.e.OnMapAbsent = func(e *Engine, st *State, m *Obj, k Val) bool {
		s, ok := k.(StrV)
		if !ok || s.obj == 0 {
			return true
		}
		t := e.get(st, s.obj).tag
		return t == nil || t.kind != "elem"
	}
}

func init() {
	checks["C12"] = checkDef{rule: "information flow from trace options (TraceOptions, debug, skipLog, the trace stack): what depends on them, directly or through branches, writes no other memory, calls nothing that does, and reaches no result; and the functions that print traces do not panic",
		f: func(p *Prog, rep *Report) {
			x := checkTraceFlow(p, rep)
			// panics of the code that only runs when tracing
			lines := map[string]bool{}
			var called []*ssa.Function
			for b := range x.regions {
				for _, in := range b.Instrs {
					if in.Pos().IsValid() {
						lines[p.pos(in.Pos())] = true
					}
					if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && x.inFn[c.Call.StaticCallee()] {
						called = append(called, c.Call.StaticCallee())
					}
				}
			}
			for g := range x.ef.reach(called, nil) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if in.Pos().IsValid() {
							lines[p.pos(in.Pos())] = true
						}
					}
				}
			}
			s := newReport(rep.id)
			checkMemo(p, s, memoRules{})
			checkPrinters(p, rep)
			for _, v := range s.viol {
				if v.rule == "wrap.no-panic" && lines[v.pos] {
					v.rule = "trace.no-panic"
					rep.viol = append(rep.viol, v)
				}
			}
			rep.obl["trace.no-panic"] += s.outs
			rep.undec = append(rep.undec, s.undec...)
			rep.floor("trace.no-panic", 30)
		}}
}
