package main

// C26: errors reported by called functions are never dropped.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

// errResult: index of the error among the results, -1 if none
func errResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), errorType) {
			return i
		}
	}
	return -1
}

// neverFails: documented to return nil errors, or only about printing
func neverFails(fn *ssa.Function) bool {
	s := fn.String()
	return strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "fmt.Fprint") || strings.HasPrefix(s, "(*strings.Builder).") || strings.HasPrefix(s, "(*bytes.Buffer).Write") ||
		s == "errors.New" || s == "fmt.Errorf" || s == "errors.Join" || s == "errors.Unwrap" || s == "(error).Error" // make errors
}

// errSites lists the calls of fn that can report an error.
func errSites(p *Prog, fn *ssa.Function) (r []ssa.CallInstruction) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cal := c.Common().StaticCallee()
			if cal == nil {
				continue
			}
			switch {
			case isScan(cal), isGrammarParse(cal):
				r = append(r, c)
			case errResult(cal.Signature) >= 0 && !neverFails(cal):
				r = append(r, c)
			}
		}
	}
	return
}

func isScan(fn *ssa.Function) bool { return fn.String() == "(*go/scanner.Scanner).Scan" }
func isGrammarParse(fn *ssa.Function) bool {
	s := short(fn)
	return s == "(*joeson.Grammar).parse" || s == "(*joeson.Grammar).ParseString" || s == "(*joeson.Grammar).ParseTokens"
}

func checkErrors(p *Prog, rep *Report) {
	callers := map[*ssa.Function][]*ssa.Function{}
	var fns []*ssa.Function
	for _, f := range p.funcs {
		if f.Pkg != p.root && f.Pkg != p.help && (f.Parent() == nil || f.Parent().Pkg != p.root) || f.Synthetic != "" {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil && inRepo(cal) {
						callers[cal] = append(callers[cal], f)
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return short(fns[i]) < short(fns[j]) })
	sites := 0
	for _, f := range fns {
		s := errSites(p, f)
		// the entry points of a parse hand its result on
		if isGrammarParse(f) {
			continue
		}
		sites += len(s)
		if len(s) > 0 {
			errFunction(p, rep, f, callers, 0)
		}
	}
	rep.obl["sites"] = sites
}

// errFunction decides that fn (or, for helpers, all their callers) reports
// the errors of the calls it makes.
func errFunction(p *Prog, rep *Report, fn *ssa.Function, callers map[*ssa.Function][]*ssa.Function, depth int) {
	for _, self := range lineVariants(p, fn) {
		local := newReport("")
		guard(local, short(fn), func() { runErrors(p, local, fn, self) })
		private := fn.Object() == nil || !fn.Object().Exported()
		if len(local.viol) > 0 && private && depth < 3 && len(callers[fn]) > 0 && !implementsParser(fn) {
			// it may report in another way to its callers: they decide
			seen := map[*ssa.Function]bool{}
			for _, c := range callers[fn] {
				if !seen[c] && c != fn {
					seen[c] = true
					errFunction(p, rep, c, callers, depth+1)
				}
			}
			continue
		}
		rep.viol = append(rep.viol, local.viol...)
		rep.undec = append(rep.undec, local.undec...)
		rep.lost = append(rep.lost, local.lost...)
		for k, n := range local.obl {
			rep.obl[k] += n
		}
		for k := range local.funcs {
			rep.funcs[k] = true
		}
		rep.states += local.states
		rep.outs += local.outs
	}
}

func implementsParser(fn *ssa.Function) bool { return fn.Name() == "parse" }

// lineVariants: functions over lines are decided for texts of rules
func lineVariants(p *Prog, fn *ssa.Function) []types.Type {
	for _, prm := range fn.Params {
		if typeStr(prm.Type()) == "Line" {
			return []types.Type{p.typ("sLine")}
		}
	}
	return []types.Type{nil}
}

func runErrors(p *Prog, rep *Report, fn *ssa.Function, line types.Type) {
	v := newEnv(p, rep, short(fn))
	e := v.e
	e.OnElem = nil
	e.inlineText = true
	e.unknownRecursion = true
	e.hooks = map[string]Hook{}
	pending := func(st *State) { st.ghost["error"] = BoolV{fBool(true)} }
	e.errHook = func(c *CallCtx) []Result {
		switch {
		case c.fn.String() == "(*go/scanner.Scanner).Init":
			scanInit(c)
			return one(c.st, TupleV{})
		case isScan(c.fn):
			return scanResults(c, pending, nil)
		case c.fn.String() == "errors.Join":
			return joinErrors(c)
		case isGrammarParse(c.fn):
			miss := c.st.clone()
			miss.note(c.pos, "the text does not parse")
			pending(miss)
			pe := p.typ("ParseError")
			er := IfaceV{pe, e.symVal(miss, pe, "", "ParseError")}
			c.st.note(c.pos, "the text parses")
			it := c.sig.Results().At(0).Type()
			r := e.symVal(c.st, it, "", "parsed").(RefV)
			c.st.nilF[r.obj] = false
			e.assume(c.st, &Form{op: fType, obj: r.obj, typ: pe}, false)
			return []Result{{st: miss, ret: er}, {st: c.st, ret: r}}
		case inRepo(c.fn) || neverFails(c.fn):
			return nil
		}
		i := errResult(c.sig)
		if i < 0 {
			return nil
		}
		var rs []Result
		if m := stdModel(c.fn); m != nil {
			rs = m(c)
		}
		if rs == nil {
			bad := c.st.clone()
			mk := func(st *State, failed bool) Val {
				r := e.freshResults(st, c.sig.Results(), c.fn.Name())
				t, isT := r.(TupleV)
				if !isT {
					t = TupleV{[]Val{r}}
				}
				t.v = append([]Val(nil), t.v...)
				if failed {
					st.nilF[objOf(t.v[i])] = false
				} else {
					t.v[i] = NilV{}
				}
				if !isT {
					return t.v[0]
				}
				return t
			}
			rs = []Result{{st: bad, ret: mk(bad, true)}, {st: c.st, ret: mk(c.st, false)}}
		}
		for _, r := range rs {
			er := r.ret
			if t, ok := r.ret.(TupleV); ok {
				er = t.v[i]
			}
			if e.nilness(r.st, er) == no {
				r.st.note(c.pos, short(c.fn)+" reports an error")
				pending(r.st)
			}
		}
		return rs
	}
	var args, binds []Val
	for _, prm := range fn.Params {
		if line != nil && typeStr(prm.Type()) == "Line" {
			args = append(args, IfaceV{line, e.symVal(v.st, line, prm.Name(), prm.Name())})
			continue
		}
		a := e.symVal(v.st, prm.Type(), prm.Name(), prm.Name())
		if id := objOf(a); id != 0 {
			switch prm.Type().Underlying().(type) {
			case *types.Pointer, *types.Signature, *types.Interface:
				v.st.nilF[id] = false
			}
		}
		args = append(args, a)
	}
	for _, fv := range fn.FreeVars {
		a := e.symVal(v.st, fv.Type(), fv.Name(), fv.Name())
		if id := objOf(a); id != 0 {
			v.st.nilF[id] = false
		}
		binds = append(binds, a)
	}
	v.self = nil
	failed := 0
	outs := func() (outs []Outcome) {
		defer func() {
			if r := recover(); r != nil {
				if ee, ok := r.(engineErr); ok {
					e.undecided("%s: %s", v.rule, string(ee))
					return
				}
				panic(r)
			}
		}()
		return e.Run(v.st, fn, args, binds)
	}()
	for _, o := range outs {
		if o.st.ghost["error"] == nil {
			continue
		}
		failed++
		if o.panic != "" {
			e.obl[v.rule+".reported"]++
			continue
		}
		ok := false
		rets := []Val{o.ret}
		if t, isT := o.ret.(TupleV); isT {
			rets = t.v
		}
		for i, r := range rets {
			if i >= fn.Signature.Results().Len() {
				break
			}
			if types.Identical(fn.Signature.Results().At(i).Type(), errorType) && e.nilness(o.st, r) == no {
				ok = true
			}
			if iv, isI := r.(IfaceV); isI && types.Identical(iv.typ, p.typ("ParseError")) {
				ok = true
			}
		}
		if !ok && o.st.zone.infeasible() {
			continue
		}
		e.Check(o.st, ok, v.rule+".reported", o.pos, "an error reported by a called function is dropped")
	}
	if failed == 0 {
		e.undecided("%s: no failing path was reached", v.rule)
	}
	rep.obl["failing-paths"] += failed
	v.done()
}

// scanResults: Scan may report an error: it counts it, and calls the handler
// when there is one.
func scanResults(c *CallCtx, pending func(*State), ret func(*State) []Result) []Result {
	e := c.e
	bad := c.st.clone()
	if ret == nil {
		ret = func(st *State) []Result { return one(st, e.freshResults(st, c.sig.Results(), "Scan")) }
	}
	bad.note(c.pos, "the scanner reports an error")
	pending(bad)
	if sc, ok := c.args[0].(PtrV); ok {
		v := &Env{e: e, p: e.p, st: bad}
		if fieldIndex(e.get(bad, sc.obj).typ, "ErrorCount") != nil && sc.elem == nil && len(sc.path) == 0 {
			if n, ok := v.loadField(bad, sc, "ErrorCount").(IntV); ok {
				v.storeField(bad, sc, "ErrorCount", IntV{n.l.addc(1)})
			}
		}
	}
	ok := ret(c.st)
	h, has := bad.ghost["handler"]
	if !has || isNil(h) || e.nilness(bad, h) == yes {
		return append(ok, ret(bad)...)
	}
	hs := sigOfVal(h)
	if hs == nil {
		e.undecided("%s: the error handler of the scanner is not known", c.fn.Name())
		return append(ok, ret(bad)...)
	}
	var args []Val
	for i := 0; i < hs.Params().Len(); i++ {
		args = append(args, e.symVal(bad, hs.Params().At(i).Type(), "", "scanned"))
	}
	return append(ok, Result{st: bad, tail: &Tail{fn: h, args: args, after: func(e *Engine, st *State, _ Val) []Result {
		return ret(st)
	}}})
}

func scanInit(c *CallCtx) {
	c.st.ghost["handler"] = c.args[3]
	if sc, ok := c.args[0].(PtrV); ok && sc.elem == nil && len(sc.path) == 0 && fieldIndex(c.e.get(c.st, sc.obj).typ, "ErrorCount") != nil {
		v := &Env{e: c.e, p: c.e.p, st: c.st}
		v.storeField(c.st, sc, "ErrorCount", IntV{linConst(0)})
	}
}

func sigOfVal(v Val) *types.Signature {
	if f, ok := v.(FuncV); ok && f.fn != nil {
		return f.fn.Signature
	}
	return nil
}

// joinErrors: nil if and only if there is no error in the list.
func joinErrors(c *CallCtx) []Result {
	e := c.e
	s := e.asSlice(c.st, c.args[0], types.NewSlice(errorType))
	none := c.st.clone()
	e.assume(none, leForm(s.len), true)
	e.assume(c.st, leForm(s.len), false)
	var rs []Result
	if !none.dead && !none.zone.bad {
		rs = append(rs, Result{st: none, ret: NilV{}})
	}
	if !c.st.dead && !c.st.zone.bad {
		rs = append(rs, nonNilResult(c)...)
	}
	return rs
}

func init() {
	checks["C26"] = checkDef{rule: "on every path of every function that calls one which reports errors (error results, the handler of the scanner, ParseError of a grammar), a call that failed is followed by a panic, an exit or the return of an error",
		f: func(p *Prog, rep *Report) {
			checkErrors(p, rep)
			rep.floor("sites", 5)
			rep.floor("failing-paths", 5)
		}}
}
