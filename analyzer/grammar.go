package main

// The entry points of a parse: Grammar.parse (C10) and ParseString,
// ParseTokens (C10, C11), options of one parse (C11).

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkGrammarParse runs Grammar.parse with an entry rule that may fail or
// succeed anywhere, over any memo table of L+1 rows.
func checkGrammarParse(p *Prog, rep *Report, isolation bool) (seen map[*ssa.Function]bool) {
	seen = map[*ssa.Function]bool{}
	guard(rep, "Grammar.parse", func() {
		v := newEnv(p, rep, "parse")
		e, st := v.e, v.st
		self := v.selfPtr("Grammar")
		for _, f := range []string{"rule", "TraceOptions", "Attr"} {
			st.nilF[objOf(v.loadField(st, self, f))] = false
		}
		rank := v.loadField(st, self, "rank")
		st.nilF[objOf(rank)] = false
		frames := e.asSlice(st, v.loadField(st, v.ctx, "frames"), p.typ("Ast"))
		st.zw().addEQ(frames.len.sub(v.L).addc(-1))
		for _, f := range []string{"TraceOptions", "parseOptions"} {
			st.nilF[objOf(v.loadField(st, v.ctx, f))] = false
		}
		st.ghost["runs"] = IntV{linConst(0)}
		st.ghost["res"] = NilV{}
		inText := func(c *CallCtx, l Lin) {
			z := c.st.zone
			v.chk(c.st, z.lb(l) >= 0 && z.ub(l.sub(v.L)) <= 0, "in-text", c, "a position outside the input is used for the error (%s)", e.show(c.st, c.args[0]))
		}
		e.ifHooks["CodeStream.SetPos"] = func(c *CallCtx) []Result {
			inText(c, e.lin(c.args[0]))
			c.st.ghost["pos"] = c.args[0]
			return one(c.st, TupleV{})
		}
		for _, m := range []string{"PosToLine", "PosToCol"} {
			e.ifHooks["CodeStream."+m] = func(c *CallCtx) []Result {
				inText(c, e.lin(c.args[0]))
				return e.defaultCall(c)
			}
		}
		e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
			st := c.st
			if !v.chk(st, e.same(st, c.recv, rank), "entry", c, "parses something else than the entry rank (%s)", e.show(st, c.recv)) {
				return nil
			}
			v.chk(st, e.same(st, c.args[0], v.ctx), "ctx", c, "the entry rank is parsed with another context")
			v.chk(st, v.eqLin(st, ghostLin(st, "runs"), linConst(0)), "once", c, "the entry rank is parsed again")
			v.chk(st, v.posEq(st, ghostLin(st, "P0")), "from-start", c, "the entry rank is not parsed from the start of the input")
			st.ghost["runs"] = IntV{ghostLin(st, "runs").addc(1)}
			fail := st.clone()
			fail.note(c.pos, "the entry rule fails")
			fail.ghost["end"] = IntV{v.havocPos(fail)}
			st.note(c.pos, "the entry rule succeeds")
			r := v.freshAst(st, "result")
			st.ghost["res"] = r
			st.ghost["end"] = IntV{v.advance(st)}
			return []Result{{st: fail, ret: NilV{}}, {st: st, ret: r}}
		}
		if isolation {
			v.rule = "isolated"
			v.onlyWrites(v.ctx.obj)
		}
		outs := v.run(p.method("Grammar", "parse"), self, v.ctx)
		if isolation {
			v.reached(len(outs), 2)
			rep.obl["isolated.outcomes"] += len(outs)
			for b := range e.visited {
				seen[b.Parent()] = true
			}
			v.done()
			return
		}
		outs = v.noPanic(outs, true)
		for _, o := range outs {
			s := o.st
			if !v.chkO(o, v.eqLin(s, ghostLin(s, "runs"), linConst(1)), "once", "returns without parsing the entry rule") {
				continue
			}
			won := !isNil(s.ghost["res"])
			rest := v.L.sub(ghostLin(s, "end"))
			if won && s.zone.ub(rest) == 0 {
				v.chkO(o, e.same(s, o.ret, s.ghost["res"]), "complete", "the entry rule consumed the whole input and its result is not returned (%s)", e.show(s, o.ret))
				v.chkO(o, v.posEq(s, v.L), "complete", "the position is not at the end of the input")
				continue
			}
			if won && s.zone.lb(rest) < 1 {
				v.chkO(o, false, "complete", "whether the whole input was consumed is not examined")
				continue
			}
			why := "the entry rule failed"
			if won {
				why = "input is left over"
			}
			i, ok := o.ret.(IfaceV)
			if !v.chkO(o, ok && types.Identical(i.typ, p.typ("ParseError")), "error", "%s and no ParseError is returned (%s)", why, e.show(s, o.ret)) {
				continue
			}
			v.chkO(o, e.nilness(s, v.structField(s, i.val, "Attr")) == no, "error", "the ParseError has no attributes")
		}
		v.reached(len(outs), 3)
		v.done()
	})
	return
}

// structField reads a field of a struct value.
func (v *Env) structField(st *State, x Val, name string) Val {
	sv, ok := x.(StructV)
	if !ok {
		return NilV{}
	}
	s := sv.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			r, _, _ := v.e.structField(st, sv, i, "", name)
			return r
		}
	}
	return NilV{}
}

// checkEntry: ParseString and ParseTokens parse that text, in a context of
// their own for that grammar, with all the options given.
func checkEntry(p *Prog, rep *Report, name string) {
	guard(rep, name, func() {
		v := newEnv(p, rep, "entry")
		e, st := v.e, v.st
		self := v.selfPtr("Grammar")
		for _, f := range []string{"rule", "TraceOptions", "Attr"} {
			st.nilF[objOf(v.loadField(st, self, f))] = false
		}
		nr := e.lin(v.loadField(st, self, "numrules"))
		opts := v.loadField(st, self, "TraceOptions")
		var text Val
		if name == "ParseString" {
			text = e.symStr(st, "", "text")
		} else {
			t := e.symVal(st, types.NewPointer(p.typ("TokenStream")), "tokens", "tokens").(PtrV)
			st.nilF[t.obj] = false
			text = t
		}
		options := e.symVal(st, types.NewSlice(p.typ("ParseOption")), "options", "options").(SliceV)
		st.ghost["ctx"], st.ghost["stream"], st.ghost["po"], st.ghost["res"] = NilV{}, NilV{}, NilV{}, NilV{}
		st.ghost["k"] = IntV{linConst(0)}
		e.OnElem = func(e *Engine, st *State, o *Obj, idx Lin, y Val) Val {
			if o.id == options.arr {
				st.nilF[objOf(y)] = false
			}
			return y
		}
		e.hooks["joeson.NewRuneStream"] = func(c *CallCtx) []Result {
			v.chk(c.st, e.same(c.st, c.args[0], text), "text", c, "another text is parsed (%s)", e.show(c.st, c.args[0]))
			s := e.symVal(c.st, p.typ("CodeStream"), "", "stream").(RefV)
			c.st.nilF[s.obj] = false
			c.st.ghost["stream"] = s
			return one(c.st, s)
		}
		e.hooks["joeson.newParseContext"] = func(c *CallCtx) []Result {
			st := c.st
			stream := st.ghost["stream"]
			if name != "ParseString" {
				stream = IfaceV{types.NewPointer(p.typ("TokenStream")), text}
			}
			v.chk(st, e.same(st, c.args[0], stream), "text", c, "the context is for another stream (%s)", e.show(st, c.args[0]))
			v.chk(st, v.eqLin(st, e.lin(c.args[1]), nr), "rules", c, "the context is not made for the number of rules of the grammar")
			v.chk(st, e.same(st, c.args[2], opts) || e.isFresh(st, c.args[2]), "trace", c, "the trace options are not those of the grammar (%s)", e.show(st, c.args[2]))
			x := e.symVal(st, types.NewPointer(p.typ("ParseContext")), "", "newctx").(PtrV)
			st.nilF[x.obj] = false
			n := *e.get(st, x.obj)
			n.fresh = true
			st.heap[x.obj] = &n
			po := v.loadField(st, x, "parseOptions").(PtrV)
			st.nilF[po.obj] = false
			st.ghost["ctx"], st.ghost["po"] = x, po
			return one(st, x)
		}
		e.ifHooks["ParseOption.apply"] = func(c *CallCtx) []Result {
			st := c.st
			k := ghostLin(st, "k")
			arr, idx, ok := v.elemTag(st, c.recv)
			v.chk(st, ok && arr == options.arr && v.eqLin(st, idx, k.add(options.off)), "options", c, "an option is applied out of turn")
			v.chk(st, e.same(st, c.args[0], st.ghost["po"]), "options", c, "an option is applied to other options than those of this parse (%s)", e.show(st, c.args[0]))
			st.ghost["k"] = IntV{k.addc(1)}
			po := e.symVal(st, types.NewPointer(p.typ("parseOptions")), "", "opts").(PtrV)
			st.nilF[po.obj] = false
			st.ghost["po"] = po
			return one(st, po)
		}
		e.hooks["(*joeson.Grammar).parse"] = func(c *CallCtx) []Result {
			st := c.st
			v.chk(st, e.same(st, c.args[0], self), "grammar", c, "another grammar parses")
			if v.chk(st, !isNil(st.ghost["ctx"]) && e.same(st, c.args[1], st.ghost["ctx"]), "ctx", c, "does not parse in the context made for this parse (%s)", e.show(st, c.args[1])) {
				v.chk(st, e.same(st, v.loadField(st, c.args[1], "parseOptions"), st.ghost["po"]), "options", c, "the options of the parse are not those resulting from the options given")
			}
			v.chk(st, v.eqLin(st, ghostLin(st, "k"), options.len), "options", c, "parses before every option is applied")
			r := v.freshAst(st, "result")
			st.ghost["res"] = r
			return one(st, r)
		}
		v.onlyWrites()
		outs := v.noPanic(v.run(p.method("Grammar", name), self, text, options), true)
		for _, o := range outs {
			v.chkO(o, !isNil(o.st.ghost["res"]) && e.same(o.st, o.ret, o.st.ghost["res"]), "result", "does not return the outcome of the parse (%s)", e.show(o.st, o.ret))
		}
		v.reached(len(outs), 1)
		v.done()
	})
}

// isFresh: memory allocated by the analysed code
func (e *Engine) isFresh(st *State, x Val) bool {
	id := objOf(x)
	return id != 0 && e.get(st, id).fresh
}

// checkOptions: each option sets what it names, in the options it is given.
func checkOptions(p *Prog, rep *Report) {
	for typ, field := range map[string]string{"Debug": "debug", "SkipLog": "skipLog", "SkipCache": "skipCache"} {
		guard(rep, typ, func() {
			v := newEnv(p, rep, "option")
			e, st := v.e, v.st
			o := e.symVal(st, p.typ(typ), "option", "option")
			po := e.symVal(st, types.NewPointer(p.typ("parseOptions")), "opts", "opts").(PtrV)
			st.nilF[po.obj] = false
			was := map[string]Val{}
			names := fieldNames(p.typ("parseOptions"))
			for _, f := range names {
				was[f] = v.loadField(st, po, f)
			}
			want := v.structField(st, o, "Bool")
			v.onlyWrites(po.obj)
			outs := v.noPanic(v.run(p.ownMethod(typ, "apply"), o, po), true)
			for _, x := range outs {
				s := x.st
				if !v.chkO(x, e.nilness(s, x.ret) == no, "result", "%s gives no options", typ) {
					continue
				}
				for _, f := range names {
					now := v.loadField(s, x.ret, f)
					if f == field {
						v.chkO(x, e.same(s, now, want), "set", "%s does not set what it was asked to", typ)
					} else {
						v.chkO(x, e.same(s, now, was[f]), "set", "%s changes %s", typ, f)
					}
				}
			}
			v.reached(len(outs), 1)
			v.done()
		})
	}
}

func fieldNames(t types.Type) []string {
	s := t.Underlying().(*types.Struct)
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i).Name())
	}
	return r
}

// Everything reachable from a parse writes only memory of that parse.
var parseOwned = []string{
	"ParseContext.", "frame.", "RuneStream.pos", "TokenStream.workOffset",
	// entries of the memo table, of wipe masks and of stashes
	"elem:[]*frame", "elem:[]bool", "elem:stash", "elem:[][]*frame",
	// location and content of results, rules do not go through these (see graph-results)
	"Attr.", "NativeMap.", "NativeArray.", "**NativeArray", "map:NativeMap.", "elem:[]Ast",
	// filled once with a value that depends on the grammar only
	"Lazy[", "helpers.Lazy[",
}

// done: functions whose writes were examined by abstract interpretation. What
// they write counts as examined when all their callers were as well.
func checkParseEffects(p *Prog, rep *Report, done map[*ssa.Function]bool) {
	ef := p.effects()
	roots := parseRoots(p)
	if len(roots) < 12 {
		rep.lost = append(rep.lost, "the entry points of a parse were not all found")
	}
	par := ef.reach(roots, nil)
	var fns []*ssa.Function
	for f := range par {
		fns = append(fns, f)
		rep.funcs[short(f)] = true
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	apply := map[*ssa.Function]bool{}
	for _, f := range ef.impls["apply"] {
		apply[f] = true
	}
	for changed := true; changed; {
		changed = false
		for f := range par {
			if done[f] {
				continue
			}
			for c := range ef.local(f).calls {
				if done[c] && c != p.method("Grammar", "parse") {
					delete(done, c)
					changed = true
				}
			}
		}
	}
	for _, f := range fns {
		s := ef.local(f)
		rep.obl["effects.function"]++
		if done[f] || apply[f] {
			continue
		}
		for w, in := range s.writes {
			rep.obl["effects.write"]++
			ok := false
			for _, a := range parseOwned {
				if strings.HasPrefix(w, a) {
					ok = true
				}
			}
			if st, isStore := in.(*ssa.Store); isStore && !ok {
				// a variable of a function which runs as part of this parse
				if owner := capturedIn(addrRoot(st.Addr)); owner != nil {
					_, ok = par[owner]
				}
			}
			if !ok && !resultOwned(in) && !ownElement(p, in) {
				rep.add(p, "effects.shared", in.Pos(), "a parse writes %s, which outlives it (%s)", w, chain(par, f))
			}
		}
	}
}

// ownElement: a write to an element of a slice that a parse makes for itself: a
// field of its context which only ever holds memory made for it.
func ownElement(p *Prog, in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	field := func(v ssa.Value) string {
		for {
			switch x := v.(type) {
			case *ssa.Slice:
				v = x.X
				continue
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					return target(fa)
				}
			}
			return ""
		}
	}
	name := field(ia.X)
	if !strings.HasPrefix(name, "ParseContext.") {
		return false
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || target(s.Addr) != name {
					continue
				}
				v := s.Val
				if c, isC := v.(*ssa.Call); isC {
					if bi, isB := c.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
						v = c.Call.Args[0]
					}
				}
				switch x := v.(type) {
				case *ssa.MakeSlice:
				case *ssa.Const:
				default:
					if field(x) != name {
						return false
					}
				}
			}
		}
	}
	return true
}

// resultOwned: a write into the rule of a parser which is itself a result of
// this parse (the notation's grammar produces parsers): one seen as an Ast.
// The elements of a grammar are only ever held as Parser.
func resultOwned(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	c, ok := addrRoot(st.Addr).(*ssa.Call)
	if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "getRule" {
		return false
	}
	x := c.Call.Value
	for {
		switch y := x.(type) {
		case *ssa.Extract:
			x = y.Tuple
			continue
		case *ssa.TypeAssert:
			return typeStr(y.X.Type()) == "Ast"
		}
		return false
	}
}

// parseRoots: the functions a parse is made of.
func parseRoots(p *Prog) []*ssa.Function {
	var roots []*ssa.Function
	for _, n := range []string{"ParseString", "ParseTokens", "parse"} {
		if f := p.method("Grammar", n); f != nil {
			roots = append(roots, f)
		}
	}
	for _, f := range p.effects().impls["parse"] {
		if len(f.Params) == 2 && !f.Signature.Variadic() {
			roots = append(roots, f)
		}
	}
	return append(roots, lazyFuncs(p)...)
}

// lazyFuncs: the functions given to lazy values, which may run during a parse.
func lazyFuncs(p *Prog) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				callee := c.Call.StaticCallee()
				if callee == nil || !strings.Contains(callee.String(), "helpers.Lazy") || strings.Contains(callee.String(), "Grammar]") {
					continue // the lazy grammar is only consulted by the compilation of lines
				}
				for _, a := range c.Call.Args {
					switch x := a.(type) {
					case *ssa.MakeClosure:
						r = append(r, x.Fn.(*ssa.Function))
					case *ssa.Function:
						r = append(r, x)
					}
				}
			}
		}
	}
	return r
}

func init() {
	checks["C10"] = checkDef{rule: "abstract interpretation of Grammar.parse (entry rule failing or succeeding at any position of any input, any memo table) : a complete success is returned as is, every other outcome is a ParseError, positions used for the error lie in the input, nothing panics; and of ParseString and ParseTokens: the outcome returned is that of the parse of that text",
		f: func(p *Prog, rep *Report) {
			checkGrammarParse(p, rep, false)
			checkEntry(p, rep, "ParseString")
			checkEntry(p, rep, "ParseTokens")
			rep.floor("parse.complete", 2)
			rep.floor("parse.error", 2)
			rep.floor("parse.in-text", 4)
			rep.floor("entry.result", 2)
		}}
	checks["C11"] = checkDef{rule: "effect analysis of everything reachable from a parse (no write to grammars, rules, trace options or package variables), and abstract interpretation of the entry points and of the options: what is written belongs to the context of this parse, which is made for it",
		f: func(p *Prog, rep *Report) {
			checkParseEffects(p, rep, checkGrammarParse(p, rep, true))
			checkEntry(p, rep, "ParseString")
			checkEntry(p, rep, "ParseTokens")
			checkNewContext(p, rep)
			checkOptions(p, rep)
			rep.floor("effects.function", 60)
			rep.floor("entry.options", 2)
			rep.floor("option.set", 9)
		}}
}
