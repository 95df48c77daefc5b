package main

// C23: tokenizing Go code.

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
	"unicode"
)

func goTokenConst(p *Prog, name string) (int64, bool) {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "go/token" {
			if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
				n, ok := constant.Int64Val(c.Val())
				return n, ok
			}
		}
	}
	return 0, false
}

func checkGoTokens(p *Prog, rep *Report) {
	fn := p.fn("TokenStreamFromGoCode")
	eof, okE := goTokenConst(p, "EOF")
	comment, okC := goTokenConst(p, "COMMENT")
	if fn == nil || !okE || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		rep.lost = append(rep.lost, "TokenStreamFromGoCode was not found")
		return
	}
	guard(rep, "TokenStreamFromGoCode", func() {
		v := newEnv(p, rep, "TokenStreamFromGoCode")
		e := v.e
		e.OnElem = nil
		e.inlineText = true
		e.pairs = true
		e.unmodelled = map[string]bool{}
		for _, n := range []string{"TrimSpace", "ToLower", "ToUpper", "ReplaceAll", "Replace", "Trim", "TrimLeft", "TrimRight", "TrimSuffix", "Title"} {
			e.unmodelled["strings."+n] = true // another text
		}
		for _, n := range []string{"(*regexp.Regexp).MatchString", "(go/token.Token).IsOperator", "(go/token.Token).IsKeyword", "(go/token.Token).IsLiteral",
			"(*strings.Builder).WriteString", "(*strings.Builder).String", "(*go/token.FileSet).Base", "(*go/token.File).Base", "unicode.IsLetter", "unicode.IsDigit", "unicode/utf8.DecodeLastRuneInString"} {
			e.unmodelled[n] = true // any answer
		}
		source := e.symVal(v.st, types.Typ[types.String], "source", "source").(StrV)
		st0 := v.st
		st0.ghost["n"], st0.ghost["total"] = IntV{linConst(0)}, IntV{linConst(0)}
		// the files scanned
		check := func(st *State, ok bool, rule string, pos pos0, format string, a ...any) bool {
			if !ok && st.zone.infeasible() {
				return true
			}
			if u, isU := st.ghost["unmodelled"]; !ok && isU {
				e.undecided("%s.%s: depends on %s", v.rule, rule, u.(StrV).s)
				return false
			}
			e.Check(st, ok, v.rule+"."+rule, pos, format, a...)
			return ok
		}
		offset := func(st *State, x Lin) (Lin, bool) {
			b, ok := st.ghost["filebase"].(IntV)
			if !ok {
				return Lin{}, false
			}
			return x.sub(b.l), true
		}
		missing := func(st *State, pos pos0) {
			if _, p := st.ghost["pos"]; p && st.ghost["scanned"] != nil {
				check(st, false, "every", pos, "a scanned token is left out")
			}
		}
		delete(st0.ghost, "pos")
		delete(st0.ghost, "P0")
		forget := func(st *State) {
			for _, g := range []string{"scanned", "pos", "tok", "lit", "name", "apart", "apart.re"} {
				delete(st.ghost, g)
			}
		}
		next := func(c *CallCtx) func(st *State) []Result {
			return func(st *State) []Result {
				end := st.clone()
				forget(end)
				end.ghost["end"] = BoolV{fBool(true)}
				rt := c.sig.Results()
				ev := e.freshResults(end, rt, "Scan").(TupleV)
				ev.v[1], ev.v[2] = IntV{linConst(eof)}, StrV{}
				t := e.freshResults(st, rt, "Scan").(TupleV)
				tok := e.lin(t.v[1])
				e.assume(st, &Form{op: fEQ, lin: tok.addc(-eof)}, false)
				if st.ghost["nocomment"] != nil {
					e.assume(st, &Form{op: fEQ, lin: tok.addc(-comment)}, false)
				}
				st.ghost["scanned"] = BoolV{fBool(true)}
				st.ghost["pos"], st.ghost["tok"], st.ghost["lit"] = t.v[0], t.v[1], t.v[2]
				st.ghost["name"] = e.symStr(st, "", "name of the token")
				st.zw().addLE(strLen(st.ghost["name"].(StrV)).neg().addc(1))
				return []Result{{st: end, ret: ev}, {st: st, ret: t}}
			}
		}
		pending := func(st *State) { st.ghost["error"] = BoolV{fBool(true)} }
		e.errHook = func(c *CallCtx) []Result {
			st := c.st
			switch c.fn.String() {
			case "go/token.NewFileSet":
				r := e.defaultCall(c)[0].ret
				st.nilF[objOf(r)] = false
				st.ghost["fset"], st.ghost["fsetbase"] = r, IntV{linConst(1)}
				return one(st, r)
			case "(*go/token.FileSet).Base":
				if b, ok := st.ghost["fsetbase"]; ok && e.same(st, st.ghost["fset"], c.args[0]) {
					return one(st, b)
				}
				return nil
			case "(*go/token.FileSet).AddFile":
				r := e.defaultCall(c)[0].ret
				st.nilF[objOf(r)] = false
				b := e.lin(c.args[2])
				if st.zone.ub(b) < 0 {
					fb, ok := st.ghost["fsetbase"].(IntV)
					if !ok || !e.same(st, st.ghost["fset"], c.args[0]) {
						fb = IntV{linSym(e.freshSym("base"))}
					}
					b = fb.l
				}
				st.ghost["file"], st.ghost["filebase"] = r, IntV{b}
				delete(st.ghost, "fsetbase")
				return one(st, r)
			case "(*go/token.File).Base":
				if b, ok := st.ghost["filebase"]; ok && e.same(st, st.ghost["file"], c.args[0]) {
					return one(st, b)
				}
				return nil
			case "(*go/token.File).Offset":
				if o, ok := offset(st, e.lin(c.args[1])); ok && e.same(st, st.ghost["file"], c.args[0]) {
					return one(st, IntV{o})
				}
				return nil
			case "(*go/token.File).Position", "(*go/token.FileSet).Position":
				r, isS := e.defaultCall(c)[0].ret.(StructV)
				o, ok := offset(st, e.lin(c.args[1]))
				if !isS || !ok {
					return nil
				}
				return one(st, v.withField(st, r, "Offset", IntV{o}))
			case "(go/token.Token).String":
				if t, ok := st.ghost["tok"]; ok && e.same(st, t, c.args[0]) {
					return one(st, st.ghost["name"])
				}
				if n, ok := e.lin(c.args[0]).isConst(); ok && n == eof {
					return one(st, StrV{s: "EOF"})
				}
				return e.defaultCall(c)
			case "(*go/scanner.Scanner).Init":
				if m, ok := e.lin(c.args[4]).isConst(); ok && okC && m&1 == 0 { // goscanner.ScanComments
					st.ghost["nocomment"] = BoolV{fBool(true)}
				} else {
					delete(st.ghost, "nocomment")
				}
				missing(st, c.pos)
				scanInit(c)
				src := e.asSlice(st, c.args[2], nil)
				if t := e.get(st, src.arr).tag; t != nil && t.kind == "ofstr" {
					check(st, e.same(st, t.args[0], source), "source", c.pos, "what is scanned is not the source text (%s)", e.show(st, t.args[0]))
				}
				check(st, e.same(st, c.args[1], st.ghost["file"]), "source", c.pos, "the file scanned is not the one made for the source")
				return one(st, TupleV{})
			case "(*go/scanner.Scanner).Scan":
				missing(st, c.pos)
				forget(st)
				return scanResults(c, pending, next(c))
			case "errors.Join":
				return joinErrors(c)
			case "regexp.MustCompile":
				r := e.defaultCall(c)[0].ret
				st.nilF[objOf(r)] = false
				if re, ok := c.args[0].(StrV); ok && re.obj == 0 {
					st.ghost[fmt.Sprint("regexp ", c.pos)], st.ghost[fmt.Sprint("regexp of ", c.pos)] = r, re
				}
				return one(st, r)
			case "(*regexp.Regexp).MatchString":
				r := e.defaultCall(c)[0].ret
				lit, ok := st.ghost["lit"]
				var re Val
				for g, x := range st.ghost {
					if at, ok := strings.CutPrefix(g, "regexp of "); ok && e.same(st, st.ghost["regexp "+at], c.args[0]) {
						re = x
					}
				}
				if ok && re != nil && !e.same(st, c.args[1], lit) && !e.same(st, c.args[1], st.ghost["name"]) {
					st.ghost["apart"], st.ghost["apart.re"] = r, re
				}
				return one(st, r)
			}
			if short(c.fn) == "joeson.NewTokenStream" {
				r := e.defaultCall(c)[0].ret
				st.nilF[objOf(r)] = false
				missing(st, c.pos)
				st.ghost["made"] = r
				check(st, e.same(st, c.args[0], source), "original", c.pos, "the stream is not over the source text")
				if e.appends > 0 {
					check(st, v.eqLin(st, e.asSlice(st, c.args[1], nil).len, ghostLin(st, "n")), "count", c.pos, "the stream does not have one token per token scanned")
				} else {
					e.undecided("%s: how tokens are collected is not understood", v.rule)
				}
				return one(st, r)
			}
			return nil
		}
		e.OnAppend = func(e *Engine, st *State, base SliceV, added Val, res *Obj, pos pos0) {
			tv, ok := added.(StructV)
			if !ok || typeStr(tv.typ) != "Token" {
				return
			}
			e.appends++
			if st.ghost["scanned"] == nil {
				check(st, false, "every", pos, "a token that was not scanned is added")
				return
			}
			check(st, v.eqLin(st, base.len, ghostLin(st, "n")), "order", pos, "a token is not added after the ones before it")
			repr := v.structField(st, tv, "Repr").(StrV)
			v.tokenText(st, repr, pos, check)
			o, ok := offset(st, e.lin(st.ghost["pos"]))
			check(st, ok && v.eqLin(st, e.lin(v.structField(st, tv, "OriginalOffset")), o), "original-offset", pos, "the offset kept is not the one of the token in the source")
			check(st, v.eqLin(st, e.lin(v.structField(st, tv, "WorkOffset")), ghostLin(st, "total")), "work-offset", pos, "the offset in the tokenized text is not the total length of the tokens before")
			st.ghost["n"] = IntV{ghostLin(st, "n").addc(1)}
			st.ghost["total"] = IntV{ghostLin(st, "total").add(strLen(repr))}
			forget(st)
		}
		good, bad := 0, 0
		for _, o := range v.noPanic(v.run(fn, source), true) {
			t, isT := o.ret.(TupleV)
			if !isT {
				continue
			}
			st := o.st
			er := e.nilness(st, t.v[1])
			missing(st, o.pos)
			if st.ghost["error"] != nil {
				bad++
				check(st, er == no, "reported", o.pos, "the scanner reported an error and none is returned")
				check(st, er != no || e.nilness(st, t.v[0]) == yes, "no-stream", o.pos, "a stream is returned together with an error")
				continue
			}
			good++
			check(st, er == yes, "no-error", o.pos, "an error is returned although the scanner reported none")
			check(st, st.ghost["end"] != nil, "all", o.pos, "the scan stops before the end of the source")
			if _, made := st.ghost["made"]; !made && er == yes {
				e.undecided("%s: how the stream is made is not understood", v.rule)
				continue
			}
			check(st, er != yes || e.same(st, t.v[0], st.ghost["made"]), "stream", o.pos, "the stream returned is not the one made of the tokens")
		}
		v.reached(good, 1)
		v.reached(bad, 1)
		v.done()
	})
}

// tokenText: the text of a token is the one scanned, maybe after spaces.
func (v *Env) tokenText(st *State, repr StrV, pos pos0, check func(*State, bool, string, pos0, string, ...any) bool) {
	e := v.e
	whole := repr
	for repr.obj != 0 {
		t := e.get(st, repr.obj).tag
		if t == nil || t.kind != "concat" {
			break
		}
		a := t.args[0].(StrV)
		if a.obj != 0 || strings.Trim(a.s, " ") != "" {
			break
		}
		repr = t.args[1].(StrV)
	}
	lit := st.ghost["lit"].(StrV)
	some, none := st.clone(), st.clone()
	e.assume(some, leForm(strLen(lit)), false)
	e.assume(none, leForm(strLen(lit)), true)
	if alive(some) {
		auto := some.clone()
		nl := e.eqForm(some, lit, StrV{s: "\n"})
		e.assume(auto, nl, true)
		e.assume(some, nl, false)
		if alive(auto) {
			check(auto, repr.obj == 0 && strings.HasPrefix(repr.s, ";") || e.same(auto, repr, lit), "text", pos, "the text of an automatic semicolon is neither a semicolon nor the end of the line")
		}
		if alive(some) {
			check(some, e.same(some, repr, lit), "text", pos, "the text kept is not the one scanned (%s)", e.show(some, repr))
			if !e.same(some, whole, repr) {
				check(some, true, "apart", pos, "")
			} else if b, ok := some.ghost["apart"]; ok {
				f := e.form(some, b)
				if e.decide(some, f) == no {
					r, left := unmatchedWord(some.ghost["apart.re"].(StrV).s)
					check(some, !left, "apart", pos, "a word is run together with the one before when that ends in %q", r)
				} else {
					check(some, false, "apart", pos, "a word is run together with the one before")
				}
			}
		}
	}
	if alive(none) {
		check(none, e.same(none, repr, none.ghost["name"]), "text", pos, "the text kept is not that of the operator scanned (%s)", e.show(none, repr))
	}
}

type wordEnd struct {
	r    rune
	left bool
}

var wordOf = map[string]wordEnd{}

// unmatchedWord: a letter or digit such that a word ending in it does not match.
func unmatchedWord(re string) (r rune, left bool) {
	if m, ok := wordOf[re]; ok {
		return m.r, m.left
	}
	defer func() { wordOf[re] = wordEnd{r, left} }()
	x, err := regexp.Compile(re)
	if err != nil {
		return 0, false
	}
	if !x.MatchString("x_") {
		return '_', true
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if (unicode.IsLetter(r) || unicode.IsDigit(r)) && !x.MatchString("x"+string(r)) {
			return r, true
		}
	}
	return 0, false
}

func alive(st *State) bool { return !st.dead && !st.zone.bad }

func init() {
	checks["C23"] = checkDef{rule: "every token the scanner gives, up to its end and in order, is added once, with its text, kept apart from a word before, its position in the file made for the source, and the total length of the texts added before; the stream is made of the source and all of them; an error, and no stream, is returned on exactly the paths on which the scanner reported an error",
		f: func(p *Prog, rep *Report) {
			checkGoTokens(p, rep)
			rep.floor("TokenStreamFromGoCode.text", 3)
			rep.floor("TokenStreamFromGoCode.apart", 2)
			rep.floor("TokenStreamFromGoCode.reported", 1)
			rep.floor("TokenStreamFromGoCode.work-offset", 3)
		}}
}
