package main

// C27: trace options.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// traceWant: expected options; a nil value is not determined
type traceWant map[string]Val

func (p *Prog) traceFields() (fs []string) {
	t := p.typ("TraceOptions")
	if t == nil {
		return nil
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i).Name())
	}
	return
}

func muteWant(p *Prog) traceWant {
	w := traceWant{}
	for _, f := range p.traceFields() {
		w[f] = BoolV{fBool(false)}
	}
	w["FilterLine"] = IntV{linConst(-1)}
	return w
}

func verboseWant(p *Prog) traceWant {
	w := muteWant(p)
	for _, f := range []string{"Stack", "Grammar", "SkipSetup"} {
		w[f] = BoolV{fBool(true)}
	}
	return w
}

// the documented words
var traceWords = map[string]func(p *Prog, w traceWant) traceWant{
	"none":      func(p *Prog, w traceWant) traceWant { return muteWant(p) },
	"all":       func(p *Prog, w traceWant) traceWant { return verboseWant(p) },
	"stack":     func(p *Prog, w traceWant) traceWant { w["Stack"] = BoolV{fBool(true)}; return w },
	"loop":      func(p *Prog, w traceWant) traceWant { w["Loop"] = BoolV{fBool(true)}; return w },
	"grammar":   func(p *Prog, w traceWant) traceWant { w["Grammar"] = BoolV{fBool(true)}; return w },
	"skipsetup": func(p *Prog, w traceWant) traceWant { w["SkipSetup"] = BoolV{fBool(true)}; return w },
	"line=":     nil,
	"?":         nil,
}

func (v *Env) traceSame(st *State, opt PtrV, w traceWant) (bool, string) {
	for _, f := range v.p.traceFields() {
		if w[f] == nil {
			continue
		}
		if got := v.loadField(st, opt, f); !v.e.same(st, got, w[f]) {
			return false, fmt.Sprintf("%s is %s", f, v.e.show(st, got))
		}
	}
	return true, ""
}

func checkTraceOptions(p *Prog, rep *Report) {
	if len(p.traceFields()) == 0 {
		rep.lost = append(rep.lost, "TraceOptions was not found")
		return
	}
	for name, want := range map[string]traceWant{"Mute": muteWant(p), "Verbose": verboseWant(p)} {
		guard(rep, name, func() {
			v := newEnv(p, rep, name)
			n := 0
			for _, o := range v.noPanic(v.run(p.fn(name)), true) {
				n++
				r, ok := o.ret.(PtrV)
				if !ok {
					v.e.undecided("%s: what is returned is not understood", name)
					continue
				}
				same, what := v.traceSame(o.st, r, want)
				v.e.Check(o.st, same, name+".options", o.pos, "%s() is not as documented: %s", name, what)
				v.e.Check(o.st, v.e.get(o.st, r.obj).fresh, name+".fresh", o.pos, "%s() gives options that others share", name)
			}
			v.reached(n, 1)
			v.done()
		})
	}
	guard(rep, "TraceOptions.Copy", func() {
		v := newEnv(p, rep, "TraceOptions.Copy")
		self := v.selfPtr("TraceOptions")
		want := traceWant{}
		for _, f := range p.traceFields() {
			want[f] = v.loadField(v.st, self, f)
		}
		n := 0
		for _, o := range v.noPanic(v.run(p.method("TraceOptions", "Copy"), self), true) {
			n++
			r, ok := o.ret.(PtrV)
			if !ok {
				v.e.undecided("Copy: what is returned is not understood")
				continue
			}
			same, what := v.traceSame(o.st, r, want)
			v.e.Check(o.st, same, "TraceOptions.Copy.equal", o.pos, "the copy differs from the original: %s", what)
			v.e.Check(o.st, r.obj != self.obj && v.e.get(o.st, r.obj).fresh, "TraceOptions.Copy.independent", o.pos, "the copy is not independent of the original")
			same, what = v.traceSame(o.st, self, want)
			v.e.Check(o.st, same, "TraceOptions.Copy.original", o.pos, "copying changes the original: %s", what)
		}
		v.reached(n, 1)
		v.done()
	})
	for _, name := range []string{"TraceOptionsFromEnvironmentOrUse", "DefaultTraceOptions"} {
		for _, cs := range []string{"TRACE", "trace", ""} {
			guard(rep, name, func() { traceEnv(p, rep, p.fn(name), name, cs) })
		}
	}
}

// traceEnv: the options when the variable set is set (none when "").
func traceEnv(p *Prog, rep *Report, fn *ssa.Function, name, set string) {
	v := newEnv(p, rep, name)
	e := v.e
	e.OnElem = nil
	e.inlineText = true
	if fn == nil {
		rep.lost = append(rep.lost, name+" was not found")
		return
	}
	soft := map[string]bool{}
	e.unmodelled = soft
	str := types.Typ[types.String]
	env := e.symVal(v.st, str, "env", "env").(StrV)
	other := e.symVal(v.st, str, "env2", "env2").(StrV)
	z := v.st.zw()
	z.addLE(strLen(env).neg().addc(1))
	var words []string
	for w := range traceWords {
		words = append(words, w)
	}
	sort.Strings(words)
	words = append(words, "filterline=")
	defaults := traceWant{}
	var args []Val
	for _, prm := range fn.Params {
		a := e.symVal(v.st, prm.Type(), "defaults", "defaults")
		if ptr, ok := a.(PtrV); ok {
			v.st.nilF[ptr.obj] = false
			for _, f := range p.traceFields() {
				defaults[f] = v.loadField(v.st, ptr, f)
			}
		}
		args = append(args, a)
	}
	if len(fn.Params) == 0 {
		defaults = muteWant(p)
		defaults["Grammar"], defaults["SkipSetup"] = BoolV{fBool(true)}, BoolV{fBool(true)}
	}
	asked := false // the variable that is set may have been looked up
	get := func(st *State, key Val) (Val, bool) {
		k, ok := key.(StrV)
		if !ok || k.obj != 0 {
			return nil, false
		}
		if k.s == set || k.s == "trace" {
			asked = true
		}
		switch {
		case k.s == set:
			return env, true
		case k.s == "trace" && set == "TRACE":
			return other, true
		case k.s == "trace" || k.s == "TRACE":
			return StrV{}, true
		}
		return nil, false
	}
	prefix := func(st *State, s StrV, w string, is bool) {
		e.assume(st, e.prefixForm(st, s, StrV{s: w}), is)
		if is {
			st.zw().addLE(strLen(s).neg().addc(int64(len(w))))
		}
	}
	lines := map[ObjID]string{} // words that set the line filter, and their prefix
	list := func(st *State, vs []Val) Val {
		o := e.newObj(OArray, str, "words")
		o.fresh = true
		st.heap[o.id] = o
		for i, x := range vs {
			e.elemSet(st, e.get(st, o.id), linConst(int64(i)), x, false)
		}
		return SliceV{o.id, linConst(0), linConst(int64(len(vs)))}
	}
	word := func(st *State, kind string, i int) Val {
		if traceWords[kind] != nil {
			return StrV{s: kind}
		}
		w := e.symStr(st, fmt.Sprintf("word%d(%s)", i, kind), "word")
		st.zw().addLE(strLen(w).neg().addc(1))
		for k := range traceWords {
			e.assume(st, e.eqForm(st, w, StrV{s: k}), false)
		}
		for _, l := range []string{"line=", "filterline="} {
			prefix(st, w, l, l == kind)
		}
		if kind != "?" {
			lines[w.obj] = kind
		}
		return w
	}
	number := func(x Val) (string, bool) {
		s, ok := x.(StrV)
		if !ok || lines[s.obj] == "" {
			return "", false
		}
		return fmt.Sprintf("number%d", s.obj), s.lo.equal(linConst(int64(len(lines[s.obj]))))
	}
	var splits int
	e.errHook = func(c *CallCtx) []Result {
		st := c.st
		switch c.fn.String() {
		case "os.Getenv":
			if r, ok := get(st, c.args[0]); ok {
				return one(st, r)
			}
		case "os.Environ", "os.ExpandEnv", "os.Expand", "syscall.Getenv", "syscall.Environ":
			asked = true
		case "os.LookupEnv":
			if r, ok := get(st, c.args[0]); ok {
				s := r.(StrV)
				none := st.clone()
				return []Result{{st: st, ret: TupleV{[]Val{s, BoolV{fBool(s.obj != 0)}}}}, {st: none, ret: TupleV{[]Val{s, BoolV{fBool(true)}}}}}
			}
		case "strings.Split":
			s, sep := c.args[0].(StrV), c.args[1].(StrV)
			if e.same(st, s, other) {
				st.ghost["other"] = BoolV{fBool(true)}
				return one(st, list(st, []Val{StrV{s: "none"}}))
			}
			if e.same(st, s, env) && sep.obj == 0 && sep.s == "," {
				splits++
				var rs []Result
				add := func(ks ...string) {
					st := st.clone()
					want := muteWant(p)
					for _, f := range p.traceFields() {
						st.ghost["want."+f] = want[f]
					}
					var ws []Val
					refuse := false
					for i, k := range ks {
						w := word(st, k, i)
						ws = append(ws, w)
						switch {
						case k == "?":
							refuse = true
						case traceWords[k] != nil:
							want = traceWords[k](p, want)
						default:
							want["FilterLine"] = IntV{linSym(e.symByName(fmt.Sprintf("number%d", w.(StrV).obj)))}
						}
					}
					for f, x := range want {
						st.ghost["want."+f] = x
					}
					if refuse {
						st.ghost["refuse"] = BoolV{fBool(true)}
					}
					st.note(c.pos, "the words are "+strings.Join(ks, ", "))
					rs = append(rs, Result{st: st, ret: list(st, ws)})
				}
				for _, a := range words {
					add(a)
					for _, b := range words {
						add(a, b)
					}
				}
				return rs
			}
			if k := lines[s.obj]; k != "" && sep.obj == 0 && sep.s == "=" {
				more := st.clone()
				more.ghost["malformed"] = BoolV{fBool(true)}
				n := e.substr(st, s, linConst(int64(len(k))), strLen(s))
				three := list(more, []Val{StrV{s: k[:len(k)-1]}, e.symStr(more, "", "part"), e.symStr(more, "", "part")})
				return []Result{{st: st, ret: list(st, []Val{StrV{s: k[:len(k)-1]}, n})}, {st: more, ret: three}}
			}
		case "strings.Cut":
			s, sep := c.args[0].(StrV), c.args[1].(StrV)
			if k := lines[s.obj]; k != "" && sep.obj == 0 && sep.s == "=" {
				return one(st, TupleV{[]Val{StrV{s: k[:len(k)-1]}, e.substr(st, s, linConst(int64(len(k))), strLen(s)), BoolV{fBool(true)}}})
			}
		case "strconv.Atoi":
			if n, ok := number(c.args[0]); ok {
				bad := st.clone()
				bad.ghost["malformed"] = BoolV{fBool(true)}
				er := e.symVal(bad, errorType, "", "err").(RefV)
				bad.nilF[er.obj] = false
				return []Result{{st: st, ret: TupleV{[]Val{IntV{linSym(e.symByName(n))}, NilV{}}}}, {st: bad, ret: TupleV{[]Val{IntV{linConst(0)}, er}}}}
			}
		}
		return nil
	}
	e.unroll, e.noMerge = 4, true
	rule := name
	n := 0
	check := func(st *State, ok bool, r string, pos pos0, format string, a ...any) {
		if !ok && st.zone.infeasible() {
			return
		}
		if u, isU := st.ghost["unmodelled"]; !ok && isU {
			e.undecided("%s.%s: depends on %s", rule, r, u.(StrV).s)
			return
		}
		e.Check(st, ok, rule+"."+r, pos, format, a...)
	}
	for _, o := range v.run(fn, args...) {
		n++
		st := o.st
		if o.panic != "" {
			if !isRuntimePanic(o.panic) {
				_, bad := st.ghost["malformed"]
				_, refuse := st.ghost["refuse"]
				check(st, bad || refuse, "refused", o.pos, "a documented word is refused (%s)", o.panic)
			} else {
				check(st, false, "no-panic", o.pos, "may panic (%s)", o.panic)
			}
			continue
		}
		r, ok := o.ret.(PtrV)
		if !ok {
			e.undecided("%s: what is returned is not understood", rule)
			continue
		}
		if set == "" {
			same, what := v.traceSame(st, r, defaults)
			if !same {
				if muted, _ := v.traceSame(st, r, muteWant(p)); muted {
					check(st, false, "default-ignored", o.pos, "without the environment variable the options are those of Mute(), not the defaults: %s", what)
					continue
				}
			}
			check(st, same, "default", o.pos, "without the environment variable the options are not the defaults: %s", what)
			continue
		}
		if _, other := st.ghost["other"]; other {
			check(st, false, "precedence", o.pos, "when both variables are set TRACE does not decide")
			continue
		}
		if splits == 0 && !asked {
			check(st, false, "read", o.pos, "the variable %s is never looked up", set)
			continue
		}
		if splits == 0 {
			e.undecided("%s: how the variable is read is not understood", rule)
			continue
		}
		_, split := st.ghost["want.FilterLine"]
		check(st, split, "read", o.pos, "the variable %s is not taken into account", set)
		if !split {
			continue
		}
		_, refuse := st.ghost["refuse"]
		check(st, !refuse, "unknown", o.pos, "an unknown word is not refused")
		_, bad := st.ghost["malformed"]
		if refuse || bad {
			continue
		}
		want := traceWant{}
		for _, f := range p.traceFields() {
			want[f] = st.ghost["want."+f]
		}
		same, what := v.traceSame(st, r, want)
		check(st, same, "words", o.pos, "the words do not switch on exactly what they name: %s", what)
	}
	v.reached(n, 1)
	v.done()
}

// checkSetupTrace: the options the texts of rules are compiled with
func checkSetupTrace(p *Prog, rep *Report) {
	text := func(name string, cb int) *spec { return &spec{i: name == "i", name: name, text: true, cb: cb} }
	for _, skip := range []bool{false, true} {
		for _, lazy := range []bool{false, true} {
			for _, lines := range [][]*spec{
				{text("", 0)},
				{text("X", 1), text("i", 2)},
				{{name: "K", kids: []*spec{text("X", 0), {name: "L", kids: []*spec{text("", 1)}}}}},
				{{name: "X", inner: text("", 0)}},
			} {
				programTraced(p, rep, lines, skip, lazy, func(c *compiler, cc *CallCtx, opts PtrV, given traceWant) {
					want := traceWant{}
					for k, v := range given {
						want[k] = v
					}
					what := "the options of the grammar"
					if skip {
						want["Loop"], want["Stack"] = BoolV{fBool(false)}, BoolV{fBool(false)}
						what = "them without Loop and Stack"
					}
					o, ok := c.loadField(cc.st, cc.args[1], "TraceOptions").(PtrV)
					if !ok {
						c.e.undecided("the trace options of a compilation are not understood")
						return
					}
					same, diff := c.traceSame(cc.st, o, want)
					c.e.Check(cc.st, same, "setup.trace", cc.pos, "with SkipSetup %v a text of the grammar is not compiled with %s: %s", skip, what, diff)
					same, diff = c.traceSame(cc.st, opts, given)
					c.e.Check(cc.st, same, "setup.kept", cc.pos, "compiling a text changes the options of the grammar: %s", diff)
				})
			}
		}
	}
}

// checkParseTrace: the options the rules run with, from the options given to
// a parse: those of the grammar, with the Stack trace when Debug is asked.
func checkParseTrace(p *Prog, rep *Report) {
	flag := func(name string, on bool) Val {
		t := p.typ(name)
		return IfaceV{t, StructV{typ: t, f: []Val{BoolV{fBool(on)}}}}
	}
	type given struct {
		what  string
		list  []Val
		debug bool
	}
	for _, name := range []string{"ParseString", "ParseTokens"} {
		for _, g := range []given{
			{"no option", nil, false},
			{"Debug", []Val{flag("Debug", true)}, true},
			{"Debug{false}", []Val{flag("Debug", false)}, false},
			{"SkipLog", []Val{flag("SkipLog", true)}, false},
			{"SkipCache", []Val{flag("SkipCache", true)}, false},
			{"SkipLog, Debug", []Val{flag("SkipLog", true), flag("Debug", true)}, true},
			{"Debug, SkipCache", []Val{flag("Debug", true), flag("SkipCache", true)}, true},
			{"Debug, Debug{false}", []Val{flag("Debug", true), flag("Debug", false)}, false},
		} {
			guard(rep, name, func() {
				v := newEnv(p, rep, name)
				e, st := v.e, v.st
				e.OnElem = nil
				self := v.selfPtr("Grammar")
				for _, f := range []string{"rule", "TraceOptions", "Attr", "rank"} {
					st.nilF[objOf(v.loadField(st, self, f))] = false
				}
				before := v.loadField(st, self, "TraceOptions")
				want := traceWant{}
				for _, f := range p.traceFields() {
					want[f] = v.loadField(st, before, f)
				}
				if g.debug {
					want["Stack"] = BoolV{fBool(true)}
				}
				st.zw().addLE(e.lin(v.loadField(st, self, "numrules")).neg())
				var text Val = e.symStr(st, "", "text")
				if name == "ParseTokens" {
					t := e.symVal(st, types.NewPointer(p.typ("TokenStream")), "tokens", "tokens").(PtrV)
					st.nilF[t.obj] = false
					text = t
				}
				e.hooks["joeson.NewRuneStream"] = func(c *CallCtx) []Result {
					s := e.symVal(c.st, p.typ("CodeStream"), "", "stream").(RefV)
					c.st.nilF[s.obj] = false
					return one(c.st, s)
				}
				for _, m := range []string{"workLength", "Pos"} {
					e.hooks["(*joeson.TokenStream)."+m] = e.ifHooks["CodeStream."+m]
				}
				n := 0
				e.ifHooks["Parser.parse"] = func(c *CallCtx) []Result {
					n++
					t, ok := v.loadField(c.st, c.args[0], "TraceOptions").(PtrV)
					if !ok {
						e.undecided("%s: the trace options of the parse are not understood", name)
						return nil
					}
					same, diff := v.traceSame(c.st, t, want)
					v.chk(c.st, same, "debug", c, "given %s, the rules are not run with the trace options of the grammar%s: %s", g.what, map[bool]string{true: " and the Stack trace"}[g.debug], diff)
					return nil
				}
				o := e.newObj(OArray, p.typ("ParseOption"), "options")
				st.heap[o.id] = o
				st.nilF[o.id] = false
				for i, x := range g.list {
					e.elemSet(st, e.get(st, o.id), linConst(int64(i)), x, false)
				}
				v.run(p.method("Grammar", name), self, text, SliceV{o.id, linConst(0), linConst(int64(len(g.list)))})
				v.reached(n, 1)
				v.done()
			})
		}
	}
}

func init() {
	checks["C27"] = checkDef{rule: "Mute, Verbose and every option of a copy are as documented; with TRACE (or, when it is empty, trace) set, for every pair of words each option is exactly the one the words name, starting from Mute; other words are refused; without the variables the defaults given are returned; the texts of a grammar are compiled with its options, without Loop and Stack when SkipSetup is on, which are left as they are; the rules run with the options of the grammar, and the Stack trace when Debug is given to the parse",
		f: func(p *Prog, rep *Report) {
			checkTraceOptions(p, rep)
			checkSetupTrace(p, rep)
			checkParseTrace(p, rep)
			rep.floor("ParseString.debug", 8)
			rep.floor("ParseTokens.debug", 8)
			rep.floor("setup.trace", 16)
			rep.floor("TraceOptions.Copy.equal", 1)
			rep.floor("TraceOptionsFromEnvironmentOrUse.words", 80)
		}}
}
