package main

// C17: lines compile to the rules they were written as.
//
// Programs (nestings of lines) are given to O, I, Named and rankFromLines,
// with texts, compiled parsers, callbacks and option values that are symbols:
// what the code does with them is followed, nothing is executed.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// spec is a line
type spec struct {
	i      bool   // an i line
	name   string // named
	text   bool   // the content is a text,
	comp   bool   // a compiled parser,
	inner  *spec  // an o line,
	kids   []*spec
	direct bool // the rank is given without Named's []Line
	cb     int  // callback: none or one of the signatures
	opts   []string
	before bool // options come before the callback
	bad    bool // the text does not parse

	id                int
	vText, vComp, vCb Val
	vOpts             map[string]Val
}

func (s *spec) String() string {
	r := "o"
	if s.i {
		r = "i"
	}
	r += "("
	switch c := ""; {
	default:
		switch {
		case s.text:
			c = "text"
		case s.comp:
			c = "parser"
		case s.inner != nil:
			c = s.inner.String()
		default:
			var l []string
			for _, k := range s.kids {
				l = append(l, k.String())
			}
			c = "rules(" + strings.Join(l, ", ") + ")"
		}
		if s.name != "" {
			c = "named(" + s.name + ", " + c + ")"
		}
		r += c
	}
	var opt []string
	for _, o := range s.opts {
		opt = append(opt, o)
	}
	if s.cb > 0 {
		f := fmt.Sprintf("func/%d", s.cb)
		if s.before {
			opt = append(opt, f)
		} else {
			opt = append([]string{f}, opt...)
		}
	}
	for _, o := range opt {
		r += ", " + o
	}
	return r + ")"
}

type compiler struct {
	onParse func(cc *CallCtx)
	*Env
	n      int
	gm     PtrV
	what   string // the program
	lazy   bool   // the grammar of the notation is given
	failed bool
}

func newCompiler(p *Prog, rep *Report) *compiler {
	c := &compiler{Env: newEnv(p, rep, "lines")}
	e := c.e
	e.OnElem = nil
	e.unroll, e.noMerge = 24, true
	e.recDepth = 8
	e.inlineText, e.inlineConcat = true, true
	e.wholeMaps = true
	soft := map[string]bool{}
	for k := range stdModels {
		soft[k] = true
	}
	e.unmodelled = soft
	textModels(e, soft)
	c.gm = e.symVal(c.st, types.NewPointer(p.typ("Grammar")), "notation", "").(PtrV)
	c.st.nilF[c.gm.obj] = false
	other := e.symVal(c.st, types.NewPointer(p.typ("Grammar")), "another grammar", "").(PtrV)
	c.st.nilF[other.obj] = false
	build := func(cc *CallCtx) []Result {
		if c.lazy {
			return one(cc.st, other)
		}
		return one(cc.st, c.gm)
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		soft[n] = true
	}
	for _, n := range []string{"NewJoesonWithOptions", "NewJoeson", "GrammarWithOptionsFromLines"} {
		e.hooks["joeson."+n] = build
	}
	e.hooks["joeson.NewRuneStream"] = func(cc *CallCtx) []Result {
		x := e.symVal(cc.st, cc.sig.Results().At(0).Type(), "", "stream")
		o := *e.get(cc.st, objOf(x))
		cc.st.nilF[o.id] = false
		o.tag = &Tag{"stream", []Val{cc.args[0]}}
		cc.st.heap[o.id] = &o
		return one(cc.st, x)
	}
	e.hooks["joeson.newParseContext"] = func(cc *CallCtx) []Result {
		x := e.symVal(cc.st, cc.sig.Results().At(0).Type(), "", "context").(PtrV)
		cc.st.nilF[x.obj] = false
		c.storeField(cc.st, x, "Code", cc.args[0])
		if len(cc.args) > 2 {
			c.storeField(cc.st, x, "TraceOptions", cc.args[2])
		}
		return one(cc.st, x)
	}
	e.hooks["(*joeson.Grammar).parse"] = func(cc *CallCtx) []Result {
		st := cc.st
		c.chk(st, e.same(st, cc.args[0], c.gm), "notation", cc, "%s: a text is parsed with another grammar than the one of the notation", c.what)
		if c.onParse != nil {
			c.onParse(cc)
		}
		text := c.textOf(st, cc.args[1])
		if text == nil {
			panic(engineErr("the text that is parsed was not recognised"))
		}
		if s, ok := text.(StrV); ok && s.obj != 0 && strings.HasPrefix(e.get(st, s.obj).name, "bad") {
			t := p.typ("ParseError")
			return one(st, IfaceV{t, e.symVal(st, t, "", "parse error")})
		}
		k := fmt.Sprintf("parsed %s", e.valKey(text))
		if st.ghost[k] != nil { // another parse gives another parser
			k += "'"
		}
		x := e.symVal(st, p.typ("Parser"), "", k).(RefV)
		st.nilF[x.obj] = false
		e.assume(st, &Form{op: fType, obj: x.obj, typ: p.typ("ParseError")}, false)
		o := *e.get(st, x.obj)
		o.tag = &Tag{"compiled", []Val{text}}
		st.heap[x.obj] = &o
		rl := c.ruleOf(st, x).(PtrV)
		c.storeField(st, rl, "name", StrV{})
		c.storeField(st, rl, "label", StrV{})
		c.storeField(st, rl, "parser", NilV{})
		c.storeField(st, rl, "parent", NilV{})
		// its own options, as newRule gives
		po := c.loadField(st, rl, "parseOptions").(PtrV)
		st.nilF[po.obj] = false
		c.storeField(st, po, "cb", NilV{})
		for _, f := range []string{"debug", "skipLog", "skipCache"} {
			c.storeField(st, po, f, BoolV{fBool(false)})
		}
		return one(st, x)
	}
	return c
}

// textOf: the text behind the stream of a context
func (c *compiler) textOf(st *State, ctx Val) Val {
	code := c.loadField(st, ctx, "Code")
	if iv, ok := code.(IfaceV); ok {
		code = iv.val
	}
	if t := c.e.tagOf(st, code); t != nil && t.kind == "stream" {
		return t.args[0]
	}
	return nil
}

func e2struct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func (c *compiler) ok(st *State, pos token.Pos, ok bool, rule, format string, a ...any) bool {
	if !ok {
		c.failed = true
		if st.zone.infeasible() {
			return false
		}
		if u, isU := st.ghost["unmodelled"]; isU {
			c.e.undecided("lines: depends on %s", u.(StrV).s)
			return false
		}
	}
	if pos == token.NoPos {
		fn := c.p.fn("getRule")
		switch rule {
		case "alternatives", "included", "included-order":
			fn = c.p.fn("rankFromLines")
		case "parent", "name":
			fn = c.p.method("OLine", "toRule")
		}
		if fn == nil {
			fn = c.p.fn("rankFromLines")
		}
		pos = fn.Pos()
	}
	return c.e.Check(st, ok, "lines."+rule, pos, "%s: %s", c.what, fmt.Sprintf(format, a...))
}

// call runs fn, which is to return in one way
func (c *compiler) call(fn *ssa.Function, args ...Val) Val {
	outs := c.run(fn, args...)
	if len(c.e.undec) > 0 {
		panic(engineErr("")) // said already
	}
	var o *Outcome
	for i := range outs {
		if outs[i].st.zone.infeasible() {
			continue
		}
		if o != nil {
			a, b := c.e.path(o.st), c.e.path(outs[i].st)
			for len(a) > 1 && len(b) > 1 && a[0] == b[0] {
				a, b = a[1:], b[1:]
			}
			panic(engineErr(fmt.Sprintf("%s has several outcomes: %v; %v", short(fn), a, b)))
		}
		o = &outs[i]
	}
	if o == nil {
		panic(engineErr(fmt.Sprintf("%s does not return", short(fn))))
	}
	c.st = o.st
	c.st.frames = nil
	if o.panic != "" {
		c.ok(o.st, o.pos, false, "accepted", "the lines are refused (%s)", o.panic)
		panic(engineErr(""))
	}
	return o.ret
}

func (c *compiler) list(et types.Type, xs []Val) SliceV {
	o := c.e.newObj(OArray, et, "list")
	c.st.heap[o.id] = o
	c.st.nilF[o.id] = false
	for i, x := range xs {
		c.e.elemSet(c.st, c.e.get(c.st, o.id), linConst(int64(i)), x, false)
	}
	return SliceV{o.id, linConst(0), linConst(int64(len(xs)))}
}

func (c *compiler) cbType(n int) *types.Signature {
	mk := func(ts ...types.Type) *types.Signature {
		var vs []*types.Var
		for _, t := range ts {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t))
		}
		res := types.NewVar(token.NoPos, nil, "", c.p.typ("Ast"))
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), types.NewTuple(res), false)
	}
	ast, ctx := c.p.typ("Ast"), types.NewPointer(c.p.typ("ParseContext"))
	switch n {
	case 1:
		return mk(ast)
	case 2:
		return mk(ast, ctx)
	}
	return mk(ast, ctx, ast)
}

// line builds the value of a line, in an interface
func (c *compiler) line(s *spec) Val {
	e, st := c.e, c.st
	c.n++
	s.id = c.n
	lineT := c.p.typ("Line")
	var content Val // as any
	switch {
	case s.text:
		n := "text"
		if s.bad {
			n = "bad"
		}
		s.vText = e.symStr(st, fmt.Sprint(n, c.n), "")
		content = e.makeIface(st, types.Typ[types.String], s.vText)
	case s.comp:
		x := e.symVal(st, c.p.typ("Parser"), fmt.Sprint("parser", c.n), "").(RefV)
		st.nilF[x.obj] = false
		for _, t := range []string{"Line", "cLine"} {
			e.assume(st, &Form{op: fType, obj: x.obj, typ: c.p.typ(t)}, false)
		}
		rl := c.ruleOf(st, x).(PtrV)
		c.storeField(st, rl, "name", StrV{})
		c.storeField(st, rl, "parser", NilV{})
		c.storeField(st, rl, "parent", NilV{})
		po := c.loadField(st, rl, "parseOptions").(PtrV)
		st.nilF[po.obj] = false
		c.storeField(st, po, "cb", NilV{})
		for _, f := range []string{"debug", "skipLog", "skipCache"} {
			c.storeField(st, po, f, BoolV{fBool(false)})
		}
		s.vComp = x
		content = x
	case s.inner != nil:
		content = c.line(s.inner)
	default:
		var xs []Val
		for _, k := range s.kids {
			xs = append(xs, c.line(k))
		}
		l := c.list(lineT, xs)
		content = e.makeIface(c.st, types.NewSlice(lineT), l)
		if s.direct {
			content = e.makeIface(c.st, c.p.typ("ALine"), c.call(c.p.fn("NewALine"), l))
		}
	}
	if s.name != "" {
		content = e.makeIface(c.st, c.p.typ("NamedRule"), c.call(c.p.fn("Named"), StrV{s: s.name}, content))
	}
	st = c.st
	args := []Val{content}
	s.vOpts = map[string]Val{}
	var opts []Val
	for _, o := range s.opts {
		t := c.p.typ(o)
		b := e.symVal(st, types.Typ[types.Bool], fmt.Sprint(o, c.n), o)
		s.vOpts[o] = b
		opts = append(opts, e.makeIface(st, t, StructV{typ: t, f: []Val{b}}))
	}
	if s.before {
		args = append(args, opts...)
	}
	if s.cb > 0 {
		t := c.cbType(s.cb)
		f := e.symVal(st, t, fmt.Sprint("callback", s.id), "").(RefV)
		st.nilF[f.obj] = false
		s.vCb = f
		args = append(args, e.makeIface(st, t, f))
	}
	if !s.before {
		args = append(args, opts...)
	}
	any := types.NewInterfaceType(nil, nil)
	fn, t := c.p.fn("O"), "OLine"
	if s.i {
		fn, t = c.p.fn("I"), "ILine"
	}
	return e.makeIface(c.st, c.p.typ(t), c.call(fn, c.list(any, args)))
}

var optField = map[string]string{"Debug": "debug", "SkipLog": "skipLog", "SkipCache": "skipCache"}

// rule: the rule of a parser
func (c *compiler) rule(x Val) PtrV {
	if iv, ok := x.(IfaceV); ok {
		if s, isS := iv.val.(StructV); isS { // the rule of an embedded parser
			t, _ := e2struct(s.typ)
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Embedded() && s.f[i] != nil {
					return c.rule(s.f[i])
				}
			}
		}
		if n, isN := derefType(iv.typ).(*types.Named); isN {
			return c.call(c.p.method(n.Obj().Name(), "getRule"), iv.val).(PtrV)
		}
	}
	return c.ruleOf(c.st, x).(PtrV)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// holds: x is what s was to compile to
func (c *compiler) holds(s *spec, x Val, name string, parent Val) {
	e := c.e
	rl := c.rule(x)
	st := c.st
	get := func(f string) Val { return c.loadField(c.st, rl, f) }
	nm, isS := get("name").(StrV)
	c.ok(st, token.NoPos, isS && e.same(st, nm, StrV{s: name}), "name", "%s is not named %s but %s", s, name, e.show(st, get("name")))
	c.ok(st, token.NoPos, e.same(st, get("parser"), x), "rule", "%s is not the rule it is said to be", s)
	if !s.i {
		c.ok(st, token.NoPos, e.same(st, get("parent"), parent), "parent", "%s does not belong to the rank it was written in", s)
	}
	// its content
	in := s
	for in.inner != nil {
		in = in.inner
	}
	switch {
	case in.text:
		t := e.tagOf(st, x)
		c.ok(st, token.NoPos, t != nil && t.kind == "compiled" && e.same(st, t.args[0], in.vText), "text", "%s is not the parse of its text", s)
	case in.comp:
		c.ok(st, token.NoPos, e.same(st, x, in.vComp), "compiled", "%s is not the parser it was given", s)
	default:
		iv, isI := x.(IfaceV)
		if c.ok(st, token.NoPos, isI && typeStr(iv.typ) == "*rank", "rank", "%s is not a rank", s) {
			c.rankHolds(in.kids, iv, name)
		}
	}
	// its callback: the outer one of nested lines
	var cb *spec
	for l := s; l != nil; l = l.inner {
		if l.cb > 0 {
			cb = l
			break
		}
	}
	po := c.loadField(c.st, rl, "parseOptions")
	f := c.loadField(c.st, po, "cb")
	if cb == nil {
		c.ok(c.st, token.NoPos, e.nilness(c.st, f) == yes, "callback", "%s has a callback", s)
	} else {
		c.callback(s, cb, f)
	}
	for _, opt := range []string{"Debug", "SkipLog", "SkipCache"} {
		var given []Val
		for l := s; l != nil; l = l.inner {
			if v, ok := l.vOpts[opt]; ok {
				given = append(given, v)
			}
		}
		po := c.loadField(c.st, rl, "parseOptions")
		b := c.loadField(c.st, po, optField[opt])
		switch len(given) {
		case 0:
			c.ok(c.st, token.NoPos, e.same(c.st, b, BoolV{fBool(false)}), "option", "%s has the option %s", s, opt)
		case 1:
			c.same(s, b, given[0], opt)
		}
	}
}

// same: the option has the value given, whatever it is
func (c *compiler) same(s *spec, b, given Val, opt string) {
	e := c.e
	ok := e.same(c.st, b, given)
	if !ok {
		ok = true
		for _, val := range []bool{true, false} {
			st := c.st.clone()
			e.assume(st, given.(BoolV).f, val)
			if st.dead {
				continue
			}
			d := e.decide(st, e.form(st, b))
			ok = ok && (val && d == yes || !val && d == no)
		}
	}
	c.ok(c.st, token.NoPos, ok, "option", "%s does not have the value of its option %s", s, opt)
}

// callback: f calls the function given once and gives its result
func (c *compiler) callback(s, from *spec, f Val) {
	e := c.e
	if e.nilness(c.st, f) == yes {
		c.ok(c.st, token.NoPos, false, "callback", "%s lost its callback", s)
		return
	}
	if r, ok := f.(RefV); ok {
		c.ok(c.st, token.NoPos, from.cb == 3 && e.same(c.st, r, from.vCb), "callback", "%s has the callback of something else", s)
		return
	}
	fv, ok := f.(FuncV)
	if !ok || fv.fn == nil {
		panic(engineErr("a callback was not recognised"))
	}
	ast := c.p.typ("Ast")
	args := []Val{e.symVal(c.st, ast, "it", "it"), c.ctx, e.symVal(c.st, ast, "caller", "caller")}
	var called int
	res := e.symVal(c.st, ast, "", "result of the callback")
	e.dynHook = func(cc *CallCtx) []Result {
		st := cc.st
		called++
		c.chk(st, e.same(st, cc.recv, from.vCb), "callback", cc, "%s: %s runs the callback of another line", c.what, s)
		for i, a := range cc.args {
			c.chk(st, e.same(st, a, args[i]), "callback", cc, "%s: %s: the callback is given something else", c.what, s)
		}
		return one(st, res)
	}
	st := c.st
	outs := func() (r []Outcome) {
		old := c.st
		c.st = st.clone()
		defer func() { c.st = old }()
		c.st.frames = nil
		defer func() {
			if x := recover(); x != nil {
				if ee, isE := x.(engineErr); isE {
					panic(ee)
				}
				panic(x)
			}
		}()
		return e.Run(c.st, fv.fn, args[:len(fv.fn.Params)], fv.binds)
	}()
	e.dynHook = nil
	c.ok(st, fv.fn.Pos(), called == 1 && len(outs) == 1, "callback", "%s: the callback is called %d times", s, called)
	for _, o := range outs {
		c.ok(o.st, o.pos, o.panic == "" && e.same(o.st, o.ret, res), "callback", "%s: the result of the callback is not the one of the rule", s)
	}
}

// rankHolds: x is the rank of the lines
func (c *compiler) rankHolds(lines []*spec, x IfaceV, name string) {
	e := c.e
	var holder Val = x.val
	var lst child
	for _, k := range c.p.children(c.p.typ("rank")) {
		if k.list {
			lst = k
		}
	}
	if lst.path == nil {
		panic(engineErr("the alternatives of a rank were not recognised"))
	}
	for _, f := range lst.path[:len(lst.path)-1] {
		holder = c.loadField(c.st, holder, f)
	}
	choices := e.asSlice(c.st, c.loadField(c.st, holder, lst.path[len(lst.path)-1]), nil)
	rl := c.rule(x)
	st := c.st
	var alts, incl []*spec
	for _, s := range lines {
		if s.i {
			incl = append(incl, s)
		} else {
			alts = append(alts, s)
		}
	}
	if c.ok(st, token.NoPos, c.eqLin(st, choices.len, linConst(int64(len(alts)))), "alternatives", "there is not one alternative per o line in %s", name) {
		for j, s := range alts {
			el := e.elemGet(c.st, e.get(c.st, choices.arr), choices.off.addc(int64(j)))
			n := s.name
			for in := s.inner; n == "" && in != nil; in = in.inner {
				n = in.name
			}
			if n == "" {
				n = fmt.Sprintf("%s[%d]", name, j)
			}
			c.holds(s, el, n, x)
		}
	}
	st = c.st
	keys := e.asSlice(st, c.loadField(st, rl, "rulesK"), nil)
	if c.ok(st, token.NoPos, c.eqLin(st, keys.len, linConst(int64(len(incl)))), "included", "there is not one rule included per i line in %s", name) {
		for j, s := range incl {
			k := e.elemGet(c.st, e.get(c.st, keys.arr), keys.off.addc(int64(j)))
			c.ok(c.st, token.NoPos, e.same(c.st, k, StrV{s: s.name}), "included-order", "%s is not included in its place", s)
		}
	}
	m, isR := c.loadField(c.st, rl, "rules").(RefV)
	if !isR {
		panic(engineErr("the rules included were not recognised"))
	}
	n := 0
	for _, en := range e.get(c.st, m.obj).entries {
		if en.present {
			n++
		}
	}
	c.ok(c.st, token.NoPos, n == len(incl), "included", "%d rules are included in %s, %d were written", n, name, len(incl))
	for _, s := range incl {
		var found Val
		for _, en := range e.get(c.st, m.obj).entries {
			if k, isS := en.k.(StrV); isS && k.obj == 0 && k.s == s.name && en.present {
				found = en.v
			}
		}
		if c.ok(c.st, token.NoPos, found != nil, "included", "%s is not available by its name", s) {
			c.holds(s, found, s.name, x)
		}
	}
}

// program compiles the lines and looks at the result
func program(p *Prog, rep *Report, lines []*spec, skipSetup, lazy bool) {
	programTraced(p, rep, lines, skipSetup, lazy, nil)
}

// programTraced: onParse is asked at each compilation of a text, with the
// options the program was given
func programTraced(p *Prog, rep *Report, lines []*spec, skipSetup, lazy bool, onParse func(c *compiler, cc *CallCtx, opts PtrV, given traceWant)) {
	var l []string
	for _, s := range lines {
		l = append(l, s.String())
	}
	what := strings.Join(l, ", ")
	guardQuiet(rep, what, func() {
		c := newCompiler(p, rep)
		c.what, c.lazy = what, lazy
		defer c.done()
		e, st := c.e, c.st
		var xs []Val
		for _, s := range lines {
			xs = append(xs, c.line(s))
		}
		st = c.st
		ot := p.typ("GrammarOptions")
		opts := e.symVal(st, ot, "", "options").(StructV)
		s, _ := e2struct(ot)
		for i := 0; i < s.NumFields(); i++ {
			switch f := s.Field(i); {
			case f.Name() == "TraceOptions":
				t := e.symVal(st, f.Type(), "trace", "trace").(PtrV)
				st.nilF[t.obj] = false
				c.storeField(st, t, "SkipSetup", BoolV{fBool(skipSetup)})
				if onParse != nil {
					given := traceWant{}
					for _, f := range p.traceFields() {
						given[f] = c.loadField(st, t, f)
					}
					c.onParse = func(cc *CallCtx) { onParse(c, cc, t, given) }
				}
				opts.f[i] = t
			case f.Name() == "LazyGrammar":
				opts.f[i] = NilV{}
				if lazy {
					cons, _ := lazyConstructors(p, f.Type().(*types.Pointer).Elem())
					if cons == nil {
						panic(engineErr("no constructor makes a Lazy from a value"))
					}
					outs := c.run(cons, c.gm)
					if len(outs) != 1 || outs[0].panic != "" {
						panic(engineErr("the constructor of a Lazy has several outcomes"))
					}
					st = outs[0].st
					st.frames = nil
					c.st = st
					opts.f[i] = outs[0].ret
				}
			default:
				opts.f[i] = e.symVal(st, f.Type(), "", f.Name())
			}
		}
		fn := p.fn("rankFromLines")
		args := []Val{c.list(p.typ("Line"), xs), StrV{s: "G"}, opts}
		bad := false
		for _, s := range lines {
			bad = bad || s.hasBad()
		}
		if bad {
			outs := c.run(fn, args...)
			if len(e.undec) > 0 {
				return
			}
			c.ok(c.st, fn.Pos(), len(outs) > 0, "bad-text", "the construction does not end")
			for _, o := range outs {
				c.ok(o.st, o.pos, strings.HasPrefix(o.panic, "explicit"), "bad-text", "a text that does not parse does not stop the construction with an error %s", o.panic)
			}
			return
		}
		outs := c.run(fn, args...)
		if len(e.undec) > 0 {
			return
		}
		c.ok(c.st, fn.Pos(), len(outs) > 0, "accepted", "the construction does not end")
		for _, o := range outs {
			if o.st.zone.infeasible() {
				continue
			}
			c.st = o.st
			c.st.frames = nil
			if c.ok(o.st, o.pos, o.panic == "", "accepted", "the lines are refused (%s)", o.panic) {
				c.rankHolds(lines, IfaceV{fn.Signature.Results().At(0).Type(), o.ret}, "G")
			}
		}
	})
}

func (s *spec) hasBad() bool {
	if s.bad || s.inner != nil && s.inner.hasBad() {
		return true
	}
	for _, k := range s.kids {
		if k.hasBad() {
			return true
		}
	}
	return false
}

// guardQuiet: like guard, for reasons given already
func guardQuiet(rep *Report, what string, f func()) {
	guard(rep, what, func() {
		defer func() {
			if r := recover(); r != nil {
				if ee, ok := r.(engineErr); ok && string(ee) == "" {
					return
				}
				panic(r)
			}
		}()
		f()
	})
}

// contents: the kinds of content a line may have
func contents() (r []func() *spec) {
	add := func(f func() *spec) { r = append(r, f) }
	text := func() *spec { return &spec{text: true} }
	comp := func() *spec { return &spec{comp: true} }
	rank := func() *spec {
		return &spec{kids: []*spec{
			{text: true, cb: 2},
			{i: true, name: "B", comp: true, opts: []string{"SkipCache"}},
			{name: "A", text: true, opts: []string{"SkipLog"}, cb: 1},
			{comp: true},
			{i: true, name: "C", text: true, cb: 3},
		}}
	}
	rank1 := func() *spec { r := rank(); r.direct = true; return r }
	deep := func() *spec {
		return &spec{kids: []*spec{
			{name: "D", kids: []*spec{{name: "E", kids: []*spec{{text: true}, {i: true, name: "F", text: true}}}, {text: true, cb: 1}}},
			{text: true},
			{name: "H", inner: &spec{direct: true, kids: []*spec{{text: true, opts: []string{"Debug"}}}}},
		}}
	}
	add(text)
	add(comp)
	add(rank)
	add(rank1)
	add(deep)
	for _, in := range []func() *spec{text, comp, rank1} {
		in := in
		add(func() *spec { return &spec{inner: in()} })
		add(func() *spec { x := in(); x.cb = 2; return &spec{inner: x} })
		add(func() *spec { x := in(); x.opts = []string{"SkipCache", "Debug"}; return &spec{inner: x} })
		add(func() *spec { x := in(); x.cb, x.opts = 1, []string{"SkipLog"}; return &spec{inner: &spec{inner: x}} })
	}
	return
}

func checkLines17(p *Prog, rep *Report) {
	for _, n := range []string{"O", "I", "Named", "NewALine", "rankFromLines"} {
		if p.fn(n) == nil {
			rep.lost = append(rep.lost, n+" was not found")
			return
		}
	}
	kinds := []struct {
		i    bool
		name string
	}{{false, ""}, {false, "X"}, {true, "X"}}
	optss := [][]string{nil, {"Debug"}, {"SkipLog"}, {"SkipCache"}, {"SkipCache", "SkipLog", "Debug"}}
	n := 0
	for _, mk := range contents() {
		for _, k := range kinds {
			for cb := 0; cb <= 3; cb++ {
				for oi, opts := range optss {
					for _, before := range []bool{false, true} {
						if before && (cb == 0 || opts == nil) {
							continue
						}
						s := mk()
						if !s.text && !s.comp && s.inner == nil && k.name == "" && !s.direct {
							continue // lines are given with a name or by rules()
						}
						if s.inner != nil && (oi == 1 || oi == 2 || before) {
							continue
						}
						s.i, s.name, s.cb, s.opts, s.before = k.i, k.name, cb, opts, before
						n++
						lines := []*spec{{text: true}, s, {text: true, cb: 1 + n%3}}
						switch n % 4 {
						case 1:
							lines = []*spec{s, {i: true, name: "L", text: true, cb: 1}, {comp: true}}
						case 2:
							lines = []*spec{{i: true, name: "L", comp: true}, {name: "K", text: true}, s}
						}
						program(p, rep, lines, n%2 == 0, n%3 == 0)
						if len(opts) == 1 && cb == 2 {
							program(p, rep, []*spec{s}, n%2 == 0, n%3 == 0)
						}
					}
				}
			}
		}
	}
	program(p, rep, nil, true, true)
	program(p, rep, []*spec{{name: "X", kids: nil}, {i: true, name: "Y", kids: []*spec{{i: true, name: "Z", comp: true}}}}, true, true)
	// texts that do not parse
	for _, s := range []*spec{
		{text: true, bad: true},
		{name: "X", text: true, bad: true, cb: 1},
		{i: true, name: "X", text: true, bad: true, opts: []string{"SkipLog"}},
		{name: "X", kids: []*spec{{text: true}, {i: true, name: "Y", text: true, bad: true}}},
		{name: "X", kids: []*spec{{name: "Y", kids: []*spec{{text: true, bad: true}}}}},
		{name: "X", inner: &spec{text: true, bad: true}},
	} {
		for _, skip := range []bool{false, true} {
			program(p, rep, []*spec{{text: true}, s}, skip, skip)
		}
	}
}

// checkGrammarMade: a grammar made from lines has the rank of these lines as
// its entry, its name and its trace options, before its rules are connected,
// which is done once.
func checkGrammarMade(p *Prog, rep *Report) {
	type how struct {
		fn   string
		none bool // without trace options
	}
	for _, h := range []how{{"GrammarWithOptionsFromLines", false}, {"GrammarWithOptionsFromLines", true}, {"GrammarFromLines", false}} {
		guard(rep, h.fn, func() {
			v := newEnv(p, rep, "grammar")
			e, st := v.e, v.st
			e.OnElem = nil
			fn := p.fn(h.fn)
			if fn == nil {
				rep.lost = append(rep.lost, h.fn+" was not found")
				return
			}
			name := e.symStr(st, "name", "name")
			var args []Val
			var lines, lazy Val
			var trace Val = NilV{}
			for _, prm := range fn.Params {
				switch t := prm.Type(); {
				case types.Identical(t, types.Typ[types.String]):
					args = append(args, name)
				case types.Identical(t, p.typ("GrammarOptions")):
					opts := e.symVal(st, t, "", "options").(StructV)
					s, _ := e2struct(t)
					for i := 0; i < s.NumFields(); i++ {
						if s.Field(i).Name() == "TraceOptions" {
							if h.none {
								opts.f[i] = NilV{}
								continue
							}
							x := e.symVal(st, s.Field(i).Type(), "trace", "trace").(PtrV)
							st.nilF[x.obj] = false
							opts.f[i], trace = x, x
						} else {
							opts.f[i] = e.symVal(st, s.Field(i).Type(), "", s.Field(i).Name())
							lazy = opts.f[i]
						}
					}
					args = append(args, opts)
				default:
					lines = e.symVal(st, t, "lines", "lines")
					args = append(args, lines)
				}
			}
			want := traceWant{}
			if !isNil(trace) {
				for _, f := range p.traceFields() {
					want[f] = v.loadField(st, trace, f)
				}
			}
			for _, n := range []string{"DefaultTraceOptions", "TraceOptionsFromEnvironmentOrUse"} {
				e.hooks["joeson."+n] = func(c *CallCtx) []Result {
					x := e.symVal(c.st, types.NewPointer(p.typ("TraceOptions")), "", "env").(PtrV)
					c.st.nilF[x.obj] = false
					return one(c.st, x)
				}
			}
			rank := v.freshParser(st, "rank")
			st.ghost["made"] = IntV{linConst(0)}
			e.hooks["joeson.rankFromLines"] = func(c *CallCtx) []Result {
				for i, a := range c.args {
					switch t := c.sig.Params().At(i).Type(); {
					case types.Identical(t, types.Typ[types.String]):
						v.chk(c.st, e.same(c.st, a, name), "lines", c, "the rank is given another name than the grammar (%s)", e.show(c.st, a))
					case types.Identical(t, p.typ("GrammarOptions")):
						x, ok := v.structField(c.st, a, "TraceOptions").(PtrV)
						if v.chk(c.st, ok && e.nilness(c.st, x) == no, "lines", c, "the lines are compiled without trace options") {
							same, diff := v.traceSame(c.st, x, want)
							v.chk(c.st, same, "lines", c, "the lines are compiled with other trace options than the grammar's: %s", diff)
						}
						if lazy != nil {
							v.chk(c.st, e.same(c.st, v.structField(c.st, a, "LazyGrammar"), lazy), "lines", c, "the lines are not compiled with the notation that was given")
						}
					default:
						x, ok1 := a.(SliceV)
						y, ok2 := lines.(SliceV)
						v.chk(c.st, ok1 && ok2 && x.arr == y.arr && v.eqLin(c.st, x.off, y.off) && v.eqLin(c.st, x.len, y.len), "lines", c, "other lines are compiled")
					}
				}
				if r := c.sig.Results().At(0).Type(); !types.IsInterface(r) {
					x := e.symVal(c.st, r, "", "rank").(PtrV)
					c.st.nilF[x.obj] = false
					c.st.ghost["rank"] = x
					return one(c.st, x)
				}
				c.st.ghost["rank"] = rank
				return one(c.st, rank)
			}
			holds := func(st *State, g Val, pos token.Pos) {
				ok := e.same(st, derefIface(v.loadField(st, g, "rank")), st.ghost["rank"])
				e.Check(st, ok, "grammar.made", pos, "the entry of the grammar is not the rank of its lines")
				e.Check(st, e.same(st, v.loadField(st, v.loadField(st, g, "rule"), "name"), name), "grammar.made", pos, "the grammar does not have the name given")
				x, isPtr := v.loadField(st, g, "TraceOptions").(PtrV)
				if e.Check(st, isPtr && e.nilness(st, x) == no, "grammar.made", pos, "the grammar has no trace options"); isPtr {
					same, diff := v.traceSame(st, x, want)
					e.Check(st, same, "grammar.made", pos, "the trace options of the grammar are not those given: %s", diff)
				}
			}
			e.hooks["(*joeson.Grammar).postinit"] = func(c *CallCtx) []Result {
				holds(c.st, c.args[0], c.pos)
				c.st.ghost["made"] = IntV{ghostLin(c.st, "made").addc(1)}
				c.st.ghost["gm"] = c.args[0]
				return one(c.st, TupleV{})
			}
			outs := v.noPanic(v.run(fn, args...), true)
			for _, o := range outs {
				v.chkO(o, v.eqLin(o.st, ghostLin(o.st, "made"), linConst(1)) && o.st.ghost["gm"] != nil && e.same(o.st, o.ret, o.st.ghost["gm"]), "made", "the grammar returned is not one whose rules were connected, once")
				if _, ok := o.ret.(PtrV); ok {
					holds(o.st, o.ret, o.pos)
				}
			}
			v.reached(len(outs), 1)
			v.done()
		})
	}
}

func init() {
	checks["C17"] = checkDef{rule: "lines of every kind of content, callback signature and options, nested, are followed through O, I, Named and rankFromLines with symbolic texts, parsers, callbacks and options: one alternative per o line, in order, i lines by name only, each with its name, content, callback and options; a text that does not parse panics; and the constructors of grammars: the rank of the lines given is the entry, the name and trace options are those given, its rules are connected once",
		f: func(p *Prog, rep *Report) {
			checkLines17(p, rep)
			checkGrammarMade(p, rep)
			rep.floor("grammar.made", 12)
			rep.floor("lines.name", 200)
			rep.floor("lines.callback", 200)
			rep.floor("lines.option", 200)
			rep.floor("lines.bad-text", 6)
		}}
}
