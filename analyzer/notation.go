package main

// C18: the two definitions of the grammar notation agree.
//
// JoesonRules and IntentionRules are evaluated to the lines they build. The
// texts of the second are read as the README documents the notation, and the
// productions compared; the callbacks are followed with symbolic arguments.

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- productions

type prod struct {
	kind  string
	label string
	kids  []*prod // nil: none
	strs  []string
	ints  []int64
}

func (x *prod) String() string {
	if x == nil {
		return "none"
	}
	var l []string
	for _, k := range x.kids {
		l = append(l, k.String())
	}
	for _, s := range x.strs {
		l = append(l, fmt.Sprintf("%q", s))
	}
	for _, n := range x.ints {
		l = append(l, fmt.Sprint(n))
	}
	r := x.kind + "(" + strings.Join(l, ", ") + ")"
	if x.label != "" {
		r = x.label + ":" + r
	}
	return r
}

func (x *prod) refs(f func(string)) {
	if x == nil {
		return
	}
	if x.kind == "ref" {
		f(x.strs[0])
	}
	for _, k := range x.kids {
		k.refs(f)
	}
}

func mkPattern(value, join *prod, min, max int64) *prod {
	return &prod{kind: "pattern", kids: []*prod{value, join}, ints: bounds(min, max)}
}

func bounds(min, max int64) []int64 {
	if min < 0 {
		min = 0
	}
	if max < 0 {
		max = -1
	}
	return []int64{min, max}
}

// ---- the notation, as documented

type reader struct {
	s string
	i int
}

func (r *reader) has(s string) bool { return strings.HasPrefix(r.s[r.i:], s) }
func (r *reader) lit(s string) bool {
	if r.has(s) {
		r.i += len(s)
		return true
	}
	return false
}
func (r *reader) blank() bool {
	i := r.i
	for r.lit(" ") || r.lit("\n") {
	}
	return r.i > i
}

func (r *reader) word() string {
	i := r.i
	for r.i < len(r.s) {
		c := r.s[r.i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '.' || r.i > i && c >= '0' && c <= '9' {
			r.i++
			continue
		}
		break
	}
	return r.s[i:r.i]
}

func readNotation(s string) (x *prod, err error) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(string); ok {
				x, err = nil, fmt.Errorf("%s in %q", m, s)
				return
			}
			panic(e)
		}
	}()
	r := &reader{s: s}
	x = r.expr()
	r.blank()
	if r.i != len(s) {
		panic(fmt.Sprintf("%q is not understood", s[r.i:]))
	}
	return
}

func (r *reader) pipe() bool {
	i := r.i
	r.blank()
	if r.lit("|") {
		return true
	}
	r.i = i
	return false
}

func (r *reader) expr() *prod {
	for r.pipe() {
	}
	alts := []*prod{r.seq()}
	for r.pipe() {
		i := r.i
		r.blank()
		if r.i == len(r.s) || r.has(")") {
			r.i = i
			break
		}
		r.i = i
		alts = append(alts, r.seq())
	}
	for r.pipe() {
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &prod{kind: "choice", kids: alts}
}

func (r *reader) seq() *prod {
	var l []*prod
	for {
		i := r.i
		r.blank()
		x := r.labeled()
		if x == nil {
			r.i = i
			break
		}
		l = append(l, x)
	}
	switch len(l) {
	case 0:
		panic("nothing is matched")
	case 1:
		return l[0]
	}
	return &prod{kind: "sequence", kids: l}
}

func (r *reader) labeled() *prod {
	i := r.i
	label := ""
	switch {
	case r.lit("&"):
		label = "&"
	case r.lit("@"):
		label = "@"
	default:
		label = r.word()
	}
	if label == "" || !r.lit(":") {
		r.i, label = i, ""
	}
	x := r.decorated()
	if x == nil {
		if label != "" {
			panic("a label of nothing")
		}
		return nil
	}
	if label != "" {
		x.label = label
	}
	return x
}

func (r *reader) rng() (min, max int64, ok bool) {
	i := r.i
	num := func() int64 {
		n, some := int64(0), false
		for r.i < len(r.s) && r.s[r.i] >= '0' && r.s[r.i] <= '9' {
			n, some = n*10+int64(r.s[r.i]-'0'), true
			r.i++
		}
		if !some {
			return -1
		}
		return n
	}
	if r.lit("{") {
		r.blank()
		min = num()
		r.blank()
		if r.lit(",") {
			r.blank()
			max = num()
			r.blank()
			if r.lit("}") {
				return min, max, true
			}
		}
	}
	r.i = i
	return -1, -1, false
}

func (r *reader) decorated() *prod {
	switch {
	case r.lit("!"):
		x := r.primary()
		if x == nil {
			panic("! of nothing")
		}
		return &prod{kind: "not", kids: []*prod{x}}
	case r.has("(?"):
		r.i += 2
		x := r.expr()
		r.blank()
		if !r.lit(")") {
			panic("( is not closed")
		}
		return &prod{kind: "lookahead", kids: []*prod{x}}
	case r.lit("?"):
		return &prod{kind: "lookahead", kids: []*prod{r.expr()}}
	}
	x := r.primary()
	if x == nil {
		return nil
	}
	join := func() *prod {
		i := r.i
		if r.blank() {
			r.i = i
			return nil
		}
		return r.primary()
	}
	switch {
	case r.lit("?"):
		return &prod{kind: "existential", kids: []*prod{x}}
	case r.lit("*"):
		j := join()
		min, max, _ := r.rng()
		return mkPattern(x, j, min, max)
	case r.lit("+"):
		return mkPattern(x, join(), 1, -1)
	}
	if min, max, ok := r.rng(); ok {
		return mkPattern(x, nil, min, max)
	}
	return x
}

func (r *reader) primary() *prod {
	i := r.i
	if w := r.word(); w != "" {
		if r.has(":") {
			r.i = i
			return nil
		}
		if r.has("(") {
			panic("a reference with a parameter")
		}
		return &prod{kind: "ref", strs: []string{w}}
	}
	quoted := func(end string, keep bool) string {
		var b strings.Builder
		for !r.lit(end) {
			if r.i >= len(r.s) {
				panic(end + " is missing")
			}
			if r.s[r.i] == '\\' && r.i+1 < len(r.s) {
				if keep {
					b.WriteByte('\\')
				}
				r.i++
			}
			b.WriteByte(r.s[r.i])
			r.i++
		}
		return b.String()
	}
	switch {
	case r.lit("("):
		x := r.expr()
		r.blank()
		if !r.lit(")") {
			panic("( is not closed")
		}
		i := r.i
		r.blank()
		if r.has("->") {
			panic("code in a group")
		}
		r.i = i
		return x
	case r.lit("'"):
		return &prod{kind: "str", strs: []string{quoted("'", false)}}
	case r.lit("/"):
		return &prod{kind: "regex", strs: []string{quoted("/", true)}}
	case r.lit("["):
		return &prod{kind: "regex", strs: []string{"[" + quoted("]", true) + "]"}}
	}
	return nil
}

// ---- the lines a definition builds

type nline struct {
	i    bool
	name string
	prod *prod
	kids []*nline
	cb   Val
	has  bool // has a callback
}

func (l *nline) String() string {
	k := "o"
	if l.i {
		k = "i"
	}
	if l.name != "" {
		k += " " + l.name
	}
	return k
}

type notation struct {
	*compiler
}

func newNotation(p *Prog, rep *Report, rule string) *notation {
	n := &notation{newCompiler(p, rep)}
	n.Env.rule = rule
	n.e.unroll = 60
	n.e.recDepth = 20
	n.e.inlineText, n.e.inlineConcat = true, true
	models := n.e.errHook
	n.e.errHook = func(c *CallCtx) []Result {
		if c.fn == nil {
			return models(c)
		}
		base, ok := int64(10), false
		switch c.fn.String() {
		case "strconv.Atoi":
			ok = true
		case "strconv.ParseInt":
			base, ok = c.e.lin(c.args[1]).isConst()
		}
		if !ok {
			return models(c)
		}
		if s, isS := c.args[0].(StrV); isS && s.obj == 0 {
			if k, err := strconv.ParseInt(s.s, int(base), 0); err == nil {
				return one(c.st, TupleV{[]Val{IntV{linConst(k)}, NilV{}}})
			}
		}
		return models(c)
	}
	n.e.hooks["regexp.Compile"] = func(c *CallCtx) []Result {
		e := c.e
		s, ok := c.args[0].(StrV)
		res := c.sig.Results()
		good := func(st *State) Result {
			re := e.symVal(st, res.At(0).Type(), "", "regexp")
			st.nilF[objOf(re)] = false
			o := *e.get(st, objOf(re))
			o.tag = &Tag{"regexp", []Val{c.args[0]}}
			st.heap[o.id] = &o
			return Result{st: st, ret: TupleV{[]Val{re, NilV{}}}}
		}
		if ok && s.obj == 0 {
			if _, err := syntax.Parse(s.s, syntax.Perl); err != nil {
				return []Result{{st: c.st, panic: "explicit: the regular expression " + s.s + " is invalid"}}
			}
		}
		return []Result{good(c.st)}
	}
	return n
}

func (n *notation) field(st *State, s StructV, want func(*types.Var) bool) Val {
	t, _ := e2struct(s.typ)
	for i := 0; t != nil && i < t.NumFields(); i++ {
		if want(t.Field(i)) {
			if s.f[i] == nil {
				return n.e.zeroVal(t.Field(i).Type())
			}
			return s.f[i]
		}
	}
	panic(engineErr("a field was not recognised in " + typeStr(s.typ)))
}

func ofType(name string) func(*types.Var) bool {
	return func(v *types.Var) bool { return typeStr(v.Type()) == name }
}

func constStr(v Val) string {
	s, ok := v.(StrV)
	if !ok || s.obj != 0 {
		panic(engineErr("a text of the notation is not constant"))
	}
	return s.s
}

func (n *notation) lines(st *State, x Val) (r []*nline) {
	s := n.e.asSlice(st, x, nil)
	k, ok := s.len.isConst()
	if !ok {
		panic(engineErr("the number of lines is not known"))
	}
	for j := int64(0); j < k; j++ {
		r = append(r, n.lineOf(st, n.e.elemGet(st, n.e.get(st, s.arr), s.off.addc(j))))
	}
	return
}

func (n *notation) lineOf(st *State, x Val) *nline {
	iv, ok := x.(IfaceV)
	if !ok {
		panic(engineErr("a line was not recognised"))
	}
	s, ok := iv.val.(StructV)
	if !ok {
		panic(engineErr("a line was not recognised"))
	}
	l := &nline{i: typeStr(iv.typ) == "ILine"}
	if !l.i && typeStr(iv.typ) != "OLine" {
		panic(engineErr("a line is a " + typeStr(iv.typ)))
	}
	l.name = constStr(n.field(st, s, ofType("string")))
	po := n.field(st, s, ofType("*parseOptions"))
	l.cb = n.loadField(st, po, "cb")
	l.has = n.e.nilness(st, l.cb) != yes
	c, ok := n.field(st, s, ofType("Line")).(IfaceV)
	if !ok {
		panic(engineErr("the content of a line was not recognised"))
	}
	cs, ok := c.val.(StructV)
	if !ok {
		panic(engineErr("the content of a line was not recognised"))
	}
	switch typeStr(c.typ) {
	case "ALine":
		l.kids = n.lines(st, n.field(st, cs, ofType("[]Line")))
	case "sLine":
		t := constStr(n.field(st, cs, ofType("string")))
		x, err := readNotation(t)
		if err != nil {
			panic(engineErr(err.Error()))
		}
		l.prod = x
	case "cLine":
		l.prod = n.describe(st, n.field(st, cs, ofType("Parser")))
	case "OLine":
		in := n.lineOf(st, c)
		l.prod, l.kids = in.prod, in.kids
		if l.name == "" {
			l.name = in.name
		}
		if !l.has {
			l.cb, l.has = in.cb, in.has
		}
	default:
		panic(engineErr("the content of a line is a " + typeStr(c.typ)))
	}
	return l
}

// describe: the production a compiled parser is
func (n *notation) describe(st *State, x Val) *prod {
	e := n.e
	if e.nilness(st, x) == yes {
		return nil
	}
	iv, ok := x.(IfaceV)
	if !ok {
		panic(engineErr("a parser was not recognised"))
	}
	t := derefType(iv.typ)
	s, ok := e2struct(t)
	if !ok {
		if typeStr(t) == "NativeUndefined" {
			return nil
		}
		panic(engineErr("a parser was not recognised"))
	}
	if typeStr(t) == "NativeUndefined" {
		return nil
	}
	var get func(f string) Val
	if sv, isS := iv.val.(StructV); isS {
		get = func(f string) Val { return n.field(st, sv, func(v *types.Var) bool { return v.Name() == f }) }
		if typeStr(t) == "cLine" {
			return n.describe(st, get("Parser"))
		}
	} else {
		get = func(f string) Val { return n.loadField(st, iv.val, f) }
	}
	r := &prod{kind: typeStr(t)}
	rl := get("rule")
	r.label = constStr(n.loadField(st, rl, "label"))
	for _, k := range n.p.children(t) {
		if len(k.path) != 1 {
			panic(engineErr("a parser was not recognised"))
		}
		v := get(k.path[0])
		if !k.list {
			r.kids = append(r.kids, n.describe(st, v))
			continue
		}
		sl := e.asSlice(st, v, nil)
		cnt, isC := sl.len.isConst()
		if !isC {
			panic(engineErr("the number of elements is not known"))
		}
		for j := int64(0); j < cnt; j++ {
			r.kids = append(r.kids, n.describe(st, e.elemGet(st, e.get(st, sl.arr), sl.off.addc(j))))
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		switch f := s.Field(i); f.Type().String() {
		case "string":
			r.strs = append(r.strs, constStr(get(f.Name())))
		case "int":
			c, isC := e.lin(get(f.Name())).isConst()
			if !isC {
				panic(engineErr("a bound is not constant"))
			}
			r.ints = append(r.ints, c)
		}
	}
	if r.kind == "pattern" && len(r.ints) == 2 {
		r.ints = bounds(r.ints[0], r.ints[1])
	}
	return r
}

// ---- comparison

type defs struct {
	n     *notation
	fn    *ssa.Function
	lines []*nline
}

func (d *defs) names() map[string]bool {
	r := map[string]bool{}
	var f func(ls []*nline)
	f = func(ls []*nline) {
		for _, l := range ls {
			if l.name != "" {
				r[l.name] = true
			}
			f(l.kids)
		}
	}
	f(d.lines)
	return r
}

func (d *defs) each(f func(l *nline, path string)) {
	var g func(ls []*nline, path string)
	g = func(ls []*nline, path string) {
		for j, l := range ls {
			p := path + "/" + l.name
			if l.name == "" {
				p = fmt.Sprintf("%s[%d]", path, j)
			}
			f(l, p)
			g(l.kids, p)
		}
	}
	g(d.lines, "")
}

func sameLines(rep *Report, p *Prog, fn *ssa.Function, a, b []*nline, where string) {
	chk := func(ok bool, rule, format string, x ...any) bool {
		return rep.check(p, ok, "notation."+rule, fn.Pos(), "in %s: %s", where, fmt.Sprintf(format, x...))
	}
	split := func(l []*nline) (o []*nline, i map[string]*nline) {
		i = map[string]*nline{}
		for _, x := range l {
			if x.i {
				i[x.name] = x
			} else {
				o = append(o, x)
			}
		}
		return
	}
	ao, ai := split(a)
	bo, bi := split(b)
	one := func(x, y *nline) {
		chk(x.name == y.name, "name", "%s is %s in the textual definition", x, y)
		w := where + "/" + x.name
		switch {
		case (x.prod == nil) != (y.prod == nil):
			chk(false, "structure", "one of the definitions has a rank for %s, not the other", x)
		case x.prod == nil:
			sameLines(rep, p, fn, x.kids, y.kids, w)
		default:
			chk(x.prod.String() == y.prod.String(), "production", "%s is %s, and %s in the textual definition", x, x.prod, y.prod)
		}
		chk(x.has == y.has, "callback", "only one of the definitions of %s %v has a callback", x, x.prod)
	}
	if chk(len(ao) == len(bo), "alternatives", "%d alternatives, and %d in the textual definition", len(ao), len(bo)) {
		for j := range ao {
			one(ao[j], bo[j])
		}
	}
	var keys []string
	for k := range ai {
		keys = append(keys, k)
	}
	for k := range bi {
		if ai[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if chk(ai[k] != nil && bi[k] != nil, "included", "the rule %s is in one of the definitions only", k) {
			one(ai[k], bi[k])
		}
	}
}

// ---- what the callbacks are documented to build

// operator: a production of the notation and what it stands for
type operator struct {
	path string // the rank it is an alternative of, or the rule it is
	text string
	doc  string
	arg  func(c *opRun) Val   // what the production gives
	want func(c *opRun) *prod // in terms of opRun.p(i): the parsers given
	raw  func(c *opRun, o Outcome) bool
}

type opRun struct {
	*notation
	st   *State
	syms map[string]Lin // bounds whose value is not known
}

const anyNumber = 1 << 40 // + index: the bound of that name, whatever it is

var boundNames = []string{"min", "max"}

// bound is any number: 0 <= min <= max
func (c *opRun) bound(name string) Val {
	x := c.e.symVal(c.st, types.Typ[types.Int], name, name).(IntV)
	z := c.st.zw()
	z.addLE(x.l.neg())
	if lo, ok := c.syms["min"]; ok {
		z.addLE(lo.sub(x.l))
	}
	c.syms[name] = x.l
	return c.native("NativeInt", x)
}

func (c *opRun) parser(k int) Val {
	name := fmt.Sprint("element", k)
	x := c.e.symVal(c.st, c.p.typ("Parser"), name, "").(RefV)
	c.st.nilF[x.obj] = false
	for _, t := range []string{"NativeUndefined", "cLine"} {
		c.e.assume(c.st, &Form{op: fType, obj: x.obj, typ: c.p.typ(t)}, false)
	}
	return x
}

func (c *opRun) native(name string, v Val) Val { return c.e.makeIface(c.st, c.p.typ(name), v) }

func (c *opRun) arr(xs ...Val) Val {
	t := types.NewPointer(c.p.typ("NativeArray"))
	p := c.e.symVal(c.st, t, "", "array").(PtrV)
	c.st.nilF[p.obj] = false
	c.e.store(c.st, p, c.listIn(c.st, c.p.typ("Ast"), xs))
	return IfaceV{t, p}
}

func (c *opRun) listIn(st *State, et types.Type, xs []Val) SliceV {
	c.compiler.st = st
	return c.list(et, xs)
}

func (c *opRun) nmap(kv ...any) Val {
	t := types.NewPointer(c.p.typ("NativeMap"))
	p := c.e.symVal(c.st, t, "", "map").(PtrV)
	c.st.nilF[p.obj] = false
	valsF, keysF := mapShape(c.p)
	if valsF == "" || keysF == "" {
		panic(engineErr("the fields of NativeMap were not recognised"))
	}
	vals := c.loadField(c.st, p, valsF).(RefV)
	c.st.nilF[vals.obj] = false
	vo := *c.e.get(c.st, vals.obj)
	var keys []Val
	for i := 0; i < len(kv); i += 2 {
		k := StrV{s: kv[i].(string)}
		keys = append(keys, k)
		vo.entries = append(vo.entries, mapEnt{k, kv[i+1].(Val), true})
	}
	vo.sym = false // nothing else
	c.st.heap[vals.obj] = &vo
	c.storeField(c.st, p, keysF, c.listIn(c.st, types.Typ[types.String], keys))
	return IfaceV{t, p}
}

func (c *opRun) undef() Val {
	t := c.p.typ("NativeUndefined")
	return IfaceV{t, c.e.symVal(c.st, t, "", "undefined")}
}
func (c *opRun) str(s string) Val { return c.native("NativeString", StrV{s: s}) }
func (c *opRun) num(n int64) Val  { return c.native("NativeInt", IntV{linConst(n)}) }

// textStr shows a text, its unknown parts by name
func (c *opRun) textStr(st *State, v Val) string {
	s, ok := v.(StrV)
	if !ok {
		panic(engineErr("a text was not recognised"))
	}
	r := ""
	for _, x := range c.e.parts(st, s) {
		if t, isS := x.(StrV); isS && t.obj == 0 {
			r += t.s
		} else if isS && t.lo.equal(linConst(0)) && t.hi.equal(c.e.get(st, t.obj).slen) {
			r += "<" + objName(c.e.get(st, t.obj)) + ">"
		} else {
			r += "<" + c.e.show(st, x) + ">"
		}
	}
	return r
}

// some: a text of which nothing is known, but that it is not empty
func (c *opRun) some(name string) Val {
	s := c.e.symStr(c.st, name, name)
	c.st.zw().addLE(strLen(s).neg().addc(1))
	return c.native("NativeString", s)
}

// built: the production of what a callback gives, the elements being named
func (c *opRun) built(st *State, x Val) (r *prod) {
	if ref, ok := x.(RefV); ok {
		return &prod{kind: c.e.get(st, ref.obj).name}
	}
	iv, ok := x.(IfaceV)
	if !ok {
		return &prod{kind: "?" + c.e.show(st, x)}
	}
	t := derefType(iv.typ)
	s, ok := e2struct(t)
	if !ok {
		if _, isS := iv.val.(StrV); isS {
			return &prod{kind: typeStr(t), strs: []string{c.textStr(st, iv.val)}}
		}
		return &prod{kind: typeStr(t), strs: []string{c.e.show(st, iv.val)}}
	}
	get := func(f string) Val {
		if sv, isS := iv.val.(StructV); isS {
			return c.field(st, sv, func(v *types.Var) bool { return v.Name() == f })
		}
		return c.loadField(st, iv.val, f)
	}
	kid := func(v Val) *prod {
		if c.e.nilness(st, v) == yes {
			return nil
		}
		if kv, isI := v.(IfaceV); isI && typeStr(kv.typ) == "NativeUndefined" {
			return nil
		}
		return c.built(st, v)
	}
	r = &prod{kind: typeStr(t)}
	for _, k := range c.p.children(t) {
		if len(k.path) != 1 {
			panic(engineErr("what a callback builds was not recognised"))
		}
		v := get(k.path[0])
		if !k.list {
			r.kids = append(r.kids, kid(v))
			continue
		}
		sl := c.e.asSlice(st, v, nil)
		n, isC := sl.len.isConst()
		if !isC {
			panic(engineErr("the number of elements is not known"))
		}
		for j := int64(0); j < n; j++ {
			r.kids = append(r.kids, kid(c.e.elemGet(st, c.e.get(st, sl.arr), sl.off.addc(j))))
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		switch f := s.Field(i); {
		case f.Name() == "param":
			if v := get("param"); c.e.nilness(st, v) != yes {
				r.kids = append(r.kids, kid(v))
			}
		case f.Type().String() == "string":
			r.strs = append(r.strs, c.textStr(st, get(f.Name())))
		case f.Type().String() == "int":
			l := c.e.lin(get(f.Name()))
			n, isC := l.isConst()
			if k := len(r.ints); r.kind == "pattern" && k < len(boundNames) {
				if x, ok := c.syms[boundNames[k]]; ok {
					if isC && n < 0 && k == 0 {
						l = linConst(0) // no lower bound
					}
					if d := l.sub(x); st.zone.ub(d) <= 0 && st.zone.lb(d) >= 0 {
						r.ints = append(r.ints, anyNumber+int64(k))
						continue
					}
				}
			}
			if !isC {
				panic(engineErr("a bound is not constant"))
			}
			r.ints = append(r.ints, n)
		}
	}
	if r.kind == "pattern" && len(r.ints) == 2 {
		r.ints = bounds(r.ints[0], r.ints[1])
	}
	return
}

func el(k int) *prod { return &prod{kind: fmt.Sprint("element", k)} }

func mk(kind string, kids ...*prod) *prod { return &prod{kind: kind, kids: kids} }

func operators() []operator {
	var r []operator
	add := func(path, text, doc string, arg func(c *opRun) Val, want *prod) {
		r = append(r, operator{path: path, text: text, doc: doc, arg: arg, want: func(*opRun) *prod { return want }})
	}
	add("CHOICE", "_PIPE* SEQUENCE*_PIPE{2,} _PIPE*", "an ordered choice", func(c *opRun) Val { return c.arr(c.parser(1), c.parser(2), c.parser(3)) }, mk("choice", el(1), el(2), el(3)))
	add("SEQUENCE", "UNIT{2,}", "a sequence", func(c *opRun) Val { return c.arr(c.parser(1), c.parser(2), c.parser(3)) }, mk("sequence", el(1), el(2), el(3)))
	add("DECORATED", "PRIMARY '?'", "an optional element", func(c *opRun) Val { return c.parser(1) }, mk("existential", el(1)))
	star := "value:PRIMARY '*' join:(!__ PRIMARY)? @:RANGE?"
	add("DECORATED", star, "a repetition", func(c *opRun) Val { return c.nmap("value", c.parser(1), "join", c.undef()) }, mkPattern(el(1), nil, 0, -1))
	add("DECORATED", star, "a repetition with join", func(c *opRun) Val { return c.nmap("value", c.parser(1), "join", c.parser(2)) }, mkPattern(el(1), el(2), 0, -1))
	// any range: each bound left out or not
	for _, form := range []struct{ text, doc string }{{star, "a repetition"}, {"value:PRIMARY @:RANGE", "a bounded element"}} {
		for _, join := range []bool{false, true} {
			if join && form.text != star {
				continue
			}
			for _, lo := range []bool{false, true} {
				for _, hi := range []bool{false, true} {
					doc, min, max, j := form.doc, int64(0), int64(-1), (*prod)(nil)
					if join {
						doc, j = doc+" with join", el(2)
					}
					if lo {
						doc, min = doc+" with a lower bound", anyNumber
					}
					if hi {
						doc, max = doc+" with an upper bound", anyNumber+1
					}
					lo, hi, join, bare := lo, hi, join, form.text != star
					add("DECORATED", form.text, doc, func(c *opRun) Val {
						a := []any{"value", c.parser(1)}
						if join {
							a = append(a, "join", c.parser(2))
						} else if !bare {
							a = append(a, "join", c.undef())
						}
						for i, given := range []bool{lo, hi} {
							if given {
								a = append(a, boundNames[i], c.bound(boundNames[i]))
							} else {
								a = append(a, boundNames[i], c.undef())
							}
						}
						return c.nmap(a...)
					}, mkPattern(el(1), j, min, max))
				}
			}
		}
	}
	plus := "value:PRIMARY '+' join:(!__ PRIMARY)?"
	add("DECORATED", plus, "a repetition of at least one", func(c *opRun) Val { return c.nmap("value", c.parser(1), "join", c.undef()) }, mkPattern(el(1), nil, 1, -1))
	add("DECORATED", plus, "a repetition of at least one with join", func(c *opRun) Val { return c.nmap("value", c.parser(1), "join", c.parser(2)) }, mkPattern(el(1), el(2), 1, -1))
	for _, mm := range [][2]int64{{2, 5}, {0, 1}, {3, 3}, {0, 0}} {
		mm := mm
		add("DECORATED", "value:PRIMARY @:RANGE", "a bounded element", func(c *opRun) Val {
			return c.nmap("value", c.parser(1), "min", c.num(mm[0]), "max", c.num(mm[1]))
		}, mkPattern(el(1), nil, mm[0], mm[1]))
	}
	add("DECORATED", "'!' PRIMARY", "a negative lookahead", func(c *opRun) Val { return c.parser(1) }, mk("not", el(1)))
	add("DECORATED", "'(?' expr:EXPR ')' | '?' expr:EXPR", "a lookahead", func(c *opRun) Val { return c.nmap("expr", c.parser(1)) }, mk("lookahead", el(1)))
	add("PRIMARY", "WORD", "a reference", func(c *opRun) Val { return c.some("name") }, &prod{kind: "ref", strs: []string{"<name>"}})
	add("PRIMARY", "WORD '(' EXPR ')'", "a reference with a parameter", func(c *opRun) Val { return c.arr(c.some("name"), c.parser(1)) }, &prod{kind: "ref", kids: []*prod{el(1)}, strs: []string{"<name>"}})
	add("PRIMARY", "'(' inlineLabel:(WORD ': ')? expr:EXPR ')' ( _ '->' _ code:CODE )?", "a group", func(c *opRun) Val {
		return c.nmap("inlineLabel", c.undef(), "expr", c.parser(1), "code", c.undef())
	}, el(1))
	text := func(c *opRun) Val { return c.arr(c.some("t1"), c.str("b"), c.some("t2")) }
	add("PRIMARY", `'\'' (!'\'' (ESC1 | .))* '\''`, "a string literal", text, &prod{kind: "str", strs: []string{"<t1>b<t2>"}})
	add("PRIMARY", "'/' (!'/' (ESC2 | .))* '/'", "a regular expression", text, &prod{kind: "regex", strs: []string{"<t1>b<t2>"}})
	add("PRIMARY", "'[' (!']' (ESC2 | .))* ']'", "a character class", text, &prod{kind: "regex", strs: []string{"[<t1>b<t2>]"}})
	add("ESC2", `'\\' .`, "an escaped character, kept escaped", func(c *opRun) Val { return c.some("t1") }, &prod{kind: "NativeString", strs: []string{`\<t1>`}})
	for _, k := range [][2]string{{"42", "42"}, {"0", "0"}, {"007", "7"}, {"10", "10"}, {"123456789", "123456789"}} {
		k := k
		add("INT", "/[0-9]+/", "a number", func(c *opRun) Val { return c.str(k[0]) }, &prod{kind: "NativeInt", strs: []string{k[1]}})
	}
	return r
}

// productions of the notation that have no operator of their own
var plainProds = [][2]string{
	{"EXPR", "CHOICE _"},
	{"UNIT", "_ LABELED"},
	{"LABELED", "(label:LABEL ':')? &:(DECORATED|PRIMARY)"},
	{"RANGE", "'{' _ min:INT? _ ',' _ max:INT? _ '}'"},
	{"LABEL", "'&' | '@' | WORD"},
	{"_PIPE", "_ '|'"},
	{"ESC1", `'\\' .`},
}

// find the line of the production: an alternative of the rank, or the rule
func (d *defs) find(path, text string) *nline {
	want, err := readNotation(text)
	if err != nil {
		panic(engineErr(err.Error()))
	}
	var r *nline
	d.each(func(l *nline, _ string) {
		if l.name == path && l.prod != nil && l.prod.String() == want.String() {
			r = l
		}
		if l.name == path {
			for _, k := range l.kids {
				if !k.i && k.prod != nil && k.prod.String() == want.String() {
					r = k
				}
			}
		}
	})
	return r
}

func (d *defs) operatorOf(rep *Report, p *Prog, op operator) {
	l := d.find(op.path, op.text)
	what := fmt.Sprintf("%s: %s (%s)", short(d.fn), op.doc, op.text)
	if !rep.check(p, l != nil, "notation.recognised", d.fn.Pos(), "%s is not recognised as documented", what) {
		return
	}
	guard(rep, what, func() {
		c := &opRun{d.n, nil, map[string]Lin{}}
		st := d.n.compiler.st.clone()
		c.st = st
		e := c.e
		if !rep.check(p, l.has, "notation.operator", d.fn.Pos(), "%s has no callback", what) {
			return
		}
		f, ok := l.cb.(FuncV)
		if !ok || f.fn == nil {
			panic(engineErr("a callback was not recognised"))
		}
		arg := op.arg(c)
		args := []Val{arg, c.ctx, NilV{}}
		st.frames = nil
		before := len(e.undec)
		outs := e.Run(st, f.fn, args[:len(f.fn.Params)], f.binds)
		if len(e.undec) > before {
			return
		}
		n := 0
		for _, o := range outs {
			if o.st.zone.infeasible() {
				continue
			}
			n++
			pos := d.fn.Pos()
			for _, b := range f.binds { // the callback given, in the one that adapts it
				if pv, isP := b.(PtrV); isP {
					b = e.load(o.st, pv)
				}
				if fv, isF := b.(FuncV); isF && fv.fn != nil {
					pos = fv.fn.Pos()
				}
			}
			if u, isU := o.st.ghost["unmodelled"]; isU {
				e.undecided("%s depends on %s", what, u.(StrV).s)
				continue
			}
			if !e.Check(o.st, o.panic == "", "notation.operator", pos, "%s is refused (%s)", what, o.panic) {
				continue
			}
			got, want := c.built(o.st, o.ret).String(), op.want(c).String()
			e.Check(o.st, got == want, "notation.operator", pos, "%s builds %s instead of %s", what, got, want)
		}
		e.Check(st, n > 0, "notation.operator", d.fn.Pos(), "%s: nothing is built", what)
	})
}

func checkNotation(p *Prog, rep *Report) {
	var ds []*defs
	for _, name := range []string{"JoesonRules", "IntentionRules"} {
		fn := p.fn(name)
		if fn == nil {
			rep.lost = append(rep.lost, name+" was not found")
			return
		}
		guardQuiet(rep, name, func() {
			n := newNotation(p, rep, name)
			n.what = name
			x := n.call(fn)
			d := &defs{n: n, fn: fn, lines: n.lines(n.compiler.st, x)}
			ds = append(ds, d)
		})
	}
	if len(ds) == 2 {
		sameLines(rep, p, ds[0].fn, ds[0].lines, ds[1].lines, "the notation")
	}
	for _, d := range ds {
		names := d.names()
		d.each(func(l *nline, path string) {
			l.prod.refs(func(r string) {
				rep.check(p, names[r], "notation.reference", d.fn.Pos(), "%s: %s refers to %s, which is no rule", short(d.fn), path, r)
			})
		})
		for _, pp := range plainProds {
			rep.check(p, d.find(pp[0], pp[1]) != nil, "notation.recognised", d.fn.Pos(), "%s: %s is not %s", short(d.fn), pp[0], pp[1])
		}
		for _, op := range operators() {
			d.operatorOf(rep, p, op)
		}
		d.n.done()
	}
}

func init() {
	checks["C18"] = checkDef{rule: "the lines JoesonRules and IntentionRules build are evaluated abstractly, the texts read as the README documents the notation: same rules, alternatives, productions (names, labels, bounds, literals, classes) and callbacks; every reference names a rule; each documented operator is recognised in both and its callback builds the documented matcher from symbolic elements",
		f: func(p *Prog, rep *Report) {
			checkNotation(p, rep)
			rep.floor("notation.production", 20)
			rep.floor("notation.operator", 40)
			rep.floor("notation.reference", 60)
		}}
}
