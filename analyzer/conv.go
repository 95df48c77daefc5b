package main

// C28: conversions and concatenations of native values.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type conv struct {
	*Env
	valsF, keysF string
	n            int
}

// nval: a native value of a known shape, the text it concatenates to
type nval struct {
	kind string
	v    Val
	text []Val // the parts of its text
	str  StrV  // what its String() gives, when that is not its text
}

var convKinds = []string{"string", "int", "array", "undef", "map", "other"}

func newConv(p *Prog, rep *Report, rule string) *conv {
	c := &conv{Env: newEnv(p, rep, rule)}
	e := c.e
	c.valsF, c.keysF = mapShape(p)
	if c.valsF == "" || c.keysF == "" {
		panic(engineErr("the fields of NativeMap were not recognised"))
	}
	e.OnElem = nil
	e.inlineText = true
	e.unroll, e.noMerge = 24, true
	e.recDepth = 6
	e.wholeMaps = true
	soft := map[string]bool{}
	for k := range stdModels {
		soft[k] = true
	}
	e.unmodelled = soft
	c.st.frames, c.st.trace = nil, nil
	textModels(e, soft)
	for _, n := range []string{"NativeArray", "NativeMap"} {
		e.hooks["(*joeson."+n+").String"] = func(c *CallCtx) []Result {
			return one(c.st, strOf(e, c.st, c.args[0]))
		}
	}
	e.ifHooks["Ast.String"] = func(c *CallCtx) []Result { return one(c.st, strOf(e, c.st, c.recv)) }
	return c
}

// strOf: what String() gives for a value of another kind
func strOf(e *Engine, st *State, x Val) Val {
	return e.symStr(st, fmt.Sprintf("String(obj%d)", objOf(x)), "")
}

// textModels: builders, Join, conversions of numbers.
func textModels(e *Engine, soft map[string]bool) {
	text := func(st *State, b Val) (string, StrV) {
		p := b.(PtrV)
		k := fmt.Sprint("text", p.path)
		if s, ok := e.get(st, p.obj).virt[k]; ok {
			return k, s.(StrV)
		}
		return k, StrV{}
	}
	itoa := func(st *State, n Val) StrV {
		if k, ok := e.lin(n).isConst(); ok {
			return StrV{s: fmt.Sprint(k)}
		}
		s := e.symStr(st, "", "itoa")
		st.zw().addLE(s.hi.neg().addc(1))
		o := *e.get(st, s.obj)
		o.tag = &Tag{"itoa", []Val{n}}
		st.heap[s.obj] = &o
		return s
	}
	atoi := func(c *CallCtx) []Result {
		st := c.st
		bad := st.clone()
		bad.ghost["malformed"] = BoolV{fBool(true)}
		er := e.symVal(bad, errorType, "", "err").(RefV)
		bad.nilF[er.obj] = false
		n := linSym(e.symByName("atoi"))
		if a := st.ghost["atoi.of"]; a != nil && !e.sameText(st, a.(StrV), c.args[0].(StrV)) {
			n = linSym(e.freshSym("atoi2"))
		} else {
			st.ghost["atoi.of"] = c.args[0]
		}
		return []Result{{st: st, ret: TupleV{[]Val{IntV{n}, NilV{}}}}, {st: bad, ret: TupleV{[]Val{IntV{linSym(e.freshSym("badint"))}, er}}}}
	}
	ms := map[string]Hook{
		"strconv.Itoa": func(c *CallCtx) []Result { return one(c.st, itoa(c.st, c.args[0])) },
		"strconv.FormatInt": func(c *CallCtx) []Result {
			if b, ok := e.lin(c.args[1]).isConst(); ok && b == 10 {
				return one(c.st, itoa(c.st, c.args[0]))
			}
			return nil
		},
		"strconv.Atoi": atoi,
		"strconv.ParseInt": func(c *CallCtx) []Result {
			b, ok := e.lin(c.args[1]).isConst()
			n, ok2 := e.lin(c.args[2]).isConst()
			if ok && ok2 && b == 10 && (n == 0 || n == 64) {
				return atoi(c)
			}
			if ok && b != 10 {
				delete(c.st.ghost, "atoi.of") // another number
				rs := atoi(c)
				delete(c.st.ghost, "atoi.of")
				return rs
			}
			return nil
		},
		"strings.Join": func(c *CallCtx) []Result {
			a := e.asSlice(c.st, c.args[0], types.NewSlice(types.Typ[types.String]))
			n, ok := a.len.isConst()
			if !ok || n > 16 {
				return nil
			}
			var s Val = StrV{}
			for i := int64(0); i < n; i++ {
				if i > 0 {
					s = e.concat(c.st, s.(StrV), c.args[1].(StrV))
				}
				s = e.concat(c.st, s.(StrV), e.elemGet(c.st, e.get(c.st, a.arr), a.off.addc(i)).(StrV))
			}
			return one(c.st, s)
		},
	}
	// values printed as they are: texts and numbers only
	plain := func(st *State, x Val) (StrV, bool) {
		if i, isI := x.(IfaceV); isI {
			x = i.val
		}
		switch y := x.(type) {
		case StrV:
			return y, true
		case IntV:
			return itoa(st, y), true
		}
		return StrV{}, false
	}
	format := func(c *CallCtx, f string, args []Val) (r Val) {
		var s Val = StrV{}
		for n := 0; f != ""; {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				i = len(f)
			}
			s = e.concat(c.st, s.(StrV), StrV{s: f[:i]})
			if f = f[i:]; f == "" {
				break
			}
			if len(f) < 2 || f[1] != '%' && (n >= len(args) || !strings.ContainsRune("sdv", rune(f[1]))) {
				return nil
			}
			if f[1] == '%' {
				s = e.concat(c.st, s.(StrV), StrV{s: "%"})
			} else {
				t, isPlain := plain(c.st, args[n])
				if _, isInt := args[n].(IfaceV).val.(IntV); !isPlain || isInt && f[1] == 's' || !isInt && f[1] == 'd' {
					return nil
				}
				n++
				s = e.concat(c.st, s.(StrV), t)
			}
			f = f[2:]
		}
		return s
	}
	// the values given to a print, from parameter k on
	printed := func(c *CallCtx, k int) (args []Val, ok bool) {
		a := e.asSlice(c.st, c.args[k], c.sig.Params().At(k).Type())
		n, fixed := a.len.isConst()
		if !fixed || n > 8 {
			return nil, false
		}
		for i := int64(0); i < n; i++ {
			x := e.elemGet(c.st, e.get(c.st, a.arr), a.off.addc(i))
			if _, isI := x.(IfaceV); !isI {
				return nil, false
			}
			args = append(args, x)
		}
		return args, true
	}
	ms["fmt.Sprintf"] = func(c *CallCtx) []Result {
		f, isS := c.args[0].(StrV)
		args, fixed := printed(c, 1)
		if !isS || f.obj != 0 || !fixed {
			return nil
		}
		if s := format(c, f.s, args); s != nil {
			return one(c.st, s)
		}
		return nil
	}
	ms["sort.Strings"] = func(c *CallCtx) []Result {
		a := e.asSlice(c.st, c.args[0], types.NewSlice(types.Typ[types.String]))
		n, ok := a.len.isConst()
		var ks []string
		for i := int64(0); ok && i < n; i++ {
			s := e.elemGet(c.st, e.get(c.st, a.arr), a.off.addc(i)).(StrV)
			ok = s.obj == 0
			ks = append(ks, s.s)
		}
		if !ok {
			return nil
		}
		sort.Strings(ks)
		for i, k := range ks {
			e.elemSet(c.st, e.get(c.st, a.arr), a.off.addc(int64(i)), StrV{s: k}, true)
		}
		return one(c.st, TupleV{})
	}
	ms["slices.Sort"] = ms["sort.Strings"]
	ok := NilV{}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		add := func(c *CallCtx, s StrV) {
			p := c.args[0].(PtrV)
			k, old := text(c.st, p)
			e.setVirt(c.st, p.obj, k, e.concat(c.st, old, s))
		}
		ms[t+"WriteString"] = func(c *CallCtx) []Result {
			s := c.args[1].(StrV)
			add(c, s)
			return one(c.st, TupleV{[]Val{IntV{strLen(s)}, ok}})
		}
		char := func(c *CallCtx) StrV {
			if k, isC := e.lin(c.args[1]).isConst(); isC {
				return StrV{s: string(rune(k))}
			}
			return e.symStr(c.st, "", "char")
		}
		ms[t+"WriteByte"] = func(c *CallCtx) []Result { add(c, char(c)); return one(c.st, ok) }
		ms[t+"WriteRune"] = func(c *CallCtx) []Result {
			s := char(c)
			add(c, s)
			return one(c.st, TupleV{[]Val{IntV{strLen(s)}, ok}})
		}
		ms[t+"String"] = func(c *CallCtx) []Result { _, s := text(c.st, c.args[0]); return one(c.st, s) }
		ms[t+"Len"] = func(c *CallCtx) []Result { _, s := text(c.st, c.args[0]); return one(c.st, IntV{strLen(s)}) }
		ms[t+"Reset"] = func(c *CallCtx) []Result {
			p := c.args[0].(PtrV)
			k, _ := text(c.st, p)
			e.setVirt(c.st, p.obj, k, StrV{})
			return one(c.st, TupleV{})
		}
		ms[t+"Grow"] = func(c *CallCtx) []Result { return one(c.st, TupleV{}) }
	}
	// printed into such a text
	into := func(name string, f func(c *CallCtx) Val) {
		ms[name] = func(c *CallCtx) []Result {
			i, isI := c.args[0].(IfaceV)
			if !isI {
				return nil
			}
			p, isP := i.val.(PtrV)
			if w := i.typ.String(); !isP || w != "*strings.Builder" && w != "*bytes.Buffer" {
				return nil
			}
			s := f(c)
			if s == nil {
				return nil
			}
			k, old := text(c.st, p)
			e.setVirt(c.st, p.obj, k, e.concat(c.st, old, s.(StrV)))
			return one(c.st, TupleV{[]Val{IntV{strLen(s.(StrV))}, ok}})
		}
	}
	into("io.WriteString", func(c *CallCtx) Val { return c.args[1] })
	into("fmt.Fprint", func(c *CallCtx) Val {
		if args, fixed := printed(c, 1); fixed && len(args) == 1 {
			if s, isPlain := plain(c.st, args[0]); isPlain {
				return s
			}
		}
		return nil
	})
	into("fmt.Fprintf", func(c *CallCtx) Val {
		f, isS := c.args[1].(StrV)
		if args, fixed := printed(c, 2); isS && f.obj == 0 && fixed {
			return format(c, f.s, args)
		}
		return nil
	})
	for k := range ms {
		soft[k] = true
	}
	e.errHook = func(c *CallCtx) []Result {
		if c.fn == nil {
			return nil
		}
		if m := ms[c.fn.String()]; m != nil {
			rs := m(c)
			if rs == nil {
				c.st.ghost["unmodelled"] = StrV{s: c.fn.String()}
			}
			return rs
		}
		return nil
	}
}

// parts of a text, constants put together
func (e *Engine) parts(st *State, s StrV) (r []Val) {
	var walk func(s StrV)
	walk = func(s StrV) {
		if s.obj == 0 {
			if s.s == "" {
				return
			}
			if n := len(r) - 1; n >= 0 {
				if last := r[n].(StrV); last.obj == 0 {
					r[n] = StrV{s: last.s + s.s}
					return
				}
			}
			r = append(r, s)
			return
		}
		s = e.canonStr(st, s)
		o := e.get(st, s.obj)
		if t := o.tag; t != nil && t.kind == "concat" && s.lo.equal(linConst(0)) && s.hi.equal(o.slen) {
			walk(t.args[0].(StrV))
			walk(t.args[1].(StrV))
			return
		}
		r = append(r, s)
	}
	walk(s)
	return
}

func (e *Engine) sameParts(st *State, a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i].(StrV), b[i].(StrV)
		if e.same(st, x, y) {
			continue
		}
		t, u := e.tagOf(st, x), e.tagOf(st, y)
		if t == nil || u == nil || t.kind != "itoa" || u.kind != "itoa" || !e.same(st, t.args[0], u.args[0]) {
			return false
		}
	}
	return true
}

func (e *Engine) sameText(st *State, a, b StrV) bool {
	return e.sameParts(st, e.parts(st, a), e.parts(st, b))
}

func (c *conv) list(st *State, et types.Type, xs []Val) SliceV {
	e := c.e
	o := e.newObj(OArray, et, "list")
	st.heap[o.id] = o
	for i, x := range xs {
		e.elemSet(st, e.get(st, o.id), linConst(int64(i)), x, false)
	}
	st.nilF[o.id] = false
	return SliceV{o.id, linConst(0), linConst(int64(len(xs)))}
}

func (c *conv) array(st *State, xs []nval) PtrV {
	p := c.e.symVal(st, types.NewPointer(c.p.typ("NativeArray")), "", "array").(PtrV)
	st.nilF[p.obj] = false
	var vs []Val
	for _, x := range xs {
		vs = append(vs, x.v)
	}
	c.e.store(st, p, c.list(st, c.p.typ("Ast"), vs))
	return p
}

var convNames = []string{"n", "b", "z", "a"} // not in alphabetical order

func (c *conv) nmap(st *State, xs []nval) PtrV {
	e := c.e
	p := e.symVal(st, types.NewPointer(c.p.typ("NativeMap")), "", "map").(PtrV)
	st.nilF[p.obj] = false
	vals := c.loadField(st, p, c.valsF).(RefV)
	st.nilF[vals.obj] = false
	vo := *e.get(st, vals.obj)
	var keys []Val
	for i, x := range xs {
		keys = append(keys, StrV{s: convNames[i]})
		vo.entries = append(vo.entries, mapEnt{StrV{s: convNames[i]}, x.v, true})
	}
	st.heap[vals.obj] = &vo
	c.storeField(st, p, c.keysF, c.list(st, types.Typ[types.String], keys))
	return p
}

func allText(xs []nval) (r []Val) {
	for _, x := range xs {
		r = append(r, x.text...)
	}
	return
}

// val: a value of the kind
func (c *conv) val(st *State, kind string) nval {
	e := c.e
	c.n++
	name := fmt.Sprint(kind, c.n)
	x := nval{kind: kind}
	ptr := func(t string) types.Type { return types.NewPointer(c.p.typ(t)) }
	switch kind {
	case "string":
		s := e.symStr(st, name, name)
		st.zw().addLE(strLen(s).neg().addc(1))
		x.v, x.text = IfaceV{c.p.typ("NativeString"), s}, []Val{s}
	case "int":
		n := IntV{linSym(e.symByName(name))}
		s := e.symStr(st, "", "itoa")
		o := *e.get(st, s.obj)
		o.tag = &Tag{"itoa", []Val{n}}
		st.heap[s.obj] = &o
		x.v, x.text = IfaceV{c.p.typ("NativeInt"), n}, []Val{s}
	case "array", "map":
		in := []nval{c.val(st, "string"), c.val(st, "int")}
		if kind == "map" {
			p := c.nmap(st, in)
			x.v, x.text = IfaceV{ptr("NativeMap"), p}, allText(in)
			x.str = strOf(e, st, p).(StrV)
		} else {
			in = []nval{c.val(st, "string"), {kind: "array", v: IfaceV{ptr("NativeArray"), c.array(st, in[:1])}, text: in[0].text}}
			p := c.array(st, in)
			x.v, x.text = IfaceV{ptr("NativeArray"), p}, allText(in)
			x.str = strOf(e, st, p).(StrV)
		}
	case "undef":
		x.v = IfaceV{c.p.typ("NativeUndefined"), e.symVal(st, c.p.typ("NativeUndefined"), "", name)}
	case "other":
		r := e.symVal(st, c.p.typ("Ast"), "", name).(RefV)
		st.nilF[r.obj] = false
		for _, t := range []types.Type{c.p.typ("NativeString"), c.p.typ("NativeInt"), c.p.typ("NativeUndefined"), ptr("NativeArray"), ptr("NativeMap")} {
			e.assume(st, &Form{op: fType, obj: r.obj, typ: t}, false)
		}
		x.v, x.text = r, []Val{strOf(e, st, r)}
	}
	return x
}

// check unless it depends on what is not modelled
func (c *conv) chkC(o Outcome, ok bool, rule, format string, a ...any) {
	if ok {
		c.e.Check(o.st, true, c.rule+"."+rule, o.pos, "")
		return
	}
	if o.st.zone.infeasible() {
		return
	}
	if u, isU := o.st.ghost["unmodelled"]; isU {
		c.e.undecided("%s.%s: depends on %s", c.rule, rule, u.(StrV).s)
		return
	}
	c.e.Check(o.st, false, c.rule+"."+rule, o.pos, format, a...)
}

// text of a result: a string, NativeString, or an Ast holding one
func textOf(v Val) (StrV, bool) {
	if i, ok := v.(IfaceV); ok {
		if !strings.HasSuffix(typeStr(i.typ), "NativeString") {
			return StrV{}, false
		}
		v = i.val
	}
	s, ok := v.(StrV)
	return s, ok
}

func intOf(v Val) (Lin, bool) {
	if i, ok := v.(IfaceV); ok {
		if !strings.HasSuffix(typeStr(i.typ), "NativeInt") {
			return Lin{}, false
		}
		v = i.val
	}
	s, ok := v.(IntV)
	return s.l, ok
}

func (c *conv) show(st *State, parts []Val) string {
	var r []string
	for _, x := range parts {
		r = append(r, c.e.show(st, x))
	}
	return strings.Join(r, "+")
}

func kindsOf(xs []nval) string {
	var r []string
	for _, x := range xs {
		r = append(r, x.kind)
	}
	return "[" + strings.Join(r, " ") + "]"
}

// concatOf checks Concat() for every list of up to max values.
func concatOf(p *Prog, rep *Report, typ string, max int) {
	rule := typ + ".Concat"
	fn := p.ownMethod(typ, "Concat")
	if fn == nil {
		fn = p.method(typ, "Concat")
	}
	if fn == nil {
		rep.lost = append(rep.lost, rule+" was not found")
		return
	}
	var lists [][]string
	var build func(pre []string)
	build = func(pre []string) {
		lists = append(lists, append([]string(nil), pre...))
		if len(pre) < max {
			for _, k := range convKinds {
				build(append(pre[:len(pre):len(pre)], k))
			}
		}
	}
	build(nil)
	for _, l := range lists {
		guard(rep, rule, func() {
			c := newConv(p, rep, rule)
			var xs []nval
			foreign, maps := false, false
			for _, k := range l {
				x := c.val(c.st, k)
				foreign = foreign || k == "other"
				maps = maps || k == "map"
				xs = append(xs, x)
			}
			var self PtrV
			if typ == "NativeArray" {
				self = c.array(c.st, xs)
			} else {
				self = c.nmap(c.st, xs)
			}
			n := 0
			for _, o := range c.run(fn, self) {
				n++
				st := o.st
				if o.panic != "" {
					c.chkC(o, foreign && !isRuntimePanic(o.panic), "no-panic", "the concatenation of %s panics (%s)", kindsOf(xs), o.panic)
					continue
				}
				s, ok := textOf(o.ret)
				if !ok {
					c.e.undecided("%s: what is returned is not understood", rule)
					continue
				}
				got, want := c.e.parts(st, s), allText(xs)
				same := c.e.sameParts(st, got, want)
				if !same && maps && typ == "NativeArray" {
					var alt []Val
					for _, x := range xs {
						if x.kind == "map" {
							alt = append(alt, x.str)
						} else {
							alt = append(alt, x.text...)
						}
					}
					if c.e.sameParts(st, got, alt) {
						c.chkC(o, false, "nested-map", "a map inside the array gives its String(), not the concatenation of its elements")
						continue
					}
				}
				c.chkC(o, same, "text", "the concatenation of %s is %s instead of %s", kindsOf(xs), c.show(st, got), c.show(st, want))
			}
			c.reached(n, 1)
			c.done()
		})
	}
}

// converts checks a conversion for each kind of value.
func converts(p *Prog, rep *Report, fn *ssa.Function, name string, toInt bool) {
	if fn == nil {
		rep.lost = append(rep.lost, name+" was not found")
		return
	}
	for _, kind := range convKinds {
		guard(rep, name, func() {
			c := newConv(p, rep, name)
			x := c.val(c.st, kind)
			n := 0
			for _, o := range c.run(fn, x.v) {
				n++
				c.converted(o, o.ret, x, toInt)
			}
			c.reached(n, 1)
			c.done()
		})
	}
}

// converted: ret is what x converts to
func (c *conv) converted(o Outcome, ret Val, x nval, toInt bool) {
	st := o.st
	_, bad := st.ghost["malformed"]
	must := x.kind == "string" || x.kind == "int" || x.kind == "array"
	if o.panic != "" {
		c.chkC(o, (bad || !must) && !isRuntimePanic(o.panic), "accepts", "a %s is refused (%s)", x.kind, o.panic)
		return
	}
	c.chkC(o, !bad, "refuses", "a text that is not a number is not refused")
	if bad {
		return
	}
	if toInt {
		n, ok := intOf(ret)
		if !ok {
			c.e.undecided("%s: what is returned is not understood", c.rule)
			return
		}
		if x.kind == "int" {
			c.chkC(o, c.eqLin(st, n, c.e.lin(x.v.(IfaceV).val)), "value", "the number is changed")
			return
		}
		of, ok := st.ghost["atoi.of"].(StrV)
		if !ok || x.kind == "undef" || x.kind == "other" {
			c.chkC(o, false, "value", "a %s gives %s", x.kind, c.e.linStr(n))
			return
		}
		c.chkC(o, c.e.sameParts(st, c.e.parts(st, of), x.text) && n.equal(linSym(c.e.symByName("atoi"))), "value", "a %s does not give the number its text is", x.kind)
		return
	}
	s, ok := textOf(ret)
	if !ok {
		c.e.undecided("%s: what is returned is not understood", c.rule)
		return
	}
	got := c.e.parts(st, s)
	c.chkC(o, x.kind != "undef" && x.kind != "other" && c.e.sameParts(st, got, x.text), "value", "a %s gives %s instead of its text", x.kind, c.show(st, got))
}

func derefBool(st *State, e *Engine, v Val) tri {
	b, ok := v.(BoolV)
	if !ok {
		return unk
	}
	return e.decide(st, b.f)
}

func getExists(p *Prog, rep *Report, name string, toInt bool) {
	fn := p.method("NativeMap", name)
	rule := "NativeMap." + name
	if fn == nil {
		rep.lost = append(rep.lost, rule+" was not found")
		return
	}
	for _, kind := range append([]string{""}, convKinds...) {
		guard(rep, rule, func() {
			c := newConv(p, rep, rule)
			xs := []nval{c.val(c.st, "string")}
			if kind != "" {
				xs = append(xs, c.val(c.st, kind))
			}
			self := c.nmap(c.st, xs)
			if kind == "" { // known not to be there
				vals := c.loadField(c.st, self, c.valsF).(RefV)
				vo := *c.e.get(c.st, vals.obj)
				vo.entries = append(vo.entries, mapEnt{StrV{s: convNames[1]}, nil, false})
				c.st.heap[vals.obj] = &vo
			}
			n := 0
			for _, o := range c.run(fn, self, StrV{s: convNames[1]}) {
				n++
				if o.panic != "" && kind == "" {
					c.chkC(o, false, "absent", "an absent key is refused (%s)", o.panic)
					continue
				}
				if o.panic != "" {
					// an int is no string here
					if !toInt && kind == "int" && !isRuntimePanic(o.panic) {
						continue
					}
					c.converted(o, nil, xs[1], toInt)
					continue
				}
				r := o.ret.(TupleV)
				is := derefBool(o.st, c.e, r.v[1])
				if is == unk {
					c.e.undecided("%s: what is returned is not understood", rule)
					continue
				}
				if kind == "" {
					c.chkC(o, is == no, "absent", "an absent key is said to be there")
					continue
				}
				_, bad := o.st.ghost["malformed"]
				c.chkC(o, is == yes, map[bool]string{true: "refuses", false: "present"}[bad], "a key that is there is said to be absent (%s)", kind)
				if is == yes {
					c.converted(o, r.v[0], xs[1], toInt)
				}
			}
			c.reached(n, 1)
			c.done()
		})
	}
}

func checkConversions(p *Prog, rep *Report) {
	for _, t := range []string{"NativeArray", "NativeMap"} {
		concatOf(p, rep, t, 3)
	}
	converts(p, rep, p.fn("NativeIntFrom"), "NativeIntFrom", true)
	converts(p, rep, p.fn("NewNativeIntFrom"), "NewNativeIntFrom", true)
	converts(p, rep, p.fn("NativeStringFrom"), "NativeStringFrom", false)
	converts(p, rep, p.fn("NewNativeStringFrom"), "NewNativeStringFrom", false)
	getExists(p, rep, "GetIntExists", true)
	getExists(p, rep, "GetStringExists", false)
	// from and to plain values
	plain := func(name string, fn *ssa.Function, kind string, toInt bool) {
		if fn == nil {
			rep.lost = append(rep.lost, name+" was not found")
			return
		}
		guard(rep, name, func() {
			c := newConv(p, rep, name)
			x := c.val(c.st, kind)
			n := 0
			for _, o := range c.run(fn, x.v.(IfaceV).val) {
				n++
				c.converted(o, o.ret, x, toInt)
			}
			c.reached(n, 1)
			c.done()
		})
	}
	plain("NewNativeInt", p.fn("NewNativeInt"), "int", true)
	plain("NewNativeString", p.fn("NewNativeString"), "string", false)
	plain("NewNativeIntFromString", p.fn("NewNativeIntFromString"), "string", true)
	plain("NativeInt.Int", p.ownMethod("NativeInt", "Int"), "int", true)
	plain("NativeInt.String", p.ownMethod("NativeInt", "String"), "int", false)
	plain("NativeString.String", p.ownMethod("NativeString", "String"), "string", false)
	guard(rep, "NewNativeIntFromBool", func() {
		fn := p.fn("NewNativeIntFromBool")
		for _, b := range []bool{false, true} {
			c := newConv(p, rep, "NewNativeIntFromBool")
			want := int64(0)
			if b {
				want = 1
			}
			n := 0
			for _, o := range c.noPanic(c.run(fn, BoolV{fBool(b)}), true) {
				n++
				l, ok := intOf(o.ret)
				c.chkC(o, ok && c.eqLin(o.st, l, linConst(want)), "value", "%v gives %s", b, c.e.show(o.st, o.ret))
			}
			c.reached(n, 1)
			c.done()
		}
	})
	guard(rep, "NativeInt.Bool", func() {
		c := newConv(p, rep, "NativeInt.Bool")
		x := c.val(c.st, "int")
		for _, o := range c.noPanic(c.run(p.ownMethod("NativeInt", "Bool"), x.v.(IfaceV).val), true) {
			l := c.e.lin(x.v.(IfaceV).val)
			for _, zero := range []bool{true, false} {
				st := o.st.clone()
				c.e.assume(st, &Form{op: fEQ, lin: l}, zero)
				if st.dead || st.zone.bad {
					continue
				}
				got := derefBool(st, c.e, o.ret)
				o := o
				o.st = st
				c.chkC(o, got == no == zero && got != unk, "value", "Bool() does not say whether the number is other than 0")
			}
		}
		c.done()
	})
}

// checkArray: an array holds what it is given, in order.
func checkArray(p *Prog, rep *Report) {
	kinds := []string{"string", "int", "other"}
	holds := func(c *conv, o Outcome, self Val, want []nval) {
		ptr, ok := derefIface(self).(PtrV)
		if !ok {
			c.e.undecided("%s: what is returned is not understood", c.rule)
			return
		}
		a, ok := c.e.load(o.st, ptr).(SliceV)
		if !ok {
			c.chkC(o, false, "holds", "the array is lost")
			return
		}
		same := c.eqLin(o.st, a.len, linConst(int64(len(want))))
		for i := range want {
			same = same && c.e.same(o.st, c.e.elemGet(o.st, c.e.get(o.st, a.arr), a.off.addc(int64(i))), want[i].v)
		}
		c.chkC(o, same, "holds", "the array does not hold what it was given")
	}
	run := func(name string, fn *ssa.Function, n int, args func(c *conv, xs []nval) []Val, check func(c *conv, o Outcome, args []Val, xs []nval)) {
		if fn == nil {
			return
		}
		guard(rep, name, func() {
			c := newConv(p, rep, name)
			var xs []nval
			for i := 0; i < n; i++ {
				xs = append(xs, c.val(c.st, kinds[i%len(kinds)]))
			}
			as := args(c, xs)
			for _, o := range c.run(fn, as...) {
				if o.panic != "" {
					c.chkC(o, false, "no-panic", "panics (%s)", o.panic)
					continue
				}
				check(c, o, as, xs)
			}
			c.done()
		})
	}
	vals := func(xs []nval) (r []Val) {
		for _, x := range xs {
			r = append(r, x.v)
		}
		return
	}
	for n := 0; n <= 3; n++ {
		run("NewNativeArray", p.fn("NewNativeArray"), n,
			func(c *conv, xs []nval) []Val { return []Val{c.list(c.st, p.typ("Ast"), vals(xs))} },
			func(c *conv, o Outcome, args []Val, xs []nval) { holds(c, o, o.ret, xs) })
		run("NativeArray.Append", p.method("NativeArray", "Append"), n+1,
			func(c *conv, xs []nval) []Val { return []Val{c.array(c.st, xs[:n]), xs[n].v} },
			func(c *conv, o Outcome, args []Val, xs []nval) { holds(c, o, args[0], xs) })
		run("NativeArray.Length", p.method("NativeArray", "Length"), n,
			func(c *conv, xs []nval) []Val { return []Val{c.array(c.st, xs)} },
			func(c *conv, o Outcome, args []Val, xs []nval) {
				l, ok := o.ret.(IntV)
				c.chkC(o, ok && c.eqLin(o.st, l.l, linConst(int64(n))), "value", "Length() is not the number of elements")
				holds(c, o, args[0], xs)
			})
		for i := 0; i < n; i++ {
			run("NativeArray.Get", p.method("NativeArray", "Get"), n,
				func(c *conv, xs []nval) []Val { return []Val{c.array(c.st, xs), IntV{linConst(int64(i))}} },
				func(c *conv, o Outcome, args []Val, xs []nval) {
					c.chkC(o, c.e.same(o.st, o.ret, xs[i].v), "value", "Get(%d) is not that element", i)
					holds(c, o, args[0], xs)
				})
		}
	}
	run("NewEmptyNativeArray", p.fn("NewEmptyNativeArray"), 0,
		func(c *conv, xs []nval) []Val { return nil },
		func(c *conv, o Outcome, args []Val, xs []nval) { holds(c, o, o.ret, nil) })
}

func init() {
	checks["C28"] = checkDef{rule: "for every list of up to three values of every kind, the concatenation of an array or a map is, in order, the texts of its elements (nothing for undefined); every conversion gives the value or the text of what it is given, or panics",
		f: func(p *Prog, rep *Report) {
			checkConversions(p, rep)
			checkArray(p, rep)
			rep.floor("NativeArray.Concat.text", 100)
			rep.floor("NativeMap.Concat.text", 100)
			rep.floor("NativeIntFrom.value", 3)
			rep.floor("NativeStringFrom.value", 3)
		}}
}
