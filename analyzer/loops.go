package main

// Termination (C06): progress of repetition and of growth (from the monitors of
// C03, C07 and C08), and every other loop that runs during a parse.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sub runs other checks and keeps the obligations of the rules named.
func (r *Report) sub(p *Prog, rules []string, f func(rep *Report)) {
	s := newReport(r.id)
	s.tier = r.tier
	f(s)
	keep := map[string]bool{}
	for _, x := range rules {
		keep[x] = true
	}
	for _, v := range s.viol {
		if keep[v.rule] {
			r.viol = append(r.viol, v)
		}
	}
	for k, n := range s.obl {
		if keep[k] {
			r.obl[k] += n
		}
	}
	for f := range s.funcs {
		r.funcs[f] = true
	}
	r.undec = append(r.undec, s.undec...)
	r.lost = append(r.lost, s.lost...)
	r.states += s.states
	r.outs += s.outs
}

type loopInfo struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func loopsOf(fn *ssa.Function) []loopInfo {
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := m[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				m[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var r []loopInfo
	for h, b := range m {
		r = append(r, loopInfo{h, b})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].head.Index < r[j].head.Index })
	return r
}

func checkLoops(p *Prog, rep *Report) {
	ef := p.effects()
	par := ef.reach(parseRoots(p), func(f *ssa.Function) bool { return f.Name() == "init" })
	var fns []*ssa.Function
	for f := range par {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		ls := loopsOf(f)
		if len(ls) > 0 {
			rep.funcs[short(f)] = true
		}
		for _, l := range ls {
			rep.obl["loop.progress"]++
			pos := loopPos(l)
			if at := stuckPath(ef, l); at.IsValid() {
				rep.add(p, "loop.progress", at, "the loop can go round without changing anything it depends on, and so never ends (%s)", chain(par, f))
				continue
			}
			kind := loopKind(ef, l)
			if kind == "" {
				if f.Parent() != nil && strings.HasPrefix(f.Parent().Name(), "loopify") || len(parseCalls(l)) > 0 {
					kind = "monitored: calls parse"
				} else {
					rep.undecided("loop at %s in %s: no bound found by the syntactic rules", p.pos(pos), short(f))
					continue
				}
			}
			rep.obl["loop.bounded ("+kind+")"]++
			rep.sample("%s %s: %s", p.pos(pos), short(f), kind)
		}
	}
}

func loopPos(l loopInfo) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.head.Succs...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.head.Parent().Pos()
}

// calls of parsers or of the body of a parse, directly or in a helper
func parseCalls(l loopInfo) []ssa.Instruction {
	var r []ssa.Instruction
	seen := map[*ssa.Function]bool{}
	var parses func(in ssa.Instruction) bool
	parses = func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if c.Common().IsInvoke() {
			return c.Common().Method.Name() == "parse"
		}
		callee := c.Common().StaticCallee()
		if callee == nil {
			return strings.HasSuffix(typeStr(c.Common().Value.Type()), "parseFunc")
		}
		if !inRepo(callee) || seen[callee] {
			return false
		}
		seen[callee] = true
		for _, b := range callee.Blocks {
			for _, in := range b.Instrs {
				if parses(in) {
					delete(seen, callee)
					return true
				}
			}
		}
		return false
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if parses(in) {
				r = append(r, in)
			}
		}
	}
	return r
}

// stuckPath finds a way round the loop that changes no variable and no memory.
func stuckPath(ef *Effects, l loopInfo) token.Pos {
	quiet := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !trackedVar(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Next, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.Return:
				return false
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "append", "min", "max":
						continue
					}
					return false
				}
				callee := x.Call.StaticCallee()
				if callee == nil || !inRepo(callee) || !ef.pure(callee) {
					return false
				}
			}
		}
		return true
	}
	found := token.NoPos
	n := 0
	on := map[*ssa.BasicBlock]bool{}
	var path []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if found.IsValid() || n > 5000 || !quiet(b) {
			return
		}
		on[b] = true
		path = append(path, b)
		for _, s := range b.Succs {
			if s == l.head {
				n++
				if unchanged(l.head, path) {
					found = loopPos(l)
					for _, x := range path {
						for _, in := range x.Instrs {
							if _, isIf := in.(*ssa.If); isIf && in.Pos().IsValid() {
								found = in.Pos()
							}
						}
					}
				}
			} else if l.body[s] && !on[s] {
				walk(s)
			}
		}
		on[b] = false
		path = path[:len(path)-1]
	}
	walk(l.head)
	return found
}

// unchanged: going round twice by this path, the second round leaves every
// variable as the first one did, so that all the following rounds do as well.
func unchanged(h *ssa.BasicBlock, path []*ssa.BasicBlock) bool {
	env := map[ssa.Value]string{}
	for _, in := range h.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			env[phi] = "phi " + phi.Name()
		}
	}
	vars := map[ssa.Value]string{}
	for _, b := range path {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				vars[st.Addr] = "var " + st.Addr.Name()
			}
		}
	}
	conds := map[string]bool{}
	var prev map[ssa.Value]string
	for round := 0; round < 2; round++ {
		x := &pathEval{h: h, path: path, env: env, vars: vars, memo: map[ssa.Value]string{}, round: round}
		was := map[ssa.Value]string{}
		for a, k := range vars {
			was[a] = k
		}
		// the tests passed on the way must be consistent
		for i, b := range path {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					vars[st.Addr] = x.key(st.Val)
				} else if y, ok := in.(ssa.Value); ok {
					x.key(y)
				}
			}
			br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			next := h
			if i+1 < len(path) {
				next = path[i+1]
			}
			if b.Succs[0] == b.Succs[1] {
				continue
			}
			k, want := x.key(br.Cond), next == b.Succs[0]
			if k == "true:bool" && !want || k == "false:bool" && want {
				return false
			}
			if was, ok := conds[k]; ok && was != want {
				return false
			}
			conds[k] = want
		}
		last := path[len(path)-1]
		now := map[ssa.Value]string{}
		for phi := range env {
			now[phi] = x.key(phi.(*ssa.Phi).Edges[predIndex(h, last)])
		}
		for a, k := range was {
			if round == 1 && vars[a] != k {
				return false
			}
		}
		prev, env = env, now
	}
	for phi, k := range env {
		if prev[phi] != k {
			return false
		}
	}
	return true
}

type pathEval struct {
	h     *ssa.BasicBlock
	path  []*ssa.BasicBlock
	env   map[ssa.Value]string
	vars  map[ssa.Value]string // local variables kept in memory
	memo  map[ssa.Value]string
	round int
}

// trackedVar: a local variable that only this function reads and sets, whole
func trackedVar(a ssa.Value) bool {
	al, ok := a.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *y.Referrers() {
				if _, ok := q.(*ssa.UnOp); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// key is an expression of the value at this round of the path.
func (x *pathEval) key(v ssa.Value) string {
	if k, ok := x.env[v]; ok {
		return k
	}
	if k, ok := x.memo[v]; ok {
		return k
	}
	k := x.key1(v)
	if len(k) > 4000 {
		k = fmt.Sprintf("big %s@%d", v.Name(), x.round)
	}
	x.memo[v] = k
	return k
}

func (x *pathEval) key1(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	in, ok := v.(ssa.Instruction)
	at := -1
	if ok {
		for i, b := range x.path {
			if b == in.Block() {
				at = i
			}
		}
	}
	if at < 0 {
		return fmt.Sprintf("%s %p", v.Name(), v)
	}
	op := ""
	switch y := v.(type) {
	case *ssa.Phi:
		if at == 0 {
			break
		}
		return x.key(y.Edges[predIndex(y.Block(), x.path[at-1])])
	case *ssa.BinOp:
		op = y.Op.String()
	case *ssa.UnOp:
		op = y.Op.String()
		if k, ok := x.vars[y.X]; ok && y.Op == token.MUL {
			return k
		}
		if f, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			if k, ok := x.vars[f.X]; ok {
				return fmt.Sprintf("field %d(%s)", f.Field, k)
			}
		}
	case *ssa.Field:
		op = fmt.Sprint("field ", y.Field)
	case *ssa.FieldAddr:
		op = fmt.Sprint("&field ", y.Field)
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface:
		op = fmt.Sprintf("%T", v)
	case *ssa.Extract:
		op = fmt.Sprint("extract ", y.Index)
	case *ssa.TypeAssert:
		op = "assert " + y.AssertedType.String()
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			break
		}
		op = "call"
	}
	if op == "" {
		return fmt.Sprintf("new %s@%d", v.Name(), x.round)
	}
	for _, o := range in.Operands(nil) {
		if *o != nil {
			op += "(" + x.key(*o) + ")"
		}
	}
	return op
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

// loopKind recognises loops bounded by what they run over.
func loopKind(ef *Effects, l loopInfo) string {
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			_ = nx
			return "range"
		}
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && l.body[in.Block()]
	}
	// a test that leaves the loop, on every round, comparing a variable that
	// only moves one way
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		everyRound := true
		for _, p := range l.head.Preds {
			if l.body[p] && !b.Dominates(p) {
				everyRound = false
			}
		}
		cmp, ok := br.Cond.(*ssa.BinOp)
		if !everyRound || !ok {
			continue
		}
		for _, side := range []ssa.Value{cmp.X, cmp.Y} {
			other := cmp.Y
			if side == cmp.Y {
				other = cmp.X
			}
			if d := counterStep(l, side); d != 0 && boundFor(ef, l, inLoop, other, d) {
				switch cmp.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					return "counter"
				}
			}
		}
	}
	return ""
}

// counterStep: v is (derived from) a phi of the head that every round moves in
// the same direction: +1 or -1, else 0
func counterStep(l loopInfo, v ssa.Value) int {
	off := map[ssa.Value]bool{}
	for {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, c := b.Y.(*ssa.Const); c && !off[v] {
				off[v] = true
				v = b.X
				continue
			}
		}
		break
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Block() != l.head {
		return 0
	}
	dir := 0
	for i, p := range l.head.Preds {
		if !l.body[p] {
			continue
		}
		d := step(phi, phi.Edges[i], 0)
		if d == 0 || dir != 0 && dir != d {
			return 0
		}
		dir = d
	}
	return dir
}

func step(phi *ssa.Phi, v ssa.Value, depth int) int {
	if depth > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		n := c.Int64()
		if x.Op == token.SUB {
			n = -n
		} else if x.Op != token.ADD {
			return 0
		}
		d := 0
		if n > 0 {
			d = 1
		} else if n < 0 {
			d = -1
		}
		if x.X == phi {
			return d
		}
		if s := step(phi, x.X, depth+1); s == d {
			return d
		}
	case *ssa.Phi:
		if x == phi {
			return 0
		}
		d := 0
		for _, e := range x.Edges {
			s := step(phi, e, depth+1)
			if s == 0 || d != 0 && s != d {
				return 0
			}
			d = s
		}
		return d
	}
	return 0
}

// boundFor: the other side does not run away: loop invariant, or a length of
// memory that is not extended in the loop
func boundFor(ef *Effects, l loopInfo, inLoop func(ssa.Value) bool, v ssa.Value, dir int) bool {
	if !inLoop(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if !inLoop(x.Call.Args[0]) {
				return true
			}
			u, ok := x.Call.Args[0].(*ssa.UnOp)
			return ok && noStoreTo(l, u.X)
		}
		return pureCall(ef, x) && writesNothing(ef, l)
	case *ssa.UnOp:
		return x.Op == token.MUL && noStoreTo(l, x.X)
	case *ssa.BinOp:
		return boundFor(ef, l, inLoop, x.X, dir) && boundFor(ef, l, inLoop, x.Y, dir)
	case *ssa.Const:
		return true
	}
	return false
}

// pureCall: a call which writes nothing, whichever function it is of.
func pureCall(ef *Effects, c *ssa.Call) bool {
	fs := []*ssa.Function{c.Call.StaticCallee()}
	if c.Call.IsInvoke() {
		fs = ef.implsOf(c.Call.Value.Type(), c.Call.Method)
	}
	for _, f := range fs {
		if f == nil || !inRepo(f) || !ef.pure(f) {
			return false
		}
	}
	return len(fs) > 0
}

// writesNothing: the loop only changes its own variables and memory it makes.
func writesNothing(ef *Effects, l loopInfo) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				// a place in a slice of slices, or the arguments of an append
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					switch typeStr(ia.X.Type()) {
					case "[][]*frame", "*[1][]*frame":
						continue
					}
				}
				if !trackedVar(x.Addr) {
					return false
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok && !pureCall(ef, x) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer:
				return false
			}
		}
	}
	return true
}

func noStoreTo(l loopInfo, addr ssa.Value) bool {
	t := target(addr)
	for b := range l.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && target(s.Addr) == t {
				return false
			}
		}
	}
	return true
}

func init() {
	checks["C06"] = checkDef{rule: "progress obligations of the monitors of repetition (pattern.parse) and of left recursion (wrap), and for every other loop reachable from a parse: no way round it leaves everything unchanged, and a bound is recognised (range, counter against a fixed bound)",
		assume: []string{"callbacks return", "left-recursive rules do not use SkipCache"},
		f: func(p *Prog, rep *Report) {
			rep.sub(p, []string{"pattern.progress", "pattern.progress-stop"}, func(r *Report) { checkPattern(p, r) })
			rep.sub(p, []string{"wrap.recursion", "wrap.seed", "wrap.once", "wrap.grow-progress"}, func(r *Report) {
				checkMemo(p, r, memoRules{memo: true, loop: true})
			})
			checkLoops(p, rep)
			rep.floor("loop.progress", 15)
			rep.floor("pattern.progress", 1)
			rep.floor("wrap.grow-progress", 1)
			rep.floor("wrap.recursion", 4)
		}}
}
