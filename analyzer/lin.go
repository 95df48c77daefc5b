package main

// Linear expressions over symbols, and the zone domain over linear template
// nodes (difference bounds between interned linear terms). No solver: the
// domain is closed by shortest paths only.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + sum k*s, terms sorted by symbol, no zero coefficient.
type Lin struct {
	c int64
	t []term
}

func linConst(c int64) Lin { return Lin{c: c} }
func linSym(s Sym) Lin     { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() (int64, bool) { return a.c, len(a.t) == 0 }

func (a Lin) addScaled(b Lin, k int64) Lin {
	r := Lin{c: a.c + k*b.c}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, term{b.t[j].s, k * b.t[j].k})
			j++
		default:
			if v := a.t[i].k + k*b.t[j].k; v != 0 {
				r.t = append(r.t, term{a.t[i].s, v})
			}
			i++
			j++
		}
	}
	return r
}
func (a Lin) add(b Lin) Lin     { return a.addScaled(b, 1) }
func (a Lin) sub(b Lin) Lin     { return a.addScaled(b, -1) }
func (a Lin) addc(c int64) Lin  { return Lin{a.c + c, a.t} }
func (a Lin) neg() Lin          { return linConst(0).sub(a) }
func (a Lin) scale(k int64) Lin { return linConst(0).addScaled(a, k) }
func (a Lin) noConst() Lin      { return Lin{0, a.t} }
func (a Lin) equal(b Lin) bool  { return a.c == b.c && a.sameTerms(b) }
func (a Lin) sameTerms(b Lin) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// isDiff: a difference of two symbols, or simpler
func (a Lin) isDiff() bool { return len(a.t) < 2 || len(a.t) == 2 && a.t[0].k == -a.t[1].k }

func (a Lin) termKey() string {
	if len(a.t) == 0 {
		return ""
	}
	b := make([]byte, 0, 16)
	for _, t := range a.t {
		b = strconv.AppendInt(b, int64(t.s), 36)
		b = append(b, '*')
		b = strconv.AppendInt(b, t.k, 36)
		b = append(b, ' ')
	}
	return string(b)
}
func (a Lin) key() string { return a.termKey() + "+" + strconv.FormatInt(a.c, 10) }

func (a Lin) subst(f func(Sym) (Lin, bool)) Lin {
	r := linConst(a.c)
	for _, t := range a.t {
		if l, ok := f(t.s); ok {
			r = r.addScaled(l, t.k)
		} else {
			r = r.add(Lin{0, []term{t}})
		}
	}
	return r
}

func (e *Engine) linStr(a Lin) string {
	var p []string
	for _, t := range a.t {
		n := e.symName(t.s)
		if t.k == 1 {
			p = append(p, n)
		} else if t.k == -1 {
			p = append(p, "-"+n)
		} else {
			p = append(p, fmt.Sprintf("%d*%s", t.k, n))
		}
	}
	if a.c != 0 || len(p) == 0 {
		p = append(p, strconv.FormatInt(a.c, 10))
	}
	return strings.Join(p, "+")
}

const INF = int64(1) << 60

// symHash is a pseudo-random weight; the hash of a term is linear, so the
// hash of a difference is the difference of the hashes.
func symHash(s Sym) uint64 {
	x := uint64(s)*0x9E3779B97F4A7C15 + 0x1234567
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	return x ^ x>>31
}

func (a Lin) hash() uint64 {
	var h uint64
	for _, t := range a.t {
		h += uint64(t.k) * symHash(t.s)
	}
	return h
}

type Zone struct {
	nodes []Lin
	h     []uint64
	idx   map[uint64]int
	tOwn  bool      // nodes, h, idx are not shared
	d     [][]int64 // d[i][j]: node_i - node_j <= d
	neq   []Lin     // each != 0
	bad   bool
	own   bool
}

func newZone() *Zone {
	return &Zone{idx: map[uint64]int{0: 0}, h: []uint64{0}, nodes: []Lin{{}}, d: [][]int64{{0}}, own: true, tOwn: true}
}

func (z *Zone) clone() *Zone {
	z.tOwn = false
	n := &Zone{nodes: z.nodes, h: z.h, idx: z.idx, bad: z.bad, own: true}
	m := len(z.nodes)
	back := make([]int64, m*m)
	n.d = make([][]int64, m, m+8)
	for i := range z.d {
		n.d[i] = back[i*m : (i+1)*m : (i+1)*m]
		copy(n.d[i], z.d[i])
	}
	n.neq = append([]Lin(nil), z.neq...)
	return n
}

func (z *Zone) find(l Lin) (int, bool) {
	i, ok := z.idx[l.hash()]
	return i, ok && z.nodes[i].sameTerms(l)
}

func (z *Zone) addNode(l Lin) int {
	if !z.tOwn {
		m := make(map[uint64]int, len(z.idx)+4)
		for k, v := range z.idx {
			m[k] = v
		}
		z.idx = m
		z.nodes = append([]Lin(nil), z.nodes...)
		z.h = append([]uint64(nil), z.h...)
		z.tOwn = true
	}
	n := len(z.nodes)
	h := l.hash()
	z.nodes = append(z.nodes, l.noConst())
	z.h = append(z.h, h)
	z.idx[h] = n
	return n
}

// interval fallback for one term
func (z *Zone) ubTerm(t term) int64 {
	i, ok := z.idx[symHash(t.s)]
	if !ok {
		return INF
	}
	var b int64
	if t.k > 0 {
		b = z.d[i][0]
	} else {
		b = z.d[0][i]
	}
	if b >= INF {
		return INF
	}
	k := t.k
	if k < 0 {
		k = -k
	}
	return k * b
}

// fold replaces the symbols of l that have one possible value.
func (z *Zone) fold(l Lin) Lin {
	changed := false
	for _, t := range l.t {
		if i, ok := z.idx[symHash(t.s)]; ok && i != 0 && z.d[i][0] < INF && z.d[0][i] == -z.d[i][0] {
			changed = true
		}
	}
	if !changed {
		return l
	}
	r := linConst(l.c)
	for _, t := range l.t {
		if i, ok := z.idx[symHash(t.s)]; ok && i != 0 && z.d[i][0] < INF && z.d[0][i] == -z.d[i][0] {
			r.c += t.k * z.d[i][0]
		} else {
			r.t = append(r.t, t)
		}
	}
	return r
}

// ub returns an upper bound of l.
func (z *Zone) ub(l Lin) int64 {
	best := z.ub1(l)
	if f := z.fold(l); len(f.t) < len(l.t) {
		if b := z.ub1(f); b < best {
			best = b
		}
	}
	if !l.isDiff() {
		if f := z.eqFold(l); !f.equal(l) {
			if b := z.ub1(f); b < best {
				best = b
			}
		}
	}
	return best
}

// eqFold replaces the symbols of l by the first symbol they are known equal to
// (up to a constant).
func (z *Zone) eqFold(l Lin) Lin {
	r := linConst(l.c)
	for _, t := range l.t {
		x := Lin{t: []term{t}}
		if i, ok := z.idx[symHash(t.s)]; ok {
			for j := 0; j < i; j++ {
				n := z.nodes[j]
				if z.d[i][j] < INF && z.d[j][i] == -z.d[i][j] && (j == 0 || len(n.t) == 1 && n.t[0].k == 1) {
					x = n.addc(z.d[i][j]).scale(t.k)
					break
				}
			}
		}
		r = r.add(x)
	}
	return r
}

func (z *Zone) ub1(l Lin) int64 {
	if len(l.t) == 0 {
		return l.c
	}
	best := INF
	p := l.noConst()
	ph := p.hash()
	for u, hu := range z.h {
		v, ok := z.idx[hu-ph]
		if !ok {
			continue
		}
		if z.d[u][v] < best {
			best = z.d[u][v]
		}
	}
	var s int64
	for _, t := range l.t {
		b := z.ubTerm(t)
		if b >= INF {
			s = INF
			break
		}
		s += b
	}
	if s < best {
		best = s
	}
	// one split: l = t + rest
	if len(p.t) >= 2 {
		for _, t := range p.t {
			bt := z.ubTerm(t)
			if bt >= INF {
				continue
			}
			rh := ph - uint64(t.k)*symHash(t.s)
			for u, hu := range z.h {
				if v, ok := z.idx[hu-rh]; ok && z.d[u][v] < INF && z.d[u][v]+bt < best {
					best = z.d[u][v] + bt
				}
			}
		}
	}
	if best >= INF {
		return INF
	}
	return best + l.c
}
func (z *Zone) lb(l Lin) int64 {
	u := z.ub(l.neg())
	if u >= INF {
		return -INF
	}
	return -u
}

func (z *Zone) node(l Lin) int {
	if i, ok := z.find(l); ok {
		return i
	}
	l = l.noConst()
	n := len(z.nodes)
	row := make([]int64, n+1)
	col := make([]int64, n)
	for i, o := range z.nodes {
		row[i] = z.ub(l.sub(o))
		col[i] = z.ub(o.sub(l))
	}
	row[n] = 0
	for i := range z.d {
		z.d[i] = append(z.d[i], col[i])
	}
	z.d = append(z.d, row)
	z.addNode(l)
	// close through existing nodes, then through n
	for y := 0; y < n; y++ {
		if row[y] < INF {
			for x := 0; x <= n; x++ {
				if z.d[y][x] < INF && row[y]+z.d[y][x] < z.d[n][x] {
					z.d[n][x] = row[y] + z.d[y][x]
				}
			}
		}
		if z.d[y][n] < INF {
			for x := 0; x <= n; x++ {
				if z.d[x][y] < INF && z.d[x][y]+z.d[y][n] < z.d[x][n] {
					z.d[x][n] = z.d[x][y] + z.d[y][n]
				}
			}
		}
	}
	for i := 0; i <= n; i++ {
		if z.d[i][n] >= INF {
			continue
		}
		for j := 0; j <= n; j++ {
			if z.d[n][j] < INF && z.d[i][n]+z.d[n][j] < z.d[i][j] {
				z.d[i][j] = z.d[i][n] + z.d[n][j]
			}
		}
	}
	return n
}

func (z *Zone) edge(x, y int, c int64) {
	if z.bad || z.d[x][y] <= c {
		return
	}
	if z.d[y][x] < INF && z.d[y][x]+c < 0 {
		z.bad = true
		return
	}
	n := len(z.nodes)
	for i := 0; i < n; i++ {
		if z.d[i][x] >= INF {
			continue
		}
		for j := 0; j < n; j++ {
			if z.d[y][j] >= INF {
				continue
			}
			if v := z.d[i][x] + c + z.d[y][j]; v < z.d[i][j] {
				z.d[i][j] = v
			}
		}
	}
	for i := 0; i < n; i++ {
		if z.d[i][i] < 0 {
			z.bad = true
		}
	}
}

// addLE asserts l <= 0.
func (z *Zone) addLE(l Lin) {
	z.addLE1(l)
	if !l.isDiff() && !z.bad {
		if f := z.eqFold(l); !f.equal(l) {
			z.addLE1(f)
		}
	}
}

func (z *Zone) addLE1(l Lin) {
	if z.bad {
		return
	}
	if len(l.t) == 0 {
		if l.c > 0 {
			z.bad = true
		}
		return
	}
	var pos, neg Lin
	for _, t := range l.t {
		if t.k > 0 {
			pos.t = append(pos.t, t)
		} else {
			neg.t = append(neg.t, term{t.s, -t.k})
		}
	}
	z.node(pos)
	z.node(neg)
	ph := l.hash()
	for u := 0; u < len(z.nodes); u++ {
		if v, ok := z.idx[z.h[u]-ph]; ok {
			z.edge(u, v, -l.c)
			if z.bad {
				return
			}
		}
	}
	z.recheckNeq()
}

func (z *Zone) recheckNeq() {
	for again := true; again && !z.bad; {
		again = false
		keep := z.neq[:0:0]
		for _, l := range z.neq {
			u, lo := z.ub(l), z.lb(l)
			switch {
			case u == 0 && lo == 0:
				z.bad = true
				return
			case u < 0 || lo > 0: // already known
			case u == 0:
				again = true
				z.neqEdge(l.addc(1))
			case lo == 0:
				again = true
				z.neqEdge(l.neg().addc(1))
			default:
				keep = append(keep, l)
			}
		}
		z.neq = keep
	}
}
func (z *Zone) neqEdge(l Lin) { // l <= 0 without neq recursion
	ph := l.hash()
	for u := 0; u < len(z.nodes); u++ {
		if v, ok := z.idx[z.h[u]-ph]; ok {
			z.edge(u, v, -l.c)
		}
	}
}

func (z *Zone) addEQ(l Lin) { z.addLE(l); z.addLE(l.neg()) }
func (z *Zone) addNE(l Lin) {
	if z.bad {
		return
	}
	if len(l.t) == 0 {
		if l.c == 0 {
			z.bad = true
		}
		return
	}
	// make sure some decomposition exists
	var pos, neg Lin
	for _, t := range l.t {
		if t.k > 0 {
			pos.t = append(pos.t, t)
		} else {
			neg.t = append(neg.t, term{t.s, -t.k})
		}
	}
	z.node(pos)
	z.node(neg)
	z.neq = append(z.neq, l)
	z.recheckNeq()
}
func (z *Zone) isZero(l Lin) bool { return z.ub(l) == 0 && z.lb(l) == 0 }
func (z *Zone) isNE(l Lin) bool {
	if z.ub(l) < 0 || z.lb(l) > 0 {
		return true
	}
	n := l.neg()
	for _, q := range z.neq {
		if q.equal(l) || q.equal(n) || z.isZero(l.sub(q)) || z.isZero(l.add(q)) {
			return true
		}
	}
	return false
}

// join (or widen) of a and b over the union of templates known in either.
func zoneJoin(a, b *Zone, widen bool) (*Zone, bool) {
	// make both know the same nodes
	a2, b2 := a.clone(), b.clone()
	for _, l := range b.nodes {
		a2.node(l)
	}
	for _, l := range a.nodes {
		b2.node(l)
	}
	r := newZone()
	changed := false
	for _, l := range a2.nodes[1:] {
		r.addNode(l)
	}
	m := len(r.nodes)
	r.d = make([][]int64, m)
	perm := make([]int, m)
	for i := range r.nodes {
		perm[i] = b2.idx[r.h[i]]
	}
	for i := 0; i < m; i++ {
		r.d[i] = make([]int64, m)
		for j := 0; j < m; j++ {
			va, vb := a2.d[i][j], b2.d[perm[i]][perm[j]]
			if vb > va {
				changed = true
				if widen {
					// thresholds
					nv := INF
					for _, th := range []int64{-1, 0, 1} {
						if vb <= th {
							nv = th
							break
						}
					}
					r.d[i][j] = nv
				} else {
					r.d[i][j] = vb
				}
			} else {
				r.d[i][j] = va
			}
		}
	}
	have := map[string]bool{}
	keep := func(q Lin) {
		k := q.key()
		if !have[k] && !have[q.neg().key()] {
			have[k] = true
			r.neq = append(r.neq, q)
		}
	}
	for _, q := range a2.neq {
		if b2.isNE(q) {
			keep(q)
		} else {
			changed = true
		}
	}
	for _, q := range b2.neq {
		if a2.isNE(q) {
			keep(q)
		}
	}
	// opposite strict orders leave a disequality
	for i := 0; i < m; i++ {
		for j := 0; j < m; j++ {
			if i != j && a2.d[i][j] < 0 && b2.d[perm[j]][perm[i]] < 0 {
				keep(a2.nodes[i].sub(a2.nodes[j]))
			}
		}
	}
	return r, changed
}

func (z *Zone) dump(e *Engine) string {
	var out []string
	for i := range z.nodes {
		for j := range z.nodes {
			if i != j && z.d[i][j] < INF {
				a, b := e.linStr(z.nodes[i]), e.linStr(z.nodes[j])
				out = append(out, fmt.Sprintf("%s-%s<=%d", a, b, z.d[i][j]))
			}
		}
	}
	for _, q := range z.neq {
		out = append(out, e.linStr(q)+"!=0")
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// infeasible: what is known contradicts itself once differences of sums are
// compared with differences of their parts.
func (z *Zone) infeasible() bool {
	if z.bad {
		return true
	}
	c := z.clone()
	for round := 0; round < 3; round++ {
		changed := false
		for u := range c.nodes {
			for v := range c.nodes {
				if u == v {
					continue
				}
				if b := c.ub(c.nodes[u].sub(c.nodes[v])); b < c.d[u][v] {
					c.edge(u, v, b)
					changed = true
					if c.bad {
						return true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	for u := range c.nodes {
		for v := 0; v < u; v++ {
			if c.d[u][v] < INF && c.d[v][u] < INF && c.d[u][v]+c.d[v][u] < 0 {
				return true
			}
		}
	}
	return false
}
