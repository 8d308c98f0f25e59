package main

// Hash-consed SMT terms over booleans (w==0) and bit-vectors (w==1..64).
// A term that depends on a single small-domain variable is normalised to a
// table term (value of the term for every value of the variable).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OTab // k indexes nothing; tab holds the table, a is the variable
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUlt
	OSlt
	OZext
	OSext
	OExtract // low bits: k = offset
)

type Term struct {
	op   Op
	w    uint8
	a    *Term
	b    *Term
	c    *Term
	k    uint64
	tab  []uint64
	id   uint32
	v    *Term // the single small-domain variable this term depends on, if any
	dom  int   // for OVar: size of small domain (0: not small)
	name string
	z3   uintptr

	bits bitset // values of v for which a boolean term holds, built on demand

	rs       uint8 // 1: rlo..rhi is a range of the value, 2: no range known
	rlo, rhi uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

type Terms struct {
	m      map[tkey]*Term
	tabs   map[string]*Term
	apps   map[tkey]*Term
	next   uint32
	tt, ff *Term
}

func newTerms() *Terms {
	t := &Terms{m: map[tkey]*Term{}, tabs: map[string]*Term{}, apps: map[tkey]*Term{}, next: 1}
	t.ff = t.mk(OConst, 0, nil, nil, nil, 0)
	t.tt = t.mk(OConst, 0, nil, nil, nil, 1)
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := ts.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: ts.next}
	ts.next++
	ts.m[key] = t
	return t
}

func mask(w uint8, v uint64) uint64 {
	if w == 0 {
		return v & 1
	}
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}

func sext(w uint8, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (ts *Terms) con(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 != 0 {
			return ts.tt
		}
		return ts.ff
	}
	return ts.mk(OConst, w, nil, nil, nil, mask(w, v))
}

func (ts *Terms) boolc(b bool) *Term {
	if b {
		return ts.tt
	}
	return ts.ff
}

// newVar returns variable number n of width w; dom>0: values are 0..dom-1.
func (ts *Terms) newVar(n int, w uint8, dom int) *Term {
	t := ts.mk(OVar, w, nil, nil, nil, uint64(n)<<16|uint64(dom))
	t.dom = dom
	t.name = fmt.Sprintf("v%d_%d_%d", n, w, dom)
	if dom > 0 {
		t.v = t
	}
	return t
}

func (t *Term) varNum() int { return int(t.k >> 16) }

func (ts *Terms) table(v *Term, w uint8, tab []uint64) *Term {
	same := true
	ident := w == v.w
	for i, x := range tab {
		if x != tab[0] {
			same = false
		}
		if x != uint64(i) {
			ident = false
		}
	}
	if same {
		return ts.con(w, tab[0])
	}
	if ident {
		return v
	}
	var sb strings.Builder
	sb.Grow(len(tab)*2 + 8)
	fmt.Fprintf(&sb, "%d/%d:", v.id, w)
	for _, x := range tab {
		// varint
		for x >= 0x80 {
			sb.WriteByte(byte(x) | 0x80)
			x >>= 7
		}
		sb.WriteByte(byte(x))
	}
	key := sb.String()
	if t, ok := ts.tabs[key]; ok {
		return t
	}
	cp := make([]uint64, len(tab))
	copy(cp, tab)
	t := &Term{op: OTab, w: w, a: v, tab: cp, id: ts.next, v: v}
	ts.next++
	ts.tabs[key] = t
	return t
}

// set is the values of v for which the boolean term holds.
func (t *Term) set() bitset {
	if t.bits == nil {
		b := make(bitset, (t.v.dom+63)/64)
		for i := 0; i < t.v.dom; i++ {
			if t.at(i) != 0 {
				b[i/64] |= 1 << (i % 64)
			}
		}
		t.bits = b
	}
	return t.bits
}

// at returns the value of a term depending only on v when v has value i.
func (t *Term) at(i int) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return uint64(i)
	case OTab:
		return t.tab[i]
	}
	panic("Term.at")
}

func evalOp(op Op, w uint8, aw uint8, x, y, z uint64, k uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2u(x == y)
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OAdd:
		return mask(w, x+y)
	case OSub:
		return mask(w, x-y)
	case OMul:
		return mask(w, x*y)
	case OUDiv:
		if y == 0 {
			return mask(w, ^uint64(0))
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext(w, x), sext(w, y)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(w, ^uint64(0))
		}
		if b == -1 {
			return mask(w, uint64(-a))
		}
		return mask(w, uint64(a/b))
	case OSRem:
		a, b := sext(w, x), sext(w, y)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return mask(w, uint64(a%b))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return mask(w, x<<y)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sext(w, x)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return mask(w, uint64(s>>y))
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sext(aw, x) < sext(aw, y))
	case OZext:
		return x
	case OSext:
		return mask(w, uint64(sext(aw, x)))
	case OExtract:
		return mask(w, x>>k)
	}
	panic("evalOp")
}

// app builds an operator application with simplification.
func (ts *Terms) app(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	// constant folding and single-variable tabulation
	allc := a.op == OConst && (b == nil || b.op == OConst) && (c == nil || c.op == OConst)
	if allc {
		var y, z uint64
		if b != nil {
			y = b.k
		}
		if c != nil {
			z = c.k
		}
		return ts.con(w, evalOp(op, w, a.w, a.k, y, z, k))
	}
	key := tkey{op, w, a.id, tid(b), tid(c), k}
	if t, ok := ts.apps[key]; ok {
		return t
	}
	t := ts.app1(op, w, a, b, c, k)
	ts.apps[key] = t
	return t
}

func (ts *Terms) app1(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	// algebraic shortcuts
	switch op {
	case ONot:
		if a.op == ONot {
			return a.a
		}
	case OAnd:
		if a == ts.ff || b == ts.ff {
			return ts.ff
		}
		if a == ts.tt {
			return b
		}
		if b == ts.tt || a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OOr:
		if a == ts.tt || b == ts.tt {
			return ts.tt
		}
		if a == ts.ff {
			return b
		}
		if b == ts.ff || a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OEq:
		if a == b {
			return ts.tt
		}
		if a.id > b.id {
			a, b = b, a
		}
		if a.w == 0 {
			if a == ts.tt {
				return b
			}
			if b == ts.tt {
				return a
			}
			if a == ts.ff {
				return ts.not(b)
			}
			if b == ts.ff {
				return ts.not(a)
			}
		}
	case OIte:
		if a == ts.tt {
			return b
		}
		if a == ts.ff {
			return c
		}
		if b == c {
			return b
		}
		if w == 0 {
			if b == ts.tt && c == ts.ff {
				return a
			}
			if b == ts.ff && c == ts.tt {
				return ts.not(a)
			}
			if b == ts.tt {
				return ts.app(OOr, 0, a, c, nil, 0)
			}
			if b == ts.ff {
				return ts.app(OAnd, 0, ts.not(a), c, nil, 0)
			}
			if c == ts.ff {
				return ts.app(OAnd, 0, a, b, nil, 0)
			}
			if c == ts.tt {
				return ts.app(OOr, 0, ts.not(a), b, nil, 0)
			}
		}
	case OAdd:
		if a.op == OConst && a.k == 0 {
			return b
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OSub:
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			return ts.con(w, 0)
		}
	case OUlt, OSlt:
		if a == b {
			return ts.ff
		}
	case OZext, OSext:
		if a.w == w {
			return a
		}
	case OExtract:
		if k == 0 && a.w == w {
			return a
		}
		if (a.op == OZext || a.op == OSext) && k == 0 {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return ts.app(OExtract, w, a.a, nil, nil, 0)
			}
			if a.op == OZext {
				return ts.app(OZext, w, a.a, nil, nil, 0)
			}
			return ts.app(OSext, w, a.a, nil, nil, 0)
		}
	case OMul:
		if a.op == OConst && a.k == 1 {
			return b
		}
		if b.op == OConst && b.k == 1 {
			return a
		}
	case OBOr, OBXor:
		if a.op == OConst && a.k == 0 {
			return b
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	}
	switch op {
	case OUlt:
		if la, ha, ok := a.rng(); ok {
			if lb, hb, ok := b.rng(); ok {
				if ha < lb {
					return ts.tt
				}
				if la >= hb {
					return ts.ff
				}
			}
		}
		if a.geq(b, 40) {
			return ts.ff
		}
		if a.op == OConst && b.v == nil && a.k != mask(a.w, ^uint64(0)) {
			return ts.not(ts.app(OUlt, 0, b, ts.con(a.w, a.k+1), nil, 0))
		}
	case OSlt:
		if la, ha, ok := a.rng(); ok && ha>>(a.w-1) == 0 {
			if lb, hb, ok := b.rng(); ok && hb>>(a.w-1) == 0 {
				if ha < lb {
					return ts.tt
				}
				if la >= hb {
					return ts.ff
				}
			}
		}
	case OEq:
		if a.w > 0 {
			if la, ha, ok := a.rng(); ok {
				if lb, hb, ok := b.rng(); ok && (ha < lb || hb < la) {
					return ts.ff
				}
			}
		}
	}
	// tabulate
	var v *Term
	ok := true
	for _, x := range [3]*Term{a, b, c} {
		if x == nil || x.op == OConst {
			continue
		}
		if x.v == nil || (v != nil && x.v != v) {
			ok = false
			break
		}
		v = x.v
	}
	if ok && v != nil {
		tab := make([]uint64, v.dom)
		for i := range tab {
			var y, z uint64
			if b != nil {
				y = b.at(i)
			}
			if c != nil {
				z = c.at(i)
			}
			tab[i] = evalOp(op, w, a.w, a.at(i), y, z, k)
		}
		return ts.table(v, w, tab)
	}
	return ts.mk(op, w, a, b, c, k)
}

// rng is an unsigned range of the term's value for all assignments.
func (t *Term) rng() (lo, hi uint64, ok bool) {
	if t.w == 0 {
		return 0, 0, false
	}
	switch t.rs {
	case 1:
		return t.rlo, t.rhi, true
	case 2:
		return 0, 0, false
	}
	lo, hi, ok = t.rng1()
	if !ok {
		t.rs = 2
		return
	}
	t.rs, t.rlo, t.rhi = 1, lo, hi
	return
}

func (t *Term) rng1() (lo, hi uint64, ok bool) {
	switch t.op {
	case OConst:
		return t.k, t.k, true
	case OVar:
		if t.dom > 0 {
			return 0, uint64(t.dom - 1), true
		}
	case OTab:
		lo, hi = t.tab[0], t.tab[0]
		for _, x := range t.tab {
			if x < lo {
				lo = x
			}
			if x > hi {
				hi = x
			}
		}
		return lo, hi, true
	case OZext:
		return t.a.rng()
	case OAdd:
		la, ha, ok1 := t.a.rng()
		lb, hb, ok2 := t.b.rng()
		if ok1 && ok2 && ha+hb >= ha && mask(t.w, ha+hb) == ha+hb {
			return la + lb, ha + hb, true
		}
	case OMul:
		la, ha, ok1 := t.a.rng()
		lb, hb, ok2 := t.b.rng()
		if ok1 && ok2 {
			h, l := bits.Mul64(ha, hb)
			if h == 0 && mask(t.w, l) == l {
				return la * lb, l, true
			}
		}
	}
	return 0, 0, false
}

// arith: a comparison of products and sums of several variables.
func (t *Term) arith() bool {
	switch t.op {
	case ONot:
		return t.a.arith()
	case OUlt, OSlt:
		return t.a.op == OAdd || t.a.op == OMul || t.b.op == OAdd || t.b.op == OMul
	}
	return false
}

// geq: t >= b for all assignments, by its structure.
func (t *Term) geq(b *Term, depth int) bool {
	if t == b {
		return true
	}
	if depth == 0 || t.w != b.w {
		return false
	}
	if _, _, ok := t.rng(); !ok {
		return false
	}
	switch t.op {
	case OAdd: // does not overflow, it has a range
		return t.a.geq(b, depth-1) || t.b.geq(b, depth-1)
	case OMul:
		if la, _, ok := t.b.rng(); ok && la >= 1 && t.a.geq(b, depth-1) {
			return true
		}
		if la, _, ok := t.a.rng(); ok && la >= 1 && t.b.geq(b, depth-1) {
			return true
		}
	}
	return false
}

func (ts *Terms) not(a *Term) *Term { return ts.app(ONot, 0, a, nil, nil, 0) }
func (ts *Terms) and(a, b *Term) *Term {
	return ts.app(OAnd, 0, a, b, nil, 0)
}
func (ts *Terms) or(a, b *Term) *Term     { return ts.app(OOr, 0, a, b, nil, 0) }
func (ts *Terms) eq(a, b *Term) *Term     { return ts.app(OEq, 0, a, b, nil, 0) }
func (ts *Terms) ite(c, a, b *Term) *Term { return ts.app(OIte, a.w, c, a, b, 0) }
func (ts *Terms) bin(op Op, a, b *Term) *Term {
	w := a.w
	if op == OUlt || op == OSlt || op == OEq {
		w = 0
	}
	return ts.app(op, w, a, b, nil, 0)
}
func (ts *Terms) zext(a *Term, w uint8) *Term { return ts.app(OZext, w, a, nil, nil, 0) }
func (ts *Terms) sext(a *Term, w uint8) *Term { return ts.app(OSext, w, a, nil, nil, 0) }
func (ts *Terms) extract(a *Term, w uint8) *Term {
	return ts.app(OExtract, w, a, nil, nil, 0)
}

// eval evaluates under an assignment of variable numbers.
func (t *Term) eval(env func(v *Term) uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return env(t)
	case OTab:
		x := env(t.a)
		if int(x) < len(t.tab) {
			return t.tab[x]
		}
		return 0
	}
	if v, ok := memo[t]; ok {
		return v
	}
	x := t.a.eval(env, memo)
	var y, z uint64
	if t.b != nil {
		y = t.b.eval(env, memo)
	}
	if t.c != nil {
		z = t.c.eval(env, memo)
	}
	r := evalOp(t.op, t.w, t.a.w, x, y, z, t.k)
	memo[t] = r
	return r
}

// bitset over a small domain
type bitset []uint64

func fullSet(n int) bitset {
	b := make(bitset, (n+63)/64)
	for i := 0; i < n; i++ {
		b[i/64] |= 1 << (i % 64)
	}
	return b
}
func (b bitset) has(i int) bool { return b[i/64]>>(i%64)&1 != 0 }
func (b bitset) clear(i int)    { b[i/64] &^= 1 << (i % 64) }
func (b bitset) count() int {
	n := 0
	for _, x := range b {
		n += bits.OnesCount64(x)
	}
	return n
}
func (b bitset) first() int {
	for i, x := range b {
		if x != 0 {
			return i*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	case OTab:
		var sb strings.Builder
		fmt.Fprintf(&sb, "tab(%s:", t.a.name)
		for i, x := range t.tab {
			if i > 12 {
				sb.WriteString("..")
				break
			}
			fmt.Fprintf(&sb, " %d", x)
		}
		sb.WriteString(")")
		return sb.String()
	}
	s := fmt.Sprintf("(%d %s", t.op, t.a)
	if t.b != nil {
		s += " " + t.b.String()
	}
	if t.c != nil {
		s += " " + t.c.String()
	}
	return s + ")"
}
