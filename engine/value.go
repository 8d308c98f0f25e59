package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a guest value. Scalars live in n (sign- or zero-extended to 64 bits by
// their static type); everything else, and symbolic scalars (*Term), in o.
type V struct {
	n uint64
	o any
}

type Agg struct{ e []V } // struct or array
type Slice struct{ s []V }
type SymStr struct{ b []V } // string with at least one symbolic byte

// Rope is a string made of pieces of which several are unions.
type Rope struct{ p []V }
type Iface struct {
	t *RType
	v V
}
type FuncV struct {
	fn   *Func
	free []V
}
type Tup struct{ e []V }

// Union is one of several values, guarded by mutually exclusive, jointly
// exhaustive conditions (under the path condition).
type Union struct {
	g   []*Term
	v   []V
	res int // 1 + resolved alternative
	fa  []V // field addresses of the alternatives
}

type MapEnt struct {
	k, v V
	del  bool
}
type MapV struct {
	idx  map[any]int
	ent  []MapEnt
	n    int
	sym  int // number of entries with symbolic keys (not in idx)
	elem types.Type
	key  types.Type
}

type RType struct {
	t    types.Type
	id   int
	meth map[string]*Func
	w    *W
	u    types.Type // underlying
}

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func intV(i int) V { return V{n: uint64(int64(i))} }
func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: s}
}

// scalarInfo: width in bits (bool: 0), signedness; ok only for scalar kinds
func scalarInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func norm(w uint8, signed bool, x uint64) uint64 {
	if w == 0 {
		return x & 1
	}
	if signed {
		return uint64(sext(w, x))
	}
	return mask(w, x)
}

func zeroV(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isOpaque(t) {
			return V{}
		}
		a := &Agg{e: make([]V, u.NumFields())}
		for i := range a.e {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				a.e[i] = zeroV(ft)
			}
		}
		return V{o: a}
	case *types.Array:
		a := &Agg{e: make([]V, u.Len())}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.e {
				a.e[i] = zeroV(u.Elem())
			}
		}
		return V{o: a}
	case *types.Tuple:
		a := &Tup{e: make([]V, u.Len())}
		for i := range a.e {
			a.e[i] = zeroV(u.At(i).Type())
		}
		return V{o: a}
	}
	return V{}
}

// isOpaque: struct types the engine represents natively.
func isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		return o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value"
	}
	if a, ok := t.(*types.Alias); ok {
		return isOpaque(types.Unalias(a))
	}
	return false
}

func copyV(v V) V {
	if a, ok := v.o.(*Agg); ok {
		n := &Agg{e: make([]V, len(a.e))}
		for i := range a.e {
			x := a.e[i]
			if _, ok := x.o.(*Agg); ok {
				x = copyV(x)
			}
			n.e[i] = x
		}
		return V{o: n}
	}
	return v
}

type trailEnt struct {
	p   *V
	old V
	m   *MapV
	f   func()
}

// store writes val to *p, keeping the identity of aggregate memory.
func (w *W) store(p *V, val V) {
	if a, ok := val.o.(*Agg); ok {
		if d, ok := p.o.(*Agg); ok && len(d.e) == len(a.e) {
			for i := range a.e {
				w.store(&d.e[i], a.e[i])
			}
			return
		}
		val = copyV(val)
	}
	if w.freeze {
		if _, ok := w.base[p]; ok {
			w.sharedWrite()
		}
	}
	if w.initDepth == 0 {
		w.trail = append(w.trail, trailEnt{p: p, old: *p})
	}
	*p = val
}

// ---- accessors that resolve unions ----

func (w *W) resolve(v V) V {
	u, ok := v.o.(*Union)
	if !ok {
		return v
	}
	return u.v[w.resolveIdx(u)]
}

func (w *W) resolveIdx(u *Union) int {
	if u.res > 0 {
		return u.res - 1
	}
	for i := 0; i < len(u.g); i++ {
		last := true
		for j := i + 1; j < len(u.g); j++ {
			if w.maybe(u.g[j]) {
				last = false
				break
			}
		}
		if !w.maybe(u.g[i]) {
			continue
		}
		if last || w.decide(u.g[i]) {
			w.setres(u, i+1)
			return i
		}
	}
	w.unsupported("union without feasible alternative")
	return 0
}

func (w *W) setres(u *Union, r int) {
	old := u.res
	u.res = r
	w.trail = append(w.trail, trailEnt{f: func() { u.res = old }})
}

// mkUnion merges guarded alternatives of static type t into one value.
func (w *W) merge(t types.Type, g []*Term, vs []V) V {
	// drop impossible alternatives
	k := 0
	for i := range g {
		if w.maybe(g[i]) {
			if k != i {
				g[k], vs[k] = g[i], vs[i]
			}
			k++
		}
	}
	if k == 0 {
		w.unsupported("merge of nothing")
	}
	g, vs = g[:k], vs[:k]
	if k == 1 {
		return vs[0]
	}
	same := true
	for i := 1; i < k; i++ {
		if !sameV(vs[0], vs[i]) {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	if t != nil {
		if sw, _, ok := scalarInfo(t); ok {
			return w.mergeScalar(t, sw, g, vs)
		}
		if isFloat(t) {
			u := &Union{g: g, v: vs}
			return w.resolve(V{o: u})
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if !isOpaque(t) {
				out := &Agg{e: make([]V, u.NumFields())}
				for f := range out.e {
					fg := append([]*Term(nil), g...)
					fv := make([]V, k)
					for i := range vs {
						fv[i] = vs[i].o.(*Agg).e[f]
					}
					out.e[f] = w.merge(u.Field(f).Type(), fg, fv)
				}
				return V{o: out}
			}
		case *types.Array:
			out := &Agg{e: make([]V, u.Len())}
			for f := range out.e {
				fg := append([]*Term(nil), g...)
				fv := make([]V, k)
				for i := range vs {
					fv[i] = vs[i].o.(*Agg).e[f]
				}
				out.e[f] = w.merge(u.Elem(), fg, fv)
			}
			return V{o: out}
		}
	}
	// flatten and group
	var ng []*Term
	var nv []V
	type mkey struct {
		t *RType
		v V
	}
	var at map[mkey]int
	plain := func(v V) bool {
		switch v.o.(type) {
		case nil, string, *V:
			return true
		}
		return false
	}
	add := func(c *Term, v V) {
		var k mkey
		ok := false
		if plain(v) {
			k, ok = mkey{v: v}, true
		} else if x, is := v.o.(*Iface); is && plain(x.v) {
			k, ok = mkey{x.t, x.v}, true
		}
		if ok && len(g) > 4 {
			if at == nil {
				at = make(map[mkey]int, len(g))
				ng = make([]*Term, 0, len(g))
				nv = make([]V, 0, len(g))
			}
			if i, ok := at[k]; ok {
				ng[i] = w.ts.or(ng[i], c)
				return
			}
			at[k] = len(nv)
			ng = append(ng, c)
			nv = append(nv, v)
			return
		}
		for i := range nv {
			if sameV(nv[i], v) {
				ng[i] = w.ts.or(ng[i], c)
				return
			}
		}
		ng = append(ng, c)
		nv = append(nv, v)
	}
	for i := range g {
		if u, ok := vs[i].o.(*Union); ok {
			for j := range u.g {
				c := w.ts.and(g[i], u.g[j])
				if w.maybe(c) {
					add(c, u.v[j])
				}
			}
		} else {
			add(g[i], vs[i])
		}
	}
	if len(nv) == 1 {
		return nv[0]
	}
	return V{o: &Union{g: ng, v: nv}}
}

func (w *W) mergeScalar(t types.Type, sw uint8, g []*Term, vs []V) V {
	v0 := g[0].v
	tabok := v0 != nil
	for i := range g {
		if g[i].v != v0 || vs[i].o != nil {
			tabok = false
			break
		}
	}
	if tabok {
		tab := make([]uint64, v0.dom)
		for i := range g {
			x := mask(sw, vs[i].n)
			for j, b := range g[i].set() {
				for ; b != 0; b &= b - 1 {
					tab[j*64+bits.TrailingZeros64(b)] = x
				}
			}
		}
		return w.termV(w.ts.table(v0, sw, tab), t)
	}
	r := w.term(vs[len(vs)-1], sw)
	for i := len(vs) - 2; i >= 0; i-- {
		r = w.ts.ite(g[i], w.term(vs[i], sw), r)
	}
	return w.termV(r, t)
}

// term gives the SMT term of a scalar.
func (w *W) term(v V, width uint8) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return w.ts.con(width, v.n)
}

// termV makes a guest scalar of type t from a term.
func (w *W) termV(x *Term, t types.Type) V {
	if x.op == OConst {
		sw, sg, _ := scalarInfo(t)
		return V{n: norm(sw, sg, x.k)}
	}
	return V{o: x}
}

func (w *W) boolT(x *Term) V {
	if x.op == OConst {
		return V{n: x.k}
	}
	return V{o: x}
}

func sameV(a, b V) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.o.(type) {
	case nil:
		return b.o == nil
	case string:
		y, ok := b.o.(string)
		return ok && x == y
	case *Iface:
		y, ok := b.o.(*Iface)
		return ok && (x == y || (x.t == y.t && sameV(x.v, y.v)))
	case *Slice:
		y, ok := b.o.(*Slice)
		return ok && (x == y || (len(x.s) == len(y.s) && cap(x.s) == cap(y.s) && len(x.s) > 0 && &x.s[0] == &y.s[0]))
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameV(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *Tup:
		y, ok := b.o.(*Tup)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameV(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *V:
		y, ok := b.o.(*V)
		return ok && x == y
	case *Term:
		y, ok := b.o.(*Term)
		return ok && x == y
	case *FuncV:
		y, ok := b.o.(*FuncV)
		return ok && x == y
	case *MapV:
		y, ok := b.o.(*MapV)
		return ok && x == y
	case *RType:
		y, ok := b.o.(*RType)
		return ok && x == y
	case *RV:
		y, ok := b.o.(*RV)
		return ok && x == y
	}
	return false
}

// lift applies f to v, or to every alternative of a union, and merges.
func (w *W) lift(v V, t types.Type, f func(V) V) V {
	u, ok := v.o.(*Union)
	if !ok {
		return f(v)
	}
	if u.res > 0 {
		return f(u.v[u.res-1])
	}
	g := make([]*Term, 0, len(u.g))
	vs := make([]V, 0, len(u.g))
	for i := range u.g {
		if w.maybe(u.g[i]) {
			g = append(g, u.g[i])
			vs = append(vs, f(u.v[i]))
		}
	}
	return w.merge(t, g, vs)
}

func (w *W) ptr(v V) *V {
	switch x := v.o.(type) {
	case *V:
		return x
	case nil:
		w.rtpanic("invalid memory address or nil pointer dereference")
	case *Union:
		return w.ptr(w.resolve(v))
	}
	w.unsupported(fmt.Sprintf("pointer of %T", v.o))
	return nil
}

func (w *W) slice(v V) []V {
	switch x := v.o.(type) {
	case *Slice:
		return x.s
	case nil:
		return nil
	case *LazyBuf:
		return append([]V(nil), w.strBytes(x.s)...)
	case *Union:
		return w.slice(w.resolve(v))
	}
	w.unsupported(fmt.Sprintf("slice of %T", v.o))
	return nil
}

// str returns the bytes of a string value; sym reports symbolic content.
func (w *W) str(v V) (s string, sym []V) {
	switch x := v.o.(type) {
	case nil:
		return "", nil
	case string:
		return x, nil
	case *SymStr:
		return "", x.b
	case *Union:
		return w.str(w.resolve(v))
	case *Rope:
		return w.str(w.unrope(x))
	}
	w.unsupported(fmt.Sprintf("string of %T", v.o))
	return "", nil
}

// cstr gives a concrete Go string, concretising symbolic bytes by forking.
func (w *W) cstr(v V) string {
	s, sym := w.str(v)
	if sym == nil {
		return s
	}
	b := make([]byte, len(sym))
	for i := range sym {
		b[i] = byte(w.conc(sym[i], 8, false))
	}
	return string(b)
}

func (w *W) strLen(v V) V {
	switch x := v.o.(type) {
	case nil:
		return V{}
	case string:
		return intV(len(x))
	case *SymStr:
		return intV(len(x.b))
	case *Rope:
		n := w.strLen(x.p[0])
		for _, p := range x.p[1:] {
			n = w.addInt(n, w.strLen(p))
		}
		return n
	}
	return w.lift(v, types.Typ[types.Int], w.strLen)
}

func (w *W) addInt(a, b V) V {
	if a.o == nil && b.o == nil {
		return V{n: a.n + b.n}
	}
	return w.termV(w.ts.bin(OAdd, w.term(a, 64), w.term(b, 64)), types.Typ[types.Int])
}

// unrope splits until the pieces are plain strings.
func (w *W) unrope(x *Rope) V {
	var sb strings.Builder
	var sym []V
	for _, p := range x.p {
		s, b := w.str(p)
		if b == nil && sym == nil {
			sb.WriteString(s)
			continue
		}
		if sym == nil {
			sym = w.strBytes(strV(sb.String()))
		}
		if b == nil {
			b = w.strBytes(strV(s))
		}
		sym = append(sym, b...)
	}
	if sym != nil {
		return mkStr(sym)
	}
	return strV(sb.String())
}

// rope concatenates, keeping the alternatives of the pieces.
func (w *W) rope(a, b V) V {
	var l []V
	add := func(v V) {
		v = resolved(v)
		if v.o == nil {
			return
		}
		if s, ok := v.o.(string); ok && len(l) > 0 {
			if t, ok := l[len(l)-1].o.(string); ok {
				l[len(l)-1] = strV(t + s)
				return
			}
		}
		l = append(l, v)
	}
	for _, v := range []V{a, b} {
		if r, ok := v.o.(*Rope); ok {
			for _, p := range r.p {
				add(p)
			}
		} else {
			add(v)
		}
	}
	switch len(l) {
	case 0:
		return V{}
	case 1:
		return l[0]
	}
	return V{o: &Rope{l}}
}

func (w *W) strBytes(v V) []V {
	s, sym := w.str(v)
	if sym != nil {
		return sym
	}
	b := make([]V, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = V{n: uint64(s[i])}
	}
	return b
}

// mkStr makes a string value from bytes.
func mkStr(b []V) V {
	for i := range b {
		if b[i].o != nil {
			return V{o: &SymStr{b: append([]V(nil), b...)}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return strV(sb.String())
}

// conc concretises a scalar by forking over its feasible values.
func (w *W) conc(v V, width uint8, signed bool) uint64 {
	t, ok := v.o.(*Term)
	if !ok {
		return v.n
	}
	for {
		x, ok := w.someValue(t)
		if !ok {
			w.unsupported("concretisation without value")
		}
		w.nextVal = x
		w.concretising = true
		hit := w.decide(w.ts.eq(t, w.ts.con(t.w, x)))
		w.concretising = false
		if hit {
			return norm(width, signed, x)
		}
	}
}

func (w *W) concInt(v V) int {
	if v.o == nil {
		return int(int64(v.n))
	}
	t := v.o.(*Term)
	return int(int64(w.conc(v, t.w, true)))
}

// concIntT is concInt for a value of static integer type it.
func (w *W) concIntT(v V, it types.Type) int {
	if v.o == nil {
		return int(int64(v.n))
	}
	_, sg, _ := scalarInfo(it)
	return int(int64(w.conc(v, v.o.(*Term).w, sg)))
}

func (w *W) iface(v V) *Iface {
	switch x := v.o.(type) {
	case nil:
		return nil
	case *Iface:
		return x
	case *Union:
		return w.iface(w.resolve(v))
	}
	w.unsupported(fmt.Sprintf("interface of %T", v.o))
	return nil
}

// ---- types ----

func (w *W) rtype(t types.Type) *RType {
	if r, ok := w.rtFast[t]; ok {
		return r
	}
	if x := w.rt.At(t); x != nil {
		r := x.(*RType)
		w.rtFast[t] = r
		return r
	}
	r := &RType{t: t, id: w.rt.Len(), meth: map[string]*Func{}, w: w, u: t.Underlying()}
	w.rt.Set(t, r)
	w.rtFast[t] = r
	return r
}

// method finds the implementation of a method by name.
func (r *RType) method(pkg *types.Package, name string) *Func {
	key := name
	if pkg != nil && !isExported(name) {
		key = pkg.Path() + "." + name
	}
	if f, ok := r.meth[key]; ok {
		return f
	}
	ms := r.w.prog.MethodSets.MethodSet(r.t)
	sel := ms.Lookup(pkg, name)
	var f *Func
	if sel != nil {
		m := r.w.prog.MethodValue(sel)
		if m != nil {
			f = r.w.fn(m)
		}
	}
	r.meth[key] = f
	return f
}

func isExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

func (w *W) implements(r *RType, it *types.Interface) bool {
	m, ok := w.implCache[implKey{r, it}]
	if ok {
		return m
	}
	m = types.Implements(r.t, it)
	w.implCache[implKey{r, it}] = m
	return m
}

type implKey struct {
	r *RType
	i *types.Interface
}

// equality of two values of static type t as a term
func (w *W) eqT(t types.Type, a, b V) *Term {
	if ua, ok := a.o.(*Union); ok {
		if ua.res > 0 {
			return w.eqT(t, ua.v[ua.res-1], b)
		}
		r := w.ts.ff
		for i := range ua.g {
			if w.maybe(ua.g[i]) {
				r = w.ts.or(r, w.ts.and(ua.g[i], w.eqT(t, ua.v[i], b)))
			}
		}
		return r
	}
	if _, ok := b.o.(*Union); ok {
		return w.eqT(t, b, a)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.eqStr(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return w.ts.boolc(fl(u, a) == fl(u, b))
		}
		if u.Kind() == types.UnsafePointer {
			return w.ts.boolc(sameV(a, b))
		}
		sw, _, ok := scalarInfo(t)
		if !ok {
			w.unsupported("== on " + t.String())
		}
		if a.o == nil && b.o == nil {
			return w.ts.boolc(a.n == b.n)
		}
		return w.ts.eq(w.term(a, sw), w.term(b, sw))
	case *types.Struct:
		if isOpaque(t) {
			w.unsupported("== on reflect.Value")
		}
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := w.ts.tt
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.ts.and(r, w.eqT(u.Field(i).Type(), x.e[i], y.e[i]))
			if r == w.ts.ff {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := w.ts.tt
		for i := range x.e {
			r = w.ts.and(r, w.eqT(u.Elem(), x.e[i], y.e[i]))
			if r == w.ts.ff {
				return r
			}
		}
		return r
	case *types.Interface:
		x, y := w.iface(a), w.iface(b)
		if x == nil || y == nil {
			return w.ts.boolc(x == nil && y == nil)
		}
		if x.t != y.t {
			return w.ts.ff
		}
		if !types.Comparable(x.t.t) {
			w.rtpanic("comparing uncomparable type " + x.t.t.String())
		}
		return w.eqT(x.t.t, x.v, y.v)
	case *types.Slice:
		return w.ts.boolc(a.o == nil && b.o == nil)
	}
	return w.ts.boolc(sameV(a, b))
}

func (w *W) eqStr(a, b V) *Term {
	if u, ok := a.o.(*Union); ok {
		r := w.ts.ff
		for i := range u.g {
			if w.maybe(u.g[i]) {
				r = w.ts.or(r, w.ts.and(u.g[i], w.eqStr(u.v[i], b)))
			}
		}
		return r
	}
	if _, ok := b.o.(*Union); ok {
		return w.eqStr(b, a)
	}
	s, x := w.str(a)
	t, y := w.str(b)
	if x == nil && y == nil {
		return w.ts.boolc(s == t)
	}
	if x == nil {
		x = w.strBytes(a)
	}
	if y == nil {
		y = w.strBytes(b)
	}
	if len(x) != len(y) {
		return w.ts.ff
	}
	r := w.ts.tt
	for i := range x {
		r = w.ts.and(r, w.ts.eq(w.term(x[i], 8), w.term(y[i], 8)))
		if r == w.ts.ff {
			return r
		}
	}
	return r
}

// ---- maps ----

func newMap(t *types.Map) *MapV {
	return &MapV{idx: map[any]int{}, elem: t.Elem(), key: t.Key()}
}

type structKey string

// hkey returns a host map key for a concrete guest key.
func (w *W) hkey(t types.Type, v V) (any, bool) {
	switch x := v.o.(type) {
	case nil:
		return v.n, true
	case string:
		return x, true
	case *V:
		return x, true
	case *Term, *SymStr, *Rope:
		return nil, false
	case *FuncV, *MapV, *Slice:
		w.rtpanic("hash of unhashable type")
	case *Union:
		return nil, false
	case *Iface:
		k, ok := w.hkey(x.t.t, x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case *Agg:
		var sb strings.Builder
		if !w.encKey(&sb, v) {
			return nil, false
		}
		return structKey(sb.String()), true
	}
	w.unsupported(fmt.Sprintf("map key %T", v.o))
	return nil, false
}

func (w *W) encKey(sb *strings.Builder, v V) bool {
	switch x := v.o.(type) {
	case nil:
		fmt.Fprintf(sb, "%d;", v.n)
	case string:
		fmt.Fprintf(sb, "%q;", x)
	case *V:
		fmt.Fprintf(sb, "%p;", x)
	case *Agg:
		for i := range x.e {
			if !w.encKey(sb, x.e[i]) {
				return false
			}
		}
	default:
		return false
	}
	return true
}

func strKeyNorm(t types.Type, k any) any {
	// "" is V{} and hashes as uint64(0); make strings uniform
	if isString(t) {
		if _, ok := k.(uint64); ok {
			return ""
		}
	}
	return k
}

// mapFind returns the index of the entry for key or -1; forks on symbolic keys.
func (w *W) mapFind(m *MapV, key V) int {
	if u, ok := key.o.(*Union); ok {
		_ = u
		key = w.resolve(key)
	}
	k, ok := w.hkey(m.key, key)
	if ok && m.sym == 0 {
		if i, ok := m.idx[strKeyNorm(m.key, k)]; ok {
			return i
		}
		return -1
	}
	for i := range m.ent {
		if m.ent[i].del {
			continue
		}
		c := w.eqT(m.key, m.ent[i].k, key)
		if c == w.ts.ff {
			continue
		}
		if w.decideMaybe(c) {
			return i
		}
	}
	return -1
}

func (w *W) mapSet(m *MapV, key, val V) {
	if w.freeze {
		if _, ok := w.baseMaps[m]; ok {
			w.sharedWrite()
		}
	}
	i := w.mapFind(m, key)
	key = w.resolve(key)
	val = copyV(val)
	if i >= 0 {
		old := m.ent[i].v
		w.trail = append(w.trail, trailEnt{m: m, f: func() { m.ent[i].v = old }})
		m.ent[i].v = val
		return
	}
	k, ok := w.hkey(m.key, key)
	j := len(m.ent)
	m.ent = append(m.ent, MapEnt{k: copyV(key), v: val})
	m.n++
	if ok {
		k = strKeyNorm(m.key, k)
		m.idx[k] = j
	} else {
		m.sym++
	}
	w.trail = append(w.trail, trailEnt{m: m, f: func() {
		m.ent = m.ent[:j]
		m.n--
		if ok {
			delete(m.idx, k)
		} else {
			m.sym--
		}
	}})
}

func (w *W) mapDelete(m *MapV, key V) {
	if w.freeze {
		if _, ok := w.baseMaps[m]; ok {
			w.sharedWrite()
		}
	}
	i := w.mapFind(m, key)
	if i < 0 {
		return
	}
	k, ok := w.hkey(m.key, m.ent[i].k)
	m.ent[i].del = true
	m.n--
	if ok {
		k = strKeyNorm(m.key, k)
		delete(m.idx, k)
	} else {
		m.sym--
	}
	w.trail = append(w.trail, trailEnt{m: m, f: func() {
		m.ent[i].del = false
		m.n++
		if ok {
			m.idx[k] = i
		} else {
			m.sym++
		}
	}})
}

// mapGet looks a key up without forking where it can: symbolic keys give
// merged results.
func (w *W) mapGet(m *MapV, key V) (V, V) {
	if m == nil {
		return V{}, V{}
	}
	if u, ok := key.o.(*Union); ok && u.res == 0 {
		g1 := []*Term{}
		v1 := []V{}
		okT := w.ts.ff
		for i := range u.g {
			if !w.maybe(u.g[i]) {
				continue
			}
			v, ok := w.mapGet(m, u.v[i])
			g1 = append(g1, u.g[i])
			v1 = append(v1, v)
			okT = w.ts.or(okT, w.ts.and(u.g[i], w.term(ok, 0)))
		}
		return w.merge(m.elem, g1, v1), w.boolT(okT)
	}
	key = w.resolve(key)
	k, ok := w.hkey(m.key, key)
	if ok && m.sym == 0 {
		if i, ok := m.idx[strKeyNorm(m.key, k)]; ok {
			return copyV(m.ent[i].v), V{n: 1}
		}
		return zeroV(m.elem), V{}
	}
	// symbolic: collect the possible matches
	var g []*Term
	var vs []V
	none := w.ts.tt
	for i := range m.ent {
		if m.ent[i].del {
			continue
		}
		c := w.eqT(m.key, m.ent[i].k, key)
		if c == w.ts.ff || !w.maybe(c) {
			continue
		}
		g = append(g, c)
		vs = append(vs, m.ent[i].v)
		none = w.ts.and(none, w.ts.not(c))
	}
	if len(g) == 0 {
		return zeroV(m.elem), V{}
	}
	okT := w.ts.not(none)
	g = append(g, none)
	vs = append(vs, zeroV(m.elem))
	if w.maybe(none) {
		return w.merge(m.elem, g, vs), w.boolT(okT)
	}
	return w.merge(m.elem, g, vs), w.boolT(okT)
}

var _ = ssa.NaiveForm
