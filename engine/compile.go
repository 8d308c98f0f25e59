package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type instr func(fr *Frame)

type Func struct {
	name    string
	ssa     *ssa.Function
	nregs   int
	nparams int
	blocks  []block
	native  func(w *W, args []V) V
	defers  bool
	recover int
	w       *W
	ready   bool
	repo    bool // function of the library under test
	fast    func(w *W, a []V, f *Func) (V, bool)
	calls   int64
}

type block struct {
	ins  []instr
	term func(fr *Frame) // sets fr.next; -1 return
	phis []phi
	pre  []int // predecessor block indices in order

	// condition-only block: pure scalar instructions and a branch
	pure bool
	jump bool
	cond opd
	t, e int
}

type phi struct {
	dst   int
	edges []opd
	typ   types.Type
}

type opd struct {
	reg int // -1: constant
	c   V
}

func (o *opd) get(fr *Frame) V {
	if o.reg >= 0 {
		return fr.r[o.reg]
	}
	return o.c
}

type deferred struct {
	fn   V
	args []V
	bi   func(args []V) V
}

type Frame struct {
	fn        *Func
	w         *W
	r         []V
	cur       int
	prev      int
	next      int
	defers    []deferred
	result    V
	panicking *GuestPanic
	caller    *Frame
	phisDone  bool // the phis of the next block were set by a merged branch
}

// GuestPanic is a Go panic of the program under test.
type GuestPanic struct {
	val     V // interface value
	msg     string
	runtime bool
	exit    bool
}

func (w *W) fn(f *ssa.Function) *Func {
	if x, ok := w.funcs[f]; ok {
		return x
	}
	x := &Func{name: f.String(), ssa: f, w: w}
	if o := f.Origin(); o != nil {
		x.name = o.String()
	}
	w.funcs[f] = x
	return x
}

func (x *Func) prepare() {
	x.ready = true
	w := x.w
	f := x.ssa
	if n, ok := natives[x.name]; ok {
		x.native = n
		return
	}
	if h, ok := fasts[x.name]; ok {
		if ff, ok := h.(func(w *W, a []V, f *Func) (V, bool)); ok {
			x.fast = ff
		} else {
			x.fast = adapt(h)
		}
	}
	if f.Pkg != nil && f.Synthetic == "package initializer" {
		// package initialisers are run on demand
		pkg := f.Pkg
		x.native = func(w *W, args []V) V { w.initPkg(pkg); return V{} }
		return
	}
	if p := fnPkg(f); p != nil {
		w.ensureBuilt(p)
		if w.eng.isRepo(p.Pkg.Path()) {
			x.repo = true
		}
		if !w.eng.interpretable(p.Pkg.Path()) && !interpFns[strings.SplitN(x.name, "$", 2)[0]] {
			nm := x.name
			res := f.Signature.Results()
			x.native = func(w *W, args []V) V {
				if w.initDepth > 0 {
					// package initialisation of foreign values: opaque
					if res.Len() == 1 {
						return zeroV(res.At(0).Type())
					}
					return zeroV(res)
				}
				w.unsupported("call of " + nm)
				return V{}
			}
			return
		}
	}
	if len(f.Blocks) == 0 {
		nm := x.name
		x.native = func(w *W, args []V) V { w.unsupported("no body: " + nm); return V{} }
		return
	}
	c := &compiler{w: w, f: f, fn: x, regs: map[ssa.Value]int{}}
	c.compile()
}

func fnPkg(f *ssa.Function) *ssa.Package {
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := f.Parent(); p != nil {
		return fnPkg(p)
	}
	return nil
}

type compiler struct {
	w    *W
	f    *ssa.Function
	fn   *Func
	regs map[ssa.Value]int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.fn.nregs
	c.fn.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) opd(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{reg: -1, c: c.w.constV(v)}
	case *ssa.Global:
		return opd{reg: -1, c: V{o: c.w.global(v)}}
	case *ssa.Function:
		return opd{reg: -1, c: V{o: c.w.funcV(v)}}
	case *ssa.Builtin:
		return opd{reg: -1}
	}
	return opd{reg: c.reg(v)}
}

func (w *W) funcV(f *ssa.Function) *FuncV {
	if x, ok := w.funcVs[f]; ok {
		return x
	}
	x := &FuncV{fn: w.fn(f)}
	w.funcVs[f] = x
	return x
}

func (w *W) global(g *ssa.Global) *V {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(V)
	*p = zeroV(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals[g] = p
	if g.Pkg != nil && w.eng.interpretable(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		w.initPkg(g.Pkg)
	}
	return p
}

func (w *W) constV(k *ssa.Const) V {
	if k.Value == nil {
		return zeroV(k.Type())
	}
	t := k.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		w.unsupported("const of type parameter")
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		w.unsupported("const type " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolV(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return strV(constant.StringVal(k.Value))
		}
		return strV(string(rune(k.Int64())))
	case b.Info()&types.IsInteger != 0:
		sw, sg, _ := scalarInfo(t)
		if sg {
			return V{n: norm(sw, sg, uint64(k.Int64()))}
		}
		return V{n: norm(sw, sg, k.Uint64())}
	case b.Info()&types.IsFloat != 0:
		f := k.Float64()
		return flV(b, f)
	}
	w.unsupported("const " + k.String())
	return V{}
}

func flV(b *types.Basic, f float64) V {
	if b.Kind() == types.Float32 {
		f = float64(float32(f))
	}
	return V{n: math.Float64bits(f)}
}
func fl(b *types.Basic, v V) float64 { return math.Float64frombits(v.n) }

func (c *compiler) compile() {
	f, fn := c.f, c.fn
	for _, p := range f.Params {
		c.reg(p)
	}
	fn.nparams = len(f.Params)
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	fn.blocks = make([]block, len(f.Blocks))
	fn.recover = -1
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	for i, b := range f.Blocks {
		bl := &fn.blocks[i]
		for _, p := range b.Preds {
			bl.pre = append(bl.pre, p.Index)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phi{dst: c.reg(in)}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, c.opd(e))
				}
				ph.typ = in.Type()
				bl.phis = append(bl.phis, ph)
			case *ssa.If:
				cond := c.opd(in.Cond)
				t, e := b.Succs[0].Index, b.Succs[1].Index
				bl.cond, bl.t, bl.e = cond, t, e
				bl.pure = pureBlock(b)
				bl.term = func(fr *Frame) {
					v := cond.get(fr)
					if v.o == nil {
						if v.n != 0 {
							fr.next = t
						} else {
							fr.next = e
						}
						return
					}
					x := v.o.(*Term)
					if x.v != nil && fr.w.dstat(x) == 1 && fr.mergedBranch(x, t, e) {
						return
					}
					if fr.w.decide(x) {
						fr.next = t
					} else {
						fr.next = e
					}
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				bl.term = func(fr *Frame) { fr.next = t }
				bl.t, bl.e = t, t
				bl.pure = pureBlock(b)
				bl.jump = true
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					bl.term = func(fr *Frame) { fr.next = -1 }
				case 1:
					o := c.opd(in.Results[0])
					bl.term = func(fr *Frame) { fr.result = o.get(fr); fr.next = -1 }
				default:
					var os []opd
					for _, r := range in.Results {
						os = append(os, c.opd(r))
					}
					bl.term = func(fr *Frame) {
						t := &Tup{e: make([]V, len(os))}
						for i := range os {
							t.e[i] = os[i].get(fr)
						}
						fr.result = V{o: t}
						fr.next = -1
					}
				}
			case *ssa.Panic:
				o := c.opd(in.X)
				bl.term = func(fr *Frame) {
					v := o.get(fr)
					panic(&GuestPanic{val: fr.w.resolve(v), msg: "panic"})
				}
			case *ssa.DebugRef:
			default:
				if x := c.instr(in); x != nil {
					bl.ins = append(bl.ins, x)
				}
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *compiler) instr(in ssa.Instruction) instr {
	w := c.w
	switch in := in.(type) {
	case *ssa.Alloc:
		d := c.reg(in)
		t := deref(in.Type())
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			if !isOpaque(t) {
				return func(fr *Frame) { p := new(V); *p = zeroV(t); fr.r[d] = V{o: p} }
			}
		}
		return func(fr *Frame) { fr.r[d] = V{o: new(V)} }
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.ChangeInterface:
		d, x := c.reg(in), c.opd(in.X)
		return func(fr *Frame) { fr.r[d] = x.get(fr) }
	case *ssa.ChangeType:
		d, x := c.reg(in), c.opd(in.X)
		return func(fr *Frame) { fr.r[d] = x.get(fr) }
	case *ssa.Convert:
		d, x := c.reg(in), c.opd(in.X)
		ft, tt := in.X.Type(), in.Type()
		return func(fr *Frame) { fr.r[d] = fr.w.convert(ft, tt, x.get(fr)) }
	case *ssa.MakeInterface:
		d, x := c.reg(in), c.opd(in.X)
		rt := w.rtype(in.X.Type())
		return func(fr *Frame) {
			v := x.get(fr)
			fr.r[d] = fr.w.lift(v, nil, func(v V) V { return V{o: &Iface{t: rt, v: v}} })
		}
	case *ssa.MakeClosure:
		d := c.reg(in)
		fn := w.fn(in.Fn.(*ssa.Function))
		var bs []opd
		for _, b := range in.Bindings {
			bs = append(bs, c.opd(b))
		}
		return func(fr *Frame) {
			f := &FuncV{fn: fn, free: make([]V, len(bs))}
			for i := range bs {
				f.free[i] = bs[i].get(fr)
			}
			fr.r[d] = V{o: f}
		}
	case *ssa.MakeMap:
		d := c.reg(in)
		t := in.Type().Underlying().(*types.Map)
		return func(fr *Frame) { fr.r[d] = V{o: newMap(t)} }
	case *ssa.MakeSlice:
		d, l, cp := c.reg(in), c.opd(in.Len), c.opd(in.Cap)
		lt, ct := in.Len.Type(), in.Cap.Type()
		et := in.Type().Underlying().(*types.Slice).Elem()
		return func(fr *Frame) {
			n := fr.w.concIntT(l.get(fr), lt)
			k := fr.w.concIntT(cp.get(fr), ct)
			if n < 0 || k < n {
				fr.w.rtpanic("makeslice: len out of range")
			}
			if k > 1<<22 {
				fr.w.unsupported("huge make")
			}
			fr.r[d] = V{o: &Slice{s: makeV(et, k)[:n]}}
		}
	case *ssa.Store:
		a, x := c.opd(in.Addr), c.opd(in.Val)
		return func(fr *Frame) { fr.w.storeAt(a.get(fr), x.get(fr)) }
	case *ssa.MapUpdate:
		m, k, x := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		return func(fr *Frame) {
			mv := fr.w.resolve(m.get(fr))
			if mv.o == nil {
				fr.w.rtpanic("assignment to entry in nil map")
			}
			fr.w.mapSet(mv.o.(*MapV), k.get(fr), x.get(fr))
		}
	case *ssa.FieldAddr:
		d, x := c.reg(in), c.opd(in.X)
		i := in.Field
		f := func(w *W, v V) V {
			p := w.ptr(v)
			return V{o: &p.o.(*Agg).e[i]}
		}
		return func(fr *Frame) {
			v := x.get(fr)
			if p, ok := v.o.(*V); ok {
				fr.r[d] = V{o: &p.o.(*Agg).e[i]}
				return
			}
			v = fr.w.nonNil(v)
			u, ok := v.o.(*Union)
			if !ok || u.res > 0 {
				fr.r[d] = fr.w.lift(v, nil, func(v V) V { return f(fr.w, v) })
				return
			}
			if i < len(u.fa) && u.fa[i].o != nil {
				fr.r[d] = u.fa[i]
				return
			}
			r := fr.w.lift(v, nil, func(v V) V { return f(fr.w, v) })
			for len(u.fa) <= i {
				u.fa = append(u.fa, V{})
			}
			u.fa[i] = r
			fr.r[d] = r
		}
	case *ssa.Field:
		d, x := c.reg(in), c.opd(in.X)
		i := in.Field
		return func(fr *Frame) { fr.r[d] = x.get(fr).o.(*Agg).e[i] }
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Index:
		return c.index(in)
	case *ssa.Lookup:
		d, x, k := c.reg(in), c.opd(in.X), c.opd(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return func(fr *Frame) { fr.r[d] = fr.w.strIndex(x.get(fr), k.get(fr), in.Index.Type()) }
		}
		commaok := in.CommaOk
		et := in.X.Type().Underlying().(*types.Map).Elem()
		return func(fr *Frame) {
			mv := fr.w.resolve(x.get(fr))
			var m *MapV
			if mv.o != nil {
				m = mv.o.(*MapV)
			}
			var v, ok V
			if m == nil {
				v = zeroV(et)
			} else {
				v, ok = fr.w.mapGet(m, k.get(fr))
			}
			if commaok {
				fr.r[d] = V{o: &Tup{e: []V{v, ok}}}
			} else {
				fr.r[d] = v
			}
		}
	case *ssa.Extract:
		d, x, i := c.reg(in), c.opd(in.Tuple), in.Index
		return func(fr *Frame) { fr.r[d] = x.get(fr).o.(*Tup).e[i] }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		return c.unsup("slice to array pointer")
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Range:
		d, x := c.reg(in), c.opd(in.X)
		_, isMap := in.X.Type().Underlying().(*types.Map)
		repo := w.eng.isRepo(pkgPathOf(c.f))
		return func(fr *Frame) {
			v := fr.w.resolve(x.get(fr))
			if isMap {
				it := &mapIter{}
				if v.o != nil {
					it.m = v.o.(*MapV)
					it.n = len(it.m.ent)
				}
				it.nondet = repo && fr.w.mapNondet
				fr.r[d] = V{o: it}
			} else {
				fr.r[d] = V{o: &strIter{b: fr.w.strBytes(v)}}
			}
		}
	case *ssa.Next:
		d, x := c.reg(in), c.opd(in.Iter)
		return func(fr *Frame) {
			switch it := x.get(fr).o.(type) {
			case *mapIter:
				fr.r[d] = it.next(fr.w)
			case *strIter:
				fr.r[d] = it.next(fr.w)
			}
		}
	case *ssa.Call:
		return c.call(in)
	case *ssa.Defer:
		c.fn.defers = true
		fnv, args, bi := c.callParts(&in.Call)
		return func(fr *Frame) {
			f, a := fnv(fr), args(fr)
			if bi != nil {
				b := bi
				fr.defers = append(fr.defers, deferred{args: a, bi: func(a []V) V { return b(fr, a) }})
				return
			}
			// resolve invoke now
			fr.defers = append(fr.defers, deferred{fn: f, args: a})
		}
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefers() }
	case *ssa.Go:
		return c.unsup("go statement")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return c.unsup("channel operation")
	}
	return c.unsup(fmt.Sprintf("instruction %T", in))
}

func pkgPathOf(f *ssa.Function) string {
	if p := fnPkg(f); p != nil {
		return p.Pkg.Path()
	}
	return ""
}

func (c *compiler) unsup(s string) instr {
	nm := c.f.String()
	return func(fr *Frame) { fr.w.unsupported(s + " in " + nm) }
}

func makeV(et types.Type, n int) []V {
	s := make([]V, n)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zeroV(et)
		}
	}
	return s
}

// nonNil forks on the nil alternatives of a pointer union.
func (w *W) nonNil(v V) V {
	u, ok := v.o.(*Union)
	if !ok || u.res > 0 {
		return v
	}
	for i := range u.v {
		if u.v[i].o == nil && w.maybe(u.g[i]) {
			if w.decide(u.g[i]) {
				w.setres(u, i+1)
				w.rtpanic("invalid memory address or nil pointer dereference")
			}
		}
	}
	return v
}

func (w *W) storeAt(a V, x V) {
	if p, ok := a.o.(*V); ok {
		w.store(p, x)
		return
	}
	w.store(w.ptr(a), x)
}

func (w *W) load(a V, t types.Type) V {
	switch p := a.o.(type) {
	case *V:
		v := *p
		if _, ok := v.o.(*Agg); ok {
			return copyV(v)
		}
		return v
	case *Union:
		return w.lift(w.nonNil(a), t, func(x V) V { return w.load(x, t) })
	}
	w.ptr(a)
	return V{}
}

func (c *compiler) unop(in *ssa.UnOp) instr {
	d, x := c.reg(in), c.opd(in.X)
	t := in.Type()
	switch in.Op {
	case token.MUL:
		return func(fr *Frame) {
			a := x.get(fr)
			if p, ok := a.o.(*V); ok {
				v := *p
				if _, ok := v.o.(*Agg); ok {
					v = copyV(v)
				}
				fr.r[d] = v
				return
			}
			fr.r[d] = fr.w.load(a, t)
		}
	case token.NOT:
		return func(fr *Frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = V{n: v.n ^ 1}
			} else {
				fr.r[d] = fr.w.boolT(fr.w.ts.not(v.o.(*Term)))
			}
		}
	case token.SUB:
		if isFloat(t) {
			return func(fr *Frame) { fr.r[d] = V{n: math.Float64bits(-math.Float64frombits(x.get(fr).n))} }
		}
		sw, sg, ok := scalarInfo(t)
		if !ok {
			return c.unsup("neg")
		}
		return func(fr *Frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = V{n: norm(sw, sg, -v.n)}
			} else {
				w := fr.w
				fr.r[d] = w.termV(w.ts.bin(OSub, w.ts.con(sw, 0), v.o.(*Term)), t)
			}
		}
	case token.XOR:
		sw, sg, ok := scalarInfo(t)
		if !ok {
			return c.unsup("xor")
		}
		return func(fr *Frame) {
			v := x.get(fr)
			if v.o == nil {
				fr.r[d] = V{n: norm(sw, sg, ^v.n)}
			} else {
				w := fr.w
				fr.r[d] = w.termV(w.ts.bin(OBXor, w.ts.con(sw, ^uint64(0)), v.o.(*Term)), t)
			}
		}
	}
	return c.unsup("unop " + in.Op.String())
}

func (c *compiler) binop(in *ssa.BinOp) instr {
	d, x, y := c.reg(in), c.opd(in.X), c.opd(in.Y)
	t := in.X.Type()
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// comparisons of interface with concrete do not occur in SSA
		if sw, _, ok := scalarInfo(t); ok {
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				if a.o == nil && b.o == nil {
					fr.r[d] = boolV((a.n == b.n) != neg)
					return
				}
				w := fr.w
				e := w.ts.eq(w.term(a, sw), w.term(b, sw))
				if neg {
					e = w.ts.not(e)
				}
				fr.r[d] = w.boolT(e)
			}
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Signature, *types.Map, *types.Slice, *types.Chan:
			return func(fr *Frame) {
				a, b := x.get(fr), y.get(fr)
				_, ua := a.o.(*Union)
				_, ub := b.o.(*Union)
				if !ua && !ub {
					var eq bool
					if a.o == nil || b.o == nil {
						eq = a.o == nil && b.o == nil
					} else {
						eq = sameV(a, b)
					}
					fr.r[d] = boolV(eq != neg)
					return
				}
				e := fr.w.eqT(t, a, b)
				if neg {
					e = fr.w.ts.not(e)
				}
				fr.r[d] = fr.w.boolT(e)
			}
		}
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			e := fr.w.eqT(t, a, b)
			if neg {
				e = fr.w.ts.not(e)
			}
			fr.r[d] = fr.w.boolT(e)
		}
	}
	if sw, sg, ok := scalarInfo(t); ok {
		yt := in.Y.Type()
		yw, ysg, _ := scalarInfo(yt)
		return func(fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.o == nil && b.o == nil {
				fr.r[d] = fr.w.intop(op, sw, sg, ysg, a.n, b.n)
				return
			}
			fr.r[d] = fr.w.symop(op, t, sw, sg, yw, ysg, a, b)
		}
	}
	if isString(t) {
		return func(fr *Frame) { fr.r[d] = fr.w.strop(op, x.get(fr), y.get(fr)) }
	}
	if isFloat(t) {
		b := t.Underlying().(*types.Basic)
		return func(fr *Frame) {
			p, q := fl(b, x.get(fr)), fl(b, y.get(fr))
			switch op {
			case token.ADD:
				fr.r[d] = flV(b, p+q)
			case token.SUB:
				fr.r[d] = flV(b, p-q)
			case token.MUL:
				fr.r[d] = flV(b, p*q)
			case token.QUO:
				fr.r[d] = flV(b, p/q)
			case token.LSS:
				fr.r[d] = boolV(p < q)
			case token.LEQ:
				fr.r[d] = boolV(p <= q)
			case token.GTR:
				fr.r[d] = boolV(p > q)
			case token.GEQ:
				fr.r[d] = boolV(p >= q)
			}
		}
	}
	return c.unsup("binop " + op.String() + " on " + t.String())
}

func (w *W) intop(op token.Token, sw uint8, sg, ysg bool, a, b uint64) V {
	switch op {
	case token.ADD:
		return V{n: norm(sw, sg, a+b)}
	case token.SUB:
		return V{n: norm(sw, sg, a-b)}
	case token.MUL:
		return V{n: norm(sw, sg, a*b)}
	case token.QUO, token.REM:
		if b == 0 {
			w.rtpanic("integer divide by zero")
		}
		if sg {
			x, y := int64(a), int64(b)
			if op == token.QUO {
				if y == -1 {
					return V{n: norm(sw, sg, uint64(-x))}
				}
				return V{n: norm(sw, sg, uint64(x/y))}
			}
			if y == -1 {
				return V{}
			}
			return V{n: norm(sw, sg, uint64(x%y))}
		}
		if op == token.QUO {
			return V{n: a / b}
		}
		return V{n: a % b}
	case token.AND:
		return V{n: norm(sw, sg, a&b)}
	case token.OR:
		return V{n: norm(sw, sg, a|b)}
	case token.XOR:
		return V{n: norm(sw, sg, a^b)}
	case token.AND_NOT:
		return V{n: norm(sw, sg, a&^b)}
	case token.SHL, token.SHR:
		if ysg && int64(b) < 0 {
			w.rtpanic("negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return V{}
			}
			return V{n: norm(sw, sg, a<<b)}
		}
		if sg {
			if b >= 64 {
				b = 63
			}
			return V{n: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return V{}
		}
		return V{n: a >> b}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		var lt, eq bool
		if sg {
			lt = int64(a) < int64(b)
		} else {
			lt = a < b
		}
		eq = a == b
		switch op {
		case token.LSS:
			return boolV(lt)
		case token.LEQ:
			return boolV(lt || eq)
		case token.GTR:
			return boolV(!lt && !eq)
		default:
			return boolV(!lt)
		}
	}
	w.unsupported("intop " + op.String())
	return V{}
}

func (w *W) symop(op token.Token, t types.Type, sw uint8, sg bool, yw uint8, ysg bool, av, bv V) V {
	ts := w.ts
	a := w.term(av, sw)
	if op == token.SHL || op == token.SHR {
		b := w.term(bv, yw)
		if ysg {
			if w.decideMaybe(ts.bin(OSlt, b, ts.con(yw, 0))) {
				w.rtpanic("negative shift amount")
			}
		}
		// bring the count to width sw, saturating
		var cnt *Term
		if yw > sw {
			big := ts.not(ts.bin(OUlt, b, ts.con(yw, uint64(sw))))
			cnt = ts.ite(big, ts.con(sw, uint64(sw)), ts.extract(b, sw))
		} else {
			cnt = ts.zext(b, sw)
		}
		switch {
		case op == token.SHL:
			return w.termV(ts.bin(OShl, a, cnt), t)
		case sg:
			return w.termV(ts.bin(OAshr, a, cnt), t)
		default:
			return w.termV(ts.bin(OLshr, a, cnt), t)
		}
	}
	b := w.term(bv, sw)
	lt := OUlt
	if sg {
		lt = OSlt
	}
	switch op {
	case token.ADD:
		return w.termV(ts.bin(OAdd, a, b), t)
	case token.SUB:
		return w.termV(ts.bin(OSub, a, b), t)
	case token.MUL:
		return w.termV(ts.bin(OMul, a, b), t)
	case token.QUO, token.REM:
		if w.decideMaybe(ts.eq(b, ts.con(sw, 0))) {
			w.rtpanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case sg && op == token.QUO:
			o = OSDiv
		case sg:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return w.termV(ts.bin(o, a, b), t)
	case token.AND:
		if sw == 0 {
			return w.boolT(ts.and(a, b))
		}
		return w.termV(ts.bin(OBAnd, a, b), t)
	case token.OR:
		if sw == 0 {
			return w.boolT(ts.or(a, b))
		}
		return w.termV(ts.bin(OBOr, a, b), t)
	case token.XOR:
		return w.termV(ts.bin(OBXor, a, b), t)
	case token.AND_NOT:
		return w.termV(ts.bin(OBAnd, a, ts.bin(OBXor, b, ts.con(sw, ^uint64(0)))), t)
	case token.LSS:
		return w.boolT(ts.bin(lt, a, b))
	case token.GTR:
		return w.boolT(ts.bin(lt, b, a))
	case token.LEQ:
		return w.boolT(ts.not(ts.bin(lt, b, a)))
	case token.GEQ:
		return w.boolT(ts.not(ts.bin(lt, a, b)))
	}
	w.unsupported("symop " + op.String())
	return V{}
}

func (w *W) strop(op token.Token, a, b V) V {
	switch op {
	case token.ADD:
		ua, aok := a.o.(*Union)
		ub, bok := b.o.(*Union)
		if aok && ua.res == 0 && len(ua.v) <= 256 && !bok {
			return w.lift(a, types.Typ[types.String], func(x V) V { return w.strop(op, x, b) })
		}
		if bok && ub.res == 0 && len(ub.v) <= 256 && !aok {
			return w.lift(b, types.Typ[types.String], func(x V) V { return w.strop(op, a, x) })
		}
		_, ar := a.o.(*Rope)
		_, br := b.o.(*Rope)
		if ar || br || aok && bok {
			return w.rope(a, b)
		}
		s, x := w.str(a)
		t, y := w.str(b)
		if x == nil && y == nil {
			return strV(s + t)
		}
		r := append(append([]V(nil), w.strBytes(a)...), w.strBytes(b)...)
		return mkStr(r)
	}
	s, x := w.str(a)
	t, y := w.str(b)
	if x == nil && y == nil {
		switch op {
		case token.LSS:
			return boolV(s < t)
		case token.LEQ:
			return boolV(s <= t)
		case token.GTR:
			return boolV(s > t)
		case token.GEQ:
			return boolV(s >= t)
		}
	}
	p, q := w.strBytes(a), w.strBytes(b)
	// lexicographic less as a term
	less := func(p, q []V) *Term {
		r := w.ts.boolc(len(p) < len(q))
		n := len(p)
		if len(q) < n {
			n = len(q)
		}
		for i := n - 1; i >= 0; i-- {
			pi, qi := w.term(p[i], 8), w.term(q[i], 8)
			r = w.ts.ite(w.ts.eq(pi, qi), r, w.ts.bin(OUlt, pi, qi))
		}
		return r
	}
	switch op {
	case token.LSS:
		return w.boolT(less(p, q))
	case token.GTR:
		return w.boolT(less(q, p))
	case token.LEQ:
		return w.boolT(w.ts.not(less(q, p)))
	case token.GEQ:
		return w.boolT(w.ts.not(less(p, q)))
	}
	w.unsupported("strop " + op.String())
	return V{}
}

// boundsIdx checks 0 <= i < n and returns the index value (maybe symbolic).
func (w *W) boundsIdx(i V, n int, it types.Type) V {
	if i.o == nil {
		x := int64(i.n)
		_, sg, _ := scalarInfo(it)
		if (sg && x < 0) || i.n >= uint64(n) {
			w.rtpanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return i
	}
	t := i.o.(*Term)
	in := w.ts.tt
	if t.w >= 63 || n < 1<<t.w {
		in = w.ts.bin(OUlt, t, w.ts.con(t.w, uint64(n)))
	}
	if _, sg, _ := scalarInfo(it); sg && t.w < 63 && n > 1<<(t.w-1) {
		in = w.ts.and(in, w.ts.not(w.ts.bin(OSlt, t, w.ts.con(t.w, 0))))
	}
	if !w.decide(in) {
		w.rtpanic("index out of range")
	}
	return i
}

// elemUnion: pointers to s[i] for symbolic i
func (w *W) elemPtr(s []V, i V, it types.Type) V {
	i = w.boundsIdx(i, len(s), it)
	if i.o == nil {
		return V{o: &s[i.n]}
	}
	t := i.o.(*Term)
	u := &Union{}
	if t.v != nil {
		if dom, ok := w.doms[t.v]; ok {
			hit := make(bitset, (len(s)+63)/64)
			for x := 0; x < t.v.dom; x++ {
				if j := t.at(x); dom.has(x) && j < uint64(len(s)) {
					hit[j/64] |= 1 << (j % 64)
				}
			}
			for j := range s {
				if hit.has(j) {
					u.g = append(u.g, w.ts.eq(t, w.ts.con(t.w, uint64(j))))
					u.v = append(u.v, V{o: &s[j]})
				}
			}
			if len(u.v) == 1 {
				return u.v[0]
			}
			return V{o: u}
		}
	}
	for j := range s {
		g := w.ts.eq(t, w.ts.con(t.w, uint64(j)))
		if w.maybe(g) {
			u.g = append(u.g, g)
			u.v = append(u.v, V{o: &s[j]})
		}
	}
	if len(u.v) == 1 {
		return u.v[0]
	}
	return V{o: u}
}

func (c *compiler) indexAddr(in *ssa.IndexAddr) instr {
	d, x, k := c.reg(in), c.opd(in.X), c.opd(in.Index)
	it := in.Index.Type()
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		return func(fr *Frame) {
			s := fr.w.slice(x.get(fr))
			fr.r[d] = fr.w.elemPtr(s, k.get(fr), it)
		}
	case *types.Pointer:
		return func(fr *Frame) {
			p := fr.w.ptr(x.get(fr))
			fr.r[d] = fr.w.elemPtr(p.o.(*Agg).e, k.get(fr), it)
		}
	}
	return c.unsup("indexaddr")
}

func (c *compiler) index(in *ssa.Index) instr {
	d, x, k := c.reg(in), c.opd(in.X), c.opd(in.Index)
	it := in.Index.Type()
	t := in.Type()
	if isString(in.X.Type()) {
		return func(fr *Frame) { fr.r[d] = fr.w.strIndex(x.get(fr), k.get(fr), it) }
	}
	return func(fr *Frame) {
		fr.r[d] = fr.w.load(fr.w.elemPtr(x.get(fr).o.(*Agg).e, k.get(fr), it), t)
	}
}

func (w *W) strIndex(x, k V, it types.Type) V {
	s, sym := w.str(x)
	if sym == nil && k.o == nil {
		i := int64(k.n)
		if i < 0 || i >= int64(len(s)) {
			w.rtpanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(s)))
		}
		return V{n: uint64(s[i])}
	}
	if t, ok := k.o.(*Term); ok && sym == nil && t.v != nil {
		if dom, ok := w.doms[t.v]; ok {
			// a table lookup
			_, sg, _ := scalarInfo(it)
			tab := make([]uint64, t.v.dom)
			in := true
			for i := range tab {
				if j := norm(t.w, sg, t.at(i)); j < uint64(len(s)) {
					tab[i] = uint64(s[j])
				} else if dom.has(i) {
					in = false
					break
				}
			}
			if in {
				r := w.ts.table(t.v, 8, tab)
				if r.op == OConst {
					return V{n: r.k}
				}
				return V{o: r}
			}
		}
	}
	b := w.strBytes(x)
	return w.load(w.elemPtr(b, k, it), types.Typ[types.Uint8])
}

func (c *compiler) slice(in *ssa.Slice) instr {
	d, x := c.reg(in), c.opd(in.X)
	type topd struct {
		opd
		t types.Type
	}
	var lo, hi, mx *topd
	mk := func(v ssa.Value) *topd {
		if v == nil {
			return nil
		}
		return &topd{c.opd(v), v.Type()}
	}
	lo, hi, mx = mk(in.Low), mk(in.High), mk(in.Max)
	ut := in.X.Type().Underlying()
	str := isString(in.X.Type())
	return func(fr *Frame) {
		w := fr.w
		v := w.resolve(x.get(fr))
		get := func(o *topd, def int) int {
			if o == nil {
				return def
			}
			return w.concIntT(o.get(fr), o.t)
		}
		if str {
			s, sym := w.str(v)
			n := len(s)
			if sym != nil {
				n = len(sym)
			}
			l, h := get(lo, 0), get(hi, n)
			if l < 0 || h < l || h > n {
				w.rtpanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			if sym != nil {
				fr.r[d] = mkStr(sym[l:h])
			} else {
				fr.r[d] = strV(s[l:h])
			}
			return
		}
		var s []V
		isnil := false
		if _, ok := ut.(*types.Pointer); ok {
			s = w.ptr(v).o.(*Agg).e
		} else {
			s = w.slice(v)
			isnil = v.o == nil
		}
		l := get(lo, 0)
		h := get(hi, len(s))
		m := get(mx, cap(s))
		if l < 0 || h < l || m < h || m > cap(s) {
			w.rtpanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(s)))
		}
		if isnil {
			fr.r[d] = V{}
			return
		}
		fr.r[d] = V{o: &Slice{s: s[l:h:m]}}
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instr {
	d, x := c.reg(in), c.opd(in.X)
	at := in.AssertedType
	commaok := in.CommaOk
	it, isI := at.Underlying().(*types.Interface)
	var rt *RType
	if !isI {
		rt = c.w.rtype(at)
	}
	match := func(w *W, v V) bool {
		i, _ := v.o.(*Iface)
		if i == nil {
			return false
		}
		if isI {
			return w.implements(i.t, it)
		}
		return i.t == rt
	}
	val := func(v V) V {
		if isI {
			return v
		}
		return v.o.(*Iface).v
	}
	var resT types.Type
	if !isI {
		resT = at
	}
	return func(fr *Frame) {
		w := fr.w
		v := x.get(fr)
		u, isU := v.o.(*Union)
		if isU && u.res > 0 {
			v = u.v[u.res-1]
			isU = false
		}
		if !isU {
			if match(w, v) {
				if commaok {
					fr.r[d] = V{o: &Tup{e: []V{val(v), {n: 1}}}}
				} else {
					fr.r[d] = val(v)
				}
				return
			}
			if commaok {
				fr.r[d] = V{o: &Tup{e: []V{zeroV(at), {}}}}
				return
			}
			w.rtpanic("interface conversion: wrong type for " + at.String())
			return
		}
		okT := w.ts.ff
		var g []*Term
		var vs []V
		for i := range u.v {
			if !w.maybe(u.g[i]) {
				continue
			}
			if match(w, u.v[i]) {
				okT = w.ts.or(okT, u.g[i])
				g = append(g, u.g[i])
				vs = append(vs, val(u.v[i]))
			}
		}
		if !commaok {
			if !w.decide(okT) {
				w.rtpanic("interface conversion: wrong type for " + at.String())
			}
			fr.r[d] = w.merge(resT, g, vs)
			return
		}
		if no := w.ts.not(okT); w.maybe(no) {
			g = append(g, no)
			vs = append(vs, zeroV(at))
		}
		fr.r[d] = V{o: &Tup{e: []V{w.merge(resT, g, vs), w.boolT(okT)}}}
	}
}

type mapIter struct {
	m      *MapV
	i      int
	n      int
	nondet bool
	seen   map[int]bool
}

func (it *mapIter) next(w *W) V {
	if it.m != nil && it.nondet {
		return it.nextNondet(w)
	}
	if it.m != nil {
		for it.i < len(it.m.ent) {
			e := it.m.ent[it.i]
			it.i++
			if e.del {
				continue
			}
			return V{o: &Tup{e: []V{{n: 1}, copyV(e.k), copyV(e.v)}}}
		}
	}
	return V{o: &Tup{e: []V{{}, {}, {}}}}
}

func (it *mapIter) nextNondet(w *W) V {
	if it.seen == nil {
		it.seen = map[int]bool{}
	}
	var cand []int
	for i := range it.m.ent {
		if !it.m.ent[i].del && !it.seen[i] {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return V{o: &Tup{e: []V{{}, {}, {}}}}
	}
	k := 0
	if len(cand) > 1 && len(cand) <= 5 {
		v := w.newVar(8, len(cand), true)
		k = int(w.conc(V{o: v}, 8, false))
	}
	i := cand[k]
	it.seen[i] = true
	e := it.m.ent[i]
	return V{o: &Tup{e: []V{{n: 1}, copyV(e.k), copyV(e.v)}}}
}

type strIter struct {
	b []V
	i int
}

func (it *strIter) next(w *W) V {
	if it.i >= len(it.b) {
		return V{o: &Tup{e: []V{{}, {}, {}}}}
	}
	start := it.i
	r, n := w.decodeRune(it.b[it.i:])
	it.i += n
	return V{o: &Tup{e: []V{{n: 1}, intV(start), r}}}
}

// ---- calls ----

func (c *compiler) callParts(cc *ssa.CallCommon) (fnv func(fr *Frame) V, args func(fr *Frame) []V, bi func(fr *Frame, a []V) V) {
	var as []opd
	for _, a := range cc.Args {
		as = append(as, c.opd(a))
	}
	if cc.IsInvoke() {
		recv := c.opd(cc.Value)
		name, pkg := cc.Method.Name(), cc.Method.Pkg()
		type res struct {
			f *Func
			r V
		}
		look := func(fr *Frame) (*Func, V) {
			i := fr.w.iface(recv.get(fr))
			if i == nil {
				fr.w.rtpanic("invalid memory address or nil pointer dereference")
			}
			f := i.t.method(pkg, name)
			if f == nil {
				fr.w.unsupported("method " + name + " of " + i.t.t.String())
			}
			return f, i.v
		}
		_ = res{}
		fnv = func(fr *Frame) V { f, _ := look(fr); return V{o: &FuncV{fn: f}} }
		args = func(fr *Frame) []V {
			_, r := look(fr)
			a := make([]V, len(as)+1)
			a[0] = r
			for i := range as {
				a[i+1] = as[i].get(fr)
			}
			return a
		}
		return
	}
	args = func(fr *Frame) []V {
		a := make([]V, len(as))
		for i := range as {
			a[i] = as[i].get(fr)
		}
		return a
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b.Name(), cc)
		return func(fr *Frame) V { return V{} }, args, f
	}
	v := c.opd(cc.Value)
	fnv = func(fr *Frame) V {
		x := fr.w.resolve(v.get(fr))
		if x.o == nil {
			fr.w.rtpanic("invalid memory address or nil pointer dereference")
		}
		return x
	}
	return
}

func (c *compiler) call(in *ssa.Call) instr {
	d := c.reg(in)
	cc := &in.Call
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn := c.w.fn(f)
		var as []opd
		for _, a := range cc.Args {
			as = append(as, c.opd(a))
		}
		n := len(as)
		return func(fr *Frame) {
			w := fr.w
			if !fn.ready {
				fn.prepare()
			}
			if fn.native != nil {
				a := make([]V, n)
				for i := range as {
					a[i] = as[i].get(fr)
				}
				fn.calls++
				fr.r[d] = fn.native(w, a)
				return
			}
			if fn.fast != nil {
				a := make([]V, n)
				for i := range as {
					a[i] = as[i].get(fr)
				}
				if r, ok := fn.fast(w, a, fn); ok {
					fr.r[d] = r
					return
				}
			}
			nf := w.newFrame(fn)
			for i := range as {
				nf.r[i] = as[i].get(fr)
			}
			fr.r[d] = w.run(nf)
		}
	}
	fnv, args, bi := c.callParts(cc)
	if bi != nil {
		return func(fr *Frame) { fr.r[d] = bi(fr, args(fr)) }
	}
	return func(fr *Frame) {
		f := fnv(fr).o.(*FuncV)
		fr.r[d] = fr.w.call(f.fn, args(fr), f.free)
	}
}

func (w *W) callV(f V, args ...V) V {
	f = w.resolve(f)
	if f.o == nil {
		w.rtpanic("invalid memory address or nil pointer dereference")
	}
	fv := f.o.(*FuncV)
	return w.call(fv.fn, args, fv.free)
}

func (w *W) call(fn *Func, args []V, free []V) V {
	if !fn.ready {
		fn.prepare()
	}
	if fn.native != nil {
		fn.calls++
		return fn.native(w, args)
	}
	if fn.fast != nil {
		if r, ok := fn.fast(w, args, fn); ok {
			return r
		}
	}
	nf := w.newFrame(fn)
	copy(nf.r, args)
	copy(nf.r[fn.nparams:], free)
	return w.run(nf)
}

func (w *W) newFrame(fn *Func) *Frame {
	fn.calls++
	if w.depth > w.maxDepth {
		w.stop(stopDepth, "call depth limit in "+fn.name)
	}
	fr := &Frame{fn: fn, w: w, caller: w.frame, prev: -1}
	n := fn.nregs
	if w.sp+n > len(w.regs) {
		w.regs = make([]V, 1<<14+n)
		w.sp = 0
	}
	fr.r = w.regs[w.sp : w.sp+n : w.sp+n]
	for i := range fr.r {
		fr.r[i] = V{}
	}
	return fr
}

func (w *W) run(fr *Frame) V {
	regs, sp, frame, depth := w.regs, w.sp, w.frame, w.depth
	w.sp += fr.fn.nregs
	w.frame = fr
	w.depth++
	if fr.fn.defers {
		w.runDeferring(fr, depth+1)
	} else {
		fr.loop()
	}
	if &regs[0] == &w.regs[0] {
		w.sp = sp
	} else {
		w.regs, w.sp = regs, sp
	}
	w.frame = frame
	w.depth = depth
	return fr.result
}

func (w *W) runDeferring(fr *Frame, depth int) {
	for {
		regs, sp := w.regs, w.sp
		done := func() (done bool) {
			defer func() {
				if done {
					return
				}
				p := recover()
				gp, ok := p.(*GuestPanic)
				if !ok {
					panic(p)
				}
				if gp.exit {
					panic(p)
				}
				w.regs, w.sp = regs, sp
				w.frame = fr
				w.depth = depth
				fr.panicking = gp
				fr.runDefers()
				// recovered
				if fr.fn.recover < 0 {
					fr.next = -1
				} else {
					fr.cur = fr.fn.recover
					fr.prev = -1
					fr.next = -2
				}
			}()
			fr.loop()
			return true
		}()
		if done || fr.next == -1 {
			return
		}
	}
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					p := recover()
					gp, isG := p.(*GuestPanic)
					if !isG || gp.exit {
						panic(p)
					}
					fr.w.frame = fr
					fr.panicking = gp
				}
			}()
			if d.bi != nil {
				d.bi(d.args)
			} else {
				f := d.fn.o.(*FuncV)
				fr.w.call(f.fn, d.args, f.free)
			}
			ok = true
		}()
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
}

func (fr *Frame) loop() {
	w := fr.w
	blocks := fr.fn.blocks
	for {
		b := &blocks[fr.cur]
		if fr.phisDone {
			fr.phisDone = false
		} else if len(b.phis) > 0 {
			e := -1
			for i, p := range b.pre {
				if p == fr.prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = b.phis[0].edges[e].get(fr)
			} else {
				var tmp [8]V
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, b.phis[i].edges[e].get(fr))
				}
				for i := range b.phis {
					fr.r[b.phis[i].dst] = t[i]
				}
			}
		}
		for _, in := range b.ins {
			in(fr)
		}
		w.steps += int64(len(b.ins)) + 1
		if w.steps > w.stepLimit {
			w.stop(stopSteps, "step limit in "+fr.fn.name)
		}
		b.term(fr)
		if fr.next < 0 {
			return
		}
		fr.prev = fr.cur
		fr.cur = fr.next
	}
}

func (c *compiler) builtin(name string, cc *ssa.CallCommon) func(fr *Frame, a []V) V {
	var t0 types.Type
	if len(cc.Args) > 0 {
		t0 = cc.Args[0].Type()
	}
	switch name {
	case "len":
		switch u := t0.Underlying().(type) {
		case *types.Basic:
			return func(fr *Frame, a []V) V { return fr.w.strLen(a[0]) }
		case *types.Slice:
			return func(fr *Frame, a []V) V { return fr.w.sliceLen(a[0]) }
		case *types.Map:
			return func(fr *Frame, a []V) V {
				m := fr.w.resolve(a[0])
				if m.o == nil {
					return V{}
				}
				return intV(m.o.(*MapV).n)
			}
		case *types.Array:
			return func(fr *Frame, a []V) V { return intV(int(u.Len())) }
		case *types.Pointer:
			return func(fr *Frame, a []V) V { return intV(int(u.Elem().Underlying().(*types.Array).Len())) }
		}
	case "cap":
		if _, ok := t0.Underlying().(*types.Slice); ok {
			return func(fr *Frame, a []V) V { return intV(cap(fr.w.slice(a[0]))) }
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(cc.Args) == 1 {
			return func(fr *Frame, a []V) V { return a[0] }
		}
		fromStr := isString(cc.Args[1].Type())
		agg := false
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		return func(fr *Frame, a []V) V {
			w := fr.w
			base := w.resolve(a[0])
			s := w.slice(base)
			var add []V
			if fromStr {
				add = w.strBytes(a[1])
			} else {
				add = w.slice(a[1])
			}
			if len(add) == 0 {
				return base
			}
			n := len(s) + len(add)
			if n <= cap(s) {
				r := s[:n]
				for i := range add {
					w.store(&r[len(s)+i], add[i])
				}
				return V{o: &Slice{s: r}}
			}
			nc := cap(s) * 2
			if nc < n {
				nc = n
			}
			if nc < 4 {
				nc = 4
			}
			r := make([]V, n, nc)
			for i := range s {
				r[i] = copyV(s[i])
			}
			for i := range add {
				r[len(s)+i] = copyV(add[i])
			}
			if agg {
				ex := r[n:nc]
				for i := range ex {
					ex[i] = zeroV(et)
				}
			}
			return V{o: &Slice{s: r}}
		}
	case "copy":
		fromStr := isString(cc.Args[1].Type())
		return func(fr *Frame, a []V) V {
			w := fr.w
			d := w.slice(a[0])
			var s []V
			if fromStr {
				s = w.strBytes(a[1])
			} else {
				s = w.slice(a[1])
			}
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			tmp := make([]V, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyV(s[i])
			}
			for i := 0; i < n; i++ {
				w.store(&d[i], tmp[i])
			}
			return intV(n)
		}
	case "delete":
		return func(fr *Frame, a []V) V {
			m := fr.w.resolve(a[0])
			if m.o != nil {
				fr.w.mapDelete(m.o.(*MapV), a[1])
			}
			return V{}
		}
	case "clear":
		if _, ok := t0.Underlying().(*types.Map); ok {
			return func(fr *Frame, a []V) V {
				m := fr.w.resolve(a[0])
				if m.o == nil {
					return V{}
				}
				mm := m.o.(*MapV)
				for i := range mm.ent {
					if !mm.ent[i].del {
						fr.w.mapDelete(mm, mm.ent[i].k)
					}
				}
				return V{}
			}
		}
		et := t0.Underlying().(*types.Slice).Elem()
		return func(fr *Frame, a []V) V {
			for i, s := 0, fr.w.slice(a[0]); i < len(s); i++ {
				fr.w.store(&s[i], zeroV(et))
			}
			return V{}
		}
	case "print", "println":
		return func(fr *Frame, a []V) V { return V{} }
	case "min", "max":
		sw, sg, ok := scalarInfo(t0)
		if ok {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			return func(fr *Frame, a []V) V {
				w := fr.w
				r := a[0]
				for _, x := range a[1:] {
					var b V
					if x.o == nil && r.o == nil {
						b = w.intop(op, sw, sg, sg, x.n, r.n)
					} else {
						b = w.symop(op, t0, sw, sg, sw, sg, x, r)
					}
					if b.o == nil {
						if b.n != 0 {
							r = x
						}
					} else {
						r = w.termV(w.ts.ite(b.o.(*Term), w.term(x, sw), w.term(r, sw)), t0)
					}
				}
				return r
			}
		}
	case "recover":
		return func(fr *Frame, a []V) V {
			// fr is the deferred function; its caller the panicking frame
			cf := fr.caller
			if cf != nil && cf.panicking != nil {
				v := cf.panicking.val
				cf.panicking = nil
				return v
			}
			return V{}
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame, a []V) V {
			v := fr.w.resolve(a[0])
			if v.o == nil {
				fr.w.rtpanic("value method called using nil pointer")
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *Frame, a []V) V {
			w := fr.w
			n := w.concInt(a[1])
			if n == 0 {
				return V{}
			}
			p := w.ptr(a[0])
			return mkStr(unsafe.Slice(p, n))
		}
	case "StringData":
		return func(fr *Frame, a []V) V {
			b := fr.w.strBytes(a[0])
			if len(b) == 0 {
				return V{}
			}
			return V{o: &b[0]}
		}
	case "SliceData":
		return func(fr *Frame, a []V) V {
			s := fr.w.slice(a[0])
			if cap(s) == 0 {
				return V{}
			}
			return V{o: &s[:1][0]}
		}
	case "Slice":
		return func(fr *Frame, a []V) V {
			n := fr.w.concInt(a[1])
			if n == 0 {
				return V{}
			}
			return V{o: &Slice{s: unsafe.Slice(fr.w.ptr(a[0]), n)}}
		}
	case "close":
	}
	nm := name
	return func(fr *Frame, a []V) V { fr.w.unsupported("builtin " + nm); return V{} }
}

func (w *W) sliceLen(v V) V {
	switch x := v.o.(type) {
	case nil:
		return V{}
	case *Slice:
		return intV(len(x.s))
	}
	return w.lift(v, types.Typ[types.Int], w.sliceLen)
}

// pureBlock reports whether b only computes a scalar condition: executing it
// without need has no effect and cannot fail or split the path.
func pureBlock(b *ssa.BasicBlock) bool {
	n := 0
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.If, *ssa.Jump:
		case *ssa.BinOp:
			switch in.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if !plainScalar(in.X.Type()) || !plainScalar(in.Y.Type()) {
				return false
			}
			n++
		case *ssa.FieldAddr:
			// the only predecessor has just loaded through the same pointer
			if !loadedBefore(b, in.X) {
				return false
			}
			n++
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if f, ok := in.X.(*ssa.FieldAddr); ok && f.Block() == b && plainScalar(in.Type()) {
					n++
					continue
				}
				return false
			}
			if in.Op == token.ARROW || !plainScalar(in.X.Type()) {
				return false
			}
			n++
		case *ssa.Convert:
			if !plainScalar(in.X.Type()) || !plainScalar(in.Type()) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n <= 8
}

func loadedBefore(b *ssa.BasicBlock, x ssa.Value) bool {
	if len(b.Preds) != 1 {
		return false
	}
	for _, in := range b.Preds[0].Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if f, ok := u.X.(*ssa.FieldAddr); ok && f.X == x {
				return true
			}
		}
	}
	return false
}

func plainScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

type branchOut struct {
	target, from int
	g            *Term
}

// mergedBranch evaluates a short-circuit condition over one variable as a
// whole instead of splitting the path at each operand.
func (fr *Frame) mergedBranch(c *Term, t, e int) bool {
	w := fr.w
	blocks := fr.fn.blocks
	if !blocks[t].pure && !blocks[e].pure && t != e {
		return false
	}
	var buf [12]branchOut
	outs := buf[:0]
	work := 0
	var walk func(blk, from int, g *Term) bool
	walk = func(blk, from int, g *Term) bool {
		if w.dstat(g) == 0 {
			return true
		}
		b := &blocks[blk]
		if b.pure && len(b.phis) == 0 && work < 24 {
			work++
			for _, in := range b.ins {
				in(fr)
			}
			w.steps += int64(len(b.ins)) + 1
			if b.jump {
				return walk(b.t, blk, g)
			}
			v := b.cond.get(fr)
			x, ok := v.o.(*Term)
			if !ok {
				if v.o != nil {
					return false
				}
				if v.n != 0 {
					return walk(b.t, blk, g)
				}
				return walk(b.e, blk, g)
			}
			if x.v == c.v {
				return walk(b.t, blk, w.ts.and(g, x)) && walk(b.e, blk, w.ts.and(g, w.ts.not(x)))
			}
		}
		outs = append(outs, branchOut{blk, from, g})
		return len(outs) <= 24
	}
	if !walk(t, fr.cur, c) || !walk(e, fr.cur, w.ts.not(c)) {
		return false
	}
	// one decision per distinct target
	for len(outs) > 0 {
		tg := outs[0].target
		b := &blocks[tg]
		same := outs[:1:1]
		var rest []branchOut
		for _, o := range outs[1:] {
			if o.target == tg && (len(b.phis) == 0 || o.from == outs[0].from || scalarPhis(b)) {
				same = append(same, o)
			} else {
				rest = append(rest, o)
			}
		}
		g := same[0].g
		for _, o := range same[1:] {
			g = w.ts.or(g, o.g)
		}
		if len(rest) > 0 && !w.decide(g) {
			outs = rest
			continue
		}
		fr.next = tg
		fr.cur = same[0].from
		if len(b.phis) > 0 && len(same) > 1 {
			edge := func(from int) int {
				for i, p := range b.pre {
					if p == from {
						return i
					}
				}
				return -1
			}
			vals := make([]V, len(b.phis))
			for i := range b.phis {
				gs := make([]*Term, len(same))
				vs := make([]V, len(same))
				for j, o := range same {
					gs[j] = o.g
					vs[j] = b.phis[i].edges[edge(o.from)].get(fr)
				}
				vals[i] = w.merge(b.phis[i].typ, gs, vs)
			}
			for i := range b.phis {
				fr.r[b.phis[i].dst] = vals[i]
			}
			fr.phisDone = true
		}
		return true
	}
	w.unsupported("merged branch without outcome")
	return false
}

func scalarPhis(b *block) bool {
	for i := range b.phis {
		if !plainScalar(b.phis[i].typ) {
			return false
		}
	}
	return true
}
