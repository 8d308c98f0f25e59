package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

type nativeFn = func(w *W, a []V) V

var natives map[string]nativeFn

// fast natives: handle concrete arguments; others fall back to interpretation.
var fasts map[string]any

func tup(vs ...V) V { return V{o: &Tup{e: vs}} }

func noop(w *W, a []V) V { return V{} }

// ---- errors ----

func (w *W) stdType(pkg, name string) types.Type {
	p := w.eng.pkgs[pkg]
	if p == nil {
		w.unsupported("package " + pkg + " not loaded")
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

// newErr makes an error value with text s.
func (w *W) newErr(s V) V {
	t := types.NewPointer(w.stdType("errors", "errorString"))
	p := new(V)
	*p = V{o: &Agg{e: []V{s}}}
	return V{o: &Iface{t: w.rtype(t), v: V{o: p}}}
}

func (w *W) wrapErr(s V, inner V) V {
	t := types.NewPointer(w.stdType("fmt", "wrapError"))
	p := new(V)
	*p = V{o: &Agg{e: []V{s, inner}}}
	return V{o: &Iface{t: w.rtype(t), v: V{o: p}}}
}

func (w *W) runtimeError(msg string) V {
	return w.newErr(strV(msg))
}

func (w *W) ifaceSlice(v V) []V { return w.slice(v) }

func errorf(w *W, a []V) V {
	f := w.resolve(a[0])
	text, _ := f.o.(string)
	if strings.Contains(text, "%w") || strings.HasSuffix(text, ": %v") || strings.HasSuffix(text, ": %s") {
		// position of the verb among arguments
		n := 0
		for i := 0; i+1 < len(text); i++ {
			if text[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(text) && strings.IndexByte("+-# 0123456789.", text[j]) >= 0 {
				j++
			}
			if j >= len(text) {
				break
			}
			if text[j] == '%' {
				i = j
				continue
			}
			if text[j] == 'w' || j == len(text)-1 {
				args := w.slice(a[1])
				if n < len(args) {
					x := w.resolve(args[n])
					if i, ok := x.o.(*Iface); ok && i.t.method(nil, "Error") != nil {
						return w.wrapErr(strV(text), x)
					}
				}
			}
			n++
			i = j
		}
	}
	return w.newErr(strV(text))
}

func (w *W) errUnwrap(e *Iface) []V {
	if f := e.t.method(nil, "Unwrap"); f != nil {
		r := w.resolve(w.call(f, []V{e.v}, nil))
		if s, ok := r.o.(*Slice); ok {
			return s.s
		}
		if r.o != nil {
			return []V{r}
		}
	}
	return nil
}

func (w *W) errIs(e, target V) bool {
	e, target = w.resolve(e), w.resolve(target)
	if e.o == nil || target.o == nil {
		return e.o == nil && target.o == nil
	}
	x, y := e.o.(*Iface), target.o.(*Iface)
	if x.t == y.t && types.Comparable(x.t.t) && w.decide(w.eqT(x.t.t, x.v, y.v)) {
		return true
	}
	if f := x.t.method(nil, "Is"); f != nil {
		r := w.call(f, []V{x.v, target}, nil)
		if w.decide(w.term(r, 0)) {
			return true
		}
	}
	for _, u := range w.errUnwrap(x) {
		if w.errIs(u, target) {
			return true
		}
	}
	return false
}

func (w *W) errAs(e V, target V) bool {
	e = w.resolve(e)
	if e.o == nil {
		return false
	}
	x := e.o.(*Iface)
	t := w.iface(target)
	el := t.t.t.Underlying().(*types.Pointer).Elem()
	if it, ok := el.Underlying().(*types.Interface); ok {
		if w.implements(x.t, it) {
			w.store(w.ptr(t.v), e)
			return true
		}
	} else if w.rtype(el) == x.t {
		w.store(w.ptr(t.v), x.v)
		return true
	}
	for _, u := range w.errUnwrap(x) {
		if w.errAs(u, target) {
			return true
		}
	}
	return false
}

// ---- fmt ----

func (w *W) fmtArg(verb byte, plus, sharp bool, arg V) V {
	arg = w.resolve(arg)
	if arg.o == nil {
		if verb == 'v' || verb == 'T' {
			return strV("<nil>")
		}
		return strV("%!" + string(verb) + "(<nil>)")
	}
	i := arg.o.(*Iface)
	if verb == 'T' {
		return strV(typeName(i.t.t))
	}
	return w.fmtVal(i.t.t, i.v, verb, plus, sharp, 0, true)
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *W) cats(vs ...V) V {
	out := V{}
	for _, v := range vs {
		out = w.strop(tokADD, out, v)
	}
	return out
}

// callCatch calls a method; package fmt catches its panics.
func (w *W) callCatch(f *Func, recv V) (r V, pv *V) {
	regs, sp, frame, depth := w.regs, w.sp, w.frame, w.depth
	defer func() {
		if p := recover(); p != nil {
			gp, ok := p.(*GuestPanic)
			if !ok || gp.exit {
				panic(p)
			}
			w.regs, w.sp, w.frame, w.depth = regs, sp, frame, depth
			pv = &gp.val
		}
	}()
	return w.call(f, []V{recv}, nil), nil
}

// fmtVal follows the printing rules of package fmt.
func (w *W) fmtVal(t types.Type, v V, verb byte, plus, sharp bool, depth int, methods bool) V {
	if !isString(t) || w.rtype(t).method(nil, "Error") != nil || w.rtype(t).method(nil, "String") != nil {
		v = w.resolve(v)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		i := w.iface(v)
		if i == nil {
			if sharp && verb == 'v' {
				return strV(typeName(t) + "(nil)")
			}
			return strV("<nil>")
		}
		return w.fmtVal(i.t.t, i.v, verb, plus, sharp, depth+1, methods)
	}
	rt := w.rtype(t)
	if methods {
		names := []string{"Error", "String"}
		if sharp && verb == 'v' {
			names = []string{"GoString"}
		} else if strings.IndexByte("vsxXq", verb) < 0 {
			names = nil
		}
		if f := rt.method(nil, "Format"); f != nil && f.ssa.Signature.Params().Len() == 2 {
			w.unsupported("Format method of " + t.String())
		}
		for _, m := range names {
			if f := rt.method(nil, m); f != nil {
				sig := f.ssa.Signature
				if sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
					r, pv := w.callCatch(f, v)
					if pv != nil {
						if _, ok := t.Underlying().(*types.Pointer); ok && v.o == nil {
							return strV("<nil>")
						}
						return w.cats(strV("%!"+string(verb)+"(PANIC="+m+" method: "), w.fmtArg('v', false, false, *pv), strV(")"))
					}
					switch verb {
					case 'q':
						return strV(strconv.Quote(w.cstr(r)))
					case 'x', 'X':
						return strV(fmt.Sprintf("%"+string(verb), w.cstr(r)))
					}
					return r
				}
			}
		}
	}
	bad := func() V {
		return w.cats(strV("%!"+string(verb)+"("+typeName(t)+"="), w.fmtVal(t, v, 'v', false, false, depth, false), strV(")"))
	}
	if isString(t) {
		switch verb {
		case 'v', 's':
			if !sharp || verb == 's' {
				return v
			}
			return strV(strconv.Quote(w.cstr(v)))
		case 'q', 'x', 'X':
			f := "%"
			if sharp {
				f += "#"
			}
			return strV(fmt.Sprintf(f+string(verb), w.cstr(v)))
		}
		return bad()
	}
	if sw, sg, ok := scalarInfo(t); ok {
		x := w.conc(v, sw, sg)
		f := "%"
		if plus {
			f += "+"
		}
		if sharp {
			f += "#"
		}
		if sw == 0 {
			if verb != 'v' && verb != 't' {
				return bad()
			}
			return strV(strconv.FormatBool(x != 0))
		}
		if strings.IndexByte("vdboOxXcqU", verb) < 0 {
			return bad()
		}
		var h any = x
		if sg {
			h = int64(x)
			if sw == 32 && (verb == 'c' || verb == 'q' || verb == 'U') {
				h = rune(x)
			}
		}
		return strV(fmt.Sprintf(f+string(verb), h))
	}
	if isFloat(t) {
		if strings.IndexByte("vbgGxXfFeE", verb) < 0 {
			return bad()
		}
		f := "%"
		if plus {
			f += "+"
		}
		b := t.Underlying().(*types.Basic)
		if b.Kind() == types.Float32 {
			return strV(fmt.Sprintf(f+string(verb), float32(fl(b, v))))
		}
		return strV(fmt.Sprintf(f+string(verb), fl(b, v)))
	}
	if sharp && verb == 'v' {
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			w.unsupported("fmt %#v of " + t.String())
		}
	}
	list := func(et types.Type, es []V) V {
		out := strV("[")
		for i, e := range es {
			if i > 0 {
				out = w.cats(out, strV(" "))
			}
			out = w.cats(out, w.fmtVal(et, e, verb, plus, sharp, depth+1, methods))
		}
		return w.cats(out, strV("]"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		var et types.Type
		var es []V
		if a, ok := u.(*types.Array); ok {
			et, es = a.Elem(), v.o.(*Agg).e
		} else {
			et, es = u.(*types.Slice).Elem(), w.slice(v)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && strings.IndexByte("sqxX", verb) >= 0 {
			s := mkStr(append([]V(nil), es...))
			if verb == 's' {
				return s
			}
			return strV(fmt.Sprintf("%"+string(verb), w.cstr(s)))
		}
		return list(et, es)
	case *types.Struct:
		out := strV("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = w.cats(out, strV(" "))
			}
			f := u.Field(i)
			if plus {
				out = w.cats(out, strV(f.Name()+":"))
			}
			out = w.cats(out, w.fmtVal(f.Type(), v.o.(*Agg).e[i], verb, plus, sharp, depth+1, methods && f.Exported()))
		}
		return w.cats(out, strV("}"))
	case *types.Map:
		m, _ := v.o.(*MapV)
		out := strV("map[")
		if m != nil {
			type kv struct{ k, v V }
			var l []kv
			for i := range m.ent {
				if !m.ent[i].del {
					l = append(l, kv{m.ent[i].k, m.ent[i].v})
				}
			}
			if isString(u.Key()) {
				for i := range l {
					l[i].k = strV(w.cstr(l[i].k))
				}
				sort.Slice(l, func(i, j int) bool { return w.cstr(l[i].k) < w.cstr(l[j].k) })
			} else if _, sg, ok := scalarInfo(u.Key()); ok {
				sort.Slice(l, func(i, j int) bool {
					a, b := w.conc(l[i].k, 64, sg), w.conc(l[j].k, 64, sg)
					if sg {
						return int64(a) < int64(b)
					}
					return a < b
				})
			} else if len(l) > 1 {
				w.unsupported("fmt of " + t.String())
			}
			for i, e := range l {
				if i > 0 {
					out = w.cats(out, strV(" "))
				}
				out = w.cats(out, w.fmtVal(u.Key(), e.k, verb, plus, sharp, depth+1, methods), strV(":"), w.fmtVal(u.Elem(), e.v, verb, plus, sharp, depth+1, methods))
			}
		}
		return w.cats(out, strV("]"))
	case *types.Pointer:
		if v.o == nil {
			if verb == 'p' || verb == 'x' {
				return strV("0x0")
			}
			if verb == 'v' {
				return strV("<nil>")
			}
			return strV("%!" + string(verb) + "(" + typeName(t) + "=<nil>)")
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			if depth == 0 && verb != 'p' && !sharp {
				return w.cats(strV("&"), w.fmtVal(u.Elem(), *w.ptr(v), verb, plus, sharp, depth+1, methods))
			}
		}
	}
	w.unsupported("fmt verb " + string(verb) + " of " + t.String())
	return V{}
}

func (w *W) sprintf(format string, args []V) V {
	out := V{}
	cat := func(x V) {
		for _, y := range []V{x} {
			out = w.strop(tokADD, out, y)
		}
	}
	n := 0
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			cat(strV(format))
			break
		}
		cat(strV(format[:i]))
		j := i + 1
		plus, sharp, other := false, false, false
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			switch format[j] {
			case '+':
				plus = true
			case '#':
				sharp = true
			default:
				other = true
			}
			j++
		}
		if j >= len(format) {
			cat(strV("%!(NOVERB)"))
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		format = format[j+1:]
		if verb == '%' {
			cat(strV("%"))
			continue
		}
		if n >= len(args) {
			cat(strV("%!" + string(verb) + "(MISSING)"))
			continue
		}
		arg := args[n]
		n++
		if other {
			// flags and widths: concrete basic values only
			if strings.ContainsAny(spec, "*[") {
				w.unsupported("fmt " + spec)
			}
			s := w.fmtArg(verbFor(verb), plus, sharp, arg)
			a := w.resolve(arg)
			if ii, ok := a.o.(*Iface); ok {
				if sw, sg, ok := scalarInfo(ii.t.t); ok && sw > 0 && ii.t.method(nil, "String") == nil {
					x := w.conc(ii.v, sw, sg)
					if sg {
						cat(strV(fmt.Sprintf(spec, int64(x))))
					} else {
						cat(strV(fmt.Sprintf(spec, x)))
					}
					continue
				}
			}
			cat(strV(fmt.Sprintf(spec[:len(spec)-1]+"s", w.cstr(s))))
			continue
		}
		cat(w.fmtArg(verb, plus, sharp, arg))
	}
	return out
}

func verbFor(v byte) byte { return v }

func (w *W) sprint(args []V, ln bool) V {
	out := V{}
	prevStr := true
	for i := range args {
		a := w.resolve(args[i])
		isS := false
		if x, ok := a.o.(*Iface); ok {
			isS = isString(x.t.t)
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = w.strop(tokADD, out, strV(" "))
		}
		prevStr = isS
		out = w.strop(tokADD, out, w.fmtArg('v', false, false, a))
	}
	if ln {
		out = w.strop(tokADD, out, strV("\n"))
	}
	return out
}

func (w *W) writeTo(wr V, s V) V {
	i := w.iface(wr)
	if i == nil {
		w.rtpanic("invalid memory address or nil pointer dereference")
	}
	if i.t.t.String() == "*os.File" {
		return tup(V{}, V{})
	}
	f := i.t.method(nil, "Write")
	b := w.strBytes(s)
	return w.call(f, []V{i.v, {o: &Slice{s: append(make([]V, 0, len(b)), b...)}}}, nil)
}

// ---- host function adapter ----

// adapt wraps a host function of basic types; ok=false when an argument is symbolic.
func adapt(fn any) func(w *W, a []V, f *Func) (V, bool) {
	hv := reflect.ValueOf(fn)
	ht := hv.Type()
	ni := ht.NumIn()
	sliceOut := false
	for i := 0; i < ht.NumOut(); i++ {
		if ht.Out(i).Kind() == reflect.Slice {
			sliceOut = true
		}
	}
	_ = sliceOut
	var self func(w *W, a []V, f *Func) (V, bool)
	self = func(w *W, a []V, f *Func) (V, bool) {
		in := make([]reflect.Value, ni)
		for i := 0; i < ni; i++ {
			t := ht.In(i)
			v := a[i]
			if u, ok := v.o.(*Union); ok {
				if u.res > 0 {
					v = u.v[u.res-1]
				} else if t.Kind() == reflect.String && ht.NumOut() == 1 {
					rt := f.ssa.Signature.Results().At(0).Type()
					aa := append([]V(nil), a...)
					return w.lift(v, rt, func(x V) V {
						aa[i] = x
						bb := append([]V(nil), aa...)
						if r, ok := self(w, bb, f); ok {
							return r
						}
						return w.callBody(f, bb)
					}), true
				} else {
					v = w.resolve(v)
				}
			}
			switch t.Kind() {
			case reflect.String:
				if r, ok := v.o.(*Rope); ok {
					v = w.unrope(r)
				}
				switch s := v.o.(type) {
				case nil:
					in[i] = reflect.ValueOf("")
				case string:
					in[i] = reflect.ValueOf(s)
				default:
					return V{}, false
				}
			case reflect.Bool:
				if v.o != nil {
					return V{}, false
				}
				in[i] = reflect.ValueOf(v.n != 0)
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				if v.o != nil {
					return V{}, false
				}
				in[i] = reflect.New(t).Elem()
				in[i].SetInt(int64(v.n))
			case reflect.Uint8, reflect.Uint, reflect.Uint64, reflect.Uint32:
				if v.o != nil {
					return V{}, false
				}
				in[i] = reflect.New(t).Elem()
				in[i].SetUint(v.n)
			case reflect.Slice: // []string or []byte
				var s []V
				switch x := v.o.(type) {
				case nil:
				case *Slice:
					s = x.s
				default:
					return V{}, false
				}
				if t.Elem().Kind() == reflect.Uint8 {
					hb := make([]byte, len(s))
					for j := range s {
						if s[j].o != nil {
							return V{}, false
						}
						hb[j] = byte(s[j].n)
					}
					in[i] = reflect.ValueOf(hb)
					break
				}
				hs := make([]string, len(s))
				for j := range s {
					switch y := s[j].o.(type) {
					case nil:
					case string:
						hs[j] = y
					default:
						return V{}, false
					}
				}
				in[i] = reflect.ValueOf(hs)
			default:
				panic("adapt: " + t.String())
			}
		}
		out := hv.Call(in)
		rs := make([]V, len(out))
		for i, o := range out {
			switch o.Kind() {
			case reflect.String:
				rs[i] = strV(o.String())
			case reflect.Bool:
				rs[i] = boolV(o.Bool())
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				rs[i] = V{n: uint64(o.Int())}
			case reflect.Uint8, reflect.Uint, reflect.Uint64, reflect.Uint32:
				rs[i] = V{n: o.Uint()}
			case reflect.Float64:
				rs[i] = flV(types.Typ[types.Float64], o.Float())
			case reflect.Interface: // error: only the nil case is handled natively
				if !o.IsNil() {
					return V{}, false
				}
			case reflect.Slice:
				s := &Slice{s: make([]V, o.Len())}
				for j := range s.s {
					s.s[j] = strV(o.Index(j).String())
				}
				rs[i] = V{o: s}
			}
		}
		if len(rs) == 1 {
			return rs[0], true
		}
		return V{o: &Tup{e: rs}}, true
	}
	return self
}

func (w *W) callBody(f *Func, a []V) V {
	nf := w.newFrame(f)
	copy(nf.r, a)
	return w.run(nf)
}

// case mapping of symbolic ASCII strings
func (w *W) caseMap(v V, upper bool) (V, bool) {
	s, ok := v.o.(*SymStr)
	if !ok {
		return V{}, false
	}
	ts := w.ts
	out := make([]V, len(s.b))
	all := ts.tt
	for i := range s.b {
		b := s.b[i]
		if b.o == nil {
			if b.n >= 0x80 {
				return V{}, false
			}
			continue
		}
		all = ts.and(all, ts.bin(OUlt, b.o.(*Term), ts.con(8, 0x80)))
	}
	if !w.decide(all) {
		return V{}, false
	}
	lo, hi := uint64('a'), uint64('z')
	if !upper {
		lo, hi = 'A', 'Z'
	}
	for i := range s.b {
		b := s.b[i]
		if b.o == nil {
			x := b.n
			if x >= lo && x <= hi {
				x ^= 0x20
			}
			out[i] = V{n: x}
			continue
		}
		t := b.o.(*Term)
		in := ts.and(ts.not(ts.bin(OUlt, t, ts.con(8, lo))), ts.not(ts.bin(OUlt, ts.con(8, hi), t)))
		out[i] = w.termV(ts.ite(in, ts.bin(OBXor, t, ts.con(8, 0x20)), t), types.Typ[types.Uint8])
	}
	return mkStr(out), true
}

func caseNative(upper bool, host func(string) string) func(w *W, a []V, f *Func) (V, bool) {
	ad := adapt(host)
	return func(w *W, a []V, f *Func) (V, bool) {
		if s, ok := a[0].o.(*SymStr); ok {
			return w.caseMap(V{o: s}, upper)
		}
		return ad(w, a, f)
	}
}

// equalFold of strings with symbolic bytes: ASCII case mapping of both sides
func equalFoldNative() func(w *W, a []V, f *Func) (V, bool) {
	ad := adapt(strings.EqualFold)
	return func(w *W, a []V, f *Func) (V, bool) {
		_, s0 := a[0].o.(*SymStr)
		_, s1 := a[1].o.(*SymStr)
		if !s0 && !s1 {
			return ad(w, a, f)
		}
		up := func(v V) (V, bool) {
			if _, ok := v.o.(*SymStr); ok {
				return w.caseMap(v, true)
			}
			if s, ok := v.o.(string); ok {
				for i := 0; i < len(s); i++ {
					if s[i] >= 0x80 {
						return V{}, false
					}
				}
				return strV(strings.ToUpper(s)), true
			}
			return V{}, v.o == nil
		}
		x, ok := up(a[0])
		if !ok {
			return V{}, false
		}
		y, ok := up(a[1])
		if !ok {
			return V{}, false
		}
		return w.boolT(w.eqStr(x, y)), true
	}
}

// ---- strings.Builder: struct {addr *Builder; buf []byte}; buf holds a string value ----

func (w *W) builderCat(p V, s V) {
	q := w.ptr(p)
	b := &q.o.(*Agg).e[1]
	w.store(b, w.strop(tokADD, *b, s))
}

// ---- bytes.Buffer: struct {buf []byte; off int; lastRead readOp}; while it is only
// written and rendered, buf holds a LazyBuf; every other method materialises it ----

type LazyBuf struct{ s V }

func lazyBuf(w *W, p V) (*Agg, V, bool) {
	q := w.resolve(p)
	if q.o == nil {
		return nil, V{}, false
	}
	b := q.o.(*V).o.(*Agg)
	if b.e[1].o != nil || b.e[1].n != 0 || b.e[2].o != nil || b.e[2].n != 0 {
		return nil, V{}, false
	}
	switch x := b.e[0].o.(type) {
	case nil:
		return b, V{}, true
	case *LazyBuf:
		return b, x.s, true
	}
	return nil, V{}, false
}

func (w *W) lazyCat(a []V, s V, res V) (V, bool) {
	b, old, ok := lazyBuf(w, a[0])
	if !ok {
		return V{}, false
	}
	w.store(&b.e[0], V{o: &LazyBuf{w.strop(tokADD, old, s)}})
	return res, true
}

func bufferFasts() {
	type ff = func(w *W, a []V, f *Func) (V, bool)
	b := "(*bytes.Buffer)."
	fasts[b+"WriteString"] = ff(func(w *W, a []V, f *Func) (V, bool) { return w.lazyCat(a, a[1], tup(w.strLen(a[1]), V{})) })
	fasts[b+"Write"] = ff(func(w *W, a []V, f *Func) (V, bool) {
		s := w.slice(a[1])
		return w.lazyCat(a, mkStr(s), tup(intV(len(s)), V{}))
	})
	fasts[b+"WriteByte"] = ff(func(w *W, a []V, f *Func) (V, bool) { return w.lazyCat(a, mkStr([]V{a[1]}), V{}) })
	fasts[b+"WriteRune"] = ff(func(w *W, a []V, f *Func) (V, bool) {
		if _, _, ok := lazyBuf(w, a[0]); !ok {
			return V{}, false
		}
		s := w.encodeRune(a[1])
		return w.lazyCat(a, mkStr(s), tup(intV(len(s)), V{}))
	})
	fasts[b+"String"] = ff(func(w *W, a []V, f *Func) (V, bool) { _, s, ok := lazyBuf(w, a[0]); return s, ok })
	fasts[b+"Len"] = ff(func(w *W, a []V, f *Func) (V, bool) {
		_, s, ok := lazyBuf(w, a[0])
		if !ok {
			return V{}, false
		}
		return w.strLen(s), true
	})
	fasts[b+"Grow"] = ff(func(w *W, a []V, f *Func) (V, bool) { _, _, ok := lazyBuf(w, a[0]); return V{}, ok })
	fasts[b+"Reset"] = ff(func(w *W, a []V, f *Func) (V, bool) {
		b, _, ok := lazyBuf(w, a[0])
		if ok {
			w.store(&b.e[0], V{})
		}
		return V{}, ok
	})
	for _, m := range []string{"Bytes", "AvailableBuffer", "empty", "Cap", "Available", "Truncate", "tryGrowByReslice", "grow", "ReadFrom", "WriteTo", "Read", "Next", "ReadByte", "ReadRune", "UnreadRune", "UnreadByte", "ReadBytes", "readSlice", "ReadString", "Peek"} {
		fasts[b+m] = ff(func(w *W, a []V, f *Func) (V, bool) {
			if b, s, ok := lazyBuf(w, a[0]); ok && b.e[0].o != nil {
				w.store(&b.e[0], V{o: &Slice{s: append([]V(nil), w.strBytes(s)...)}})
			}
			return V{}, false
		})
	}
}

func utf8Width(w *W, v V) []V { return w.encodeRune(v) }

func init() {
	defer bufferFasts()
	fasts = map[string]any{
		"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
		"strings.Index": strings.Index, "strings.IndexRune": strings.IndexRune,
		"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.TrimSpace": strings.TrimSpace,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Split": strings.Split,
		"strings.Fields": strings.Fields, "strings.Repeat": strings.Repeat, "strings.Join": strings.Join, "strings.Count": strings.Count,
		"strings.Title": strings.Title, "strings.Compare": strings.Compare,
		"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
		"strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseBool": strconv.ParseBool,
		"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
		"strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool, "strconv.Unquote": strconv.Unquote,
		"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
		"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
		"unicode/utf8.ValidRune":     utf8.ValidRune,
		"internal/stringslite.Index": strings.Index, "internal/stringslite.HasPrefix": strings.HasPrefix,
		"strings.ToUpper": caseNative(true, strings.ToUpper), "strings.ToLower": caseNative(false, strings.ToLower),
		"strings.EqualFold": equalFoldNative(),
	}
	natives = map[string]nativeFn{
		"errors.New":                     func(w *W, a []V) V { return w.newErr(a[0]) },
		"golang.org/x/xerrors.New":       func(w *W, a []V) V { return w.newErr(a[0]) },
		"fmt.Errorf":                     errorf,
		"golang.org/x/xerrors.Errorf":    errorf,
		"errors.Is":                      func(w *W, a []V) V { return boolV(w.errIs(a[0], a[1])) },
		"golang.org/x/xerrors.Is":        func(w *W, a []V) V { return boolV(w.errIs(a[0], a[1])) },
		"errors.As":                      func(w *W, a []V) V { return boolV(w.errAs(a[0], a[1])) },
		"golang.org/x/xerrors.As":        func(w *W, a []V) V { return boolV(w.errAs(a[0], a[1])) },
		"fmt.Sprintf":                    func(w *W, a []V) V { return w.sprintf(w.cstr(a[0]), w.slice(a[1])) },
		"fmt.Sprint":                     func(w *W, a []V) V { return w.sprint(w.slice(a[0]), false) },
		"fmt.Sprintln":                   func(w *W, a []V) V { return w.sprint(w.slice(a[0]), true) },
		"fmt.Printf":                     func(w *W, a []V) V { return tup(V{}, V{}) },
		"fmt.Println":                    func(w *W, a []V) V { return tup(V{}, V{}) },
		"fmt.Print":                      func(w *W, a []V) V { return tup(V{}, V{}) },
		"fmt.Fprintf":                    func(w *W, a []V) V { return w.fprint(a[0], func() V { return w.sprintf(w.cstr(a[1]), w.slice(a[2])) }) },
		"fmt.Fprint":                     func(w *W, a []V) V { return w.fprint(a[0], func() V { return w.sprint(w.slice(a[1]), false) }) },
		"fmt.Fprintln":                   func(w *W, a []V) V { return w.fprint(a[0], func() V { return w.sprint(w.slice(a[1]), true) }) },
		"log.Println":                    noop,
		"log.Printf":                     noop,
		"log.Print":                      noop,
		"log.SetFlags":                   noop,
		"log.SetPrefix":                  noop,
		"log.Panic":                      logPanic,
		"log.Panicf":                     logPanic,
		"log.Panicln":                    logPanic,
		"log.Fatal":                      exitFn,
		"log.Fatalf":                     exitFn,
		"log.Fatalln":                    exitFn,
		"os.Exit":                        exitFn,
		"os.Getenv":                      noop,
		"(*sync.Mutex).Lock":             noop,
		"(*sync.Mutex).Unlock":           noop,
		"(*sync.Mutex).TryLock":          func(w *W, a []V) V { return V{n: 1} },
		"(*sync.RWMutex).Lock":           noop,
		"(*sync.RWMutex).Unlock":         noop,
		"(*sync.RWMutex).RLock":          noop,
		"(*sync.RWMutex).RUnlock":        noop,
		"(*sync.Once).Do":                onceDo,
		"(*sync.Pool).Get":               poolGet,
		"(*sync.Pool).Put":               poolPut,
		"(*sync.Map).Load":               syncMapLoad,
		"(*sync.Map).Store":              syncMapStore,
		"(*sync.Map).LoadOrStore":        syncMapLoadOrStore,
		"(*sync.Map).Delete":             syncMapDelete,
		"internal/abi.NoEscape":          func(w *W, a []V) V { return a[0] },
		"internal/abi.Escape":            func(w *W, a []V) V { return a[0] },
		"internal/race.ReadObjectPC":     noop,
		"runtime.KeepAlive":              noop,
		"runtime.GC":                     noop,
		"runtime.Gosched":                noop,
		"internal/bytealg.MakeNoZero":    func(w *W, a []V) V { return V{o: &Slice{s: make([]V, w.concInt(a[0]))}} },
		"internal/bytealg.IndexByte":     bIndexByte,
		"bytes.IndexByte":                bIndexByte,
		"internal/bytealg.Count":         bCount,
		"internal/bytealg.CountString":   func(w *W, a []V) V { return bCount(w, []V{{o: &Slice{s: w.strBytes(a[0])}}, a[1]}) },
		"internal/bytealg.Compare":       bCompare,
		"internal/bytealg.CompareString": func(w *W, a []V) V { return w.cmpStr(a[0], a[1]) },
		"bytes.Compare":                  bCompare,
		"internal/bytealg.Equal":         bEqual,
		"bytes.Equal":                    bEqual,
		"(*strings.Builder).WriteString": func(w *W, a []V) V { w.builderCat(a[0], a[1]); return tup(w.strLen(a[1]), V{}) },
		"(*strings.Builder).WriteByte":   func(w *W, a []V) V { w.builderCat(a[0], mkStr([]V{a[1]})); return V{} },
		"(*strings.Builder).WriteRune":   builderWriteRune,
		"(*strings.Builder).Write":       func(w *W, a []V) V { s := w.slice(a[1]); w.builderCat(a[0], mkStr(s)); return tup(intV(len(s)), V{}) },
		"(*strings.Builder).String":      func(w *W, a []V) V { return w.ptr(a[0]).o.(*Agg).e[1] },
		"(*strings.Builder).Len":         func(w *W, a []V) V { return w.strLen(w.ptr(a[0]).o.(*Agg).e[1]) },
		"(*strings.Builder).Cap":         func(w *W, a []V) V { return w.strLen(w.ptr(a[0]).o.(*Agg).e[1]) },
		"(*strings.Builder).Grow":        noop,
		"(*strings.Builder).Reset":       func(w *W, a []V) V { w.store(&w.ptr(a[0]).o.(*Agg).e[1], V{}); return V{} },
		"sort.Slice":                     sortSlice,
		"sort.SliceStable":               sortSlice,
		"strconv.AppendInt": func(w *W, a []V) V {
			return w.appendStr(a[0], strconv.FormatInt(int64(w.conc(a[1], 64, true)), w.concInt(a[2])))
		},
		"strconv.AppendUint": func(w *W, a []V) V {
			return w.appendStr(a[0], strconv.FormatUint(w.conc(a[1], 64, false), w.concInt(a[2])))
		},
		"strconv.AppendFloat": func(w *W, a []V) V {
			return w.appendStr(a[0], strconv.FormatFloat(fl(types.Typ[types.Float64], a[1]), byte(w.concInt(a[2])), w.concInt(a[3]), w.concInt(a[4])))
		},
		"strconv.FormatFloat": func(w *W, a []V) V {
			return strV(strconv.FormatFloat(fl(types.Typ[types.Float64], a[0]), byte(w.concInt(a[1])), w.concInt(a[2]), w.concInt(a[3])))
		},
		// times in UTC, the only location harnesses use
		"time.Date": func(w *W, a []V) V {
			i := func(k int) int { return w.concInt(a[k]) }
			t := time.Date(i(0), time.Month(i(1)), i(2), i(3), i(4), i(5), i(6), time.UTC)
			return V{o: &Agg{e: []V{{n: uint64(t.Nanosecond())}, {n: uint64(t.Unix() + 62135596800)}, {}}}}
		},
		"(time.Time).AppendFormat": func(w *W, a []V) V {
			return w.appendStr(a[1], w.timeOf(a[0]).Format(w.cstr(a[2])))
		},
		"(time.Time).Format":                       func(w *W, a []V) V { return strV(w.timeOf(a[0]).Format(w.cstr(a[1]))) },
		"math.Float64bits":                         func(w *W, a []V) V { return a[0] },
		"math.Float64frombits":                     func(w *W, a []V) V { return a[0] },
		"(*sync.Map).Range":                        syncMapRange,
		"(*sync.Map).LoadAndDelete":                syncMapLoadAndDelete,
		"(*sync.Map).Swap":                         syncMapSwap,
		"(*sync.WaitGroup).Add":                    noop,
		"(*sync.WaitGroup).Done":                   noop,
		"(*sync.WaitGroup).Wait":                   noop,
		"(*sync/atomic.Value).Load":                atomicPtrLoad,
		"(*sync/atomic.Value).Store":               atomicPtrStore,
		"(*sync/atomic.Value).Swap":                atomicPtrSwap,
		"(*sync/atomic.Value).CompareAndSwap":      atomicValueCAS,
		"(*sync/atomic.Pointer[T]).Load":           atomicPtrLoad,
		"(*sync/atomic.Pointer[T]).Store":          atomicPtrStore,
		"(*sync/atomic.Pointer[T]).Swap":           atomicPtrSwap,
		"(*sync/atomic.Pointer[T]).CompareAndSwap": atomicPointerCAS,
		"sync/atomic.SwapInt32":                    atomicSwap,
		"sync/atomic.SwapInt64":                    atomicSwap,
		"sync/atomic.SwapUint32":                   atomicSwap,
		"sync/atomic.SwapUint64":                   atomicSwap,
		"sync/atomic.CompareAndSwapInt32":          atomicCAS(types.Typ[types.Int32]),
		"sync/atomic.CompareAndSwapInt64":          atomicCAS(types.Typ[types.Int64]),
		"sync/atomic.CompareAndSwapUint32":         atomicCAS(types.Typ[types.Uint32]),
		"sync/atomic.CompareAndSwapUint64":         atomicCAS(types.Typ[types.Uint64]),
		"sync/atomic.LoadInt32":                    atomicLoad,
		"sync/atomic.LoadInt64":                    atomicLoad,
		"sync/atomic.LoadUint32":                   atomicLoad,
		"sync/atomic.LoadUint64":                   atomicLoad,
		"sync/atomic.StoreInt32":                   atomicStore,
		"sync/atomic.StoreInt64":                   atomicStore,
		"sync/atomic.StoreUint32":                  atomicStore,
		"sync/atomic.StoreUint64":                  atomicStore,
		"sync/atomic.AddInt32":                     func(w *W, a []V) V { return atomicAdd(w, a, types.Typ[types.Int32]) },
		"sync/atomic.AddInt64":                     func(w *W, a []V) V { return atomicAdd(w, a, types.Typ[types.Int64]) },
		"sync/atomic.AddUint32":                    func(w *W, a []V) V { return atomicAdd(w, a, types.Typ[types.Uint32]) },
		"sync/atomic.AddUint64":                    func(w *W, a []V) V { return atomicAdd(w, a, types.Typ[types.Uint64]) },

		// harness intrinsics
		"vh/vsym.Int":         vInt,
		"vh/vsym.Byte":        func(w *W, a []V) V { return V{o: w.newVar(8, 256, false)} },
		"vh/vsym.Bool":        func(w *W, a []V) V { v := w.newVar(8, 2, false); return w.boolT(w.ts.eq(v, w.ts.con(8, 1))) },
		"vh/vsym.Int64":       func(w *W, a []V) V { return V{o: w.newVar(64, 0, false)} },
		"vh/vsym.Assume":      vAssume,
		"vh/vsym.Check":       vCheck,
		"vh/vsym.Reach":       vReach,
		"vh/vsym.Observe":     func(w *W, a []V) V { w.obs = append(w.obs, a[0]); return V{} },
		"vh/vsym.Concrete":    func(w *W, a []V) V { return V{n: w.conc(a[0], 64, true)} },
		"vh/vsym.Split":       func(w *W, a []V) V { return boolV(w.decide(w.term(a[0], 0))) },
		"vh/vsym.Str":         func(w *W, a []V) V { return strV(w.cstr(a[0])) },
		"vh/vsym.Tier":        func(w *W, a []V) V { return intV(w.eng.cfg.Tier) },
		"vh/vsym.Symbolic":    func(w *W, a []V) V { return V{n: 1} },
		"vh/vsym.Freeze":      func(w *W, a []V) V { w.freezeOn(true); return V{} },
		"vh/vsym.Thaw":        func(w *W, a []V) V { w.freezeOn(false); return V{} },
		"vh/vsym.MapNondet":   func(w *W, a []V) V { w.mapNondet = a[0].n != 0; return V{} },
		"vh/vsym.Unsupported": func(w *W, a []V) V { w.unsupported("harness: " + w.cstr(a[0])); return V{} },
		"vh/vsym.Log":         noop,
		"vh/vsym.Shares":      sharesNative,
		"vh/vsym.Same":        sameNative(true),
		"vh/vsym.SamePos":     sameNative(false),
	}
	mf := func(f func(float64) float64) nativeFn {
		return func(w *W, a []V) V {
			if a[0].o != nil {
				w.unsupported("symbolic floating point")
			}
			return flV(types.Typ[types.Float64], f(fl(types.Typ[types.Float64], a[0])))
		}
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Exp": math.Exp, "Log": math.Log} {
		natives["math.arch"+n] = mf(f)
		natives["math."+n] = mf(f)
	}
	natives["internal/bytealg.IndexByteString"] = func(w *W, a []V) V {
		return bIndexByte(w, []V{{o: &Slice{s: w.strBytes(a[0])}}, a[1]})
	}
	natives["internal/stringslite.IndexByte"] = natives["internal/bytealg.IndexByteString"]
	natives["strings.IndexByte"] = natives["internal/bytealg.IndexByteString"]
	initReflect()
	for n, f := range reflNatives {
		natives[n] = f
	}

}

func (w *W) freezeOn(on bool) {
	if on && w.base == nil {
		w.computeBase()
	}
	w.freeze = on
}

func (w *W) fprint(wr V, f func() V) V {
	i := w.iface(wr)
	if i != nil && i.t.t.String() == "*os.File" {
		return tup(V{}, V{})
	}
	return w.writeTo(wr, f())
}

func logPanic(w *W, a []V) V {
	msg := "log.Panic"
	for i := range a {
		v := w.resolve(a[i])
		if s, ok := v.o.(string); ok {
			msg = s
			break
		}
		if s, ok := v.o.(*Slice); ok && len(s.s) > 0 {
			if x, ok := w.resolve(s.s[0]).o.(*Iface); ok {
				if t, ok := x.v.o.(string); ok {
					msg = t
				}
			}
			break
		}
	}
	panic(&GuestPanic{val: V{o: &Iface{t: w.rtype(types.Typ[types.String]), v: strV(msg)}}, msg: msg})
}

func exitFn(w *W, a []V) V {
	panic(&GuestPanic{exit: true, msg: "process exit in " + w.curFn()})
}

func builderWriteRune(w *W, a []V) V {
	b := w.encodeRune(a[1])
	w.builderCat(a[0], mkStr(b))
	return tup(intV(len(b)), V{})
}

func (w *W) appendStr(s V, t string) V {
	base := w.slice(s)
	if n := len(base) + len(t); n <= cap(base) {
		r := base[:n]
		for i := 0; i < len(t); i++ {
			w.store(&r[len(base)+i], V{n: uint64(t[i])})
		}
		return V{o: &Slice{s: r}}
	}
	r := make([]V, 0, len(base)+len(t))
	r = append(r, base...)
	for i := 0; i < len(t); i++ {
		r = append(r, V{n: uint64(t[i])})
	}
	return V{o: &Slice{s: r}}
}

func bIndexByte(w *W, a []V) V {
	s := w.slice(a[0])
	c := w.term(a[1], 8)
	for i := range s {
		if w.decideMaybe(w.ts.eq(w.term(s[i], 8), c)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func bCount(w *W, a []V) V {
	s := w.slice(a[0])
	c := w.term(a[1], 8)
	n := 0
	for i := range s {
		if w.decideMaybe(w.ts.eq(w.term(s[i], 8), c)) {
			n++
		}
	}
	return intV(n)
}

func bEqual(w *W, a []V) V {
	return w.boolT(w.eqStr(mkStr(w.slice(a[0])), mkStr(w.slice(a[1]))))
}

func bCompare(w *W, a []V) V { return w.cmpStr(mkStr(w.slice(a[0])), mkStr(w.slice(a[1]))) }

func (w *W) cmpStr(p, q V) V {
	if w.decide(w.eqStr(p, q)) {
		return intV(0)
	}
	if w.decide(w.term(w.strop(tokLSS, p, q), 0)) {
		return intV(-1)
	}
	return intV(1)
}

func onceDo(w *W, a []V) V {
	p := w.ptr(a[0])
	if w.onces == nil {
		w.onces = map[*V]bool{}
	}
	if w.onces[p] {
		return V{}
	}
	w.onces[p] = true
	if w.initDepth == 0 {
		w.trail = append(w.trail, trailEnt{f: func() { delete(w.onces, p) }})
	}
	// once-protected initialisation is not a shared write
	fz := w.freeze
	w.freeze = false
	w.callV(a[1])
	w.freeze = fz
	return V{}
}

// sharesNative looks for memory reachable from both arguments.
func sharesNative(w *W, a []V) V {
	type set struct {
		p map[*V]bool
		m map[*MapV]bool
	}
	var walk func(s *set, v V)
	cell := func(s *set, p *V) {
		if g, ok := p.o.(*Agg); ok && len(g.e) == 0 || s.p[p] {
			return
		}
		s.p[p] = true
		walk(s, *p)
	}
	walk = func(s *set, v V) {
		switch x := w.resolve(v).o.(type) {
		case *V:
			if x != nil {
				cell(s, x)
			}
		case *Agg:
			for i := range x.e {
				walk(s, x.e[i])
			}
		case *Slice:
			for i := range x.s {
				cell(s, &x.s[i])
			}
		case *Iface:
			walk(s, x.v)
		case *MapV:
			if x == nil || s.m[x] {
				return
			}
			s.m[x] = true
			for i := range x.ent {
				if !x.ent[i].del {
					walk(s, x.ent[i].k)
					walk(s, x.ent[i].v)
				}
			}
		}
	}
	var l [2]set
	for i := range l {
		l[i] = set{map[*V]bool{}, map[*MapV]bool{}}
		walk(&l[i], a[i])
	}
	for p := range l[1].p {
		if l[0].p[p] {
			return V{n: 1}
		}
	}
	for m := range l[1].m {
		if l[0].m[m] {
			return V{n: 1}
		}
	}
	return V{}
}

func poolGet(w *W, a []V) V {
	p := w.ptr(a[0])
	if s := w.pools[p]; len(s) > 0 {
		v := s[len(s)-1]
		w.pools[p] = s[:len(s)-1]
		return v
	}
	st := p.o.(*Agg)
	f := st.e[len(st.e)-1]
	if f.o == nil {
		return V{}
	}
	return w.callV(f)
}

func poolPut(w *W, a []V) V {
	p := w.ptr(a[0])
	if w.pools == nil {
		w.pools = map[*V][]V{}
	}
	w.pools[p] = append(w.pools[p], a[1])
	return V{}
}

func (w *W) smap(v V) *MapV {
	p := w.ptr(v)
	m := w.syncMaps[p]
	if m == nil {
		if w.syncMaps == nil {
			w.syncMaps = map[*V]*MapV{}
		}
		any := types.NewInterfaceType(nil, nil)
		m = newMap(types.NewMap(any, any))
		w.syncMaps[p] = m
	}
	return m
}

func syncMapLoad(w *W, a []V) V {
	m := w.smap(a[0])
	if i := w.mapFind(m, a[1]); i >= 0 {
		return tup(m.ent[i].v, V{n: 1})
	}
	return tup(V{}, V{})
}
func syncMapStore(w *W, a []V) V { w.mapSet(w.smap(a[0]), a[1], a[2]); return V{} }
func syncMapLoadOrStore(w *W, a []V) V {
	m := w.smap(a[0])
	if i := w.mapFind(m, a[1]); i >= 0 {
		return tup(m.ent[i].v, V{n: 1})
	}
	w.mapSet(m, a[1], a[2])
	return tup(a[2], V{})
}
func syncMapDelete(w *W, a []V) V { w.mapDelete(w.smap(a[0]), a[1]); return V{} }

func syncMapRange(w *W, a []V) V {
	m := w.smap(a[0])
	for i := 0; i < len(m.ent); i++ {
		if m.ent[i].del {
			continue
		}
		if r := w.callV(a[1], m.ent[i].k, m.ent[i].v); !w.decide(w.term(r, 0)) {
			break
		}
	}
	return V{}
}
func syncMapLoadAndDelete(w *W, a []V) V {
	r := syncMapLoad(w, a)
	w.mapDelete(w.smap(a[0]), a[1])
	return r
}
func syncMapSwap(w *W, a []V) V {
	r := syncMapLoad(w, a)
	w.mapSet(w.smap(a[0]), a[1], a[2])
	return r
}

// unfrozen performs a synchronised write.
func (w *W) unfrozen(f func()) {
	fz := w.freeze
	w.freeze = false
	f()
	w.freeze = fz
}

// typed atomics hold their value in the last field of a struct; methods of the
// generic pointer are natives, the others are interpreted down to these.
func atomicField(w *W, p V) *V {
	e := w.ptr(p).o.(*Agg).e
	return &e[len(e)-1]
}
func atomicPtrLoad(w *W, a []V) V { return *atomicField(w, a[0]) }
func atomicPtrStore(w *W, a []V) V {
	w.unfrozen(func() { w.store(atomicField(w, a[0]), a[1]) })
	return V{}
}
func atomicPtrSwap(w *W, a []V) V {
	old := *atomicField(w, a[0])
	atomicPtrStore(w, a)
	return old
}
func atomicValueCAS(w *W, a []V) V {
	old := w.resolve(*atomicField(w, a[0]))
	want := w.resolve(a[1])
	same := old.o == want.o && old.n == want.n
	if x, ok := old.o.(*Iface); ok {
		if y, ok := want.o.(*Iface); ok {
			same = x.t == y.t && w.decide(w.eqT(x.t.t, x.v, y.v))
		}
	}
	if same {
		atomicPtrStore(w, []V{a[0], a[2]})
	}
	return boolV(same)
}
func atomicPointerCAS(w *W, a []V) V {
	old, want := w.resolve(*atomicField(w, a[0])), w.resolve(a[1])
	same := old.o == want.o
	if same {
		atomicPtrStore(w, []V{a[0], a[2]})
	}
	return boolV(same)
}
func atomicSwap(w *W, a []V) V {
	old := *w.ptr(a[0])
	atomicStore(w, a)
	return old
}
func atomicCAS(t types.Type) nativeFn {
	return func(w *W, a []V) V {
		p := w.ptr(a[0])
		if w.decide(w.eqT(t, *p, a[1])) {
			w.unfrozen(func() { w.store(p, a[2]) })
			return boolV(true)
		}
		return boolV(false)
	}
}

func atomicLoad(w *W, a []V) V { return *w.ptr(a[0]) }
func atomicStore(w *W, a []V) V {
	fz := w.freeze
	w.freeze = false
	w.store(w.ptr(a[0]), a[1])
	w.freeze = fz
	return V{}
}
func atomicAdd(w *W, a []V, t types.Type) V {
	p := w.ptr(a[0])
	sw, sg, _ := scalarInfo(t)
	var r V
	if p.o == nil && a[1].o == nil {
		r = V{n: norm(sw, sg, p.n+a[1].n)}
	} else {
		r = w.termV(w.ts.bin(OAdd, w.term(*p, sw), w.term(a[1], sw)), t)
	}
	return atomicRet(w, p, r)
}
func atomicRet(w *W, p *V, r V) V {
	fz := w.freeze
	w.freeze = false
	w.store(p, r)
	w.freeze = fz
	return r
}

func sortSlice(w *W, a []V) V {
	i := w.iface(a[0])
	s := w.slice(i.v)
	less := a[1]
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			r := w.callV(less, intV(j), intV(j-1))
			if !w.decide(w.term(r, 0)) {
				break
			}
			x, y := copyV(s[j]), copyV(s[j-1])
			w.store(&s[j], y)
			w.store(&s[j-1], x)
		}
	}
	return V{}
}

// ---- harness intrinsics ----

func vInt(w *W, a []V) V {
	lo, hi := int64(a[0].n), int64(a[1].n)
	if a[0].o != nil || a[1].o != nil {
		w.unsupported("symbolic bounds of vsym.Int")
	}
	if hi < lo {
		w.stop(stopAssume, "empty range")
	}
	n := hi - lo + 1
	if n > 1<<12 {
		w.unsupported("vsym.Int range too large")
	}
	width := uint8(8)
	if n > 256 {
		width = 16
	}
	v := w.newVar(width, int(n), false)
	ts := w.ts
	t := ts.zext(v, 64)
	if lo != 0 {
		t = ts.bin(OAdd, t, ts.con(64, uint64(lo)))
	}
	return w.termV(t, types.Typ[types.Int])
}

func vAssume(w *W, a []V) V {
	v := a[0]
	if v.o == nil {
		if v.n == 0 {
			w.stop(stopAssume, "assume")
		}
		return V{}
	}
	c := v.o.(*Term)
	switch w.dstat(c) {
	case 2:
		return V{}
	case 0:
		w.stop(stopAssume, "assume")
	}
	if w.pcMulti || c.v == nil {
		r, _ := w.sol.check(w.pc, c, nil)
		switch r {
		case unsat:
			w.stop(stopAssume, "assume")
		case unknown:
			w.stop(stopUnknown, "solver gave no answer at an assumption")
		}
	}
	w.assumeT(c)
	return V{}
}

func vCheck(w *W, a []V) V {
	key := w.cstr(a[1])
	w.asserts++
	v := a[0]
	if v.o == nil {
		if v.n == 0 {
			in, r := w.model(nil)
			if r == sat {
				w.report("assert", key, "", in)
			} else if r == unknown {
				w.stop(stopUnknown, "solver gave no answer at a violated assertion")
			}
		}
		return V{}
	}
	c := v.o.(*Term)
	nc := w.ts.not(c)
	w.st.SymAsserts++
	in, r := w.model(nc)
	switch r {
	case unknown:
		w.stop(stopUnknown, "solver gave no answer at an assertion")
	case sat:
		w.report("assert", key, "", in)
		r2, _ := w.sol.check(w.pc, c, nil)
		if r2 != sat {
			w.stop(stopAssume, "after violated assertion")
		}
		w.assumeT(c)
	}
	return V{}
}

func vReach(w *W, a []V) V {
	l := w.cstr(a[0])
	if w.reached == nil {
		w.reached = map[string]bool{}
	}
	w.reached[l] = true
	return V{}
}

// timeOf is the concrete UTC time a time.Time holds.
func (w *W) timeOf(v V) time.Time {
	e := v.o.(*Agg).e
	wall, ext := uint64(w.conc(e[0], 64, false)), int64(w.conc(e[1], 64, true))
	if e[2].o != nil || wall>>63 != 0 {
		w.unsupported("time with a location")
	}
	return time.Unix(ext-62135596800, int64(wall&(1<<30-1))).UTC()
}
