package main

import (
	"go/token"
	"go/types"
)

const tokADD = token.ADD
const tokLSS = token.LSS

// RV is the engine's reflect.Value.
type RV struct {
	t    types.Type
	v    V  // value when not addressable
	addr *V // storage when addressable
	ro   bool
}

func (r *RV) get() V {
	if r.addr != nil {
		return copyV(*r.addr)
	}
	return r.v
}

func rv(w *W, v V) *RV {
	v = w.resolve(v)
	if v.o == nil {
		return nil
	}
	return v.o.(*RV)
}

func mustRV(w *W, v V, m string) *RV {
	r := rv(w, v)
	if r == nil {
		w.reflPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
	return r
}

func (w *W) reflPanic(s string) {
	panic(&GuestPanic{val: V{o: &Iface{t: w.rtype(types.Typ[types.String]), v: strV(s)}}, msg: s})
}

func rvV(r *RV) V { return V{o: r} }

// kind numbers of package reflect
func rkind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (w *W) rtypeIface(t types.Type) V {
	rt := w.rtype(t)
	p := types.NewPointer(w.stdType("reflect", "rtype"))
	return V{o: &Iface{t: w.rtype(p), v: V{o: rt}}}
}

func tOf(w *W, v V) types.Type {
	v = w.resolve(v)
	switch x := v.o.(type) {
	case *RType:
		return x.t
	case *Iface:
		return x.v.o.(*RType).t
	}
	w.rtpanic("invalid memory address or nil pointer dereference")
	return nil
}

func (w *W) rvElem(r *RV) *RV {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		v := w.resolve(r.get())
		if v.o == nil {
			return nil
		}
		return &RV{t: u.Elem(), addr: v.o.(*V)}
	case *types.Interface:
		i := w.iface(r.get())
		if i == nil {
			return nil
		}
		return &RV{t: i.t.t, v: i.v}
	}
	w.reflPanic("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
	return nil
}

func optRV(r *RV) V {
	if r == nil {
		return V{}
	}
	return rvV(r)
}

// assignable value of x for storage type t
func (w *W) rvAssign(x *RV, t types.Type) V {
	v := x.get()
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return v
		}
		if !types.AssignableTo(x.t, t) {
			w.reflPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + t.String())
		}
		return V{o: &Iface{t: w.rtype(x.t), v: v}}
	}
	if !types.Identical(x.t, t) {
		if !types.AssignableTo(x.t, t) {
			w.reflPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + t.String())
		}
	}
	return v
}

func (w *W) rvField(r *RV, i int) *RV {
	st := r.t.Underlying().(*types.Struct)
	f := st.Field(i)
	ro := r.ro || !f.Exported()
	if r.addr != nil {
		return &RV{t: f.Type(), addr: &r.addr.o.(*Agg).e[i], ro: ro}
	}
	return &RV{t: f.Type(), v: r.v.o.(*Agg).e[i], ro: ro}
}

func (w *W) rvSet(r *RV, v V) {
	if r.addr == nil || r.ro {
		w.reflPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	w.store(r.addr, v)
}

// fieldByName finds a field of a struct type, exported or not, promoted or not.
func fieldByName(t types.Type, name string) (*types.Var, []int) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i), []int{i}
		}
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return v, idx
	}
	return nil, nil
}

func (w *W) rvAppend(s, vs []V, et types.Type) V {
	n := len(s) + len(vs)
	if n <= cap(s) {
		t := s[:n]
		for i := range vs {
			w.store(&t[len(s)+i], vs[i])
		}
		return V{o: &Slice{s: t}}
	}
	nc := 2 * cap(s)
	if nc < n {
		nc = n
	}
	t := makeV(et, nc)[:n]
	for i := range s {
		t[i] = copyV(s[i])
	}
	for i := range vs {
		t[len(s)+i] = copyV(vs[i])
	}
	return V{o: &Slice{s: t}}
}

func (w *W) rvElems(r *RV) ([]V, types.Type) {
	switch u := r.t.Underlying().(type) {
	case *types.Slice:
		return w.slice(r.get()), u.Elem()
	case *types.Array:
		if r.addr != nil {
			return r.addr.o.(*Agg).e, u.Elem()
		}
		return r.v.o.(*Agg).e, u.Elem()
	}
	w.reflPanic("reflect: not a slice: " + r.t.String())
	return nil, nil
}

// isPos: the source position type of the library
func isPos(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Pos" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/akito0107/xsqlparser/sqltoken"
}

func resolved(v V) V {
	for {
		u, ok := v.o.(*Union)
		if !ok || u.res == 0 {
			return v
		}
		v = u.v[u.res-1]
	}
}

// same is tree equality with nil and empty lists equal, with or without
// source positions.
func (w *W) same(t types.Type, a, b V, nopos bool) *Term {
	ts := w.ts
	a, b = resolved(a), resolved(b)
	ua, _ := a.o.(*Union)
	ub, _ := b.o.(*Union)
	if ua == nil && ub != nil {
		a, b, ua, ub = b, a, ub, ua
	}
	if ua != nil {
		if ua == ub {
			return ts.tt
		}
		r := ts.ff
		for i := range ua.g {
			if !w.maybe(ua.g[i]) {
				continue
			}
			y := b
			if ub != nil && len(ub.g) == len(ua.g) && ub.g[i] == ua.g[i] {
				y = ub.v[i]
			}
			r = ts.or(r, ts.and(ua.g[i], w.same(t, ua.v[i], y, nopos)))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.o == nil || b.o == nil {
			return ts.boolc(a.o == nil && b.o == nil)
		}
		if sameV(a, b) {
			return ts.tt
		}
		return w.same(u.Elem(), *a.o.(*V), *b.o.(*V), nopos)
	case *types.Interface:
		x, y := w.iface(a), w.iface(b)
		if x == nil || y == nil {
			return ts.boolc(x == nil && y == nil)
		}
		if x.t != y.t {
			return ts.ff
		}
		return w.same(x.t.t, x.v, y.v, nopos)
	case *types.Slice:
		x, y := w.slice(a), w.slice(b)
		if len(x) != len(y) {
			return ts.ff
		}
		r := ts.tt
		for i := range x {
			if r = ts.and(r, w.same(u.Elem(), x[i], y[i], nopos)); r == ts.ff {
				return r
			}
		}
		return r
	case *types.Struct:
		if nopos && isPos(t) {
			return ts.tt
		}
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := ts.tt
		for i := range x.e {
			if r = ts.and(r, w.same(u.Field(i).Type(), x.e[i], y.e[i], nopos)); r == ts.ff {
				return r
			}
		}
		return r
	}
	return w.deepEqual(t, a, b, map[[2]any]bool{})
}

func sameNative(nopos bool) func(w *W, a []V) V {
	return func(w *W, a []V) V {
		x, y := w.iface(a[0]), w.iface(a[1])
		if x == nil || y == nil {
			return boolV(x == nil && y == nil)
		}
		if x.t != y.t {
			return V{}
		}
		return w.boolT(w.same(x.t.t, x.v, y.v, nopos))
	}
}

func (w *W) deepEqual(t types.Type, a, b V, seen map[[2]any]bool) *Term {
	a, b = w.resolve(a), w.resolve(b)
	ts := w.ts
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a.o == nil || b.o == nil {
			return ts.boolc(a.o == nil && b.o == nil)
		}
		if sameV(a, b) {
			return ts.tt
		}
		k := [2]any{a.o, b.o}
		if seen[k] {
			return ts.tt
		}
		seen[k] = true
		return w.deepEqual(u.Elem(), *a.o.(*V), *b.o.(*V), seen)
	case *types.Interface:
		x, y := w.iface(a), w.iface(b)
		if x == nil || y == nil {
			return ts.boolc(x == nil && y == nil)
		}
		if x.t != y.t {
			return ts.ff
		}
		return w.deepEqual(x.t.t, x.v, y.v, seen)
	case *types.Slice:
		if (a.o == nil) != (b.o == nil) {
			return ts.ff
		}
		x, y := w.slice(a), w.slice(b)
		if len(x) != len(y) {
			return ts.ff
		}
		r := ts.tt
		for i := range x {
			r = ts.and(r, w.deepEqual(u.Elem(), x[i], y[i], seen))
			if r == ts.ff {
				return r
			}
		}
		return r
	case *types.Struct:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := ts.tt
		for i := range x.e {
			r = ts.and(r, w.deepEqual(u.Field(i).Type(), x.e[i], y.e[i], seen))
			if r == ts.ff {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.o.(*Agg), b.o.(*Agg)
		r := ts.tt
		for i := range x.e {
			r = ts.and(r, w.deepEqual(u.Elem(), x.e[i], y.e[i], seen))
		}
		return r
	case *types.Map:
		if (a.o == nil) != (b.o == nil) {
			return ts.ff
		}
		if a.o == nil {
			return ts.tt
		}
		x, y := a.o.(*MapV), b.o.(*MapV)
		if x.n != y.n {
			return ts.ff
		}
		r := ts.tt
		for i := range x.ent {
			if x.ent[i].del {
				continue
			}
			j := w.mapFind(y, x.ent[i].k)
			if j < 0 {
				return ts.ff
			}
			r = ts.and(r, w.deepEqual(u.Elem(), x.ent[i].v, y.ent[j].v, seen))
		}
		return r
	case *types.Signature:
		return ts.boolc(a.o == nil && b.o == nil)
	}
	return w.eqT(t, a, b)
}

var reflNatives map[string]nativeFn

func initReflect() {
	named := func(t types.Type) string {
		switch t := types.Unalias(t).(type) {
		case *types.Named:
			return t.Obj().Name()
		case *types.Basic:
			return t.Name()
		}
		return ""
	}
	structField := func(w *W, f *types.Var, i int) V {
		// reflect.StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
		pk := ""
		if !f.Exported() && f.Pkg() != nil {
			pk = f.Pkg().Path()
		}
		return V{o: &Agg{e: []V{strV(f.Name()), strV(pk), w.rtypeIface(f.Type()), {}, {}, {o: &Slice{s: []V{intV(i)}}}, boolV(f.Embedded())}}}
	}
	reflNatives = map[string]nativeFn{
		"reflect.ValueOf": func(w *W, a []V) V {
			i := w.iface(a[0])
			if i == nil {
				return V{}
			}
			return rvV(&RV{t: i.t.t, v: i.v})
		},
		"reflect.TypeOf": func(w *W, a []V) V {
			i := w.iface(a[0])
			if i == nil {
				return V{}
			}
			return w.rtypeIface(i.t.t)
		},
		"reflect.Indirect": func(w *W, a []V) V {
			r := rv(w, a[0])
			if r == nil {
				return V{}
			}
			if _, ok := r.t.Underlying().(*types.Pointer); !ok {
				return a[0]
			}
			return optRV(w.rvElem(r))
		},
		"reflect.New": func(w *W, a []V) V {
			t := tOf(w, a[0])
			p := new(V)
			*p = zeroV(t)
			return rvV(&RV{t: types.NewPointer(t), v: V{o: p}})
		},
		"reflect.Zero": func(w *W, a []V) V {
			t := tOf(w, a[0])
			return rvV(&RV{t: t, v: zeroV(t)})
		},
		"reflect.MakeSlice": func(w *W, a []V) V {
			t := tOf(w, a[0])
			n, c := w.concInt(a[1]), w.concInt(a[2])
			return rvV(&RV{t: t, v: V{o: &Slice{s: makeV(t.Underlying().(*types.Slice).Elem(), c)[:n]}}})
		},
		"reflect.Append": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Append")
			s, et := w.rvElems(r)
			xs := w.slice(a[1])
			vs := make([]V, len(xs))
			for i := range xs {
				vs[i] = w.rvAssign(mustRV(w, xs[i], "Append"), et)
			}
			return rvV(&RV{t: r.t, v: w.rvAppend(s, vs, et)})
		},
		"reflect.Copy": func(w *W, a []V) V {
			d, _ := w.rvElems(mustRV(w, a[0], "Copy"))
			s, _ := w.rvElems(mustRV(w, a[1], "Copy"))
			n := min(len(d), len(s))
			tmp := make([]V, n)
			for i := range tmp {
				tmp[i] = copyV(s[i])
			}
			for i := range tmp {
				w.store(&d[i], tmp[i])
			}
			return intV(n)
		},
		"reflect.DeepEqual": func(w *W, a []V) V {
			x, y := w.iface(a[0]), w.iface(a[1])
			if x == nil || y == nil {
				return boolV(x == nil && y == nil)
			}
			if x.t != y.t {
				return V{}
			}
			return w.boolT(w.deepEqual(x.t.t, x.v, y.v, map[[2]any]bool{}))
		},
		"(reflect.Value).Kind": func(w *W, a []V) V {
			r := rv(w, a[0])
			if r == nil {
				return V{}
			}
			return intV(rkind(r.t))
		},
		"(reflect.Value).IsValid": func(w *W, a []V) V { return boolV(rv(w, a[0]) != nil) },
		"(reflect.Value).Type":    func(w *W, a []V) V { return w.rtypeIface(mustRV(w, a[0], "Type").t) },
		"(reflect.Value).Elem":    func(w *W, a []V) V { return optRV(w.rvElem(mustRV(w, a[0], "Elem"))) },
		"(reflect.Value).NumField": func(w *W, a []V) V {
			return intV(mustRV(w, a[0], "NumField").t.Underlying().(*types.Struct).NumFields())
		},
		"(reflect.Value).Field": func(w *W, a []V) V {
			return rvV(w.rvField(mustRV(w, a[0], "Field"), w.concInt(a[1])))
		},
		"(reflect.Value).FieldByName": func(w *W, a []V) V {
			r := mustRV(w, a[0], "FieldByName")
			st, ok := r.t.Underlying().(*types.Struct)
			if !ok {
				w.reflPanic("reflect: call of reflect.Value.FieldByName on " + r.t.String() + " Value")
			}
			name := w.cstr(a[1])
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return rvV(w.rvField(r, i))
				}
			}
			// promoted fields
			if f, idx := fieldByName(r.t, name); f != nil {
				cur := r
				for k, i := range idx {
					if k > 0 {
						if _, ok := cur.t.Underlying().(*types.Pointer); ok {
							cur = w.rvElem(cur)
							if cur == nil {
								w.rtpanic("invalid memory address or nil pointer dereference")
							}
						}
					}
					cur = w.rvField(cur, i)
				}
				return rvV(cur)
			}
			return V{}
		},
		"(reflect.Value).Len": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Len")
			if isString(r.t) {
				return w.strLen(r.get())
			}
			if _, ok := r.t.Underlying().(*types.Map); ok {
				m := w.resolve(r.get())
				if m.o == nil {
					return V{}
				}
				return intV(m.o.(*MapV).n)
			}
			s, _ := w.rvElems(r)
			return intV(len(s))
		},
		"(reflect.Value).Cap": func(w *W, a []V) V { s, _ := w.rvElems(mustRV(w, a[0], "Cap")); return intV(cap(s)) },
		"(reflect.Value).Index": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Index")
			s, et := w.rvElems(r)
			i := w.concInt(a[1])
			if i < 0 || i >= len(s) {
				w.reflPanic("reflect: slice index out of range")
			}
			return rvV(&RV{t: et, addr: &s[i], ro: r.ro})
		},
		"(reflect.Value).Slice": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Slice")
			s, et := w.rvElems(r)
			i, j := w.concInt(a[1]), w.concInt(a[2])
			if i < 0 || j < i || j > cap(s) {
				w.reflPanic("reflect.Value.Slice: slice index out of bounds")
			}
			t := r.t
			if _, ok := t.Underlying().(*types.Array); ok {
				t = types.NewSlice(et)
			}
			return rvV(&RV{t: t, v: V{o: &Slice{s: s[i:j]}}})
		},
		"(reflect.Value).SetLen": func(w *W, a []V) V {
			r := mustRV(w, a[0], "SetLen")
			s, _ := w.rvElems(r)
			n := w.concInt(a[1])
			if n < 0 || n > cap(s) {
				w.reflPanic("reflect: slice length out of range in SetLen")
			}
			w.rvSet(r, V{o: &Slice{s: s[:n]}})
			return V{}
		},
		"(reflect.Value).Set": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Set")
			x := mustRV(w, a[1], "Set")
			w.rvSet(r, w.rvAssign(x, r.t))
			return V{}
		},
		"(reflect.Value).SetString":    func(w *W, a []V) V { w.rvSet(mustRV(w, a[0], "SetString"), a[1]); return V{} },
		"(reflect.Value).SetInt":       func(w *W, a []V) V { w.rvSet(mustRV(w, a[0], "SetInt"), a[1]); return V{} },
		"(reflect.Value).SetUint":      func(w *W, a []V) V { w.rvSet(mustRV(w, a[0], "SetUint"), a[1]); return V{} },
		"(reflect.Value).SetBool":      func(w *W, a []V) V { w.rvSet(mustRV(w, a[0], "SetBool"), a[1]); return V{} },
		"(reflect.Value).CanSet":       func(w *W, a []V) V { r := rv(w, a[0]); return boolV(r != nil && r.addr != nil && !r.ro) },
		"(reflect.Value).CanAddr":      func(w *W, a []V) V { r := rv(w, a[0]); return boolV(r != nil && r.addr != nil) },
		"(reflect.Value).CanInterface": func(w *W, a []V) V { r := rv(w, a[0]); return boolV(r != nil && !r.ro) },
		"(reflect.Value).Addr": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Addr")
			if r.addr == nil {
				w.reflPanic("reflect.Value.Addr of unaddressable value")
			}
			return rvV(&RV{t: types.NewPointer(r.t), v: V{o: r.addr}})
		},
		"(reflect.Value).Pointer": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Pointer")
			v := w.resolve(r.get())
			if v.o == nil {
				return V{}
			}
			return V{o: v.o}
		},
		"(reflect.Value).UnsafePointer": func(w *W, a []V) V { return w.resolve(mustRV(w, a[0], "UnsafePointer").get()) },
		"(reflect.Value).IsNil": func(w *W, a []V) V {
			r := mustRV(w, a[0], "IsNil")
			switch r.t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
				return boolV(w.resolve(r.get()).o == nil)
			}
			w.reflPanic("reflect: call of reflect.Value.IsNil on " + r.t.String() + " Value")
			return V{}
		},
		"(reflect.Value).IsZero": func(w *W, a []V) V {
			r := mustRV(w, a[0], "IsZero")
			return w.boolT(w.deepEqual(r.t, r.get(), zeroV(r.t), map[[2]any]bool{}))
		},
		"(reflect.Value).Interface": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Interface")
			if r.ro {
				w.reflPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}
			v := r.get()
			if _, ok := r.t.Underlying().(*types.Interface); ok {
				return v
			}
			return V{o: &Iface{t: w.rtype(r.t), v: v}}
		},
		"(reflect.Value).String": func(w *W, a []V) V {
			r := rv(w, a[0])
			if r == nil {
				return strV("<invalid Value>")
			}
			if isString(r.t) {
				return r.get()
			}
			return strV("<" + r.t.String() + " Value>")
		},
		"(reflect.Value).Int":   func(w *W, a []V) V { return mustRV(w, a[0], "Int").get() },
		"(reflect.Value).Uint":  func(w *W, a []V) V { return mustRV(w, a[0], "Uint").get() },
		"(reflect.Value).Bool":  func(w *W, a []V) V { return mustRV(w, a[0], "Bool").get() },
		"(reflect.Value).Float": func(w *W, a []V) V { return mustRV(w, a[0], "Float").get() },
		"(reflect.Value).NumMethod": func(w *W, a []V) V {
			return intV(w.prog.MethodSets.MethodSet(mustRV(w, a[0], "NumMethod").t).Len())
		},
		"(*reflect.rtype).Kind": func(w *W, a []V) V { return intV(rkind(tOf(w, a[0]))) },
		"(*reflect.rtype).Name": func(w *W, a []V) V { return strV(named(tOf(w, a[0]))) },
		"(*reflect.rtype).String": func(w *W, a []V) V {
			return strV(types.TypeString(tOf(w, a[0]), func(p *types.Package) string { return p.Name() }))
		},
		"(*reflect.rtype).PkgPath": func(w *W, a []V) V {
			if n, ok := types.Unalias(tOf(w, a[0])).(*types.Named); ok && n.Obj().Pkg() != nil {
				return strV(n.Obj().Pkg().Path())
			}
			return V{}
		},
		"(*reflect.rtype).NumField": func(w *W, a []V) V { return intV(tOf(w, a[0]).Underlying().(*types.Struct).NumFields()) },
		"(*reflect.rtype).Field": func(w *W, a []V) V {
			i := w.concInt(a[1])
			return structField(w, tOf(w, a[0]).Underlying().(*types.Struct).Field(i), i)
		},
		"(*reflect.rtype).FieldByName": func(w *W, a []V) V {
			t := tOf(w, a[0])
			if _, ok := t.Underlying().(*types.Struct); !ok {
				w.reflPanic("reflect: FieldByName of non-struct type " + t.String())
			}
			name := w.cstr(a[1])
			f, idx := fieldByName(t, name)
			if f == nil {
				return tup(zeroV(w.stdType("reflect", "StructField")), V{})
			}
			sf := structField(w, f, 0)
			ix := make([]V, len(idx))
			for i := range idx {
				ix[i] = intV(idx[i])
			}
			sf.o.(*Agg).e[5] = V{o: &Slice{s: ix}}
			return tup(sf, V{n: 1})
		},
		"(*reflect.rtype).NumMethod": func(w *W, a []V) V {
			n := 0
			ms := w.prog.MethodSets.MethodSet(tOf(w, a[0]))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return intV(n)
		},
		"(*reflect.rtype).Key": func(w *W, a []V) V {
			return w.rtypeIface(tOf(w, a[0]).Underlying().(*types.Map).Key())
		},
		"(*reflect.rtype).Len": func(w *W, a []V) V {
			return intV(int(tOf(w, a[0]).Underlying().(*types.Array).Len()))
		},
		"(*reflect.rtype).ConvertibleTo": func(w *W, a []V) V { return boolV(types.ConvertibleTo(tOf(w, a[0]), tOf(w, a[1]))) },
		"reflect.PtrTo":                  func(w *W, a []V) V { return w.rtypeIface(types.NewPointer(tOf(w, a[0]))) },
		"reflect.PointerTo":              func(w *W, a []V) V { return w.rtypeIface(types.NewPointer(tOf(w, a[0]))) },
		"reflect.SliceOf":                func(w *W, a []V) V { return w.rtypeIface(types.NewSlice(tOf(w, a[0]))) },
		"reflect.MapOf":                  func(w *W, a []V) V { return w.rtypeIface(types.NewMap(tOf(w, a[0]), tOf(w, a[1]))) },
		"reflect.MakeMap": func(w *W, a []V) V {
			t := tOf(w, a[0])
			return rvV(&RV{t: t, v: V{o: newMap(t.Underlying().(*types.Map))}})
		},
		"reflect.AppendSlice": func(w *W, a []V) V {
			r := mustRV(w, a[0], "AppendSlice")
			d, et := w.rvElems(r)
			s, _ := w.rvElems(mustRV(w, a[1], "AppendSlice"))
			vs := make([]V, len(s))
			for i := range s {
				vs[i] = copyV(s[i])
			}
			return rvV(&RV{t: r.t, v: w.rvAppend(d, vs, et)})
		},
		"(reflect.Value).FieldByIndex": func(w *W, a []V) V {
			cur := mustRV(w, a[0], "FieldByIndex")
			for k, x := range w.slice(a[1]) {
				if k > 0 {
					if _, ok := cur.t.Underlying().(*types.Pointer); ok {
						if cur = w.rvElem(cur); cur == nil {
							w.reflPanic("reflect: indirection through nil pointer to embedded struct")
						}
					}
				}
				cur = w.rvField(cur, w.concInt(x))
			}
			return rvV(cur)
		},
		"(reflect.Value).Slice3": func(w *W, a []V) V {
			r := mustRV(w, a[0], "Slice3")
			s, _ := w.rvElems(r)
			i, j, k := w.concInt(a[1]), w.concInt(a[2]), w.concInt(a[3])
			if i < 0 || j < i || k < j || k > cap(s) {
				w.reflPanic("reflect.Value.Slice3: slice index out of bounds")
			}
			return rvV(&RV{t: r.t, v: V{o: &Slice{s: s[i:j:k]}}})
		},
		"(reflect.Value).SetZero": func(w *W, a []V) V {
			r := mustRV(w, a[0], "SetZero")
			w.rvSet(r, zeroV(r.t))
			return V{}
		},
		"(reflect.Value).SetFloat": func(w *W, a []V) V { w.rvSet(mustRV(w, a[0], "SetFloat"), a[1]); return V{} },
		"(reflect.Value).Comparable": func(w *W, a []V) V {
			r := rv(w, a[0])
			return boolV(r == nil || types.Comparable(r.t))
		},
		"(reflect.Value).MapIndex": func(w *W, a []V) V {
			r, k := mustRV(w, a[0], "MapIndex"), mustRV(w, a[1], "MapIndex")
			mt := r.t.Underlying().(*types.Map)
			m, _ := w.resolve(r.get()).o.(*MapV)
			v, ok := w.mapGet(m, w.rvAssign(k, mt.Key()))
			if !w.decide(w.term(ok, 0)) {
				return V{}
			}
			return rvV(&RV{t: mt.Elem(), v: v})
		},
		"(reflect.Value).MapKeys": func(w *W, a []V) V {
			r := mustRV(w, a[0], "MapKeys")
			mt := r.t.Underlying().(*types.Map)
			m, _ := w.resolve(r.get()).o.(*MapV)
			var ks []V
			if m != nil {
				it := &mapIter{m: m, nondet: w.mapNondet}
				for {
					e := it.next(w).o.(*Tup).e
					if e[0].n == 0 {
						break
					}
					ks = append(ks, rvV(&RV{t: mt.Key(), v: e[1]}))
				}
			}
			return V{o: &Slice{s: ks}}
		},
		"(reflect.Value).SetMapIndex": func(w *W, a []V) V {
			r, k := mustRV(w, a[0], "SetMapIndex"), mustRV(w, a[1], "SetMapIndex")
			mt := r.t.Underlying().(*types.Map)
			m, _ := w.resolve(r.get()).o.(*MapV)
			if m == nil {
				w.rtpanic("assignment to entry in nil map")
			}
			if e := rv(w, a[2]); e == nil {
				w.mapDelete(m, w.rvAssign(k, mt.Key()))
			} else {
				w.mapSet(m, w.rvAssign(k, mt.Key()), w.rvAssign(e, mt.Elem()))
			}
			return V{}
		},
		"reflect.Swapper": func(w *W, a []V) V {
			w.unsupported("reflect.Swapper")
			return V{}
		},
		"(*reflect.rtype).Elem": func(w *W, a []V) V {
			switch u := tOf(w, a[0]).Underlying().(type) {
			case *types.Pointer:
				return w.rtypeIface(u.Elem())
			case *types.Slice:
				return w.rtypeIface(u.Elem())
			case *types.Array:
				return w.rtypeIface(u.Elem())
			case *types.Map:
				return w.rtypeIface(u.Elem())
			}
			w.reflPanic("reflect: Elem of invalid type")
			return V{}
		},
		"(*reflect.rtype).Implements": func(w *W, a []V) V {
			it := tOf(w, a[1]).Underlying().(*types.Interface)
			return boolV(types.Implements(tOf(w, a[0]), it))
		},
		"(*reflect.rtype).AssignableTo": func(w *W, a []V) V { return boolV(types.AssignableTo(tOf(w, a[0]), tOf(w, a[1]))) },
		"(*reflect.rtype).Comparable":   func(w *W, a []V) V { return boolV(types.Comparable(tOf(w, a[0]))) },
		"(reflect.StructField).IsExported": func(w *W, a []V) V {
			s := a[0].o.(*Agg)
			return boolV(s.e[1].o == nil)
		},
	}
}
