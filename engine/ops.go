package main

import (
	"go/types"
	"math"
	"unicode/utf8"
)

func (w *W) convert(ft, tt types.Type, v V) V {
	fu, tu := ft.Underlying(), tt.Underlying()
	// strings
	if isString(tt) {
		if s, ok := fu.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return w.runesToStr(w.slice(v))
			}
			return mkStr(w.slice(v))
		}
		if isString(ft) {
			return v
		}
		if sw, sg, ok := scalarInfo(ft); ok { // string(rune)
			if v.o == nil {
				x := int64(v.n)
				if x < 0 || x > utf8.MaxRune {
					x = utf8.RuneError
				}
				return strV(string(rune(x)))
			}
			r := v
			if sw != 32 {
				r = w.convert(ft, types.Typ[types.Int32], v)
			}
			_ = sg
			return w.runesToStr([]V{r})
		}
	}
	if isString(ft) {
		if s, ok := tu.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return w.strToRunes(v)
			}
			b := w.strBytes(v)
			return V{o: &Slice{s: append(make([]V, 0, len(b)), b...)}}
		}
	}
	fw, fs, fok := scalarInfo(ft)
	tw, tsg, tok := scalarInfo(tt)
	if fok && tok {
		if v.o == nil {
			return V{n: norm(tw, tsg, v.n)}
		}
		x, isT := v.o.(*Term)
		if !isT {
			return v // uintptr from pointer
		}
		switch {
		case tw == fw:
		case tw < fw:
			x = w.ts.extract(x, tw)
		case fs:
			x = w.ts.sext(x, tw)
		default:
			x = w.ts.zext(x, tw)
		}
		return w.termV(x, tt)
	}
	if fok && isFloat(tt) {
		if v.o != nil {
			v = V{n: w.conc(v, fw, fs)}
		}
		if fs {
			return flV(tu.(*types.Basic), float64(int64(v.n)))
		}
		return flV(tu.(*types.Basic), float64(v.n))
	}
	if isFloat(ft) && tok {
		f := math.Float64frombits(v.n)
		if tsg {
			return V{n: norm(tw, tsg, uint64(int64(f)))}
		}
		return V{n: norm(tw, tsg, uint64(f))}
	}
	if isFloat(ft) && isFloat(tt) {
		return flV(tu.(*types.Basic), math.Float64frombits(v.n))
	}
	// pointers <-> unsafe.Pointer <-> uintptr: identity
	return v
}

func (w *W) runesToStr(rs []V) V {
	sym := false
	for i := range rs {
		if rs[i].o != nil {
			sym = true
		}
	}
	if !sym {
		r := make([]rune, len(rs))
		for i := range rs {
			r[i] = rune(int32(rs[i].n))
		}
		return strV(string(r))
	}
	var out []V
	for i := range rs {
		out = append(out, w.encodeRune(rs[i])...)
	}
	return mkStr(out)
}

// encodeRune gives the UTF-8 bytes of an int32 rune value.
func (w *W) encodeRune(r V) []V {
	if r.o == nil {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(int32(r.n)))
		out := make([]V, n)
		for i := range out {
			out[i] = V{n: uint64(b[i])}
		}
		return out
	}
	ts := w.ts
	t := r.o.(*Term)
	c := func(x uint64) *Term { return ts.con(32, x) }
	byteOf := func(x *Term) V { return w.termV(ts.extract(x, 8), types.Typ[types.Uint8]) }
	if w.decide(ts.bin(OUlt, t, c(0x80))) {
		return []V{byteOf(t)}
	}
	sh := func(n uint64) *Term { return ts.bin(OLshr, t, c(n)) }
	cont := func(x *Term) V {
		return byteOf(ts.bin(OBOr, ts.bin(OBAnd, x, c(0x3f)), c(0x80)))
	}
	if w.decide(ts.bin(OUlt, t, c(0x800))) {
		return []V{byteOf(ts.bin(OBOr, sh(6), c(0xc0))), cont(t)}
	}
	bad := ts.or(ts.not(ts.bin(OUlt, t, c(0x110000))),
		ts.and(ts.not(ts.bin(OUlt, t, c(0xd800))), ts.bin(OUlt, t, c(0xe000))))
	if w.decideMaybe(bad) {
		return w.encodeRune(V{n: utf8.RuneError})
	}
	if w.decide(ts.bin(OUlt, t, c(0x10000))) {
		return []V{byteOf(ts.bin(OBOr, sh(12), c(0xe0))), cont(sh(6)), cont(t)}
	}
	return []V{byteOf(ts.bin(OBOr, sh(18), c(0xf0))), cont(sh(12)), cont(sh(6)), cont(t)}
}

// decodeRune decodes the first rune of b (len(b) > 0).
func (w *W) decodeRune(b []V) (V, int) {
	n := len(b)
	if n > 4 {
		n = 4
	}
	conc := true
	for i := 0; i < n; i++ {
		if b[i].o != nil {
			conc = false
		}
	}
	if conc {
		var buf [4]byte
		for i := 0; i < n; i++ {
			buf[i] = byte(b[i].n)
		}
		r, k := utf8.DecodeRune(buf[:n])
		return V{n: uint64(int64(r))}, k
	}
	ts := w.ts
	t := w.term(b[0], 8)
	if w.decide(ts.bin(OUlt, t, ts.con(8, 0x80))) {
		return w.termV(ts.zext(t, 32), types.Typ[types.Int32]), 1
	}
	// non-ASCII lead byte: make the bytes involved concrete where needed
	lead := byte(w.conc(b[0], 8, false))
	need := 0
	switch {
	case lead >= 0xc2 && lead < 0xe0:
		need = 2
	case lead >= 0xe0 && lead < 0xf0:
		need = 3
	case lead >= 0xf0 && lead < 0xf5:
		need = 4
	}
	if need == 0 {
		return V{n: uint64(int64(utf8.RuneError))}, 1
	}
	buf := []byte{lead}
	for i := 1; i < need && i < n; i++ {
		// continuation byte or not
		c := w.term(b[i], 8)
		isc := ts.eq(ts.bin(OBAnd, c, ts.con(8, 0xc0)), ts.con(8, 0x80))
		if !w.decide(isc) {
			return V{n: uint64(int64(utf8.RuneError))}, 1
		}
		buf = append(buf, byte(w.conc(b[i], 8, false)))
	}
	r, k := utf8.DecodeRune(buf)
	return V{n: uint64(int64(r))}, k
}

func (w *W) strToRunes(v V) V {
	b := w.strBytes(v)
	var out []V
	for len(b) > 0 {
		r, n := w.decodeRune(b)
		out = append(out, r)
		b = b[n:]
	}
	return V{o: &Slice{s: out}}
}
