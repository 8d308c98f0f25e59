package hs

import (
	"bytes"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"vh/vsym"
)

// Self-checks of the encoder (not part of any property): operations on symbolic
// values, compared with the natively compiled ones on interesting assignments.

func init() {
	reg(H{Prop: "X00", Name: "smoke.sym8", Fn: SmokeSym8, Bounds: "2 bytes"})
	reg(H{Prop: "X00", Name: "smoke.sym64", Fn: SmokeSym64, Bounds: "2 words"})
	reg(H{Prop: "X00", Name: "smoke.symfork", Fn: SmokeSymFork, Bounds: "2 bytes, forking operations"})
}

func obs64(n uint64) {
	b := make([]byte, 16)
	for i := range b {
		b[i] = "0123456789abcdef"[n>>(4*uint(i))&15]
	}
	vsym.Observe(string(b))
}

type kindName uint8

const names = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

var byteTab [256]uint8
var sbyteTab [256]int8
var wordTab [256]uint16
var strTab [4]string = [4]string{"", "x", "yz", "abc"}
var mapTab = map[uint8]uint8{}
var smapTab = map[int8]string{-1: "m", 1: "p", -128: "min"}

func init() {
	for i := range byteTab {
		byteTab[i] = uint8(i*7 + 3)
		sbyteTab[i] = int8(i*5 - 9)
		wordTab[i] = uint16(i * 257)
		if i%3 == 0 {
			mapTab[uint8(i)] = uint8(255 - i)
		}
	}
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var ops8 = []func(x, y uint8) uint64{
	func(x, y uint8) uint64 { return uint64(x+y) ^ uint64(x-y)<<8 ^ uint64(x*y)<<16 },
	func(x, y uint8) uint64 { return uint64(int64(int8(x)) + int64(int8(y))) },
	func(x, y uint8) uint64 { return uint64(int8(x) + int8(y)) },
	func(x, y uint8) uint64 { return uint64(int8(x)) ^ uint64(int16(int8(y)))<<8 },
	func(x, y uint8) uint64 { return uint64(uint32(int8(x))) },
	func(x, y uint8) uint64 {
		return uint64(x<<(y&15)) ^ uint64(x>>(y&15))<<8 ^ uint64(uint8(int8(x)>>(y&15)))<<16
	},
	func(x, y uint8) uint64 { return uint64(x) << y },
	func(x, y uint8) uint64 { return uint64(int64(int8(x)) >> y) },
	func(x, y uint8) uint64 {
		return uint64(x&y) | uint64(x|y)<<8 | uint64(x^y)<<16 | uint64(x&^y)<<24 | uint64(^x)<<32 | uint64(-y)<<40
	},
	func(x, y uint8) uint64 {
		return b2u(x < y) | b2u(x <= y)<<1 | b2u(x > y)<<2 | b2u(x >= y)<<3 | b2u(x == y)<<4 | b2u(x != y)<<5
	},
	func(x, y uint8) uint64 {
		a, b := int8(x), int8(y)
		return b2u(a < b) | b2u(a <= b)<<1 | b2u(a > b)<<2 | b2u(a >= b)<<3 | b2u(a == b)<<4
	},
	func(x, y uint8) uint64 { return uint64(byteTab[x]) | uint64(uint8(sbyteTab[y]))<<8 },
	func(x, y uint8) uint64 { return uint64(int64(sbyteTab[x])) },
	func(x, y uint8) uint64 { return uint64(int64(sbyteTab[byteTab[x]]) * int64(wordTab[y])) },
	func(x, y uint8) uint64 { return uint64(names[x&127]) | uint64(names[y%200])<<8 },
	func(x, y uint8) uint64 { return uint64(byteTab[uint8(wordTab[x]>>3)]) },
	func(x, y uint8) uint64 { return uint64(x/(y|1)) | uint64(x%(y|1))<<8 },
	func(x, y uint8) uint64 {
		return uint64(uint8(int8(x)/(int8(y)|1))) | uint64(uint8(int8(x)%(int8(y)|1)))<<8
	},
	func(x, y uint8) uint64 { var a [256]uint8; a[x] = 3; a[y] += 5; return uint64(a[x])<<8 | uint64(a[y]) },
	func(x, y uint8) uint64 {
		s := []uint16{1, 2, 3, 4}
		s[x&3] = 9
		s[y&3]++
		return uint64(s[0]) | uint64(s[1])<<8 | uint64(s[2])<<16 | uint64(s[3])<<24
	},
}

var iv8 = []uint8{0, 1, 2, 5, 63, 64, 65, 92, 100, 127, 128, 129, 155, 200, 254, 255}

func SmokeSym8() {
	f := ops8[vsym.Concrete(vsym.Int(0, len(ops8)-1))]
	x, y := vsym.Byte(), vsym.Byte()
	r := f(x, y)
	if vsym.Tier() == 0 {
		vsym.Assume(x > 250 || x < 3 || x > 126 && x < 130)
	}
	a := iv8[vsym.Concrete(vsym.Int(0, len(iv8)-1))]
	b := iv8[vsym.Concrete(vsym.Int(0, len(iv8)-1))]
	vsym.Assume(x == a)
	vsym.Assume(y == b)
	obs64(r)
	vsym.Check(r == f(a, b), "symbolic and concrete evaluation differ")
}

var ops64 = []func(x, y int64) uint64{
	func(x, y int64) uint64 { return uint64(x + y) },
	func(x, y int64) uint64 { return uint64(x - y) },
	func(x, y int64) uint64 { return uint64(x) ^ uint64(-y) },
	func(x, y int64) uint64 {
		return b2u(x < y) | b2u(x <= y)<<1 | b2u(x > y)<<2 | b2u(x >= y)<<3 | b2u(x == y)<<4 | b2u(x != y)<<5
	},
	func(x, y int64) uint64 {
		a, b := uint64(x), uint64(y)
		return b2u(a < b) | b2u(a <= b)<<1 | b2u(a > b)<<2 | b2u(a >= b)<<3
	},
	func(x, y int64) uint64 { return uint64(int32(x)) ^ uint64(uint16(y))<<3 },
	func(x, y int64) uint64 { return uint64(int8(x)) + uint64(uint8(y)) },
	func(x, y int64) uint64 { return uint64(x<<3) ^ uint64(y>>5) ^ uint64(y)>>7 },
	func(x, y int64) uint64 { return uint64(x) << (uint64(y) & 127) },
	func(x, y int64) uint64 { return uint64(x >> (uint64(y) & 127)) },
	func(x, y int64) uint64 { return uint64(rune(x)) | uint64(byte(y))<<40 },
	func(x, y int64) uint64 {
		return b2u(int32(x) < int32(y)) | b2u(uint32(x) < uint32(y))<<1 | b2u(int16(x) < int16(y))<<2
	},
}

var iv64 = []int64{0, 1, -1, 2, 127, 128, 255, 256, -128, 32767, 32768, 65535, 1<<31 - 1, 1 << 31, -1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, -1 << 63}

func SmokeSym64() {
	f := ops64[vsym.Concrete(vsym.Int(0, len(ops64)-1))]
	x, y := vsym.Int64(), vsym.Int64()
	r := f(x, y)
	a := iv64[vsym.Concrete(vsym.Int(0, len(iv64)-1))]
	b := iv64[vsym.Concrete(vsym.Int(0, len(iv64)-1))]
	vsym.Assume(x == a)
	vsym.Assume(y == b)
	obs64(r)
	vsym.Check(r == f(a, b), "symbolic and concrete evaluation differ")
}

func hashOf(ss ...string) uint64 {
	h := uint64(14695981039346656037)
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	return h
}

var opsFork = []func(x, y uint8) string{
	func(x, y uint8) string { v, ok := mapTab[x]; return strconv.Itoa(int(v)) + strconv.FormatBool(ok) },
	func(x, y uint8) string { return smapTab[int8(x)] + "|" + smapTab[int8(y)] },
	func(x, y uint8) string { return names[x&31 : 32+(y&31)] },
	func(x, y uint8) string { return names[byteTab[x]&15 : 16+byteTab[y]&127] },
	func(x, y uint8) string { defer func() { recover() }(); return names[byteTab[x]:byteTab[y]] },
	func(x, y uint8) string { m := map[uint8]kindName{x: 1}; m[y] = 200; return names[m[x] : m[x]+3] },
	func(x, y uint8) string { return strTab[x&3] + strTab[y&3] },
	func(x, y uint8) string { return strings.Repeat("ab", int(x&7)) + strconv.Itoa(int(y)) },
	func(x, y uint8) string { return string(rune(x)) + string([]rune{rune(y) + 0x7f0}) },
	func(x, y uint8) string { return strings.ToUpper(string([]byte{x, y})) },
	func(x, y uint8) string {
		return strings.Map(unicode.ToUpper, string(rune(x))) + strconv.Quote(string(rune(y)))
	},
	func(x, y uint8) string {
		n := 0
		for i, r := range string([]byte{x, y, 'a'}) {
			n = n*7 + i + int(r)
		}
		return strconv.Itoa(n)
	},
	func(x, y uint8) string { return strconv.Itoa(utf8.RuneCount([]byte{x, y, 0x80})) },
	func(x, y uint8) string {
		r, n := utf8.DecodeRune([]byte{x, y, 0x80, 0x80})
		return strconv.Itoa(int(r)) + ":" + strconv.Itoa(n)
	},
	func(x, y uint8) string {
		var b bytes.Buffer
		b.WriteByte(x)
		b.WriteRune(rune(y))
		b.WriteString("z")
		return b.String()
	},
	func(x, y uint8) string {
		var b strings.Builder
		b.WriteByte(x)
		b.WriteRune(rune(y))
		b.Write([]byte("z"))
		return b.String()
	},
	func(x, y uint8) string {
		b := bytes.NewBufferString("q")
		b.WriteByte(x)
		p := b.Bytes()
		b.WriteByte(y)
		p[1]++
		b.Truncate(b.Len() - 1)
		b.WriteString("w")
		c, _ := b.ReadByte()
		b.Reset()
		b.WriteByte('m')
		return string(c) + string(p) + b.String()
	},
	func(x, y uint8) string {
		var b bytes.Buffer
		b.Grow(64)
		b.Write([]byte{x, y})
		s := b.String()
		p := b.Bytes()
		p[0] = 'c'
		r := b.String()
		n, _ := b.WriteTo(&strings.Builder{})
		b.WriteString("u")
		b.WriteRune(rune(x))
		b.UnreadByte()
		return s + r + strconv.Itoa(int(n)) + b.String() + strconv.Itoa(b.Len())
	},
	func(x, y uint8) string {
		var b bytes.Buffer
		b.Write([]byte{x, y, 'z'})
		b.Next(1)
		t := b.String()
		d, err := b.ReadString(y)
		b.Reset()
		return t + d + strconv.FormatBool(err == nil) + b.String()
	},
	func(x, y uint8) string {
		switch {
		case unicode.IsLetter(rune(x)) && unicode.IsDigit(rune(y)):
			return "ld"
		case unicode.IsSpace(rune(x)), strings.ContainsRune("+-*/", rune(y)):
			return "so"
		case strings.IndexByte("qwe", x) >= 0:
			return "q"
		}
		return "other"
	},
	func(x, y uint8) string {
		s := make([]byte, int(x&3), 8)
		s = append(s, y)
		t := append(s[:0:1], 'k')
		copy(s, "zz")
		return string(s) + string(t)
	},
	func(x, y uint8) string {
		a, err := strconv.Atoi(string([]byte{'1', x, y}))
		return strconv.Itoa(a) + strconv.FormatBool(err == nil)
	},
	func(x, y uint8) string {
		f, err := strconv.ParseFloat(string([]byte{'1', x, y}), 64)
		return strconv.FormatFloat(f, 'g', -1, 64) + strconv.FormatBool(err == nil)
	},
	func(x, y uint8) string {
		var i interface{} = x
		if y > 100 {
			i = string([]byte{y})
		}
		if s, ok := i.(string); ok {
			return s
		}
		return strconv.Itoa(int(i.(uint8)))
	},
	func(x, y uint8) (r string) {
		defer func() {
			if recover() != nil {
				r = "panic"
			}
		}()
		return string(names[int(x)-int(y)])
	},
	func(x, y uint8) (r string) {
		defer func() {
			if recover() != nil {
				r = "panic"
			}
		}()
		var t [200]int8
		return strconv.Itoa(int(t[int8(x)]) + int(x/(y&3)))
	},
	func(x, y uint8) string {
		return strings.TrimSpace(string([]byte{x, 'a', y})) + strings.Trim(string([]byte{x, 'a', y}), "abc")
	},
	func(x, y uint8) string {
		return strconv.FormatBool(strings.EqualFold(string([]byte{x, y}), "aK")) + strconv.Itoa(strings.Compare(string([]byte{x, y}), "mm"))
	},
	func(x, y uint8) string { return strings.Join(strings.Split(string([]byte{x, ',', y}), ","), "|") },
	func(x, y uint8) string {
		return strings.Replace(string([]byte{x, y}), "a", "bb", -1) + strconv.Itoa(strings.Index("hello", string([]byte{x})))
	},
}

var ivF = []uint8{0, 9, ' ', '.', ',', '1', '9', 'A', 'Z', 'a', 'k', 'K', 'q', 127, 128, 0xc3, 0xe2, 255}

func SmokeSymFork() {
	f := opsFork[vsym.Concrete(vsym.Int(0, len(opsFork)-1))]
	x, y := vsym.Byte(), vsym.Byte()
	a := ivF[vsym.Concrete(vsym.Int(0, len(ivF)-1))]
	if vsym.Tier() == 0 {
		// one of the two is free while the operation runs
		vsym.Assume(y == a)
	}
	r := f(x, y)
	if vsym.Tier() != 0 {
		vsym.Assume(y == a)
	}
	b := ivF[vsym.Concrete(vsym.Int(0, len(ivF)-1))]
	vsym.Assume(x == b)
	obs64(hashOf(r))
	vsym.Check(hashOf(r) == hashOf(f(b, a)), "symbolic and concrete evaluation differ")
}
