package hs

import (
	"bytes"
	"errors"
	"io"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqltoken"
	"vh/vsym"
)

func init() {
	const anyBytes = "every text of 0..2 (thorough 3) arbitrary bytes (T02, T03: ASCII; T01, T04: all 256 values, so also invalid UTF-8), each dialect"
	const alpha = "every text of 0..3 (thorough 4) characters over the 25 that begin or end some token and a 2- and a 4-byte character, MySQL and PostgreSQL dialect"
	const small = "every text of 0..4 (thorough 6) characters over {single and double quote, star, slash, dash, letter, digit, LF, CR, tab, =, 2-byte character}, each dialect"
	const ctxs = "19 openings of a string, national string, quoted identifier, line or block comment, word or number, every continuation by 2 (thorough 4) characters of the small alphabet, 6 endings, generic and PostgreSQL dialect"
	const buf = "a text of 1018..1026 characters (blanks, word, comment, multi-line string, number) followed by 1 (thorough 2) symbolic characters, optionally a 2-byte one, and a fixed tail, so that tokens straddle the scanner's 1024-byte buffer"
	for _, p := range []struct {
		id                 string
		any, al, sm, cx, b func()
	}{
		{"T01", T01Any, T01Alpha, T01Small, T01Ctx, T01Buf},
		{"T02", T02Any, T02Alpha, T02Small, T02Ctx, T02Buf},
		{"T03", T03Any, T03Alpha, T03Small, T03Ctx, T03Buf},
		{"T04", T04Any, T04Alpha, T04Small, T04Ctx, T04Buf},
	} {
		l := strings.ToLower(p.id)
		reg(H{Prop: p.id, Name: l + ".anybytes", Fn: p.any, Bounds: anyBytes, Budget: 10})
		reg(H{Prop: p.id, Name: l + ".alphabet", Fn: p.al, Bounds: alpha, Budget: 12})
		reg(H{Prop: p.id, Name: l + ".small", Fn: p.sm, Bounds: small, Budget: 12})
		reg(H{Prop: p.id, Name: l + ".contexts", Fn: p.cx, Bounds: ctxs, Budget: 14})
		reg(H{Prop: p.id, Name: l + ".buffer", Fn: p.b, Bounds: buf, Budget: 8})
	}
	reg(H{Prop: "T04", Name: "t04.dialect", Fn: T04Dialect, Bounds: "every rune value, each dialect: identifier start, part and quote"})
	reg(H{Prop: "T05", Name: "t05.keyword", Fn: T05Keyword, Bounds: "every keyword of the list, every upper/lower case mix of its letters (up to 31 letters), each dialect", Budget: 15})
	reg(H{Prop: "T05", Name: "t05.near", Fn: T05Near, Bounds: "every keyword with any one character replaced by, or with one appended, any word character, in any case mix of two letters", Budget: 15})
	reg(H{Prop: "T05", Name: "t05.words", Fn: T05Words, Bounds: "every word of 1..3 (thorough 4) arbitrary word characters", Budget: 10})
	reg(H{Prop: "T05", Name: "t05.quoted", Fn: T05Quoted, Bounds: "quoted identifiers holding a keyword or 0..3 arbitrary characters, each quote of each dialect", Budget: 8})
	reg(H{Prop: "T06", Name: "t06.compare", Fn: T06Compare, Bounds: "two positions, all 2^256 combinations of 64-bit line and column"})
	reg(H{Prop: "T06", Name: "t06.order", Fn: T06Order, Bounds: "three positions with arbitrary 64-bit lines and columns: antisymmetry, transitivity, congruence of equality"})
	reg(H{Prop: "T07", Name: "t07.fail", Fn: T07Fail, Bounds: "14 statement texts and comments; failure after every byte offset, pieces of 1, 3 or 512 bytes, with or without data, transient or permanent, with io.ErrUnexpectedEOF, io.ErrClosedPipe, an error of the text of io.EOF or an error of any 3-byte text, each entry point", Budget: 20})
	reg(H{Prop: "T07", Name: "t07.bytes", Fn: T07Bytes, Bounds: "any 2 (thorough 3) bytes, then a failing read with any of these errors; each dialect", Budget: 10})
}

// ---- inputs ----

func symBytes(max int) []byte {
	n := vsym.Concrete(vsym.Int(0, max))
	b := make([]byte, n)
	for i := range b {
		b[i] = vsym.Byte()
	}
	return b
}

// symSmall appends one character that matters inside quotes and comments.
func symSmall(b []byte) []byte {
	const al = "'\"*/-a7\n\r\t="
	i := vsym.Int(0, len(al))
	if vsym.Split(i == len(al)) {
		return append(b, "\u00e9"...)
	}
	return append(b, al[i])
}

func symSmalls(n int) []byte {
	n = vsym.Concrete(vsym.Int(0, n))
	var b []byte
	for i := 0; i < n; i++ {
		b = symSmall(b)
	}
	return b
}

// symMids appends up to n characters of a middle-sized alphabet.
func symMids(n int) []byte {
	const al = "'\"`*/-aN7.\n\r\t @_$<>=!:;(#"
	n = vsym.Concrete(vsym.Int(0, n))
	var b []byte
	for i := 0; i < n; i++ {
		k := vsym.Int(0, len(al)+1)
		if vsym.Split(k >= len(al)) {
			if vsym.Concrete(k) == len(al) {
				b = append(b, "\u00e9"...)
			} else {
				b = append(b, "\U0001F600"...)
			}
			continue
		}
		b = append(b, al[k])
	}
	return b
}

func symASCII(max int) []byte {
	b := symBytes(max)
	for _, c := range b {
		vsym.Assume(c < 0x80)
	}
	return b
}

const alphaASCII = "'\"`*/-aNnZ7.\n\r\t @_$<>=!:;[](,+%&{}\\#|~"

// symChar appends one arbitrary character of the alphabet.
func symChar(b []byte) []byte {
	i := vsym.Int(0, len(alphaASCII)+2)
	if vsym.Split(i >= len(alphaASCII)) {
		switch vsym.Concrete(i) - len(alphaASCII) {
		case 0:
			return append(b, "\u00e9"...)
		case 1:
			return append(b, "\u65e5"...)
		default:
			return append(b, "\U0001F600"...)
		}
	}
	return append(b, alphaASCII[i])
}

func symChars(n int) []byte {
	n = vsym.Concrete(vsym.Int(0, n))
	var b []byte
	for i := 0; i < n; i++ {
		b = symChar(b)
	}
	return b
}

func symCtx(n int) []byte {
	pre := []string{"'", "N'", "a \"", "`", "--", "/*", "a", "1", "'a''", "/* *", "/**", "\"a\nb", "x\r\n'\r\n", "1.\t", "<", "/*a\n*", "--a\r", "n'", "- ", "SELECT"}
	post := []string{"", "'", "\"", "*/ b", "\nc", "` x"}
	k := vsym.Concrete(vsym.Int(0, len(pre)-1))
	b := []byte(pre[k])
	for i := 0; i < n; i++ {
		b = symSmall(b)
	}
	k = vsym.Concrete(vsym.Int(0, len(post)-1))
	return append(b, post[k]...)
}

func symBuf() []byte {
	fill := []string{" ", "a", "/*", "'", "1"}
	f := vsym.Concrete(vsym.Int(0, len(fill)-1))
	n := vsym.Concrete(vsym.Int(1018, 1026))
	var b []byte
	switch fill[f] {
	case " ", "a", "1":
		b = bytes.Repeat([]byte(fill[f]), n)
	case "/*":
		b = append([]byte("/*"), bytes.Repeat([]byte("x"), n-2)...)
	case "'":
		b = append([]byte("'"), bytes.Repeat([]byte("x\n"), n/2)...)
	}
	const al = "'*/-a7\n\r =<>"
	for i := 0; i < depth(1, 2); i++ {
		b = append(b, al[vsym.Int(0, len(al)-1)])
	}
	if vsym.Split(vsym.Bool()) {
		b = append(b, "\u00e9"...)
	}
	return append(b, "'*/ b"...)
}

func depth(quick, thorough int) int {
	if vsym.Tier() > 0 {
		return thorough
	}
	return quick
}

// symDialect2 is PostgreSQL or the given one.
func symDialect2(d int) int {
	if vsym.Split(vsym.Bool()) {
		return d
	}
	return dPostgres
}

func symDialect() int { return vsym.Concrete(vsym.Int(0, 2)) }

// ---- running the tokenizer ----

type lexed struct {
	src  []byte
	d    int
	toks []*sqltoken.Token
	err  error
}

func lexAll(src []byte, d int) lexed {
	t := sqltoken.NewTokenizer(bytes.NewReader(src), dialectOf(d))
	toks, err := t.Tokenize()
	if err != nil {
		vsym.Observe("error")
	} else {
		vsym.Observe(kinds(toks))
	}
	return lexed{src, d, toks, err}
}

func kinds(toks []*sqltoken.Token) string {
	var b strings.Builder
	for _, t := range toks {
		b.WriteString(t.Kind.String())
		b.WriteByte(' ')
	}
	return b.String()
}

func runesOf(b []byte) []rune {
	if len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF {
		b = b[3:] // a leading byte order mark is not part of the text
	}
	var rs []rune
	for len(b) > 0 {
		r, n := rune(b[0]), 1
		if r >= utf8.RuneSelf {
			r, n = utf8.DecodeRune(b)
		}
		rs = append(rs, r)
		b = b[n:]
	}
	return rs
}

// badText: bytes that are not text at all must not be tokenized silently; the
// rules say nothing about which characters they are.
func badText(rs []rune) bool {
	for i, r := range rs {
		if r == 0xFFFD || r == 0 || r == 0xFEFF && i > 0 {
			return true
		}
	}
	return false
}

// ---- T01 ----

func t01(d int, src []byte) {
	drop := vsym.Split(vsym.Bool())
	var opts []sqltoken.TokenizerOption
	if drop {
		opts = append(opts, sqltoken.DisableParseComment())
	}
	opts = append(opts, sqltoken.Dialect(dialectOf(d)))
	t := sqltoken.NewTokenizerWithOptions(bytes.NewReader(src), opts...)
	toks, err := t.Tokenize()
	if err == nil {
		vsym.Check(len(toks) <= len(src), "t01:more-tokens-than-characters")
		for _, k := range toks {
			vsym.Check(k != nil && k.Kind != sqltoken.ILLEGAL, "t01:illegal-token-without-error")
		}
		vsym.Observe(kinds(toks))
		vsym.Reach("tokens")
	} else {
		vsym.Observe("error")
		vsym.Reach("error")
	}
	rs := runesOf(src)
	if badText(rs) {
		return
	}
	if open, what := unclosed(d, rs); open {
		vsym.Check(err != nil, "t01:unclosed-"+what+"-accepted")
		vsym.Reach("unclosed")
	}
	// reading token by token ends too, and agrees
	t2 := sqltoken.NewTokenizerWithOptions(bytes.NewReader(src), opts...)
	n, steps := 0, 0
	for {
		steps++
		vsym.Check(steps <= len(src)+2, "t01:too-many-steps")
		if steps > len(src)+2 {
			return
		}
		k, e := t2.NextToken()
		if e != nil {
			break
		}
		if k != nil {
			n++
		}
	}
	if err == nil {
		vsym.Check(n == len(toks), "t01:stepwise-differs")
	}
}

// unclosed scans only for quotes and comments.
func unclosed(d int, rs []rune) (bool, string) {
	for i := 0; i < len(rs); {
		r := rs[i]
		next := rune(-1)
		if i+1 < len(rs) {
			next = rs[i+1]
		}
		switch {
		case r == '\'' || refQuote(d, r):
			j := i + 1
			for j < len(rs) && rs[j] != r {
				j++
			}
			if j >= len(rs) {
				if r == '\'' {
					return true, "string"
				}
				return true, "identifier"
			}
			i = j + 1
		case r == '-' && next == '-':
			for i < len(rs) && rs[i] != '\n' && rs[i] != '\r' {
				i++
			}
		case r == '/' && next == '*':
			j := i + 2
			for j+1 < len(rs) && !(rs[j] == '*' && rs[j+1] == '/') {
				j++
			}
			if j+1 >= len(rs) {
				return true, "comment"
			}
			i = j + 2
		default:
			i++
		}
	}
	return false, ""
}

func T01Any()   { t01(symDialect(), symBytes(depth(2, 3))) }
func T01Alpha() { t01(symDialect2(1), symMids(depth(3, 4))) }
func T01Small() { t01(symDialect(), symSmalls(depth(4, 6))) }
func T01Ctx()   { t01(symDialect2(0), symCtx(depth(2, 4))) }
func T01Buf()   { t01(dGeneric, symBuf()) }

// ---- T02 ----

func t02(d int, src []byte) {
	l := lexAll(src, d)
	if l.err != nil {
		return
	}
	vsym.Reach("tokens")
	rs := runesOf(src)
	if badText(rs) {
		return
	}
	// write every token back; a comment has two source forms, the text tells which
	pos := 0
	for _, t := range l.toks {
		var want []rune
		if t.Kind == sqltoken.Comment {
			want = []rune(tokSource(t, pos < len(rs) && rs[pos] == '-'))
		} else {
			want = []rune(tokSource(t, false))
		}
		if t.Kind == sqltoken.Neq && pos+1 < len(rs) {
			s, _ := tokText(t)
			vsym.Check(s == string(rs[pos:pos+2]), "t02:operator-text")
		}
		if t.Kind == sqltoken.Whitespace && pos < len(rs) && rs[pos] == '\r' {
			s, _ := tokText(t)
			vsym.Check(s == "\n", "t02:line-end")
			pos++
			if pos < len(rs) && rs[pos] == '\n' {
				pos++
			}
			continue
		}
		if pos+len(want) > len(rs) {
			vsym.Check(false, "t02:text-invented")
			return
		}
		same := true
		for i, r := range want {
			same = same && r == rs[pos+i]
		}
		vsym.Check(same, "t02:text-changed")
		pos += len(want)
	}
	vsym.Check(pos == len(rs), "t02:text-lost")
	// dropping comments and whitespace removes exactly those tokens
	td := sqltoken.NewTokenizerWithOptions(bytes.NewReader(src), sqltoken.Dialect(dialectOf(d)), sqltoken.DisableParseComment())
	toks, err := td.Tokenize()
	vsym.Check(err == nil, "t02:drop-error")
	if err != nil {
		return
	}
	k := 0
	for _, t := range l.toks {
		if t.Kind == sqltoken.Comment || t.Kind == sqltoken.Whitespace {
			continue
		}
		if k >= len(toks) {
			vsym.Check(false, "t02:drop-removes-token")
			return
		}
		a, qa := tokText(t)
		b, qb := tokText(toks[k])
		vsym.Check(t.Kind == toks[k].Kind && qa == qb && a == b, "t02:drop-changes-token")
		k++
	}
	vsym.Check(k == len(toks), "t02:drop-keeps-token")
}

func T02Any()   { t02(symDialect(), symASCII(depth(2, 3))) }
func T02Alpha() { t02(symDialect2(1), symMids(depth(3, 4))) }
func T02Small() { t02(symDialect(), symSmalls(depth(4, 6))) }
func T02Ctx()   { t02(symDialect2(0), symCtx(depth(2, 4))) }
func T02Buf()   { t02(dGeneric, symBuf()) }

// ---- T03 ----

func t03(d int, src []byte) {
	drop := vsym.Split(vsym.Bool())
	rs := runesOf(src)
	if drop {
		t := sqltoken.NewTokenizerWithOptions(bytes.NewReader(src), sqltoken.DisableParseComment(), sqltoken.Dialect(dialectOf(d)))
		toks, err := t.Tokenize()
		if err != nil || badText(rs) {
			return
		}
		ref, ok := refLex(d, rs)
		if !ok {
			return
		}
		k := 0
		for _, r := range ref {
			if r.kind == sqltoken.Whitespace || r.kind == sqltoken.Comment {
				continue
			}
			if k >= len(toks) {
				return
			}
			vsym.Check(toks[k].From == r.from && toks[k].To == r.to, "t03:position-without-comments")
			k++
		}
		return
	}
	l := lexAll(src, d)
	if l.err != nil || badText(rs) {
		return
	}
	vsym.Reach("tokens")
	// tiling, and each end is where reading the token's own characters leads
	pos := sqltoken.Pos{Line: 1, Col: 1}
	i := 0
	for _, t := range l.toks {
		vsym.Check(t.From == pos, "t03:gap")
		var n int
		if t.Kind == sqltoken.Whitespace {
			n = 1
			if i+1 < len(rs) && rs[i] == '\r' && rs[i+1] == '\n' {
				n = 2
			}
		} else {
			n = len([]rune(tokSource(t, i < len(rs) && rs[i] == '-')))
		}
		line, col := t.From.Line, t.From.Col
		for k := i; k < i+n && k < len(rs); k++ {
			switch rs[k] {
			case '\n':
				line, col = line+1, 1
			case '\r':
				if k+1 >= len(rs) || rs[k+1] != '\n' {
					line, col = line+1, 1
				}
			case '\t':
				col += 4
			default:
				col++
			}
		}
		i += n
		vsym.Check(t.To.Line == line && t.To.Col == col, "t03:end")
		pos = t.To
	}
}

func T03Any()   { t03(symDialect(), symASCII(depth(2, 3))) }
func T03Alpha() { t03(symDialect2(1), symMids(depth(3, 4))) }
func T03Small() { t03(symDialect(), symSmalls(depth(4, 6))) }
func T03Ctx()   { t03(symDialect2(0), symCtx(depth(2, 4))) }
func T03Buf()   { t03(dGeneric, symBuf()) }

// ---- T04 ----

func t04(d int, src []byte) {
	l := lexAll(src, d)
	rs := runesOf(src)
	if badText(rs) {
		return
	}
	ref, ok := refLex(d, rs)
	vsym.Check(ok == (l.err == nil), "t04:acceptance")
	if !ok || l.err != nil {
		return
	}
	vsym.Reach("tokens")
	vsym.Check(len(ref) == len(l.toks), "t04:boundaries")
	if len(ref) != len(l.toks) {
		return
	}
	for i, t := range l.toks {
		s, q := tokText(t)
		vsym.Check(t.Kind == ref[i].kind, "t04:kind")
		vsym.Check(q == ref[i].quote && s == ref[i].text, "t04:text")
	}
}

func T04Dialect() {
	d := symDialect()
	r := rune(vsym.Int64())
	vsym.Assume(r >= 0)
	dl := dialectOf(d)
	vsym.Check(dl.IsIdentifierStart(r) == refStart(d, r), "t04:identifier-start")
	vsym.Check(dl.IsIdentifierPart(r) == refPart(d, r), "t04:identifier-part")
	vsym.Check(dl.IsDelimitedIdentifierStart(r) == refQuote(d, r), "t04:identifier-quote")
	vsym.Reach("dialect")
}

func T04Any()   { t04(symDialect(), symBytes(depth(2, 3))) }
func T04Alpha() { t04(symDialect2(1), symMids(depth(3, 4))) }
func T04Small() { t04(symDialect(), symSmalls(depth(4, 6))) }
func T04Ctx()   { t04(symDialect2(0), symCtx(depth(2, 4))) }
func T04Buf()   { t04(dGeneric, symBuf()) }

// ---- T05 ----

var kwList []string

func init() {
	for k := range dialect.Keywords {
		kwList = append(kwList, k)
	}
	sort.Strings(kwList)
}

// oneWord tokenizes text, which must be one word token.
func oneWord(text []byte, d int) *sqltoken.SQLWord {
	toks, err := sqltoken.NewTokenizer(bytes.NewReader(text), dialectOf(d)).Tokenize()
	vsym.Check(err == nil, "t05:word-rejected")
	if err != nil {
		return nil
	}
	vsym.Check(len(toks) == 1, "t05:word-split")
	if len(toks) != 1 {
		return nil
	}
	w, ok := toks[0].Value.(*sqltoken.SQLWord)
	vsym.Check(ok && toks[0].Kind == sqltoken.SQLKeyword, "t05:not-a-word")
	if !ok {
		return nil
	}
	return w
}

func upperOf(b []byte) string {
	u := make([]byte, len(b))
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		u[i] = c
	}
	return string(u)
}

func checkWord(text []byte, w *sqltoken.SQLWord) {
	if w == nil {
		return
	}
	vsym.Check(w.Value == string(text), "t05:spelling")
	vsym.Check(w.QuoteStyle == 0, "t05:quote")
	u := upperOf(text)
	if _, isKw := dialect.Keywords[u]; isKw {
		vsym.Check(w.Keyword == u, "t05:keyword-not-recognised")
		vsym.Reach("keyword")
	} else {
		_, known := dialect.Keywords[w.Keyword]
		vsym.Check(!known, "t05:recognised-as-keyword")
		vsym.Reach("plain")
	}
}

func T05Keyword() {
	d := symDialect()
	k := kwList[vsym.Concrete(vsym.Int(0, len(kwList)-1))]
	if d == dGeneric || refStart(d, rune(k[0])) {
		b := []byte(k)
		for i := range b {
			if isLetter(rune(b[i])) {
				b[i] += byte(vsym.Int(0, 1)) << 5
			}
		}
		checkWord(b, oneWord(b, d))
	}
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

func T05Near() {
	k := kwList[vsym.Concrete(vsym.Int(0, len(kwList)-1))]
	b := []byte(k)
	p := vsym.Concrete(vsym.Int(0, len(b)))
	c := wordChars[vsym.Int(0, len(wordChars)-1)]
	if p == len(b) {
		b = append(b, c)
	} else {
		vsym.Assume(p > 0 || isLetter(rune(c)))
		b[p] = c
	}
	if q := p / 2; q < len(b)-1 && q != p && isLetter(rune(b[q])) {
		b[q] += byte(vsym.Int(0, 1)) << 5
	}
	checkWord(b, oneWord(b, dGeneric))
}

func T05Words() {
	n := vsym.Concrete(vsym.Int(1, depth(3, 4)))
	d := symDialect()
	b := make([]byte, n)
	for i := range b {
		b[i] = wordChars[vsym.Int(0, len(wordChars)-1)]
	}
	vsym.Assume(isLetter(rune(b[0])))
	checkWord(b, oneWord(b, d))
}

func T05Quoted() {
	d := symDialect()
	q := byte('"')
	if d != dGeneric && vsym.Split(vsym.Bool()) {
		q = '`'
	}
	var in []byte
	if vsym.Split(vsym.Bool()) {
		in = []byte(kwList[vsym.Concrete(vsym.Int(0, len(kwList)-1))])
		if vsym.Bool() {
			in[0] += 32
		}
	} else {
		in = symChars(3)
	}
	for _, c := range in {
		vsym.Assume(c != q)
	}
	src := append(append([]byte{q}, in...), q)
	w := oneWord(src, d)
	if w == nil {
		return
	}
	vsym.Check(w.Value == string(in), "t05:quoted-text")
	vsym.Check(w.QuoteStyle == rune(q), "t05:quoted-style")
	vsym.Check(w.String() == string(src), "t05:quoted-string")
	vsym.Reach("quoted")
}

// ---- T06 ----

func symPos() sqltoken.Pos {
	return sqltoken.Pos{Line: int(vsym.Int64()), Col: int(vsym.Int64())}
}

func T06Compare() {
	a, b := symPos(), symPos()
	c := sqltoken.ComparePos(a, b)
	before := a.Line < b.Line || a.Line == b.Line && a.Col < b.Col
	after := a.Line > b.Line || a.Line == b.Line && a.Col > b.Col
	if before {
		vsym.Reach("before")
		vsym.Check(c < 0, "t06:before")
	} else if after {
		vsym.Reach("after")
		vsym.Check(c > 0, "t06:after")
	} else {
		vsym.Reach("equal")
		vsym.Check(c == 0, "t06:equal")
	}
	vsym.Check(sqltoken.NewPos(a.Line, a.Col) == a, "t06:newpos")
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func T06Order() {
	a, b, c := symPos(), symPos(), symPos()
	ab, ba, bc, ac := sign(sqltoken.ComparePos(a, b)), sign(sqltoken.ComparePos(b, a)), sign(sqltoken.ComparePos(b, c)), sign(sqltoken.ComparePos(a, c))
	vsym.Check(ab == -ba, "t06:antisymmetry")
	if ab == 0 {
		vsym.Check(a == b && ac == bc, "t06:equality")
	}
	if ab <= 0 && bc <= 0 {
		vsym.Reach("chain")
		vsym.Check(ac <= 0, "t06:transitivity")
		if ab < 0 || bc < 0 {
			vsym.Check(ac < 0, "t06:strictness")
		}
	}
}

// ---- T07 ----

var readTexts = []string{
	"SELECT a FROM t WHERE b = 1",
	"SELECT 1; SELECT 2",
	"DELETE FROM t WHERE a = 'x' AND b = 2",
	"UPDATE t SET a = 1, b = 2 WHERE c",
	"INSERT INTO t (a, b) VALUES (1, 2), (3, 4)",
	"CREATE TABLE t (a int, b varchar(20))",
	"DROP TABLE a, b",
	"SELECT a -- c\n, b FROM t /* d */ LIMIT 10",
	"-- only\n/* comments */",
	"   \n\t",
	"SELECT a FROM \"t\" ORDER BY a DESC",
	"EXPLAIN SELECT 12.5",
	"ALTER TABLE t ADD COLUMN a int",
	"SELECT a FROM t -",
}

var errRead = errors.New("disk on fire")

// textErr is an error with any text.
type textErr struct{ s string }

func (e *textErr) Error() string { return e.s }

func readErr() error {
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &textErr{string([]byte{vsym.Byte(), vsym.Byte(), vsym.Byte()})}
	case 3:
		return io.ErrClosedPipe
	case 4:
		return &textErr{io.EOF.Error()}
	}
	return errRead
}

func T07Fail() {
	text := readTexts[vsym.Concrete(vsym.Int(0, len(readTexts)-1))]
	at := vsym.Concrete(vsym.Int(0, len(text)))
	sizes := []int{1, 3, 512}
	r := &chunkReader{data: []byte(text), size: sizes[vsym.Concrete(vsym.Int(0, 2))], fail: at, with: vsym.Split(vsym.Bool()), again: vsym.Split(vsym.Bool()), err: readErr()}
	if r.again && at == len(text) {
		// nothing but the failure itself separates this from a complete text
		vsym.Reach("late")
	}
	switch vsym.Concrete(vsym.Int(0, 2)) {
	case 0:
		_, err := sqltoken.NewTokenizer(r, dialectOf(dGeneric)).Tokenize()
		vsym.Check(err != nil, "t07:tokenize")
	case 1:
		p, err := xsqlparser.NewParser(r, dialectOf(dGeneric))
		if err == nil {
			_, err = p.ParseSQL()
		}
		vsym.Check(err != nil, "t07:parser")
	case 2:
		p, err := xsqlparser.NewParser(r, dialectOf(dMySQL), xsqlparser.ParseComment())
		if err == nil {
			_, err = p.ParseFile()
		}
		vsym.Check(err != nil, "t07:file")
	}
	vsym.Reach("failed")
}

func T07Bytes() {
	var b []byte
	n := vsym.Concrete(vsym.Int(0, depth(2, 3)))
	for i := 0; i < n; i++ {
		b = append(b, vsym.Byte())
	}
	if vsym.Split(vsym.Bool()) {
		b = append([]byte("SELECT 'a' "), b...)
	}
	r := &chunkReader{data: b, size: 1, fail: len(b), err: readErr()}
	t := sqltoken.NewTokenizer(r, dialectOf(symDialect()))
	_, err := t.Tokenize()
	vsym.Check(err != nil, "t07:tokenize")
	vsym.Reach("failed")
}
