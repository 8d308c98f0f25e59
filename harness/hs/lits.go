package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Literal values (P08).

func selectLit(k sqltoken.Kind, s string) (sqlast.Node, error) {
	toks := place([]*sqltoken.Token{{Kind: sqltoken.SQLKeyword, Value: wordOf("SELECT")}, {Kind: k, Value: s}})
	st, err := parseStmt(toks)
	if err != nil {
		return nil, err
	}
	return litOf(st), nil
}

func litOf(st sqlast.Stmt) sqlast.Node {
	q, ok := st.(*sqlast.QueryStmt)
	if !ok {
		return nil
	}
	sel, ok := q.Body.(*sqlast.SQLSelect)
	if !ok || len(sel.Projection) != 1 {
		return nil
	}
	it, ok := sel.Projection[0].(*sqlast.UnnamedSelectItem)
	if !ok {
		return nil
	}
	return it.Node
}

func symDigits(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(vsym.Int(0, 9))
	}
	return b
}

// P08Ints: integer literals of any length.
func P08Ints() {
	n := vsym.Concrete(vsym.Int(1, depth(19, 20)))
	b := symDigits(n)
	if n == 20 {
		vsym.Assume(b[0] != '0')
	}
	// reference: the value of all digits but the last, then the last
	var hi uint64
	for _, c := range b[:n-1] {
		hi = hi*10 + uint64(c-'0')
	}
	const max = 9223372036854775807
	last := uint64(b[n-1] - '0')
	fits := n < 19 || n == 19 && hi*10+last <= max
	got, err := selectLit(sqltoken.Number, string(b))
	if err != nil {
		vsym.Reach("rejected")
		vsym.Check(!fits, "integer-rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Check(fits, "integer-out-of-range-accepted")
	l, ok := got.(*sqlast.LongValue)
	if !ok {
		vsym.Check(false, "integer-kind")
		return
	}
	vsym.Check(l.Long == int64(hi*10+last), "integer-value")
}

// P08IntPrint: printing of integer values.
func P08IntPrint() {
	v := vsym.Int(0, 4095)
	s := (&sqlast.LongValue{Long: int64(v)}).ToSQLString()
	w := 0
	for _, c := range []byte(s) {
		vsym.Check(c >= '0' && c <= '9', "integer-digits")
		w = w*10 + int(c-'0')
	}
	vsym.Check(w == v, "integer-print")
	vsym.Check(s[0] != '0' || len(s) == 1, "integer-print")
}

// P08Size: sizes and bounds with any number of digits.
func P08Size() {
	n := vsym.Concrete(vsym.Int(1, depth(5, 8)))
	b := symDigits(n)
	g := newG(0)
	var hi uint64
	for _, c := range b {
		hi = hi*10 + uint64(c-'0')
	}
	var want sqlast.Node
	u := uint(hi)
	put := func() {
		g.in = append(g.in, gtok{cLit, sqltoken.Number, string(b)})
	}
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 0:
		g.kw("VARCHAR")
		g.p(sqltoken.LParen)
		put()
		g.p(sqltoken.RParen)
		want = &sqlast.VarcharType{Size: &u}
	case 1:
		g.kw("CHAR")
		g.p(sqltoken.LParen)
		put()
		g.p(sqltoken.RParen)
		want = &sqlast.CharType{Size: &u}
	case 2:
		g.kw("FLOAT")
		g.p(sqltoken.LParen)
		put()
		g.p(sqltoken.RParen)
		want = &sqlast.Float{Size: &u}
	case 3:
		g.kw("NUMERIC")
		g.p(sqltoken.LParen)
		put()
		g.p(sqltoken.RParen)
		want = &sqlast.Decimal{Precision: &u}
	case 4:
		g.kw("NUMERIC")
		g.p(sqltoken.LParen)
		g.size()
		g.p(sqltoken.Comma)
		put()
		g.p(sqltoken.RParen)
		one := uint(1)
		want = &sqlast.Decimal{Precision: &one, Scale: &u}
	}
	got, err := parserOf(g.tokens()).ParseDataType()
	if err != nil {
		vsym.Check(false, "size-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "size-value")
}

// P08Doubles: decimal literals, against the correctly rounded quotient of two
// exactly represented integers.
func P08Doubles() {
	n := vsym.Concrete(vsym.Int(1, depth(3, 4)))
	b := symDigits(n)
	at := vsym.Concrete(vsym.Int(0, n)) // digits before the point
	if at == 0 {
		at = 1
	}
	s := string(b[:at]) + "." + string(b[at:])
	num, den := 0.0, 1.0
	for i, c := range b {
		num = num*10 + float64(vsym.Concrete(int(c-'0')))
		if i >= at {
			den *= 10
		}
	}
	got, err := selectLit(sqltoken.Number, vsym.Str(s))
	if err != nil {
		vsym.Check(false, "decimal-rejected")
		return
	}
	d, ok := got.(*sqlast.DoubleValue)
	vsym.Check(ok, "decimal-kind")
	if !ok {
		return
	}
	vsym.Check(d.Double == num/den, "decimal-value")
	text := d.ToSQLString()
	again, err := parseText(dGeneric, "SELECT "+text)
	if err != nil || len(again) != 1 {
		vsym.Check(false, "decimal-printed-rejected")
		return
	}
	vsym.Check(vsym.Same(litOf(again[0]), d), "decimal-print")
}

// P08BadNumbers: a number token that is no number is rejected.
func P08BadNumbers() {
	n := vsym.Concrete(vsym.Int(1, depth(3, 4)))
	b := make([]byte, n)
	dots := 0
	for i := range b {
		k := vsym.Int(0, 10)
		if vsym.Split(k == 10) {
			b[i] = '.'
			dots++
		} else {
			b[i] = '0' + byte(k)
		}
	}
	vsym.Assume(b[0] != '.') // numbers start with a digit
	_, err := selectLit(sqltoken.Number, vsym.Str(string(b)))
	vsym.Check((err == nil) == (dots < 2), "number-with-several-points")
}

// P08BigDoubles: large and small decimals.
func P08BigDoubles() {
	n := vsym.Concrete(vsym.Int(1, 330))
	d := '0' + byte(vsym.Int(1, 9))
	frac := vsym.Split(vsym.Bool())
	b := make([]byte, 0, n+4)
	if frac {
		b = append(b, '0', '.')
		for i := 0; i < n; i++ {
			b = append(b, '0')
		}
		b = append(b, d)
	} else {
		b = append(b, d)
		for i := 0; i < n; i++ {
			b = append(b, '0')
		}
		b = append(b, '.')
	}
	s := vsym.Str(string(b))
	got, err := selectLit(sqltoken.Number, s)
	if err != nil {
		vsym.Check(!frac && n >= 308, "big-decimal-rejected")
		return
	}
	v, ok := got.(*sqlast.DoubleValue)
	vsym.Check(ok, "decimal-kind")
	if !ok {
		return
	}
	// no infinity, and zero only for values below the smallest number
	vsym.Check(v.Double <= 1.7976931348623157e308, "decimal-infinite")
	vsym.Check(v.Double > 0 || frac && n >= 323, "decimal-zero")
	again, err := parseText(dGeneric, "SELECT "+v.ToSQLString())
	vsym.Check(err == nil && len(again) == 1 && vsym.Same(litOf(again[0]), v), "decimal-print")
}

// P08Strings: strings of any characters, from source text to source text.
func P08Strings() {
	b := symChars(depth(2, 3))
	d := symDialect()
	national := vsym.Split(vsym.Bool())
	src := []byte("SELECT ")
	if national {
		src = append(src, 'N')
	}
	src = append(src, '\'')
	var val []byte
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c < 0x80 && vsym.Split(c == '\'') {
			src = append(src, '\'', '\'')
			val = append(val, '\'')
			continue
		}
		if c < 0x80 && vsym.Split(c == '\r') {
			src = append(src, '\r')
			val = append(val, '\r')
			continue
		}
		src = append(src, c)
		val = append(val, c)
	}
	src = append(src, '\'')
	var want sqlast.Node = &sqlast.SingleQuotedString{String: string(val)}
	if national {
		want = &sqlast.NationalStringLiteral{String: string(val)}
	}
	st, err := parseText(d, string(src))
	if err != nil || len(st) != 1 {
		vsym.Check(false, "string-rejected")
		return
	}
	got := litOf(st[0])
	vsym.Check(vsym.Same(got, want), "string-value")
	text := st[0].ToSQLString()
	again, err := parseText(d, text)
	if err != nil || len(again) != 1 {
		vsym.Check(false, "string-printed-rejected")
		return
	}
	vsym.Check(vsym.Same(litOf(again[0]), want), "string-print")
}

// P08Places: symbolic literals wherever a statement has one.
func p08(g *G, want sqlast.Stmt) {
	vsym.Assume(len(g.lits) > 0)
	got, err := parseStmt(g.tokens())
	if err != nil {
		vsym.Check(false, "rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "value")
	text := got.ToSQLString()
	again, err := parseText(dGeneric, text)
	if err != nil || len(again) != 1 {
		vsym.Check(false, "printed-rejected")
		return
	}
	vsym.Check(vsym.Same(again[0], want), "printed-value")
}

func P08Places() {
	g := newG(depth(1, 2))
	if vsym.Tier() == 0 {
		g.mask &^= kExpr | kObj | kAlias | kCol
	}
	g.symLits = depth(1, 2)
	g.litExpr = true
	p08(g, g.stmtN(vsym.Concrete(vsym.Int(0, 9))))
}

// longNumbers: numbers of many digits wherever a statement has one.
func longNumbers(g *G, want sqlast.Stmt) {
	vsym.Assume(len(g.lits) > 0)
	got, err := parseStmt(g.tokens())
	if err != nil {
		vsym.Check(false, "rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "value")
}

var manyDigits = [...]int{3, 6, 11, 18}

func P08Long() {
	g := newG(depth(1, 2))
	if vsym.Tier() == 0 {
		g.mask &^= kExpr | kObj | kAlias | kCol
	}
	g.symLits = 4
	g.digits = manyDigits[vsym.Concrete(vsym.Int(0, len(manyDigits)-1))]
	g.litExpr = true
	longNumbers(g, g.stmtN(vsym.Concrete(vsym.Int(0, 9))))
}

// P08LongQuery: the same for the clauses of a query together.
func P08LongQuery() {
	g := newG(0)
	g.free = 1
	g.symLits = 8
	g.digits = manyDigits[vsym.Concrete(vsym.Int(0, len(manyDigits)-1))]
	longNumbers(g, g.queryTop())
}

// P08LongFrame: window frames.
func P08LongFrame() {
	g := newMask(depth(3, 4), kOver|kFrame)
	g.symLits = 8
	g.digits = manyDigits[vsym.Concrete(vsym.Int(0, len(manyDigits)-1))]
	longNumbers(g, selectOf(g, func() sqlast.Node { return g.function() }, nil))
}

func P08Two() {
	g := newMask(depth(2, 3), kExpr|kList)
	g.symLits = 2
	p08(g, selectOf(g, g.expr, nil))
}

func init() {
	reg(
		H{Prop: "P08", Name: "P08.ints", Fn: P08Ints, Bounds: "every integer literal of 1..19 (thorough 20) digits"},
		H{Prop: "P08", Name: "P08.intprint", Fn: P08IntPrint, Bounds: "every integer value 0..4095 printed"},
		H{Prop: "P08", Name: "P08.sizes", Fn: P08Size, Bounds: "every size, precision, scale of 1..5 (thorough 8) digits"},
		H{Prop: "P08", Name: "P08.doubles", Fn: P08Doubles, Bounds: "every decimal of 1..3 (thorough 4) digits, point after any digit"},
		H{Prop: "P08", Name: "P08.bigdoubles", Fn: P08BigDoubles, Bounds: "decimals of one digit followed or preceded by 1..330 zeros"},
		H{Prop: "P08", Name: "P08.badnumbers", Fn: P08BadNumbers, Bounds: "every number token of 1..3 (thorough 4) digits and points"},
		H{Prop: "P08", Name: "P08.strings", Fn: P08Strings, Bounds: "every string and national string of 0..2 (thorough 3) characters of the 41-character alphabet, in source text, each dialect"},
		H{Prop: "P08", Name: "P08.places", Fn: P08Places, Bounds: "every statement kind with up to 1 (thorough 2) deviations other than expression forms, aliases, column constraints (thorough: any), literals in place of names in expressions; the first (thorough: first two) literal any number 0..99 or any (national) string of two ASCII characters"},
		H{Prop: "P08", Name: "P08.long", Fn: P08Long, Bounds: "every statement kind with up to 1 (thorough 2) deviations as in P08.places, its first 4 numbers any number of 3, 6, 11 or 18 digits"},
		H{Prop: "P08", Name: "P08.longquery", Fn: P08LongQuery, Bounds: "every combination of the clauses of a query, LIMIT and OFFSET any number of 3, 6, 11 or 18 digits"},
		H{Prop: "P08", Name: "P08.longframe", Fn: P08LongFrame, Bounds: "window frames of up to 3 (thorough 4) deviations, bounds any number of 3, 6, 11 or 18 digits"},
		H{Prop: "P08", Name: "P08.two", Fn: P08Two, Bounds: "expressions of up to 2 (thorough 3) nested forms whose first two literals are symbolic"},
	)
}
