package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Letter case of keywords (P06), quoted names (P07), scripts (P09).

// caseTokens gives every keyword token a symbolic mix of letter case.
func (g *G) caseTokens() []*sqltoken.Token {
	toks := g.tokens()
	for i, t := range g.in {
		if t.c == cKeyword {
			toks[i].Value.(*sqltoken.SQLWord).Value = symCase(t.s)
		}
	}
	return toks
}

func tokTextOf(l []*sqltoken.Token) func() string { return func() string { return tokText2(l) } }

func p06(g *G, _ sqlast.Stmt) {
	want, werr := parseAll(g.tokens())
	l := g.caseTokens()
	got, gerr := parseAll(l)
	sameParse(want, werr, got, gerr, tokTextOf(l))
}

func p06damaged(g *G, _ sqlast.Stmt) {
	toks := g.tokens()
	plain := damage(toks)
	_, werr := parseAll(plain)
	// the same tokens again, keywords in symbolic case
	l := make([]*sqltoken.Token, len(plain))
	for i, t := range plain {
		c := *t
		l[i] = &c
		for j := range toks {
			if g.in[j].c == cKeyword && sameWord(t, toks[j]) {
				w := *(t.Value.(*sqltoken.SQLWord))
				w.Value = symCase(g.in[j].s)
				c.Value = &w
			}
		}
	}
	_, gerr := parseAll(l)
	if werr == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	if (werr == nil) != (gerr == nil) {
		vsym.Check(false, "acceptance")
		vsym.Log("source: %s\nplain: %v\ncased: %v", tokText2(l), werr, gerr)
	}
}

func sameWord(a, b *sqltoken.Token) bool { return a.Value == b.Value }

// P06Text: the source text, one word in every case mix, the others in upper or
// lower case.
func P06Text() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	at := vsym.Concrete(vsym.Int(0, len(g.in)-1))
	if g.in[at].c != cKeyword {
		return
	}
	lower := vsym.Split(vsym.Bool())
	s := ""
	for i, t := range g.in {
		if i > 0 {
			s += " "
		}
		switch {
		case i == at && len(t.s) <= 6:
			s += symCase(t.s)
		case i == at:
			s += symCase(t.s[:2]) + t.s[2:len(t.s)-2] + symCase(t.s[len(t.s)-2:])
		case t.c == cKeyword && lower:
			s += strings.ToLower(t.s)
		default:
			s += srcText(t.k, t.s)
		}
	}
	want, werr := parseAll(g.tokens())
	got, gerr := parseFileText(dGeneric, s)
	sameParse(want, werr, got, gerr, func() string { return s })
}

func P06All()     { allStmts(depth(2, 3))(p06) }
func P06Exprs()   { rootExprs(p06) }
func P06Window()  { rootWindow(p06) }
func P06Joins()   { rootJoins(p06) }
func P06Cols()    { rootCols(p06) }
func P06Types()   { rootTypes(p06) }
func P06Damaged() { allStmts(depth(0, 1))(p06damaged) }

// ---- quoted names ----

// quotedText is an entry of the table of names written in quotes.
type quotedText struct {
	value   string
	keyword string
	quoted  string // as kept in the tree
}

var quotedTexts []*quotedText

func init() {
	add := func(s string) {
		quotedTexts = append(quotedTexts, &quotedText{s, strings.ToUpper(s), `"` + s + `"`})
	}
	for _, w := range grammarWords {
		add(w)
	}
	for _, s := range []string{"from", "", " ", "a b", "é", "1", "*", "a.b", "--", "select 1", "/*", "'", ";", "INTERVAL", "COUNT", "EXTRACT", "RETURNING", "IGNORE", "KEYS"} {
		add(s)
	}
}

func quotedToken(q *quotedText) *sqltoken.SQLWord {
	return &sqltoken.SQLWord{Value: q.value, Keyword: q.keyword, QuoteStyle: '"'}
}

// p07 replaces one name of the statement by a quoted one.
func p07(g *G, want sqlast.Stmt) {
	plain, err := parseStmt(g.tokens())
	if err != nil || !vsym.Same(plain, want) {
		vsym.Reach("plain-statement-not-recorded")
		return
	}
	if len(g.names) == 0 {
		return
	}
	n := g.names[vsym.Concrete(vsym.Int(0, len(g.names)-1))]
	q := quotedTexts[vsym.Int(0, len(quotedTexts)-1)]
	l := g.tokens()
	l[n.tok].Value = quotedToken(q)
	old := n.node.Value
	n.node.Value = q.quoted
	got, err := parseStmt(l)
	if err != nil {
		vsym.Check(false, "rejected")
		vsym.Log("source: %s\nerror: %v", tokText2(l), err)
		return
	}
	ok := vsym.Same(got, want)
	vsym.Check(ok, "tree")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s\ngot:  %s\nwant: %s", tokText2(l), sqlOf(got), sqlOf(want))
	}
	n.node.Value = old
}

// p07all quotes every name, each with a text of its own.
func p07all(g *G, want sqlast.Stmt) {
	plain, err := parseStmt(g.tokens())
	if err != nil || !vsym.Same(plain, want) {
		vsym.Reach("plain-statement-not-recorded")
		return
	}
	l := g.tokens()
	for i, n := range g.names {
		q := quotedTexts[(i*7+3)%len(quotedTexts)]
		l[n.tok].Value = quotedToken(q)
		n.node.Value = q.quoted
	}
	got, err := parseStmt(l)
	if err != nil {
		vsym.Check(false, "rejected")
		vsym.Log("source: %s\nerror: %v", tokText2(l), err)
		return
	}
	ok := vsym.Same(got, want)
	vsym.Check(ok, "tree")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s\ngot:  %s\nwant: %s", tokText2(l), sqlOf(got), sqlOf(want))
	}
}

// p07anywhere puts a quoted word in place of, or before, any token: which
// keyword its text equals makes no difference.
func p07anywhere(g *G, _ sqlast.Stmt) {
	toks := g.tokens()
	at := vsym.Concrete(vsym.Int(0, len(toks)))
	q := quotedTexts[vsym.Int(0, len(grammarWords)-1)]
	rest := at
	if at < len(toks) && vsym.Split(vsym.Bool()) {
		rest = at + 1
	}
	mk := func(value, kw string) []*sqltoken.Token {
		l := append([]*sqltoken.Token(nil), toks[:at]...)
		l = append(l, &sqltoken.Token{Kind: sqltoken.SQLKeyword, Value: &sqltoken.SQLWord{Value: value, Keyword: kw, QuoteStyle: '"'}})
		return place(append(l, toks[rest:]...))
	}
	_, werr := parseAll(mk("q", "ZZ"))
	l := mk(q.value, q.keyword)
	got, gerr := parseAll(l)
	if werr == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	if (werr == nil) != (gerr == nil) {
		vsym.Check(false, "acceptance")
		vsym.Log("source: %s\nas a name: %v\ngot: %v", tokText2(l), werr, gerr)
		return
	}
	if werr == nil {
		want, err := parseAll(mk(q.value, "ZZ"))
		vsym.Check(err == nil && vsym.Same(got, want), "tree")
	}
}

func P07AtExprs() { rootExprs(p07anywhere) }
func P07AtWindow() {
	g := newMask(depth(3, 6), kOver|kFrame|kOrder|kList)
	p07anywhere(g, selectOf(g, func() sqlast.Node { g.depth++; return g.function() }, nil))
}
func P07AtCols() {
	g := newMask(depth(3, 4), kCol)
	p07anywhere(g, g.createTable())
}
func P07AtSchema() { rootSchema(p07anywhere) }

// P07Text: quoted names in source text in each dialect's quotes, with
// arbitrary characters.
func P07Text() {
	d := vsym.Concrete(vsym.Int(0, 2))
	quotes := []string{`"`, "`"}
	if d == dGeneric {
		quotes = quotes[:1]
	}
	if d == dPostgres {
		quotes = quotes[:1]
	}
	if d == dMySQL {
		quotes = quotes[1:]
	}
	qs := quotes[vsym.Concrete(vsym.Int(0, len(quotes)-1))]
	g := newG(0)
	want := g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	plain, err := parseStmt(g.tokens())
	if err != nil || !vsym.Same(plain, want) {
		vsym.Reach("plain-statement-not-recorded")
		return
	}
	n := g.names[vsym.Concrete(vsym.Int(0, len(g.names)-1))]
	var body string
	for k := vsym.Concrete(vsym.Int(1, depth(2, 3))); k > 0; k-- {
		c := vsym.Byte()
		// the lexical grammar has no quote inside quotes
		vsym.Assume(c > 0 && c < 0x80 && c != '\r' && c != qs[0])
		body += string([]byte{c})
	}
	name := qs + body + qs
	s := ""
	for i, t := range g.in {
		if i > 0 {
			s += " "
		}
		if i == n.tok {
			s += name
		} else {
			s += srcText(t.k, t.s)
		}
	}
	n.node.Value = name
	got, err := parseText(d, s)
	if err != nil || len(got) != 1 {
		vsym.Check(false, "rejected")
		vsym.Log("source: %s\nerror: %v", s, err)
		return
	}
	ok := vsym.Same(got[0], want)
	vsym.Check(ok, "tree")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s\ngot:  %s\nwant: %s", s, sqlOf(got[0]), sqlOf(want))
	}
}

func P07All()      { allStmts(depth(1, 2))(p07) }
func P07Every()    { allStmts(depth(1, 3))(p07all) }
func P07Exprs()    { rootExprs(p07all) }
func P07Joins()    { rootJoins(p07all) }
func P07Window()   { rootWindow(p07all) }
func P07Cols()     { rootCols(p07all) }
func P07Elems()    { rootElems(p07all) }
func P07Anywhere() { allStmts(depth(1, 2))(p07anywhere) }

func P07Full()  { rootFull(p07anywhere) }
func P07Lists() { rootShortLists(p07anywhere) }

// P07From: aliased tables and joins.
func P07From() {
	g := newMask(depth(3, 4), kJoin|kFactor|kAlias)
	s := selectOf(g, identExpr(g), func() []sqlast.TableReference { return []sqlast.TableReference{g.tableRef()} })
	p07anywhere(g, s)
}

// ---- scripts ----

func semi() *sqltoken.Token {
	return &sqltoken.Token{Kind: sqltoken.Semicolon, Value: ";"}
}

// script parses the statements alone and together.
func script(parts [][]*sqltoken.Token, mode int, lay func([]*sqltoken.Token) []*sqltoken.Token) {
	var want []sqlast.Stmt
	var werr error
	var all []*sqltoken.Token
	for i, p := range parts {
		s, err := parseStmt(copyTokens(p))
		if err != nil && werr == nil {
			werr = err
		}
		want = append(want, s)
		if i > 0 {
			all = append(all, semi())
		}
		all = append(all, copyTokens(p)...)
	}
	if mode > 0 {
		all = append(all, semi())
	}
	var got []sqlast.Stmt
	var err error
	if mode == 2 {
		f, e := parserOf(lay(all)).ParseFile()
		err = e
		if e == nil {
			got = f.Stmts
		}
	} else {
		got, err = parserOf(lay(all)).ParseSQL()
	}
	sameParse(want, werr, got, err, tokTextOf(all))
}

func copyTokens(l []*sqltoken.Token) []*sqltoken.Token {
	r := make([]*sqltoken.Token, len(l))
	for i, t := range l {
		r[i] = t
	}
	return r
}

// part of a script: any statement with up to n deviations.
func anyPart(n int) []*sqltoken.Token {
	g := newG(n)
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	return g.tokens()
}

// otherPart is the undamaged neighbour: a few kinds, in the thorough tier all.
func otherPart() []*sqltoken.Token {
	if vsym.Tier() > 0 {
		return anyPart(0)
	}
	g := newG(0)
	g.stmtN([]int{0, 2, 7}[vsym.Concrete(vsym.Int(0, 2))])
	return g.tokens()
}

// P09Pairs: two statements of any kind, one of them with deviations.
func P09Pairs() {
	n := depth(1, 2)
	var parts [][]*sqltoken.Token
	if vsym.Split(vsym.Bool()) {
		parts = append(parts, anyPart(n), otherPart())
	} else {
		parts = append(parts, otherPart(), anyPart(n))
	}
	script(parts, vsym.Concrete(vsym.Int(0, 2)), placeAny)
}

// P09Many: several statements of any kind.
func P09Many() {
	var parts [][]*sqltoken.Token
	for n := vsym.Concrete(vsym.Int(1, depth(3, 4))); n > 0; n-- {
		parts = append(parts, anyPart(0))
	}
	script(parts, vsym.Concrete(vsym.Int(0, 2)), placeAny)
}

// P09Damaged: one of two statements is damaged.
func P09Damaged() {
	a := otherPart()
	b := damage(anyPart(0))
	if len(b) == 0 {
		return
	}
	for _, t := range b {
		if vsym.Split(t.Kind == sqltoken.Semicolon) {
			return
		}
	}
	if vsym.Split(vsym.Bool()) {
		script([][]*sqltoken.Token{a, b}, 0, place)
	} else {
		script([][]*sqltoken.Token{b, a}, 2, place)
	}
}

// P09Text: through source text, with separators around the semicolon, read
// statement by statement as well.
func P09Text() {
	n := vsym.Concrete(vsym.Int(1, depth(2, 3)))
	seps := []string{";", " ;", "; ", ";\n", "\n;\n", " -- ;\n;", ";/* ; */"}
	s := ""
	var want []sqlast.Stmt
	for i := 0; i < n; i++ {
		g := newG(0)
		g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
		st, err := parseStmt(g.tokens())
		if err != nil {
			return
		}
		want = append(want, st)
		s += g.source()
		if i < n-1 {
			s += seps[vsym.Concrete(vsym.Int(0, len(seps)-1))]
		}
	}
	end := vsym.Concrete(vsym.Int(0, 4))
	s += []string{"", ";", ";\n", " ; -- end", "\n"}[end]
	p, err := xsqlparser.NewParser(newText(s), dialectOf(dGeneric))
	if err != nil {
		vsym.Check(false, "tokens")
		return
	}
	var got []sqlast.Stmt
	if end < 3 {
		got, err = p.ParseSQL()
	} else {
		var f *sqlast.File
		f, err = p.ParseFile()
		if err == nil {
			got = f.Stmts
		}
	}
	sameParse(want, nil, got, err, func() string { return s })
}

func init() {
	reg(
		H{Prop: "P06", Name: "P06.all", Fn: P06All, Bounds: "every statement kind (quick: except EXPLAIN, lists no longer than by one) with up to 2 (thorough 3) deviations; every letter of every keyword in either case"},
		H{Prop: "P06", Name: "P06.exprs", Fn: P06Exprs, Bounds: "every letter-case mix; " + bExprs},
		H{Prop: "P06", Name: "P06.window", Fn: P06Window, Bounds: "every letter-case mix; " + bWindow},
		H{Prop: "P06", Name: "P06.joins", Fn: P06Joins, Bounds: "every letter-case mix; " + bJoins},
		H{Prop: "P06", Name: "P06.columns", Fn: P06Cols, Bounds: "every letter-case mix; " + bCols},
		H{Prop: "P06", Name: "P06.types", Fn: P06Types, Bounds: "every letter-case mix; " + bTypes},
		H{Prop: "P06", Name: "P06.damaged", Fn: P06Damaged, Bounds: "every statement kind with up to 0 (thorough 1) deviations, damaged at any token; acceptance in every letter-case mix"},
		H{Prop: "P06", Name: "P06.text", Fn: P06Text, Bounds: "source texts of every statement kind with up to 0 (thorough 1) deviations, any one keyword in every case mix (inner letters of words over 6 letters fixed), the others in upper or lower case"},

		H{Prop: "P07", Name: "P07.name", Fn: P07All, Bounds: "every statement kind with up to 1 (thorough 2) deviations; any one name replaced by a quoted one whose text is any word of the grammar or one of 19 other texts"},
		H{Prop: "P07", Name: "P07.every", Fn: P07Every, Bounds: "every statement kind with up to 1 (thorough 3) deviations; every name quoted, each with a different keyword"},
		H{Prop: "P07", Name: "P07.exprs", Fn: P07Exprs, Bounds: "every name quoted; " + bExprs},
		H{Prop: "P07", Name: "P07.joins", Fn: P07Joins, Bounds: "every name quoted; " + bJoins},
		H{Prop: "P07", Name: "P07.window", Fn: P07Window, Bounds: "every name quoted; " + bWindow},
		H{Prop: "P07", Name: "P07.columns", Fn: P07Cols, Bounds: "every name quoted; " + bCols},
		H{Prop: "P07", Name: "P07.elements", Fn: P07Elems, Bounds: "every name quoted; " + bElems},
		H{Prop: "P07", Name: "P07.anywhere", Fn: P07Anywhere, Bounds: "every statement kind with up to 1 (thorough 2) deviations; a quoted word put before or in place of any token: which keyword it equals makes no difference"},
		H{Prop: "P07", Name: "P07.anywhere-exprs", Fn: P07AtExprs, Bounds: bExprs + "; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-window", Fn: P07AtWindow, Bounds: "one function, every OVER shape, 3/6 deviations among frames, directions, list lengths; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-columns", Fn: P07AtCols, Bounds: "one column definition with up to 3 parts in every order, 3/4 deviations; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-schema", Fn: P07AtSchema, Bounds: bSchema + "; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-full", Fn: P07Full, Bounds: bFull + "; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-lists", Fn: P07Lists, Bounds: bShort + "; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.anywhere-from", Fn: P07From, Bounds: "a FROM clause with up to 3/4 deviations among joins, table forms and aliases; a quoted word anywhere in the same way"},
		H{Prop: "P07", Name: "P07.text", Fn: P07Text, Bounds: "source texts of every statement kind in each dialect, any one name in the dialect's quotes with 1..2 (thorough 3) arbitrary ASCII characters other than the quote"},

		H{Prop: "P09", Name: "P09.pairs", Fn: P09Pairs, Bounds: "two statements, one of every kind with up to 1 (thorough 2) deviations, the other, before or after it, a query, UPDATE or DROP (thorough: any kind); with and without a final semicolon, ParseSQL and ParseFile"},
		H{Prop: "P09", Name: "P09.many", Fn: P09Many, Bounds: "1..3 (thorough 4) statements of every kind"},
		H{Prop: "P09", Name: "P09.damaged", Fn: P09Damaged, Budget: 200, Bounds: "two statements, one of every kind and the other as in P09.pairs, one with a token deleted, doubled, replaced by any token of the vocabulary, or cut"},
		H{Prop: "P09", Name: "P09.text", Fn: P09Text, Bounds: "source texts of 1..2 (thorough 3) statements of every kind, 7 separators, 5 endings, ParseSQL and ParseFile"},
	)
}
