package hs

import (
	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Whitespace and comments between tokens (P05).

// gap is a token that carries no meaning; which one is symbolic.
func gap() *sqltoken.Token {
	if vsym.Bool() {
		return &sqltoken.Token{Kind: sqltoken.Comment, Value: " x "}
	}
	return &sqltoken.Token{Kind: sqltoken.Whitespace, Value: "\n"}
}

var gapKinds = [2]int{int(sqltoken.Whitespace), int(sqltoken.Comment)}

// symGap is a gap whose kind stays symbolic.
func symGap() *sqltoken.Token {
	return &sqltoken.Token{Kind: sqltoken.Kind(gapKinds[vsym.Int(0, 1)]), Value: string([]byte{" \n\tx"[vsym.Int(0, 3)]})}
}

// spaced puts gaps before, between and after the tokens. all: everywhere,
// else at one symbolic place.
func spaced(toks []*sqltoken.Token, all bool, mk func() *sqltoken.Token) []*sqltoken.Token {
	at := -1
	if !all {
		at = vsym.Concrete(vsym.Int(0, len(toks)))
	}
	var l []*sqltoken.Token
	for i := 0; i <= len(toks); i++ {
		if all || i == at {
			l = append(l, mk())
			if at >= 0 && vsym.Split(vsym.Bool()) {
				l = append(l, mk())
			}
		}
		if i < len(toks) {
			l = append(l, toks[i])
		}
	}
	return l
}

func parseAll(toks []*sqltoken.Token, opts ...xsqlparser.ParserOption) ([]sqlast.Stmt, error) {
	return parserOf(toks, opts...).ParseSQL()
}

// sameParse compares the outcome of two parses.
func sameParse(want []sqlast.Stmt, werr error, got []sqlast.Stmt, gerr error, src func() string) {
	if (werr == nil) != (gerr == nil) {
		vsym.Check(false, "acceptance")
		vsym.Log("source: %s\nplain: %v\nspaced: %v", src(), werr, gerr)
		return
	}
	if werr == nil {
		ok := vsym.Same(got, want)
		vsym.Check(ok, "tree")
		if !vsym.Symbolic() && !ok {
			vsym.Log("source: %s", src())
		}
	}
}

// p05 compares a statement without and with gaps. The statement may have been
// damaged at a symbolic place, so that rejection is compared too.
func p05all(g *G, _ sqlast.Stmt) {
	toks := g.tokens()
	want, werr := parseAll(toks)
	l := spaced(toks, true, symGap)
	got, gerr := parseAll(placeAny(l))
	sameParse(want, werr, got, gerr, func() string { return tokText2(l) })
}

func p05one(g *G, _ sqlast.Stmt) {
	toks := g.tokens()
	want, werr := parseAll(toks)
	l := spaced(toks, false, symGap)
	got, gerr := parseAll(placeAny(l))
	sameParse(want, werr, got, gerr, func() string { return tokText2(l) })
}

// with comments recorded
func p05comment(g *G, _ sqlast.Stmt) {
	toks := g.tokens()
	want, werr := parseAll(toks)
	mk := func() *sqltoken.Token { return &sqltoken.Token{Kind: sqltoken.Comment, Value: " x "} }
	if vsym.Split(vsym.Bool()) {
		mk = func() *sqltoken.Token { return &sqltoken.Token{Kind: sqltoken.Whitespace, Value: "\n"} }
	}
	l := spaced(toks, true, mk)
	f, gerr := parserOf(l, xsqlparser.ParseComment()).ParseFile()
	var got []sqlast.Stmt
	if gerr == nil {
		got = f.Stmts
	}
	sameParse(want, werr, got, gerr, func() string { return tokText2(l) })
}

func p05damaged(g *G, _ sqlast.Stmt) {
	toks := damage(g.tokens())
	want, werr := parseAll(toks)
	if werr == nil {
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	l := spaced(toks, true, symGap)
	got, gerr := parseAll(placeAny(l))
	sameParse(want, werr, got, gerr, func() string { return tokText2(l) })
}

// damage deletes, duplicates or replaces a token at a symbolic place, or cuts
// the rest.
func damage(toks []*sqltoken.Token) []*sqltoken.Token {
	at := vsym.Concrete(vsym.Int(0, len(toks)-1))
	l := append([]*sqltoken.Token(nil), toks[:at]...)
	switch vsym.Concrete(vsym.Int(0, 3)) {
	case 0:
	case 1:
		return l
	case 2:
		c := *toks[at]
		l = append(l, toks[at], &c)
	case 3:
		l = append(l, freeToken())
	}
	return append(l, toks[at+1:]...)
}

// freeToken is an arbitrary token of the parser's vocabulary.
func freeToken() *sqltoken.Token {
	v := vsym.Int(0, len(vocab)-1)
	return vocab[v]
}

var vocab []*sqltoken.Token

func init() {
	w := func(s string) *sqltoken.Token {
		return &sqltoken.Token{Kind: sqltoken.SQLKeyword, Value: sqltoken.MakeKeyword(s, 0)}
	}
	for _, s := range grammarWords {
		vocab = append(vocab, w(s))
	}
	vocab = append(vocab, w("zz"), &sqltoken.Token{Kind: sqltoken.SQLKeyword, Value: sqltoken.MakeKeyword("FROM", '"')})
	for _, k := range []sqltoken.Kind{sqltoken.Comma, sqltoken.LParen, sqltoken.RParen, sqltoken.Period, sqltoken.Eq, sqltoken.Neq, sqltoken.Lt, sqltoken.Gt,
		sqltoken.LtEq, sqltoken.GtEq, sqltoken.Plus, sqltoken.Minus, sqltoken.Mult, sqltoken.Div, sqltoken.Mod, sqltoken.DoubleColon, sqltoken.LBracket,
		sqltoken.RBracket, sqltoken.Semicolon, sqltoken.Colon, sqltoken.Backslash, sqltoken.Ampersand, sqltoken.LBrace, sqltoken.RBrace} {
		vocab = append(vocab, &sqltoken.Token{Kind: k, Value: punctText(k)})
	}
	vocab = append(vocab,
		&sqltoken.Token{Kind: sqltoken.Number, Value: "1"},
		&sqltoken.Token{Kind: sqltoken.Number, Value: "1.5"},
		&sqltoken.Token{Kind: sqltoken.Number, Value: "99999999999999999999"},
		&sqltoken.Token{Kind: sqltoken.SingleQuotedString, Value: "s"},
		&sqltoken.Token{Kind: sqltoken.NationalStringLiteral, Value: "n"},
		&sqltoken.Token{Kind: sqltoken.Char, Value: "|"},
		&sqltoken.Token{Kind: sqltoken.Whitespace, Value: " "},
		&sqltoken.Token{Kind: sqltoken.Whitespace, Value: "\n"},
		&sqltoken.Token{Kind: sqltoken.Comment, Value: " c "},
	)
	for _, t := range vocab {
		t.From = sqltoken.Pos{Line: 1, Col: 1}
		t.To = sqltoken.Pos{Line: 1, Col: 2}
	}
}

// P05Text: the same through source text, with every kind of separator at one
// place, and through ParseFile.
func P05Text() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	seps := []string{"  ", "\n", "\r\n", "\t", " /**/", "\t/* ; */", " -- x;\n", "\n--\r", "\n\n/* a\n b */\n"}
	at := vsym.Concrete(vsym.Int(0, len(g.in)))
	sep := seps[vsym.Concrete(vsym.Int(0, len(seps)-1))]
	s := ""
	for i, t := range g.in {
		if i == at {
			s += sep
		} else if i > 0 {
			s += " "
		}
		s += srcText(t.k, t.s)
	}
	if at == len(g.in) {
		s += sep
	}
	want, werr := parseAll(g.tokens())
	var opts []xsqlparser.ParserOption
	if vsym.Split(vsym.Bool()) {
		opts = append(opts, xsqlparser.ParseComment())
	}
	got, gerr := parseFileText(dGeneric, s, opts...)
	sameParse(want, werr, got, gerr, func() string { return s })
}

func parseFileText(d int, s string, opts ...xsqlparser.ParserOption) ([]sqlast.Stmt, error) {
	p, err := xsqlparser.NewParser(newText(s), dialectOf(d), opts...)
	if err != nil {
		return nil, err
	}
	f, err := p.ParseFile()
	if err != nil {
		return nil, err
	}
	return f.Stmts, nil
}

func allStmts(n int) func(func(*G, sqlast.Stmt)) {
	return func(check func(*G, sqlast.Stmt)) {
		g := newG(n)
		last := 9
		if n > 1 && vsym.Tier() == 0 {
			g.few = true
			last = 8
		}
		s := g.stmtN(vsym.Concrete(vsym.Int(0, last)))
		check(g, s)
	}
}

func P05All()     { allStmts(depth(2, 3))(p05all) }
func P05Exprs()   { rootExprs(p05all) }
func P05Window()  { rootWindow(p05all) }
func P05Joins()   { rootJoins(p05all) }
func P05Cols()    { rootCols(p05all) }
func P05One()     { allStmts(depth(1, 2))(p05one) }
func P05Comment() { allStmts(depth(1, 2))(p05comment) }
func P05Damaged() { allStmts(depth(0, 1))(p05damaged) }

func init() {
	reg(
		H{Prop: "P05", Name: "P05.all", Fn: P05All, Bounds: "every statement kind (quick: except EXPLAIN, lists no longer than by one) with up to 2 (thorough 3) deviations; a gap token, whitespace or comment symbolic at each gap, before, between and after all tokens"},
		H{Prop: "P05", Name: "P05.exprs", Fn: P05Exprs, Bounds: "the same gaps; " + bExprs},
		H{Prop: "P05", Name: "P05.window", Fn: P05Window, Bounds: "the same gaps; " + bWindow},
		H{Prop: "P05", Name: "P05.joins", Fn: P05Joins, Bounds: "the same gaps; " + bJoins},
		H{Prop: "P05", Name: "P05.columns", Fn: P05Cols, Bounds: "the same gaps; " + bCols},
		H{Prop: "P05", Name: "P05.one", Fn: P05One, Bounds: "every statement kind with up to 1 (thorough 2) deviations; one or two gap tokens at one symbolic place"},
		H{Prop: "P05", Name: "P05.comments", Fn: P05Comment, Bounds: "every statement kind with up to 1 (thorough 2) deviations; comment recording on, comments or line ends at every gap"},
		H{Prop: "P05", Name: "P05.damaged", Fn: P05Damaged, Bounds: "every statement kind with up to 0 (thorough 1) deviations, one token deleted, doubled, replaced by any token of the vocabulary, or the rest cut; gaps everywhere"},
		H{Prop: "P05", Name: "P05.text", Fn: P05Text, Bounds: "source texts of every statement kind with up to 0 (thorough 1) deviations, one of 9 separators at any place, ParseFile with and without comments"},
	)
}
