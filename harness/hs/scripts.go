package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Long scripts (P09).

// longParts are n statements (DELETE, SELECT, UPDATE, INSERT, ...), the kth of any kind.
func longParts(n, k int) [][]*sqltoken.Token {
	var parts [][]*sqltoken.Token
	kind := vsym.Concrete(vsym.Int(0, 9))
	for i := 0; i < n; i++ {
		g := newG(0)
		if i == k {
			g.stmtN(kind)
		} else {
			g.stmtN([]int{3, 0, 2, 1, 3, 2, 0}[i%7])
		}
		parts = append(parts, g.tokens())
	}
	return parts
}

// P09Long: many statements, with an empty one, a missing semicolon or a
// damaged statement at any place, as tokens or as a file.
func P09Long() {
	n := vsym.Concrete(vsym.Int(1, depth(8, 24)))
	k := vsym.Concrete(vsym.Int(0, n-1))
	parts := longParts(n, k)
	flaw := vsym.Concrete(vsym.Int(0, 4))
	switch {
	case flaw == 4:
		parts[k] = damageOne(parts[k])
	case flaw == 1 && k+1 < n:
		// the semicolon is missing
		one := append(copyTokens(parts[k]), parts[k+1]...)
		parts = append(append(append([][]*sqltoken.Token(nil), parts[:k]...), one), parts[k+2:]...)
		n--
	}
	end := vsym.Split(vsym.Bool())
	var want []sqlast.Stmt
	var werr error
	var all []*sqltoken.Token
	for i, p := range parts {
		s, err := parseStmt(copyTokens(p))
		if err != nil && werr == nil {
			werr = err
		}
		want = append(want, s)
		all = append(all, copyTokens(p)...)
		last := i == n-1
		switch {
		case last && !end:
		case i == k && (flaw == 2 || flaw == 3):
			werr = errOther
			all = append(all, semi(), semi())
			if flaw == 3 {
				all = append(all, semi())
			}
		default:
			all = append(all, semi())
		}
	}
	file := vsym.Split(vsym.Bool())
	var got []sqlast.Stmt
	var err error
	if file {
		f, e := parserOf(placeAny(all)).ParseFile()
		if err = e; e == nil {
			got = f.Stmts
		}
	} else {
		got, err = parserOf(placeAny(all)).ParseSQL()
	}
	sameParse(want, werr, got, err, tokTextOf(all))
	if err == nil {
		vsym.Reach("accepted")
	}
}

// damageOne deletes or doubles the first or last token, or empties the
// statement to its first token.
func damageOne(l []*sqltoken.Token) []*sqltoken.Token {
	switch vsym.Concrete(vsym.Int(0, 3)) {
	case 0:
		return l[1:]
	case 1:
		return l[:len(l)-1]
	case 2:
		return append([]*sqltoken.Token{l[0]}, l...)
	}
	return l[:1]
}

// P09Repeat: a script of many times the same few statements.
func P09Repeat() {
	n := vsym.Concrete(vsym.Int(1, depth(140, 300)))
	mode := vsym.Concrete(vsym.Int(0, 1))
	var kinds [3][]*sqltoken.Token
	var trees [3]sqlast.Stmt
	for k := range kinds {
		g := newMask(0, 0)
		trees[k] = g.long1([]int{0, 13, 0}[k], k+1)
		kinds[k] = g.tokens()
	}
	var all []*sqltoken.Token
	var want []sqlast.Stmt
	for i := 0; i < n; i++ {
		if i > 0 {
			all = append(all, semi())
		}
		k := (i*i + i/3) % 3
		all = append(all, kinds[k]...)
		want = append(want, trees[k])
	}
	var got []sqlast.Stmt
	var err error
	if mode == 1 {
		f, e := parserOf(append(all, semi())).ParseFile()
		if err = e; e == nil {
			got = f.Stmts
		}
	} else {
		got, err = parserOf(all).ParseSQL()
	}
	sameParse(want, nil, got, err, func() string { return "a long script" })
}

func init() {
	reg(
		H{Prop: "P09", Name: "P09.repeat", Fn: P09Repeat, Bounds: "1..140/300 short statements of three kinds, ParseSQL and ParseFile with a final semicolon"},
		H{Prop: "P09", Name: "P09.long", Fn: P09Long, Bounds: "1..8/24 statements (DELETE, SELECT, UPDATE, INSERT, ...), one of them of any kind; unharmed, or with one or two semicolons too many or one missing behind any statement, or with any statement damaged (first or last token missing, first token doubled or alone); final semicolon or none; ParseSQL and ParseFile"},
	)
}
