package hs

import (
	"sort"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Token lists that are near a statement of the model: whatever is accepted
// must be printed with all its tokens (P03) and parse back (P02).

// disturb is damage that may also put a token of the vocabulary in between.
func disturb(toks []*sqltoken.Token) []*sqltoken.Token {
	if !vsym.Split(vsym.Bool()) {
		return damage(toks)
	}
	at := vsym.Concrete(vsym.Int(0, len(toks)))
	l := append([]*sqltoken.Token(nil), toks[:at]...)
	l = append(l, freeToken())
	return append(l, toks[at:]...)
}

// normal spells out a token list for comparison. What printing may change is
// left out: separators, AS, the two forms of CAST, synonyms.
func normal(toks []*sqltoken.Token, cast bool) []string {
	var l []string
	prev := ""
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t.Kind == sqltoken.Whitespace || t.Kind == sqltoken.Comment {
			continue
		}
		s, kw := rendered(t)
		if t.Kind == sqltoken.SQLKeyword && kw {
			s = strings.ToUpper(s)
		}
		before := prev
		prev = s
		switch {
		case t.Kind == sqltoken.Semicolon, t.Kind == sqltoken.Comma, t.Kind == sqltoken.DoubleColon:
			continue
		case !kw:
			switch s {
			case "<>":
				s = "!="
			case "(", ")":
				if cast {
					continue
				}
			}
		case s == "AS", s == "CAST" && cast:
			continue
		case s == "VARCHAR":
			l = append(l, "CHARACTER", "VARYING")
			continue
		case s == "CHAR":
			s = "CHARACTER"
		case s == "INTEGER":
			s = "INT"
		case s == "KEY" && before == "UNIQUE":
			continue
		case s == "WITHOUT":
			// WITHOUT TIME ZONE is the default
			if n := skipWords(toks, i+1, "TIME", "ZONE"); n > 0 {
				i = n - 1
				continue
			}
		}
		l = append(l, s)
	}
	return l
}

// skipWords is the place behind the words at i, or 0.
func skipWords(toks []*sqltoken.Token, i int, words ...string) int {
	for _, x := range words {
		for i < len(toks) && (toks[i].Kind == sqltoken.Whitespace || toks[i].Kind == sqltoken.Comment) {
			i++
		}
		if i >= len(toks) {
			return 0
		}
		w, ok := toks[i].Value.(*sqltoken.SQLWord)
		if !ok || w.QuoteStyle != 0 || strings.ToUpper(w.Value) != x {
			return 0
		}
		i++
	}
	return i
}

func definesColumns(toks []*sqltoken.Token) bool {
	for _, t := range toks {
		if w, ok := t.Value.(*sqltoken.SQLWord); ok && w.QuoteStyle == 0 && (strings.ToUpper(w.Value) == "CREATE" || strings.ToUpper(w.Value) == "ALTER") {
			return true
		}
	}
	return false
}

func kept(toks []*sqltoken.Token) {
	l, err := parseAll(toks)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	var parts []string
	for _, s := range l {
		parts = append(parts, s.ToSQLString())
	}
	text := strings.Join(parts, "; ")
	out, ok := lexText(dGeneric, text)
	cast := false
	for _, t := range toks {
		if t.Kind == sqltoken.DoubleColon {
			cast = true
		}
	}
	want, got := normal(toks, cast), normal(out, cast)
	if definesColumns(toks) {
		// the parts of a column may be printed in another order
		sort.Strings(want)
		sort.Strings(got)
	}
	ok = ok && vsym.Same(want, got)
	vsym.Check(ok, "tokens-kept")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source:  %s\nprinted: %s\n%v\n%v", tokText2(toks), text, want, got)
	}
}

func again(toks []*sqltoken.Token) {
	l, err := parseAll(toks)
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	for _, s := range l {
		reparse(dGeneric, func() string { return tokText2(toks) }, s)
	}
}

func near(n int, check func([]*sqltoken.Token)) {
	allStmts(n)(func(g *G, _ sqlast.Stmt) { check(disturb(g.tokens())) })
}

func nearExprs(n int, check func([]*sqltoken.Token)) {
	g := newMask(n, kExpr|kList)
	selectOf(g, g.expr, nil)
	check(disturb(g.tokens()))
}

func nearFrom(n int, check func([]*sqltoken.Token)) {
	g := newMask(n, kJoin|kFactor|kAlias)
	selectOf(g, identExpr(g), func() []sqlast.TableReference { return []sqlast.TableReference{g.tableRef()} })
	check(disturb(g.tokens()))
}

func nearTable(n int, check func([]*sqltoken.Token)) {
	g := newMask(n, kElem|kCol)
	g.few = vsym.Tier() == 0
	g.createTable()
	check(disturb(g.tokens()))
}

// nearSubquery: a query in any place queries can stand in.
func nearSubquery(n, places int, check func([]*sqltoken.Token)) {
	g := newMask(n, kPart|kSet)
	g.kw("SELECT")
	g.depth++
	at := vsym.Concrete(vsym.Int(0, places-1))
	open := func(words ...string) {
		g.kw(words...)
		g.p(sqltoken.LParen)
	}
	switch at {
	case 0:
		open()
	case 1:
		g.id()
		open("IN")
	case 2:
		g.id()
		open("FROM")
	case 3:
		open("EXISTS")
	case 4:
		g.id()
		open("NOT", "IN")
	}
	g.wordQuery()
	g.p(sqltoken.RParen)
	check(disturb(g.tokens()))
}

func nearOf(root func(func(*G, sqlast.Stmt)), check func([]*sqltoken.Token)) {
	root(func(g *G, _ sqlast.Stmt) { check(disturb(g.tokens())) })
}

func P02NearFull()  { nearOf(rootFull, again) }
func P02NearLists() { nearOf(rootShortLists, again) }
func P03NearFull()  { nearOf(rootFull, kept) }
func P03NearLists() { nearOf(rootShortLists, kept) }

func P02NearSubquery() { nearSubquery(depth(1, 2), depth(2, 5), again) }
func P03NearSubquery() { nearSubquery(depth(1, 2), 5, kept) }
func P02Near()         { near(depth(0, 1), again) }
func P02NearExprs()    { nearExprs(depth(1, 2), again) }
func P02NearFrom()     { nearFrom(depth(1, 2), again) }
func P02NearTable()    { nearTable(depth(1, 2), again) }
func P03Near()         { near(depth(0, 1), kept) }
func P03NearExprs()    { nearExprs(depth(1, 2), kept) }
func P03NearFrom()     { nearFrom(depth(1, 2), kept) }
func P03NearTable()    { nearTable(depth(1, 2), kept) }

func init() {
	const d = "; one token deleted, doubled, replaced by or preceded by any token of a vocabulary of 145, or the rest cut; whatever is accepted"
	for _, h := range []H{
		{Prop: "P02", Name: "P02.near-full", Fn: P02NearFull, Budget: 90, Bounds: bFull + d},
		{Prop: "P02", Name: "P02.near-lists", Fn: P02NearLists, Budget: 90, Bounds: bShort + d},
		{Prop: "P02", Name: "P02.near", Fn: P02Near, Bounds: "every statement kind with up to 0/1 deviations" + d},
		{Prop: "P02", Name: "P02.near-exprs", Fn: P02NearExprs, Bounds: "a select item of up to 1/2 nested forms" + d},
		{Prop: "P02", Name: "P02.near-from", Fn: P02NearFrom, Bounds: "a FROM clause with up to 1/2 deviations" + d},
		{Prop: "P02", Name: "P02.near-table", Fn: P02NearTable, Budget: 70, Bounds: "CREATE TABLE with up to 1/2 deviations" + d},
		{Prop: "P02", Name: "P02.near-subquery", Fn: P02NearSubquery, Bounds: "a query with up to 1/2 parts in a select item or IN (thorough: also NOT IN, EXISTS, FROM)" + d},
		{Prop: "P03", Name: "P03.near-subquery", Fn: P03NearSubquery, Bounds: "a query with up to 1/2 parts in a select item, IN, NOT IN, EXISTS or FROM" + d},
		{Prop: "P03", Name: "P03.near-full", Fn: P03NearFull, Budget: 70, Bounds: bFull + d},
		{Prop: "P03", Name: "P03.near-lists", Fn: P03NearLists, Bounds: bShort + d},
		{Prop: "P03", Name: "P03.near", Fn: P03Near, Bounds: "every statement kind with up to 0/1 deviations" + d},
		{Prop: "P03", Name: "P03.near-exprs", Fn: P03NearExprs, Bounds: "a select item of up to 1/2 nested forms" + d},
		{Prop: "P03", Name: "P03.near-from", Fn: P03NearFrom, Bounds: "a FROM clause with up to 1/2 deviations" + d},
		{Prop: "P03", Name: "P03.near-table", Fn: P03NearTable, Bounds: "CREATE TABLE with up to 1/2 deviations" + d},
	} {
		reg(h)
	}
}
