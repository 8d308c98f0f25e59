package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Parsing any token sequence (P01). Panics and endless loops are violations
// everywhere; here every operation must also return a result or an error.

func isNilNode(n interface{}) bool { return n == nil }

// total runs one parse operation and judges its result.
func total(entry int, toks []*sqltoken.Token) {
	if !vsym.Symbolic() {
		vsym.Log("source: %s (operation %d)", tokText2(toks), entry)
	}
	p := parserOf(toks)
	switch entry {
	case 0:
		l, err := p.ParseSQL()
		judgeList(l, err)
	case 1:
		f, err := p.ParseFile()
		vsym.Check(err != nil || f != nil, "file-result")
		if err == nil {
			judgeList(f.Stmts, nil)
		}
	case 2:
		s, err := p.ParseStatement()
		vsym.Check(err != nil || s != nil, "statement-result")
		if err == nil {
			_ = s.ToSQLString()
			vsym.Reach("statement")
		}
	case 3:
		e, err := p.ParseExpr()
		vsym.Check(err != nil || e != nil, "expression-result")
		if err == nil {
			_ = e.ToSQLString()
			vsym.Reach("expression")
		}
	case 4:
		t, err := p.ParseDataType()
		vsym.Check(err != nil || t != nil, "type-result")
		if err == nil {
			_ = t.ToSQLString()
			vsym.Reach("type")
		}
	}
}

func judgeList(l []sqlast.Stmt, err error) {
	vsym.Check(err == nil || len(l) == 0, "list-result")
	if err != nil {
		vsym.Check(err.Error() != "", "error-text")
		vsym.Reach("rejected")
		return
	}
	for _, s := range l {
		if s == nil {
			vsym.Check(false, "nil-statement")
			return
		}
		_ = s.ToSQLString()
	}
	vsym.Reach("accepted")
}

// P01Free: arbitrary tokens.
func P01Free() {
	n := vsym.Concrete(vsym.Int(0, depth(3, 5)))
	toks := make([]*sqltoken.Token, n)
	for i := range toks {
		toks[i] = freeToken()
	}
	total(vsym.Concrete(vsym.Int(0, 4)), toks)
}

// P01Prefix: the beginning of a statement, then arbitrary tokens.
func P01Prefix() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	toks := g.tokens()
	toks = toks[:vsym.Concrete(vsym.Int(1, len(toks)))]
	for n := vsym.Concrete(vsym.Int(0, 2)); n > 0; n-- {
		toks = append(toks, freeToken())
	}
	total(vsym.Concrete(vsym.Int(0, 1)), toks)
}

func P01Damaged() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	total(vsym.Concrete(vsym.Int(0, 1)), damage(g.tokens()))
}

// P01Full and P01Lists: the same with all parts and in lists.
func P01Full() {
	rootFull(func(g *G, _ sqlast.Stmt) { total(0, disturb(g.tokens())) })
}

func P01Lists() {
	rootShortLists(func(g *G, _ sqlast.Stmt) { total(0, disturb(g.tokens())) })
}

// P01Expr: a damaged expression.
func P01Expr() {
	g := newMask(depth(1, 2), kExpr|kList)
	g.expr()
	total(3, damage(g.tokens()))
}

// P01Type: a damaged data type.
func P01Type() {
	g := newMask(depth(3, 4), kType|kObj)
	g.dataTypeN(vsym.Concrete(vsym.Int(0, nTypes-1)))
	total(4, damage(g.tokens()))
}

func init() {
	reg(
		H{Prop: "P01", Name: "P01.free", Fn: P01Free, Bounds: "every sequence of 0..3 (thorough 5) tokens of a vocabulary of 145 tokens (every grammar word, names, literals, every kind), through ParseSQL, ParseFile, ParseStatement, ParseExpr, ParseDataType"},
		H{Prop: "P01", Name: "P01.prefix", Fn: P01Prefix, Bounds: "every prefix of every statement kind with up to 0 (thorough 1) deviations, followed by 0..2 arbitrary tokens; ParseSQL, ParseFile"},
		H{Prop: "P01", Name: "P01.damaged", Fn: P01Damaged, Bounds: "every statement kind with up to 0 (thorough 1) deviations, a token deleted, doubled, replaced by any token of the vocabulary, or the rest cut"},
		H{Prop: "P01", Name: "P01.full", Fn: P01Full, Bounds: bFull + "; a token deleted, doubled, replaced by or preceded by any token of the vocabulary, or the rest cut"},
		H{Prop: "P01", Name: "P01.lists", Fn: P01Lists, Bounds: bShort + "; the same damage"},
		H{Prop: "P01", Name: "P01.expr", Fn: P01Expr, Bounds: "expressions of up to 1 (thorough 2) nested forms damaged the same way, ParseExpr"},
		H{Prop: "P01", Name: "P01.type", Fn: P01Type, Bounds: "types with up to 3 (thorough 4) suffixes damaged the same way, ParseDataType"},
	)
}
