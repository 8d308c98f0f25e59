package hs

import (
	"bytes"
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Printing and parsing again (P02), and printed text against the statement
// (P03).

// significant tokens of a text
func lexText(d int, s string) ([]*sqltoken.Token, bool) {
	toks, err := sqltoken.NewTokenizer(bytes.NewReader([]byte(s)), dialectOf(d)).Tokenize()
	if err != nil {
		return nil, false
	}
	var l []*sqltoken.Token
	for _, t := range toks {
		if t.Kind != sqltoken.Whitespace && t.Kind != sqltoken.Comment {
			l = append(l, t)
		}
	}
	return l, true
}

// rendered is the spelling a token is compared by.
func rendered(t *sqltoken.Token) (text string, keyword bool) {
	switch v := t.Value.(type) {
	case *sqltoken.SQLWord:
		if v.QuoteStyle == 0 {
			return v.Value, true
		}
		return v.String(), false
	case string:
		switch t.Kind {
		case sqltoken.SingleQuotedString:
			return "'" + v + "'", false
		case sqltoken.NationalStringLiteral:
			return "N'" + v + "'", false
		}
		return v, false
	}
	return "", false
}

// reparse checks P02 for an accepted statement.
func reparse(d int, src func() string, got sqlast.Stmt) {
	text := got.ToSQLString()
	again, err := parseText(d, text)
	if err != nil || len(again) != 1 {
		vsym.Log("source: %s\nprinted: %s\nerror: %v, %d statements", src(), text, err, len(again))
		vsym.Check(false, "printed-rejected")
		return
	}
	ok := vsym.Same(again[0], got)
	text2 := again[0].ToSQLString()
	vsym.Check(ok, "tree-differs")
	vsym.Check(text2 == text, "text-differs")
	if !vsym.Symbolic() && (!ok || text2 != text) {
		vsym.Log("source: %s\nprinted: %s\nagain:   %s", src(), text, text2)
	}
}

func p02(g *G, _ sqlast.Stmt) {
	got, err := parseStmt(g.tokens())
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	reparse(dGeneric, g.source, got)
}

// p03 compares the printed tokens with the canonical ones.
func p03(g *G, _ sqlast.Stmt) {
	got, err := parseStmt(g.tokens())
	if err != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	text := got.ToSQLString()
	toks, ok := lexText(dGeneric, text)
	if !ok {
		vsym.Log("source: %s\nprinted: %s", g.source(), text)
		vsym.Check(false, "printed-tokens")
		return
	}
	same := len(toks) == len(g.out)
	for i := 0; same && i < len(toks); i++ {
		s, kw := rendered(toks[i])
		o := g.out[i]
		if o.c == cKeyword {
			same = kw && strings.ToUpper(s) == o.s
		} else {
			same = s == o.s
		}
	}
	if !same {
		vsym.Log("source: %s\nprinted: %s\nwant:    %s", g.source(), text, g.canonical())
	}
	vsym.Check(same, "printed")
}

func (g *G) canonical() string {
	var l []string
	for _, o := range g.out {
		l = append(l, o.s)
	}
	return strings.Join(l, " ")
}

// roots of the statement space shared by several properties

func rootQuery(check func(*G, sqlast.Stmt)) {
	g := newG(depth(2, 3))
	g.selAt = 0
	s := g.queryTop()
	check(g, s)
}

func rootClauses(check func(*G, sqlast.Stmt)) {
	g := newG(depth(0, 1))
	g.free = 1
	s := g.queryTop()
	check(g, s)
}

func rootJoins(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(4, 6), kJoin|kAlias)
	s := selectOf(g, identExpr(g), func() []sqlast.TableReference { return []sqlast.TableReference{g.tableRef()} })
	check(g, s)
}

func rootFactors(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(4, 6), kFactor|kAlias|kList|kObj)
	s := selectOf(g, identExpr(g), func() []sqlast.TableReference {
		return []sqlast.TableReference{g.tableRef(), func() sqlast.TableReference { g.p(sqltoken.Comma); return g.tableRef() }()}
	})
	check(g, s)
}

func rootWindow(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(4, 6), kOver|kFrame|kOrder|kList|kObj)
	s := selectOf(g, func() sqlast.Node { g.depth++; return g.function() }, nil)
	check(g, s)
}

func rootSets(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(3, 4), kSet|kPart)
	g.selAt = 0
	s := g.queryTop()
	check(g, s)
}

func rootExprs(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(2, 3), kExpr|kList)
	s := selectOf(g, g.expr, nil)
	check(g, s)
}

func rootChanges(check func(*G, sqlast.Stmt)) {
	g := newG(depth(1, 2))
	g.free = 1
	s := g.stmtN(vsym.Concrete(vsym.Int(1, 3)))
	check(g, s)
}

func rootLists(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(5, 7), kList|kPart|kObj)
	s := g.stmtN(vsym.Concrete(vsym.Int(1, 3)))
	check(g, s)
}

func rootExplain(check func(*G, sqlast.Stmt)) {
	g := newG(depth(1, 2))
	g.kw("EXPLAIN")
	s := &sqlast.ExplainStmt{Stmt: g.stmtN(vsym.Concrete(vsym.Int(0, 9)))}
	check(g, s)
}

func rootSchema(check func(*G, sqlast.Stmt)) {
	g := newG(depth(1, 2))
	g.free = 1
	s := g.stmtN(vsym.Concrete(vsym.Int(4, 8)))
	check(g, s)
}

func rootCols(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(4, 5), kCol)
	if vsym.Split(vsym.Bool()) {
		g.kw("ALTER", "TABLE")
		s := &sqlast.AlterTableStmt{TableName: g.obj()}
		g.kw("ADD", "COLUMN")
		s.Action = &sqlast.AddColumnTableAction{Column: g.columnDef()}
		check(g, s)
		return
	}
	s := g.createTable()
	check(g, s)
}

// rootColExprs: expressions in the definition of a column.
func rootColExprs(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(1, 2), kCol|kExpr)
	g.colExpr = true
	var s sqlast.Stmt
	switch vsym.Concrete(vsym.Int(0, 2)) {
	case 0:
		g.kw("ALTER", "TABLE")
		t := &sqlast.AlterTableStmt{TableName: g.obj()}
		g.kw("ADD", "COLUMN")
		t.Action = &sqlast.AddColumnTableAction{Column: g.columnDef()}
		s = t
	case 1:
		s = g.oneColumn()
	case 2:
		g.mask = kElem | kExpr
		g.left++
		g.colExpr = false
		s = g.createTable()
	}
	check(g, s)
}

func (g *G) oneColumn() sqlast.Stmt {
	g.kw("CREATE", "TABLE")
	s := &sqlast.CreateTableStmt{Name: g.obj()}
	g.p(sqltoken.LParen)
	s.Elements = []sqlast.TableElement{g.columnDef()}
	g.p(sqltoken.RParen)
	return s
}

func rootElems(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(2, 3), kElem|kCol)
	s := g.createTable()
	check(g, s)
}

func rootTypes(check func(*G, sqlast.Stmt)) {
	g := newMask(depth(3, 4), kType|kObj)
	if vsym.Split(vsym.Bool()) {
		g.kw("SELECT", "CAST")
		g.p(sqltoken.LParen)
		e := g.id()
		g.kw("AS")
		t := g.dataType()
		g.p(sqltoken.RParen)
		s := &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: &sqlast.Cast{Expr: e, DataType: t}}}}}
		check(g, s)
		return
	}
	g.kw("CREATE", "TABLE")
	s := &sqlast.CreateTableStmt{Name: g.obj()}
	g.p(sqltoken.LParen)
	s.Elements = []sqlast.TableElement{g.columnDef()}
	g.p(sqltoken.RParen)
	check(g, s)
}

func P02Query()   { withTexts(rootQuery, p02) }
func P02Clauses() { withTexts(rootClauses, p02) }
func P02Joins()   { withTexts(rootJoins, p02) }
func P02Factors() { withTexts(rootFactors, p02) }
func P02Window()  { withTexts(rootWindow, p02) }
func P02Sets()    { withTexts(rootSets, p02) }
func P02Exprs()   { withTexts(rootExprs, p02) }
func P02Changes() { withTexts(rootChanges, p02) }
func P02Lists()   { withTexts(rootLists, p02) }
func P02Explain() { withTexts(rootExplain, p02) }
func P02Schema()  { withTexts(rootSchema, p02) }
func P02Cols()    { withTexts(rootCols, p02) }
func P02Elems()   { withTexts(rootElems, p02) }
func P02ColX()    { withTexts(rootColExprs, p02) }
func P02Types()   { withTexts(rootTypes, p02) }

func P03Query()   { withTexts(rootQuery, p03) }
func P03Clauses() { withTexts(rootClauses, p03) }
func P03Joins()   { withTexts(rootJoins, p03) }
func P03Factors() { withTexts(rootFactors, p03) }
func P03Window()  { withTexts(rootWindow, p03) }
func P03Sets()    { withTexts(rootSets, p03) }
func P03Exprs()   { withTexts(rootExprs, p03) }
func P03Changes() { withTexts(rootChanges, p03) }
func P03Lists()   { withTexts(rootLists, p03) }
func P03Explain() { withTexts(rootExplain, p03) }
func P03Schema()  { withTexts(rootSchema, p03) }
func P03Cols()    { withTexts(rootCols, p03) }
func P03Elems()   { withTexts(rootElems, p03) }
func P03ColX()    { withTexts(rootColExprs, p03) }
func P03Types()   { withTexts(rootTypes, p03) }

const (
	bColX    = "a DEFAULT or CHECK of a column, or a table constraint, with up to 1/2 nested expression forms"
	bQuery   = "queries with up to 2/3 deviations from SELECT a anywhere"
	bClauses = "every presence combination of the query clauses, times up to 0/1 deviations"
	bJoins   = "up to 3 joins, 4/6 deviations among join kinds, types, ON/USING, aliases"
	bFactors = "two table references, 4/6 deviations among derived tables, arguments, hints, aliases, name parts"
	bWindow  = "one function, every OVER shape, 4/6 deviations among frames, directions, list lengths"
	bSets    = "3/4 deviations among set operations, parentheses and clauses at any level"
	bExprs   = "expressions of up to 2/3 nested forms, every form"
	bChanges = "INSERT, UPDATE, DELETE: every presence combination, times up to 1/2 deviations"
	bLists   = "INSERT, UPDATE, DELETE: up to 5/7 deviations among list lengths, rows, name parts, optional parts"
	bExplain = "EXPLAIN of every statement kind with up to 1/2 deviations"
	bSchema  = "CREATE, DROP, ALTER statements: every presence combination, times up to 1/2 deviations"
	bCols    = "one column definition with up to 3 parts in every order"
	bElems   = "CREATE TABLE: 2/3 deviations among elements, columns and options"
	bTypes   = "every data type with every suffix in CAST and in a column definition"
)

func init() {
	reg(
		H{Prop: "P02", Name: "P02.query", Fn: P02Query, Bounds: bQuery},
		H{Prop: "P02", Name: "P02.clauses", Fn: P02Clauses, Bounds: bClauses},
		H{Prop: "P02", Name: "P02.joins", Fn: P02Joins, Bounds: bJoins},
		H{Prop: "P02", Name: "P02.tables", Fn: P02Factors, Bounds: bFactors},
		H{Prop: "P02", Name: "P02.window", Fn: P02Window, Bounds: bWindow},
		H{Prop: "P02", Name: "P02.sets", Fn: P02Sets, Bounds: bSets},
		H{Prop: "P02", Name: "P02.exprs", Fn: P02Exprs, Bounds: bExprs},
		H{Prop: "P02", Name: "P02.changes", Fn: P02Changes, Bounds: bChanges},
		H{Prop: "P02", Name: "P02.lists", Fn: P02Lists, Bounds: bLists},
		H{Prop: "P02", Name: "P02.explain", Fn: P02Explain, Bounds: bExplain},
		H{Prop: "P02", Name: "P02.schema", Fn: P02Schema, Bounds: bSchema},
		H{Prop: "P02", Name: "P02.column-exprs", Fn: P02ColX, Bounds: bColX},
		H{Prop: "P02", Name: "P02.columns", Fn: P02Cols, Bounds: bCols},
		H{Prop: "P02", Name: "P02.elements", Fn: P02Elems, Bounds: bElems},
		H{Prop: "P02", Name: "P02.types", Fn: P02Types, Bounds: bTypes},
		H{Prop: "P03", Name: "P03.query", Fn: P03Query, Bounds: bQuery},
		H{Prop: "P03", Name: "P03.clauses", Fn: P03Clauses, Bounds: bClauses},
		H{Prop: "P03", Name: "P03.joins", Fn: P03Joins, Bounds: bJoins},
		H{Prop: "P03", Name: "P03.tables", Fn: P03Factors, Bounds: bFactors},
		H{Prop: "P03", Name: "P03.window", Fn: P03Window, Bounds: bWindow},
		H{Prop: "P03", Name: "P03.sets", Fn: P03Sets, Bounds: bSets},
		H{Prop: "P03", Name: "P03.exprs", Fn: P03Exprs, Bounds: bExprs},
		H{Prop: "P03", Name: "P03.changes", Fn: P03Changes, Bounds: bChanges},
		H{Prop: "P03", Name: "P03.lists", Fn: P03Lists, Bounds: bLists},
		H{Prop: "P03", Name: "P03.explain", Fn: P03Explain, Bounds: bExplain},
		H{Prop: "P03", Name: "P03.schema", Fn: P03Schema, Bounds: bSchema},
		H{Prop: "P03", Name: "P03.column-exprs", Fn: P03ColX, Bounds: bColX},
		H{Prop: "P03", Name: "P03.columns", Fn: P03Cols, Bounds: bCols},
		H{Prop: "P03", Name: "P03.elements", Fn: P03Elems, Bounds: bElems},
		H{Prop: "P03", Name: "P03.types", Fn: P03Types, Bounds: bTypes},
	)
}
