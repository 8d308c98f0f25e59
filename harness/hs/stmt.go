package hs

import (
	"bytes"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

func parserOf(toks []*sqltoken.Token, opts ...xsqlparser.ParserOption) *xsqlparser.Parser {
	p := xsqlparser.NewParserWithOptions(opts...)
	p.SetTokens(toks)
	return p
}

func parseStmt(toks []*sqltoken.Token) (sqlast.Stmt, error) {
	ss, err := parserOf(toks).ParseSQL()
	if err != nil {
		return nil, err
	}
	if len(ss) != 1 {
		return nil, errOther
	}
	return ss[0], nil
}

func parseText(d int, s string) ([]sqlast.Stmt, error) {
	p, err := xsqlparser.NewParser(bytes.NewReader([]byte(s)), dialectOf(d))
	if err != nil {
		return nil, err
	}
	return p.ParseSQL()
}

type otherErr struct{}

func (otherErr) Error() string { return "not one statement" }

var errOther error = otherErr{}

func sqlOf(n sqlast.Node) string {
	if n == nil {
		return ""
	}
	return n.ToSQLString()
}

// genStmt checks that a generated statement is accepted and recorded as the
// model says.
func genStmt(g *G, want sqlast.Stmt) {
	got, err := parseStmt(placeAny(g.tokens()))
	if err != nil {
		vsym.Log("source: %s\nerror: %v", g.source(), err)
		vsym.Check(false, "rejected")
		return
	}
	ok := vsym.Same(got, want)
	vsym.Check(ok, "tree")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s\ngot:  %s\nwant: %s", g.source(), sqlOf(got), sqlOf(want))
	}
}

func P10Free() {
	g := newG(depth(1, 2)).any()
	g.free = 1
	g.selAt = 0
	genStmt(g, g.queryTop())
}

func P10Deep() {
	g := newG(depth(2, 4)).any()
	genStmt(g, g.queryTop())
}

// selectFrom is a query with one select item and a symbolic rest.
func selectOf(g *G, it func() sqlast.Node, from func() []sqlast.TableReference) sqlast.Stmt {
	s := &sqlast.SQLSelect{}
	g.kw("SELECT")
	s.Projection = []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: it()}}
	if from != nil {
		g.kw("FROM")
		s.FromClause = from()
	}
	return &sqlast.QueryStmt{Body: s}
}

func identExpr(g *G) func() sqlast.Node { return func() sqlast.Node { return g.id() } }

func P10Joins() {
	g := newMask(depth(6, 8), kJoin|kAlias).any()
	genStmt(g, selectOf(g, identExpr(g), func() []sqlast.TableReference { return []sqlast.TableReference{g.tableRef()} }))
}

func P10Factors() {
	g := newMask(depth(5, 7), kFactor|kAlias|kList|kObj).any()
	genStmt(g, selectOf(g, identExpr(g), func() []sqlast.TableReference {
		return []sqlast.TableReference{g.tableRef(), func() sqlast.TableReference { g.p(sqltoken.Comma); return g.tableRef() }()}
	}))
}

func P10Window() {
	g := newMask(depth(5, 7), kOver|kFrame|kOrder|kList|kObj).any()
	genStmt(g, selectOf(g, func() sqlast.Node { g.depth++; return g.function() }, nil))
}

func P10Sets() {
	g := newMask(depth(4, 5), kSet|kPart).any()
	genStmt(g, g.queryTop())
}

func P10Items() {
	g := newMask(depth(2, 4), kItem|kQuery|kObj|kOrder).any()
	g.free = 1
	genStmt(g, g.queryTop())
}

func P10Exprs() {
	g := newMask(depth(2, 3), kExpr|kList).any()
	genStmt(g, selectOf(g, g.expr, nil))
}

func P11Free() {
	g := newG(depth(2, 3)).any()
	g.free = 1
	genStmt(g, g.stmtN(vsym.Concrete(vsym.Int(1, 3))))
}

func P11Lists() {
	g := newMask(depth(6, 8), kList|kPart|kObj).any()
	genStmt(g, g.stmtN(vsym.Concrete(vsym.Int(1, 3))))
}

func P11Explain() {
	g := newG(depth(1, 2)).any()
	g.kw("EXPLAIN")
	i := vsym.Concrete(vsym.Int(0, 9))
	genStmt(g, &sqlast.ExplainStmt{Stmt: g.stmtN(i)})
}

func P12Free() {
	g := newG(depth(2, 3)).any()
	g.free = 1
	genStmt(g, g.stmtN(vsym.Concrete(vsym.Int(4, 8))))
}

func P12Cols() {
	g := newMask(depth(4, 5), kCol).any()
	if vsym.Split(vsym.Bool()) {
		g.kw("ALTER", "TABLE")
		s := &sqlast.AlterTableStmt{TableName: g.obj()}
		g.kw("ADD", "COLUMN")
		s.Action = &sqlast.AddColumnTableAction{Column: g.columnDef()}
		genStmt(g, s)
		return
	}
	genStmt(g, g.createTable())
}

func P12Elems() {
	g := newMask(depth(2, 3), kElem|kCol|kList).any()
	genStmt(g, g.createTable())
}

func init() {
	reg(
		H{Prop: "P10", Name: "P10.clauses", Fn: P10Free, Bounds: "every presence combination of WITH, DISTINCT, FROM, WHERE, GROUP BY, HAVING, ORDER BY and LIMIT at the top level, times up to 1 (quick) / 2 (thorough) further deviations anywhere in the statement"},
		H{Prop: "P10", Name: "P10.forms", Fn: P10Deep, Bounds: "up to 2 (quick) / 4 (thorough) deviations from SELECT a anywhere in the statement, nested queries and expressions included"},
		H{Prop: "P10", Name: "P10.joins", Fn: P10Joins, Bounds: "up to 3 joins; 6/8 deviations among join kinds, join types, ON/USING, aliases"},
		H{Prop: "P10", Name: "P10.tables", Fn: P10Factors, Bounds: "two table references; 5/7 deviations among derived tables, LATERAL, arguments, hints, aliases, name parts"},
		H{Prop: "P10", Name: "P10.window", Fn: P10Window, Bounds: "one function; every OVER shape, 5/7 deviations among frame units, frame bounds, order directions, list lengths"},
		H{Prop: "P10", Name: "P10.sets", Fn: P10Sets, Bounds: "4/5 deviations among set operations, parentheses and the presence of clauses at any level"},
		H{Prop: "P10", Name: "P10.items", Fn: P10Items, Bounds: "every presence combination of the clauses; 2/4 deviations among select item forms, list lengths, order directions, OFFSET"},
		H{Prop: "P10", Name: "P10.exprs", Fn: P10Exprs, Bounds: "one select item with up to 2/3 expression forms nested in each other, every form"},
		H{Prop: "P11", Name: "P11.forms", Fn: P11Free, Bounds: "INSERT, UPDATE, DELETE; every presence combination of their optional parts, times up to 2/3 further deviations"},
		H{Prop: "P11", Name: "P11.lists", Fn: P11Lists, Bounds: "INSERT, UPDATE, DELETE; up to 6/8 deviations among list lengths (up to 3), rows, name parts and optional parts"},
		H{Prop: "P11", Name: "P11.explain", Fn: P11Explain, Bounds: "EXPLAIN (also nested) of every statement kind with up to 1/2 deviations"},
		H{Prop: "P12", Name: "P12.forms", Fn: P12Free, Bounds: "CREATE TABLE/VIEW/INDEX, DROP, ALTER; every presence combination of their optional parts, times up to 2/3 further deviations"},
		H{Prop: "P12", Name: "P12.columns", Fn: P12Cols, Bounds: "one column definition in CREATE TABLE and ADD COLUMN: up to 3 parts in every order, each constraint kind with and without name"},
		H{Prop: "P12", Name: "P12.elements", Fn: P12Elems, Bounds: "CREATE TABLE with up to 3 elements and 2 options; 2/3 deviations among element kinds, list lengths, constraint names"},
	)
}

var _ = strings.Join

func newText(s string) *bytes.Reader { return bytes.NewReader([]byte(s)) }
