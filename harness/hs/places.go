package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Expressions in every place of statements that have all their parts: one of
// the expressions takes any form, the others are names.

func (g *G) place() sqlast.Node {
	i := g.nth
	g.nth++
	if i != g.hot {
		return g.id()
	}
	g.full = false
	g.left, g.mask = g.hotLeft, g.hotMask
	e := g.expr()
	g.full, g.left = true, 0
	return e
}

func (g *G) two() []sqlast.Node {
	l := []sqlast.Node{g.expr()}
	g.p(sqltoken.Comma)
	return append(l, g.expr())
}

// small is a nested query with an expression in it.
func (g *G) small() *sqlast.QueryStmt {
	g.kw("SELECT")
	s := &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: g.expr()}}}
	g.kw("FROM")
	s.FromClause = []sqlast.TableReference{&sqlast.Table{Name: &sqlast.ObjectName{Idents: []*sqlast.Ident{g.id()}}}}
	g.kw("WHERE")
	s.WhereClause = g.expr()
	return &sqlast.QueryStmt{Body: s}
}

func (g *G) name() *sqlast.ObjectName {
	return &sqlast.ObjectName{Idents: []*sqlast.Ident{g.id()}}
}

// item forms: a call with a window, CASE, an alias
func (g *G) fullSelect() *sqlast.SQLSelect {
	s := &sqlast.SQLSelect{Distinct: true}
	g.kw("SELECT", "DISTINCT")
	f := &sqlast.Function{Name: g.name()}
	g.p(sqltoken.LParen)
	f.Args = g.two()
	g.p(sqltoken.RParen)
	g.kw("OVER")
	g.p(sqltoken.LParen)
	g.kw("PARTITION", "BY")
	f.Over = &sqlast.WindowSpec{PartitionBy: g.two()}
	g.kw("ORDER", "BY")
	f.Over.OrderBy = g.fullOrder()
	g.kw("ROWS", "CURRENT", "ROW")
	f.Over.WindowsFrame = &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RowsUnit}, StartBound: &sqlast.CurrentRow{}}
	g.p(sqltoken.RParen)
	s.Projection = append(s.Projection, &sqlast.UnnamedSelectItem{Node: f})
	g.p(sqltoken.Comma)
	a := &sqlast.AliasSelectItem{Expr: g.expr()}
	g.kw("AS")
	a.Alias = g.id()
	s.Projection = append(s.Projection, a)
	g.kw("FROM")
	t := &sqlast.Table{Name: g.name()}
	g.p(sqltoken.LParen)
	t.Args = g.two()
	g.p(sqltoken.RParen)
	g.kw("AS")
	t.Alias = g.id()
	g.kw("WITH")
	g.p(sqltoken.LParen)
	t.WithHints = g.two()
	g.p(sqltoken.RParen)
	g.kw("LEFT", "JOIN")
	d := &sqlast.Derived{}
	g.p(sqltoken.LParen)
	d.SubQuery = g.small()
	g.p(sqltoken.RParen)
	g.kw("AS")
	d.Alias = g.id()
	g.kw("ON")
	s.FromClause = []sqlast.TableReference{&sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: t}, Type: &sqlast.JoinType{Condition: sqlast.LEFT}, RightElement: &sqlast.TableJoinElement{Ref: d}, Spec: &sqlast.JoinCondition{SearchCondition: g.expr()}}}
	g.kw("WHERE")
	s.WhereClause = g.expr()
	g.kw("GROUP", "BY")
	s.GroupByClause = g.two()
	g.kw("HAVING")
	s.HavingClause = g.expr()
	return s
}

func (g *G) fullOrder() []*sqlast.OrderByExpr {
	no := false
	o := &sqlast.OrderByExpr{Expr: g.expr(), ASC: &no}
	g.kw("DESC")
	g.p(sqltoken.Comma)
	return []*sqlast.OrderByExpr{o, {Expr: g.expr()}}
}

func (g *G) fullQuery() *sqlast.QueryStmt {
	q := &sqlast.QueryStmt{}
	g.kw("WITH")
	c := &sqlast.CTE{Alias: g.id()}
	g.kw("AS")
	g.p(sqltoken.LParen)
	c.Query = g.small()
	g.p(sqltoken.RParen)
	q.CTEs = []*sqlast.CTE{c}
	q.Body = g.fullSelect()
	g.kw("ORDER", "BY")
	q.OrderBy = g.fullOrder()
	g.kw("LIMIT")
	q.Limit = &sqlast.LimitExpr{LimitValue: g.long()}
	g.kw("OFFSET")
	q.Limit.OffsetValue = g.long()
	return q
}

// fullCase is a query for expressions inside expressions.
func (g *G) fullForms() *sqlast.QueryStmt {
	g.kw("SELECT")
	s := &sqlast.SQLSelect{}
	c := &sqlast.CaseExpr{}
	g.kw("CASE")
	c.Operand = g.expr()
	for i := 0; i < 2; i++ {
		g.kw("WHEN")
		c.Conditions = append(c.Conditions, g.expr())
		g.kw("THEN")
		c.Results = append(c.Results, g.expr())
	}
	g.kw("ELSE")
	c.ElseResult = g.expr()
	g.kw("END")
	g.p(sqltoken.Comma)
	k := &sqlast.Cast{}
	g.kw("CAST")
	g.p(sqltoken.LParen)
	k.Expr = g.expr()
	g.kw("AS", "INT")
	k.DataType = &sqlast.Int{}
	g.p(sqltoken.RParen, sqltoken.Comma)
	n := &sqlast.Nested{}
	g.p(sqltoken.LParen)
	n.AST = g.expr()
	g.p(sqltoken.RParen, sqltoken.Comma)
	in := &sqlast.InList{Expr: g.id(), Negated: true}
	g.kw("NOT", "IN")
	g.p(sqltoken.LParen)
	in.List = g.two()
	g.p(sqltoken.RParen, sqltoken.Comma)
	is := &sqlast.InSubQuery{Expr: g.id()}
	g.kw("IN")
	g.p(sqltoken.LParen)
	is.SubQuery = g.small()
	g.p(sqltoken.RParen)
	g.kw("UNION", "ALL", "SELECT")
	s.Projection = []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: c}, &sqlast.UnnamedSelectItem{Node: k}, &sqlast.UnnamedSelectItem{Node: n}, &sqlast.UnnamedSelectItem{Node: in}, &sqlast.UnnamedSelectItem{Node: is}}
	r := &sqlast.SQLSelect{}
	ex := &sqlast.Exists{}
	g.kw("EXISTS")
	g.p(sqltoken.LParen)
	ex.Query = g.small()
	g.p(sqltoken.RParen)
	r.Projection = []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: ex}, &sqlast.UnnamedSelectItem{}}
	g.p(sqltoken.Comma, sqltoken.LParen)
	r.Projection[1].(*sqlast.UnnamedSelectItem).Node = &sqlast.SubQuery{Query: g.small()}
	g.p(sqltoken.RParen)
	return &sqlast.QueryStmt{Body: &sqlast.SetOperationExpr{Op: &sqlast.UnionOperator{}, All: true, Left: s, Right: r}}
}

func (g *G) fullAssigns() []*sqlast.Assignment {
	var l []*sqlast.Assignment
	for i := 0; i < 2; i++ {
		if i > 0 {
			g.p(sqltoken.Comma)
		}
		a := &sqlast.Assignment{ID: g.id()}
		g.p(sqltoken.Eq)
		a.Value = g.expr()
		l = append(l, a)
	}
	return l
}

func (g *G) fullInsert() sqlast.Stmt {
	s := &sqlast.InsertStmt{}
	g.kw("INSERT", "INTO")
	s.TableName = g.name()
	g.p(sqltoken.LParen)
	s.Columns = []*sqlast.Ident{g.id(), nil}
	g.p(sqltoken.Comma)
	s.Columns[1] = g.id()
	g.p(sqltoken.RParen)
	g.kw("VALUES")
	c := &sqlast.ConstructorSource{}
	for i := 0; i < 2; i++ {
		if i > 0 {
			g.p(sqltoken.Comma)
		}
		g.p(sqltoken.LParen)
		c.Rows = append(c.Rows, &sqlast.RowValueExpr{Values: g.two()})
		g.p(sqltoken.RParen)
	}
	s.Source = c
	g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
	s.UpdateAssignments = g.fullAssigns()
	return s
}

func (g *G) fullUpdate() sqlast.Stmt {
	g.kw("UPDATE")
	s := &sqlast.UpdateStmt{TableName: g.name()}
	g.kw("SET")
	s.Assignments = g.fullAssigns()
	g.kw("WHERE")
	s.Selection = g.expr()
	return s
}

func (g *G) fullColumn() *sqlast.ColumnDef {
	c := &sqlast.ColumnDef{Name: g.id()}
	g.kw("INT")
	c.DataType = &sqlast.Int{}
	g.kw("DEFAULT")
	c.Default = g.expr()
	for i := 0; i < 2; i++ {
		cc := &sqlast.ColumnConstraint{}
		if i == 1 {
			g.kw("CONSTRAINT")
			cc.Name = g.id()
		}
		g.kw("CHECK")
		g.p(sqltoken.LParen)
		cc.Spec = &sqlast.CheckColumnSpec{Expr: g.expr()}
		g.p(sqltoken.RParen)
		c.Constraints = append(c.Constraints, cc)
	}
	return c
}

func (g *G) fullCheck(name bool) *sqlast.TableConstraint {
	t := &sqlast.TableConstraint{}
	if name {
		g.kw("CONSTRAINT")
		t.Name = g.id()
	}
	g.kw("CHECK")
	g.p(sqltoken.LParen)
	t.Spec = &sqlast.CheckTableConstraint{Expr: g.expr()}
	g.p(sqltoken.RParen)
	return t
}

func (g *G) fullTable() sqlast.Stmt {
	g.kw("CREATE", "TABLE")
	s := &sqlast.CreateTableStmt{Name: g.name()}
	g.p(sqltoken.LParen)
	s.Elements = append(s.Elements, g.fullColumn())
	g.p(sqltoken.Comma)
	s.Elements = append(s.Elements, g.fullCheck(true))
	g.p(sqltoken.Comma)
	s.Elements = append(s.Elements, g.fullCheck(false))
	g.p(sqltoken.RParen)
	return s
}

const nPlaces = 11

func (g *G) fullN(i int) sqlast.Stmt {
	switch i {
	case 0:
		return g.fullQuery()
	case 1:
		return g.fullForms()
	case 2:
		return g.fullInsert()
	case 3:
		return g.fullUpdate()
	case 4:
		g.kw("DELETE", "FROM")
		s := &sqlast.DeleteStmt{TableName: g.name()}
		g.kw("WHERE")
		s.Selection = g.expr()
		return s
	case 5:
		return g.fullTable()
	case 6:
		g.kw("CREATE", "INDEX")
		s := &sqlast.CreateIndexStmt{IndexName: g.id()}
		g.kw("ON")
		s.TableName = g.name()
		g.p(sqltoken.LParen)
		s.ColumnNames = []*sqlast.Ident{g.id()}
		g.p(sqltoken.RParen)
		g.kw("WHERE")
		s.Selection = g.expr()
		return s
	case 7:
		g.kw("CREATE", "VIEW")
		s := &sqlast.CreateViewStmt{Name: g.name()}
		g.kw("AS")
		s.Query = g.small()
		return s
	case 8:
		g.kw("ALTER", "TABLE")
		s := &sqlast.AlterTableStmt{TableName: g.name()}
		switch g.more(3) {
		case 0:
			g.kw("ADD", "COLUMN")
			s.Action = &sqlast.AddColumnTableAction{Column: g.fullColumn()}
		case 1:
			g.kw("ADD")
			s.Action = &sqlast.AddConstraintTableAction{Constraint: g.fullCheck(false)}
		case 2:
			g.kw("ALTER", "COLUMN")
			a := &sqlast.AlterColumnTableAction{ColumnName: g.id()}
			g.kw("SET", "DEFAULT")
			a.Action = &sqlast.SetDefaultColumnAction{Default: g.expr()}
			s.Action = a
		}
		return s
	case 9:
		g.kw("INSERT", "INTO")
		s := &sqlast.InsertStmt{TableName: g.name()}
		s.Source = &sqlast.SubQuerySource{SubQuery: g.small()}
		return s
	}
	g.kw("EXPLAIN")
	return &sqlast.ExplainStmt{Stmt: g.small()}
}

// expressions in each of these
var placeCount = []int{20, 17, 6, 3, 1, 5, 1, 2, 3, 2, 2}

func placed(left int, mask uint32, from, to int, check func(*G, sqlast.Stmt)) {
	g := newMask(0, mask)
	g.full, g.hotLeft, g.hotMask = true, left, mask
	i := vsym.Concrete(vsym.Int(from, to))
	g.hot = vsym.Concrete(vsym.Int(0, placeCount[i]-1))
	s := g.fullN(i)
	if g.hot >= g.nth && g.hot > 0 {
		return
	}
	check(g, s)
}

func rootPlaces(check func(*G, sqlast.Stmt)) {
	placed(depth(1, 2), kExpr|kList|kOver, 0, nPlaces-1, check)
}

// rootFull: the statements with all their parts.
func rootFull(check func(*G, sqlast.Stmt)) {
	g := newMask(0, 0)
	g.full, g.hot = true, -1
	check(g, g.fullN(vsym.Concrete(vsym.Int(0, nPlaces-1))))
}

// rootShortLists: lists of up to three elements.
func rootShortLists(check func(*G, sqlast.Stmt)) {
	g := newMask(0, 0)
	check(g, g.long1(vsym.Concrete(vsym.Int(0, nLong-1)), vsym.Concrete(vsym.Int(3-vsym.Tier(), 3))))
}

const (
	bFull  = "statements of every kind with all their parts"
	bShort = "31 kinds of lists and chains of 3 (thorough also 2) elements"
)

const bPlaces = "statements of every kind with all their parts, any one of the 62 expressions in them taking every form, times up to 0/1 further deviations (nested forms, list lengths, windows)"

func P02Places() { rootPlaces(p02) }
func P03Places() { rootPlaces(p03) }
func A08Places() { rootPlaces(a08) }
func P05Places() { rootPlaces(p05all) }
func P06Places() { rootPlaces(p06) }
func P07Places() { rootPlaces(p07all) }
func A01Places() { rootPlaces(a01Plain) }
func A02Places() { rootPlaces(a02Plain) }
func A04Places() { rootPlaces(a04Plain) }
func A05Places() { rootPlaces(a05) }

func genQueries(c func(*G, sqlast.Stmt)) {
	placed(depth(1, 2), kExpr|kList|kOver, 0, 1, c)
}
func genChanges(c func(*G, sqlast.Stmt)) {
	placed(depth(1, 2), kExpr|kList|kOver, 2, 4, c)
}
func genMore(c func(*G, sqlast.Stmt)) {
	placed(depth(1, 2), kExpr|kList|kOver, 9, 10, c)
}
func genSchema(c func(*G, sqlast.Stmt)) {
	placed(depth(1, 2), kExpr|kList|kOver, 5, 8, c)
}

func P10Places() { withTexts(genQueries, genStmt) }
func P11Places() { withTexts(genChanges, genStmt) }
func P11More()   { withTexts(genMore, genStmt) }
func P12Places() { withTexts(genSchema, genStmt) }

func init() {
	for _, h := range []H{
		{Prop: "P02", Name: "P02.places", Fn: P02Places, Bounds: bPlaces},
		{Prop: "P03", Name: "P03.places", Fn: P03Places, Bounds: bPlaces},
		{Prop: "P05", Name: "P05.places", Fn: P05Places, Bounds: bPlaces},
		{Prop: "P06", Name: "P06.places", Fn: P06Places, Bounds: bPlaces},
		{Prop: "P07", Name: "P07.places", Fn: P07Places, Bounds: bPlaces},
		{Prop: "A01", Name: "A01.places", Fn: A01Places, Bounds: bPlaces},
		{Prop: "A02", Name: "A02.places", Fn: A02Places, Bounds: bPlaces},
		{Prop: "A04", Name: "A04.places", Fn: A04Places, Bounds: bPlaces},
		{Prop: "A05", Name: "A05.places", Fn: A05Places, Bounds: bPlaces},
		{Prop: "A08", Name: "A08.places", Fn: A08Places, Bounds: bPlaces},
		{Prop: "P10", Name: "P10.places", Fn: P10Places, Bounds: "queries with all their clauses, any one of the 37 expressions in them taking every form, times up to 0/1 further deviations"},
		{Prop: "P11", Name: "P11.places", Fn: P11Places, Bounds: "INSERT, UPDATE, DELETE with all their parts, any one of the expressions in them taking every form, times up to 0/1 further deviations"},
		{Prop: "P11", Name: "P11.more-places", Fn: P11More, Bounds: "INSERT from a query, EXPLAIN: any one of the expressions in them taking every form, times up to 0/1 further deviations"},
		{Prop: "P12", Name: "P12.places", Fn: P12Places, Bounds: "CREATE TABLE, CREATE INDEX, CREATE VIEW, ALTER TABLE with all their parts, any one of the expressions in them taking every form, times up to 0/1 further deviations"},
	} {
		reg(h)
	}
}
