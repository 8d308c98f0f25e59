package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Long lists and deep nesting.

func (g *G) commas(n int, f func()) {
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(sqltoken.Comma)
		}
		f()
	}
}

func (g *G) nIds(n int) []*sqlast.Ident {
	var l []*sqlast.Ident
	g.commas(n, func() { l = append(l, g.id()) })
	return l
}

func (g *G) nExprs(n int) []sqlast.Node {
	var l []sqlast.Node
	g.commas(n, func() { l = append(l, g.id()) })
	return l
}

func (g *G) inParens(f func()) {
	g.p(sqltoken.LParen)
	f()
	g.p(sqltoken.RParen)
}

func items(l []sqlast.Node) []sqlast.SQLSelectItem {
	var r []sqlast.SQLSelectItem
	for _, e := range l {
		r = append(r, &sqlast.UnnamedSelectItem{Node: e})
	}
	return r
}

func asQuery(b sqlast.SQLSetExpr) *sqlast.QueryStmt { return &sqlast.QueryStmt{Body: b} }

// selectA is SELECT and one name.
func (g *G) selectA() *sqlast.SQLSelect {
	g.kw("SELECT")
	return &sqlast.SQLSelect{Projection: items([]sqlast.Node{g.id()})}
}

func (g *G) selectExpr(f func() sqlast.Node) sqlast.Stmt {
	g.kw("SELECT")
	return asQuery(&sqlast.SQLSelect{Projection: items([]sqlast.Node{f()})})
}

func (g *G) fromT() []sqlast.TableReference {
	g.kw("FROM")
	return []sqlast.TableReference{&sqlast.Table{Name: g.name()}}
}

func (g *G) nOrder(n int) []*sqlast.OrderByExpr {
	var l []*sqlast.OrderByExpr
	i := 0
	g.commas(n, func() {
		o := &sqlast.OrderByExpr{Expr: g.id()}
		if i++; i%3 == 0 {
			no := false
			o.ASC = &no
			g.kw("DESC")
		}
		l = append(l, o)
	})
	return l
}

func (g *G) nAssigns(n int) []*sqlast.Assignment {
	var l []*sqlast.Assignment
	g.commas(n, func() {
		a := &sqlast.Assignment{ID: g.id()}
		g.p(sqltoken.Eq)
		a.Value = g.id()
		l = append(l, a)
	})
	return l
}

const nLong = 31

func (g *G) long1(k, n int) sqlast.Stmt {
	switch k {
	case 0:
		g.kw("SELECT")
		return asQuery(&sqlast.SQLSelect{Projection: items(g.nExprs(n))})
	case 1:
		s := g.selectA()
		g.kw("FROM")
		g.commas(n, func() { s.FromClause = append(s.FromClause, &sqlast.Table{Name: g.name()}) })
		return asQuery(s)
	case 2:
		s := g.selectA()
		s.FromClause = g.fromT()
		g.kw("GROUP", "BY")
		s.GroupByClause = g.nExprs(n)
		return asQuery(s)
	case 3:
		q := asQuery(g.selectA())
		g.kw("ORDER", "BY")
		q.OrderBy = g.nOrder(n)
		return q
	case 4:
		return g.selectExpr(func() sqlast.Node {
			e := &sqlast.InList{Expr: g.id()}
			g.kw("IN")
			g.inParens(func() { e.List = g.nExprs(n) })
			return e
		})
	case 5:
		return g.selectExpr(func() sqlast.Node {
			e := &sqlast.Function{Name: g.name()}
			g.inParens(func() { e.Args = g.nExprs(n) })
			return e
		})
	case 6, 7, 8, 9:
		s := &sqlast.InsertStmt{}
		g.kw("INSERT", "INTO")
		s.TableName = g.name()
		size := func(at int) int {
			if k == at {
				return n
			}
			return 1
		}
		if k == 6 {
			g.inParens(func() { s.Columns = g.nIds(n) })
		}
		g.kw("VALUES")
		c := &sqlast.ConstructorSource{}
		g.commas(size(7), func() {
			g.inParens(func() { c.Rows = append(c.Rows, &sqlast.RowValueExpr{Values: g.nExprs(size(8))}) })
		})
		s.Source = c
		if k == 9 {
			g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
			s.UpdateAssignments = g.nAssigns(n)
		}
		return s
	case 10:
		g.kw("UPDATE")
		s := &sqlast.UpdateStmt{TableName: g.name()}
		g.kw("SET")
		s.Assignments = g.nAssigns(n)
		return s
	case 11:
		return g.selectExpr(func() sqlast.Node {
			g.kw("CASE")
			c := &sqlast.CaseExpr{}
			for i := 0; i < n; i++ {
				g.kw("WHEN")
				c.Conditions = append(c.Conditions, g.id())
				g.kw("THEN")
				c.Results = append(c.Results, g.id())
			}
			g.kw("END")
			return c
		})
	case 12:
		q := &sqlast.QueryStmt{}
		g.kw("WITH")
		g.commas(n, func() {
			c := &sqlast.CTE{Alias: g.id()}
			g.kw("AS")
			g.inParens(func() { c.Query = asQuery(g.selectA()) })
			q.CTEs = append(q.CTEs, c)
		})
		q.Body = g.selectA()
		return q
	case 13:
		g.kw("DROP", "TABLE")
		s := &sqlast.DropTableStmt{}
		g.commas(n, func() { s.TableNames = append(s.TableNames, g.name()) })
		return s
	case 14:
		g.kw("CREATE", "INDEX")
		s := &sqlast.CreateIndexStmt{IndexName: g.id()}
		g.kw("ON")
		s.TableName = g.name()
		g.inParens(func() { s.ColumnNames = g.nIds(n) })
		return s
	case 15, 16, 17, 18, 19:
		g.kw("CREATE", "TABLE")
		s := &sqlast.CreateTableStmt{Name: g.name()}
		col := func() *sqlast.ColumnDef {
			c := &sqlast.ColumnDef{Name: g.id()}
			g.kw("INT")
			c.DataType = &sqlast.Int{}
			return c
		}
		g.inParens(func() {
			switch k {
			case 15:
				g.kw("UNIQUE")
				g.inParens(func() {
					s.Elements = append(s.Elements, &sqlast.TableConstraint{Spec: &sqlast.UniqueTableConstraint{Columns: g.nIds(n)}})
				})
			case 16:
				g.kw("FOREIGN", "KEY")
				r := &sqlast.ReferentialTableConstraint{}
				g.inParens(func() { r.Columns = g.nIds(n) })
				g.kw("REFERENCES")
				r.KeyExpr = &sqlast.ReferenceKeyExpr{TableName: g.id()}
				g.inParens(func() { r.KeyExpr.Columns = g.nIds(n) })
				s.Elements = append(s.Elements, &sqlast.TableConstraint{Spec: r})
			case 17:
				g.commas(n, func() { s.Elements = append(s.Elements, col()) })
			case 18:
				c := col()
				for i := 0; i < n; i++ {
					cc := &sqlast.ColumnConstraint{}
					if i%2 == 0 {
						g.kw("UNIQUE")
						cc.Spec = &sqlast.UniqueColumnSpec{}
					} else {
						g.kw("CONSTRAINT")
						cc.Name = g.id()
						g.kw("CHECK")
						g.inParens(func() { cc.Spec = &sqlast.CheckColumnSpec{Expr: g.id()} })
					}
					c.Constraints = append(c.Constraints, cc)
				}
				s.Elements = append(s.Elements, c)
			default:
				s.Elements = append(s.Elements, col())
			}
		})
		if k == 19 {
			g.commas(n, func() {
				g.kw("ENGINE")
				g.p(sqltoken.Eq)
				s.Options = append(s.Options, &sqlast.MyEngine{Equal: true, Name: g.id()})
			})
		}
		return s
	case 20:
		g.kw("DELETE", "FROM")
		s := &sqlast.DeleteStmt{TableName: g.name()}
		for i := 1; i < n; i++ {
			g.p(sqltoken.Period)
			s.TableName.Idents = append(s.TableName.Idents, g.id())
		}
		return s
	case 21:
		return g.selectExpr(func() sqlast.Node {
			c := &sqlast.CompoundIdent{Idents: []*sqlast.Ident{g.id()}}
			for i := 0; i < n; i++ {
				g.p(sqltoken.Period)
				c.Idents = append(c.Idents, g.id())
			}
			return c
		})
	case 22:
		var b sqlast.SQLSetExpr = g.selectA()
		for i := 0; i < n; i++ {
			o := &sqlast.SetOperationExpr{Left: b, All: i%2 == 0}
			if i%3 == 2 {
				g.kw("EXCEPT")
				o.Op = &sqlast.ExceptOperator{}
			} else {
				g.kw("UNION")
				o.Op = &sqlast.UnionOperator{}
			}
			if o.All {
				g.kw("ALL")
			}
			o.Right = g.selectA()
			b = o
		}
		return asQuery(b)
	case 23:
		s := g.selectA()
		g.kw("FROM")
		var r sqlast.TableReference = &sqlast.Table{Name: g.name()}
		for i := 0; i < n; i++ {
			g.kw("LEFT", "JOIN")
			j := &sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: r}, Type: &sqlast.JoinType{Condition: sqlast.LEFT}}
			j.RightElement = &sqlast.TableJoinElement{Ref: &sqlast.Table{Name: g.name()}}
			g.kw("ON")
			j.Spec = &sqlast.JoinCondition{SearchCondition: g.id()}
			r = j
		}
		s.FromClause = []sqlast.TableReference{r}
		return asQuery(s)
	case 24:
		return g.selectExpr(func() sqlast.Node { return g.chain(n, binop{sqltoken.SQLKeyword, "AND", sqlast.And, 10}) })
	case 25:
		return g.selectExpr(func() sqlast.Node { return g.chain(n, binop{sqltoken.Minus, "", sqlast.Minus, 30}) })
	case 26, 27:
		return g.selectExpr(func() sqlast.Node {
			e := &sqlast.Function{Name: g.name()}
			g.p(sqltoken.LParen, sqltoken.RParen)
			g.kw("OVER")
			e.Over = &sqlast.WindowSpec{}
			g.inParens(func() {
				if k == 26 {
					g.kw("PARTITION", "BY")
					e.Over.PartitionBy = g.nExprs(n)
				} else {
					g.kw("ORDER", "BY")
					e.Over.OrderBy = g.nOrder(n)
				}
			})
			return e
		})
	case 28, 29, 30:
		s := g.selectA()
		if k == 30 {
			g.kw("FROM")
			l := &sqlast.Table{Name: g.name()}
			g.kw("JOIN")
			r := &sqlast.Table{Name: g.name()}
			g.kw("USING")
			g.inParens(func() {
				s.FromClause = []sqlast.TableReference{&sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: l}, Type: &sqlast.JoinType{Condition: sqlast.IMPLICIT}, RightElement: &sqlast.TableJoinElement{Ref: r}, Spec: &sqlast.NamedColumnsJoin{ColumnList: g.nIds(n)}}}
			})
			return asQuery(s)
		}
		s.FromClause = g.fromT()
		t := s.FromClause[0].(*sqlast.Table)
		if k == 28 {
			g.inParens(func() { t.Args = g.nExprs(n) })
		} else {
			g.kw("WITH")
			g.inParens(func() { t.WithHints = g.nExprs(n) })
		}
		return asQuery(s)
	}
	panic("long")
}

func (g *G) chain(n int, b binop) sqlast.Node {
	var e sqlast.Node = g.id()
	for i := 0; i < n; i++ {
		g.binTok(b)
		e = &sqlast.BinaryExpr{Left: e, Op: &sqlast.Operator{Type: b.op}, Right: g.id()}
	}
	return e
}

const nDeep = 12

// deep1 nests n levels around a name.
func (g *G) deep1(k, n int) sqlast.Stmt {
	if k == 10 {
		if n == 0 {
			return asQuery(g.selectA())
		}
		g.kw("EXPLAIN")
		return &sqlast.ExplainStmt{Stmt: g.deep1(k, n-1)}
	}
	if k == 11 {
		return g.deepQuery(n)
	}
	return g.selectExpr(func() sqlast.Node { return g.deepExpr(k, n) })
}

// deepQuery nests queries in WITH and FROM by turns.
func (g *G) deepQuery(n int) *sqlast.QueryStmt {
	if n == 0 {
		return asQuery(g.selectA())
	}
	q := &sqlast.QueryStmt{}
	if n%2 == 0 {
		g.kw("WITH")
		c := &sqlast.CTE{Alias: g.id()}
		g.kw("AS")
		g.inParens(func() { c.Query = g.deepQuery(n - 1) })
		q.CTEs = []*sqlast.CTE{c}
		q.Body = g.selectA()
		return q
	}
	s := g.selectA()
	g.kw("FROM")
	d := &sqlast.Derived{}
	g.inParens(func() { d.SubQuery = g.deepQuery(n - 1) })
	s.FromClause = []sqlast.TableReference{d}
	q.Body = s
	return q
}

func (g *G) deepExpr(k, n int) sqlast.Node {
	if n == 0 {
		return g.id()
	}
	sub := func() *sqlast.QueryStmt {
		g.kw("SELECT")
		return asQuery(&sqlast.SQLSelect{Projection: items([]sqlast.Node{g.deepExpr(k, n-1)})})
	}
	switch k {
	case 0:
		e := &sqlast.Nested{}
		g.inParens(func() { e.AST = g.deepExpr(k, n-1) })
		return e
	case 1:
		e := &sqlast.SubQuery{}
		g.inParens(func() { e.Query = sub() })
		return e
	case 2:
		c := &sqlast.CaseExpr{}
		g.kw("CASE")
		if n%3 == 0 {
			c.Operand = g.deepExpr(k, n-1)
		}
		g.kw("WHEN")
		c.Conditions = []sqlast.Node{g.id()}
		g.kw("THEN")
		if n%3 == 1 {
			c.Results = []sqlast.Node{g.deepExpr(k, n-1)}
		} else {
			c.Results = []sqlast.Node{g.id()}
		}
		g.kw("ELSE")
		if n%3 == 2 {
			c.ElseResult = g.deepExpr(k, n-1)
		} else {
			c.ElseResult = g.id()
		}
		g.kw("END")
		return c
	case 3:
		f := &sqlast.Function{Name: g.name()}
		g.inParens(func() { f.Args = []sqlast.Node{g.deepExpr(k, n-1)} })
		return f
	case 4:
		g.kw("NOT")
		return &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: sqlast.Not}, Expr: g.deepExpr(k, n-1)}
	case 5:
		c := &sqlast.Cast{}
		g.kw("CAST")
		g.inParens(func() {
			c.Expr = g.deepExpr(k, n-1)
			g.kw("AS", "INT")
			c.DataType = &sqlast.Int{}
		})
		return c
	case 6:
		e := &sqlast.Exists{}
		if n%2 == 0 {
			g.kw("NOT")
			e.Negated = true
		}
		g.kw("EXISTS")
		g.inParens(func() { e.Query = sub() })
		return e
	case 7:
		e := &sqlast.InSubQuery{Expr: g.id(), Negated: n%2 == 0}
		if e.Negated {
			g.kw("NOT")
		}
		g.kw("IN")
		g.inParens(func() { e.SubQuery = sub() })
		return e
	case 8:
		g.p(sqltoken.Minus)
		return &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: sqlast.Minus}, Expr: g.deepExpr(k, n-1)}
	case 9:
		e := &sqlast.Nested{}
		b := &sqlast.BinaryExpr{Left: g.id(), Op: &sqlast.Operator{Type: sqlast.Multiply}}
		g.p(sqltoken.Mult)
		g.inParens(func() { e.AST = g.deepExpr(k, n-1) })
		b.Right = e
		return b
	}
	panic("deep")
}

func rootLong(check func(*G, sqlast.Stmt)) {
	g := newMask(0, 0)
	if vsym.Split(vsym.Bool()) {
		k := vsym.Concrete(vsym.Int(0, nDeep-1))
		s := g.deep1(k, vsym.Concrete(vsym.Int(1, depth(12, 24))))
		check(g, s)
		return
	}
	k := vsym.Concrete(vsym.Int(0, nLong-1))
	s := g.long1(k, vsym.Concrete(vsym.Int(1, depth(20, 70))))
	check(g, s)
}

const bLong = "31 kinds of lists and chains of 1..20 (thorough 70) elements; 12 kinds of nesting 1..12 (thorough 24) deep"

func longOf(from, to int) func(func(*G, sqlast.Stmt)) {
	return func(check func(*G, sqlast.Stmt)) {
		g := newMask(0, 0)
		s := g.long1(vsym.Concrete(vsym.Int(from, to)), vsym.Concrete(vsym.Int(1, depth(20, 70))))
		check(g, s)
	}
}

func P02Long() { rootLong(p02) }
func P03Long() { rootLong(p03) }
func P05Long() { rootLong(p05all) }
func P06Long() { rootLong(p06) }
func P07Long() { rootLong(p07all) }
func P10Long() { rootLong(genStmt) }
func P11Long() { longOf(6, 10)(genStmt) }
func P12Long() { longOf(13, 19)(genStmt) }
func A01Long() { rootLong(a01Plain) }
func A02Long() { rootLong(a02Plain) }
func A04Long() { rootLong(a04Plain) }
func A05Long() { rootLong(a05) }
func A08Long() { rootLong(a08) }

// A07Long: comments everywhere in long texts.
func A07Long() { rootLong(func(g *G, _ sqlast.Stmt) { records(everywhere(g, oneForms())) }) }
func A06Long() { rootLong(func(g *G, _ sqlast.Stmt) { maps(everywhere(g, oneForms())) }) }

func init() {
	for _, h := range []H{
		{Prop: "P02", Name: "P02.long", Fn: P02Long, Bounds: bLong},
		{Prop: "P03", Name: "P03.long", Fn: P03Long, Bounds: bLong},
		{Prop: "P05", Name: "P05.long", Fn: P05Long, Bounds: bLong},
		{Prop: "P06", Name: "P06.long", Fn: P06Long, Bounds: bLong},
		{Prop: "P07", Name: "P07.long", Fn: P07Long, Bounds: bLong},
		{Prop: "P10", Name: "P10.long", Fn: P10Long, Bounds: bLong},
		{Prop: "P11", Name: "P11.long", Fn: P11Long, Bounds: "lists of 1..20 (thorough 70) columns, rows, values, assignments"},
		{Prop: "P12", Name: "P12.long", Fn: P12Long, Bounds: "lists of 1..20 (thorough 70) names, columns, constraints, elements, options"},
		{Prop: "A01", Name: "A01.long", Fn: A01Long, Bounds: bLong},
		{Prop: "A02", Name: "A02.long", Fn: A02Long, Bounds: bLong},
		{Prop: "A04", Name: "A04.long", Fn: A04Long, Bounds: bLong},
		{Prop: "A05", Name: "A05.long", Fn: A05Long, Bounds: bLong},
		{Prop: "A06", Name: "A06.long", Fn: A06Long, Bounds: bLong + "; comments at every gap"},
		{Prop: "A07", Name: "A07.long", Fn: A07Long, Bounds: bLong + "; comments at every gap"},
		{Prop: "A08", Name: "A08.long", Fn: A08Long, Bounds: bLong},
	} {
		reg(h)
	}
}
