package hs

import (
	"time"

	"github.com/akito0107/xsqlparser/sqlast"

	"vh/vsym"
)

// Hand-built trees: one node of any type, every combination of its optional
// parts, list lengths within a bound, and children that are leaves of the
// kind the field takes.

type B struct {
	n    int // names given out
	max  int // longest list
	flat bool
}

func (b *B) opt() bool { return vsym.Split(vsym.Bool()) }

func (b *B) num(min int) int { return vsym.Concrete(vsym.Int(min, b.max)) }

func (b *B) id() *sqlast.Ident {
	b.n++
	return &sqlast.Ident{Value: nameTexts[(b.n-1)%len(nameTexts)]}
}

func (b *B) optID() *sqlast.Ident {
	if b.opt() {
		return b.id()
	}
	return nil
}

func (b *B) ids(min int) []*sqlast.Ident {
	var l []*sqlast.Ident
	for i := b.num(min); i > 0; i-- {
		l = append(l, b.id())
	}
	return l
}

func (b *B) obj() *sqlast.ObjectName { return &sqlast.ObjectName{Idents: []*sqlast.Ident{b.id()}} }

func (b *B) nodes(min int) []sqlast.Node {
	var l []sqlast.Node
	for i := b.num(min); i > 0; i-- {
		l = append(l, b.id())
	}
	return l
}

func (b *B) optNode() sqlast.Node {
	if b.opt() {
		return b.id()
	}
	return nil
}

func (b *B) query() *sqlast.QueryStmt {
	return &sqlast.QueryStmt{Body: b.body()}
}

func (b *B) sel() *sqlast.SQLSelect {
	return &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: b.id()}}}
}

func (b *B) body() sqlast.SQLSetExpr { return b.sel() }

func (b *B) order() *sqlast.OrderByExpr { return &sqlast.OrderByExpr{Expr: b.id()} }

func (b *B) orders() []*sqlast.OrderByExpr {
	var l []*sqlast.OrderByExpr
	for i := b.num(0); i > 0; i-- {
		l = append(l, b.order())
	}
	return l
}

func (b *B) tref() *sqlast.Table { return &sqlast.Table{Name: b.obj()} }

func (b *B) elem() *sqlast.TableJoinElement { return &sqlast.TableJoinElement{Ref: b.tref()} }

func (b *B) long(i int64) *sqlast.LongValue { return &sqlast.LongValue{Long: i} }

func (b *B) assign() *sqlast.Assignment { return &sqlast.Assignment{ID: b.id(), Value: b.id()} }

func (b *B) assigns(min int) []*sqlast.Assignment {
	var l []*sqlast.Assignment
	for i := b.num(min); i > 0; i-- {
		l = append(l, b.assign())
	}
	return l
}

func (b *B) colDef() *sqlast.ColumnDef {
	return &sqlast.ColumnDef{Name: b.id(), DataType: &sqlast.UUID{}}
}

func (b *B) size() *uint {
	if b.opt() {
		u := uint(7)
		return &u
	}
	return nil
}

func (b *B) bound(i int) *uint64 {
	u := uint64(i)
	return &u
}

func (b *B) ref() *sqlast.ReferenceKeyExpr {
	return &sqlast.ReferenceKeyExpr{TableName: b.id(), Columns: []*sqlast.Ident{b.id()}}
}

type maker func(b *B) sqlast.Node

// node types with children, apart from File
var inner = []maker{
	func(b *B) sqlast.Node { return &sqlast.QualifiedWildcard{Idents: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.CompoundIdent{Idents: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.IsNull{X: b.id()} },
	func(b *B) sqlast.Node { return &sqlast.IsNotNull{X: b.id()} },
	func(b *B) sqlast.Node { return &sqlast.InList{Expr: b.id(), List: b.nodes(1), Negated: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.InSubQuery{Expr: b.id(), SubQuery: b.query(), Negated: b.opt()} },
	func(b *B) sqlast.Node {
		return &sqlast.Between{Expr: b.id(), Low: b.id(), High: b.id(), Negated: b.opt()}
	},
	func(b *B) sqlast.Node {
		return &sqlast.BinaryExpr{Left: b.id(), Op: &sqlast.Operator{Type: sqlast.Plus}, Right: b.id()}
	},
	func(b *B) sqlast.Node { return &sqlast.Cast{Expr: b.id(), DataType: &sqlast.UUID{}} },
	func(b *B) sqlast.Node { return &sqlast.Nested{AST: b.id()} },
	func(b *B) sqlast.Node {
		return &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: sqlast.Minus}, Expr: b.id()}
	},
	func(b *B) sqlast.Node {
		f := &sqlast.Function{Name: b.obj(), Args: b.nodes(0)}
		if b.opt() {
			f.Over = &sqlast.WindowSpec{}
		}
		return f
	},
	func(b *B) sqlast.Node {
		c := &sqlast.CaseExpr{Operand: b.optNode()}
		for i := b.num(1); i > 0; i-- {
			c.Conditions = append(c.Conditions, b.id())
			c.Results = append(c.Results, b.id())
		}
		c.ElseResult = b.optNode()
		return c
	},
	func(b *B) sqlast.Node { return &sqlast.Exists{Negated: b.opt(), Query: b.query()} },
	func(b *B) sqlast.Node { return &sqlast.SubQuery{Query: b.query()} },
	func(b *B) sqlast.Node { return &sqlast.ObjectName{Idents: b.ids(1)} },
	func(b *B) sqlast.Node {
		w := &sqlast.WindowSpec{PartitionBy: b.nodes(0), OrderBy: b.orders()}
		if b.opt() {
			w.WindowsFrame = &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{}, StartBound: &sqlast.CurrentRow{}}
		}
		return w
	},
	func(b *B) sqlast.Node {
		f := &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: sqlast.RangeUnit}, StartBound: &sqlast.Preceding{Bound: b.bound(3)}}
		if b.opt() {
			f.EndBound = &sqlast.Following{Bound: b.bound(4)}
		}
		return f
	},
	func(b *B) sqlast.Node {
		q := &sqlast.QueryStmt{}
		for i := b.num(0); i > 0; i-- {
			q.CTEs = append(q.CTEs, &sqlast.CTE{Alias: b.id(), Query: b.query()})
		}
		q.Body = b.body()
		q.OrderBy = b.orders()
		if b.opt() {
			q.Limit = &sqlast.LimitExpr{All: true}
		}
		return q
	},
	func(b *B) sqlast.Node { return &sqlast.CTE{Alias: b.id(), Query: b.query()} },
	func(b *B) sqlast.Node { return &sqlast.SelectExpr{Select: b.sel()} },
	func(b *B) sqlast.Node { return &sqlast.QueryExpr{Query: b.query()} },
	func(b *B) sqlast.Node {
		s := &sqlast.SetOperationExpr{Left: b.body(), All: b.opt()}
		switch vsym.Concrete(vsym.Int(0, 2)) {
		case 0:
			s.Op = &sqlast.UnionOperator{}
		case 1:
			s.Op = &sqlast.ExceptOperator{}
		default:
			s.Op = &sqlast.IntersectOperator{}
		}
		s.Right = b.body()
		return s
	},
	func(b *B) sqlast.Node {
		s := &sqlast.SQLSelect{Distinct: b.opt()}
		for i := b.num(1); i > 0; i-- {
			s.Projection = append(s.Projection, &sqlast.UnnamedSelectItem{Node: b.id()})
		}
		for i := b.num(0); i > 0; i-- {
			s.FromClause = append(s.FromClause, b.tref())
		}
		s.WhereClause = b.optNode()
		s.GroupByClause = b.nodes(0)
		s.HavingClause = b.optNode()
		return s
	},
	func(b *B) sqlast.Node {
		j := &sqlast.QualifiedJoin{LeftElement: b.elem(), Type: &sqlast.JoinType{Condition: sqlast.LEFT}, RightElement: b.elem()}
		if b.opt() {
			j.Spec = &sqlast.JoinCondition{SearchCondition: b.id()}
		} else {
			j.Spec = &sqlast.NamedColumnsJoin{ColumnList: b.ids(1)}
		}
		return j
	},
	func(b *B) sqlast.Node { return b.elem() },
	func(b *B) sqlast.Node { return &sqlast.NamedColumnsJoin{ColumnList: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.JoinCondition{SearchCondition: b.id()} },
	func(b *B) sqlast.Node {
		return &sqlast.NaturalJoin{LeftElement: b.elem(), Type: &sqlast.JoinType{Condition: sqlast.INNER}, RightElement: b.elem()}
	},
	func(b *B) sqlast.Node { return &sqlast.PartitionedJoinTable{Factor: b.tref(), ColumnList: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.CrossJoin{Reference: b.tref(), Factor: b.tref()} },
	func(b *B) sqlast.Node {
		t := &sqlast.Table{Name: b.obj()}
		if b.opt() {
			t.Args = append([]sqlast.Node{}, b.nodes(0)...)
		}
		t.Alias = b.optID()
		t.WithHints = b.nodes(0)
		return t
	},
	func(b *B) sqlast.Node {
		return &sqlast.Derived{Lateral: b.opt(), SubQuery: b.query(), Alias: b.optID()}
	},
	func(b *B) sqlast.Node { return &sqlast.UnnamedSelectItem{Node: b.id()} },
	func(b *B) sqlast.Node { return &sqlast.AliasSelectItem{Expr: b.id(), Alias: b.id()} },
	func(b *B) sqlast.Node { return &sqlast.QualifiedWildcardSelectItem{Prefix: b.obj()} },
	func(b *B) sqlast.Node {
		o := b.order()
		if b.opt() {
			a := b.opt()
			o.ASC = &a
		}
		return o
	},
	func(b *B) sqlast.Node {
		l := &sqlast.LimitExpr{}
		if b.opt() {
			l.All = true
		} else {
			l.LimitValue = b.long(5)
		}
		if b.opt() {
			l.OffsetValue = b.long(6)
		}
		return l
	},
	func(b *B) sqlast.Node { return &sqlast.Array{Ty: &sqlast.Int{}} },
	func(b *B) sqlast.Node { return &sqlast.Custom{Ty: b.obj()} },
	func(b *B) sqlast.Node {
		s := &sqlast.InsertStmt{TableName: b.obj(), Columns: b.ids(0)}
		if b.opt() {
			s.Source = &sqlast.SubQuerySource{SubQuery: b.query()}
		} else {
			s.Source = &sqlast.ConstructorSource{Rows: []*sqlast.RowValueExpr{{Values: []sqlast.Node{b.id()}}}}
		}
		s.UpdateAssignments = b.assigns(0)
		return s
	},
	func(b *B) sqlast.Node {
		c := &sqlast.ConstructorSource{}
		for i := b.num(1); i > 0; i-- {
			c.Rows = append(c.Rows, &sqlast.RowValueExpr{Values: []sqlast.Node{b.id()}})
		}
		return c
	},
	func(b *B) sqlast.Node { return &sqlast.RowValueExpr{Values: b.nodes(1)} },
	func(b *B) sqlast.Node { return &sqlast.SubQuerySource{SubQuery: b.query()} },
	func(b *B) sqlast.Node { return &sqlast.CopyStmt{TableName: b.obj(), Columns: b.ids(0)} },
	func(b *B) sqlast.Node {
		return &sqlast.UpdateStmt{TableName: b.obj(), Assignments: b.assigns(1), Selection: b.optNode()}
	},
	func(b *B) sqlast.Node { return &sqlast.DeleteStmt{TableName: b.obj(), Selection: b.optNode()} },
	func(b *B) sqlast.Node {
		return &sqlast.CreateViewStmt{Name: b.obj(), Query: b.query(), Materialized: b.opt()}
	},
	func(b *B) sqlast.Node {
		c := &sqlast.CreateTableStmt{Name: b.obj(), NotExists: b.opt()}
		for i := b.num(0); i > 0; i-- {
			c.Elements = append(c.Elements, b.colDef())
		}
		for i := b.num(0); i > 0; i-- {
			c.Options = append(c.Options, &sqlast.MyEngine{Name: b.id(), Equal: true})
		}
		return c
	},
	func(b *B) sqlast.Node { return &sqlast.MyEngine{Name: b.id(), Equal: b.opt()} },
	func(b *B) sqlast.Node {
		return &sqlast.MyCharset{Name: b.id(), Equal: b.opt(), IsDefault: b.opt()}
	},
	func(b *B) sqlast.Node { return b.assign() },
	func(b *B) sqlast.Node {
		return &sqlast.TableConstraint{Name: b.optID(), Spec: &sqlast.CheckTableConstraint{Expr: b.id()}}
	},
	func(b *B) sqlast.Node {
		return &sqlast.UniqueTableConstraint{IsPrimary: b.opt(), Columns: b.ids(1)}
	},
	func(b *B) sqlast.Node { return &sqlast.ReferentialTableConstraint{Columns: b.ids(1), KeyExpr: b.ref()} },
	func(b *B) sqlast.Node { return &sqlast.ReferenceKeyExpr{TableName: b.id(), Columns: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.CheckTableConstraint{Expr: b.id()} },
	func(b *B) sqlast.Node {
		c := b.colDef()
		c.Default = b.optNode()
		for i := b.num(0); i > 0; i-- {
			c.MyDataTypeDecoration = append(c.MyDataTypeDecoration, &sqlast.AutoIncrement{})
		}
		for i := b.num(0); i > 0; i-- {
			c.Constraints = append(c.Constraints, &sqlast.ColumnConstraint{Spec: &sqlast.CheckColumnSpec{Expr: b.id()}})
		}
		return c
	},
	func(b *B) sqlast.Node {
		c := &sqlast.ColumnConstraint{Name: b.optID()}
		if b.opt() {
			c.Spec = &sqlast.UniqueColumnSpec{}
		} else {
			c.Spec = &sqlast.NotNullColumnSpec{}
		}
		return c
	},
	func(b *B) sqlast.Node { return &sqlast.ReferencesColumnSpec{TableName: b.obj(), Columns: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.CheckColumnSpec{Expr: b.id()} },
	func(b *B) sqlast.Node {
		return &sqlast.AlterTableStmt{TableName: b.obj(), Action: &sqlast.AddColumnTableAction{Column: b.colDef()}}
	},
	func(b *B) sqlast.Node { return &sqlast.AddColumnTableAction{Column: b.colDef()} },
	func(b *B) sqlast.Node {
		a := &sqlast.AlterColumnTableAction{ColumnName: b.id()}
		switch vsym.Concrete(vsym.Int(0, 2)) {
		case 0:
			a.Action = &sqlast.DropDefaultColumnAction{}
		case 1:
			a.Action = &sqlast.PGSetNotNullColumnAction{}
		default:
			a.Action = &sqlast.PGDropNotNullColumnAction{}
		}
		return a
	},
	func(b *B) sqlast.Node { return &sqlast.SetDefaultColumnAction{Default: b.id()} },
	func(b *B) sqlast.Node { return &sqlast.PGAlterDataTypeColumnAction{DataType: &sqlast.UUID{}} },
	func(b *B) sqlast.Node { return &sqlast.RemoveColumnTableAction{Name: b.id(), Cascade: b.opt()} },
	func(b *B) sqlast.Node {
		return &sqlast.AddConstraintTableAction{Constraint: &sqlast.TableConstraint{Spec: &sqlast.UniqueTableConstraint{Columns: b.ids(1)}}}
	},
	func(b *B) sqlast.Node { return &sqlast.DropConstraintTableAction{Name: b.id(), Cascade: b.opt()} },
	func(b *B) sqlast.Node {
		d := &sqlast.DropTableStmt{Cascade: b.opt(), IfExists: b.opt()}
		for i := b.num(1); i > 0; i-- {
			d.TableNames = append(d.TableNames, b.obj())
		}
		return d
	},
	func(b *B) sqlast.Node {
		c := &sqlast.CreateIndexStmt{IsUnique: b.opt()}
		c.IndexName = b.optID()
		c.TableName = b.obj()
		c.MethodName = b.optID()
		c.ColumnNames = b.ids(1)
		c.Selection = b.optNode()
		return c
	},
	func(b *B) sqlast.Node { return &sqlast.DropIndexStmt{IndexNames: b.ids(1)} },
	func(b *B) sqlast.Node { return &sqlast.ExplainStmt{Stmt: b.query()} },
}

// node types without children
var leaves = []maker{
	func(b *B) sqlast.Node { return b.id() },
	func(b *B) sqlast.Node { return &sqlast.Wildcard{} },
	func(b *B) sqlast.Node {
		return &sqlast.WindowFrameUnit{Type: [...]sqlast.WindowFrameUnitType{sqlast.RowsUnit, sqlast.RangeUnit, sqlast.GroupsUnit}[vsym.Concrete(vsym.Int(0, 2))]}
	},
	func(b *B) sqlast.Node { return &sqlast.CurrentRow{} },
	func(b *B) sqlast.Node { return &sqlast.UnboundedPreceding{} },
	func(b *B) sqlast.Node { return &sqlast.UnboundedFollowing{} },
	func(b *B) sqlast.Node { return &sqlast.Preceding{Bound: b.bound(9)} },
	func(b *B) sqlast.Node { return &sqlast.Following{Bound: b.bound(8)} },
	func(b *B) sqlast.Node { return &sqlast.UnionOperator{} },
	func(b *B) sqlast.Node { return &sqlast.ExceptOperator{} },
	func(b *B) sqlast.Node { return &sqlast.IntersectOperator{} },
	func(b *B) sqlast.Node {
		return &sqlast.JoinType{Condition: [...]sqlast.JoinTypeCondition{sqlast.INNER, sqlast.LEFT, sqlast.RIGHT, sqlast.FULL, sqlast.LEFTOUTER, sqlast.RIGHTOUTER, sqlast.FULLOUTER, sqlast.IMPLICIT}[vsym.Concrete(vsym.Int(0, 7))]}
	},
	func(b *B) sqlast.Node { return &sqlast.WildcardSelectItem{} },
	func(b *B) sqlast.Node { return &sqlast.CharType{Size: b.size()} },
	func(b *B) sqlast.Node { return &sqlast.VarcharType{Size: b.size()} },
	func(b *B) sqlast.Node { return &sqlast.UUID{} },
	func(b *B) sqlast.Node { return &sqlast.Clob{Size: 4} },
	func(b *B) sqlast.Node { return &sqlast.Binary{Size: 5} },
	func(b *B) sqlast.Node { return &sqlast.Varbinary{Size: 6} },
	func(b *B) sqlast.Node { return &sqlast.Blob{Size: 7} },
	func(b *B) sqlast.Node {
		d := &sqlast.Decimal{Precision: b.size(), IsUnsigned: b.opt()}
		if d.Precision != nil {
			d.Scale = b.size()
		}
		return d
	},
	func(b *B) sqlast.Node { return &sqlast.Float{Size: b.size(), IsUnsigned: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.SmallInt{IsUnsigned: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.Int{IsUnsigned: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.BigInt{IsUnsigned: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.Real{IsUnsigned: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.Double{} },
	func(b *B) sqlast.Node { return &sqlast.Boolean{} },
	func(b *B) sqlast.Node { return &sqlast.Date{} },
	func(b *B) sqlast.Node { return &sqlast.Time{WithTimeZone: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.Timestamp{WithTimeZone: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.Regclass{} },
	func(b *B) sqlast.Node { return &sqlast.Text{} },
	func(b *B) sqlast.Node { return &sqlast.Bytea{} },
	func(b *B) sqlast.Node { return &sqlast.AutoIncrement{} },
	func(b *B) sqlast.Node { return &sqlast.NotNullColumnSpec{} },
	func(b *B) sqlast.Node { return &sqlast.UniqueColumnSpec{IsPrimaryKey: b.opt()} },
	func(b *B) sqlast.Node { return &sqlast.DropDefaultColumnAction{} },
	func(b *B) sqlast.Node { return &sqlast.PGSetNotNullColumnAction{} },
	func(b *B) sqlast.Node { return &sqlast.PGDropNotNullColumnAction{} },
	func(b *B) sqlast.Node {
		return &sqlast.Operator{Type: sqlast.OperatorType(vsym.Concrete(vsym.Int(0, int(sqlast.None)-1)))}
	},
	func(b *B) sqlast.Node { return &sqlast.NullValue{} },
	func(b *B) sqlast.Node { return &sqlast.LongValue{Long: 12} },
	func(b *B) sqlast.Node { return &sqlast.DoubleValue{Double: 1.5} },
	func(b *B) sqlast.Node { return &sqlast.SingleQuotedString{String: "it's"} },
	func(b *B) sqlast.Node { return &sqlast.NationalStringLiteral{String: "it's"} },
	func(b *B) sqlast.Node { return &sqlast.BooleanValue{Boolean: b.opt()} },
}

// leaves holding a time
var timeLeaves = []maker{
	func(b *B) sqlast.Node { return &sqlast.DateValue{Date: time.Date(2021, 2, 3, 14, 5, 6, 0, time.UTC)} },
	func(b *B) sqlast.Node { return &sqlast.TimeValue{Time: time.Date(2021, 2, 3, 14, 5, 6, 0, time.UTC)} },
	func(b *B) sqlast.Node {
		return &sqlast.DateTimeValue{DateTime: time.Date(2021, 2, 3, 14, 5, 6, 0, time.UTC)}
	},
	func(b *B) sqlast.Node {
		return &sqlast.TimestampValue{Timestamp: time.Date(2021, 2, 3, 14, 5, 6, 0, time.UTC)}
	},
}

// anyNode is a node of any type.
func anyNode(b *B, times bool) sqlast.Node {
	n := len(inner) + len(leaves)
	if times {
		n += len(timeLeaves)
	}
	k := vsym.Concrete(vsym.Int(0, n-1))
	if k < len(inner) {
		return inner[k](b)
	}
	if k -= len(inner); k < len(leaves) {
		return leaves[k](b)
	}
	return timeLeaves[k-len(leaves)](b)
}
