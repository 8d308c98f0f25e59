package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Trees built by hand, printed and parsed (A08).

// a08 prints the tree the model builds for a statement.
func a08(g *G, s sqlast.Stmt) {
	before := shape(s, nil)
	text := s.ToSQLString()
	vsym.Check(sameShape(before, shape(s, nil)), "tree-changed")
	vsym.Check(s.ToSQLString() == text, "text-differs")
	toks, ok := lexText(dGeneric, text)
	same := ok && len(toks) == len(g.out)
	for i := 0; same && i < len(toks); i++ {
		t, kw := rendered(toks[i])
		o := g.out[i]
		if o.c == cKeyword {
			same = kw && strings.ToUpper(t) == o.s
		} else {
			same = t == o.s
		}
	}
	vsym.Check(same, "printed")
	if !vsym.Symbolic() && !same {
		vsym.Log("printed: %s\nwant:    %s", text, g.canonical())
	}
	again, err := parseText(dGeneric, text)
	back := err == nil && len(again) == 1 && vsym.Same(again[0], s)
	vsym.Check(back, "parsed-back")
	if !vsym.Symbolic() && !back {
		vsym.Log("printed: %s\nerror: %v", text, err)
		if err == nil && len(again) == 1 {
			vsym.Log("again: %s", again[0].ToSQLString())
		}
	}
}

// a08Print is a08 without parsing.
func a08Names(n sqlast.Node, names []string) {
	text := n.ToSQLString()
	vsym.Check(n.ToSQLString() == text, "text-differs")
	toks, ok := lexText(dGeneric, text)
	i := 0
	for _, t := range toks {
		if w, k := t.Value.(*sqltoken.SQLWord); k && i < len(names) && w.Value == names[i] {
			i++
		}
	}
	ok = ok && i == len(names)
	vsym.Check(ok, "part-missing")
	if !vsym.Symbolic() && !ok {
		vsym.Log("%s prints %s, names %v", nodeName(n), text, names)
	}
}

// A08Each prints a node of any type and looks for the names in it.
func A08Each() {
	b := &B{max: depth(2, 3)}
	n := inner[vsym.Concrete(vsym.Int(0, len(inner)-1))](b)
	before := shape(n, nil)
	var names []string
	sqlast.Inspect(n, func(x sqlast.Node) bool {
		if id, ok := x.(*sqlast.Ident); ok {
			names = append(names, id.Value)
		}
		return true
	})
	vsym.Check(len(names) == b.n, "names")
	a08Names(n, names)
	vsym.Check(sameShape(before, shape(n, nil)), "tree-changed")
}

// A08Lits prints literals of any value.
func A08Lits() {
	g := newMask(depth(1, 2), kExpr)
	g.symLits = depth(1, 2)
	g.litExpr = true
	s := selectOf(g, g.expr, nil)
	a08(g, s)
}

// emptyLists replaces absent lists by empty ones (but not those of a table,
// where an empty argument list is one that was written).
func emptyLists(root sqlast.Node) {
	sqlast.Inspect(root, func(n sqlast.Node) bool {
		switch n := n.(type) {
		case *sqlast.Function:
			if n.Args == nil {
				n.Args = []sqlast.Node{}
			}
		case *sqlast.WindowSpec:
			if n.PartitionBy == nil {
				n.PartitionBy = []sqlast.Node{}
			}
			if n.OrderBy == nil {
				n.OrderBy = []*sqlast.OrderByExpr{}
			}
		case *sqlast.QueryStmt:
			if n.CTEs == nil {
				n.CTEs = []*sqlast.CTE{}
			}
			if n.OrderBy == nil {
				n.OrderBy = []*sqlast.OrderByExpr{}
			}
		case *sqlast.SQLSelect:
			if n.FromClause == nil {
				n.FromClause = []sqlast.TableReference{}
			}
			if n.GroupByClause == nil {
				n.GroupByClause = []sqlast.Node{}
			}
		case *sqlast.Table:
			if n.WithHints == nil {
				n.WithHints = []sqlast.Node{}
			}
		case *sqlast.InsertStmt:
			if n.Columns == nil {
				n.Columns = []*sqlast.Ident{}
			}
			if n.UpdateAssignments == nil {
				n.UpdateAssignments = []*sqlast.Assignment{}
			}
		case *sqlast.CreateTableStmt:
			if n.Elements == nil {
				n.Elements = []sqlast.TableElement{}
			}
			if n.Options == nil {
				n.Options = []sqlast.TableOption{}
			}
		case *sqlast.ColumnDef:
			if n.MyDataTypeDecoration == nil {
				n.MyDataTypeDecoration = []sqlast.MyDataTypeDecoration{}
			}
			if n.Constraints == nil {
				n.Constraints = []*sqlast.ColumnConstraint{}
			}
		case *sqlast.CreateIndexStmt:
			if n.ColumnNames == nil {
				n.ColumnNames = []*sqlast.Ident{}
			}
		}
		return true
	})
}

// A08Empty: absent lists given as empty ones.
func A08Empty() {
	g := newG(depth(1, 2))
	s := g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	emptyLists(s)
	a08(g, s)
}

func A08EmptyClauses() {
	g := newG(0)
	g.free = 1
	s := g.queryTop()
	emptyLists(s)
	a08(g, s)
}

func A08EmptyOver() {
	g := newMask(depth(2, 3), kOver|kFrame|kOrder|kList)
	s := selectOf(g, func() sqlast.Node { return g.function() }, nil)
	emptyLists(s)
	a08(g, s)
}

func A08Query()   { withTexts(rootQuery, a08) }
func A08Clauses() { withTexts(rootClauses, a08) }
func A08Joins()   { withTexts(rootJoins, a08) }
func A08Factors() { withTexts(rootFactors, a08) }
func A08Window()  { rootWindow(a08) }
func A08Sets()    { withTexts(rootSets, a08) }
func A08Exprs()   { rootExprs(a08) }
func A08Changes() { withTexts(rootChanges, a08) }
func A08Lists()   { rootLists(a08) }
func A08Explain() { withTexts(rootExplain, a08) }
func A08Schema()  { withTexts(rootSchema, a08) }
func A08Cols()    { withTexts(rootCols, a08) }
func A08Elems()   { rootElems(a08) }
func A08ColX()    { withTexts(rootColExprs, a08) }
func A08Types()   { rootTypes(a08) }

func init() {
	reg(
		H{Prop: "A08", Name: "A08.each", Fn: A08Each, Bounds: bEach + ", printed without parsing"},
		H{Prop: "A08", Name: "A08.literals", Fn: A08Lits, Bounds: "expressions of up to 1/2 nested forms with up to 1/2 literals: any number below 100, any string of 2 ASCII characters"},
		H{Prop: "A08", Name: "A08.empty", Fn: A08Empty, Bounds: "every statement kind with up to 1 (thorough 2) deviations, every absent list given as an empty one"},
		H{Prop: "A08", Name: "A08.empty-clauses", Fn: A08EmptyClauses, Bounds: "every combination of the clauses of a query, every absent list given as an empty one"},
		H{Prop: "A08", Name: "A08.empty-over", Fn: A08EmptyOver, Bounds: "window functions of up to 2 (thorough 3) deviations, every absent list given as an empty one"},
		H{Prop: "A08", Name: "A08.query", Fn: A08Query, Bounds: bQuery},
		H{Prop: "A08", Name: "A08.clauses", Fn: A08Clauses, Bounds: bClauses},
		H{Prop: "A08", Name: "A08.joins", Fn: A08Joins, Bounds: bJoins},
		H{Prop: "A08", Name: "A08.tables", Fn: A08Factors, Bounds: bFactors},
		H{Prop: "A08", Name: "A08.window", Fn: A08Window, Bounds: bWindow},
		H{Prop: "A08", Name: "A08.sets", Fn: A08Sets, Bounds: bSets},
		H{Prop: "A08", Name: "A08.exprs", Fn: A08Exprs, Bounds: bExprs},
		H{Prop: "A08", Name: "A08.changes", Fn: A08Changes, Bounds: bChanges},
		H{Prop: "A08", Name: "A08.lists", Fn: A08Lists, Bounds: bLists},
		H{Prop: "A08", Name: "A08.explain", Fn: A08Explain, Bounds: bExplain},
		H{Prop: "A08", Name: "A08.schema", Fn: A08Schema, Bounds: bSchema},
		H{Prop: "A08", Name: "A08.column-exprs", Fn: A08ColX, Bounds: bColX},
		H{Prop: "A08", Name: "A08.columns", Fn: A08Cols, Bounds: bCols},
		H{Prop: "A08", Name: "A08.elements", Fn: A08Elems, Bounds: bElems},
		H{Prop: "A08", Name: "A08.types", Fn: A08Types, Bounds: bTypes},
	)
}
