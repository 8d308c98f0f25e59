package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Operator grouping (P04). The reference reduces the token sequence, tightest
// operator first and leftmost first among equals, instead of descending.

type pop struct {
	toks []sqltoken.Kind // of an operator made of punctuation
	word string
	prec int
	op   sqlast.OperatorType
}

// the punctuation operators, one symbolic choice
var punctOps = []pop{
	{prec: 30, toks: []sqltoken.Kind{sqltoken.Plus}, op: sqlast.Plus},
	{prec: 30, toks: []sqltoken.Kind{sqltoken.Minus}, op: sqlast.Minus},
	{prec: 40, toks: []sqltoken.Kind{sqltoken.Mult}, op: sqlast.Multiply},
	{prec: 40, toks: []sqltoken.Kind{sqltoken.Div}, op: sqlast.Divide},
	{prec: 40, toks: []sqltoken.Kind{sqltoken.Mod}, op: sqlast.Modulus},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.Eq}, op: sqlast.Eq},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.Neq}, op: sqlast.NotEq},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.Lt}, op: sqlast.Lt},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.Gt}, op: sqlast.Gt},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.LtEq}, op: sqlast.LtEq},
	{prec: 20, toks: []sqltoken.Kind{sqltoken.GtEq}, op: sqlast.GtEq},
}

var (
	punctKinds [16]int
	punctPrecs [16]int
	punctTypes [16]int
)

func init() {
	for i, p := range punctOps {
		punctKinds[i] = int(p.toks[0])
		punctPrecs[i] = p.prec
		punctTypes[i] = int(p.op)
	}
}

type pkind int

const (
	pOperand pkind = iota
	pPrefix
	pBinary
	pPostfix
	pBetween
	pBand // AND of a BETWEEN
)

type pitem struct {
	k    pkind
	prec int
	node sqlast.Node
	op   sqlast.OperatorType
	make func(sqlast.Node) sqlast.Node // postfix
	neg  bool
}

// pg builds a token sequence and the items of the reference.
type pg struct {
	toks  []*sqltoken.Token
	items []pitem
	n     int // operands so far
	kind  int // form of the next operand
	left  int // unary forms still allowed
	wide  bool
}

func (p *pg) word(s string) {
	p.toks = append(p.toks, &sqltoken.Token{Kind: sqltoken.SQLKeyword, Value: wordOf(s)})
}

func (p *pg) punct(k sqltoken.Kind) {
	p.toks = append(p.toks, &sqltoken.Token{Kind: k, Value: punctText(k)})
}

func (p *pg) ident() *sqlast.Ident {
	s := nameTexts[p.n]
	p.n++
	p.word(s)
	return &sqlast.Ident{Value: s}
}

// unit emits an operand with its prefix and postfix operators. tight: only
// operators that bind tighter than comparisons.
func (p *pg) unit(tight bool) {
	if p.left > 0 {
		switch c := vsym.Concrete(vsym.Int(0, 3)); c {
		case 1, 2:
			p.left--
			k, op := sqltoken.Minus, sqlast.Minus
			if c == 2 {
				k, op = sqltoken.Plus, sqlast.Plus
			}
			p.punct(k)
			p.items = append(p.items, pitem{k: pPrefix, prec: 30, op: op})
		case 3:
			if tight {
				break
			}
			p.left--
			p.word("NOT")
			p.items = append(p.items, pitem{k: pPrefix, prec: 15, op: sqlast.Not})
		}
	}
	p.items = append(p.items, pitem{k: pOperand, node: p.operand()})
	for p.left > 0 {
		c := vsym.Concrete(vsym.Int(0, 6))
		if c == 0 {
			return
		}
		p.left--
		switch {
		case c == 1:
			p.punct(sqltoken.DoubleColon)
			p.word("INT")
			p.items = append(p.items, pitem{k: pPostfix, prec: 50, make: func(x sqlast.Node) sqlast.Node { return &sqlast.Cast{Expr: x, DataType: &sqlast.Int{}} }})
		case tight:
			vsym.Assume(false)
		case c == 2:
			p.word("IS")
			p.word("NULL")
			p.items = append(p.items, pitem{k: pPostfix, prec: 17, make: func(x sqlast.Node) sqlast.Node { return &sqlast.IsNull{X: x} }})
		case c == 3:
			p.word("IS")
			p.word("NOT")
			p.word("NULL")
			p.items = append(p.items, pitem{k: pPostfix, prec: 17, make: func(x sqlast.Node) sqlast.Node { return &sqlast.IsNotNull{X: x} }})
		case c == 4 || c == 5:
			if c == 5 {
				p.word("NOT")
			}
			p.word("IN")
			p.punct(sqltoken.LParen)
			e := p.ident()
			p.punct(sqltoken.RParen)
			p.items = append(p.items, pitem{k: pPostfix, prec: 20, make: func(x sqlast.Node) sqlast.Node {
				return &sqlast.InList{Expr: x, Negated: c == 5, List: []sqlast.Node{e}}
			}})
		case c == 6:
			neg := vsym.Split(vsym.Bool())
			if neg {
				p.word("NOT")
			}
			p.word("BETWEEN")
			p.items = append(p.items, pitem{k: pBetween, prec: 20, neg: neg})
			p.tightChain()
			p.word("AND")
			p.items = append(p.items, pitem{k: pBand, prec: 20})
			p.tightChain()
		}
	}
}

// tightChain emits one or two operands joined by an arithmetic operator.
func (p *pg) tightChain() {
	p.unit(true)
	if p.left > 0 && vsym.Split(vsym.Bool()) {
		p.left--
		p.punctOp(5)
		p.unit(true)
	}
}

// punctOp emits one of the first n punctuation operators.
func (p *pg) punctOp(n int) {
	v := vsym.Int(0, n-1)
	p.toks = append(p.toks, &sqltoken.Token{Kind: sqltoken.Kind(punctKinds[v]), Value: "?"})
	p.items = append(p.items, pitem{k: pBinary, prec: punctPrecs[v], op: sqlast.OperatorType(punctTypes[v])})
}

func (p *pg) operand() sqlast.Node {
	if k := p.kind; k > 0 {
		p.kind = 0
		return p.form(k)
	}
	if p.left > 0 && p.wide && vsym.Split(vsym.Bool()) {
		p.left--
		p.punct(sqltoken.LParen)
		q := &pg{toks: p.toks, n: p.n, left: p.left}
		q.chain(1)
		p.toks, p.n, p.left = q.toks, q.n, q.left
		p.punct(sqltoken.RParen)
		return &sqlast.Nested{AST: q.reduce()}
	}
	return p.ident()
}

const nForms = 14

func sub(n sqlast.Node) *sqlast.QueryStmt {
	return &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: n}}}}
}

// form emits an operand other than a plain name.
func (p *pg) form(k int) sqlast.Node {
	l, r := sqltoken.LParen, sqltoken.RParen
	name := func() *sqlast.ObjectName { return &sqlast.ObjectName{Idents: []*sqlast.Ident{p.ident()}} }
	switch k {
	case 1:
		p.punct(l)
		e := p.ident()
		p.punct(r)
		return &sqlast.Nested{AST: e}
	case 2: // an operator in the parentheses
		p.punct(l)
		q := &pg{toks: p.toks, n: p.n}
		q.chain(1)
		p.toks, p.n = q.toks, q.n
		p.punct(r)
		return &sqlast.Nested{AST: q.reduce()}
	case 3:
		p.toks = append(p.toks, &sqltoken.Token{Kind: sqltoken.Number, Value: "1"})
		return &sqlast.LongValue{Long: 1}
	case 4:
		p.toks = append(p.toks, &sqltoken.Token{Kind: sqltoken.Number, Value: "1.5"})
		return &sqlast.DoubleValue{Double: 1.5}
	case 5:
		p.toks = append(p.toks, &sqltoken.Token{Kind: sqltoken.SingleQuotedString, Value: "s"})
		return &sqlast.SingleQuotedString{String: "s"}
	case 6:
		p.word("NULL")
		return &sqlast.NullValue{}
	case 7:
		p.word("TRUE")
		return &sqlast.BooleanValue{Boolean: true}
	case 8:
		a := p.ident()
		p.punct(sqltoken.Period)
		return &sqlast.CompoundIdent{Idents: []*sqlast.Ident{a, p.ident()}}
	case 9:
		n := name()
		p.punct(l)
		p.punct(r)
		return &sqlast.Function{Name: n}
	case 10:
		n := name()
		p.punct(l)
		e := p.ident()
		p.punct(r)
		return &sqlast.Function{Name: n, Args: []sqlast.Node{e}}
	case 11:
		p.word("CASE")
		p.word("WHEN")
		c := p.ident()
		p.word("THEN")
		x := p.ident()
		p.word("END")
		return &sqlast.CaseExpr{Conditions: []sqlast.Node{c}, Results: []sqlast.Node{x}}
	case 12:
		p.word("CAST")
		p.punct(l)
		e := p.ident()
		p.word("AS")
		p.word("INT")
		p.punct(r)
		return &sqlast.Cast{Expr: e, DataType: &sqlast.Int{}}
	case 13:
		// NOT EXISTS is one operand
		vsym.Assume(len(p.items) == 0 || p.items[len(p.items)-1].op != sqlast.Not)
		p.word("EXISTS")
		p.punct(l)
		p.word("SELECT")
		e := p.ident()
		p.punct(r)
		return &sqlast.Exists{Query: sub(e)}
	default:
		p.punct(l)
		p.word("SELECT")
		e := p.ident()
		p.punct(r)
		return &sqlast.SubQuery{Query: sub(e)}
	}
}

// P04Forms: an operand of any form with operators before and behind it.
func P04Forms() {
	p := &pg{}
	at := vsym.Concrete(vsym.Int(0, 1))
	for i := 0; i < 2; i++ {
		p.left = 0
		if vsym.Tier() > 0 {
			p.left = 1
		}
		if i == at {
			p.left = 2
			p.kind = 1 + vsym.Concrete(vsym.Int(0, nForms-1))
		}
		p.unit(false)
		if i == 0 {
			p.binary()
		}
	}
	p.check(p.toks)
}

func (p *pg) binary() {
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 0:
		p.punctOp(len(punctOps))
	case 1:
		p.word("AND")
		p.items = append(p.items, pitem{k: pBinary, prec: 10, op: sqlast.And})
	case 2:
		p.word("OR")
		p.items = append(p.items, pitem{k: pBinary, prec: 5, op: sqlast.Or})
	case 3:
		p.word("LIKE")
		p.items = append(p.items, pitem{k: pBinary, prec: 20, op: sqlast.Like})
	case 4:
		p.word("NOT")
		p.word("LIKE")
		p.items = append(p.items, pitem{k: pBinary, prec: 20, op: sqlast.NotLike})
	}
}

// chain emits operands joined by n binary operators.
func (p *pg) chain(n int) {
	p.unit(false)
	for i := 0; i < n; i++ {
		p.binary()
		p.unit(false)
	}
}

func (p *pg) isOperand(i int) bool {
	return i >= 0 && i < len(p.items) && p.items[i].k == pOperand
}

func (p *pg) tighter(i, prec int) bool {
	return i < len(p.items) && p.items[i].k != pOperand && p.items[i].k != pBand && vsym.Split(p.items[i].prec > prec)
}

// before: the operand after item i belongs to that item first.
func (p *pg) before(i, prec int) bool {
	return i >= 0 && p.items[i].k != pOperand && p.items[i].k != pPostfix && vsym.Split(p.items[i].prec >= prec)
}

// reduce builds the tree the precedences stand for.
func (p *pg) reduce() sqlast.Node {
	for len(p.items) > 1 {
		best, prec := -1, 0
		for i, it := range p.items {
			ok := false
			switch it.k {
			case pPrefix:
				// the operand belongs to a tighter operator behind it, even
				// while that one waits for its own operand
				ok = p.isOperand(i+1) && !p.tighter(i+2, it.prec)
			case pBinary:
				ok = p.isOperand(i-1) && p.isOperand(i+1) && !p.tighter(i+2, it.prec) && !p.before(i-2, it.prec)
			case pPostfix:
				ok = p.isOperand(i-1) && !p.before(i-2, it.prec)
			case pBetween:
				ok = p.isOperand(i-1) && !p.before(i-2, it.prec) && p.isOperand(i+1) && i+3 < len(p.items) && p.items[i+2].k == pBand && p.isOperand(i+3) && !p.tighter(i+4, it.prec)
			}
			if ok && (best < 0 || vsym.Split(it.prec > prec)) {
				best, prec = i, it.prec
			}
		}
		it := p.items[best]
		var n sqlast.Node
		from, to := best, best+1
		switch it.k {
		case pPrefix:
			n = &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: it.op}, Expr: p.items[best+1].node}
			to = best + 2
		case pBinary:
			n = &sqlast.BinaryExpr{Left: p.items[best-1].node, Op: &sqlast.Operator{Type: it.op}, Right: p.items[best+1].node}
			from, to = best-1, best+2
		case pPostfix:
			n = it.make(p.items[best-1].node)
			from = best - 1
		case pBetween:
			n = &sqlast.Between{Expr: p.items[best-1].node, Negated: it.neg, Low: p.items[best+1].node, High: p.items[best+3].node}
			from, to = best-1, best+4
		}
		l := append([]pitem(nil), p.items[:from]...)
		l = append(l, pitem{k: pOperand, node: n})
		p.items = append(l, p.items[to:]...)
	}
	return p.items[0].node
}

func tokText2(l []*sqltoken.Token) string {
	s := ""
	for _, t := range l {
		x, _ := tokText(t)
		if x == "?" {
			x = punctText(t.Kind)
		}
		s += x + " "
	}
	return s
}

// P04Chain: a bare expression.
func p04Chain(n, unary int, wide bool) {
	p := &pg{left: unary, wide: wide}
	p.chain(n)
	p.check(p.toks)
}

func (p *pg) check(toks []*sqltoken.Token) {
	got, err := parserOf(placeAny(p.toks)).ParseExpr()
	if err != nil {
		vsym.Check(false, "expression-rejected")
		vsym.Log("source: %s error: %v", tokText2(p.toks), err)
		return
	}
	want := p.reduce()
	ok := vsym.Same(got, want)
	vsym.Check(ok, "grouping")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s\ngot:  %s\nwant: %s", tokText2(p.toks), sqlOf(got), sqlOf(want))
	}
}

func P04Binary() { p04Chain(depth(4, 5), 0, false) }
func P04Mixed()  { p04Chain(2, depth(1, 2), true) }
func P04Unary()  { p04Chain(1, depth(2, 3), false) }

// P04Places: the grouping of the same expression wherever a statement has one.
func P04Places() {
	g := newG(0)
	p := &pg{left: 1}
	id := func() *sqlast.Ident { return g.id() }
	_ = id
	w := func(s ...string) {
		for _, x := range s {
			p.word(x)
		}
	}
	var find func(sqlast.Stmt) sqlast.Node
	sel := func(s sqlast.Stmt) *sqlast.SQLSelect {
		q, ok := s.(*sqlast.QueryStmt)
		if !ok {
			return &sqlast.SQLSelect{}
		}
		b, ok := q.Body.(*sqlast.SQLSelect)
		if !ok {
			return &sqlast.SQLSelect{}
		}
		return b
	}
	item := func(s sqlast.Stmt) sqlast.Node {
		b := sel(s)
		if len(b.Projection) == 0 {
			return nil
		}
		switch i := b.Projection[0].(type) {
		case *sqlast.UnnamedSelectItem:
			return i.Node
		case *sqlast.AliasSelectItem:
			return i.Expr
		}
		return nil
	}
	n := depth(1, 2)
	end := func() {}
	switch vsym.Concrete(vsym.Int(0, 23)) {
	case 0:
		w("SELECT")
		find = item
	case 1:
		w("SELECT")
		end = func() { w("AS", "z") }
		find = item
	case 2:
		w("SELECT")
		end = func() { w("FROM", "z") }
		find = item
	case 3:
		w("SELECT", "z", "FROM", "z", "WHERE")
		find = func(s sqlast.Stmt) sqlast.Node { return sel(s).WhereClause }
	case 4:
		w("SELECT", "z", "FROM", "z", "WHERE")
		end = func() { w("GROUP", "BY", "z") }
		find = func(s sqlast.Stmt) sqlast.Node { return sel(s).WhereClause }
	case 5:
		w("SELECT", "z", "FROM", "z", "GROUP", "BY", "z", "HAVING")
		end = func() { w("ORDER", "BY", "z") }
		find = func(s sqlast.Stmt) sqlast.Node { return sel(s).HavingClause }
	case 6:
		w("SELECT", "z", "FROM", "z", "GROUP", "BY")
		end = func() { p.punct(sqltoken.Comma); w("z") }
		find = func(s sqlast.Stmt) sqlast.Node { return sel(s).GroupByClause[0] }
	case 7:
		w("SELECT", "z", "ORDER", "BY")
		end = func() { w("DESC") }
		find = func(s sqlast.Stmt) sqlast.Node { return s.(*sqlast.QueryStmt).OrderBy[0].Expr }
	case 8:
		w("SELECT", "z", "FROM", "z", "JOIN", "y", "ON")
		end = func() { w("WHERE", "z") }
		find = func(s sqlast.Stmt) sqlast.Node {
			return sel(s).FromClause[0].(*sqlast.QualifiedJoin).Spec.(*sqlast.JoinCondition).SearchCondition
		}
	case 9:
		w("SELECT", "f")
		p.punct(sqltoken.LParen)
		end = func() { p.punct(sqltoken.Comma); w("z"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.Function).Args[0] }
	case 10:
		w("SELECT", "CASE")
		end = func() { w("WHEN", "z", "THEN", "z", "END") }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.CaseExpr).Operand }
	case 11:
		w("SELECT", "CASE", "WHEN")
		end = func() { w("THEN", "z", "END") }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.CaseExpr).Conditions[0] }
	case 12:
		w("SELECT", "CASE", "WHEN", "z", "THEN")
		end = func() { w("ELSE", "z", "END") }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.CaseExpr).Results[0] }
	case 13:
		w("SELECT", "CASE", "WHEN", "z", "THEN", "z", "ELSE")
		end = func() { w("END") }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.CaseExpr).ElseResult }
	case 14:
		w("SELECT", "CAST")
		p.punct(sqltoken.LParen)
		end = func() { w("AS", "INT"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.Cast).Expr }
	case 15:
		w("SELECT", "z", "IN")
		p.punct(sqltoken.LParen)
		end = func() { p.punct(sqltoken.Comma); w("z"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.InList).List[0] }
	case 16:
		w("SELECT")
		p.punct(sqltoken.LParen)
		end = func() { p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.Nested).AST }
	case 17:
		w("UPDATE", "z", "SET", "z")
		p.punct(sqltoken.Eq)
		end = func() { w("WHERE", "z") }
		find = func(s sqlast.Stmt) sqlast.Node { return s.(*sqlast.UpdateStmt).Assignments[0].Value }
	case 18:
		w("DELETE", "FROM", "z", "WHERE")
		find = func(s sqlast.Stmt) sqlast.Node { return s.(*sqlast.DeleteStmt).Selection }
	case 19:
		w("INSERT", "INTO", "z", "VALUES")
		p.punct(sqltoken.LParen)
		end = func() { p.punct(sqltoken.Comma); w("z"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node {
			return s.(*sqlast.InsertStmt).Source.(*sqlast.ConstructorSource).Rows[0].Values[0]
		}
	case 20:
		w("CREATE", "TABLE", "z")
		p.punct(sqltoken.LParen)
		w("z", "INT", "CHECK")
		p.punct(sqltoken.LParen)
		end = func() { p.punct(sqltoken.RParen); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node {
			return s.(*sqlast.CreateTableStmt).Elements[0].(*sqlast.ColumnDef).Constraints[0].Spec.(*sqlast.CheckColumnSpec).Expr
		}
	case 21:
		w("CREATE", "TABLE", "z")
		p.punct(sqltoken.LParen)
		w("z", "INT", "DEFAULT")
		end = func() { w("NOT", "NULL"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node {
			return s.(*sqlast.CreateTableStmt).Elements[0].(*sqlast.ColumnDef).Default
		}
	case 22:
		w("SELECT", "f")
		p.punct(sqltoken.LParen)
		p.punct(sqltoken.RParen)
		w("OVER")
		p.punct(sqltoken.LParen)
		w("PARTITION", "BY")
		end = func() { w("ORDER", "BY", "z"); p.punct(sqltoken.RParen) }
		find = func(s sqlast.Stmt) sqlast.Node { return item(s).(*sqlast.Function).Over.PartitionBy[0] }
	case 23:
		w("CREATE", "INDEX", "z", "ON", "z", "WHERE")
		find = func(s sqlast.Stmt) sqlast.Node { return s.(*sqlast.CreateIndexStmt).Selection }
	}
	p.chain(n)
	end()
	st, err := parseStmt(placeAny(p.toks))
	if err != nil {
		vsym.Check(false, "expression-rejected")
		vsym.Log("source: %s error: %v", tokText2(p.toks), err)
		return
	}
	vsym.Check(vsym.Same(find(st), p.reduce()), "grouping")
}

func init() {
	reg(
		H{Prop: "P04", Name: "P04.binary", Fn: P04Binary, Bounds: "5 operands joined by 4 (thorough 5) binary operators, each any of the 15"},
		H{Prop: "P04", Name: "P04.mixed", Fn: P04Mixed, Bounds: "2 binary operators, each any of the 15, with up to 1 (thorough 2) prefix signs, NOT, ::, IS, IN, BETWEEN or parentheses anywhere"},
		H{Prop: "P04", Name: "P04.unary", Fn: P04Unary, Bounds: "1 binary operator, any of the 15, with up to 2 (thorough 3) prefix and postfix operators and BETWEEN bounds of several operands"},
		H{Prop: "P04", Name: "P04.forms", Fn: P04Forms, Bounds: "1 binary operator, any of the 15, one operand of any of 14 forms with up to 2 prefix and postfix operators (parentheses, literals, compound names, calls, CASE, CAST, EXISTS, subqueries); thorough: one prefix or postfix operator with the other operand"},
		H{Prop: "P04", Name: "P04.places", Fn: P04Places, Bounds: "1 (thorough 2) binary operators and up to 1 other operator in 24 places of statements"},
	)
}
