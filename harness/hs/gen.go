package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Statement model: symbolic choices select a statement of the supported
// grammar. The model emits the tokens of the statement, the tree it stands
// for (built from the exported node types), and the tokens its canonical
// rendering consists of.

type gclass byte

const (
	cKeyword gclass = iota
	cName
	cLit
	cPunct
)

type gtok struct {
	c gclass
	k sqltoken.Kind
	s string // word or literal text, punctuation
}

// otok is a token of the canonical rendering.
type otok struct {
	c gclass
	s string
}

type nameRef struct {
	tok  int
	out  int // index of the canonical token
	node *sqlast.Ident
	// position where the grammar gives unquoted keywords a meaning
}

type litRef struct {
	tok  int
	out  int
	node sqlast.Node
}

// pair is a token of the statement and its index in the canonical rendering.
type pair struct {
	in, out int
}

// G generates one statement.
type G struct {
	in    []gtok
	out   []otok
	names []nameRef
	lits  []litRef
	pairs []pair // tokens of the statement that are tokens of the rendering
	left  int    // deviations from the default still allowed
	free  int    // >0: the optional parts of the top-level statement are all free
	mask  uint32 // kinds of choices that may deviate
	depth int
	selAt int // a query starting at this token starts with a word

	litExpr bool // expressions are literals rather than names while symLits > 0
	symLits int  // literals whose value is still to be symbolic
	digits  int  // >0: symbolic numbers have this many digits
	sym     bool // names are any letter, numbers any digit, strings any character
	full    bool // a skeleton: only the expression numbered hot varies
	few     bool // lists have one element more than needed at most
	wide    bool // names and strings span lines where texts are laid out
	nth     int  // expressions so far
	hot     int
	hotLeft int
	hotMask uint32
	colExpr bool // columns have one part, with an expression
}

const (
	kObj uint32 = 1 << iota
	kList
	kExpr
	kOver
	kFrame
	kOrder
	kType
	kQuery
	kSet
	kItem
	kJoin
	kAlias
	kFactor
	kPart
	kElem
	kCol
)

func newG(left int) *G { return &G{left: left, mask: ^uint32(0), sym: anyTexts} }

// anyTexts makes the names and literals of the models to come symbolic.
var anyTexts bool

func withTexts(root func(func(*G, sqlast.Stmt)), check func(*G, sqlast.Stmt)) {
	anyTexts = true
	defer func() { anyTexts = false }()
	root(check)
}

func (g *G) any() *G {
	g.sym = true
	return g
}

// newMask allows only the given kinds of choices to deviate.
func newMask(left int, mask uint32) *G { return &G{left: left, mask: mask, sym: anyTexts} }

// pick is a symbolic choice among n alternatives; 0 is the default.
func (g *G) pick(c uint32, n int) int {
	if g.left <= 0 || g.mask&c == 0 {
		return 0
	}
	v := vsym.Concrete(vsym.Int(0, n-1))
	if v > 0 {
		g.left--
	}
	return v
}

func (g *G) opt(c uint32) bool { return g.pick(c, 2) == 1 }

// part decides about an optional part of a statement.
func (g *G) part() bool {
	if g.free > 0 && g.depth == 0 {
		return vsym.Split(vsym.Bool())
	}
	return g.pick(kPart, 2) == 1
}

func (g *G) count(c uint32, max int) int { return 1 + g.pick(c, g.most(max)) }

// most limits the number of alternatives for list lengths.
func (g *G) most(n int) int {
	if g.few && n > 2 {
		return 2
	}
	return n
}

func (g *G) pair() { g.pairs = append(g.pairs, pair{len(g.in), len(g.out)}) }

func (g *G) kw(ws ...string) {
	for _, w := range ws {
		g.pair()
		g.in = append(g.in, gtok{cKeyword, sqltoken.SQLKeyword, w})
		g.out = append(g.out, otok{cKeyword, w})
	}
}

func (g *G) kwIn(ws ...string) {
	for _, w := range ws {
		g.in = append(g.in, gtok{cKeyword, sqltoken.SQLKeyword, w})
	}
}

func (g *G) kwOut(ws ...string) {
	for _, w := range ws {
		g.out = append(g.out, otok{cKeyword, w})
	}
}

func punctText(k sqltoken.Kind) string {
	switch k {
	case sqltoken.Comma:
		return ","
	case sqltoken.LParen:
		return "("
	case sqltoken.RParen:
		return ")"
	case sqltoken.Period:
		return "."
	case sqltoken.Eq:
		return "="
	case sqltoken.Neq:
		return "!="
	case sqltoken.Lt:
		return "<"
	case sqltoken.Gt:
		return ">"
	case sqltoken.LtEq:
		return "<="
	case sqltoken.GtEq:
		return ">="
	case sqltoken.Plus:
		return "+"
	case sqltoken.Minus:
		return "-"
	case sqltoken.Mult:
		return "*"
	case sqltoken.Div:
		return "/"
	case sqltoken.Mod:
		return "%"
	case sqltoken.DoubleColon:
		return "::"
	case sqltoken.LBracket:
		return "["
	case sqltoken.RBracket:
		return "]"
	case sqltoken.Semicolon:
		return ";"
	case sqltoken.Colon:
		return ":"
	case sqltoken.Backslash:
		return "\\"
	case sqltoken.Ampersand:
		return "&"
	case sqltoken.LBrace:
		return "{"
	case sqltoken.RBrace:
		return "}"
	}
	return "?"
}

func (g *G) p(ks ...sqltoken.Kind) {
	for _, k := range ks {
		g.pair()
		s := punctText(k)
		g.in = append(g.in, gtok{cPunct, k, s})
		g.out = append(g.out, otok{cPunct, s})
	}
}

func (g *G) pIn(ks ...sqltoken.Kind) {
	for _, k := range ks {
		g.in = append(g.in, gtok{cPunct, k, punctText(k)})
	}
}

func (g *G) pOut(ks ...sqltoken.Kind) {
	for _, k := range ks {
		g.out = append(g.out, otok{cPunct, punctText(k)})
	}
}

var nameTexts = []string{
	"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
	"aa", "ab", "ac", "ad", "ae", "af", "ag", "ah", "ai", "aj", "ak", "al", "am", "ao", "ap", "aq", "ar", "au", "av", "aw", "ax", "ay", "az",
}

func (g *G) id() *sqlast.Ident {
	s := nameTexts[len(g.names)%len(nameTexts)]
	if g.sym {
		s = letter()
	}
	n := &sqlast.Ident{Value: s}
	g.names = append(g.names, nameRef{len(g.in), len(g.out), n})
	g.pair()
	g.in = append(g.in, gtok{cName, sqltoken.SQLKeyword, s})
	g.out = append(g.out, otok{cName, s})
	return n
}

func (g *G) obj() *sqlast.ObjectName {
	o := &sqlast.ObjectName{Idents: []*sqlast.Ident{g.id()}}
	for n := g.pick(kObj, 3); n > 0; n-- {
		g.p(sqltoken.Period)
		o.Idents = append(o.Idents, g.id())
	}
	return o
}

func (g *G) ids() []*sqlast.Ident {
	l := []*sqlast.Ident{g.id()}
	for n := g.pick(kList, 3); n > 0; n-- {
		g.p(sqltoken.Comma)
		l = append(l, g.id())
	}
	return l
}

func (g *G) lit(k sqltoken.Kind, s string, n sqlast.Node) sqlast.Node {
	g.lits = append(g.lits, litRef{len(g.in), len(g.out), n})
	g.pair()
	g.in = append(g.in, gtok{cLit, k, s})
	switch k {
	case sqltoken.SingleQuotedString:
		s = "'" + s + "'"
	case sqltoken.NationalStringLiteral:
		s = "N'" + s + "'"
	}
	g.out = append(g.out, otok{cLit, s})
	return n
}

// letter is any lower-case letter.
func letter() string {
	b := vsym.Byte()
	vsym.Assume(b >= 'a' && b <= 'z')
	return string([]byte{b})
}

var digitTexts = []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

func smallText(i int) string {
	if i < 10 {
		return digitTexts[i]
	}
	return smallText(i/10) + digitTexts[i%10]
}

// number is a number with its spelling.
func (g *G) number() (int, string) {
	if g.symLits > 0 {
		g.symLits--
		if g.digits > 0 {
			b := symDigits(g.digits)
			vsym.Assume(b[0] != '0')
			v := 0
			for _, c := range b {
				v = v*10 + int(c-'0')
			}
			return v, string(b)
		}
		v := vsym.Int(0, 99)
		if vsym.Split(v < 10) {
			return v, string([]byte{'0' + byte(v)})
		}
		return v, string([]byte{'0' + byte(v/10), '0' + byte(v%10)})
	}
	if g.sym {
		v := vsym.Int(0, 9)
		return v, string([]byte{'0' + byte(v)})
	}
	i := len(g.lits) + 1
	return i, smallText(i)
}

func (g *G) long() *sqlast.LongValue {
	i, s := g.number()
	n := &sqlast.LongValue{Long: int64(i)}
	g.lit(sqltoken.Number, s, n)
	return n
}

func (g *G) size() *uint {
	i, s := g.number()
	u := uint(i)
	g.lits = append(g.lits, litRef{len(g.in), len(g.out), nil})
	g.pair()
	g.in = append(g.in, gtok{cLit, sqltoken.Number, s})
	g.out = append(g.out, otok{cLit, s})
	return &u
}

func (g *G) text(prefix string) string {
	if g.symLits > 0 {
		g.symLits--
		b := []byte{vsym.Byte(), vsym.Byte()}
		for _, c := range b {
			vsym.Assume(c > 0 && c < 0x80)
		}
		return string(b)
	}
	if g.sym {
		b := vsym.Byte()
		vsym.Assume(b > 0 && b < 0x80)
		return string([]byte{b})
	}
	return prefix + smallText(len(g.lits))
}

func (g *G) str() sqlast.Node {
	s := g.text("s")
	return g.lit(sqltoken.SingleQuotedString, s, &sqlast.SingleQuotedString{String: s})
}

// ---- expressions ----

func (g *G) expr() sqlast.Node {
	if g.full {
		return g.place()
	}
	g.depth++
	e := g.exprP(0, 0)
	g.depth--
	return e
}

func (g *G) exprs(max int) []sqlast.Node {
	l := []sqlast.Node{g.expr()}
	for n := g.pick(kList, max); n > 0; n-- {
		g.p(sqltoken.Comma)
		l = append(l, g.expr())
	}
	return l
}

type binop struct {
	k    sqltoken.Kind
	w    string
	op   sqlast.OperatorType
	prec int
}

var binops = []binop{
	{sqltoken.Plus, "", sqlast.Plus, 30},
	{sqltoken.Eq, "", sqlast.Eq, 20},
	{sqltoken.SQLKeyword, "AND", sqlast.And, 10},
	{sqltoken.SQLKeyword, "OR", sqlast.Or, 5},
	{sqltoken.Mult, "", sqlast.Multiply, 40},
	{sqltoken.SQLKeyword, "LIKE", sqlast.Like, 20},
	{sqltoken.Minus, "", sqlast.Minus, 30},
	{sqltoken.Div, "", sqlast.Divide, 40},
	{sqltoken.Mod, "", sqlast.Modulus, 40},
	{sqltoken.Neq, "", sqlast.NotEq, 20},
	{sqltoken.Lt, "", sqlast.Lt, 20},
	{sqltoken.Gt, "", sqlast.Gt, 20},
	{sqltoken.LtEq, "", sqlast.LtEq, 20},
	{sqltoken.GtEq, "", sqlast.GtEq, 20},
	{sqltoken.SQLKeyword, "NOT LIKE", sqlast.NotLike, 20},
}

func (g *G) binTok(b binop) {
	if b.k != sqltoken.SQLKeyword {
		g.p(b.k)
		return
	}
	if b.w == "NOT LIKE" {
		g.kw("NOT", "LIKE")
		return
	}
	g.kw(b.w)
}

// exprP generates an expression whose top-level infix operators bind tighter
// than lvl, followed by an operator of precedence next.
func (g *G) exprP(lvl, next int) sqlast.Node {
	const n = 24
	if g.litExpr && g.symLits > 0 && vsym.Split(vsym.Bool()) {
		switch g.more(3) {
		case 0:
			return g.long()
		case 1:
			return g.str()
		}
		s := g.text("n")
		return g.lit(sqltoken.NationalStringLiteral, s, &sqlast.NationalStringLiteral{String: s})
	}
	switch g.pick(kExpr, n) {
	case 1:
		return g.long()
	case 2:
		return g.str()
	case 3:
		return g.litForm()
	case 4:
		c := &sqlast.CompoundIdent{Idents: []*sqlast.Ident{g.id()}}
		for i := g.count(kExpr, 2); i > 0; i-- {
			g.p(sqltoken.Period)
			c.Idents = append(c.Idents, g.id())
		}
		return c
	case 5:
		g.p(sqltoken.LParen)
		e := g.expr()
		g.p(sqltoken.RParen)
		return &sqlast.Nested{AST: e}
	case 6:
		return g.caseExpr()
	case 7:
		g.kw("CAST")
		g.p(sqltoken.LParen)
		e := g.expr()
		g.kw("AS")
		t := g.dataType()
		g.p(sqltoken.RParen)
		return &sqlast.Cast{Expr: e, DataType: t}
	case 8:
		not := g.opt(kExpr)
		if not {
			g.kw("NOT")
		}
		g.kw("EXISTS")
		g.p(sqltoken.LParen)
		q := g.query()
		g.p(sqltoken.RParen)
		return &sqlast.Exists{Negated: not, Query: q}
	case 9:
		g.p(sqltoken.LParen)
		q := g.wordQuery()
		g.p(sqltoken.RParen)
		return &sqlast.SubQuery{Query: q}
	case 10:
		return g.function()
	case 11, 12:
		// prefix sign
		if 30 < next {
			return g.id()
		}
		op, k := sqlast.Minus, sqltoken.Minus
		if g.opt(kExpr) {
			op, k = sqlast.Plus, sqltoken.Plus
		}
		g.p(k)
		e := g.exprP(30, next)
		return &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: op}, Expr: e}
	case 13:
		if 15 < next {
			return g.id()
		}
		g.kw("NOT")
		st := len(g.in)
		e := g.exprP(15, next)
		if g.in[st].s == "EXISTS" { // NOT EXISTS is an expression of its own
			if x, ok := e.(*sqlast.Exists); ok {
				x.Negated = true
				return x
			}
			vsym.Assume(false)
		}
		return &sqlast.UnaryExpr{Op: &sqlast.Operator{Type: sqlast.Not}, Expr: e}
	case 14, 15, 16:
		b := binops[g.more(len(binops))]
		if b.prec <= lvl {
			return g.id()
		}
		l := g.exprP(b.prec-1, b.prec)
		g.binTok(b)
		r := g.exprP(b.prec, next)
		return &sqlast.BinaryExpr{Left: l, Op: &sqlast.Operator{Type: b.op}, Right: r}
	case 17, 18:
		if 17 <= lvl {
			return g.id()
		}
		l := g.exprP(16, 17)
		g.kw("IS")
		if g.more(2) == 1 {
			g.kw("NOT", "NULL")
			return &sqlast.IsNotNull{X: l}
		}
		g.kw("NULL")
		return &sqlast.IsNull{X: l}
	case 19, 20:
		if 20 <= lvl {
			return g.id()
		}
		l := g.exprP(19, 20)
		not := g.more(2) == 1
		if not {
			g.kw("NOT")
		}
		g.kw("IN")
		g.p(sqltoken.LParen)
		if g.more(2) == 1 {
			q := g.wordQuery()
			g.p(sqltoken.RParen)
			return &sqlast.InSubQuery{Expr: l, SubQuery: q, Negated: not}
		}
		es := g.exprs(3)
		g.p(sqltoken.RParen)
		return &sqlast.InList{Expr: l, List: es, Negated: not}
	case 21, 22:
		if 20 <= lvl {
			return g.id()
		}
		l := g.exprP(19, 20)
		not := g.more(2) == 1
		if not {
			g.kw("NOT")
		}
		g.kw("BETWEEN")
		lo := g.exprP(20, 10)
		g.kw("AND")
		hi := g.exprP(20, next)
		return &sqlast.Between{Expr: l, Negated: not, Low: lo, High: hi}
	case 23:
		if 50 <= lvl {
			return g.id()
		}
		// printed as CAST
		o := len(g.out)
		l := g.exprP(49, 50)
		g.out = append(g.out, otok{}, otok{})
		copy(g.out[o+2:], g.out[o:len(g.out)-2])
		g.out[o] = otok{cKeyword, "CAST"}
		g.out[o+1] = otok{cPunct, "("}
		g.shiftRefs(o, 2)
		g.pIn(sqltoken.DoubleColon)
		g.kwOut("AS")
		t := g.dataType()
		g.pOut(sqltoken.RParen)
		return &sqlast.Cast{Expr: l, DataType: t}
	}
	return g.id()
}

// shiftRefs moves the canonical positions recorded from o on.
func (g *G) shiftRefs(o, by int) {
	for i := range g.names {
		if g.names[i].out >= o {
			g.names[i].out += by
		}
	}
	for i := range g.lits {
		if g.lits[i].out >= o {
			g.lits[i].out += by
		}
	}
	for i := range g.pairs {
		if g.pairs[i].out >= o {
			g.pairs[i].out += by
		}
	}
}

// more is a choice that refines one already paid for.
func (g *G) more(n int) int { return vsym.Concrete(vsym.Int(0, n-1)) }

func (g *G) litForm() sqlast.Node {
	switch g.more(5) {
	case 0:
		s := g.text("n")
		return g.lit(sqltoken.NationalStringLiteral, s, &sqlast.NationalStringLiteral{String: s})
	case 1:
		return g.lit(sqltoken.Number, "1.5", &sqlast.DoubleValue{Double: 1.5})
	case 2:
		g.kw("TRUE")
		return &sqlast.BooleanValue{Boolean: true}
	case 3:
		g.kw("FALSE")
		return &sqlast.BooleanValue{}
	}
	g.kw("NULL")
	return &sqlast.NullValue{}
}

func (g *G) caseExpr() sqlast.Node {
	c := &sqlast.CaseExpr{}
	g.kw("CASE")
	if g.more(2) == 1 {
		c.Operand = g.expr()
	}
	for n := g.count(kList, 2); n > 0; n-- {
		g.kw("WHEN")
		c.Conditions = append(c.Conditions, g.expr())
		g.kw("THEN")
		c.Results = append(c.Results, g.expr())
	}
	if g.more(2) == 1 {
		g.kw("ELSE")
		c.ElseResult = g.expr()
	}
	g.kw("END")
	return c
}

func (g *G) function() sqlast.Node {
	f := &sqlast.Function{Name: g.obj()}
	g.p(sqltoken.LParen)
	switch g.more(4) {
	case 0:
	case 1:
		f.Args = g.exprs(3)
	case 2:
		g.p(sqltoken.Mult)
		f.Args = []sqlast.Node{&sqlast.Wildcard{}}
	case 3:
		q := &sqlast.QualifiedWildcard{Idents: []*sqlast.Ident{g.id()}}
		g.p(sqltoken.Period, sqltoken.Mult)
		f.Args = []sqlast.Node{q}
	}
	g.p(sqltoken.RParen)
	if g.opt(kOver) {
		f.Over = g.window()
	}
	return f
}

func (g *G) window() *sqlast.WindowSpec {
	w := &sqlast.WindowSpec{}
	g.kw("OVER")
	g.p(sqltoken.LParen)
	m := g.more(8)
	if m&1 != 0 {
		g.kw("PARTITION", "BY")
		w.PartitionBy = g.exprs(2)
	}
	if m&2 != 0 {
		g.kw("ORDER", "BY")
		w.OrderBy = g.orderBy()
	}
	if m&4 != 0 {
		u := g.pick(kFrame, 3)
		g.kw([]string{"ROWS", "RANGE", "GROUPS"}[u])
		w.WindowsFrame = &sqlast.WindowFrame{Units: &sqlast.WindowFrameUnit{Type: []sqlast.WindowFrameUnitType{sqlast.RowsUnit, sqlast.RangeUnit, sqlast.GroupsUnit}[u]}}
		if g.opt(kFrame) {
			g.kw("BETWEEN")
			w.WindowsFrame.StartBound = g.bound()
			g.kw("AND")
			w.WindowsFrame.EndBound = g.bound()
		} else {
			w.WindowsFrame.StartBound = g.bound()
		}
	}
	g.p(sqltoken.RParen)
	return w
}

func (g *G) bound() sqlast.SQLWindowFrameBound {
	switch g.pick(kFrame, 5) {
	case 1:
		g.kw("UNBOUNDED", "PRECEDING")
		return &sqlast.UnboundedPreceding{}
	case 2:
		g.kw("UNBOUNDED", "FOLLOWING")
		return &sqlast.UnboundedFollowing{}
	case 3:
		u := uint64(*g.size())
		g.kw("PRECEDING")
		return &sqlast.Preceding{Bound: &u}
	case 4:
		u := uint64(*g.size())
		g.kw("FOLLOWING")
		return &sqlast.Following{Bound: &u}
	}
	g.kw("CURRENT", "ROW")
	return &sqlast.CurrentRow{}
}

func (g *G) orderBy() []*sqlast.OrderByExpr {
	var l []*sqlast.OrderByExpr
	for n := g.count(kOrder, 3); n > 0; n-- {
		if len(l) > 0 {
			g.p(sqltoken.Comma)
		}
		o := &sqlast.OrderByExpr{Expr: g.expr()}
		switch g.pick(kOrder, 3) {
		case 1:
			g.kw("ASC")
			b := true
			o.ASC = &b
		case 2:
			g.kw("DESC")
			b := false
			o.ASC = &b
		}
		l = append(l, o)
	}
	return l
}

// ---- data types ----

const nTypes = 28

func (g *G) dataType() sqlast.Type { return g.dataTypeN(g.pick(kType, nTypes)) }

func (g *G) unsigned() bool {
	if g.opt(kType) {
		g.kw("UNSIGNED")
		return true
	}
	return false
}

func (g *G) optSize() *uint {
	if g.opt(kType) {
		g.p(sqltoken.LParen)
		u := g.size()
		g.p(sqltoken.RParen)
		return u
	}
	return nil
}

func (g *G) zone() bool {
	switch g.pick(kType, 3) {
	case 1:
		g.kw("WITH", "TIME", "ZONE")
		return true
	case 2:
		g.kwIn("WITHOUT", "TIME", "ZONE")
	}
	return false
}

func (g *G) dataTypeN(i int) sqlast.Type {
	switch i {
	case 0:
		g.kw("INT")
		return &sqlast.Int{IsUnsigned: g.unsigned()}
	case 1:
		g.kwIn("INTEGER")
		g.kwOut("INT")
		return &sqlast.Int{IsUnsigned: g.unsigned()}
	case 2:
		g.kw("BOOLEAN")
		return &sqlast.Boolean{}
	case 3:
		g.kw("FLOAT")
		s := g.optSize()
		return &sqlast.Float{Size: s, IsUnsigned: g.unsigned()}
	case 4:
		g.kw("REAL")
		return &sqlast.Real{IsUnsigned: g.unsigned()}
	case 5:
		g.kw("DOUBLE", "PRECISION")
		return &sqlast.Double{}
	case 6:
		g.kw("SMALLINT")
		return &sqlast.SmallInt{IsUnsigned: g.unsigned()}
	case 7:
		g.kw("BIGINT")
		return &sqlast.BigInt{IsUnsigned: g.unsigned()}
	case 8, 9:
		g.kwIn("VARCHAR")
		g.kwOut("CHARACTER", "VARYING")
		if i == 9 {
			g.p(sqltoken.LParen)
			u := g.size()
			g.p(sqltoken.RParen)
			return &sqlast.VarcharType{Size: u}
		}
		return &sqlast.VarcharType{}
	case 10:
		g.kwIn("CHAR", "VARYING")
		g.kwOut("CHARACTER", "VARYING")
		return &sqlast.VarcharType{Size: g.optSize()}
	case 11:
		g.kw("CHARACTER", "VARYING")
		return &sqlast.VarcharType{Size: g.optSize()}
	case 12:
		g.kw("CHAR")
		return &sqlast.CharType{Size: g.optSize()}
	case 13:
		g.kwIn("CHARACTER")
		g.kwOut("CHAR")
		return &sqlast.CharType{Size: g.optSize()}
	case 14:
		g.kw("UUID")
		return &sqlast.UUID{}
	case 15:
		g.kw("DATE")
		return &sqlast.Date{}
	case 16:
		g.kw("TIMESTAMP")
		return &sqlast.Timestamp{WithTimeZone: g.zone()}
	case 17:
		g.kw("TIME")
		return &sqlast.Time{WithTimeZone: g.zone()}
	case 18:
		g.kw("REGCLASS")
		return &sqlast.Regclass{}
	case 19:
		g.kw("TEXT")
		return &sqlast.Text{}
	case 20:
		g.kw("TEXT")
		g.p(sqltoken.LBracket, sqltoken.RBracket)
		return &sqlast.Array{Ty: &sqlast.Text{}}
	case 21:
		g.kw("BYTEA")
		return &sqlast.Bytea{}
	case 22:
		g.kw("NUMERIC")
		return &sqlast.Decimal{IsUnsigned: g.unsigned()}
	case 23, 24:
		g.kw("NUMERIC")
		g.p(sqltoken.LParen)
		d := &sqlast.Decimal{Precision: g.size()}
		if i == 24 {
			g.p(sqltoken.Comma)
			d.Scale = g.size()
		}
		g.p(sqltoken.RParen)
		d.IsUnsigned = g.unsigned()
		return d
	case 25:
		return &sqlast.Custom{Ty: &sqlast.ObjectName{Idents: []*sqlast.Ident{g.id()}}}
	case 26:
		return &sqlast.Custom{Ty: g.obj()}
	case 27:
		g.kw("TIMESTAMP", "WITH", "TIME", "ZONE")
		return &sqlast.Timestamp{WithTimeZone: true}
	}
	panic("type")
}

// ---- queries ----

// query is a nested query.
func (g *G) query() *sqlast.QueryStmt {
	g.depth++
	q := g.queryTop()
	g.depth--
	return q
}

// wordQuery is a query that does not start with a parenthesis.
func (g *G) wordQuery() *sqlast.QueryStmt {
	g.selAt = len(g.in)
	return g.query()
}

func (g *G) queryTop() *sqlast.QueryStmt {
	q := &sqlast.QueryStmt{}
	if g.part() {
		g.kw("WITH")
		for n := g.count(kQuery, 2); n > 0; n-- {
			if len(q.CTEs) > 0 {
				g.p(sqltoken.Comma)
			}
			c := &sqlast.CTE{Alias: g.id()}
			g.kw("AS")
			g.p(sqltoken.LParen)
			c.Query = g.query()
			g.p(sqltoken.RParen)
			q.CTEs = append(q.CTEs, c)
		}
	}
	q.Body = g.body(0)
	if g.part() {
		g.kw("ORDER", "BY")
		q.OrderBy = g.orderBy()
	}
	if g.part() {
		g.kw("LIMIT")
		q.Limit = &sqlast.LimitExpr{}
		switch g.pick(kQuery, 3) {
		case 0:
			q.Limit.LimitValue = g.long()
		case 1:
			q.Limit.LimitValue = g.long()
			g.kw("OFFSET")
			q.Limit.OffsetValue = g.long()
		case 2:
			g.kw("ALL")
			q.Limit.All = true
		}
	}
	return q
}

func (g *G) body(lvl int) sqlast.SQLSetExpr {
	switch g.pick(kSet, 3) {
	case 1:
		if len(g.in) == g.selAt {
			break
		}
		g.p(sqltoken.LParen)
		q := g.query()
		g.p(sqltoken.RParen)
		return &sqlast.QueryExpr{Query: q}
	case 2:
		m := g.more(6)
		var op sqlast.SQLSetOperator
		var w string
		prec := 10
		switch m % 3 {
		case 0:
			op, w = &sqlast.UnionOperator{}, "UNION"
		case 1:
			op, w = &sqlast.ExceptOperator{}, "EXCEPT"
		case 2:
			op, w = &sqlast.IntersectOperator{}, "INTERSECT"
			prec = 20
		}
		if prec <= lvl {
			break
		}
		s := &sqlast.SetOperationExpr{Op: op, All: m >= 3}
		s.Left = g.body(prec - 1)
		g.kw(w)
		if s.All {
			g.kw("ALL")
		}
		s.Right = g.body(prec)
		return s
	}
	return g.sel()
}

func (g *G) sel() *sqlast.SQLSelect {
	s := &sqlast.SQLSelect{}
	g.kw("SELECT")
	if g.part() {
		g.kw("DISTINCT")
		s.Distinct = true
	}
	for n := g.count(kQuery, 3); n > 0; n-- {
		if len(s.Projection) > 0 {
			g.p(sqltoken.Comma)
		}
		s.Projection = append(s.Projection, g.item())
	}
	if g.part() {
		g.kw("FROM")
		for n := g.count(kQuery, 2); n > 0; n-- {
			if len(s.FromClause) > 0 {
				g.p(sqltoken.Comma)
			}
			s.FromClause = append(s.FromClause, g.tableRef())
		}
	}
	if g.part() {
		g.kw("WHERE")
		s.WhereClause = g.expr()
	}
	if g.part() {
		g.kw("GROUP", "BY")
		s.GroupByClause = g.exprs(3)
	}
	if g.part() {
		g.kw("HAVING")
		s.HavingClause = g.expr()
	}
	return s
}

func (g *G) item() sqlast.SQLSelectItem {
	switch g.pick(kItem, 5) {
	case 1:
		e := g.expr()
		g.kw("AS")
		return &sqlast.AliasSelectItem{Expr: e, Alias: g.id()}
	case 2:
		e := g.expr()
		g.kwOut("AS")
		return &sqlast.AliasSelectItem{Expr: e, Alias: g.id()}
	case 3:
		g.p(sqltoken.Mult)
		return &sqlast.UnnamedSelectItem{Node: &sqlast.Wildcard{}}
	case 4:
		o := g.obj()
		g.p(sqltoken.Period, sqltoken.Mult)
		return &sqlast.QualifiedWildcardSelectItem{Prefix: o}
	}
	return &sqlast.UnnamedSelectItem{Node: g.expr()}
}

func (g *G) tableRef() sqlast.TableReference {
	g.depth++
	defer func() { g.depth-- }()
	var r sqlast.TableReference = g.factor()
	for i := 0; i < 3; i++ {
		switch g.pick(kJoin, 4) {
		case 0:
			return r
		case 1: // qualified
			t := g.joinType(true)
			g.kw("JOIN")
			var right sqlast.TableReference = g.factor()
			if g.opt(kJoin) {
				g.kw("CROSS", "JOIN")
				right = &sqlast.CrossJoin{Reference: right, Factor: g.factor()}
			}
			j := &sqlast.QualifiedJoin{LeftElement: &sqlast.TableJoinElement{Ref: r}, Type: t, RightElement: &sqlast.TableJoinElement{Ref: right}}
			if g.opt(kJoin) {
				g.kw("USING")
				g.p(sqltoken.LParen)
				j.Spec = &sqlast.NamedColumnsJoin{ColumnList: g.ids()}
				g.p(sqltoken.RParen)
			} else {
				g.kw("ON")
				j.Spec = &sqlast.JoinCondition{SearchCondition: g.expr()}
			}
			r = j
		case 2:
			g.kw("CROSS", "JOIN")
			r = &sqlast.CrossJoin{Reference: r, Factor: g.factor()}
		case 3: // how a natural join groups with a join to its right is left open
			g.kw("NATURAL")
			t := g.joinType(true)
			g.kw("JOIN")
			return &sqlast.NaturalJoin{LeftElement: &sqlast.TableJoinElement{Ref: r}, Type: t, RightElement: &sqlast.TableJoinElement{Ref: g.factor()}}
		}
	}
	return r
}

func (g *G) joinType(implicit bool) *sqlast.JoinType {
	ws := [][]string{nil, {"INNER"}, {"LEFT"}, {"RIGHT"}, {"FULL"}, {"LEFT", "OUTER"}, {"RIGHT", "OUTER"}, {"FULL", "OUTER"}}
	cs := []sqlast.JoinTypeCondition{sqlast.IMPLICIT, sqlast.INNER, sqlast.LEFT, sqlast.RIGHT, sqlast.FULL, sqlast.LEFTOUTER, sqlast.RIGHTOUTER, sqlast.FULLOUTER}
	i := g.pick(kJoin, 8)
	g.kw(ws[i]...)
	return &sqlast.JoinType{Condition: cs[i]}
}

func (g *G) alias() *sqlast.Ident {
	switch g.pick(kAlias, 3) {
	case 1:
		g.kw("AS")
		return g.id()
	case 2:
		g.kwOut("AS")
		return g.id()
	}
	return nil
}

func (g *G) factor() sqlast.TableFactor {
	m := g.pick(kFactor, 3)
	if m > 0 {
		d := &sqlast.Derived{}
		if m == 2 {
			g.kw("LATERAL")
			d.Lateral = true
		}
		g.p(sqltoken.LParen)
		d.SubQuery = g.query()
		g.p(sqltoken.RParen)
		d.Alias = g.alias()
		return d
	}
	t := &sqlast.Table{Name: g.obj()}
	switch g.pick(kFactor, 3) {
	case 1:
		g.p(sqltoken.LParen)
		t.Args = g.exprs(3)
		g.p(sqltoken.RParen)
	case 2:
		g.p(sqltoken.LParen, sqltoken.RParen)
		t.Args = []sqlast.Node{}
	}
	t.Alias = g.alias()
	if g.opt(kFactor) {
		g.kw("WITH")
		g.p(sqltoken.LParen)
		t.WithHints = g.exprs(2)
		g.p(sqltoken.RParen)
	}
	return t
}

// ---- data changes ----

func (g *G) assigns() []*sqlast.Assignment {
	var l []*sqlast.Assignment
	for n := g.count(kList, 3); n > 0; n-- {
		if len(l) > 0 {
			g.p(sqltoken.Comma)
		}
		a := &sqlast.Assignment{ID: g.id()}
		g.p(sqltoken.Eq)
		a.Value = g.expr()
		l = append(l, a)
	}
	return l
}

func (g *G) insert() sqlast.Stmt {
	s := &sqlast.InsertStmt{}
	g.kw("INSERT", "INTO")
	s.TableName = g.obj()
	if g.part() {
		g.p(sqltoken.LParen)
		s.Columns = g.ids()
		g.p(sqltoken.RParen)
	}
	if g.part() {
		if len(s.Columns) == 0 {
			g.selAt = len(g.in)
		}
		s.Source = &sqlast.SubQuerySource{SubQuery: g.query()}
	} else {
		g.kw("VALUES")
		c := &sqlast.ConstructorSource{}
		for n := g.count(kPart, 3); n > 0; n-- {
			if len(c.Rows) > 0 {
				g.p(sqltoken.Comma)
			}
			g.p(sqltoken.LParen)
			c.Rows = append(c.Rows, &sqlast.RowValueExpr{Values: g.exprs(3)})
			g.p(sqltoken.RParen)
		}
		s.Source = c
	}
	if g.part() {
		g.kw("ON", "DUPLICATE", "KEY", "UPDATE")
		s.UpdateAssignments = g.assigns()
	}
	return s
}

func (g *G) update() sqlast.Stmt {
	s := &sqlast.UpdateStmt{}
	g.kw("UPDATE")
	s.TableName = g.obj()
	g.kw("SET")
	s.Assignments = g.assigns()
	if g.part() {
		g.kw("WHERE")
		s.Selection = g.expr()
	}
	return s
}

func (g *G) del() sqlast.Stmt {
	s := &sqlast.DeleteStmt{}
	g.kw("DELETE", "FROM")
	s.TableName = g.obj()
	if g.part() {
		g.kw("WHERE")
		s.Selection = g.expr()
	}
	return s
}

// ---- schema ----

func (g *G) createTable() sqlast.Stmt {
	s := &sqlast.CreateTableStmt{}
	g.kw("CREATE", "TABLE")
	if g.part() {
		g.kw("IF", "NOT", "EXISTS")
		s.NotExists = true
	}
	s.Name = g.obj()
	if !g.part() {
		g.p(sqltoken.LParen)
		for n := g.count(kElem, 3); n > 0; n-- {
			if len(s.Elements) > 0 {
				g.p(sqltoken.Comma)
			}
			if g.opt(kElem) {
				s.Elements = append(s.Elements, g.tableConstraint())
			} else {
				s.Elements = append(s.Elements, g.columnDef())
			}
		}
		g.p(sqltoken.RParen)
	}
	for n := g.pick(kElem, g.most(3)); n > 0; n-- {
		if len(s.Options) > 0 {
			if g.opt(kElem) {
				g.pOut(sqltoken.Comma)
			} else {
				g.p(sqltoken.Comma)
			}
		}
		switch g.more(3) {
		case 0:
			g.kw("ENGINE")
			eq := g.more(2) == 1
			if eq {
				g.p(sqltoken.Eq)
			}
			s.Options = append(s.Options, &sqlast.MyEngine{Equal: eq, Name: g.id()})
		case 1:
			g.kw("DEFAULT", "CHARSET")
			eq := g.more(2) == 1
			if eq {
				g.p(sqltoken.Eq)
			}
			s.Options = append(s.Options, &sqlast.MyCharset{IsDefault: true, Equal: eq, Name: g.id()})
		case 2:
			g.kw("CHARSET")
			eq := g.more(2) == 1
			if eq {
				g.p(sqltoken.Eq)
			}
			s.Options = append(s.Options, &sqlast.MyCharset{Equal: eq, Name: g.id()})
		}
	}
	return s
}

func (g *G) columnDef() *sqlast.ColumnDef {
	c := &sqlast.ColumnDef{Name: g.id()}
	c.DataType = g.dataType()
	// the canonical order is default, decorations, constraints
	base := len(g.out)
	var cls []int
	var bounds []int
	n := g.pick(kCol, g.most(4))
	if g.colExpr {
		n = 1
	}
	for ; n > 0; n-- {
		k := 0
		if g.colExpr {
			k = 6 * g.more(2)
		} else {
			k = g.more(7)
		}
		if k == 0 && c.Default != nil {
			k = 1
		}
		bounds = append(bounds, len(g.out))
		switch k {
		case 0:
			g.kw("DEFAULT")
			c.Default = g.expr()
			cls = append(cls, 0)
		case 1:
			g.kw("AUTO_INCREMENT")
			c.MyDataTypeDecoration = append(c.MyDataTypeDecoration, &sqlast.AutoIncrement{})
			cls = append(cls, 1)
		default:
			cc := &sqlast.ColumnConstraint{}
			if g.opt(kCol) {
				g.kw("CONSTRAINT")
				cc.Name = g.id()
			}
			cls = append(cls, 2)
			switch k {
			case 2:
				g.kw("NOT", "NULL")
				cc.Spec = &sqlast.NotNullColumnSpec{}
			case 3:
				g.kw("UNIQUE")
				cc.Spec = &sqlast.UniqueColumnSpec{}
			case 4:
				g.kw("PRIMARY", "KEY")
				cc.Spec = &sqlast.UniqueColumnSpec{IsPrimaryKey: true}
			case 5:
				g.kw("REFERENCES")
				r := &sqlast.ReferencesColumnSpec{TableName: g.obj()}
				g.p(sqltoken.LParen)
				r.Columns = g.ids()
				g.p(sqltoken.RParen)
				cc.Spec = r
			case 6:
				g.kw("CHECK")
				g.p(sqltoken.LParen)
				cc.Spec = &sqlast.CheckColumnSpec{Expr: g.expr()}
				g.p(sqltoken.RParen)
			}
			c.Constraints = append(c.Constraints, cc)
		}
	}
	if len(cls) > 1 {
		bounds = append(bounds, len(g.out))
		old := append([]otok(nil), g.out[base:]...)
		at := base
		move := make([]int, len(old))
		for want := 0; want < 3; want++ {
			for i, k := range cls {
				if k != want {
					continue
				}
				for j := bounds[i]; j < bounds[i+1]; j++ {
					g.out[at] = old[j-base]
					move[j-base] = at
					at++
				}
			}
		}
		for i := range g.names {
			if g.names[i].out >= base {
				g.names[i].out = move[g.names[i].out-base]
			}
		}
		for i := range g.lits {
			if g.lits[i].out >= base {
				g.lits[i].out = move[g.lits[i].out-base]
			}
		}
		for i := range g.pairs {
			if g.pairs[i].out >= base {
				g.pairs[i].out = move[g.pairs[i].out-base]
			}
		}
	}
	return c
}

func (g *G) tableConstraint() *sqlast.TableConstraint {
	c := &sqlast.TableConstraint{}
	if g.opt(kCol) {
		g.kw("CONSTRAINT")
		c.Name = g.id()
	}
	switch g.more(4) {
	case 0:
		g.kw("UNIQUE")
		if g.opt(kCol) {
			g.kwIn("KEY")
		}
		g.p(sqltoken.LParen)
		c.Spec = &sqlast.UniqueTableConstraint{Columns: g.ids()}
		g.p(sqltoken.RParen)
	case 1:
		g.kw("PRIMARY", "KEY")
		g.p(sqltoken.LParen)
		c.Spec = &sqlast.UniqueTableConstraint{IsPrimary: true, Columns: g.ids()}
		g.p(sqltoken.RParen)
	case 2:
		g.kw("FOREIGN", "KEY")
		g.p(sqltoken.LParen)
		r := &sqlast.ReferentialTableConstraint{Columns: g.ids()}
		g.p(sqltoken.RParen)
		g.kw("REFERENCES")
		r.KeyExpr = &sqlast.ReferenceKeyExpr{TableName: g.id()}
		g.p(sqltoken.LParen)
		r.KeyExpr.Columns = g.ids()
		g.p(sqltoken.RParen)
		c.Spec = r
	case 3:
		g.kw("CHECK")
		g.p(sqltoken.LParen)
		c.Spec = &sqlast.CheckTableConstraint{Expr: g.expr()}
		g.p(sqltoken.RParen)
	}
	return c
}

func (g *G) createView() sqlast.Stmt {
	s := &sqlast.CreateViewStmt{}
	g.kw("CREATE")
	if g.part() {
		g.kw("MATERIALIZED")
		s.Materialized = true
	}
	g.kw("VIEW")
	s.Name = g.obj()
	g.kw("AS")
	s.Query = g.query()
	return s
}

func (g *G) createIndex() sqlast.Stmt {
	s := &sqlast.CreateIndexStmt{}
	g.kw("CREATE")
	if g.part() {
		g.kw("UNIQUE")
		s.IsUnique = true
	}
	g.kw("INDEX")
	if g.part() {
		s.IndexName = g.id()
	}
	g.kw("ON")
	s.TableName = g.obj()
	if g.part() {
		g.kw("USING")
		s.MethodName = g.id()
	}
	if g.part() {
		g.p(sqltoken.LParen)
		s.ColumnNames = g.ids()
		g.p(sqltoken.RParen)
	}
	if g.part() {
		g.kw("WHERE")
		s.Selection = g.expr()
	}
	return s
}

func (g *G) drop() sqlast.Stmt {
	g.kw("DROP")
	if g.part() {
		g.kw("INDEX")
		return &sqlast.DropIndexStmt{IndexNames: g.ids()}
	}
	s := &sqlast.DropTableStmt{}
	g.kw("TABLE")
	if g.part() {
		g.kw("IF", "EXISTS")
		s.IfExists = true
	}
	for n := g.count(kList, 3); n > 0; n-- {
		if len(s.TableNames) > 0 {
			g.p(sqltoken.Comma)
		}
		s.TableNames = append(s.TableNames, g.obj())
	}
	if g.part() {
		g.kw("CASCADE")
		s.Cascade = true
	}
	return s
}

func (g *G) alter() sqlast.Stmt {
	s := &sqlast.AlterTableStmt{}
	g.kw("ALTER", "TABLE")
	s.TableName = g.obj()
	switch g.more(9) {
	case 0:
		g.kw("ADD", "COLUMN")
		s.Action = &sqlast.AddColumnTableAction{Column: g.columnDef()}
	case 1:
		g.kw("ADD")
		s.Action = &sqlast.AddConstraintTableAction{Constraint: g.tableConstraint()}
	case 2:
		g.kw("DROP", "CONSTRAINT")
		a := &sqlast.DropConstraintTableAction{Name: g.id()}
		if g.part() {
			g.kw("CASCADE")
			a.Cascade = true
		}
		s.Action = a
	case 3:
		g.kw("DROP", "COLUMN")
		a := &sqlast.RemoveColumnTableAction{Name: g.id()}
		if g.part() {
			g.kw("CASCADE")
			a.Cascade = true
		}
		s.Action = a
	case 4:
		g.kw("ALTER", "COLUMN")
		a := &sqlast.AlterColumnTableAction{ColumnName: g.id()}
		g.kw("SET", "DEFAULT")
		a.Action = &sqlast.SetDefaultColumnAction{Default: g.expr()}
		s.Action = a
	case 5:
		g.kw("ALTER", "COLUMN")
		s.Action = &sqlast.AlterColumnTableAction{ColumnName: g.id(), Action: &sqlast.DropDefaultColumnAction{}}
		g.kw("DROP", "DEFAULT")
	case 6:
		g.kw("ALTER", "COLUMN")
		a := &sqlast.AlterColumnTableAction{ColumnName: g.id()}
		g.kw("TYPE")
		a.Action = &sqlast.PGAlterDataTypeColumnAction{DataType: g.dataType()}
		s.Action = a
	case 7:
		g.kw("ALTER", "COLUMN")
		s.Action = &sqlast.AlterColumnTableAction{ColumnName: g.id(), Action: &sqlast.PGSetNotNullColumnAction{}}
		g.kw("SET", "NOT", "NULL")
	case 8:
		g.kw("ALTER", "COLUMN")
		s.Action = &sqlast.AlterColumnTableAction{ColumnName: g.id(), Action: &sqlast.PGDropNotNullColumnAction{}}
		g.kw("DROP", "NOT", "NULL")
	}
	return s
}

const nStmts = 10

func (g *G) stmtN(i int) sqlast.Stmt {
	switch i {
	case 0:
		g.selAt = len(g.in)
		return g.queryTop()
	case 1:
		return g.insert()
	case 2:
		return g.update()
	case 3:
		return g.del()
	case 4:
		return g.createTable()
	case 5:
		return g.createView()
	case 6:
		return g.createIndex()
	case 7:
		return g.drop()
	case 8:
		return g.alter()
	}
	g.kw("EXPLAIN")
	return &sqlast.ExplainStmt{Stmt: g.stmtN(g.more(9))}
}

// ---- tokens ----

var wordCache = map[string]*sqltoken.SQLWord{}

func init() {
	for _, s := range nameTexts {
		wordCache[s] = sqltoken.MakeKeyword(s, 0)
	}
	for _, s := range grammarWords {
		wordCache[s] = sqltoken.MakeKeyword(s, 0)
	}
}

// words with a meaning in the supported grammar
var grammarWords = strings.Fields(`SELECT DISTINCT FROM WHERE GROUP BY HAVING ORDER LIMIT OFFSET ALL WITH AS UNION EXCEPT INTERSECT
JOIN INNER LEFT RIGHT FULL OUTER CROSS NATURAL ON USING LATERAL AND OR NOT LIKE IN BETWEEN IS NULL TRUE FALSE CASE WHEN THEN ELSE END
CAST EXISTS OVER PARTITION ROWS RANGE GROUPS CURRENT ROW UNBOUNDED PRECEDING FOLLOWING ASC DESC
INSERT INTO VALUES DUPLICATE KEY UPDATE SET DELETE EXPLAIN CREATE TABLE IF VIEW MATERIALIZED INDEX UNIQUE PRIMARY FOREIGN REFERENCES
CHECK CONSTRAINT DEFAULT AUTO_INCREMENT ENGINE CHARSET DROP CASCADE ALTER ADD COLUMN TYPE
BOOLEAN FLOAT REAL DOUBLE PRECISION SMALLINT INT INTEGER BIGINT VARCHAR CHAR CHARACTER VARYING UUID DATE TIMESTAMP TIME ZONE WITHOUT
REGCLASS TEXT BYTEA NUMERIC UNSIGNED`)

func wordOf(s string) *sqltoken.SQLWord {
	if w := wordCache[s]; w != nil {
		return &sqltoken.SQLWord{Value: w.Value, Keyword: w.Keyword, QuoteStyle: w.QuoteStyle}
	}
	return sqltoken.MakeKeyword(s, 0)
}

func (t gtok) token() *sqltoken.Token {
	if t.k == sqltoken.SQLKeyword {
		if t.c == cName && len(t.s) == 1 {
			return &sqltoken.Token{Kind: t.k, Value: &sqltoken.SQLWord{Value: t.s, Keyword: string([]byte{t.s[0] - 'a' + 'A'})}}
		}
		return &sqltoken.Token{Kind: t.k, Value: wordOf(t.s)}
	}
	return &sqltoken.Token{Kind: t.k, Value: t.s}
}

// place gives the tokens positions on one line.
// anyPlaces makes the places tokens are given symbolic.
var anyPlaces bool

func withPlaces(root func(func(*G, sqlast.Stmt)), check func(*G, sqlast.Stmt)) {
	anyPlaces = true
	defer func() { anyPlaces = false }()
	root(check)
}

// placeAny lays tokens out on one line or on lines of their own, up to two
// lines apart, touching each other or not: all of this stays symbolic.
func placeAny(toks []*sqltoken.Token) []*sqltoken.Token {
	lines, width := vsym.Int(0, 3), vsym.Int(1, 2)
	for i, t := range toks {
		t.From = sqltoken.Pos{Line: 1 + lines*i, Col: 1 + width*i}
		t.To = sqltoken.Pos{Line: 1 + lines*i, Col: 2 + width*i}
	}
	return toks
}

func place(toks []*sqltoken.Token) []*sqltoken.Token {
	if anyPlaces {
		return placeAny(toks)
	}
	for i, t := range toks {
		t.From = sqltoken.Pos{Line: 1, Col: 1 + 2*i}
		t.To = sqltoken.Pos{Line: 1, Col: 2 + 2*i}
	}
	return toks
}

func (g *G) tokens() []*sqltoken.Token {
	l := make([]*sqltoken.Token, len(g.in))
	for i, t := range g.in {
		l[i] = t.token()
	}
	return place(l)
}

// source is the text of the statement with single spaces.
func (g *G) source() string {
	var sb strings.Builder
	for i, t := range g.in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(srcText(t.k, t.s))
	}
	return sb.String()
}

func srcText(k sqltoken.Kind, s string) string {
	switch k {
	case sqltoken.SingleQuotedString:
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	case sqltoken.NationalStringLiteral:
		return "N'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	return s
}

var _ dialect.Dialect
