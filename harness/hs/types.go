package hs

import (
	"bytes"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Data types (P13).

func typeOf(toks []*sqltoken.Token) (sqlast.Type, bool, error) {
	p := parserOf(toks)
	t, err := p.ParseDataType()
	if err != nil {
		return nil, false, err
	}
	// everything was consumed?
	_, err = p.ParseDataType()
	return t, err != nil, nil
}

func typeOfText(d int, s string) (sqlast.Type, error) {
	p, err := xsqlparser.NewParser(bytes.NewReader([]byte(s)), dialectOf(d))
	if err != nil {
		return nil, err
	}
	return p.ParseDataType()
}

func typeTokens(g *G, s string) bool {
	toks, ok := lexText(dGeneric, s)
	if !ok || len(toks) != len(g.out) {
		return false
	}
	for i, t := range toks {
		r, kw := rendered(t)
		if g.out[i].c == cKeyword {
			if !kw || strings.ToUpper(r) != g.out[i].s {
				return false
			}
		} else if r != g.out[i].s {
			return false
		}
	}
	return true
}

// P13Alone: a type on its own, every spelling, every suffix.
func P13Alone() {
	g := newMask(depth(4, 5), kType|kObj)
	g.symLits = 2
	i := vsym.Concrete(vsym.Int(0, nTypes-1))
	want := g.dataTypeN(i)
	got, _, err := typeOf(g.tokens())
	if err != nil {
		vsym.Check(false, "type-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "type-tree")
	s := got.ToSQLString()
	vsym.Check(typeTokens(g, s), "type-print")
	again, err := typeOfText(dGeneric, s)
	if err != nil {
		vsym.Check(false, "type-printed-rejected")
		return
	}
	vsym.Check(vsym.Same(again, want), "type-printed-tree")
}

// P13Long: sizes of many digits.
func P13Long() {
	g := newMask(depth(3, 4), kType)
	g.symLits = 2
	g.digits = manyDigits[vsym.Concrete(vsym.Int(0, len(manyDigits)-1))]
	want := g.dataTypeN(vsym.Concrete(vsym.Int(0, nTypes-1)))
	got, _, err := typeOf(g.tokens())
	if err != nil {
		vsym.Check(false, "type-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "type-tree")
}

// P13LongPrint: one digit of a long size is symbolic, the type is printed and
// parsed again.
func P13LongPrint() {
	n := vsym.Concrete(vsym.Int(3, depth(12, 18)))
	at := vsym.Concrete(vsym.Int(0, n-1))
	b := make([]byte, n)
	u := uint(0)
	for i := range b {
		b[i] = '1' + byte(i%9)
		if i == at {
			b[i] = '0' + byte(vsym.Concrete(vsym.Int(0, 9)))
		}
		u = u*10 + uint(b[i]-'0')
	}
	vsym.Assume(b[0] != '0')
	var want sqlast.Type
	s := ""
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 0:
		want, s = &sqlast.VarcharType{Size: &u}, "CHARACTER VARYING("+string(b)+")"
	case 1:
		want, s = &sqlast.CharType{Size: &u}, "CHARACTER("+string(b)+")"
	case 2:
		want, s = &sqlast.Float{Size: &u}, "FLOAT("+string(b)+")"
	case 3:
		want, s = &sqlast.Decimal{Precision: &u}, "NUMERIC("+string(b)+")"
	case 4:
		v := u
		want, s = &sqlast.Decimal{Precision: &u, Scale: &v}, "NUMERIC("+string(b)+","+string(b)+")"
	}
	got, err := typeOfText(dGeneric, s)
	if err != nil {
		vsym.Check(false, "type-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "type-tree")
	again, err := typeOfText(dGeneric, got.ToSQLString())
	vsym.Check(err == nil && vsym.Same(again, want), "type-printed-tree")
}

// P13Places: the same type in casts, column definitions and ALTER COLUMN.
func P13Places() {
	g := newMask(depth(2, 4), kType)
	g.symLits = 1
	var want sqlast.Stmt
	item := func(c *sqlast.Cast) sqlast.Stmt {
		return &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: c}}}}
	}
	typ := func() sqlast.Type { return g.dataTypeN(vsym.Concrete(vsym.Int(0, nTypes-1))) }
	switch vsym.Concrete(vsym.Int(0, 4)) {
	case 0:
		g.kw("SELECT", "CAST")
		g.p(sqltoken.LParen)
		e := g.id()
		g.kw("AS")
		t := typ()
		g.p(sqltoken.RParen)
		want = item(&sqlast.Cast{Expr: e, DataType: t})
	case 1:
		g.kw("SELECT")
		e := g.id()
		g.p(sqltoken.DoubleColon)
		want = item(&sqlast.Cast{Expr: e, DataType: typ()})
	case 2:
		s := &sqlast.CreateTableStmt{}
		g.kw("CREATE", "TABLE")
		s.Name = g.obj()
		g.p(sqltoken.LParen)
		c := &sqlast.ColumnDef{Name: g.id()}
		c.DataType = typ()
		s.Elements = []sqlast.TableElement{c}
		switch vsym.Concrete(vsym.Int(0, 3)) {
		case 1:
			g.kw("DEFAULT")
			c.Default = g.id()
		case 2:
			g.kw("NOT", "NULL")
			c.Constraints = []*sqlast.ColumnConstraint{{Spec: &sqlast.NotNullColumnSpec{}}}
		case 3:
			g.p(sqltoken.Comma)
			d := &sqlast.ColumnDef{Name: g.id()}
			d.DataType = g.dataTypeN(0)
			s.Elements = append(s.Elements, d)
		}
		g.p(sqltoken.RParen)
		want = s
	case 3:
		s := &sqlast.AlterTableStmt{}
		g.kw("ALTER", "TABLE")
		s.TableName = g.obj()
		g.kw("ALTER", "COLUMN")
		a := &sqlast.AlterColumnTableAction{ColumnName: g.id()}
		g.kw("TYPE")
		a.Action = &sqlast.PGAlterDataTypeColumnAction{DataType: typ()}
		s.Action = a
		want = s
	case 4: // a cast inside an expression
		g.kw("SELECT")
		e := g.id()
		g.p(sqltoken.DoubleColon)
		t := typ()
		g.p(sqltoken.Plus)
		r := g.id()
		want = &sqlast.QueryStmt{Body: &sqlast.SQLSelect{Projection: []sqlast.SQLSelectItem{&sqlast.UnnamedSelectItem{Node: &sqlast.BinaryExpr{
			Left: &sqlast.Cast{Expr: e, DataType: t}, Op: &sqlast.Operator{Type: sqlast.Plus}, Right: r}}}}}
	}
	got, err := parseStmt(g.tokens())
	if err != nil {
		vsym.Check(false, "type-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "type-tree")
	again, err := parseText(dGeneric, got.ToSQLString())
	if err != nil || len(again) != 1 {
		vsym.Check(false, "type-printed-rejected")
		return
	}
	vsym.Check(vsym.Same(again[0], want), "type-printed-tree")
}

var typeWords = strings.Fields("BOOLEAN FLOAT REAL DOUBLE SMALLINT INT INTEGER BIGINT VARCHAR CHAR CHARACTER UUID DATE TIMESTAMP TIME REGCLASS TEXT BYTEA NUMERIC")

// P13Custom: every other name is a user-defined type.
func P13Custom() {
	n := vsym.Concrete(vsym.Int(1, depth(4, 6)))
	b := make([]byte, n)
	for i := range b {
		b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[vsym.Int(0, 51)]
	}
	s := string(b)
	up := strings.ToUpper(s)
	known := false
	for _, w := range typeWords {
		if len(w) == n {
			known = known || up == w
		}
	}
	if vsym.Split(known) {
		return
	}
	w := sqltoken.MakeKeyword(s, 0)
	got, _, err := typeOf(place([]*sqltoken.Token{{Kind: sqltoken.SQLKeyword, Value: w}}))
	if err != nil {
		vsym.Check(false, "custom-rejected")
		return
	}
	vsym.Check(vsym.Same(got, &sqlast.Custom{Ty: &sqlast.ObjectName{Idents: []*sqlast.Ident{{Value: s}}}}), "custom-tree")
	vsym.Check(got.ToSQLString() == s, "custom-print")
}

// P13Case: type names in any letter case.
func P13Case() {
	g := newMask(depth(2, 3), kType)
	want := g.dataTypeN(vsym.Concrete(vsym.Int(0, nTypes-1)))
	toks := g.tokens()
	for i, t := range g.in {
		if t.c == cKeyword {
			toks[i].Value.(*sqltoken.SQLWord).Value = symCase(t.s)
		}
	}
	got, _, err := typeOf(toks)
	if err != nil {
		vsym.Check(false, "type-rejected")
		return
	}
	vsym.Check(vsym.Same(got, want), "type-tree")
}

// symCase is s with each letter in either case.
func symCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32*byte(vsym.Int(0, 1))
		}
	}
	return string(b)
}

// P13Near: a type with one token deleted, doubled, replaced or put in between,
// followed by up to two arbitrary tokens, in a cast or a column: whatever is
// accepted is printed with all its tokens.
func P13Near() {
	g := newMask(depth(2, 3), kType)
	col := vsym.Split(vsym.Bool())
	if col {
		g.kw("CREATE", "TABLE")
		g.id()
		g.p(sqltoken.LParen)
		g.id()
	} else {
		g.kw("SELECT", "CAST")
		g.p(sqltoken.LParen)
		g.id()
		g.kw("AS")
	}
	at := len(g.in)
	g.dataTypeN(vsym.Concrete(vsym.Int(0, nTypes-1)))
	to := len(g.in)
	g.p(sqltoken.RParen)
	toks := g.tokens()
	l := append([]*sqltoken.Token(nil), toks[:at]...)
	if vsym.Split(vsym.Bool()) {
		l = append(l, disturb(toks[at:to])...)
	} else {
		l = append(l, toks[at:to]...)
		// a suffix that may not belong here
		switch vsym.Concrete(vsym.Int(0, 2)) {
		case 0:
			l = append(l, freeToken(), freeToken())
		case 1:
			l = append(l, vocabPunct(sqltoken.LParen))
			l = append(l, freeToken())
			l = append(l, vocabPunct(sqltoken.RParen))
		case 2:
			l = append(l, vocabPunct(sqltoken.LParen), freeToken(), vocabPunct(sqltoken.Comma), freeToken(), vocabPunct(sqltoken.RParen))
		}
	}
	kept(append(l, toks[to:]...))
}

func vocabPunct(k sqltoken.Kind) *sqltoken.Token {
	return &sqltoken.Token{Kind: k, Value: punctText(k)}
}

func init() {
	reg(
		H{Prop: "P13", Name: "P13.near", Fn: P13Near, Bounds: "28 type spellings with up to 2/3 suffixes in a cast or a column definition; one token of the type deleted, doubled, replaced by or preceded by any token of a vocabulary of 145, the rest cut, or followed by two such tokens, one in parentheses or two in parentheses: whatever is accepted is printed with all its tokens"},
		H{Prop: "P13", Name: "P13.alone", Fn: P13Alone, Bounds: "28 type spellings, up to 4 (thorough 5) deviations among their optional suffixes, sizes any number 0..99; parsed, printed, parsed again"},
		H{Prop: "P13", Name: "P13.places", Fn: P13Places, Bounds: "the same with up to 2 (thorough 4) deviations in CAST, ::, CREATE TABLE with a following part or column, ALTER COLUMN TYPE, before an operator"},
		H{Prop: "P13", Name: "P13.long", Fn: P13Long, Bounds: "28 type spellings, up to 3 (thorough 4) deviations among their optional suffixes, sizes any number of 3, 6, 11 or 18 digits"},
		H{Prop: "P13", Name: "P13.longprint", Fn: P13LongPrint, Bounds: "sizes of 3..12 (thorough 18) digits, one of them symbolic, parsed, printed, parsed again"},
		H{Prop: "P13", Name: "P13.custom", Fn: P13Custom, Bounds: "every word of 1..4 (thorough 6) letters that is no type name"},
		H{Prop: "P13", Name: "P13.case", Fn: P13Case, Bounds: "28 type spellings with up to 2 (thorough 3) suffixes, every letter-case mix"},
	)
}
