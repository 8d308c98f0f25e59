package hs

import (
	"bytes"
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"vh/vsym"
)

func init() {
	reg(H{Prop: "X00", Name: "smoke.parse", Fn: SmokeParse, Bounds: "concrete"})
	reg(H{Prop: "X00", Name: "smoke.bytes", Fn: SmokeBytes, Bounds: "2 bytes"})
}

func SmokeParse() {
	qs := []string{"SELECT a, b FROM t WHERE a = 1 AND b < 'x' ORDER BY a LIMIT 10;", "CREATE TABLE t (a int PRIMARY KEY, b varchar(20) DEFAULT 'q' NOT NULL);",
		"INSERT INTO t (a,b) VALUES (1,2),(3,4);", "UPDATE t SET a = 1.5 WHERE b IN (SELECT x FROM y);", "SELECT CASE WHEN a THEN b ELSE c END, count(*) OVER (PARTITION BY z) FROM a LEFT JOIN b ON a.x = b.y;"}
	q := qs[vsym.Concrete(vsym.Int(0, len(qs)-1))]
	p, err := xsqlparser.NewParser(strings.NewReader(q), &dialect.GenericSQLDialect{})
	vsym.Check(err == nil, "lex")
	st, err := p.ParseStatement()
	vsym.Check(err == nil, "parse")
	if err == nil {
		vsym.Observe(st.ToSQLString())
	}
}

func SmokeBytes() {
	b := []byte{'a', vsym.Byte(), '+', vsym.Byte()}
	p, err := xsqlparser.NewParser(bytes.NewReader(b), &dialect.GenericSQLDialect{})
	if err != nil {
		vsym.Observe("lexerr")
		return
	}
	e, err := p.ParseExpr()
	if err != nil {
		vsym.Observe("err")
		return
	}
	vsym.Observe(e.ToSQLString())
}
