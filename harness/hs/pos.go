package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Node positions (A05). The text of a node within the canonical rendering of
// its statement is found from the rendering of the node; the tokens of the
// statement correspond to those of the canonical rendering.

// every token on a line of its own, with an indentation that tells the line
func posFrom(i int) sqltoken.Pos { return sqltoken.Pos{Line: 1 + i, Col: 3 + 20*i} }

func (s *spans) posTo(i int) sqltoken.Pos {
	p := posFrom(i)
	p.Col += s.width[i]
	return p
}

func (s *spans) spread(toks []*sqltoken.Token) []*sqltoken.Token {
	for i, t := range toks {
		t.From, t.To = posFrom(i), s.posTo(i)
	}
	return toks
}

// spans finds out where the nodes of a statement are.
type spans struct {
	g     *G
	in    []int  // per canonical token, the token of the statement or -1
	own   []bool // per token of the statement: is a canonical token
	width []int
}

func newSpans(g *G) *spans {
	s := &spans{g: g, in: make([]int, len(g.out)), own: make([]bool, len(g.in))}
	for i := range s.in {
		s.in[i] = -1
	}
	for _, t := range g.in {
		s.width = append(s.width, len(srcText(t.k, t.s)))
	}
	for _, p := range g.pairs {
		s.in[p.out] = p.in
		s.own[p.in] = true
	}
	return s
}

// source is the range of the statement that a range of the canonical
// rendering stands for.
func (s *spans) source(a, b int) (int, int, bool) {
	f, l := a, b
	for f <= b && s.in[f] < 0 {
		f++
	}
	for l >= a && s.in[l] < 0 {
		l--
	}
	if f > b {
		// nothing in common: the tokens between the neighbours
		if a > 0 && s.in[a-1] < 0 || b+1 < len(s.in) && s.in[b+1] < 0 {
			return 0, 0, false
		}
		x, y := 0, len(s.own)-1
		if a > 0 {
			x = s.in[a-1] + 1
		}
		if b+1 < len(s.in) {
			y = s.in[b+1] - 1
		}
		for i := x; i <= y; i++ {
			if s.own[i] {
				return 0, 0, false
			}
		}
		return x, y, x <= y
	}
	x, y := s.in[f], s.in[l]
	for i := f; i <= l; i++ { // parts of a column may be in any order
		if k := s.in[i]; k >= 0 && k < x {
			x = k
		}
		if k := s.in[i]; k > y {
			y = k
		}
	}
	if f > a || x > 0 && !s.own[x-1] {
		if f > a && a > 0 && s.in[a-1] < 0 {
			return 0, 0, false
		}
		if f == a && x == s.in[f] {
			// tokens before it are not its own
		} else {
			for x > 0 && !s.own[x-1] {
				x--
			}
		}
	}
	if l < b || y+1 < len(s.own) && !s.own[y+1] {
		if l < b && b+1 < len(s.in) && s.in[b+1] < 0 {
			return 0, 0, false
		}
		if l == b && y == s.in[l] && s.g.in[y+1].s != "WITHOUT" {
			// tokens behind it are not its own
		} else {
			for y+1 < len(s.own) && !s.own[y+1] {
				y++
			}
		}
	}
	return x, y, true
}

func (s *spans) match(toks []*sqltoken.Token, at int) bool {
	for i, t := range toks {
		o := s.g.out[at+i]
		x, kw := rendered(t)
		if o.c == cKeyword {
			if !kw || strings.ToUpper(x) != o.s {
				return false
			}
		} else if x != o.s {
			return false
		}
	}
	return true
}

// find is the first place in a range of the canonical rendering where the
// rendering of a node stands.
func (s *spans) find(n sqlast.Node, from, to int) (int, int, bool) {
	toks, ok := lexText(dGeneric, n.ToSQLString())
	if !ok || len(toks) == 0 {
		return 0, 0, false
	}
	for at := from; at+len(toks)-1 <= to; at++ {
		if s.match(toks, at) {
			return at, at + len(toks) - 1, true
		}
	}
	return 0, 0, false
}

func posKey(n sqlast.Node, end bool) string {
	name := strings.TrimPrefix(nodeName(n), "*sqlast.")
	if end {
		return name + ".End"
	}
	return name + ".Pos"
}

// check compares the positions of a node and its descendants with the range
// [a,b] of the canonical rendering.
func (s *spans) check(n sqlast.Node, a, b int) {
	x, y, known := s.source(a, b)
	p, e := n.Pos(), n.End()
	cur := a
	type span struct {
		n    sqlast.Node
		a, b int
	}
	var parts []span
	for _, k := range interleaved(n, kids(n)) {
		i, j, ok := s.find(k.n, cur, b)
		if !ok {
			if k.n.ToSQLString() == "" { // no text of its own
				k.n.Pos()
				k.n.End()
				continue
			}
			vsym.Check(false, "rendering-of-"+nodeName(k.n))
			vsym.Log("%s is not in %s", k.n.ToSQLString(), s.g.canonical())
			return
		}
		parts = append(parts, span{k.n, i, j})
		cur = j + 1
	}
	if known {
		if p != posFrom(x) {
			key := s.knownPos(n, posKey(n, false))
			for _, k := range parts {
				if kx, _, ok := s.source(k.a, k.b); ok && kx == x && k.n.Pos() == p {
					key = "" // reported for the part
				}
			}
			s.report(n, key, x, y)
		}
		if e != s.posTo(y) {
			key := s.knownEnd(n, posKey(n, true))
			for _, k := range parts {
				if _, ky, ok := s.source(k.a, k.b); ok && ky == y && k.n.End() == e {
					key = ""
				}
			}
			s.report(n, key, x, y)
		}
		vsym.Reach("known")
	} else {
		// at least tokens inside the statement
		in := p.Line >= 1 && p.Line <= e.Line && e.Line <= len(s.width)
		vsym.Check(in && p == posFrom(p.Line-1) && e == s.posTo(e.Line-1), "tokens-of-"+nodeName(n))
		vsym.Reach("unknown " + nodeName(n))
	}
	for _, k := range parts {
		s.check(k.n, k.a, k.b)
	}
}

func (s *spans) report(n sqlast.Node, key string, x, y int) {
	if key == "" {
		return
	}
	vsym.Check(false, key)
	if !vsym.Symbolic() {
		vsym.Log("statement: %s\n%s: %s\nis at token %d to %d, Pos is %v, End is %v should be %v and %v", s.g.source(), nodeName(n), n.ToSQLString(), x, y, n.Pos(), n.End(), posFrom(x), s.posTo(y))
	}
}

// Positions the parser does not record, with what stands in for them.

func (s *spans) knownPos(n sqlast.Node, key string) string {
	switch n := n.(type) {
	case *sqlast.QueryStmt:
		if len(n.CTEs) > 0 && n.Pos() == n.CTEs[0].Pos() {
			return "query-starts-at-first-cte"
		}
	case *sqlast.LimitExpr:
		if n.LimitValue != nil && n.Pos() == n.LimitValue.Pos() {
			return "limit-starts-at-value"
		}
	case *sqlast.ConstructorSource:
		if len(n.Rows) > 0 && n.Pos() == n.Rows[0].Pos() {
			return "values-start-at-first-row"
		}
	}
	return key
}

func (s *spans) knownEnd(n sqlast.Node, key string) string {
	switch n := n.(type) {
	case *sqlast.CTE:
		if n.End() == n.Query.End() {
			return "cte-ends-with-query"
		}
	case *sqlast.QualifiedWildcardSelectItem:
		e := n.Prefix.End()
		e.Col += 2
		if n.End() == e {
			return "wildcard-item-ends-two-columns-after-prefix"
		}
	case *sqlast.CreateTableStmt:
		if l := len(n.Elements); l > 0 && len(n.Options) == 0 && n.End() == n.Elements[l-1].End() {
			return "table-ends-with-last-element"
		}
	}
	return key
}

func a05(g *G, _ sqlast.Stmt) {
	s := newSpans(g)
	got, err := parseStmt(s.spread(g.tokens()))
	if err != nil {
		return
	}
	vsym.Reach("accepted")
	a, b, ok := s.find(got, 0, len(g.out)-1)
	if !ok || a != 0 || b != len(g.out)-1 {
		vsym.Check(false, "rendering")
		return
	}
	s.check(got, a, b)
}

func A05Query()   { rootQuery(a05) }
func A05Clauses() { rootClauses(a05) }
func A05Joins()   { rootJoins(a05) }
func A05Factors() { rootFactors(a05) }
func A05Window()  { rootWindow(a05) }
func A05Sets()    { rootSets(a05) }
func A05Exprs()   { rootExprs(a05) }
func A05Changes() { rootChanges(a05) }
func A05Lists()   { rootLists(a05) }
func A05Explain() { rootExplain(a05) }
func A05Schema()  { rootSchema(a05) }
func A05Cols()    { rootCols(a05) }
func A05Elems()   { rootElems(a05) }
func A05Types()   { rootTypes(a05) }

func init() {
	reg(
		H{Prop: "A05", Name: "A05.query", Fn: A05Query, Bounds: bQuery},
		H{Prop: "A05", Name: "A05.clauses", Fn: A05Clauses, Bounds: bClauses},
		H{Prop: "A05", Name: "A05.joins", Fn: A05Joins, Bounds: bJoins},
		H{Prop: "A05", Name: "A05.tables", Fn: A05Factors, Bounds: bFactors},
		H{Prop: "A05", Name: "A05.window", Fn: A05Window, Bounds: bWindow},
		H{Prop: "A05", Name: "A05.sets", Fn: A05Sets, Bounds: bSets},
		H{Prop: "A05", Name: "A05.exprs", Fn: A05Exprs, Bounds: bExprs},
		H{Prop: "A05", Name: "A05.changes", Fn: A05Changes, Bounds: bChanges},
		H{Prop: "A05", Name: "A05.lists", Fn: A05Lists, Bounds: bLists},
		H{Prop: "A05", Name: "A05.explain", Fn: A05Explain, Bounds: bExplain},
		H{Prop: "A05", Name: "A05.schema", Fn: A05Schema, Bounds: bSchema},
		H{Prop: "A05", Name: "A05.columns", Fn: A05Cols, Bounds: bCols},
		H{Prop: "A05", Name: "A05.elements", Fn: A05Elems, Bounds: bElems},
		H{Prop: "A05", Name: "A05.types", Fn: A05Types, Bounds: bTypes},
	)
}
