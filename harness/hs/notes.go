package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Comments: recording (A07) and association with nodes (A06).

// note is a piece of text between tokens: whitespace or a comment.
type note struct {
	src  string
	text string
	c    bool
}

var (
	nSpace = note{" ", " ", false}
	nLine  = note{"\n", "\n", false}
	nTab   = note{"\t", "\t", false}
)

func lineNote(s string) note  { return note{"--" + s, s, true} }
func blockNote(s string) note { return note{"/*" + s + "*/", s, true} }

// forms of a gap; x names the comment
func gapForm(k int, x string) []note {
	switch k {
	case 0:
		return []note{nSpace, blockNote(x)}
	case 1:
		return []note{nSpace, lineNote(x), nLine}
	case 2:
		return []note{nLine, lineNote(x), nLine}
	case 3:
		return []note{nLine, nLine, blockNote(x), nLine, nLine}
	case 4: // two comments that belong together
		return []note{nLine, lineNote(x), nLine, nTab, blockNote(x + "2"), nLine}
	case 5: // one behind the token, one for what follows
		return []note{nSpace, lineNote(x), nLine, lineNote(x + "2"), nLine}
	case 6: // over several lines
		return []note{nSpace, blockNote(x + "\n " + x), nLine, lineNote(x + "2"), nLine}
	case 7:
		return []note{nSpace, blockNote(x), nSpace, blockNote(x + "2"), nLine, nLine}
	case 8: // a comment below, then a blank line
		return []note{nLine, lineNote(x), nLine, nLine}
	case 9: // blank line inside the group
		return []note{nLine, lineNote(x), nLine, nLine, nLine, blockNote(x + "2")}
	case 10:
		return []note{nLine}
	case 11: // nothing
		return nil
	case 12: // empty comments
		return []note{blockNote(""), nLine, lineNote(""), nLine}
	}
	return []note{nSpace}
}

const gapForms = 13

var (
	allForms = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	fewForms = []int{0, 5, 7, 9, 12}
)

// oneForms is for many statements
func oneForms() []int {
	if vsym.Tier() > 0 {
		return allForms
	}
	return fewForms[1:3]
}

func someForms() []int {
	if vsym.Tier() > 0 {
		return allForms
	}
	return fewForms
}

func advance(p sqltoken.Pos, s string) sqltoken.Pos {
	for _, c := range s {
		if c == '\n' {
			p.Line, p.Col = p.Line+1, 1
		} else {
			p.Col++
		}
	}
	return p
}

// layout is a text as tokens with their positions.
type layout struct {
	toks []*sqltoken.Token
	at   sqltoken.Pos
	src  strings.Builder
}

func (l *layout) token(t *sqltoken.Token, src string) {
	t.From = l.at
	l.at = advance(l.at, src)
	t.To = l.at
	l.toks = append(l.toks, t)
	l.src.WriteString(src)
}

// add appends a token of the model; wide names and strings span two lines.
func (l *layout) add(t gtok, wide bool) {
	switch {
	case wide && t.c == cName:
		w := t.s + "\n" + t.s
		l.token(&sqltoken.Token{Kind: sqltoken.SQLKeyword, Value: &sqltoken.SQLWord{Value: w, QuoteStyle: '"'}}, "\""+w+"\"")
	case wide && t.k == sqltoken.SingleQuotedString:
		w := t.s + "\n"
		l.token(&sqltoken.Token{Kind: t.k, Value: w}, srcText(t.k, w))
	default:
		l.token(t.token(), srcText(t.k, t.s))
	}
}

func (l *layout) gap(ns []note) {
	for _, n := range ns {
		k := sqltoken.Whitespace
		if n.c {
			k = sqltoken.Comment
		}
		l.token(&sqltoken.Token{Kind: k, Value: n.text}, n.src)
	}
}

// annotated lays a generated statement list out. Up to most gaps hold a
// symbolic form, the others what filler says.
func annotated(g *G, most int, forms []int) *layout {
	at := make([]int, most)
	for i := range at {
		lo := 0
		if i > 0 {
			lo = at[i-1]
		}
		at[i] = vsym.Concrete(vsym.Int(lo, len(g.in)))
	}
	fill := 0
	if len(forms) > 5 {
		fill = vsym.Concrete(vsym.Int(0, 1))
	}
	l := &layout{at: sqltoken.Pos{Line: 1, Col: 1}}
	n := 0
	for i := 0; i <= len(g.in); i++ {
		marked := false
		for ; n < most && at[n] == i; n++ {
			marked = true
			l.gap(gapForm(forms[vsym.Concrete(vsym.Int(0, len(forms)-1))], nameTexts[n]))
		}
		if !marked && i > 0 && i < len(g.in) {
			if fill == 1 && (g.in[i-1].k == sqltoken.Comma || g.in[i-1].k == sqltoken.Semicolon || g.in[i-1].k == sqltoken.LParen) {
				l.gap([]note{nLine})
			} else {
				l.gap([]note{nSpace})
			}
		}
		if i < len(g.in) {
			l.add(g.in[i], g.wide)
		}
	}
	return l
}

// groupsOf is what the comments of a token list should be recorded as: the
// comments between two tokens form a group, except that the end of a line
// with a token on it ends the group as well.
func groupsOf(toks []*sqltoken.Token) []*sqlast.CommentGroup {
	var out []*sqlast.CommentGroup
	var g *sqlast.CommentGroup
	last := 0 // line the last token ends on
	for _, t := range toks {
		switch {
		case t.Kind == sqltoken.Comment:
			if g == nil {
				g = &sqlast.CommentGroup{}
				out = append(out, g)
			}
			g.List = append(g.List, &sqlast.Comment{Text: t.Value.(string), From: t.From, To: t.To})
		case t.Kind == sqltoken.Whitespace:
			if t.Value.(string) == "\n" && t.From.Line == last {
				g = nil
			}
		default:
			g = nil
			last = t.To.Line
		}
	}
	return out
}

func sameComments(got, want []*sqlast.CommentGroup) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !vsym.SamePos(got[i], want[i]) {
			return false
		}
	}
	return true
}

func logComments(name string, l []*sqlast.CommentGroup) {
	vsym.Log("%s: %d groups", name, len(l))
	for _, g := range l {
		for _, c := range g.List {
			vsym.Log("  %q %v %v", c.Text, c.From, c.To)
		}
		vsym.Log("  --")
	}
}

func records(l *layout) {
	plain := make([]*sqltoken.Token, len(l.toks))
	copy(plain, l.toks)
	want, werr := parserOf(plain).ParseFile()
	got, gerr := parserOf(l.toks, xsqlparser.ParseComment()).ParseFile()
	if (werr == nil) != (gerr == nil) {
		vsym.Check(false, "acceptance")
		vsym.Log("source: %s\nplain: %v\nwith comments: %v", l.src.String(), werr, gerr)
		return
	}
	if werr != nil {
		vsym.Reach("rejected")
		return
	}
	vsym.Reach("accepted")
	vsym.Check(len(want.Comments) == 0, "recorded-without-option")
	vsym.Check(vsym.SamePos(got.Stmts, want.Stmts), "statements")
	exp := groupsOf(l.toks)
	ok := sameComments(got.Comments, exp)
	vsym.Check(ok, "comments")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s", l.src.String())
		logComments("got", got.Comments)
		logComments("want", exp)
	}
}

func a07(g *G, _ sqlast.Stmt) { records(annotated(g, 1, oneForms())) }

func A07One() { allStmts(depth(1, 2))(a07) }

func A07Two() {
	allStmts(0)(func(g *G, _ sqlast.Stmt) { records(annotated(g, 2, someForms())) })
}

// everywhere puts the same form into every gap.
func everywhere(g *G, forms []int) *layout {
	form := forms[vsym.Concrete(vsym.Int(0, len(forms)-1))]
	l := &layout{at: sqltoken.Pos{Line: 1, Col: 1}}
	for i := 0; i <= len(g.in); i++ {
		l.gap(gapForm(form, nameTexts[i%len(nameTexts)]))
		if i < len(g.in) {
			l.add(g.in[i], g.wide)
		}
	}
	return l
}

func a07every(g *G, _ sqlast.Stmt) { records(everywhere(g, someForms())) }

// A07Wide: names and strings span lines.
func A07Wide() {
	allStmts(depth(0, 1))(func(g *G, _ sqlast.Stmt) {
		g.wide = true
		records(annotated(g, 1, allForms))
	})
}

func A07WideAll() {
	rootExprs(func(g *G, _ sqlast.Stmt) {
		g.wide = true
		records(everywhere(g, oneForms()))
	})
}

func A07Exprs()  { rootExprs(a07every) }
func A07Window() { rootWindow(a07every) }
func A07Cols()   { rootCols(a07every) }

func A07Every() {
	allStmts(depth(1, 2))(func(g *G, _ sqlast.Stmt) { records(everywhere(g, allForms)) })
}

// scripts of several statements
func annotatedScript(most int, forms []int, stmts, kinds int) *layout {
	g := newG(0)
	n := vsym.Concrete(vsym.Int(0, stmts))
	for i := 0; i < n; i++ {
		if i > 0 && vsym.Tier() == 0 {
			kinds = 2
		}
		g.stmtN(vsym.Concrete(vsym.Int(0, kinds)))
		if i+1 < n || vsym.Split(vsym.Bool()) {
			g.p(sqltoken.Semicolon)
		}
	}
	return annotated(g, most, forms)
}

func A07Script() { records(annotatedScript(depth(1, 2), someForms(), 2, 9)) }

// A07Damaged: rejected and accepted token lists that are no statements of the
// model.
func A07Damaged() {
	g := newG(0)
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	toks := damage(g.tokens())
	l := &layout{at: sqltoken.Pos{Line: 1, Col: 1}}
	form := vsym.Concrete(vsym.Int(0, 2))
	for i, t := range toks {
		l.gap(gapForm(form, nameTexts[i%len(nameTexts)]))
		c := *t
		l.token(&c, "x")
	}
	l.gap(gapForm(form, "z"))
	records(l)
}

// A07Text: through source text, with symbolic comment texts.
func A07Text() {
	g := newG(0)
	g.stmtN(vsym.Concrete(vsym.Int(0, 1)))
	at := vsym.Concrete(vsym.Int(0, len(g.in)))
	body := []byte{vsym.Byte(), vsym.Byte()}
	for _, c := range body {
		vsym.Assume(c > 0 && c < 0x80 && c != '\n' && c != '\r' && c != '\t' && c != '*' && c != '/')
	}
	var sep, text string
	if vsym.Split(vsym.Bool()) {
		text = string(body)
		sep = " --" + text + "\n"
	} else {
		text = string(body[:1]) + "\n" + string(body[1:])
		sep = "\n/*" + text + "*/"
	}
	s := ""
	var from, to sqltoken.Pos
	for i := 0; i <= len(g.in); i++ {
		if i == at {
			p := advance(sqltoken.Pos{Line: 1, Col: 1}, s)
			if sep[0] == ' ' {
				from = advance(p, " ")
				to = from
				to.Col += 4
			} else {
				from = advance(p, "\n")
				to = sqltoken.Pos{Line: from.Line + 1, Col: 4}
			}
			s += sep
		} else if i > 0 && i < len(g.in) {
			s += " "
		}
		if i < len(g.in) {
			s += srcText(g.in[i].k, g.in[i].s)
		}
	}
	p, err := xsqlparser.NewParser(newText(s), dialectOf(dGeneric), xsqlparser.ParseComment())
	if err != nil {
		vsym.Check(false, "rejected")
		return
	}
	f, err := p.ParseFile()
	if err != nil {
		vsym.Check(false, "rejected")
		vsym.Log("source: %s: %v", s, err)
		return
	}
	want := []*sqlast.CommentGroup{{List: []*sqlast.Comment{{Text: text, From: from, To: to}}}}
	ok := sameComments(f.Comments, want)
	vsym.Check(ok, "comments")
	if !vsym.Symbolic() && !ok {
		vsym.Log("source: %s", s)
		logComments("got", f.Comments)
		logComments("want", want)
	}
}

// ---- association ----

func important(n sqlast.Node) bool {
	switch n.(type) {
	case *sqlast.ColumnDef, *sqlast.TableConstraint, *sqlast.CopyStmt:
		return true
	case sqlast.Stmt:
		return true
	}
	return false
}

func inOrder(n sqlast.Node, l []sqlast.Node) []sqlast.Node {
	l = append(l, n)
	for _, k := range interleaved(n, kids(n)) {
		l = inOrder(k.n, l)
	}
	return l
}

func before(a, b sqltoken.Pos) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Col < b.Col
}

type belongs struct {
	c *sqlast.CommentGroup
	n sqlast.Node
}

// association follows the rules of go/ast's comment maps: a comment belongs
// to the statement, column or constraint that ended last if it stands on the
// line that one ends on, or on the next line and is followed by a blank line;
// else to the node before it on the same terms or if nothing follows; else to
// the node that follows.
func association(f *sqlast.File) []belongs {
	nodes := inOrder(f, nil)
	var out []belongs
	var open []sqlast.Node
	var group sqlast.Node
	i := 0
	for _, c := range f.Comments {
		for ; i < len(nodes) && before(nodes[i].Pos(), c.End()); i++ {
			if !important(nodes[i]) {
				continue
			}
			for len(open) > 0 && !before(nodes[i].Pos(), open[len(open)-1].End()) {
				open = open[:len(open)-1]
			}
			open = append(open, nodes[i])
		}
		for len(open) > 0 && !before(c.Pos(), open[len(open)-1].End()) {
			group = open[len(open)-1]
			open = open[:len(open)-1]
		}
		next := 1 << 30
		if i < len(nodes) {
			next = nodes[i].Pos().Line
		}
		fits := func(n sqlast.Node) bool {
			if n == nil {
				return false
			}
			line := n.End().Line
			return line == c.Pos().Line || line+1 == c.Pos().Line && c.End().Line+1 < next
		}
		prev := nodes[i-1]
		switch {
		case fits(group):
			out = append(out, belongs{c, group})
		case fits(prev) || i == len(nodes):
			out = append(out, belongs{c, prev})
		default:
			out = append(out, belongs{c, nodes[i]})
		}
	}
	return out
}

func maps(l *layout) {
	f, err := parserOf(l.toks, xsqlparser.ParseComment()).ParseFile()
	if err != nil {
		return
	}
	vsym.Reach("accepted")
	want := association(f)
	m := sqlast.NewCommentMap(f)
	n := 0
	for _, x := range inOrder(f, nil) {
		n += len(m[x])
	}
	total := 0
	for _, l := range m {
		total += len(l)
	}
	vsym.Check(total == len(f.Comments), "each-once")
	vsym.Check(n == total, "nodes-of-the-file")
	ok := true
	at := map[sqlast.Node]int{}
	for _, b := range want {
		k := at[b.n]
		at[b.n]++
		if k >= len(m[b.n]) || m[b.n][k] != b.c {
			ok = false
		}
	}
	vsym.Check(ok, "association")
	if !vsym.Symbolic() && !(ok && total == len(f.Comments) && n == total) {
		vsym.Log("source: %s", l.src.String())
		for _, b := range want {
			vsym.Log("%q belongs to %s %s", b.c.ToSQLString(), nodeName(b.n), sqlOf(b.n))
		}
		for x, l := range m {
			for _, c := range l {
				vsym.Log("%q is with %s %s", c.ToSQLString(), nodeName(x), sqlOf(x))
			}
		}
	}
}

func a06(g *G, _ sqlast.Stmt) { maps(annotated(g, 1, oneForms())) }

func A06One() { allStmts(depth(1, 2))(a06) }
func A06Two() {
	allStmts(0)(func(g *G, _ sqlast.Stmt) { maps(annotated(g, 2, someForms())) })
}

// A06Wide: names and strings span lines.
func A06Wide() {
	allStmts(depth(0, 1))(func(g *G, _ sqlast.Stmt) {
		g.wide = true
		maps(annotated(g, 1, allForms))
	})
}
func A06WideAll() {
	rootExprs(func(g *G, _ sqlast.Stmt) {
		g.wide = true
		maps(everywhere(g, oneForms()))
	})
}
func A06Script() { maps(annotatedScript(depth(1, 2), someForms(), 2, 9)) }
func A06Exprs()  { rootExprs(func(g *G, _ sqlast.Stmt) { maps(everywhere(g, oneForms())) }) }
func A06Elems() {
	g := newMask(depth(1, 2), kElem|kCol)
	s := g.createTable()
	_ = s
	maps(annotated(g, depth(1, 2), someForms()))
}

// A06Table: a table of two columns and a constraint.
func A06Table() {
	g := newG(0)
	g.kw("CREATE", "TABLE")
	g.id()
	g.p(sqltoken.LParen)
	for i := vsym.Concrete(vsym.Int(1, 2)); i > 0; i-- {
		g.id()
		g.kw("INT", "NOT", "NULL")
		g.p(sqltoken.Comma)
	}
	g.kw("CONSTRAINT")
	g.id()
	g.kw("UNIQUE")
	g.p(sqltoken.LParen)
	g.id()
	g.p(sqltoken.RParen, sqltoken.RParen)
	maps(annotated(g, depth(1, 2), allForms))
}

func init() {
	const one = "; one gap anywhere, before, between or after the tokens, in any of 2/13 forms of whitespace and comments"
	const every = "; the same of 5/13 forms of whitespace and comments at every gap"
	const few = "; 2 gaps, each anywhere in any of 5/13 forms"
	reg(
		H{Prop: "A07", Name: "A07.wide", Fn: A07Wide, Bounds: "every statement kind with up to 0/1 deviations, every name (quoted) and string over two lines; one gap in any of 13 forms"},
		H{Prop: "A07", Name: "A07.wide-exprs", Fn: A07WideAll, Bounds: bExprs + "; every name (quoted) and string over two lines, the same of 2/13 forms at every gap"},
		H{Prop: "A06", Name: "A06.wide", Fn: A06Wide, Bounds: "every statement kind with up to 0/1 deviations, every name (quoted) and string over two lines; one gap in any of 13 forms"},
		H{Prop: "A06", Name: "A06.wide-exprs", Fn: A06WideAll, Bounds: bExprs + "; every name (quoted) and string over two lines, the same of 2/13 forms at every gap"},
		H{Prop: "A07", Name: "A07.one", Fn: A07One, Bounds: "every statement kind with up to 1/2 deviations" + one},
		H{Prop: "A07", Name: "A07.two", Fn: A07Two, Bounds: "every statement kind" + few},
		H{Prop: "A07", Name: "A07.every", Fn: A07Every, Bounds: "every statement kind with up to 1/2 deviations; the same of 13 forms at every gap"},
		H{Prop: "A07", Name: "A07.exprs", Fn: A07Exprs, Bounds: bExprs + every},
		H{Prop: "A07", Name: "A07.window", Fn: A07Window, Bounds: bWindow + every},
		H{Prop: "A07", Name: "A07.columns", Fn: A07Cols, Bounds: bCols + every},
		H{Prop: "A07", Name: "A07.script", Fn: A07Script, Bounds: "scripts of up to 2 statements (quick: the second a query, INSERT or UPDATE), 1/2 gaps in any of 5/13 forms"},
		H{Prop: "A07", Name: "A07.damaged", Fn: A07Damaged, Bounds: "statements with one token deleted, doubled, replaced by any token or the rest cut; the same form at every gap"},
		H{Prop: "A07", Name: "A07.text", Fn: A07Text, Bounds: "source texts of queries and INSERT, a line or block comment of 2 arbitrary ASCII characters at any place"},
		H{Prop: "A06", Name: "A06.one", Fn: A06One, Bounds: "every statement kind with up to 1/2 deviations" + one},
		H{Prop: "A06", Name: "A06.two", Fn: A06Two, Bounds: "every statement kind" + few},
		H{Prop: "A06", Name: "A06.script", Fn: A06Script, Bounds: "scripts of up to 2 statements (quick: the second a query, INSERT or UPDATE), 1/2 gaps in any of 5/13 forms"},
		H{Prop: "A06", Name: "A06.exprs", Fn: A06Exprs, Bounds: bExprs + "; the same of 2/13 forms of whitespace and comments at every gap"},
		H{Prop: "A06", Name: "A06.elements", Fn: A06Elems, Bounds: "CREATE TABLE with 1/2 deviations, 1/2 gaps as above"},
		H{Prop: "A06", Name: "A06.table", Fn: A06Table, Bounds: "a table of up to 2 columns and a constraint, 1/2 gaps in any of 13 forms"},
	)
}
