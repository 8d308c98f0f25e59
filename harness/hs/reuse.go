package hs

import (
	"strings"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Parsers, options and readers used again (S01).

type parsed struct {
	file *sqlast.File
	err  string
}

func fileOf(p *xsqlparser.Parser) parsed {
	f, err := p.ParseFile()
	if err != nil {
		return parsed{nil, err.Error()}
	}
	return parsed{f, ""}
}

func (a parsed) same(b parsed) bool {
	return a.err == b.err && vsym.SamePos(a.file, b.file)
}

func anew(toks []*sqltoken.Token, comments bool) parsed {
	if comments {
		return fileOf(parserOf(toks, xsqlparser.ParseComment()))
	}
	return fileOf(parserOf(toks))
}

// cutTokens are the first n tokens of a text with comments.
func cutTokens(s string) []*sqltoken.Token {
	toks, e := lexes(dGeneric, s)
	if e != "" {
		return nil
	}
	return toks[:vsym.Concrete(vsym.Int(0, len(toks)))]
}

// S01Reused: a parser that was given other tokens before.
func S01Reused() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	l := annotated(g, 1, []int{0, 5})
	first := cutTokens(l.src.String())
	other := otherTexts[0]
	if vsym.Tier() > 0 {
		other = otherText()
	}
	second, _ := lexes(dGeneric, other)
	comments := vsym.Split(vsym.Bool())
	vsym.Freeze()
	want := anew(second, comments)
	p := xsqlparser.NewParserWithOptions()
	if comments {
		p = xsqlparser.NewParserWithOptions(xsqlparser.ParseComment())
	}
	p.SetTokens(first)
	switch vsym.Concrete(vsym.Int(0, depth(1, 3))) {
	case 0:
		p.ParseFile()
	case 1:
		p.ParseStatement()
	case 2:
		p.ParseExpr()
	case 3:
		p.ParseDataType()
	}
	p.SetTokens(second)
	got := fileOf(p)
	vsym.Thaw()
	vsym.Check(want.same(got), "reused-parser")
	vsym.Check(!vsym.Shares(want.file, got.file), "shared-part:reused-parser")
	if !vsym.Symbolic() && !want.same(got) {
		vsym.Log("first: %s\nsecond: %s\nerror %q, alone %q", l.src.String(), textOfTokens(second), got.err, want.err)
	}
}

func textOfTokens(toks []*sqltoken.Token) string {
	var b strings.Builder
	for _, t := range toks {
		if w, ok := t.Value.(*sqltoken.SQLWord); ok {
			b.WriteString(w.String())
		} else {
			b.WriteString(t.Value.(string))
		}
		b.WriteString(" ")
	}
	return b.String()
}

// S01Options: options given to two parsers or tokenizers.
func S01Options() {
	g := newG(0)
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	sa := annotated(g, 1, []int{0, 5}).src.String()
	sb := otherText()
	vsym.Freeze()
	wa, wb := &outcome{}, &outcome{}
	wa.parse(dGeneric, sa)
	wb.parse(dGeneric, sb)
	opt := xsqlparser.ParseComment()
	pa, ea := xsqlparser.NewParser(strings.NewReader(sa), dialectOf(dGeneric), opt)
	pb, eb := xsqlparser.NewParser(strings.NewReader(sb), dialectOf(dGeneric), opt)
	var a, b parsed
	if ea == nil {
		if eb == nil && vsym.Split(vsym.Bool()) {
			b = fileOf(pb)
			a = fileOf(pa)
			pb = nil
		} else {
			a = fileOf(pa)
		}
	}
	if eb == nil && pb != nil {
		b = fileOf(pb)
	}
	vsym.Check(ea != nil || a.err == wa.err && vsym.SamePos(a.file, wa.file), "shared-options:a")
	vsym.Check(eb != nil || b.err == wb.err && vsym.SamePos(b.file, wb.file), "shared-options:b")

	vsym.Check(!vsym.Shares(a.file, b.file), "shared-part:options")

	// the options of tokenizers
	o := sqltoken.DisableParseComment()
	d := sqltoken.Dialect(dialectOf(dMySQL))
	ta, _ := sqltoken.NewTokenizerWithOptions(strings.NewReader(sa), o, d).Tokenize()
	tb, _ := sqltoken.NewTokenizerWithOptions(strings.NewReader(sb), d).Tokenize()
	tc, _ := sqltoken.NewTokenizerWithOptions(strings.NewReader(sa)).Tokenize()
	xa, _ := sqltoken.NewTokenizerWithOptions(strings.NewReader(sa), sqltoken.DisableParseComment(), sqltoken.Dialect(dialectOf(dMySQL))).Tokenize()
	xb, _ := lexes(dMySQL, sb)
	xc, _ := lexes(dGeneric, sa)
	vsym.Thaw()
	vsym.Check(vsym.SamePos(ta, xa) && vsym.SamePos(tb, xb) && vsym.SamePos(tc, xc), "shared-options:tokens")
}

// S01Again: tokens parsed, a tree printed, walked, mapped and rewritten
// without edits are left as they were.
func S01Again() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	s := annotated(g, 1, []int{0, 5}).src.String()
	toks, e := lexes(dGeneric, s)
	vsym.Assume(e == "")
	copyOf, _ := lexes(dGeneric, s)
	vsym.Freeze()
	one := anew(toks, true)
	vsym.Check(vsym.SamePos(toks, copyOf), "tokens-changed")
	two := anew(toks, true)
	plain := anew(toks, false)
	vsym.Check(one.same(two), "tokens-again")
	vsym.Check(!vsym.Shares(one.file, two.file) && !vsym.Shares(one.file, plain.file), "shared-part:tokens-again")
	vsym.Check((plain.file == nil) == (one.file == nil), "comments-matter")
	if one.file == nil {
		vsym.Thaw()
		return
	}
	vsym.Check(len(one.file.Comments) > 0 == strings.ContainsAny(s, "-/"), "comments")
	vsym.Check(vsym.SamePos(one.file.Stmts, plain.file.Stmts), "comments-change")
	x := &outcome{file: one.file}
	x.examine()
	y := &outcome{file: one.file}
	y.examine()
	vsym.Thaw()
	vsym.Check(one.same(two), "tree-changed")
	vsym.Check(x.differs(y) == "", "tree-again")
	vsym.Reach("accepted")
}

func init() {
	reg(
		H{Prop: "S01", Name: "S01.reused", Fn: S01Reused, Race: true, Bounds: "a parser given any prefix of the tokens of any statement kind (up to 0/1 deviations, a comment anywhere), parsed as a file or statement (thorough: expression, type), then given the tokens of 1/4 other texts; with comments kept or not; result as of a new parser"},
		H{Prop: "S01", Name: "S01.options", Fn: S01Options, Race: true, Bounds: "the same option values for two parsers and tokenizers, every statement kind with a comment anywhere and 4 other texts, in either order"},
		H{Prop: "S01", Name: "S01.again", Fn: S01Again, Race: true, Bounds: "the same tokens parsed three times and the same tree examined twice, every statement kind with up to 0/1 deviations and a comment anywhere"},
	)
}
