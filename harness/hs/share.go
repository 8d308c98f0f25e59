package hs

import (
	"io"
	"strings"
	"sync"

	"github.com/akito0107/xsqlparser"
	"github.com/akito0107/xsqlparser/dialect"
	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"
	"github.com/akito0107/xsqlparser/sqltoken"

	"vh/vsym"
)

// Results depend on the input only (S01).
//
// The engine reports every write to memory reachable from a package-level
// variable of the library while frozen; without such writes operations on
// separate inputs cannot affect each other whatever their interleaving.
// Writes that are synchronised are not reproduced by the race detector and
// stay quiet; what they do to results is judged by comparing results.

// outcome is everything the library says about a text.
type outcome struct {
	toks   []*sqltoken.Token
	lexErr string
	file   *sqlast.File
	err    string
	text   string
	walk   []string
	notes  []string
	edited string
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func lexes(d int, s string) ([]*sqltoken.Token, string) {
	toks, err := sqltoken.NewTokenizer(strings.NewReader(s), dialectOf(d)).Tokenize()
	return toks, errText(err)
}

func (o *outcome) parse(d int, s string) {
	p, err := xsqlparser.NewParser(strings.NewReader(s), dialectOf(d), xsqlparser.ParseComment())
	if err != nil {
		o.err = err.Error()
		return
	}
	f, err := p.ParseFile()
	if err != nil {
		o.err = errText(err)
		return
	}
	o.file = f
}

func (o *outcome) examine() {
	if o.file == nil {
		return
	}
	o.text = o.file.ToSQLString()
	sqlast.Inspect(o.file, func(n sqlast.Node) bool {
		if n != nil {
			o.walk = append(o.walk, nodeName(n))
		}
		return true
	})
	m := sqlast.NewCommentMap(o.file)
	for _, n := range inOrder(o.file, nil) {
		for _, c := range m[n] {
			o.notes = append(o.notes, nodeName(n)+": "+c.ToSQLString())
		}
	}
}

// swap replaces the nth name and adds another before every second one; a
// condition of a CASE stays alone with its result.
func swap(c *sqlastutil.Cursor, n int) {
	if _, ok := c.Parent().(*sqlast.CaseExpr); !ok && c.Index() >= 0 && n%2 == 0 {
		c.InsertBefore(sqlast.NewIdent("added"))
	}
	c.Replace(sqlast.NewIdent("other"))
}

// edits a tree in place and prints it.
func editedText(f *sqlast.File) string {
	n := 0
	sqlastutil.Apply(f, func(c *sqlastutil.Cursor) bool {
		if _, ok := c.Node().(*sqlast.Ident); ok {
			n++
			swap(c, n)
		}
		return true
	}, nil)
	return f.ToSQLString()
}

// process does everything that can be done with a text.
func process(d int, s string) *outcome {
	o := &outcome{}
	o.toks, o.lexErr = lexes(d, s)
	o.parse(d, s)
	o.examine()
	x := &outcome{}
	x.parse(d, s)
	if x.file != nil {
		o.edited = editedText(x.file)
	}
	return o
}

func (o *outcome) differs(x *outcome) string {
	switch {
	case o.lexErr != x.lexErr || !vsym.SamePos(o.toks, x.toks):
		return "tokens"
	case o.err != x.err:
		return "error"
	case !vsym.SamePos(o.file, x.file):
		return "tree"
	case o.text != x.text:
		return "text"
	case !vsym.Same(o.walk, x.walk):
		return "walk"
	case !vsym.Same(o.notes, x.notes):
		return "comments"
	case o.edited != x.edited:
		return "edited"
	}
	return ""
}

func reps() int {
	switch {
	case vsym.Symbolic():
		return 1
	case vsym.Verbose:
		return 300
	}
	return 3
}

// apart checks that two results have no changeable part in common.
func apart(a, b *outcome, key string) {
	bad := vsym.Shares(a.toks, b.toks) || vsym.Shares(a.file, b.file)
	vsym.Check(!bad, key)
}

// together runs work for each i of 0..n-1 at the same time, repeatedly.
func together(n, rounds int, work func(i int)) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	start := make(chan struct{})
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					vsym.Check(false, "concurrent:panic")
					vsym.Log("panic: %v", p)
					mu.Unlock()
				}
			}()
			<-start
			for i := 0; i < rounds; i++ {
				work((k + i) % n)
			}
		}(k)
	}
	close(start)
	wg.Wait()
}

// race lets real runs process the texts at the same time, before anything
// else has, and compares with what they give alone.
func race(d int, in ...string) {
	if vsym.Symbolic() || !vsym.Verbose {
		return
	}
	var mu sync.Mutex
	got := make([][]*outcome, len(in))
	together(len(in), 30, func(i int) {
		o := process(d, in[i])
		mu.Lock()
		got[i] = append(got[i], o)
		mu.Unlock()
	})
	for i, l := range got {
		want := process(d, in[i])
		for _, o := range l {
			if diff := want.differs(o); diff != "" {
				vsym.Check(false, "concurrent:"+diff)
				vsym.Log("at the same time: %v\n%s of %s differ", in, diff, in[i])
				return
			}
		}
	}
}

// unaffected processes a, and a again after b.
func unaffected(d int, a, b string) {
	race(d, a, b)
	vsym.Freeze()
	first := process(d, a)
	var other *outcome
	for i := 0; i < reps(); i++ {
		other = process(d, b)
		again := process(d, a)
		diff := first.differs(again)
		vsym.Check(diff == "", "history:"+diff)
		if i == 0 {
			apart(first, other, "shared-part:other")
			apart(first, again, "shared-part:again")
		}
		if diff != "" {
			vsym.Log("first: %s\nother: %s\n%s differ", a, b, diff)
			break
		}
	}
	vsym.Thaw()
	if first.err == "" {
		vsym.Reach("accepted")
	}
}

var otherTexts = []string{
	"Update x Set y = 'z', k = 1.5 -- note\nWHERE q IN (2, 3);",
	"select DISTINCT a AS b, \"c\".* from d left join e on d.f = e.f group by g -- h",
	"CREATE TABLE i (j numeric(5, 2) NOT NULL /* k */, UNIQUE (j))",
	"'open",
}

// noted is the source text of a generated statement list with comments.
func noted(g *G) string {
	l := annotated(g, 1, []int{0, 5})
	return l.src.String()
}

func otherText() string { return otherTexts[vsym.Concrete(vsym.Int(0, len(otherTexts)-1))] }

func S01History() {
	allStmts(depth(0, 1))(func(g *G, _ sqlast.Stmt) { unaffected(dGeneric, noted(g), otherText()) })
}

func s01(g *G, _ sqlast.Stmt) { unaffected(dGeneric, g.source(), otherTexts[0]) }
func S01Clauses()             { rootClauses(s01) }
func S01Factors()             { rootFactors(s01) }
func S01Exprs() {
	if vsym.Tier() > 0 {
		rootExprs(s01)
		return
	}
	g := newMask(1, kExpr|kList)
	s01(g, selectOf(g, g.expr, nil))
}

func S01Window() {
	if vsym.Tier() > 0 {
		rootWindow(s01)
		return
	}
	g := newMask(3, kOver|kFrame|kOrder|kList|kObj)
	s01(g, selectOf(g, func() sqlast.Node { g.depth++; return g.function() }, nil))
}

func S01Cols() {
	if vsym.Tier() > 0 {
		rootCols(s01)
		return
	}
	g := newMask(3, kCol)
	s01(g, g.createTable())
}

func S01Types()   { rootTypes(s01) }
func S01Changes() { rootChanges(s01) }

// S01Words: a text with any word, before and after one with another word.
func S01Words() {
	d := dGeneric
	if vsym.Tier() > 0 {
		d = symDialect()
	}
	wa := []byte(kwList[vsym.Concrete(vsym.Int(0, len(kwList)-1))])
	first, rest := byte(vsym.Int(0, 1))<<5, byte(vsym.Int(0, 1))<<5
	for i := range wa {
		if !isLetter(rune(wa[i])) {
			continue
		}
		switch {
		case vsym.Tier() > 0:
			wa[i] += byte(vsym.Int(0, 1)) << 5
		case i == 0:
			wa[i] += first
		default:
			wa[i] += rest
		}
	}
	wb := []byte("sElEcT")
	if vsym.Split(vsym.Bool()) {
		wb = append([]byte(nil), wa...)
		for i := range wb {
			if isLetter(rune(wb[i])) {
				wb[i] ^= 32
			}
		}
	}
	race(d, string(wa)+" x", string(wb)+" y")
	vsym.Freeze()
	a, e1 := lexes(d, string(wa)+" x")
	b, _ := lexes(d, string(wb)+" y")
	c, e2 := lexes(d, string(wa)+" x")
	vsym.Thaw()
	vsym.Check(e1 == e2 && vsym.SamePos(a, c), "history:tokens")
	vsym.Check(!vsym.Shares(a, c), "shared-part:again")
	vsym.Check(!vsym.Shares(a, b), "shared-part:other")
	vsym.Check(!vsym.Shares(c, b), "shared-part:other")
}

// S01Values: any literal values.
func S01Values() {
	d := dGeneric
	one := func() string {
		switch vsym.Concrete(vsym.Int(0, 2)) {
		case 0:
			return "'" + string(symSmallText()) + "'"
		case 1:
			return string('0'+byte(vsym.Int(0, 9))) + "." + string('0'+byte(vsym.Int(0, 9)))
		}
		return string('a'+byte(vsym.Int(0, 25))) + string('0'+byte(vsym.Int(0, 9)))
	}
	other := "'zz', 7.5, y"
	a := one()
	if vsym.Tier() > 0 {
		other = one()
	}
	unaffected(d, "SELECT "+a, "SELECT "+other)
}

func symSmallText() []byte {
	b := make([]byte, depth(1, 2))
	for i := range b {
		b[i] = vsym.Byte()
		vsym.Assume(b[i] >= ' ' && b[i] < 0x7f && b[i] != '\'')
	}
	return b
}

// ---- interleaved uses ----

type stepper interface{ step() bool }

type tokenStepper struct {
	t    *sqltoken.Tokenizer
	toks []*sqltoken.Token
	err  string
}

func (s *tokenStepper) step() bool {
	t, err := s.t.NextToken()
	if err != nil {
		if err != io.EOF {
			s.err = err.Error()
		}
		return false
	}
	s.toks = append(s.toks, t)
	return true
}

func newTokenStepper(d int, s string) *tokenStepper {
	return &tokenStepper{t: sqltoken.NewTokenizer(strings.NewReader(s), dialectOf(d))}
}

type stmtStepper struct {
	p    *xsqlparser.Parser
	l    []sqlast.Stmt
	text []string
	err  string
}

func (s *stmtStepper) step() bool {
	st, err := s.p.ParseStatement()
	if err != nil {
		s.err = err.Error()
		return false
	}
	s.l = append(s.l, st)
	s.text = append(s.text, st.ToSQLString())
	return true
}

func newStmtStepper(d int, s string) *stmtStepper {
	p, err := xsqlparser.NewParser(strings.NewReader(s), dialectOf(d))
	if err != nil {
		return &stmtStepper{err: err.Error()}
	}
	return &stmtStepper{p: p}
}

// schedule runs two uses in any order.
func schedule(a, b stepper, steps int) {
	left := [2]int{steps, steps}
	live := [2]bool{true, true}
	u := [2]stepper{a, b}
	for live[0] || live[1] {
		k := 0
		if live[0] && live[1] {
			if vsym.Split(vsym.Bool()) {
				k = 1
			}
		} else if live[1] {
			k = 1
		}
		left[k]--
		live[k] = u[k].step() && left[k] > 0
	}
}

var shortTexts = []string{
	"a-- b\n1",
	"/*c*/'d''e'\n f",
	"\"g h\".i<>2.5",
	"select 'j",
	"[k]||::",
}

// S01Tokens: two tokenizers taking turns.
func S01Tokens() {
	d, d2 := symDialect(), symDialect()
	sa := shortTexts[vsym.Concrete(vsym.Int(0, len(shortTexts)-1))]
	sb := shortTexts[vsym.Concrete(vsym.Int(0, len(shortTexts)-1))]
	race(d, sa, sb)
	vsym.Freeze()
	a, b := newTokenStepper(d, sa), newTokenStepper(d2, sb)
	schedule(a, b, depth(4, 6))
	wa := newTokenStepper(d, sa)
	for i := 0; i < depth(4, 6) && wa.step(); i++ {
	}
	wb := newTokenStepper(d2, sb)
	for i := 0; i < depth(4, 6) && wb.step(); i++ {
	}
	vsym.Thaw()
	ok := a.err == wa.err && vsym.SamePos(a.toks, wa.toks) && b.err == wb.err && vsym.SamePos(b.toks, wb.toks)
	vsym.Check(ok, "interleaved:tokens")
	vsym.Check(!vsym.Shares(a.toks, b.toks) && !vsym.Shares(a.toks, wa.toks), "shared-part:tokens")
}

// S01Statements: two parsers, each of a statement, one created before or
// after the other has parsed, in any order.
func S01Statements() {
	kinds := depth(1, 9)
	one := func() string {
		g := newG(0)
		g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
		return g.source()
	}
	other := func() string {
		g := newG(0)
		g.stmtN(vsym.Concrete(vsym.Int(0, kinds)))
		return g.source()
	}
	sa, sb := one(), other()
	vsym.Freeze()
	a, b := newStmtStepper(dGeneric, sa), newStmtStepper(dGeneric, sb)
	schedule(a, b, 1)
	wa := newStmtStepper(dGeneric, sa)
	wa.step()
	wb := newStmtStepper(dGeneric, sb)
	wb.step()
	vsym.Thaw()
	ok := a.err == wa.err && b.err == wb.err && vsym.SamePos(a.l, wa.l) && vsym.SamePos(b.l, wb.l) && vsym.Same(a.text, wa.text) && vsym.Same(b.text, wb.text)
	vsym.Check(ok, "interleaved:statements")
	vsym.Check(!vsym.Shares(a.l, b.l) && !vsym.Shares(a.l, wa.l) && !vsym.Shares(b.l, wb.l), "shared-part:statements")
}

// ---- uses inside callbacks ----

type busyWriter struct {
	at   int
	work func()
	text []byte
}

func (w *busyWriter) Write(b []byte) (int, error) {
	if w.at == 0 {
		w.work()
	}
	w.at--
	w.text = append(w.text, b...)
	return len(b), nil
}

type busyReader struct {
	s    string
	at   int
	work func()
}

func (r *busyReader) Read(b []byte) (int, error) {
	if r.at == 0 {
		r.work()
	}
	r.at--
	if len(r.s) == 0 {
		return 0, io.EOF
	}
	n := copy(b[:1], r.s)
	r.s = r.s[n:]
	return n, nil
}

// S01Inside: everything is done with another text in the middle of an
// operation: while the source is read, in the middle of printing, walking and
// rewriting.
func S01Inside() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	s := g.source()
	o := otherTexts[vsym.Concrete(vsym.Int(0, depth(1, len(otherTexts)-1)))]
	mode := vsym.Concrete(vsym.Int(0, 3))
	vsym.Freeze()
	want := process(dGeneric, s)
	wantO := process(dGeneric, o)
	var gotO *outcome
	work := func() { gotO = process(dGeneric, o) }
	same := true
	switch mode {
	case 0:
		at := vsym.Concrete(vsym.Int(0, len(s)))
		t := sqltoken.NewTokenizer(&busyReader{s: s, at: at, work: work}, dialectOf(dGeneric))
		toks, err := t.Tokenize()
		same = errText(err) == want.lexErr && vsym.SamePos(toks, want.toks)
	case 1:
		w := &busyWriter{work: work, at: vsym.Concrete(vsym.Int(0, len(want.toks)))}
		want.file.WriteTo(w)
		same = string(w.text) == want.text
	case 2:
		at := vsym.Concrete(vsym.Int(0, len(want.walk)))
		var l []string
		sqlast.Inspect(want.file, func(n sqlast.Node) bool {
			if n != nil {
				if len(l) == at {
					work()
				}
				l = append(l, nodeName(n))
			}
			return true
		})
		same = vsym.Same(l, want.walk)
	case 3:
		at := vsym.Concrete(vsym.Int(0, len(want.walk)))
		x := process(dGeneric, s)
		n := 0
		k := 0
		sqlastutil.Apply(x.file, func(c *sqlastutil.Cursor) bool {
			if k == at {
				work()
			}
			k++
			if _, ok := c.Node().(*sqlast.Ident); ok {
				n++
				swap(c, n)
			}
			return true
		}, nil)
		same = x.file.ToSQLString() == want.edited
	}
	vsym.Thaw()
	vsym.Check(same, "inside:outer")
	vsym.Check(gotO == nil || wantO.differs(gotO) == "", "inside:inner")
	if gotO != nil {
		vsym.Reach("inside")
		apart(gotO, want, "shared-part:other")
	}
	if !vsym.Symbolic() && !same {
		vsym.Log("outer: %s\ninner: %s\nmode %d", s, o, mode)
	}
}

// ---- map iteration order ----

// S01Maps: maps of the library may be iterated in any order.
func S01Maps() {
	g := newG(depth(0, 1))
	g.stmtN(vsym.Concrete(vsym.Int(0, 9)))
	s := annotated(g, 1, []int{5, 7}).src.String()
	first := process(dGeneric, s)
	vsym.MapNondet(true)
	for i := 0; i < reps(); i++ {
		again := process(dGeneric, s)
		diff := first.differs(again)
		vsym.Check(diff == "", "map-order:"+diff)
		if diff != "" {
			vsym.Log("source: %s\n%s differ", s, diff)
			break
		}
	}
	vsym.MapNondet(false)
}

// S01Tables checks that the word tables stay as they are.
func S01Tables() {
	w := []byte{vsym.Byte(), vsym.Byte()}
	for _, c := range w {
		vsym.Assume(isLetter(rune(c)))
	}
	n := [3]int{len(dialect.Keywords), len(dialect.ReservedForTableAlias), len(dialect.ReservedForColumnAlias)}
	process(dGeneric, "SELECT a "+string(w)+" FROM b "+string(w))
	vsym.Check(n == [3]int{len(dialect.Keywords), len(dialect.ReservedForTableAlias), len(dialect.ReservedForColumnAlias)}, "word-tables")
}

func init() {
	const what = "; tokens, tree, positions, text, traversal, comment map and edited text before and after, no shared parts, no write to package-level state"
	reg(
		H{Prop: "S01", Name: "S01.history", Fn: S01History, Race: true, Bounds: "every statement kind with up to 0/1 deviations and one comment at any place, then each of 4 other texts" + what},
		H{Prop: "S01", Name: "S01.clauses", Fn: S01Clauses, Race: true, Bounds: bClauses + "; then another text" + what},
		H{Prop: "S01", Name: "S01.tables", Fn: S01Factors, Race: true, Bounds: bFactors + "; then another text" + what},
		H{Prop: "S01", Name: "S01.exprs", Fn: S01Exprs, Race: true, Bounds: "quick: one select item, any expression form; thorough: " + bExprs + "; then another text" + what},
		H{Prop: "S01", Name: "S01.window", Fn: S01Window, Race: true, Bounds: "quick: a function with up to 3 deviations; thorough: " + bWindow + "; then another text" + what},
		H{Prop: "S01", Name: "S01.columns", Fn: S01Cols, Race: true, Bounds: "quick: CREATE TABLE, a column with up to 3 deviations; thorough: " + bCols + "; then another text" + what},
		H{Prop: "S01", Name: "S01.types", Fn: S01Types, Race: true, Bounds: bTypes + "; then another text" + what},
		H{Prop: "S01", Name: "S01.changes", Fn: S01Changes, Race: true, Bounds: bChanges + "; then another text" + what},
		H{Prop: "S01", Name: "S01.words", Fn: S01Words, Race: true, Bounds: "every keyword, its first letter in either case and the rest in either case (thorough: every mixture), lexed before and after another word or the same word with all cases swapped; generic/every dialect"},
		H{Prop: "S01", Name: "S01.values", Fn: S01Values, Race: true, Bounds: "SELECT of any string of 1/2 ASCII characters, any d.d number, any word of a letter and a digit, before and after others (thorough: any such)" + what},
		H{Prop: "S01", Name: "S01.turns", Fn: S01Tokens, Race: true, Bounds: "two tokenizers over 5 short texts and every dialect, up to 4/6 tokens each, every order of NextToken calls"},
		H{Prop: "S01", Name: "S01.parsers", Fn: S01Statements, Race: true, Bounds: "two parsers of a statement of any kind and one of 2/10 kinds, every order"},
		H{Prop: "S01", Name: "S01.inside", Fn: S01Inside, Race: true, Bounds: "every statement kind with up to 0/1 deviations; another text is processed in the middle of reading (at any byte), printing (at any write), walking or rewriting (at any node)"},
		H{Prop: "S01", Name: "S01.maps", Fn: S01Maps, Race: true, Bounds: "every statement kind with up to 0/1 deviations and one comment group at any place; maps with up to 5 entries iterated in every order"},
		H{Prop: "S01", Name: "S01.wordtables", Fn: S01Tables, Bounds: "any two-letter word in two places of a query"},
	)
}
