package hs

import (
	"github.com/akito0107/xsqlparser/sqlast"

	"vh/vsym"
)

// Writing trees to writers that fail (A04).

type writeErr struct{}

func (writeErr) Error() string { return "write failed" }

var errWrite error = &writeErr{}

// sink accepts limit bytes.
type sink struct {
	limit  int
	full   bool // the failing call accepts all it gets
	text   []byte
	failed bool
	after  bool // called after failing
}

func (w *sink) take(s string) (int, error) {
	if w.failed {
		w.after = true
		return 0, errOther
	}
	n := len(s)
	if w.limit < 0 || len(w.text)+n <= w.limit {
		w.text = append(w.text, s...)
		return n, nil
	}
	w.failed = true
	if !w.full {
		n = w.limit - len(w.text)
	}
	// the number of accepted bytes decides the path
	n = vsym.Concrete(n)
	w.text = append(w.text, s[:n]...)
	return n, errWrite
}

// plain takes bytes only.
type plainSink struct{ s *sink }

func (w plainSink) Write(b []byte) (int, error) { return w.s.take(string(b)) }

// stringSink takes strings as well.
type stringSink struct{ s *sink }

func (w stringSink) Write(b []byte) (int, error)       { return w.s.take(string(b)) }
func (w stringSink) WriteString(t string) (int, error) { return w.s.take(t) }

func writes(n sqlast.Node, limit int, full, str bool) {
	w := &sink{limit: limit, full: full}
	var c int64
	var err error
	if str {
		c, err = n.WriteTo(stringSink{w})
	} else {
		c, err = n.WriteTo(plainSink{w})
	}
	text := n.ToSQLString()
	ok := int(c) == len(w.text)
	vsym.Check(ok, "count")
	e := err == nil && !w.failed || w.failed && err == errWrite
	vsym.Check(e, "error")
	vsym.Check(!w.after, "written-after-failure")
	t := string(w.text) == text
	if w.failed {
		t = len(w.text) <= len(text) && string(w.text) == text[:len(w.text)]
	}
	vsym.Check(t, "text")
	if !vsym.Symbolic() && !(ok && e && t && !w.after) {
		vsym.Log("tree: %s\nlimit %d, accepts all of the failing call: %v, string writer: %v\nwritten: %s\nresult: %d, %v", text, limit, full, str, w.text, c, err)
	}
}

func textLen(n sqlast.Node) int { return len(n.ToSQLString()) }

func a04(g *G, s sqlast.Stmt) {
	writes(s, vsym.Int(-1, textLen(s)-1), vsym.Bool(), vsym.Split(vsym.Bool()))
}

func a04Plain(g *G, s sqlast.Stmt) { writes(s, -1, false, vsym.Split(vsym.Bool())) }

func A04Each() {
	b := &B{max: 2}
	n := anyNode(b, true)
	writes(n, vsym.Int(-1, textLen(n)-1), vsym.Bool(), vsym.Split(vsym.Bool()))
}

func A04File() {
	g := newG(0)
	f := &sqlast.File{}
	for i := vsym.Concrete(vsym.Int(0, depth(2, 3))); i > 0; i-- {
		f.Stmts = append(f.Stmts, g.stmtN(vsym.Concrete(vsym.Int(0, 9))))
	}
	writes(f, vsym.Int(-1, textLen(f)-1), vsym.Bool(), vsym.Split(vsym.Bool()))
}

func A04Clauses() { rootClauses(a04Plain) }
func A04Query()   { rootQuery(a04Plain) }
func A04Changes() { rootChanges(a04Plain) }
func A04Schema()  { rootSchema(a04Plain) }
func A04Window()  { rootWindow(a04Plain) }
func A04Exprs()   { rootExprs(a04Plain) }

// A04Fail fails statements of every kind.
func A04Fail() {
	g := newG(depth(1, 2))
	a04(g, g.stmtN(vsym.Concrete(vsym.Int(0, 9))))
}

func init() {
	const f = "; the writer fails at any byte or never, accepting part or all of the failing call, with and without WriteString"
	const p = "; the writer never fails, with and without WriteString"
	reg(
		H{Prop: "A04", Name: "A04.each", Fn: A04Each, Bounds: bEach + " (date and time values excepted)" + f},
		H{Prop: "A04", Name: "A04.file", Fn: A04File, Bounds: "files of up to 2/3 statements of every kind" + f},
		H{Prop: "A04", Name: "A04.fail", Fn: A04Fail, Bounds: "statements of every kind, 1/2 deviations" + f},
		H{Prop: "A04", Name: "A04.query", Fn: A04Query, Bounds: bQuery + p},
		H{Prop: "A04", Name: "A04.clauses", Fn: A04Clauses, Bounds: bClauses + p},
		H{Prop: "A04", Name: "A04.window", Fn: A04Window, Bounds: bWindow + p},
		H{Prop: "A04", Name: "A04.exprs", Fn: A04Exprs, Bounds: bExprs + p},
		H{Prop: "A04", Name: "A04.changes", Fn: A04Changes, Bounds: bChanges + p},
		H{Prop: "A04", Name: "A04.schema", Fn: A04Schema, Bounds: bSchema + p},
	)
}
