package hs

import (
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"

	"vh/vsym"
)

// Trees as their exported fields show them, and the traversals.

// kid is a present part of a node.
type kid struct {
	name string
	i    int // list index, or -1
	n    sqlast.Node
}

// fields whose source order is not the order of declaration
var fieldOrder = map[string][]string{
	"File":                   {"Stmts"}, // comments are no parts of the tree
	"SetOperationExpr":       {"Left", "Op", "Right"},
	"CaseExpr":               {"Operand", "Conditions", "Results", "ElseResult"},
	"Table":                  {"Name", "Args", "Alias", "WithHints"},
	"CreateIndexStmt":        {"IndexName", "TableName", "MethodName", "ColumnNames", "Selection"},
	"AlterColumnTableAction": {"ColumnName", "Action"},
}

func nodeOf(v reflect.Value) (sqlast.Node, bool) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil, false
		}
		n, ok := v.Interface().(sqlast.Node)
		return n, ok
	}
	return nil, false
}

// kids lists the present parts of a node in source order. The parts of a CASE
// are its conditions, then its results.
func kids(n sqlast.Node) []kid {
	v := reflect.Indirect(reflect.ValueOf(n))
	if v.Kind() != reflect.Struct {
		return nil
	}
	t := v.Type()
	var l []kid
	add := func(name string, f reflect.Value) {
		if f.Kind() == reflect.Slice {
			for i := 0; i < f.Len(); i++ {
				if c, ok := nodeOf(f.Index(i)); ok {
					l = append(l, kid{name, i, c})
				}
			}
			return
		}
		if c, ok := nodeOf(f); ok {
			l = append(l, kid{name, -1, c})
		}
	}
	if o, ok := fieldOrder[t.Name()]; ok {
		for _, name := range o {
			add(name, v.FieldByName(name))
		}
		return l
	}
	for i := 0; i < v.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		if f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Ptr || f.Type.Kind() == reflect.Interface {
			add(f.Name, v.Field(i))
		}
	}
	return l
}

// interleaved puts each result of a CASE behind its condition.
func interleaved(n sqlast.Node, l []kid) []kid {
	if _, ok := n.(*sqlast.CaseExpr); !ok {
		return l
	}
	var out, rest []kid
	for _, k := range l {
		switch k.name {
		case "Operand":
			out = append(out, k)
		case "Conditions":
			out = append(out, k)
			for _, r := range l {
				if r.name == "Results" && r.i == k.i {
					out = append(out, r)
				}
			}
		case "ElseResult":
			rest = append(rest, k)
		}
	}
	return append(out, rest...)
}

func countNodes(n sqlast.Node) int {
	c := 1
	for _, k := range kids(n) {
		c += countNodes(k.n)
	}
	return c
}

// ---- Walk ----

// wev is one call of a visitor: the node it got, and the node whose visitor
// was called.
type wev struct {
	n, of sqlast.Node
}

type walker struct {
	evs     []wev
	decline int // calls with a node until one is declined
	second  int
	calls   int
}

type wvisitor struct {
	w  *walker
	of sqlast.Node
}

func (v *wvisitor) Visit(n sqlast.Node) sqlast.Visitor {
	v.w.evs = append(v.w.evs, wev{n, v.of})
	if n == nil {
		return nil
	}
	v.w.calls++
	if v.w.calls-1 == v.w.decline || v.w.calls-1 == v.w.second {
		return nil
	}
	return &wvisitor{v.w, n}
}

func wantWalk(n, of sqlast.Node, w *walker) {
	w.evs = append(w.evs, wev{n, of})
	w.calls++
	if w.calls-1 == w.decline || w.calls-1 == w.second {
		return
	}
	for _, k := range interleaved(n, kids(n)) {
		wantWalk(k.n, n, w)
	}
	w.evs = append(w.evs, wev{nil, n})
}

func nodeName(n sqlast.Node) string {
	if n == nil {
		return "nil"
	}
	return reflect.TypeOf(n).String()
}

func logWalk(evs []wev) {
	for _, e := range evs {
		vsym.Log("  visitor of %s gets %s", nodeName(e.of), nodeName(e.n))
	}
}

// walks compares a walk of n with its parts.
func walks(n sqlast.Node, decline, second int) {
	got, want := &walker{decline: decline, second: second}, &walker{decline: decline, second: second}
	wantWalk(n, nil, want)
	sqlast.Walk(&wvisitor{got, nil}, n)
	ok := len(got.evs) == len(want.evs)
	for i := 0; ok && i < len(got.evs); i++ {
		ok = got.evs[i] == want.evs[i]
	}
	vsym.Check(ok, "walk")
	if !vsym.Symbolic() && !ok {
		vsym.Log("tree: %s, declined: %d, %d\ngot:", sqlOf(n), decline, second)
		logWalk(got.evs)
		vsym.Log("want:")
		logWalk(want.evs)
	}
}

// inspects compares an inspection of n with its parts.
func inspects(n sqlast.Node, decline int) {
	want := &walker{decline: decline, second: -1}
	wantWalk(n, nil, want)
	i, calls, ok := 0, 0, true
	sqlast.Inspect(n, func(x sqlast.Node) bool {
		if i >= len(want.evs) || want.evs[i].n != x {
			ok = false
		}
		i++
		if x == nil {
			return true
		}
		calls++
		return calls-1 != decline
	})
	ok = ok && i == len(want.evs)
	vsym.Check(ok, "inspect")
	if !vsym.Symbolic() && !ok {
		vsym.Log("tree: %s, declined: %d", sqlOf(n), decline)
	}
}

// sawNames checks the order of the names against the order they have in the
// source.
func sawNames(g *G, n sqlast.Node) {
	var l []*sqlast.Ident
	sqlast.Inspect(n, func(x sqlast.Node) bool {
		if id, ok := x.(*sqlast.Ident); ok {
			l = append(l, id)
		}
		return true
	})
	// names in the order of the canonical rendering, which is the order of
	// the source but for the parts of a column
	names := append([]nameRef{}, g.names...)
	for i := 1; i < len(names); i++ {
		for j := i; j > 0 && names[j].out < names[j-1].out; j-- {
			names[j], names[j-1] = names[j-1], names[j]
		}
	}
	ok := len(l) == len(names)
	for i := 0; ok && i < len(l); i++ {
		ok = l[i] == names[i].node
	}
	vsym.Check(ok, "names-in-source-order")
	if !vsym.Symbolic() && !ok {
		vsym.Log("tree: %s", sqlOf(n))
	}
}

// a01 walks a generated tree with no and with one declined node.
func a01(g *G, s sqlast.Stmt) {
	d := vsym.Int(-1, countNodes(s)-1)
	walks(s, d, -1)
	inspects(s, d)
	sawNames(g, s)
}

func a01Plain(g *G, s sqlast.Stmt) {
	walks(s, -1, -1)
	inspects(s, -1)
	sawNames(g, s)
}

func A01Each() {
	b := &B{max: depth(2, 3)}
	n := anyNode(b, true)
	c := countNodes(n)
	d := vsym.Int(-1, c-1)
	e := -1
	if vsym.Tier() > 0 {
		e = vsym.Int(-1, c-1)
	}
	walks(n, d, e)
	inspects(n, d)
}

func A01File() {
	g := newMask(depth(1, 2), kList|kExpr)
	f := &sqlast.File{}
	for i := vsym.Concrete(vsym.Int(0, depth(2, 3))); i > 0; i-- {
		f.Stmts = append(f.Stmts, g.stmtN(vsym.Concrete(vsym.Int(0, 2))))
	}
	for i := vsym.Concrete(vsym.Int(0, 1)); i > 0; i-- {
		f.Comments = append(f.Comments, &sqlast.CommentGroup{List: []*sqlast.Comment{{Text: "c"}}})
	}
	d := vsym.Int(-1, countNodes(f)-1)
	walks(f, d, -1)
	inspects(f, d)
}

func A01Query()   { rootQuery(a01Plain) }
func A01Clauses() { rootClauses(a01) }
func A01Joins()   { rootJoins(a01Plain) }
func A01Factors() { rootFactors(a01Plain) }
func A01Window()  { rootWindow(a01Plain) }
func A01Sets()    { rootSets(a01Plain) }
func A01Exprs()   { rootExprs(a01Plain) }
func A01Changes() { rootChanges(a01) }
func A01Schema()  { rootSchema(a01Plain) }
func A01Elems()   { rootElems(a01Plain) }

// ---- Apply ----

// cev is one call of a pre or post function.
type cev struct {
	post bool
	n    sqlast.Node
	name string
	i    int
	of   sqlast.Node
}

type applier struct {
	evs     []cev
	decline int
	stop    int
	pre     int
	post    int
	stopped bool
}

func (a *applier) wantApply(n sqlast.Node, name string, i int, of sqlast.Node) {
	a.evs = append(a.evs, cev{false, n, name, i, of})
	a.pre++
	if a.pre-1 == a.decline {
		return
	}
	for _, k := range kids(n) {
		a.wantApply(k.n, k.name, k.i, n)
		if a.stopped {
			return
		}
	}
	a.evs = append(a.evs, cev{true, n, name, i, of})
	a.post++
	if a.post-1 == a.stop {
		a.stopped = true
	}
}

func (a *applier) onPre(c *sqlastutil.Cursor) bool {
	a.evs = append(a.evs, cev{false, c.Node(), c.Name(), c.Index(), c.Parent()})
	a.pre++
	return a.pre-1 != a.decline
}

func (a *applier) onPost(c *sqlastutil.Cursor) bool {
	a.evs = append(a.evs, cev{true, c.Node(), c.Name(), c.Index(), c.Parent()})
	a.post++
	return a.post-1 != a.stop
}

func logApply(evs []cev) {
	for _, e := range evs {
		vsym.Log("  post=%v %s is %s[%d] of %s", e.post, nodeName(e.n), e.name, e.i, nodeName(e.of))
	}
}

// shape is every node of a tree with its parts.
func shape(n sqlast.Node, l []cev) []cev {
	for _, k := range kids(n) {
		l = append(l, cev{false, k.n, k.name, k.i, n})
		l = shape(k.n, l)
	}
	return l
}

func sameShape(a, b []cev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// which functions are given
const (
	both = iota
	preOnly
	postOnly
)

func applies(n sqlast.Node, decline, stop, mode int) {
	want := &applier{decline: decline, stop: stop}
	got := &applier{decline: decline, stop: stop}
	switch mode {
	case preOnly:
		want.stop, got.stop = -1, -1
	case postOnly:
		want.decline, got.decline = -1, -1
	}
	want.wantApply(n, "Node", -1, nil)
	before := shape(n, nil)
	var r sqlast.Node
	switch mode {
	case both:
		r = sqlastutil.Apply(n, got.onPre, got.onPost)
	case preOnly:
		r = sqlastutil.Apply(n, got.onPre, nil)
	case postOnly:
		r = sqlastutil.Apply(n, nil, got.onPost)
	}
	vsym.Check(r == n, "root")
	vsym.Check(sameShape(before, shape(n, nil)), "unchanged")
	var l []cev
	for _, e := range want.evs {
		if mode == both || e.post == (mode == postOnly) {
			l = append(l, e)
		}
	}
	ok := len(l) == len(got.evs)
	for i := 0; ok && i < len(l); i++ {
		w, o := l[i], got.evs[i]
		if w.of == nil {
			o.of = nil // the parent of the root is of no known type
		}
		ok = w == o
	}
	vsym.Check(ok, "apply")
	if !vsym.Symbolic() && !ok {
		vsym.Log("tree: %s, declined: %d, stopped after: %d, mode %d\ngot:", sqlOf(n), decline, stop, mode)
		logApply(got.evs)
		vsym.Log("want:")
		logApply(l)
	}
}

func a02(g *G, s sqlast.Stmt) {
	n := countNodes(s)
	if vsym.Split(vsym.Bool()) {
		applies(s, vsym.Int(-1, n-1), -1, both)
	} else {
		applies(s, -1, vsym.Int(0, n-1), both)
	}
}

func a02Plain(g *G, s sqlast.Stmt) { applies(s, -1, -1, both) }

func A02Each() {
	b := &B{max: 2}
	n := anyNode(b, true)
	c := countNodes(n)
	d, e := vsym.Int(-1, c-1), -1
	if vsym.Tier() > 0 {
		e = vsym.Int(-1, c-1)
	} else if vsym.Split(vsym.Bool()) {
		d, e = e, d
	}
	applies(n, d, e, vsym.Concrete(vsym.Int(0, 2)))
}

func A02File() {
	g := newMask(depth(1, 2), kList|kExpr)
	f := &sqlast.File{}
	for i := vsym.Concrete(vsym.Int(0, depth(2, 3))); i > 0; i-- {
		f.Stmts = append(f.Stmts, g.stmtN(vsym.Concrete(vsym.Int(0, 2))))
	}
	c := countNodes(f)
	applies(f, vsym.Int(-1, c-1), -1, both)
}

func A02Query()   { rootQuery(a02Plain) }
func A02Clauses() { rootClauses(a02) }
func A02Joins()   { rootJoins(a02Plain) }
func A02Factors() { rootFactors(a02Plain) }
func A02Window()  { rootWindow(a02Plain) }
func A02Sets()    { rootSets(a02Plain) }
func A02Exprs()   { rootExprs(a02Plain) }
func A02Changes() { rootChanges(a02) }
func A02Schema()  { rootSchema(a02Plain) }
func A02Elems()   { rootElems(a02Plain) }

const (
	bEach = "one node of each of the node types, every combination of its optional parts, lists of up to 2/3, leaf children"
	bDecl = ", one declined node anywhere or none"
	bStop = ", one declined node or one stopping point anywhere, or none"
)

func init() {
	reg(
		H{Prop: "A01", Name: "A01.each", Fn: A01Each, Bounds: bEach + ", one/two declined nodes anywhere"},
		H{Prop: "A01", Name: "A01.file", Fn: A01File, Bounds: "files of up to 2/3 statements with and without comments" + bDecl},
		H{Prop: "A01", Name: "A01.query", Fn: A01Query, Bounds: bQuery},
		H{Prop: "A01", Name: "A01.clauses", Fn: A01Clauses, Bounds: bClauses + bDecl},
		H{Prop: "A01", Name: "A01.joins", Fn: A01Joins, Bounds: bJoins},
		H{Prop: "A01", Name: "A01.tables", Fn: A01Factors, Bounds: bFactors},
		H{Prop: "A01", Name: "A01.window", Fn: A01Window, Bounds: bWindow},
		H{Prop: "A01", Name: "A01.sets", Fn: A01Sets, Bounds: bSets},
		H{Prop: "A01", Name: "A01.exprs", Fn: A01Exprs, Bounds: bExprs},
		H{Prop: "A01", Name: "A01.changes", Fn: A01Changes, Bounds: bChanges + bDecl},
		H{Prop: "A01", Name: "A01.schema", Fn: A01Schema, Bounds: bSchema},
		H{Prop: "A01", Name: "A01.elements", Fn: A01Elems, Bounds: bElems},
		H{Prop: "A02", Name: "A02.each", Fn: A02Each, Bounds: bEach + bStop + ", with and without either function"},
		H{Prop: "A02", Name: "A02.file", Fn: A02File, Bounds: "files of up to 2/3 statements" + bDecl},
		H{Prop: "A02", Name: "A02.query", Fn: A02Query, Bounds: bQuery},
		H{Prop: "A02", Name: "A02.clauses", Fn: A02Clauses, Bounds: bClauses + bStop},
		H{Prop: "A02", Name: "A02.joins", Fn: A02Joins, Bounds: bJoins},
		H{Prop: "A02", Name: "A02.tables", Fn: A02Factors, Bounds: bFactors},
		H{Prop: "A02", Name: "A02.window", Fn: A02Window, Bounds: bWindow},
		H{Prop: "A02", Name: "A02.sets", Fn: A02Sets, Bounds: bSets},
		H{Prop: "A02", Name: "A02.exprs", Fn: A02Exprs, Bounds: bExprs},
		H{Prop: "A02", Name: "A02.changes", Fn: A02Changes, Bounds: bChanges + bStop},
		H{Prop: "A02", Name: "A02.schema", Fn: A02Schema, Bounds: bSchema},
		H{Prop: "A02", Name: "A02.elements", Fn: A02Elems, Bounds: bElems},
	)
}
