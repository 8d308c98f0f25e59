package hs

import (
	"reflect"

	"github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqlastutil"

	"vh/vsym"
)

// Edits through a rewrite cursor (A03).

// edit is what is done at one node: insertions before it and behind it, and
// then its replacement or deletion.
type edit struct {
	at     int // number of the node in visiting order
	post   bool
	before int
	after  int
	kind   int  // 0: nothing, 1: Replace, 2: Delete
	early  bool // Delete precedes the insertions before it
}

func fresh(like sqlast.Node) sqlast.Node {
	return reflect.New(reflect.TypeOf(like).Elem()).Interface().(sqlast.Node)
}

// place is a field of a node.
type fieldAt struct {
	of   sqlast.Node
	name string
}

type model struct {
	edits []*edit
	calls int
	pre   []sqlast.Node
	post  []sqlast.Node
	ok    bool

	// per field of the original tree, what it holds in the end
	lists map[fieldAt][]sqlast.Node
	order []fieldAt
	tops  []sqlast.Node // original nodes in visiting order
}

func (m *model) collect(n sqlast.Node) {
	m.tops = append(m.tops, n)
	for _, k := range kids(n) {
		f := fieldAt{n, k.name}
		if _, ok := m.lists[f]; !ok {
			m.order = append(m.order, f)
		}
		m.lists[f] = append(m.lists[f], k.n)
		m.collect(k.n)
	}
}

func indexOf(l []sqlast.Node, n sqlast.Node) int {
	for i, x := range l {
		if x == n {
			return i
		}
	}
	return -1
}

func (m *model) insert(f fieldAt, i int, n sqlast.Node) {
	l := append([]sqlast.Node{}, m.lists[f][:i]...)
	l = append(l, n)
	m.lists[f] = append(l, m.lists[f][i:]...)
}

// perform does the edit through the cursor and on the model.
func (m *model) perform(c *sqlastutil.Cursor, e *edit, top bool) {
	n := c.Node()
	f := fieldAt{c.Parent(), c.Name()}
	inList := c.Index() >= 0
	at := func() int { return indexOf(m.lists[f], n) }
	gone := -1
	drop := func() {
		gone = at()
		c.Delete()
		m.lists[f] = append(append([]sqlast.Node{}, m.lists[f][:gone]...), m.lists[f][gone+1:]...)
	}
	if inList && e.kind == 2 && e.early {
		drop()
	}
	if inList {
		for i := 0; i < e.before; i++ {
			x := fresh(n)
			c.InsertBefore(x)
			if gone >= 0 {
				m.insert(f, gone, x)
				gone++
			} else {
				m.insert(f, at(), x)
			}
		}
		if gone < 0 {
			for i := 0; i < e.after; i++ {
				x := fresh(n)
				c.InsertAfter(x)
				m.insert(f, at()+1, x)
			}
		}
	}
	switch e.kind {
	case 1:
		x := fresh(n)
		c.Replace(x)
		if top {
			m.tops[0] = x
		} else {
			m.lists[f][at()] = x
		}
	case 2:
		if inList && gone < 0 {
			drop()
		}
	}
}

func (m *model) edit(c *sqlastutil.Cursor, post bool) bool {
	n := c.Node()
	i := indexOf(m.tops, n)
	for _, e := range m.edits {
		if e.post == post && e.at == i {
			m.perform(c, e, i == 0)
		}
	}
	return true
}

func (m *model) onPre(c *sqlastutil.Cursor) bool {
	m.pre = append(m.pre, c.Node())
	return m.edit(c, false)
}

func (m *model) onPost(c *sqlastutil.Cursor) bool {
	m.post = append(m.post, c.Node())
	return m.edit(c, true)
}

func postOrder(n sqlast.Node, l []sqlast.Node) []sqlast.Node {
	for _, k := range kids(n) {
		l = postOrder(k.n, l)
	}
	return append(l, n)
}

func sameNodes(a, b []sqlast.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// held is what a field holds now.
func held(f fieldAt) []sqlast.Node {
	var l []sqlast.Node
	for _, k := range kids(f.of) {
		if k.name == f.name {
			l = append(l, k.n)
		}
	}
	return l
}

func fieldCount(n sqlast.Node) int {
	c, last := 0, ""
	for _, k := range kids(n) {
		if k.name != last {
			c, last = c+1, k.name
		}
	}
	return c
}

// edited runs the edits and compares every field of every original node with
// the model.
func edited(n sqlast.Node, edits ...*edit) {
	m := &model{edits: edits, lists: map[fieldAt][]sqlast.Node{}}
	m.collect(n)
	tops := append([]sqlast.Node{}, m.tops...)
	post := postOrder(n, nil)
	r := sqlastutil.Apply(n, m.onPre, m.onPost)
	vsym.Check(r == m.tops[0], "result")
	ok := sameNodes(m.pre, tops) && sameNodes(m.post, post)
	vsym.Check(ok, "visited")
	for _, f := range m.order {
		same := sameNodes(held(f), m.lists[f])
		if !vsym.Symbolic() && !same {
			vsym.Log("field %s of %s holds %d, want %d", f.name, nodeName(f.of), len(held(f)), len(m.lists[f]))
		}
		ok = ok && same
		vsym.Check(same, "fields")
	}
	empty := 0
	for _, f := range m.order {
		if len(m.lists[f]) == 0 {
			empty++
		}
	}
	all := 0
	for _, x := range tops {
		all += fieldCount(x)
	}
	vsym.Check(all+empty == len(m.order), "other-fields")
	if !vsym.Symbolic() && !ok {
		vsym.Log("root %s, edits:", nodeName(n))
		for _, e := range edits {
			vsym.Log("  %+v", *e)
		}
		vsym.Log("pre %d/%d post %d/%d", len(m.pre), len(tops), len(m.post), len(post))
	}
}

func symEdit(at, most int) *edit {
	e := &edit{at: at}
	e.post = vsym.Split(vsym.Bool())
	e.kind = vsym.Concrete(vsym.Int(0, 2))
	e.before = vsym.Concrete(vsym.Int(0, most))
	if e.kind == 2 {
		e.early = vsym.Split(vsym.Bool())
	}
	if !e.early {
		e.after = vsym.Concrete(vsym.Int(0, most))
	}
	return e
}

// A03Each edits any part of a node of any type.
func A03Each() {
	b := &B{max: depth(2, 3)}
	k := vsym.Concrete(vsym.Int(0, len(inner)-1))
	n := inner[k](b)
	edited(n, symEdit(vsym.Concrete(vsym.Int(0, len(kids(n)))), 1))
}

// A03List edits up to two elements of one list.
func A03List() {
	b := &B{}
	n := &sqlast.InList{Expr: b.id()}
	for i := vsym.Concrete(vsym.Int(1, depth(3, 4))); i > 0; i-- {
		n.List = append(n.List, b.id())
	}
	if vsym.Split(vsym.Bool()) { // room behind the list
		n.List = append(make([]sqlast.Node, 0, 8), n.List...)
	}
	i := vsym.Concrete(vsym.Int(0, len(n.List)-1))
	j := vsym.Concrete(vsym.Int(i, len(n.List)-1))
	e := symEdit(2+i, depth(1, 2))
	if i == j {
		edited(n, e)
		return
	}
	edited(n, e, symEdit(2+j, 1))
}

// A03Every does the same edit at every element of a list.
func A03Every() {
	b := &B{}
	n := &sqlast.RowValueExpr{}
	c := vsym.Concrete(vsym.Int(1, depth(4, 6)))
	for i := c; i > 0; i-- {
		n.Values = append(n.Values, b.id())
	}
	e := symEdit(1, depth(2, 3))
	l := []*edit{e}
	for i := 1; i < c; i++ {
		d := *e
		d.at = 1 + i
		l = append(l, &d)
	}
	edited(n, l...)
}

// A03Nested edits an element of an outer list and one of a list inside it.
func A03Nested() {
	b := &B{}
	n := &sqlast.ConstructorSource{}
	rows := vsym.Concrete(vsym.Int(1, depth(2, 3)))
	for i := 0; i < rows; i++ {
		r := &sqlast.RowValueExpr{}
		for j := vsym.Concrete(vsym.Int(1, 2)); j > 0; j-- {
			r.Values = append(r.Values, b.id())
		}
		n.Rows = append(n.Rows, r)
	}
	i := vsym.Concrete(vsym.Int(0, rows-1))
	at := 1
	for _, r := range n.Rows[:i] {
		at += 1 + len(r.Values)
	}
	j := vsym.Concrete(vsym.Int(0, len(n.Rows[i].Values)-1))
	edited(n, symEdit(at, 1), symEdit(at+1+j, 1))
}

func a03(g *G, s sqlast.Stmt, most int) {
	edited(s, symEdit(vsym.Concrete(vsym.Int(0, countNodes(s)-1)), most))
}

func A03Clauses() {
	g := newG(0)
	g.free = 1
	a03(g, g.queryTop(), depth(0, 1))
}

func A03Changes() {
	g := newG(depth(0, 1))
	g.free = 1
	a03(g, g.stmtN(vsym.Concrete(vsym.Int(1, 3))), 1)
}

func A03File() {
	g := newG(0)
	f := &sqlast.File{}
	for i := vsym.Concrete(vsym.Int(1, depth(2, 3))); i > 0; i-- {
		f.Stmts = append(f.Stmts, g.stmtN(vsym.Concrete(vsym.Int(0, 3))))
	}
	edited(f, symEdit(vsym.Concrete(vsym.Int(0, countNodes(f)-1)), 1))
}

func init() {
	reg(
		H{Prop: "A03", Name: "A03.each", Fn: A03Each, Bounds: bEach + "; one of its parts or the node itself gets up to 1 insertion on each side, then replacement or deletion, in pre or post"},
		H{Prop: "A03", Name: "A03.list", Fn: A03List, Bounds: "one list of up to 3/4 elements with and without spare capacity; two elements get up to 1/2 insertions on each side, replacement or deletion, in pre or post"},
		H{Prop: "A03", Name: "A03.every", Fn: A03Every, Bounds: "one list of up to 4/6 elements; every element gets the same edit of up to 2/3 insertions on each side, replacement or deletion"},
		H{Prop: "A03", Name: "A03.nested", Fn: A03Nested, Bounds: "a list of up to 2/3 lists of up to 2; an outer and an inner element are edited"},
		H{Prop: "A03", Name: "A03.clauses", Fn: A03Clauses, Bounds: "every presence combination of the query clauses, one edit (quick: replacement or deletion) at any node"},
		H{Prop: "A03", Name: "A03.changes", Fn: A03Changes, Bounds: "INSERT, UPDATE, DELETE, every presence combination, times up to 0/1 deviations; one edit at any node"},
		H{Prop: "A03", Name: "A03.file", Fn: A03File, Bounds: "files of up to 2/3 statements, one edit at any node"},
	)
}
