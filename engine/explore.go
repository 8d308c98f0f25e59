package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type stopKind int

const (
	stopNone stopKind = iota
	stopAssume
	stopUnsupported
	stopSteps
	stopDepth
	stopUnknown
	stopDeadline
	stopGuestPanic
	stopExit
	stopInternal
)

var stopNames = []string{"completed", "assumption-false", "unsupported", "step-limit", "depth-limit", "solver-unknown", "deadline", "uncaught-panic", "process-exit", "engine-error"}

type pathStop struct {
	kind stopKind
	msg  string
}

type decision struct {
	taken bool
	alt   bool   // other side still to explore
	val   uint64 // value tried, for concretisations
}

// W is one worker: its own heap, terms and solver.
type W struct {
	id    int
	eng   *Engine
	prog  *ssa.Program
	ts    *Terms
	sol   *Solver
	funcs map[*ssa.Function]*Func

	funcVs    map[*ssa.Function]*FuncV
	globals   map[*ssa.Global]*V
	pkgInit   map[*ssa.Package]bool
	rt        typeutil.Map
	rtFast    map[types.Type]*RType
	implCache map[implKey]bool

	regs     []V
	sp       int
	frame    *Frame
	depth    int
	maxDepth int

	// per path
	trail     []trailEnt
	dec       []decision
	pos       int
	pc        []*Term
	pcMulti   bool // some constraint involves more than one small variable
	doms      map[*Term]bitset
	vars      []*Term
	inputs    []*Term // variables requested by the harness, in order
	steps     int64
	stepLimit int64
	obs       []V
	nextVal   uint64
	onces     map[*V]bool
	reached   map[string]bool
	asserts   int
	symAssert int
	pools     map[*V][]V
	syncMaps  map[*V]*MapV
	freeze    bool
	mapNondet bool
	initDepth int
	covered   map[string]bool
	wantTerm  bool

	h *HarnessRun

	base      map[*V]struct{}
	baseMaps  map[*MapV]struct{}
	st        Stats
	mkErrF    *Func
	mkRTErrF  *Func
	fileCount int

	rng          uint64
	concretising bool
}

type Stats struct {
	Paths      int64
	Completed  int64
	ByStop     [12]int64
	Steps      int64
	Forks      int64
	Forced     int64
	Asserts    int64
	SymAsserts int64
	Vars       int64
	PathChecks int64
}

func (s *Stats) add(o *Stats) {
	s.Paths += o.Paths
	s.Completed += o.Completed
	for i := range s.ByStop {
		s.ByStop[i] += o.ByStop[i]
	}
	s.Steps += o.Steps
	s.Forks += o.Forks
	s.Forced += o.Forced
	s.Asserts += o.Asserts
	s.SymAsserts += o.SymAsserts
	s.Vars += o.Vars
	s.PathChecks += o.PathChecks
}

func (w *W) forkSite() {
	s := ""
	n := 0
	for fr := w.frame; fr != nil && n < 3; fr = fr.caller {
		s += fr.fn.name + " < "
		n++
	}
	if w.concretising {
		s = "conc " + s
	}
	w.h.mu.Lock()
	if w.h.forkSites == nil {
		w.h.forkSites = map[string]int{}
	}
	w.h.forkSites[s]++
	w.h.mu.Unlock()
}

func (w *W) rand(n int) int {
	w.rng ^= w.rng << 13
	w.rng ^= w.rng >> 7
	w.rng ^= w.rng << 17
	return int(w.rng % uint64(n))
}

func (w *W) stop(k stopKind, msg string) { panic(pathStop{k, msg}) }

func (w *W) unsupported(msg string) { panic(pathStop{stopUnsupported, msg}) }

func (w *W) rtpanic(msg string) {
	panic(&GuestPanic{val: w.runtimeError("runtime error: " + msg), msg: msg, runtime: true})
}

// ---- variables and decisions ----

func (w *W) newVar(width uint8, dom int, internal bool) *Term {
	n := len(w.vars)
	t := w.ts.newVar(n, width, dom)
	w.vars = append(w.vars, t)
	if !internal {
		w.inputs = append(w.inputs, t)
	}
	if dom > 0 {
		w.doms[t] = fullSet(dom)
		if width > 0 && dom < 1<<width {
			// domain bound as a constraint for the solver
			w.pc = append(w.pc, w.ts.mk(OUlt, 0, t, w.ts.con(width, uint64(dom)), nil, 0))
		}
	}
	return t
}

// dstat: 0 never, 1 sometimes, 2 always (w.r.t. the variable domain)
func (w *W) dstat(c *Term) int {
	if c.op == OConst {
		return int(c.k) * 2
	}
	if c.v == nil {
		return 1
	}
	d, ok := w.doms[c.v]
	if !ok {
		return 1
	}
	t, f := false, false
	for i, b := range c.set() {
		if b&d[i] != 0 {
			t = true
		}
		if d[i]&^b != 0 {
			f = true
		}
	}
	if t && f {
		return 1
	}
	if t {
		return 2
	}
	return 0
}

func (w *W) maybe(c *Term) bool { return w.dstat(c) != 0 }

// decideMaybe avoids forking on conditions that cannot hold.
func (w *W) decideMaybe(c *Term) bool {
	if w.dstat(c) == 0 {
		return false
	}
	return w.decide(c)
}

// assume adds c to the path condition (known feasible).
func (w *W) assumeT(c *Term) {
	if c.op == OConst {
		return
	}
	w.pc = append(w.pc, c)
	if c.op == OAnd {
		w.narrow(c.a)
		w.narrow(c.b)
		if c.v == nil {
			w.pcMulti = true
		}
		return
	}
	w.narrow(c)
	if c.v == nil {
		w.pcMulti = true
	}
}

func (w *W) narrow(c *Term) {
	if c.v == nil {
		return
	}
	d, ok := w.doms[c.v]
	if !ok {
		return
	}
	for i, b := range c.set() {
		d[i] &= b
	}
}

func (w *W) decide(c *Term) bool {
	switch w.dstat(c) {
	case 0:
		w.st.Forced++
		return false
	case 2:
		w.st.Forced++
		return true
	}
	if w.initDepth > 0 {
		w.unsupported("symbolic branch in initialiser")
	}
	if c.arith() {
		nc := w.ts.not(c)
		for _, p := range w.pc {
			if p == c || p == nc {
				w.st.Forced++
				return p == c
			}
		}
	}
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		w.pos++
		if d.taken {
			w.assumeT(c)
		} else {
			w.assumeT(w.ts.not(c))
		}
		return d.taken
	}
	if w.eng.deadlinePassed() {
		w.stop(stopDeadline, "deadline")
	}
	canT, canF := true, true
	if w.pcMulti || c.v == nil || w.eng.cfg.AllSolver {
		canT, canF = false, false
		arith := c.arith()
		if arith {
			canT, canF = w.witness(c), w.witness(w.ts.not(c))
		}
		if !canT {
			rt, _ := w.sol.check(w.pc, c, nil)
			if rt == unknown {
				w.stop(stopUnknown, "solver gave no answer at a branch")
			}
			canT = rt == sat
		}
		if canT && !canF {
			rf, _ := w.sol.check(w.pc, w.ts.not(c), nil)
			if rf == unknown {
				w.stop(stopUnknown, "solver gave no answer at a branch")
			}
			canF = rf == sat
		} else if !canT {
			canF = true
		}
	}
	taken := canT
	if canT && canF {
		w.st.Forks++
		if w.eng.cfg.ForkSites {
			w.forkSite()
		}
		taken = w.concretising || w.rand(2) == 0
		w.dec = append(w.dec, decision{taken: taken, alt: true, val: w.nextVal})
	} else {
		w.dec = append(w.dec, decision{taken: taken, val: w.nextVal})
	}
	w.pos++
	if taken {
		w.assumeT(c)
	} else {
		w.assumeT(w.ts.not(c))
	}
	return taken
}

// witness looks for an assignment making c true on this path among the
// smallest and the largest values of all variables (sums of many products
// are hard for the solver, their extremes are not).
func (w *W) witness(c *Term) bool {
	for k := 0; k < 2; k++ {
		env := func(v *Term) uint64 {
			d, ok := w.doms[v]
			if !ok {
				return 0
			}
			if k == 0 {
				return uint64(d.first())
			}
			for i := v.dom - 1; i > 0; i-- {
				if d.has(i) {
					return uint64(i)
				}
			}
			return 0
		}
		memo := map[*Term]uint64{}
		if c.eval(env, memo) == 0 {
			continue
		}
		ok := true
		for _, p := range w.pc {
			if p.eval(env, memo) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// someValue returns a value t may have. Terms over one small variable are
// decided by its domain; others ask the solver, and the answer is recorded
// with the decision so that re-execution repeats it.
func (w *W) someValue(t *Term) (uint64, bool) {
	if t.v != nil {
		if d, ok := w.doms[t.v]; ok {
			i := d.first()
			if i < 0 {
				return 0, false
			}
			return t.at(i), true
		}
	}
	if w.pos < len(w.dec) {
		return w.dec[w.pos].val, true
	}
	r, m := w.sol.check(w.pc, nil, w.vars)
	if r == unknown {
		w.stop(stopUnknown, "solver gave no answer at a concretisation")
	}
	if r != sat {
		return 0, false
	}
	return t.eval(func(v *Term) uint64 { return m[v.varNum()] }, map[*Term]uint64{}), true
}

// ---- running one path ----

type pathResult struct {
	kind stopKind
	msg  string
}

func (w *W) undo() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		e := &w.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
	}
	w.trail = w.trail[:0]
}

func (w *W) resetPath() {
	w.undo()
	w.nextVal = 0
	w.pos = 0
	w.pc = w.pc[:0]
	w.pcMulti = false
	w.doms = map[*Term]bitset{}
	w.vars = w.vars[:0]
	w.inputs = w.inputs[:0]
	w.steps = 0
	w.obs = w.obs[:0]
	w.asserts = 0
	w.symAssert = 0
	w.pools = nil
	w.syncMaps = nil
	w.mapNondet = false
	w.freeze = false
	w.frame = nil
	w.depth = 0
	w.sp = 0
	w.initDepth = 0
	w.fileCount = 0
	w.concretising = false
	w.reached = nil
}

func (w *W) runPath(f *Func) (res pathResult) {
	w.resetPath()
	defer func() {
		p := recover()
		switch p := p.(type) {
		case nil:
		case pathStop:
			res = pathResult{p.kind, p.msg}
		case *GuestPanic:
			if p.exit {
				res = pathResult{stopExit, p.msg}
			} else {
				res = pathResult{stopGuestPanic, w.panicText(p)}
			}
		default:
			res = pathResult{stopInternal, fmt.Sprintf("%v\n%s", p, trimStack(debug.Stack()))}
		}
	}()
	w.call(f, nil, nil)
	return pathResult{stopNone, ""}
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1800 {
		s = s[:1800]
	}
	return s
}

func (w *W) panicText(p *GuestPanic) string {
	if p.runtime {
		return "runtime error: " + p.msg
	}
	if i, ok := p.val.o.(*Iface); ok {
		if s, ok := i.v.o.(string); ok {
			return s
		}
		return "value of " + i.t.t.String()
	}
	return p.msg
}

// ---- exploration of one harness ----

type Violation struct {
	Harness string
	Key     string
	Msg     string
	Inputs  []uint64
	Kind    string // assert, panic, steps, exit
	Replay  string
	Note    string
}

type Sample struct {
	Inputs []uint64 `json:"inputs"`
	Obs    []string `json:"obs,omitempty"`
}

type HarnessRun struct {
	Name   string
	fnName string

	mu         sync.Mutex
	violations map[string]*Violation
	vioCount   map[string]int
	unsup      map[string]int
	samples    []Sample
	npaths     int64
	reach      map[string]int64
	stats      Stats
	exhausted  bool
	funcs      map[string]int64
	queries    int64
	qsat       int64
	qunsat     int64
	qunknown   int64
	solverDur  time.Duration
	wall       time.Duration
	maxVars    int
	queue      [][]decision
	active     int
	cond       *sync.Cond
	stopAll    atomic.Bool
	hungry     atomic.Int32
	queueLen   atomic.Int64
	forkSites  map[string]int
	seenPath   int64
	firstVio   time.Time
}

func (w *W) model(extra *Term) ([]uint64, satres) {
	r, m := w.sol.check(w.pc, extra, append([]*Term{}, w.vars...))
	if r != sat {
		return nil, r
	}
	out := make([]uint64, len(w.inputs))
	for i, v := range w.inputs {
		out[i] = m[v.varNum()]
	}
	return out, r
}

func (w *W) report(kind, key, msg string, inputs []uint64) {
	h := w.h
	h.mu.Lock()
	defer h.mu.Unlock()
	h.vioCount[key]++
	if !w.eng.knownKey(h.Name, key) {
		now := time.Now()
		if h.firstVio.IsZero() {
			h.firstVio = now
		}
		if now.Sub(h.firstVio) > w.eng.cfg.AfterVio {
			h.stopAll.Store(true)
			h.cond.Broadcast()
		}
	}
	lst := h.vioCount[key]
	if lst > w.eng.cfg.MaxPerKey {
		return
	}
	h.violations[fmt.Sprintf("%s#%d", key, lst)] = &Violation{Harness: h.Name, Key: key, Msg: msg, Inputs: inputs, Kind: kind}
}

// explore runs DFS from queue items.
func (w *W) explore(h *HarnessRun, f *Func) {
	w.h = h
	for {
		h.mu.Lock()
		for len(h.queue) == 0 && h.active > 0 && !h.stopAll.Load() {
			h.hungry.Add(1)
			h.cond.Wait()
			h.hungry.Add(-1)
		}
		if len(h.queue) == 0 || h.stopAll.Load() {
			h.mu.Unlock()
			h.cond.Broadcast()
			return
		}
		// any order explores the same space; shallow items first give breadth
		// when the budget ends before the space does
		pick := w.rand(len(h.queue))
		for t := 0; t < 2; t++ {
			if j := w.rand(len(h.queue)); len(h.queue[j]) < len(h.queue[pick]) {
				pick = j
			}
		}
		item := h.queue[pick]
		last := len(h.queue) - 1
		h.queue[pick] = h.queue[last]
		h.queue[last] = nil
		h.queue = h.queue[:last]
		h.active++
		h.mu.Unlock()
		burst := 0

		w.dec = append(w.dec[:0], item...)
		for {
			if h.stopAll.Load() || w.eng.deadlinePassed() {
				h.mu.Lock()
				h.exhausted = false
				h.mu.Unlock()
				h.stopAll.Store(true)
				break
			}
			res := w.runPath(f)
			w.endPath(h, res)
			// backtrack
			i := len(w.dec) - 1
			if w.pos < len(w.dec) {
				i = w.pos - 1
				w.dec = w.dec[:w.pos]
			}
			for i >= 0 && !w.dec[i].alt {
				i--
			}
			if i < 0 {
				break
			}
			w.dec = w.dec[:i+1]
			w.dec[i].taken = !w.dec[i].taken
			w.dec[i].alt = false
			// hand the remaining alternatives back now and then
			if burst++; burst >= 24 && h.queueLen.Load() < 30000 {
				h.mu.Lock()
				for j := 0; j <= i; j++ {
					if j < i && !w.dec[j].alt {
						continue
					}
					it := make([]decision, j+1)
					copy(it, w.dec[:j+1])
					for k := range it {
						it[k].alt = false
					}
					if j < i {
						it[j].taken = !it[j].taken
					}
					h.queue = append(h.queue, it)
				}
				h.queueLen.Store(int64(len(h.queue)))
				h.mu.Unlock()
				h.cond.Broadcast()
				break
			}
			// donate work
			if h.hungry.Load() > 0 {
				for j := 0; j < i; j++ {
					if w.dec[j].alt {
						it := make([]decision, j+1)
						for k := 0; k < j; k++ {
							it[k] = decision{taken: w.dec[k].taken, val: w.dec[k].val}
						}
						it[j] = decision{taken: !w.dec[j].taken, val: w.dec[j].val}
						w.dec[j].alt = false
						h.mu.Lock()
						h.queue = append(h.queue, it)
						h.mu.Unlock()
						h.cond.Signal()
						break
					}
				}
			}
		}
		h.mu.Lock()
		h.active--
		h.queueLen.Store(int64(len(h.queue)))
		h.mu.Unlock()
		h.cond.Broadcast()
	}
}

func (w *W) endPath(h *HarnessRun, res pathResult) {
	w.st.Paths++
	w.st.ByStop[res.kind]++
	w.st.Steps += w.steps
	w.st.Vars += int64(len(w.vars))
	w.st.Asserts += int64(w.asserts)
	n := atomic.AddInt64(&h.seenPath, 1)
	if len(w.reached) > 0 {
		h.mu.Lock()
		for l := range w.reached {
			h.reach[l]++
		}
		h.mu.Unlock()
	}
	switch res.kind {
	case stopNone:
		w.st.Completed++
		// completed paths are confirmed feasible by the solver at a sampling
		// rate; the model becomes a trace that is replayed natively
		if n <= 16 || n%w.eng.cfg.SampleEvery == 0 {
			r, m := w.sol.check(w.pc, nil, append([]*Term{}, w.vars...))
			w.st.PathChecks++
			if r == sat {
				in := make([]uint64, len(w.inputs))
				for i, v := range w.inputs {
					in[i] = m[v.varNum()]
				}
				obs := make([]string, len(w.obs))
				for i := range w.obs {
					obs[i] = w.evalStr(w.obs[i], m)
				}
				h.mu.Lock()
				if len(h.samples) < w.eng.cfg.MaxSamples {
					h.samples = append(h.samples, Sample{Inputs: in, Obs: obs})
				}
				h.mu.Unlock()
			} else if r == unsat {
				h.mu.Lock()
				h.unsup["engine: completed path with unsatisfiable condition"]++
				h.mu.Unlock()
			}
		}
	case stopGuestPanic:
		in, r := w.model(nil)
		if r == sat {
			w.report("panic", "panic:"+shortMsg(res.msg), res.msg, in)
		}
	case stopExit:
		in, r := w.model(nil)
		if r == sat {
			w.report("exit", "exit", res.msg, in)
		}
	case stopSteps, stopDepth:
		in, r := w.model(nil)
		if r == sat {
			w.report("hang", "hang", res.msg, in)
		}
		h.mu.Lock()
		h.unsup[stopNames[res.kind]+": "+res.msg]++
		h.mu.Unlock()
	case stopAssume:
	default:
		h.mu.Lock()
		h.unsup[stopNames[res.kind]+": "+res.msg]++
		h.mu.Unlock()
	}
	if len(w.vars) > h.maxVars {
		h.mu.Lock()
		if len(w.vars) > h.maxVars {
			h.maxVars = len(w.vars)
		}
		h.mu.Unlock()
	}
}

func shortMsg(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// evalStr evaluates a string value under a model.
func (w *W) evalStr(v V, m map[int]uint64) string {
	env := func(v *Term) uint64 { return m[v.varNum()] }
	switch x := v.o.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i := range x.b {
			if t, ok := x.b[i].o.(*Term); ok {
				b[i] = byte(t.eval(env, map[*Term]uint64{}))
			} else {
				b[i] = byte(x.b[i].n)
			}
		}
		return string(b)
	case *Rope:
		s := ""
		for _, p := range x.p {
			s += w.evalStr(p, m)
		}
		return s
	case *Union:
		for i := range x.g {
			if x.g[i].eval(env, map[*Term]uint64{}) != 0 {
				return w.evalStr(x.v[i], m)
			}
		}
	}
	return ""
}
