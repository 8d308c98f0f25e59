package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

var _ typeutil.Map

type Config struct {
	AllSolver   bool
	MaxPerKey   int
	SampleEvery int64
	MaxSamples  int
	Workers     int
	StepLimit   int64
	MaxDepth    int
	Tier        int
	AfterVio    time.Duration
	ForkSites   bool
}

type Engine struct {
	cfg      Config
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	hpkg     *ssa.Package
	repoMod  string
	deadline atomic.Int64
	buildMu  sync.Mutex
	built    map[*ssa.Package]bool
	interp   sync.Map
	known    map[string]bool
	seed     uint64
}

func (e *Engine) deadlinePassed() bool { return time.Now().UnixNano() > e.deadline.Load() }

func (e *Engine) isRepo(path string) bool {
	return path == e.repoMod || strings.HasPrefix(path, e.repoMod+"/")
}

var interpStd = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"bytes": true, "text/scanner": true, "sort": true, "slices": true, "cmp": true, "maps": true,
	"bufio": true, "io": true, "errors": true, "math": true, "math/bits": true,
	"container/list": true, "container/heap": true, "container/ring": true,
	"internal/stringslite": true, "internal/bytealg": true, "internal/byteorder": true, "internal/itoa": true,
	"iter": true, "path": true, "internal/strconv": true, "unsafe": true, "internal/abi": false,
	"regexp": true, "regexp/syntax": true, "text/tabwriter": true, "index/suffixarray": false, "sync/atomic": true,
	"golang.org/x/xerrors": true, "golang.org/x/xerrors/internal": true,
}

func (e *Engine) interpretable(path string) bool {
	if interpStd[path] {
		return true
	}
	return e.isRepo(path) || path == "vh" || strings.HasPrefix(path, "vh/")
}

// functions of otherwise native packages that may be interpreted
var interpFns = map[string]bool{
	"(*fmt.wrapError).Error": true, "(*fmt.wrapError).Unwrap": true,
	"sync.OnceFunc": true, "sync.OnceValue": true, "sync.OnceValues": true,
	"(*fmt.wrapErrors).Error": true, "(*fmt.wrapErrors).Unwrap": true,
}

func loadEngine(dir, pkg string) (*Engine, error) {
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(pc, pkg)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if bad == "" {
				bad = e.Error()
			}
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("load: %s", bad)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, repoMod: "github.com/akito0107/xsqlparser"}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.hpkg = prog.Package(ps[0].Types)
	return e, nil
}

func (w *W) ensureBuilt(p *ssa.Package) {
	e := w.eng
	e.buildMu.Lock()
	if !e.built[p] {
		e.built[p] = true
		p.Build()
	}
	e.buildMu.Unlock()
}

func (e *Engine) newW(id int) *W {
	w := &W{id: id, eng: e, prog: e.prog, ts: newTerms(), sol: newSolver(20000),
		funcs: map[*ssa.Function]*Func{}, funcVs: map[*ssa.Function]*FuncV{}, globals: map[*ssa.Global]*V{},
		pkgInit: map[*ssa.Package]bool{}, rtFast: map[types.Type]*RType{}, implCache: map[implKey]bool{},
		regs: make([]V, 1<<16), maxDepth: e.cfg.MaxDepth, stepLimit: e.cfg.StepLimit, covered: map[string]bool{},
		doms: map[*Term]bitset{}, rng: e.seed*0x9E3779B97F4A7C15 + uint64(id+1)*0xD1B54A32D192ED03 | 1,
	}
	return w
}

// initAll runs the package initialisers of the code under test and the harness.
func (w *W) initAll() (err error) {
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case pathStop:
				err = fmt.Errorf("package init: %s", p.msg)
			case *GuestPanic:
				err = fmt.Errorf("package init panics: %s", w.panicText(p))
			default:
				panic(p)
			}
		}
	}()
	w.initPkg(w.eng.hpkg)
	w.trail = w.trail[:0]
	return nil
}

func (w *W) initPkg(p *ssa.Package) {
	if w.pkgInit[p] {
		return
	}
	w.pkgInit[p] = true
	if p.Pkg.Path() == "errors" {
		return // only internal reflection helpers; errors.Is and As are native
	}
	if !w.eng.interpretable(p.Pkg.Path()) {
		return
	}
	w.ensureBuilt(p)
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	fn := &Func{name: f.String() + "#run", ssa: f, w: w, ready: true}
	c := &compiler{w: w, f: f, fn: fn, regs: map[ssa.Value]int{}}
	tl := len(w.trail)
	steps, freeze := w.steps, w.freeze
	w.freeze = false
	w.initDepth++
	c.compile()
	w.call(fn, nil, nil)
	w.initDepth--
	w.steps, w.freeze = steps, freeze
	w.trail = w.trail[:tl]
}

// computeBase collects all memory reachable from package-level variables of the library.
func (w *W) computeBase() {
	w.base = map[*V]struct{}{}
	w.baseMaps = map[*MapV]struct{}{}
	for _, pkg := range w.eng.pkgs {
		if !w.eng.isRepo(pkg.Pkg.Path()) {
			continue
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				w.reachP(w.global(g))
			}
		}
	}
}

func (w *W) reachP(p *V) {
	if _, ok := w.base[p]; ok {
		return
	}
	w.base[p] = struct{}{}
	w.reachV(*p)
}

func (w *W) reachV(v V) {
	switch x := v.o.(type) {
	case *V:
		w.reachP(x)
	case *Agg:
		for i := range x.e {
			w.reachP(&x.e[i])
		}
	case *Slice:
		s := x.s[:cap(x.s)]
		for i := range s {
			w.reachP(&s[i])
		}
	case *Iface:
		w.reachV(x.v)
	case *FuncV:
		for i := range x.free {
			w.reachV(x.free[i])
		}
	case *MapV:
		if _, ok := w.baseMaps[x]; ok {
			return
		}
		w.baseMaps[x] = struct{}{}
		for i := range x.ent {
			w.reachV(x.ent[i].k)
			w.reachV(x.ent[i].v)
		}
	case *Union:
		for i := range x.v {
			w.reachV(x.v[i])
		}
	}
}

func (w *W) curFn() string {
	for fr := w.frame; fr != nil; fr = fr.caller {
		if fr.fn.repo {
			return fr.fn.name
		}
	}
	if w.frame != nil {
		return w.frame.fn.name
	}
	return "?"
}

func (w *W) sharedWrite() {
	fn := w.curFn()
	in, r := w.model(nil)
	if r == sat {
		w.report("shared-write", "shared-write:"+fn, "write to package-level state in "+fn, in)
	}
}

type HOut struct {
	Name       string           `json:"name"`
	Paths      int64            `json:"paths"`
	Completed  int64            `json:"completed"`
	Stops      map[string]int64 `json:"stops,omitempty"`
	Steps      int64            `json:"ssa_instructions"`
	Forks      int64            `json:"forks"`
	Forced     int64            `json:"branches_decided_by_domain"`
	Asserts    int64            `json:"assertions"`
	SymAsserts int64            `json:"assertions_sent_to_solver"`
	Queries    int64            `json:"queries"`
	Sat        int64            `json:"sat"`
	Unsat      int64            `json:"unsat"`
	Unknown    int64            `json:"unknown"`
	SolverS    float64          `json:"solver_s"`
	WallS      float64          `json:"wall_s"`
	Exhausted  bool             `json:"exhausted"`
	MaxVars    int              `json:"max_symbolic_inputs"`
	Reach      map[string]int64 `json:"reached"`
	Cut        map[string]int   `json:"cut_paths,omitempty"`
	Functions  int              `json:"repo_functions_encoded"`
	FuncList   []string         `json:"-"`
	FuncNames  []string         `json:"functions,omitempty"`
	Samples    []Sample         `json:"samples,omitempty"`
	Violations []*Violation     `json:"violations,omitempty"`
	VioCount   map[string]int   `json:"violation_paths,omitempty"`
}

func (e *Engine) runHarness(ws []*W, name, fnName string, budget time.Duration) *HOut {
	h := &HarnessRun{Name: name, fnName: fnName, violations: map[string]*Violation{}, vioCount: map[string]int{},
		unsup: map[string]int{}, reach: map[string]int64{}, exhausted: true, queue: [][]decision{nil}, funcs: map[string]int64{}}
	h.cond = sync.NewCond(&h.mu)
	sf := e.hpkg.Func(fnName)
	if sf == nil {
		return &HOut{Name: name, Cut: map[string]int{"no such function " + fnName: 1}}
	}
	t0 := time.Now()
	e.deadline.Store(t0.Add(budget).UnixNano())
	timer := time.AfterFunc(budget+time.Second, func() { h.stopAll.Store(true); h.cond.Broadcast() })
	var wg sync.WaitGroup
	var q0, s0, u0, k0 int64
	var d0 time.Duration
	for _, w := range ws {
		q0 += w.sol.queries
		s0 += w.sol.nsat
		u0 += w.sol.nunsat
		k0 += w.sol.unknown
		d0 += w.sol.dur
		w.st = Stats{}
		for _, f := range w.funcs {
			f.calls = 0
		}
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			w.explore(h, w.fn(sf))
			w.resetPath()
		}(w)
	}
	wg.Wait()
	timer.Stop()
	o := &HOut{Name: name, Stops: map[string]int64{}, Reach: h.reach, Cut: h.unsup, Exhausted: h.exhausted && len(h.queue) == 0,
		MaxVars: h.maxVars, Samples: h.samples, VioCount: h.vioCount, WallS: time.Since(t0).Seconds()}
	var st Stats
	fns := map[string]bool{}
	for _, w := range ws {
		st.add(&w.st)
		o.Queries += w.sol.queries
		o.Sat += w.sol.nsat
		o.Unsat += w.sol.nunsat
		o.Unknown += w.sol.unknown
		o.SolverS += w.sol.dur.Seconds()
		for _, f := range w.funcs {
			if f.calls > 0 && f.ssa != nil && f.ssa.Synthetic == "" && f.repo {
				fns[f.name] = true
			}
		}
	}
	o.Queries -= q0
	o.Sat -= s0
	o.Unsat -= u0
	o.Unknown -= k0
	o.SolverS -= d0.Seconds()
	o.Paths, o.Completed, o.Steps, o.Forks, o.Forced, o.Asserts, o.SymAsserts = st.Paths, st.Completed, st.Steps, st.Forks, st.Forced, st.Asserts, st.SymAsserts
	for i, n := range st.ByStop {
		if n > 0 {
			o.Stops[stopNames[i]] = n
		}
	}
	for f := range fns {
		o.FuncList = append(o.FuncList, f)
	}
	sort.Strings(o.FuncList)
	o.Functions = len(o.FuncList)
	if e.cfg.ForkSites {
		type fs struct {
			s string
			n int
		}
		var l []fs
		for s, n := range h.forkSites {
			l = append(l, fs{s, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i := 0; i < len(l) && i < 25; i++ {
			fmt.Printf("   fork %7d %s\n", l[i].n, l[i].s)
		}
	}
	keys := []string{}
	for k := range h.violations {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		o.Violations = append(o.Violations, h.violations[k])
	}
	return o
}

var forkSites bool

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(20 << 30)
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "./hs", "harness package")
	prop := flag.String("prop", "", "property id")
	only := flag.String("h", "", "only harnesses whose name contains this")
	tier := flag.String("tier", "quick", "quick or thorough")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	replayBin := flag.String("replay", "", "native replay binary")
	outDir := flag.String("out", "/verif", "where evidence and replays go")
	level := flag.String("level", "bounded-exhaustive", "evidence level")
	known := flag.String("known", "/verif/known_findings.json", "known findings")
	budget := flag.Duration("budget", 0, "time budget per harness")
	verbose := flag.Bool("v", false, "verbose")
	flag.BoolVar(&forkSites, "forks", false, "report where paths split")
	profile := flag.String("cpuprofile", "", "")
	flag.Parse()
	startProfile(*profile)
	code := runProp(*dir, *pkg, *prop, *only, *tier, *workers, *replayBin, *outDir, *level, *known, *budget, *verbose)
	stopProfile()
	os.Exit(code)
}

func jsonStr(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
