package main

/*
#cgo LDFLAGS: -lz3
#include <z3.h>
#include <stdlib.h>
static void symgo_err(Z3_context c, Z3_error_code e) { (void)c; (void)e; }
static Z3_context mkctx(void) {
	Z3_config cfg = Z3_mk_config();
	Z3_context c = Z3_mk_context(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(c, symgo_err);
	return c;
}
static Z3_solver mksolver(Z3_context c, unsigned timeout_ms) {
	Z3_solver s = Z3_mk_simple_solver(c);
	Z3_solver_inc_ref(c, s);
	Z3_params p = Z3_mk_params(c);
	Z3_params_inc_ref(c, p);
	Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeout_ms);
	Z3_solver_set_params(c, s, p);
	Z3_params_dec_ref(c, p);
	return s;
}
static Z3_ast and2(Z3_context c, Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a,b}; return Z3_mk_and(c, 2, x); }
static Z3_ast or2(Z3_context c, Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a,b}; return Z3_mk_or(c, 2, x); }
static Z3_ast orn(Z3_context c, unsigned n, Z3_ast *x) { return Z3_mk_or(c, n, x); }
static int geteval(Z3_context c, Z3_model m, Z3_ast a, unsigned long long *out) {
	Z3_ast r = 0;
	if (!Z3_model_eval(c, m, a, 1, &r) || !r) return 0;
	uint64_t v = 0;
	if (!Z3_get_numeral_uint64(c, r, &v)) return 0;
	*out = v;
	return 1;
}
*/
import "C"

import (
	"time"
	"unsafe"
)

type Solver struct {
	timeout int
	ctx     C.Z3_context
	s       C.Z3_solver
	stack   []*Term // asserted, one push level each
	vars    []*Term
	queries int64
	unknown int64
	nsat    int64
	nunsat  int64
	dur     time.Duration
	maxDur  time.Duration
}

func newSolver(timeoutMs int) *Solver {
	c := C.mkctx()
	return &Solver{timeout: timeoutMs, ctx: c, s: C.mksolver(c, C.uint(timeoutMs))}
}

func (s *Solver) close() {
	C.Z3_solver_dec_ref(s.ctx, s.s)
	C.Z3_del_context(s.ctx)
}

func (s *Solver) bv(w uint8) C.Z3_sort { return C.Z3_mk_bv_sort(s.ctx, C.uint(w)) }

func (s *Solver) num(w uint8, v uint64) C.Z3_ast {
	return C.Z3_mk_unsigned_int64(s.ctx, C.uint64_t(v), s.bv(w))
}

func (s *Solver) ast(t *Term) C.Z3_ast {
	if t.z3 != 0 {
		return C.Z3_ast(unsafe.Pointer(t.z3))
	}
	r := s.build(t)
	C.Z3_inc_ref(s.ctx, r)
	t.z3 = uintptr(unsafe.Pointer(r))
	return r
}

// inRange: lo <= v <= hi
func (s *Solver) inRange(v *Term, lo, hi int) C.Z3_ast {
	a := s.ast(v)
	if lo == hi {
		return C.Z3_mk_eq(s.ctx, a, s.num(v.w, uint64(lo)))
	}
	x := C.Z3_mk_bvuge(s.ctx, a, s.num(v.w, uint64(lo)))
	y := C.Z3_mk_bvule(s.ctx, a, s.num(v.w, uint64(hi)))
	return C.and2(s.ctx, x, y)
}

func (s *Solver) build(t *Term) C.Z3_ast {
	c := s.ctx
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return C.Z3_mk_true(c)
			}
			return C.Z3_mk_false(c)
		}
		return s.num(t.w, t.k)
	case OVar:
		n := C.CString(t.name)
		defer C.free(unsafe.Pointer(n))
		s.vars = append(s.vars, t)
		if t.w == 0 {
			return C.Z3_mk_const(c, C.Z3_mk_string_symbol(c, n), C.Z3_mk_bool_sort(c))
		}
		return C.Z3_mk_const(c, C.Z3_mk_string_symbol(c, n), s.bv(t.w))
	case OTab:
		v := t.a
		if v.w == 0 { // boolean variable
			return C.Z3_mk_ite(c, s.ast(v), s.cst(t.w, t.tab[1]), s.cst(t.w, t.tab[0]))
		}
		if t.w == 0 {
			var parts []C.Z3_ast
			for i := 0; i < len(t.tab); {
				if t.tab[i] == 0 {
					i++
					continue
				}
				j := i
				for j+1 < len(t.tab) && t.tab[j+1] != 0 {
					j++
				}
				parts = append(parts, s.inRange(v, i, j))
				i = j + 1
			}
			if len(parts) == 1 {
				return parts[0]
			}
			return C.orn(c, C.uint(len(parts)), &parts[0])
		}
		// nested ite over runs
		r := s.num(t.w, t.tab[len(t.tab)-1])
		for i := len(t.tab) - 2; i >= 0; i-- {
			if t.tab[i] == t.tab[i+1] {
				continue
			}
			cond := C.Z3_mk_bvule(c, s.ast(v), s.num(v.w, uint64(i)))
			r = C.Z3_mk_ite(c, cond, s.num(t.w, t.tab[i]), r)
		}
		return r
	}
	a := s.ast(t.a)
	var b, d C.Z3_ast
	if t.b != nil {
		b = s.ast(t.b)
	}
	if t.c != nil {
		d = s.ast(t.c)
	}
	switch t.op {
	case ONot:
		return C.Z3_mk_not(c, a)
	case OAnd:
		return C.and2(c, a, b)
	case OOr:
		return C.or2(c, a, b)
	case OEq:
		return C.Z3_mk_eq(c, a, b)
	case OIte:
		return C.Z3_mk_ite(c, a, b, d)
	case OAdd:
		return C.Z3_mk_bvadd(c, a, b)
	case OSub:
		return C.Z3_mk_bvsub(c, a, b)
	case OMul:
		return C.Z3_mk_bvmul(c, a, b)
	case OUDiv:
		return C.Z3_mk_bvudiv(c, a, b)
	case OURem:
		return C.Z3_mk_bvurem(c, a, b)
	case OSDiv:
		return C.Z3_mk_bvsdiv(c, a, b)
	case OSRem:
		return C.Z3_mk_bvsrem(c, a, b)
	case OBAnd:
		return C.Z3_mk_bvand(c, a, b)
	case OBOr:
		return C.Z3_mk_bvor(c, a, b)
	case OBXor:
		return C.Z3_mk_bvxor(c, a, b)
	case OShl:
		return C.Z3_mk_bvshl(c, a, b)
	case OLshr:
		return C.Z3_mk_bvlshr(c, a, b)
	case OAshr:
		return C.Z3_mk_bvashr(c, a, b)
	case OUlt:
		return C.Z3_mk_bvult(c, a, b)
	case OSlt:
		return C.Z3_mk_bvslt(c, a, b)
	case OZext:
		return C.Z3_mk_zero_ext(c, C.uint(t.w-t.a.w), a)
	case OSext:
		return C.Z3_mk_sign_ext(c, C.uint(t.w-t.a.w), a)
	case OExtract:
		return C.Z3_mk_extract(c, C.uint(t.k)+C.uint(t.w)-1, C.uint(t.k), a)
	}
	panic("z3 build")
}

func (s *Solver) cst(w uint8, v uint64) C.Z3_ast {
	if w == 0 {
		if v != 0 {
			return C.Z3_mk_true(s.ctx)
		}
		return C.Z3_mk_false(s.ctx)
	}
	return s.num(w, v)
}

func (s *Solver) push(t *Term) {
	C.Z3_solver_push(s.ctx, s.s)
	C.Z3_solver_assert(s.ctx, s.s, s.ast(t))
	s.stack = append(s.stack, t)
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	i := 0
	for i < len(s.stack) && i < len(pc) && s.stack[i] == pc[i] {
		i++
	}
	if n := len(s.stack) - i; n > 0 {
		C.Z3_solver_pop(s.ctx, s.s, C.uint(n))
		s.stack = s.stack[:i]
	}
	for ; i < len(pc); i++ {
		s.push(pc[i])
	}
}

type satres int

const (
	unsat satres = iota
	sat
	unknown
)

// check decides pc && extra. With want, a model of all variables is returned.
func (s *Solver) check(pc []*Term, extra *Term, want []*Term) (satres, map[int]uint64) {
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		C.Z3_solver_push(s.ctx, s.s)
		C.Z3_solver_assert(s.ctx, s.s, s.ast(extra))
	}
	r := C.Z3_solver_check(s.ctx, s.s)
	var res satres
	var model map[int]uint64
	switch r {
	case C.Z3_L_TRUE:
		res = sat
		s.nsat++
		if want != nil {
			model = map[int]uint64{}
			m := C.Z3_solver_get_model(s.ctx, s.s)
			if m != nil {
				C.Z3_model_inc_ref(s.ctx, m)
				for _, v := range want {
					if v.w == 0 {
						var out C.Z3_ast
						if bool(C.Z3_model_eval(s.ctx, m, s.ast(v), true, &out)) {
							if C.Z3_get_bool_value(s.ctx, out) == C.Z3_L_TRUE {
								model[v.varNum()] = 1
							} else {
								model[v.varNum()] = 0
							}
						}
						continue
					}
					var out C.ulonglong
					if C.geteval(s.ctx, m, s.ast(v), &out) != 0 {
						model[v.varNum()] = uint64(out)
					}
				}
				C.Z3_model_dec_ref(s.ctx, m)
			}
		}
	case C.Z3_L_FALSE:
		res = unsat
		s.nunsat++
	default:
		res = unknown
		s.unknown++
	}
	if res == unknown {
		// a solver that gave up is not trusted with further questions
		C.Z3_solver_dec_ref(s.ctx, s.s)
		s.s = C.mksolver(s.ctx, C.uint(s.timeout))
		s.stack = s.stack[:0]
	} else if extra != nil {
		C.Z3_solver_pop(s.ctx, s.s, 1)
	}
	s.queries++
	d := time.Since(t0)
	s.dur += d
	if d > s.maxDur {
		s.maxDur = d
	}
	return res, model
}
