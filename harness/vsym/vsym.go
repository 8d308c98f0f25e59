// Package vsym gives harnesses their symbolic inputs. Under the symbolic
// engine every function here is an intrinsic; compiled natively, it replays
// the inputs of one solver assignment.
package vsym

import (
	"fmt"
	"os"
	"reflect"
)

// State of a native run.
type State struct {
	In   []uint64
	Pos  int
	Keys []string
	Obs  []string
	Logs []string
	T    int
	Hit  map[string]bool
}

var S = &State{}

type AssumeFailed struct{}

func next(dom uint64) uint64 {
	if S.Pos >= len(S.In) {
		S.Pos++
		return 0
	}
	x := S.In[S.Pos]
	S.Pos++
	if dom > 0 && x >= dom {
		x %= dom
	}
	return x
}

// Int is an arbitrary integer in [lo,hi].
func Int(lo, hi int) int {
	if hi < lo {
		panic(AssumeFailed{})
	}
	return lo + int(next(uint64(hi-lo+1)))
}

// Byte is an arbitrary byte.
func Byte() byte { return byte(next(256)) }

// Bool is an arbitrary boolean.
func Bool() bool { return next(2) == 1 }

// Int64 is an arbitrary 64-bit integer.
func Int64() int64 { return int64(next(0)) }

// Assume restricts the inputs considered from here on.
func Assume(b bool) {
	if !b {
		panic(AssumeFailed{})
	}
}

// Check is the property: the solver looks for inputs making b false.
func Check(b bool, key string) {
	if !b {
		for _, k := range S.Keys {
			if k == key {
				return
			}
		}
		S.Keys = append(S.Keys, key)
	}
}

// Reach marks a point whose reachability is reported.
func Reach(label string) {
	if S.Hit == nil {
		S.Hit = map[string]bool{}
	}
	S.Hit[label] = true
}

// Observe records a value compared between the encoding and the real run.
func Observe(s string) { S.Obs = append(S.Obs, s) }

// Log prints details in native replays only.
func Log(format string, args ...interface{}) {
	if Verbose {
		S.Logs = append(S.Logs, fmt.Sprintf(format, args...))
	}
}

var Verbose bool

// Concrete splits the path on the value of i.
func Concrete(i int) int { return i }

// Split splits the path on b.
func Split(b bool) bool { return b }

// Str splits the path until s is concrete.
func Str(s string) string { return s }

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return S.T }

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// Freeze makes the engine report writes to memory reachable from the
// library's package-level variables, until Thaw.
func Freeze() {}
func Thaw()   {}

// MapNondet lets the engine iterate over maps of the library in every order.
func MapNondet(on bool) {}

func Unsupported(s string) {}

// Same reports whether two trees are equal apart from source positions (nil
// and empty lists are the same).
func Same(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), true) }

// SamePos is Same including source positions.
func SamePos(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b), false) }

// Shares reports whether a part that can be changed is reachable from both.
func Shares(a, b interface{}) bool {
	seen := map[uintptr]bool{}
	reach(reflect.ValueOf(a), func(p uintptr) bool {
		old := seen[p]
		seen[p] = true
		return !old
	})
	mine := map[uintptr]bool{}
	found := false
	reach(reflect.ValueOf(b), func(p uintptr) bool {
		if seen[p] {
			found = true
		}
		old := mine[p]
		mine[p] = true
		return !old
	})
	return found
}

func reach(v reflect.Value, visit func(uintptr) bool) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			reach(v.Elem(), visit)
		}
	case reflect.Ptr:
		if !v.IsNil() && v.Type().Elem().Size() > 0 && visit(v.Pointer()) {
			reach(v.Elem(), visit)
		}
	case reflect.Slice:
		if v.Len() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			if visit(v.Index(i).Addr().Pointer()) {
				reach(v.Index(i), visit)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), visit)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), visit)
		}
	case reflect.Map:
		if v.IsNil() || !visit(v.Pointer()) {
			return
		}
		for _, k := range v.MapKeys() {
			reach(k, visit)
			reach(v.MapIndex(k), visit)
		}
	}
}

func same(a, b reflect.Value, nopos bool) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), nopos)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), nopos)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), nopos) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if nopos && a.Type().Name() == "Pos" && a.Type().PkgPath() == "github.com/akito0107/xsqlparser/sqltoken" {
			return true
		}
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), nopos) {
				return false
			}
		}
		return true
	case reflect.Map:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return a.Interface() == b.Interface()
}

var _ = os.Args
