// Package nd is the nondeterminism interface of the harnesses. The symbolic
// engine (../../engine) intercepts every function of this file; the bodies
// below are what a native replay of one concrete path runs.
package nd

import (
	"fmt"

	"path/filepath"
)

// Replay is the state of a native run.
type Replay struct {
	Vals   map[string]uint64
	TierV  int
	Prop   string
	Dir    string
	Labels []string
	Bytes  [][]byte
	Seed   uint64
	count  map[string]int
}

// R is the current native run.
var R *Replay

// Start begins a native run.
func Start(r *Replay) { resetStorage(); r.count = map[string]int{}; R = r }

// Failure is panicked with when an assertion fails natively.
type Failure struct{ Label string }

// Infeasible is panicked with when an assumption fails natively.
type Infeasible struct{}

func name(s string) string {
	k := R.count[s]
	R.count[s] = k + 1
	if k == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, k)
}

// Choice returns a value in [0,n); the engine explores every one.
func Choice(s string, n int) int { return int(R.Vals[name(s)]) }

// Byte returns an arbitrary byte.
func Byte(s string) byte { return byte(R.Vals[name(s)]) }

// U64 returns an arbitrary 64-bit value.
func U64(s string) uint64 { return R.Vals[name(s)] }

// U32 returns an arbitrary 32-bit value.
func U32(s string) uint32 { return uint32(R.Vals[name(s)]) }

// Bool returns an arbitrary boolean.
func Bool(s string) bool { return R.Vals[name(s)] != 0 }

// Bytes returns n arbitrary bytes.
func Bytes(s string, n int) []byte {
	s = name(s)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(R.Vals[fmt.Sprintf("%s[%d]", s, i)])
	}
	return b
}

// Int returns an arbitrary value in [lo,hi].
func Int(s string, lo, hi int) int { return int(int64(R.Vals[name(s)])) }

// Assume restricts the current path.
func Assume(b bool) {
	if !b {
		panic(Infeasible{})
	}
}

// Assert states a property of the current path. A label that begins with
// "Cxx:" is checked only by the check of property Cxx.
func Assert(b bool, label string) {
	if !b && active(label) {
		panic(Failure{label})
	}
}

func active(label string) bool {
	if len(label) > 3 && label[0] == 'C' && label[3] == ':' {
		return label[:3] == R.Prop || R.Prop == "ALL"
	}
	return true
}

// Observe logs bytes that the native run and the symbolic path must agree on.
func Observe(label string, b []byte) {
	R.Labels = append(R.Labels, label)
	R.Bytes = append(R.Bytes, append([]byte(nil), b...))
}

// Reach marks a program point as reached (vacuity witness).
func Reach(label string) {}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return R.TierV }

// Active tells whether the check of the given property is running.
func Active(prop string) bool { return R.Prop == prop || R.Prop == "ALL" }

// Strict switches the checking of stale storage accessors.
func Strict(on bool) { setStrict(on) }

// Reuse lets the storage model hand out released addresses again.
func Reuse(on bool) { setReuse(on) }

// Steps tells the engine after how many million instructions it may judge that the run
// does not end, where this is more than usual.
func Steps(millions int) {}

// SetBase sets the address at which the storage model starts to allocate.
func SetBase(a int64) { setBase(a) }

// Concrete makes a value concrete, exploring every feasible value.
func Concrete(i int) int { return i }

// LiveSpaces lists the spaces allocated in a file, if the storage can tell.
func LiveSpaces(file string) ([]int64, bool) { return liveSpaces(file) }

// RemoveFile removes a file made by TempFile.
func RemoveFile(file string) { removeFile(file) }

// IsSymbolic tells whether the engine runs the harness.
func IsSymbolic() bool { return false }

// TempFile names a scratch file.
func TempFile(s string) string { return filepath.Join(R.Dir, s) }
