// Package vrt is the harness interface of the solver-based checker. The
// engine replaces the functions of the first part by symbolic counterparts;
// the bodies here are what a native replay runs: they take their values from
// the counterexample (or sample) being replayed.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
)

type replayFile struct {
	Harness string            `json:"harness"`
	Values  map[string]uint64 `json:"values"`
	Params  map[string]int    `json:"params"`
}

var (
	mu      sync.Mutex
	rf      replayFile
	counts  = map[string]int{}
	obs     []string
	reached []string
	quiesce func()
)

// Load reads the values of a replay; Quiescer installs the wait function.
func Load(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		panic(err)
	}
	return rf.Harness
}

func SetQuiesce(f func()) { quiesce = f }

func Finish(status string) {
	mu.Lock()
	defer mu.Unlock()
	for _, o := range obs {
		fmt.Println("VRT-OBS " + o)
	}
	for _, r := range reached {
		fmt.Println("VRT-REACH " + r)
	}
	fmt.Println("VRT-" + status)
	code := 0
	if status != "DONE" {
		code = 3
	}
	os.Exit(code)
}

func val(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := counts[name]
	counts[name] = n + 1
	if n > 0 {
		name = fmt.Sprintf("%s~%d", name, n)
	}
	return rf.Values[name]
}

func Byte(name string) byte  { return byte(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func Int(name string) int    { return int(val(name)) }
func Bool(name string) bool  { return val(name) != 0 }
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name))
}

// IntRange is an arbitrary integer between lo and hi, inclusive.
func IntRange(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	v := int(val(name))
	Assume(lo <= v && v <= hi)
	return v
}

func Bytes(name string, n int) []byte {
	mu.Lock()
	k := counts[name]
	counts[name] = k + 1
	mu.Unlock()
	if k > 0 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

func String(name string, n int) string { return string(Bytes(name, n)) }

func Assume(c bool) {
	if !c {
		Finish("ASSUME-FALSE")
	}
}

func Assert(c bool, msg string) {
	if !c {
		Finish("VIOLATION " + msg)
	}
}

func Reach(label string) {
	mu.Lock()
	reached = append(reached, label)
	mu.Unlock()
}

func Observe(name string, v interface{}) {
	mu.Lock()
	obs = append(obs, fmt.Sprintf("%s=%s", name, obsText(v)))
	mu.Unlock()
}

func obsText(v interface{}) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("%q", string(x))
	case nil:
		return "nil"
	case error:
		return "error"
	default:
		return fmt.Sprint(x)
	}
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() {
	if quiesce != nil {
		quiesce()
	}
}

func Param(name string, def int) int {
	if v, ok := rf.Params[name]; ok {
		return v
	}
	return def
}

func Engine() bool             { return false }
func Delays(n int)             {}
func Goroutines() int          { return runtime.NumGoroutine() }
func Concrete(n int) int       { return n }
func ConcreteBool(b bool) bool { return b }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Implies(a, b bool) bool   { return !a || b }
func EqStr(a, b string) bool   { return a == b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// ---- interpreted stand-ins for reflection-based library functions ----

func typeName(v interface{}) string                    { return fmt.Sprintf("%T", v) }
func under(v interface{}) (int, string, int64, uint64) { panic("engine only") }
func asOne(err error, target interface{}) bool         { panic("engine only") }
func comparable(v interface{}) bool                    { panic("engine only") }
func swap(s interface{}, i, j int)                     { panic("engine only") }
func length(s interface{}) int                         { panic("engine only") }
