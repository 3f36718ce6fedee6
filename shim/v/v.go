// Package v is the interface between harnesses and the verification engine. Under the symbolic
// engine its functions are replaced by the engine's own; compiled natively they replay one
// concrete assignment read from a file, so that every counterexample is run against the real code.
package v

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
)

type input struct {
	N string `json:"n"`
	K string `json:"k"`
	S []byte `json:"s"`
	I int64  `json:"i"`
}

var (
	inputs []input
	pos    int
	failed bool
	assume bool
)

type stop struct{ why string }

func next(k, n string) input {
	if pos >= len(inputs) {
		panic(stop{"DESYNC end of inputs at " + n})
	}
	in := inputs[pos]
	pos++
	if in.K != k || in.N != n {
		panic(stop{fmt.Sprintf("DESYNC want %s %s have %s %s", k, n, in.K, in.N)})
	}
	return in
}

// String is an arbitrary string of exactly n bytes, each taken from alphabet (all bytes if empty).
func String(name string, n int, alphabet string) string { return string(next("s", name).S) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int { return int(next("i", name).I) }

// Bool is an arbitrary Boolean.
func Bool(name string) bool { return next("b", name).I != 0 }

// Choose is an arbitrary number in [0, n); the engine explores each value on a path of its own.
func Choose(name string, n int) int { return int(next("c", name).I) }

// StringUpTo is an arbitrary string of at most max bytes over alphabet.
func StringUpTo(name string, min, max int, alphabet string) string {
	return String(name, min+Choose(name+".len", max-min+1), alphabet)
}

// Pick chooses one of the strings.
func Pick(name string, xs ...string) string { return xs[Choose(name, len(xs))] }

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		panic(stop{"ASSUME"})
	}
}

// Assert states the property.
func Assert(id string, cond bool, msg string) {
	if !cond {
		failed = true
		fmt.Println("FAIL", id, msg)
	}
}

// Known marks the rest of this path: a failure of the assertion id (or "panic", "nontermination")
// is the recorded finding kf.
func Known(kf, id string) { fmt.Println("KNOWN", kf, id) }

// Reach counts that a point of the harness was reached.
func Reach(name string) {}

// Observe records values for the comparison of the engine's run with the native run.
func Observe(name string, vals ...any) {
	fmt.Print("OBS ", name, "=")
	for i, x := range vals {
		if i > 0 {
			fmt.Print(",")
		}
		switch x := x.(type) {
		case string:
			fmt.Print(strconv.Quote(x))
		case int:
			fmt.Print(x)
		case bool:
			fmt.Print(x)
		default:
			fmt.Printf("?%T", x)
		}
	}
	fmt.Println()
}

// MapOrder makes the engine explore every iteration order of maps ranged over by the code under test.
func MapOrder(on bool) {}

// MapBudget limits how many map iterations on a path may deviate from insertion order, by one entry that comes first instead
func MapBudget(n int) {}

// And, Or, Not, Implies, Iff, IteS, IteI combine without branching.
func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}
func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// EqStr compares without branching.
func EqStr(a, b string) bool { return a == b }

// Concrete reports whether the engine runs the program symbolically.
func Symbolic() bool { return false }

// Thorough reports whether the deeper bounds are to be used.
func Thorough() bool { return os.Getenv("ZZ_TIER") == "thorough" }

// Main runs one harness on the inputs of a replay file.
func Main(reg map[string]func()) {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay HARNESS INPUTS.json")
		os.Exit(3)
	}
	b, err := os.ReadFile(os.Args[2])
	if err == nil {
		err = json.Unmarshal(b, &inputs)
	}
	h := reg[os.Args[1]]
	if err != nil || h == nil {
		fmt.Println("BAD", err)
		os.Exit(3)
	}
	debug.SetMaxStack(64 << 20)
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case stop:
			fmt.Println(x.why)
			os.Exit(4)
		default:
			fmt.Println("PANIC", fmt.Sprint(r))
			os.Exit(5)
		}
		if failed {
			os.Exit(1)
		}
		fmt.Println("OK")
		os.Exit(0)
	}()
	h()
}
