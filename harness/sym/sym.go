// Package sym is the interface between verification harnesses and the two ways of running them: gosym executes
// harnesses symbolically and intercepts every function of this package; compiled natively, the functions read
// one concrete assignment, so that a counterexample can be replayed against the real code.
package sym

import (
	"bytes"
	"compress/zlib"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
)

type input struct {
	Entry  string            `json:"entry"`
	Tier   int               `json:"tier"`
	Values map[string]string `json:"values"`
}

type Obs struct {
	Label string `json:"l"`
	Kind  string `json:"k"`
	Val   string `json:"v"`
}

type result struct {
	Done         bool     `json:"done"`
	AssumeFailed bool     `json:"assume_failed"`
	Fail         []string `json:"fail"`
	Panic        string   `json:"panic"`
	Obs          []Obs    `json:"obs"`
	Reached      []string `json:"reached"`
	Notes        []string `json:"notes"`
}

var (
	in    input
	res   result
	names = map[string]int{}
)

type assumeFailed struct{}

// Main runs the harness named in the input file.
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	f := entries[in.Entry]
	if f == nil {
		panic("no entry " + in.Entry)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					res.AssumeFailed = true
					return
				}
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				res.Panic = fmt.Sprintf("%v\n%s", r, st)
			}
		}()
		f()
		res.Done = true
	}()
	out, _ := json.Marshal(res)
	fmt.Printf("\n@@RESULT %s\n", out)
}

func uniq(name string) string {
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return in.Tier }

// Int is a symbolic integer in [lo, hi].
func Int(name string, lo, hi int) int {
	name = uniq(name)
	if lo == hi {
		return lo
	}
	if s, ok := in.Values[name]; ok {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return int(n)
	}
	return lo
}

// Byte is a symbolic byte in [lo, hi].
func Byte(name string, lo, hi byte) byte { return byte(Int(name, int(lo), int(hi))) }

// Choose is Int(0, n-1), enumerated.
func Choose(name string, n int) int { return Int(name, 0, n-1) }

// Bool is a symbolic boolean.
func Bool(name string) bool { return Int(name, 0, 1) == 1 }

// Float is a symbolic float64 in [lo, hi] on the grid of multiples of 2^-frac.
func Float(name string, lo, hi float64, frac int) float64 {
	name = uniq(name)
	if lo == hi {
		return lo
	}
	if s, ok := in.Values[name]; ok {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		return f
	}
	return lo
}

// OneOf is a symbolic byte among those of set.
func OneOf(name, set string) byte { return set[Int(name, 0, len(set)-1)] }

// Str is a string of n symbolic bytes among those of set.
func Str(name string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = OneOf(name, set)
	}
	return string(b)
}

// FloatText formats f so that a decimal parser recovers it exactly.
func FloatText(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// IntText formats n in decimal.
func IntText(n int) string { return strconv.Itoa(n) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

// Assert states a property.
func Assert(b bool, label string) {
	if !b {
		for _, f := range res.Fail {
			if f == label {
				return
			}
		}
		res.Fail = append(res.Fail, label)
	}
}

// Reach marks a point that must be reachable.
func Reach(label string) {
	for _, f := range res.Reached {
		if f == label {
			return
		}
	}
	res.Reached = append(res.Reached, label)
}

// Note records a remark for a replay.
func Note(s string) { res.Notes = append(res.Notes, s) }

func ObserveF(label string, f float64) {
	res.Obs = append(res.Obs, Obs{label, "f", strconv.FormatFloat(f, 'g', -1, 64)})
}
func ObserveI(label string, n int) { res.Obs = append(res.Obs, Obs{label, "i", strconv.Itoa(n)}) }
func ObserveS(label, s string)     { res.Obs = append(res.Obs, Obs{label, "s", strconv.QuoteToASCII(s)}) }
func ObserveB(label string, b bool) {
	n := 0
	if b {
		n = 1
	}
	res.Obs = append(res.Obs, Obs{label, "i", strconv.Itoa(n)})
}

// And, Or, Not, Implies, Iff combine conditions without branching.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// EqS compares strings without branching.
func EqS(a, b string) bool { return a == b }

// Near compares lengths up to rounding.
func Near(a, b float64) bool { return math.Abs(a-b) <= 1e-6 }

// Leq is a <= b up to rounding.
func Leq(a, b float64) bool { return a <= b+1e-6 }

// IteF, MaxF and MinF do not branch.
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func MaxF(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}

func MinF(a, b float64) float64 {
	if a < b {
		return a
	}
	return b
}

// IteI does not branch.
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Conc forks on the value of n.
func Conc(n int) int { return n }

// MapOrder makes map iteration order a symbolic choice (natively Go randomises it).
func MapOrder(on bool) {}

// NoMerge disables the merging of branches.
func NoMerge(on bool) {}

// Symbolic tells whether the harness is being executed symbolically.
func Symbolic() bool { return false }

// Inflate uncompresses zlib data.
func Inflate(b []byte) []byte {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	out, _ := io.ReadAll(r)
	return out
}

// Scratch returns a fresh scratch directory (native) or a virtual one (symbolic).
func Scratch() string {
	d, err := os.MkdirTemp(os.Getenv("SYM_SCRATCH"), "sym")
	if err != nil {
		panic(err)
	}
	return d
}
