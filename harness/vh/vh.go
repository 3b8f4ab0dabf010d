// Package vh has what all drivers share: flags, output, scenario input, panics.
package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
)

var (
	out  = flag.String("out", "", "observation file")
	seed = flag.Int64("seed", 1, "seed")
	tier = flag.String("tier", "quick", "tier")
	scn  = flag.String("scn", "", "scenario file (one JSON object per line)")
)

// M is a JSON object.
type M = map[string]interface{}

var (
	mu  sync.Mutex
	w   *bufio.Writer
	Rng *rand.Rand
)

// Init parses flags and opens the output.
func Init() {
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w = bufio.NewWriterSize(f, 1<<16)
	Rng = rand.New(rand.NewSource(*seed))
}

// Thorough tells the tier.
func Thorough() bool { return *tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

// Emit writes one observation.
func Emit(m M) {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	mu.Lock()
	defer mu.Unlock()
	w.Write(b)
	w.WriteByte('\n')
}

// Begin announces a scenario before it runs, so that a crash can be attributed.
func Begin(scn interface{}) {
	Emit(M{"ev": "begin", "scn": scn})
	Flush()
}

// Flush flushes the output.
func Flush() {
	mu.Lock()
	defer mu.Unlock()
	w.Flush()
}

// Scenarios decodes the scenario file into a slice of *T via the callback.
func Scenarios(each func(dec func(v interface{}))) {
	if *scn == "" {
		return
	}
	f, err := os.Open(*scn)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<26)
	for s.Scan() {
		line := s.Bytes()
		if len(line) == 0 {
			continue
		}
		each(func(v interface{}) {
			if err := json.Unmarshal(line, v); err != nil {
				panic(fmt.Sprint(err, ": ", string(line)))
			}
		})
	}
	if s.Err() != nil {
		panic(s.Err())
	}
}

// Try runs f and returns the panic message, if any.
func Try(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprint("panic: ", p)
			if len(msg) > 300 {
				msg = msg[:300]
			}
		}
	}()
	f()
	return ""
}

// Fix rounds x*scale to an integer; ok tells whether it was within tol of it.
// NaN, infinities and huge values give ok=false and a sentinel.
func Fix(x, scale, tol float64) (n int, ok bool) {
	y := x * scale
	if math.IsNaN(y) || math.Abs(y) > 2e9 {
		return -2000000001, false
	}
	r := math.Round(y)
	return int(r), math.Abs(y-r) <= tol
}

// Bad is the value used for "not representable".
const Bad = -2000000001

// Q rounds x*scale, giving Bad if the result is not within tol of an integer.
func Q(x, scale, tol float64) int {
	n, ok := Fix(x, scale, tol)
	if !ok {
		return Bad
	}
	return n
}

// R rounds x*scale to the nearest integer, Bad if undefined or too large.
func R(x, scale float64) int {
	y := x * scale
	if math.IsNaN(y) || math.Abs(y) > 2e9 {
		return Bad
	}
	return int(math.Round(y))
}
