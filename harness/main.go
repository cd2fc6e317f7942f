// vh runs the real code of rmera/boo on generated (or specification-produced)
// scenarios and records what it did, as one JSON case per line, for TLC.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math"
	"math/rand/v2"
	"os"
	"sync/atomic"
	"time"

	"gonum.org/v1/gonum/mat"
)

type M = map[string]any
type matDense = mat.Dense

var (
	seed     = flag.Uint64("seed", 1, "seed")
	tier     = flag.String("tier", "quick", "quick or thorough")
	outFile  = flag.String("out", "", "output ndjson")
	scenFile = flag.String("scen", "", "ndjson of scenarios produced by TLC")
	scratch  = flag.String("scratch", "", "scratch directory")
)

var drivers = map[string]func(*W){}

// W collects cases.
type W struct {
	f   *os.File
	b   *bufio.Writer
	n   int
	rng *rand.Rand
}

func (w *W) thorough() bool { return *tier == "thorough" }

// n picks by tier.
func (w *W) pick(quick, thorough int) int {
	if w.thorough() {
		return thorough
	}
	return quick
}

var lastCase atomic.Int64

// watchdog: a case takes well under a second; one that takes minutes is stuck
// in the code under test, and its stack (all of them) tells where.
func watchdog() {
	lastCase.Store(time.Now().Unix())
	for {
		time.Sleep(time.Second)
		if time.Now().Unix()-lastCase.Load() > 240 {
			panic("stuck: no case was finished in 240 s")
		}
	}
}

func (w *W) Case(kind string, cfg M, ev []M) {
	lastCase.Store(time.Now().Unix())
	w.n++
	c := M{"id": w.n, "kind": kind, "cfg": cfg, "ev": ev}
	j, err := json.Marshal(c)
	if err != nil {
		fatal("marshal: %v", err)
	}
	w.b.Write(j)
	w.b.WriteByte('\n')
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR "+f+"\n", a...)
	os.Exit(3)
}

// unusable: what the code under test gave can't even be looked at.
func unusable(f string, a ...any) {
	panic("UNUSABLE " + fmt.Sprintf(f, a...))
}

// safe calls f and returns the text of a panic, if any.
func safe(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%v", r)
			if msg == "" {
				msg = "panic"
			}
			if len(msg) > 300 {
				msg = msg[:300]
			}
		}
	}()
	f()
	return ""
}

const big = 1000000000

// fx is the fixed-point projection of a float: round(v*scale), clamped; NaN gives big+7.
func fx(v float64, scale float64) int {
	if math.IsNaN(v) {
		return big + 7
	}
	v = math.Round(v * scale)
	if v > big {
		return big
	}
	if v < -big {
		return -big
	}
	return int(v)
}

func readScen() []M {
	if *scenFile == "" {
		return nil
	}
	f, err := os.Open(*scenFile)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	var ret []M
	d := json.NewDecoder(f)
	for {
		var m M
		if err := d.Decode(&m); err == io.EOF {
			break
		} else if err != nil {
			fatal("scenario: %v", err)
		}
		ret = append(ret, m)
	}
	return ret
}

func ints(v any) []int {
	a := v.([]any)
	r := make([]int, len(a))
	for i, x := range a {
		r[i] = int(x.(float64))
	}
	return r
}

func main() {
	if len(os.Args) < 2 {
		fatal("no driver")
	}
	drv := os.Args[1]
	flag.CommandLine.Parse(os.Args[2:])
	log.SetOutput(io.Discard)
	d, ok := drivers[drv]
	if !ok {
		fatal("unknown driver %s", drv)
	}
	h := fnv.New64a()
	h.Write([]byte(drv))
	w := &W{rng: rand.New(rand.NewPCG(*seed, h.Sum64()))}
	if *outFile != "" {
		f, err := os.Create(*outFile)
		if err != nil {
			fatal("%v", err)
		}
		w.f = f
		w.b = bufio.NewWriter(f)
	}
	go watchdog()
	d(w)
	if w.f != nil {
		w.b.Flush()
		w.f.Close()
		fmt.Printf("CASES %d\n", w.n)
	}
}

func discard() *bufio.Writer { return bufio.NewWriter(io.Discard) }

func jsonOf(v any) string {
	j, err := json.Marshal(v)
	if err != nil {
		fatal("marshal: %v", err)
	}
	return string(j)
}
