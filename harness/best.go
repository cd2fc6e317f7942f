package main

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
)

func init() { drivers["best"] = driveBest }

func textOf(M *boo.MultiClass) string {
	var b bytes.Buffer
	bw := bufio.NewWriter(&b)
	if err := boo.JSONMultiClass(M, "softmax", bw); err != nil {
		return "error: " + err.Error()
	}
	bw.Flush()
	return hashOf(b.Bytes())
}

func hashOf(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

// driveBest: searches that write their best model to the working directory (a scratch one).
func driveBest(w *W) {
	r := w.rng
	for i := 0; i < w.pick(90, 700); i++ {
		s := gridCase(r, 16)
		s.search = "grid"
		if r.IntN(2) == 0 {
			s = randClimb(r)
		}
		g := s.g
		for g.Lambda[1] < g.Lambda[0] {
			g.Lambda = f3(32, 64, 32)
		}
		// the model of some options has to be determined by them
		g.SubSample, g.ColSubSample = f3(64, 64, 32), f3(64, 64, 32)
		g.WriteBest = r.IntN(6) != 0
		bestCase(w, s)
	}
}

func bestCase(w *W, s *searchCase) {
	ents, _ := os.ReadDir(".")
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), "xgbmodel") {
			os.Remove(e.Name())
		}
	}
	// the directory may have models of a previous search
	junk := []byte{}
	if w.rng.IntN(2) == 0 {
		junk = []byte(strings.Repeat("a model of a previous search\n", 4000))
		for n := 0; n <= 100; n++ {
			if err := os.WriteFile(fmt.Sprintf("xgbmodel%d.json", n), junk, 0o600); err != nil {
				fatal("%v", err)
			}
		}
	}
	ev := []M{}
	byKey := map[string]*boo.Options{}
	var mu sync.Mutex
	opts := map[int]*boo.Options{}
	cv.VerifHook = func(e cv.VerifEvent) {
		mu.Lock()
		defer mu.Unlock()
		if !e.End {
			opts[e.ID] = e.O
			return
		}
		o := opts[e.ID]
		byKey[optKey(o)] = o
		ev = append(ev, M{"e": "eval", "w": int(e.Acc), "key": optKey(o)})
	}
	var best float64
	var o *boo.Options
	var err error
	msg := safe(func() {
		switch s.search {
		case "grid":
			best, _, o, err = cv.Grid(s.D, s.nfold, s.g)
		case "gradient":
			best, _, o, err = cv.GradientGrid(s.D, s.nfold, s.g)
		default:
			best, _, o, err = cv.HybridGradientGrid(s.D, s.nfold, s.g)
		}
	})
	for i := 0; i < 3000; i++ { // evaluations that were given up may still be running
		if n, _ := leftovers(); n == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	cv.VerifHook = nil
	mu.Lock()
	defer mu.Unlock()
	cfg := M{"search": s.search, "write": s.g.WriteBest, "grid": fmt.Sprintf("%+v", *s.g)}
	if msg != "" || o == nil {
		w.Case("best", cfg, append(ev, M{"e": "panic", "msg": msg}))
		return
	}
	ev = append(ev, M{"e": "ret", "w": int(best), "key": optKey(o), "err": err != nil})
	byKey[optKey(o)] = o
	for k, v := range byKey {
		ev = append(ev, M{"e": "model", "key": k, "text": textOf(boo.NewMultiClass(s.D, v))})
	}
	ents, _ = os.ReadDir(".")
	for _, e := range ents {
		n := strings.TrimSuffix(strings.TrimPrefix(e.Name(), "xgbmodel"), ".json")
		k, err := strconv.Atoi(n)
		if err != nil {
			ev = append(ev, M{"e": "stray", "name": e.Name()})
			continue
		}
		b, err := os.ReadFile(e.Name())
		if err != nil {
			fatal("%v", err)
		}
		if len(junk) > 0 && bytes.Equal(b, junk) {
			continue // not touched
		}
		t := hashOf(b)
		if len(b) > 0 {
			var M2 *boo.MultiClass
			m := safe(func() { M2, err = boo.UnJSONMultiClass(bufio.NewReader(bytes.NewReader(b))) })
			if m != "" || err != nil || textOf(M2) != t {
				t = "not a model: " + t
			}
		}
		ev = append(ev, M{"e": "file", "w": k, "text": t})
	}
	ev = append(ev, M{"e": "judge"})
	w.Case("best", cfg, ev)
}
