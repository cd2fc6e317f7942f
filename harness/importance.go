package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

func init() { drivers["importance"] = driveImportance }

var featLine = regexp.MustCompile(`(\d+)\s+Feature\s+(-?\d+).*:\s*(-?[0-9.]+|[-+]?Inf|NaN)\s*$`)

// report reads the text of an importance.
func report(b string, f *boo.Feats, err error) M {
	r := M{"e": "report", "b": b, "err": err != nil || f == nil, "xgb": false, "kind": false, "len": 0, "rep": [][2]int{}, "numbered": true}
	if f == nil || err != nil {
		return r
	}
	lines := strings.Split(f.String(), "\n")
	rep := [][2]int{}
	for i, l := range lines[1:] {
		m := featLine.FindStringSubmatch(l)
		if m == nil {
			r["err"] = true
			continue
		}
		n, _ := strconv.Atoi(m[1])
		if n != i+1 {
			r["numbered"] = false
		}
		ft, _ := strconv.Atoi(m[2])
		g, _ := strconv.ParseFloat(m[3], 64)
		rep = append(rep, [2]int{ft, fx(g, 1000)})
	}
	r["rep"], r["xgb"], r["kind"], r["len"] = rep, f.XGB(), strings.Contains(lines[0], "xgb"), f.Len()
	return r
}

func splitEv(b string, f int, g float64, exact bool) M {
	s := 100000.0
	if exact {
		s = 1000
	}
	return M{"e": "split", "b": b, "f": f, "g": fx(g, s)}
}

// randShape gives a random tree shape, in preorder.
func randShape(r *rand.Rand, depth int) []bool {
	if depth == 0 || r.IntN(4) == 0 {
		return []bool{true}
	}
	return append(append([]bool{false}, randShape(r, depth-1)...), randShape(r, depth-1)...)
}

func driveImportance(w *W) {
	r := w.rng
	for i := 0; i < w.pick(400, 4000); i++ {
		xgb := r.IntN(2) == 0
		if r.IntN(2) == 0 { // a handmade ensemble, with exact gains
			K, nf := 1+r.IntN(4), 1+r.IntN(7)
			deep := 5
			if r.IntN(8) == 0 {
				nf = 30
			}
			if i%40 < 2 {
				nf, deep = 400, 12
			}
			var ens [][][]bool
			for j := 0; j < r.IntN(5); j++ {
				var rd [][]bool
				for k := 0; k < K; k++ {
					if r.IntN(5) == 0 {
						rd = append(rd, nil)
						continue
					}
					rd = append(rd, randShape(r, r.IntN(deep)))
				}
				ens = append(ens, rd)
			}
			var text []string
			var ev []M
			for _, l := range strings.Split(handmade(r, ens, K, nf, xgb), "\n") {
				n := &utils.JSONNode{}
				if strings.Contains(l, "BestScoreSoFar") {
					if err := json.Unmarshal([]byte(l), n); err != nil {
						fatal("%v", err)
					}
					if n.Leftid > 0 {
						n.BestScoreSoFar = float64(1+r.IntN(80)) / 8
						if r.IntN(5) == 0 {
							n.BestScoreSoFar *= 64
						}
						if !xgb {
							n.BestScoreSoFar *= -1
						}
						ev = append(ev, splitEv("m", n.SplitFeatureIndex, n.BestScoreSoFar, true))
					}
					l = jsonOf(n)
				}
				text = append(text, l)
			}
			msg := safe(func() {
				m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(strings.Join(text, "\n"))))
				if err != nil {
					ev = append(ev, M{"e": "error", "msg": err.Error()})
					return
				}
				for k := 0; k < 2; k++ { // asking twice doesn't count twice
					f, err := m.FeatureImportance()
					ev = append(ev, report("m", f, err))
				}
			})
			if msg != "" {
				ev = append(ev, M{"e": "panic", "msg": msg})
			}
			w.Case("ensemble", M{"xgb": xgb, "exact": true, "splits": 0, "text": strings.Join(text, "\n")}, ev)
			continue
		}
		if r.IntN(3) == 0 { // one tree
			treeImportance(w, r, xgb)
			continue
		}
		t := randModel(r, false)
		text, err := modelText(t.m)
		if err != nil {
			continue // C07
		}
		_, _, trees, err := parseModel(text)
		if err != nil {
			continue
		}
		var ev []M
		ok := true
		sum := 0.0
		for _, tr := range trees {
			for _, n := range tr.nodes {
				if n.Leftid > 0 {
					ev = append(ev, splitEv("m", n.SplitFeatureIndex, n.BestScoreSoFar, false))
					sum += math.Abs(n.BestScoreSoFar)
					ok = ok && !math.IsNaN(n.BestScoreSoFar)
				}
			}
		}
		if !ok || sum > 5000 {
			continue
		}
		msg := safe(func() {
			f, err := t.m.FeatureImportance()
			ev = append(ev, report("m", f, err))
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("trained", M{"xgb": t.o.XGB, "exact": false, "splits": len(ev), "d": t.d}, ev)
	}
	for i := 0; i < w.pick(150, 1500); i++ {
		concImportance(w, r, r.IntN(2) == 0)
	}
}

func treeImportance(w *W, r *rand.Rand, xgb bool) {
	n, nf := 2+r.IntN(20), 1+r.IntN(4)
	X := make([][]float64, n)
	o := boo.DefaultGTreeOptions()
	if xgb {
		o = boo.DefaultXTreeOptions()
	}
	for i := range X {
		X[i] = make([]float64, nf)
		for j := range X[i] {
			X[i][j] = float64(r.IntN(5))
		}
		o.Y = append(o.Y, float64(r.IntN(7)-3))
		o.Gradients = append(o.Gradients, float64(r.IntN(7)-3))
		o.Hessian = append(o.Hessian, float64(1+r.IntN(3)))
	}
	o.MaxDepth = 1 + r.IntN(5)
	o.MinChildWeight = 1
	var ev []M
	msg := safe(func() {
		t := boo.NewTree(X, o)
		nodes, _, err := utils.JSONTree(t)
		if err != nil {
			ev = append(ev, M{"e": "error", "msg": err.Error()})
			return
		}
		for _, b := range nodes {
			n := &utils.JSONNode{}
			if err := json.Unmarshal(b, n); err != nil {
				unusable("a node is not JSON: %v", err)
			}
			if n.Leftid > 0 {
				ev = append(ev, splitEv("t", n.SplitFeatureIndex, n.BestScoreSoFar, false))
			}
		}
		if len(ev) == 0 {
			f, err := t.FeatureImportance(xgb)
			if err == nil && f != nil && f.Len() > 0 {
				ev = append(ev, report("t", f, err))
			} else {
				ev = append(ev, M{"e": "none", "b": "t"})
			}
			return
		}
		f, err := t.FeatureImportance(xgb)
		ev = append(ev, report("t", f, err))
		// added to what another one had
		g := boo.NewFeats(xgb)
		g.Add(nf+3, -1.5)
		ev = append(ev, splitEv("g", nf+3, -1.5, false), M{"e": "merge", "b": "g", "from": "t"})
		_, err = t.FeatureImportance(xgb, g)
		ev = append(ev, report("g", g, err), report("t", f, nil))
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	w.Case("tree", M{"xgb": xgb, "exact": false, "splits": len(ev), "d": fmt.Sprint(n, nf)}, ev)
}

// concImportance adds and merges from several goroutines.
func concImportance(w *W, r *rand.Rand, xgb bool) {
	f := boo.NewFeats(xgb)
	np := 2 + r.IntN(7)
	nf := 1 + r.IntN(6)
	most := 12
	if r.IntN(20) == 0 {
		nf, most = 200, 100
	}
	var ev []M
	var wg sync.WaitGroup
	start := make(chan bool)
	sub := boo.NewFeats(xgb) // shared by those that merge it
	var subEv []M
	for j := 0; j < 1+r.IntN(4); j++ {
		ft, g := r.IntN(nf+2), float64(r.IntN(17)-8)/8
		sub.Add(ft, g)
		subEv = append(subEv, splitEv("sub", ft, g, true))
	}
	ev = append(ev, subEv...)
	for p := 0; p < np; p++ {
		type job struct {
			f     int
			g     float64
			merge bool
		}
		var jobs []job
		for j := 0; j < 1+r.IntN(most); j++ {
			jb := job{r.IntN(nf), float64(r.IntN(33)-16) / 8, r.IntN(6) == 0}
			jobs = append(jobs, jb)
			if jb.merge {
				ev = append(ev, M{"e": "merge", "b": "f", "from": "sub"})
			} else {
				ev = append(ev, splitEv("f", jb.f, jb.g, true))
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, jb := range jobs {
				if i%3 == 0 {
					runtime.Gosched()
				}
				if jb.merge {
					f.Merge(sub)
				} else {
					f.Add(jb.f, jb.g)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	ev = append(ev, M{"e": "totals", "b": "f", "rep": unsorted(f)}, M{"e": "totals", "b": "sub", "rep": unsorted(sub)})
	w.Case("concurrent", M{"xgb": xgb, "exact": true, "splits": 0}, ev)
}

func unsorted(f *boo.Feats) any { return report("", f, nil)["rep"] }
