package main

import (
	"math"
	"math/rand/v2"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// decode gives the set of rows S for which v = -sum of sign[i]*2^i over S.
func decode(v float64, sign []int) []int {
	if v != math.Trunc(v) || math.Abs(v) > 1<<45 || math.IsNaN(v) {
		return []int{-1}
	}
	x := -int64(v)
	ret := []int{}
	for i, s := range sign {
		if x&1 != 0 {
			ret = append(ret, i+1)
			x -= int64(s)
		}
		x >>= 1
	}
	if x != 0 {
		return []int{-1}
	}
	return ret
}

type sampCase struct {
	xgb                bool
	n, nf, K, R, depth int
	sub, csub          int // sixteenths, 16: none
	minSam             int
}

// rowsCase: every leaf tells which rows it was trained on.
func (s *sampCase) run(w *W, r *rand.Rand, stats []int) (performed int) {
	X := [][]int{}
	for i := 0; i < s.n; i++ {
		X = append(X, randInts(r, s.nf, 0, 5))
	}
	lab := labelling(r, s.n, s.K)
	labels := someLabels(r, s.K)
	sign := make([][]int, s.K)
	g := make([][]float64, s.K)
	for k := range sign {
		sign[k] = make([]int, s.n)
		g[k] = make([]float64, s.n)
		for i := range sign[k] {
			sign[k][i] = choose(r, -1, 1)
			g[k][i] = float64(sign[k][i]) * math.Pow(2, float64(i))
		}
	}
	l := &sloss{cls: lab, h: make([]float64, s.n), grad: func(k, call int) []float64 { return g[k] }}
	o := boo.DefaultXOptions()
	o.XGB, o.Rounds, o.MaxDepth, o.EarlyStop, o.MinSample = s.xgb, s.R, s.depth, 0, s.minSam
	o.LearningRate, o.Lambda, o.Gamma, o.MinChildWeight = 0, 1, 0, 1
	o.SubSample, o.ColSubSample = float64(s.sub)/16, float64(s.csub)/16
	o.Loss = l
	switch r.IntN(4) { // early stopping that never stops a class
	case 0:
		o.EarlyStop = s.R + 1
	case 1:
		o.EarlyStop = 1 + r.IntN(3)
		l.lossv = func(k, call int) float64 { return float64(1000 - call) }
	}
	d := &utils.DataBunch{Data: fmat(X, 0)}
	for _, k := range lab {
		d.Labels = append(d.Labels, labels[k])
	}
	cfg := M{"X": X, "K": s.K, "R": s.R, "n": s.n, "depth": s.depth, "sub": s.sub, "csub": s.csub, "minSam": s.minSam}
	ev := []M{}
	msg := safe(func() {
		m := boo.NewMultiClass(d, o)
		text, err := modelText(m)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		_, rounds, trees, err := parseModel(text)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		performed = rounds
		seen := map[int]bool{}
		for _, t := range trees {
			ns := []M{}
			for _, j := range t.nodes {
				n := M{"leaf": j.Leaf, "ns": j.Nsamples, "f": 0, "thr": 0, "rows": []int{}}
				if j.Leaf {
					n["rows"] = decode(j.Value, sign[t.class])
					if stats != nil && !seen[t.round] {
						for _, x := range n["rows"].([]int) {
							if x > 0 {
								stats[x-1]++
							}
						}
					}
				} else {
					n["f"], n["thr"] = j.SplitFeatureIndex+1, thrInt(j.Threshold, 0)
				}
				ns = append(ns, n)
			}
			seen[t.round] = true
			ev = append(ev, M{"e": "tree", "r": t.round, "k": t.class + 1, "nodes": ns})
		}
		ev = append(ev, M{"e": "rounds", "n": rounds})
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case("rows", cfg, ev)
	return
}

// colsCase: the trees of each round are those of some set of columns.
func colsCase(w *W, r *rand.Rand, csub int) {
	n, nf, K := 6+r.IntN(6), 1+r.IntN(4), 1+r.IntN(3)
	b := &boostCase{xgb: csub < 16 || r.IntN(2) == 0, K: K, R: 4, depth: 1 + r.IntN(3), mcw: 1, lr: 1, lam: 4, g: map[[2]int][]int{}}
	if !b.xgb {
		b.lam = 0
	}
	for i := 0; i < n; i++ {
		b.X = append(b.X, randInts(r, nf, 0, 3))
		b.h = append(b.h, 1)
	}
	b.lab, b.labels = labelling(r, n, K), someLabels(r, K)
	l := &sloss{cls: b.lab, h: floatsOf(b.h), grad: func(k, call int) []float64 { return floatsOf(b.g[[2]int{k, call}]) }}
	gs := [][][]int{}
	for c := 1; c <= b.R; c++ {
		row := [][]int{}
		for k := 0; k < K; k++ {
			b.g[[2]int{k, c}] = randInts(r, n, -3, 3)
			row = append(row, b.g[[2]int{k, c}])
		}
		gs = append(gs, row)
	}
	o := b.opts(l)
	o.ColSubSample = float64(csub) / 16
	if !b.xgb {
		// regular boosting ignores sub-sampling
		o.ColSubSample, o.SubSample = 0.25, 0.25
	}
	cfg := M{"X": b.X, "K": K, "R": b.R, "n": n, "depth": b.depth, "csub": csub, "xgb": b.xgb, "lam": b.lam, "gam": 0, "mcw": 1, "h": b.h, "gs": gs}
	ev := []M{}
	msg := safe(func() {
		m := boo.NewMultiClass(b.data(), o)
		text, err := modelText(m)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		_, rounds, trees, err := parseModel(text)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		for i, t := range treesByRound(rounds, K, trees, 0, 1e6) {
			ev = append(ev, M{"e": "round", "r": i + 1, "trees": t})
		}
		ev = append(ev, M{"e": "rounds", "n": rounds})
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case("cols", cfg, ev)
}

// manyRows: more rows than one leaf can tell: the tree of each class tells 40 of them.
func manyRows(w *W, r *rand.Rand, many bool) {
	K := choose(r, 4, 6, 8)
	if many {
		K = 30 + r.IntN(6)
	}
	n := 40*(K-1) + 1 + r.IntN(40)
	lab := labelling(r, n, K)
	g := make([][]float64, K)
	sign := make([][]int, K)
	for k := range g {
		g[k] = make([]float64, n)
		for i := 40 * k; i < min(n, 40*k+40); i++ {
			s := choose(r, -1, 1)
			sign[k] = append(sign[k], s)
			g[k][i] = float64(s) * math.Pow(2, float64(i-40*k))
		}
	}
	l := &sloss{cls: lab, h: make([]float64, n), grad: func(k, call int) []float64 { return g[k] }}
	a := choose(r, 4, 8, 12, 14, 16)
	if many {
		a = choose(r, 4, 8, 12, 14)
	}
	o := boo.DefaultXOptions()
	o.Rounds, o.MaxDepth, o.EarlyStop, o.MinSample = 30, 0, 0, choose(r, 0, 5, n/8)
	o.LearningRate, o.Lambda, o.Gamma, o.MinChildWeight = 0, 1, 0, 1
	o.SubSample, o.ColSubSample, o.Loss = float64(a)/16, 1, l
	d := &utils.DataBunch{Labels: lab}
	for i := 0; i < n; i++ {
		d.Data = append(d.Data, []float64{r.Float64(), float64(i)})
	}
	ev := []M{}
	msg := safe(func() {
		text, err := modelText(boo.NewMultiClass(d, o))
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		_, rounds, trees, err := parseModel(text)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		rows := make([][]int, rounds)
		ns := make([][]int, rounds)
		for _, t := range trees {
			q := t.round - 1
			ns[q] = append(ns[q], t.nodes[0].Nsamples)
			for _, x := range decode(t.nodes[0].Value, sign[t.class]) {
				if x > 0 {
					x += 40 * t.class
				}
				rows[q] = append(rows[q], x)
			}
		}
		for q := range rows {
			ev = append(ev, M{"e": "drawn", "rows": append([]int{}, rows[q]...), "ns": ns[q]})
		}
		ev = append(ev, M{"e": "rounds", "n": rounds})
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case("many", M{"n": n, "K": K, "R": o.Rounds, "a": a, "sub": a, "minSam": o.MinSample}, ev)
}

func driveSample(w *W) {
	r := w.rng
	// the sampler itself
	for i := 0; i < w.pick(10, 60); i++ {
		n := r.IntN(40)
		if i < 4 {
			n = i
		}
		if i == 4 || i > 15 && i%8 == 0 {
			n = 300 + r.IntN(2000)
		}
		a := choose(r, 1, 2, 4, 8, 12, 15)
		T := 2000
		cnt := make([]int, n)
		some := [][]int{}
		bad := 0
		for t := 0; t < T; t++ {
			s := boo.SubSample(n, float64(a)/16)
			last := -1
			for _, x := range s {
				if x <= last || x >= n {
					bad++
					break
				}
				last = x
				cnt[x]++
			}
			if t < 5 {
				some = append(some, append([]int{}, s...))
			}
		}
		w.Case("sampler", M{"n": n, "a": a, "T": T}, []M{{"e": "draws", "some": some, "bad": bad}, {"e": "counts", "cnt": cnt}, {"e": "end"}})
	}
	// rows of the trees
	for i := 0; i < w.pick(60, 400); i++ {
		(&sampCase{xgb: true, n: 24 + r.IntN(8), nf: 1 + r.IntN(3), K: 1 + r.IntN(3), R: 4, depth: r.IntN(4), sub: choose(r, 12, 14), csub: choose(r, 8, 16), minSam: choose(r, 0, 1, 5)}).run(w, r, nil)
	}
	for i := 0; i < w.pick(40, 200); i++ { // no sub-sampling
		n := 3 + r.IntN(20)
		(&sampCase{xgb: true, n: n, nf: 1 + r.IntN(3), K: 1 + r.IntN(3), R: 3, depth: r.IntN(4), sub: 16, csub: 16, minSam: choose(r, 0, 1, 2, n, n, n+1, n+5)}).run(w, r, nil)
	}
	for i := 0; i < w.pick(30, 200); i++ { // few rows: many rounds are skipped
		n := 2 + r.IntN(6)
		(&sampCase{xgb: true, n: n, nf: 1, K: 1 + r.IntN(2), R: 12, depth: r.IntN(3), sub: choose(r, 1, 4, 8, 12), csub: choose(r, 8, 16), minSam: r.IntN(n + 2)}).run(w, r, nil)
	}
	// statistics of the rows used, and of the rounds skipped
	for i := 0; i < w.pick(4, 12); i++ {
		n := 10
		st := make([]int, n)
		perf := 0
		w2 := &W{b: discard(), rng: r}
		a := choose(r, 4, 8, 12)
		for t := 0; t < 20; t++ {
			perf += (&sampCase{xgb: true, n: n, nf: 1, K: 2, R: 100, depth: 0, sub: a, csub: 16, minSam: 0}).run(w2, r, st)
		}
		w.Case("rowstat", M{"n": n, "a": a, "T": 2000}, []M{{"e": "counts", "cnt": st}, {"e": "end"}})
		ms := 4 + r.IntN(4)
		perf = 0
		for t := 0; t < 20; t++ {
			perf += (&sampCase{xgb: true, n: n, nf: 1, K: 1, R: 100, depth: 0, sub: 8, csub: 16, minSam: ms}).run(w2, r, nil)
		}
		w.Case("skipstat", M{"n": n, "ms": ms, "T": 2000}, []M{{"e": "performed", "cnt": perf}, {"e": "end"}})
	}
	for i := 0; i < w.pick(4, 20); i++ {
		manyRows(w, r, i%4 == 3)
	}
	for i := 0; i < w.pick(60, 600); i++ {
		colsCase(w, r, choose(r, 4, 8, 8, 12))
	}
	for i := 0; i < w.pick(30, 200); i++ {
		colsCase(w, r, 16)
	}
	// statistics of the columns: one feature is the best, and the root uses it whenever it is allowed
	for i := 0; i < w.pick(4, 12); i++ {
		a := choose(r, 4, 8, 12)
		cnt, same := 0, 0
		x := [][]int{}
		gg := []float64{}
		best := 0
		nf := 3
		best = []int{1, 2, 0}[i/2%3]
		pos := []int{best, (best + 1) % 3, (best + 2) % 3}
		if i%2 == 1 { // among many columns that say nothing
			nf = []int{300, 33, 100, 40}[i/2%4]
			pos = r.Perm(nf)[:3]
			pos[0] = []int{nf - 1, pos[0], 0}[i/2%3]
			if pos[1] == pos[0] || pos[2] == pos[0] {
				pos[1], pos[2] = 5, 6
			}
			best = pos[0]
		}
		for j := 0; j < 8; j++ {
			row := make([]int, nf)
			row[pos[0]], row[pos[1]], row[pos[2]] = j/4, j/3, (j+1)/2
			x = append(x, row)
			gg = append(gg, float64(2*(j/4)-1))
		}
		lab := []int{0, 1, 0, 1, 0, 1, 0, 1}
		l := &sloss{cls: lab, h: floatsOf([]int{1, 1, 1, 1, 1, 1, 1, 1}), grad: func(k, call int) []float64 { return gg }}
		o := boo.DefaultXOptions()
		o.Rounds, o.MaxDepth, o.EarlyStop, o.MinSample, o.SubSample, o.MinChildWeight, o.Gamma = 2000, 1, 0, 1, 1, 1, 0
		o.ColSubSample = float64(a) / 16
		o.Loss = l
		m := boo.NewMultiClass(&utils.DataBunch{Data: fmat(x, 0), Labels: lab}, o)
		text, _ := modelText(m)
		_, rounds, trees, err := parseModel(text)
		if err != nil {
			unusable("cannot parse the model: %v", err)
		}
		root := map[[2]int]int{}
		for _, t := range trees {
			root[[2]int{t.round, t.class}] = t.nodes[0].SplitFeatureIndex
			if t.nodes[0].Leaf {
				root[[2]int{t.round, t.class}] = -1
			}
		}
		for q := 1; q <= rounds; q++ {
			if root[[2]int{q, 0}] == best {
				cnt++
			}
			if root[[2]int{q, 0}] == root[[2]int{q, 1}] {
				same++
			}
		}
		w.Case("colstat", M{"a": a, "T": 2000, "nf": nf}, []M{{"e": "roots", "cnt": cnt, "same": same, "rounds": rounds}, {"e": "end"}})
	}
}
