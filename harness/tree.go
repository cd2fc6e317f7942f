package main

import (
	"math"
	"math/rand/v2"
	"sort"

	"github.com/rmera/boo"
)

func init() { drivers["tree"] = driveTree }

// fmaps turn the small integers of the specification into the floats given to
// the code. All are strictly increasing.
var fmaps = []func(int) float64{
	func(v int) float64 { return float64(v) },
	func(v int) float64 { return float64(v) * 0.1 },
	func(v int) float64 { return -7.5 + float64(v)*1e-3 },
	func(v int) float64 { return float64(v) * 1e15 },
	func(v int) float64 { // neighbouring floats
		x := 1.0
		for i := 0; i < v; i++ {
			x = math.Nextafter(x, 2)
		}
		return x
	},
	func(v int) float64 { return (float64(v) - 5.5) * 1.5e307 * 1.9 }, // sums overflow at the ends
	func(v int) float64 { return math.Pow(3, float64(v)) },
	func(v int) float64 { return -math.Pow(2, -float64(v)) },
	func(v int) float64 { // negative neighbouring floats
		x := -1.0
		for i := 0; i < v; i++ {
			x = math.Nextafter(x, 2)
		}
		return x
	},
}

var vmax = 11 // feature values are 0..vmax; more only in the large cases

type treeCase struct {
	xgb    bool
	X      [][]int
	g, h   []int
	mcw    float64
	depth  int
	lam    int // quarters
	gam    int // quarters
	cols   []int
	rows   []int
	fm     int
	ga, hb int  // gradients are multiplied by 2^ga, hessians (and lambda) by 2^hb, which is exact
	batch  int  // also predict this many vectors at once
	reuse  bool // use options already used with other data
	nilidx bool
	qs     [][]int
}

func fmat(X [][]int, fm int) [][]float64 {
	r := make([][]float64, len(X))
	for i, v := range X {
		r[i] = make([]float64, len(v))
		for j, w := range v {
			if w > vmax+5 || w < -5 {
				r[i][j] = math.Inf(w)
				continue
			}
			r[i][j] = fmaps[fm](w)
		}
	}
	return r
}

func scaled(a []int, e int) []float64 {
	r := floatsOf(a)
	for i := range r {
		r[i] = math.Ldexp(r[i], e)
	}
	return r
}

func floatsOf(a []int) []float64 {
	r := make([]float64, len(a))
	for i, v := range a {
		r[i] = float64(v)
	}
	return r
}

func inc(a []int) []int {
	r := make([]int, len(a))
	for i, v := range a {
		r[i] = v + 1
	}
	return r
}

func thrInt(thr float64, fm int) int {
	t := -1
	for v := -1; v <= vmax+1; v++ {
		if fmaps[fm](v) <= thr {
			t = v
		}
	}
	return t
}

func mids(thr float64, fm int) [][]int {
	ret := [][]int{}
	fv := make([]float64, vmax+1)
	for a := range fv {
		fv[a] = fmaps[fm](a)
	}
	for a := 0; a <= vmax; a++ {
		for b := a + 1; b <= vmax; b++ {
			fa, fb := fv[a], fv[b]
			m := fa/2 + fb/2
			if math.Abs(thr-m) <= 1e-12*(math.Abs(fa)/2+math.Abs(fb)/2) {
				ret = append(ret, []int{a, b})
			} else if math.IsInf(fa+fb, 0) && fa <= thr && thr < fb {
				// the midpoint of these two has no agreed form: any separating value
				ret = append(ret, []int{a, b})
			}
		}
	}
	return ret
}

// preorder projection of a tree, through its public interface
func nodesOf(t *boo.Tree, fm, ga, hb int) []M {
	var ret []M
	var walk func(t *boo.Tree)
	walk = func(t *boo.Tree) {
		j := t.JNode(1, true)
		if len(ret) > 5000 {
			return
		}
		leaf := t.Leaf()
		l, r := t.Leftf(nil), t.Rightf(nil)
		n := M{"e": "node", "leaf": leaf, "jleaf": j.Leaf, "ns": j.Nsamples, "br": j.Branches, "branches": t.Branches(), "xgb": j.XGB,
			"hasl": l != nil, "hasr": r != nil}
		s := inc(j.Samples)
		sort.Ints(s)
		n["rows"] = s
		if leaf {
			n["val"] = fx(math.Ldexp(j.Value, hb-ga), 1e6)
			n["f"], n["thr"], n["mids"], n["gain"] = 0, 0, [][]int{}, 0
		} else {
			n["val"] = 0
			n["f"] = j.SplitFeatureIndex + 1
			n["thr"] = thrInt(j.Threshold, fm)
			n["mids"] = mids(j.Threshold, fm)
			n["gain"] = fx(math.Ldexp(j.BestScoreSoFar, hb-2*ga), 1e3)
		}
		ret = append(ret, n)
		if !leaf {
			if l != nil {
				walk(l.(*boo.Tree))
			}
			if r != nil {
				walk(r.(*boo.Tree))
			}
		}
	}
	walk(t)
	return ret
}

func (tc *treeCase) cfg() M {
	rows := append([]int{}, tc.rows...)
	if tc.nilidx {
		rows = nil
		for i := range tc.X {
			rows = append(rows, i)
		}
	}
	cols := inc(tc.cols)
	m := int(tc.mcw)
	if m < 1 {
		m = 1
	}
	X, g, h := tc.X, tc.g, tc.h
	if tc.dups() {
		// a row given twice is two rows of the specification, with the same data
		X, g, h = nil, nil, nil
		for _, i := range rows {
			X, g, h = append(X, tc.X[i]), append(g, tc.g[i]), append(h, tc.h[i])
		}
		for i := range rows {
			rows[i] = i
		}
	}
	return M{"xgb": tc.xgb, "X": X, "g": g, "h": h, "mcw": m, "depth": tc.depth, "lam": tc.lam, "gam": tc.gam,
		"cols": cols, "rows": inc(rows), "fm": tc.fm, "ga": tc.ga, "hb": tc.hb, "reuse": tc.reuse}
}

func (tc *treeCase) dups() bool {
	seen := map[int]bool{}
	for _, v := range tc.rows {
		if seen[v] && !tc.nilidx {
			return true
		}
		seen[v] = true
	}
	return false
}

// positions of the rows of each node in the list given, for lists with repeated
// rows: the k-th appearance of a row in a node is its k-th appearance in the list.
func (tc *treeCase) positions(ev []M) {
	pos := map[int][]int{}
	for i, v := range tc.rows {
		pos[v+1] = append(pos[v+1], i+1)
	}
	for _, e := range ev {
		rows, ok := e["rows"].([]int)
		if !ok {
			continue
		}
		seen := map[int]int{}
		n := make([]int, len(rows))
		for i, v := range rows {
			n[i] = len(tc.rows) + 1 // not given
			if k := seen[v]; k < len(pos[v]) {
				n[i] = pos[v][k]
			}
			seen[v]++
		}
		e["rows"] = n
	}
}

func (tc *treeCase) options() *boo.TreeOptions {
	o := boo.DefaultGTreeOptions()
	if tc.xgb {
		o = boo.DefaultXTreeOptions()
		o.Lambda = math.Ldexp(float64(tc.lam), tc.hb-2)
		o.Gamma = math.Ldexp(float64(tc.gam), 2*tc.ga-tc.hb-2)
	}
	tc.setOptions(o)
	return o
}

func (tc *treeCase) setOptions(o *boo.TreeOptions) {
	if tc.xgb {
		o.Gradients = scaled(tc.g, tc.ga)
		o.Hessian = scaled(tc.h, tc.hb)
	} else {
		o.Y = scaled(tc.g, tc.ga)
	}
	o.MinChildWeight = tc.mcw
	o.MaxDepth = tc.depth
	if len(tc.cols) > 0 {
		o.AllowedColumns = append([]int{}, tc.cols...)
	}
	if !tc.nilidx {
		o.Indexes = append([]int{}, tc.rows...)
	}
}

func (tc *treeCase) run(w *W) {
	var ev []M
	x := fmat(tc.X, tc.fm)
	o := tc.options()
	msg := safe(func() {
		if tc.reuse {
			// first, a tree on fewer rows with the very same options
			k := len(tc.X)/2 + 1
			s := *tc
			s.X, s.g, s.h = tc.X[:k], tc.g[:k], tc.h[:k]
			s.setOptions(o)
			if !tc.nilidx {
				o.Indexes = []int{0}
			}
			boo.NewTree(fmat(s.X, tc.fm), o)
			tc.setOptions(o)
		}
		t := boo.NewTree(x, o)
		ev = append(ev, nodesOf(t, tc.fm, tc.ga, tc.hb)...)
		if tc.dups() {
			tc.positions(ev)
		}
		q := fmat(tc.qs, tc.fm)
		all := t.Predict(q, nil)
		buf := make([]float64, len(q))
		for i := range buf {
			buf[i] = 77
		}
		all2 := t.Predict(q, buf)
		for i, v := range q {
			u := func(x float64) any { return fx(math.Ldexp(x, tc.hb-tc.ga), 1e6) }
			ev = append(ev, M{"e": "predict", "q": tc.qs[i], "one": u(t.PredictSingle(v)), "all": u(all[i]), "buf": u(buf[i]), "ret": u(all2[i])})
		}
		if tc.batch > 0 {
			// many vectors at once: what each would get alone
			bq := make([][]float64, tc.batch)
			for i := range bq {
				bq[i] = q[(i*7+i/len(q))%len(q)]
				if i%3 == 1 { // the very same one
					bq[i] = bq[i-1]
				}
			}
			bp := t.Predict(bq, nil)
			bb := make([]float64, tc.batch)
			t.Predict(bq, bb)
			same := len(bp) == tc.batch
			for i, v := range bq {
				o := t.PredictSingle(v)
				same = same && i < len(bp) && bp[i] == o && bb[i] == o
			}
			ev = append(ev, M{"e": "batch", "same": same})
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case("tree", tc.cfg(), ev)
}

func randInts(r *rand.Rand, n, lo, hi int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = lo + r.IntN(hi-lo+1)
	}
	return a
}

func choose[T any](r *rand.Rand, a ...T) T { return a[r.IntN(len(a))] }

func randSubset(r *rand.Rand, n int, p float64) []int {
	var s []int
	for i := 0; i < n; i++ {
		if r.Float64() < p {
			s = append(s, i)
		}
	}
	if len(s) == 0 {
		s = append(s, r.IntN(n))
	}
	return s
}

func randTree(r *rand.Rand, n, nf, v int) *treeCase {
	tc := &treeCase{xgb: r.IntN(2) == 0}
	for i := 0; i < n; i++ {
		tc.X = append(tc.X, randInts(r, nf, 0, v))
	}
	glim := choose(r, 1, 2, 3)
	tc.g = randInts(r, n, -glim, glim)
	tc.h = randInts(r, n, choose(r, 1, 1, 1, 0), choose(r, 1, 1, 2, 3))
	if !tc.xgb {
		for i := range tc.h {
			tc.h[i] = 1
		}
	}
	tc.mcw = choose(r, 0, 0.3, 1, 1, 1, 1.9, 2, 2, 3, 4.5, 7)
	tc.depth = choose(r, 0, 1, 2, 2, 3, 3, 4, 5)
	if tc.xgb {
		tc.lam = choose(r, 0, 0, 1, 2, 4, 6, 12)
		tc.gam = choose(r, 0, 0, 0, 1, 2, 4, 8)
	}
	if r.IntN(3) == 0 {
		tc.cols = randSubset(r, nf, 0.5)
		if r.IntN(2) == 0 {
			r.Shuffle(len(tc.cols), func(i, j int) { tc.cols[i], tc.cols[j] = tc.cols[j], tc.cols[i] })
		}
	}
	tc.nilidx = true
	if r.IntN(3) == 0 {
		tc.nilidx = false
		tc.rows = randSubset(r, n, 0.7)
		if r.IntN(3) == 0 {
			// with replacement
			tc.rows = randInts(r, 1+r.IntN(n), 0, n-1)
			if r.IntN(2) == 0 {
				sort.Ints(tc.rows)
			}
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(tc.rows), func(i, j int) { tc.rows[i], tc.rows[j] = tc.rows[j], tc.rows[i] })
		}
	}
	if r.IntN(3) == 0 {
		tc.fm = r.IntN(len(fmaps))
	}
	if r.IntN(3) == 0 {
		tc.ga = choose(r, -45, -20, -8, -3, 0, 5, 30)
		if tc.xgb {
			tc.hb = choose(r, -45, -20, -8, -3, 0, 5, 30)
		}
	}
	tc.reuse = r.IntN(8) == 0
	for i := 0; i < 4; i++ {
		tc.qs = append(tc.qs, randInts(r, nf, -1, v+1))
	}
	if r.IntN(3) == 0 {
		tc.qs[0][r.IntN(nf)] = choose(r, -100, 100) // infinite
	}
	tc.qs = append(tc.qs, tc.X[r.IntN(n)])
	return tc
}

// largeTree: many rows, many values, and options far above what is needed.
func largeTree(r *rand.Rand, n, nf, v int) *treeCase {
	tc := randTree(r, n, nf, v)
	tc.g = randInts(r, n, -choose(r, 1, 2), choose(r, 1, 2))
	if r.IntN(2) == 0 {
		// mostly a function of one feature
		f := r.IntN(nf)
		k := 1 + r.IntN(v)
		for i := range tc.g {
			if r.IntN(4) != 0 {
				tc.g[i] = 1
				if tc.X[i][f] < k {
					tc.g[i] = -1
				}
			}
		}
	}
	for i := range tc.h {
		tc.h[i] = 1
	}
	tc.lam = min(tc.lam, 4)
	tc.mcw = choose(r, 1, 2, 5, float64(n/10), float64(n/2), float64(n/2+1))
	tc.fm = choose(r, 0, 0, 1, 2, 3)
	if !tc.nilidx {
		tc.rows = randSubset(r, n, 0.9)
		r.Shuffle(len(tc.rows), func(i, j int) { tc.rows[i], tc.rows[j] = tc.rows[j], tc.rows[i] })
	}
	tc.batch = 300 + r.IntN(3000)
	return tc
}

func driveTree(w *W) {
	r := w.rng
	for i := 0; i < w.pick(14, 60); i++ {
		n, v := 250+r.IntN(300), choose(r, 3, 40, 400, 1000)
		if i == 0 {
			n, v = 1100+r.IntN(100), 1000
		}
		nf := choose(r, 1, 1, 2)
		if i == 1 {
			n, nf, v = 30, 300, 5 // and many features
		}
		vmax = v + 1
		tc := largeTree(r, n, nf, v)
		tc.depth = choose(r, 1, 2, 3)
		if i == 0 {
			tc.depth = 1
			tc.xgb, tc.lam, tc.gam, tc.hb = false, 0, 0, 0
			tc.cols, tc.nilidx = nil, true
		}
		if i == 2 {
			tc.mcw, tc.depth = choose(r, 1.0, 2, 5), 3
		}
		tc.run(w)
	}
	vmax = 11
	// every data set of a tiny universe: n rows, 1 feature, values 0..2
	for n := 2; n <= 4; n++ {
		tot := int(math.Pow(3, float64(n)))
		for c := 0; c < tot; c++ {
			if !w.thorough() && r.IntN(3) != 0 {
				continue
			}
			tc := randTree(r, n, 1, 2)
			cc := c
			for i := range tc.X {
				tc.X[i] = []int{cc % 3}
				cc /= 3
			}
			tc.run(w)
		}
	}
	for i := 0; i < w.pick(500, 4000); i++ {
		randTree(r, 2+r.IntN(9), 1+r.IntN(3), choose(r, 1, 2, 3, 5, 10)).run(w)
	}
	for i := 0; i < w.pick(60, 600); i++ {
		randTree(r, 10+r.IntN(30), 1+r.IntN(6), choose(r, 2, 4, 10)).run(w)
	}
	// no limit of depth to speak of
	for i := 0; i < w.pick(30, 200); i++ {
		tc := randTree(r, 5+r.IntN(60), 1+r.IntN(3), choose(r, 5, 11))
		tc.depth = choose(r, 20, 64, 100, 1000, 1<<20, math.MaxInt32-1)
		tc.mcw = choose(r, 0.0, 1.0, 2)
		tc.lam, tc.gam = min(tc.lam, 4), 0
		tc.batch = r.IntN(2000)
		tc.run(w)
	}
	// chains: each split takes one row off
	for i := 0; i < w.pick(12, 60); i++ {
		n := 20 + r.IntN(choose(r, 10, 40))
		vmax = n
		tc := randTree(r, n, 1+r.IntN(2), n-1)
		for j, v := range r.Perm(n) {
			tc.X[j][0] = v
			tc.g[j] = 1 - 2*(v%2)
			tc.h[j] = 1
		}
		tc.fm, tc.mcw, tc.lam, tc.gam = choose(r, 0, 1, 2), 1, 0, 0
		tc.depth = choose(r, n/2, n, 2*n, 1000)
		if i%4 != 0 {
			tc.cols, tc.nilidx = []int{0}, true
		}
		tc.run(w)
	}
	vmax = 11
	for i := 0; i < w.pick(8, 60); i++ {
		tc := randTree(r, 60+r.IntN(50), 8+r.IntN(5), 10)
		tc.depth = 6 + r.IntN(4)
		tc.mcw = choose(r, 1.0, 2, 6)
		tc.run(w)
	}
}
