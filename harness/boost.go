package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

func init() {
	drivers["boost"] = driveBoost
	drivers["stop"] = driveStop
	drivers["sample"] = driveSample
}

// sloss is a loss function whose gradients, hessians and losses are chosen by
// the check, and that records at which probabilities they were asked for.
type sloss struct {
	cls   []int // class index of each row
	h     []float64
	grad  func(k, call int) []float64 // gradients of the call-th tree of class k
	lossv func(k, call int) float64
	onG   func(k int, p []float64, g []float64)
	onH   func(p []float64)
	onL   func(k int, p []float64, v float64)
	calls map[int]int
}

func (s *sloss) Name() string { return "scripted" }

func (s *sloss) class(y *mat.Dense) int {
	for i, v := range y.RawMatrix().Data {
		if v == 1 {
			return s.cls[i]
		}
	}
	return -1
}

func fill(vals []float64, res *mat.Dense, like *mat.Dense, scale float64) *mat.Dense {
	r, c := like.Dims()
	if res == nil {
		res = mat.NewDense(r, c, nil)
	}
	d := res.RawMatrix().Data
	for i, v := range vals {
		d[i] = v * scale
	}
	return res
}

func (s *sloss) g(y, p *mat.Dense) []float64 {
	k := s.class(y)
	if s.calls == nil {
		s.calls = map[int]int{}
	}
	s.calls[k]++
	g := s.grad(k, s.calls[k])
	if s.onG != nil {
		s.onG(k, append([]float64{}, p.RawMatrix().Data...), g)
	}
	return g
}

func (s *sloss) Gradients(y, p, res *mat.Dense) *mat.Dense    { return fill(s.g(y, p), res, y, 1) }
func (s *sloss) NegGradients(y, p, res *mat.Dense) *mat.Dense { return fill(s.g(y, p), res, y, -1) }
func (s *sloss) Hessian(p, res *mat.Dense) *mat.Dense {
	if s.onH != nil {
		s.onH(append([]float64{}, p.RawMatrix().Data...))
	}
	return fill(s.h, res, p, 1)
}
func (s *sloss) Loss(y, p, tmp *mat.Dense) float64 {
	k := s.class(y)
	v := 0.5
	if s.lossv != nil {
		v = s.lossv(k, s.calls[k])
	}
	if s.onL != nil {
		s.onL(k, append([]float64{}, p.RawMatrix().Data...), v)
	}
	return v
}

// modelText writes a model and returns its text.
func modelText(m *boo.MultiClass) (string, error) {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	if err := boo.JSONMultiClass(m, "softmax", w); err != nil {
		return "", err
	}
	w.Flush()
	return b.String(), nil
}

type jtree struct {
	round, class int
	nodes        []*utils.JSONNode
}

// metaData is the first line of the file of a model.
type metaData struct {
	LearningRate      float64
	ClassLabels       []int
	ProbTransformName string
	BaseScore         float64
	XGB               bool
}

// parseModel splits the text of a model into its trees.
func parseModel(text string) (meta metaData, rounds int, trees []jtree, err error) {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if err = json.Unmarshal([]byte(lines[0]), &meta); err != nil {
		return
	}
	rounds = 0
	for _, l := range lines[1:] {
		switch {
		case strings.HasPrefix(l, "ROUND"):
			rounds++
		case strings.HasPrefix(l, "CLASS"):
			c := 0
			if _, err = fmt.Sscanf(l, "CLASS %d", &c); err != nil {
				return
			}
			trees = append(trees, jtree{rounds, c, nil})
		default:
			j := &utils.JSONNode{}
			if err = json.Unmarshal([]byte(l), j); err != nil {
				return
			}
			if len(trees) == 0 {
				err = fmt.Errorf("node outside of a tree")
				return
			}
			t := &trees[len(trees)-1]
			t.nodes = append(t.nodes, j)
		}
	}
	return
}

// nodesJ projects the nodes of a tree; scale is that of the values.
func nodesJ(t jtree, fm int, scale float64) []M {
	ret := []M{}
	for _, j := range t.nodes {
		n := M{"leaf": j.Leaf, "ns": j.Nsamples, "f": 0, "thr": 0, "val": 0}
		if j.Leaf {
			n["val"] = fx(j.Value, scale)
		} else {
			n["f"], n["thr"] = j.SplitFeatureIndex+1, thrInt(j.Threshold, fm)
		}
		ret = append(ret, n)
	}
	return ret
}

// treesByRound gives, for each round and class, the list of nodes (empty: no tree).
func treesByRound(rounds, K int, trees []jtree, fm int, scale float64) [][]any {
	ret := make([][]any, rounds)
	for r := range ret {
		ret[r] = make([]any, K)
		for k := range ret[r] {
			ret[r][k] = []M{}
		}
	}
	for _, t := range trees {
		if t.class >= 0 && t.class < K {
			ret[t.round-1][t.class] = nodesJ(t, fm, scale)
		}
	}
	return ret
}

type boostCase struct {
	xgb    bool
	exact  bool // scores in multiples of ln 2, any number of classes
	X      [][]int
	lab    []int // class indexes, in order of first appearance
	labels []int // the actual labels of the classes
	K      int
	R, E   int
	h      []int
	lam    int
	gam    int
	lr     int // eighths
	base   int // quarters
	mcw    float64
	depth  int
	fm     int
	g      map[[2]int][]int // class, call
	loss   map[[2]int]int   // class, call: see lossOf
	lscale int
	qs     [][]int
	minSam int
	sub    int // row sub-sampling, in sixteenths (0: none)
	csub   int
	hb     int // gradients, hessians, lambda and gamma are multiplied by 2^hb, which leaves the leaf values as they are
}

// The losses of the specification: 0 is exactly the stopping threshold, 1 is
// just above it, the others are ordinary, on any scale: the differences among
// them can be huge, or as small as they can be.
func lossOf(v, scale int) float64 {
	switch v {
	case -1:
		return []float64{1e-9, 0, math.Nextafter(1e-6, 0), -1}[scale%4]
	case 0:
		return 1e-6
	case 1:
		return math.Nextafter(1e-6, 1)
	}
	switch scale {
	case 1:
		return 1 + 1e-12*float64(v)
	case 2:
		return 0.25 + math.Ldexp(float64(v), -54) // neighbours
	case 3:
		return 1e300 * float64(v)
	case 4:
		return 1e-6 + 1e-20*float64(v)
	case 5:
		return 0.3 + 1e-8*float64(v)
	case 6:
		return 0.3 + 1e-5*float64(v)
	}
	return 0.01 * float64(v)
}

func (b *boostCase) data() *utils.DataBunch {
	d := &utils.DataBunch{Data: fmat(b.X, b.fm)}
	for _, k := range b.lab {
		d.Labels = append(d.Labels, b.labels[k])
	}
	return d
}

func (b *boostCase) opts(l *sloss) *boo.Options {
	o := boo.DefaultGOptions()
	if b.xgb {
		o = boo.DefaultXOptions()
	}
	o.XGB, o.Rounds, o.MaxDepth, o.EarlyStop, o.MinSample = b.xgb, b.R, b.depth, b.E, b.minSam
	o.LearningRate, o.Lambda, o.Gamma = float64(b.lr)/8, math.Ldexp(float64(b.lam), b.hb-2), math.Ldexp(float64(b.gam), b.hb-2)
	o.MinChildWeight, o.SubSample, o.ColSubSample = b.mcw, 1, 1
	o.BaseScore = float64(b.base) / 4
	if b.sub > 0 {
		o.SubSample = float64(b.sub) / 16
	}
	if b.csub > 0 {
		o.ColSubSample = float64(b.csub) / 16
	}
	o.Loss = l
	return o
}

func (b *boostCase) unit() float64 {
	if b.exact {
		return math.Ln2
	}
	return 1
}

// projection of probabilities of one class: log-odds (two classes), or millionths
func (b *boostCase) proj(p []float64) []int {
	r := make([]int, len(p))
	for i, v := range p {
		if b.exact {
			r[i] = fx(v, 1e6)
		} else {
			r[i] = fx(math.Log(v)-math.Log1p(-v), 1e6)
		}
	}
	return r
}

func (b *boostCase) scale() float64 {
	if b.exact {
		return 1000 / math.Ln2
	}
	return 1e6
}

func (b *boostCase) run(w *W, kind string) {
	ev := []M{}
	l := &sloss{cls: b.lab, h: scaled(b.h, b.hb)}
	l.grad = func(k, call int) []float64 {
		r := floatsOf(b.g[[2]int{k, call}])
		if len(r) == 0 {
			r = make([]float64, len(b.X))
		}
		for i := range r {
			r[i] = math.Ldexp(r[i]*b.unit(), b.hb)
		}
		return r
	}
	if b.loss != nil {
		l.lossv = func(k, call int) float64 { return lossOf(b.loss[[2]int{k, call}], b.lscale) }
	}
	l.onG = func(k int, p, g []float64) {
		gi := make([]int, len(g))
		for i := range g {
			gi[i] = int(math.Round(math.Ldexp(g[i], -b.hb) / b.unit()))
		}
		ev = append(ev, M{"e": "grad", "k": k + 1, "p": b.proj(p), "g": gi})
	}
	l.onH = func(p []float64) { ev = append(ev, M{"e": "hess", "p": b.proj(p)}) }
	l.onL = func(k int, p []float64, v float64) {
		lv := 0
		if b.loss != nil {
			lv = b.loss[[2]int{k, l.calls[k]}]
		}
		ev = append(ev, M{"e": "loss", "k": k + 1, "p": b.proj(p), "v": lv})
	}
	mcw := int(b.mcw)
	if mcw < 1 {
		mcw = 1
	}
	cfg := M{"xgb": b.xgb, "exact": b.exact, "X": b.X, "cls": inc(b.lab), "K": b.K, "R": b.R, "E": b.E, "h": b.h, "lam": b.lam, "gam": b.gam,
		"lr": b.lr, "base": b.base, "mcw": mcw, "depth": b.depth, "sub": b.xgb && (b.sub > 0 || b.csub > 0), "trees": [][]any{}, "fm": b.fm, "hb": b.hb, "labels": b.labels}
	msg := safe(func() {
		o := b.opts(l)
		m := boo.NewMultiClass(b.data(), o)
		text, err := modelText(m)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		meta, rounds, trees, err := parseModel(text)
		if err != nil {
			ev = append(ev, M{"e": "writeerror", "msg": err.Error()})
			return
		}
		_ = meta
		cfg["trees"] = treesByRound(rounds, b.K, trees, b.fm, b.scale())
		rs := []int{}
		for k := 0; k < b.K; k++ {
			rs = append(rs, m.Rounds(k))
		}
		ev = append(ev, M{"e": "done", "rounds": rs, "r0": m.Rounds(), "classes": m.Classes(), "oor": m.Rounds(b.K), "oor2": m.Rounds(b.K + 3), "labels": m.ClassLabels()})
		for _, q := range b.qs {
			x := fmat([][]int{q}, b.fm)[0]
			p := m.PredictSingle(x)
			buf := make([]float64, b.K+len(q)%2*3) // perhaps longer than needed
			for i := range buf {
				buf[i] = 0.3 + float64(i/b.K)
			}
			p2 := append([]float64{}, m.PredictSingle(x, buf)...)
			c := m.PredictSingleClass(x)
			c2 := m.PredictSingleClass(x, buf)
			e := M{"e": "predict", "q": q, "class": c + 1, "class2": c2 + 1, "np": len(p), "same": fmt.Sprint(p) == fmt.Sprint(p2)}
			s := 0.0
			for _, v := range p {
				s += v
			}
			e["sum"] = fx(s, 1e6)
			if b.exact {
				e["p"] = b.proj(p)
			} else if len(p) == 2 {
				e["p"] = []int{fx(math.Log(p[0])-math.Log(p[1]), 1e6), fx(math.Log(p[1])-math.Log(p[0]), 1e6)}
			} else {
				e["p"] = []int{}
			}
			ev = append(ev, e)
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case(kind, cfg, ev)
}

// labelling gives K classes to n rows, in order of first appearance.
func labelling(r *rand.Rand, n, K int) []int {
	raw := make([]int, n)
	perm := r.Perm(n)
	for i, v := range perm {
		if i < K {
			raw[v] = i
		} else {
			raw[v] = r.IntN(K)
		}
	}
	m := map[int]int{}
	ret := make([]int, n)
	for i, v := range raw {
		if _, ok := m[v]; !ok {
			m[v] = len(m)
		}
		ret[i] = m[v]
	}
	return ret
}

func someLabels(r *rand.Rand, K int) []int {
	p := r.Perm(3*K + 1)
	ret := make([]int, K)
	for i := range ret {
		ret[i] = p[i] - 2
	}
	return ret
}

func randBoost(r *rand.Rand, exact bool, many ...int) *boostCase {
	b := &boostCase{exact: exact, xgb: r.IntN(2) == 0, g: map[[2]int][]int{}}
	n := 3 + r.IntN(6)
	if len(many) > 0 {
		n = many[0]
	}
	if exact {
		b.K = 1 + r.IntN(5)
		if n < b.K {
			n = b.K
		}
		b.R = r.IntN(5)
		b.depth, b.mcw = 9, 1
		perm := r.Perm(n)
		for i := 0; i < n; i++ {
			b.X = append(b.X, []int{perm[i], r.IntN(3)})
			b.h = append(b.h, 1)
		}
		b.lr = choose(r, 8, 8, 8, 4, 4, 16, 24)
		b.base = choose(r, 0, 2, -3, 4)
	} else {
		b.K = 2
		b.R = choose(r, 1, 1, 2, 3, 4)
		n += r.IntN(6)
		nf := 1 + r.IntN(3)
		v := choose(r, 1, 2, 5, 9)
		hm := choose(r, 1, 2)
		zero := !b.xgb && r.IntN(3) == 0
		for i := 0; i < n; i++ {
			b.X = append(b.X, randInts(r, nf, 0, v))
			h := 1 + r.IntN(hm)
			if zero && r.IntN(2) == 0 {
				h = 0
			}
			b.h = append(b.h, h)
		}
		b.depth = choose(r, 0, 1, 2, 2, 3, 4)
		b.mcw = choose(r, 0, 0.5, 1, 1, 1.5, 1.9, 2, 2.7, 3)
		b.lr = choose(r, 1, 2, 4, 8, 12, 20, 40)
		b.base = choose(r, 0, 2, -6, 8)
		if b.xgb {
			b.lam = choose(r, 0, 1, 4, 6)
			b.gam = choose(r, 0, 0, 1, 4)
		}
		if r.IntN(4) == 0 {
			b.fm = r.IntN(len(fmaps))
		}
	}
	if r.IntN(4) == 0 {
		b.hb = choose(r, -100, -45, -20, 30)
	}
	b.lab = labelling(r, n, b.K)
	b.labels = someLabels(r, b.K)
	b.minSam = choose(r, 0, 1, n)
	glim := choose(r, 1, 2, 3)
	for k := 0; k < b.K; k++ {
		for c := 1; c <= b.R; c++ {
			if exact {
				g := randInts(r, n, -1, 1)
				if b.lr == 4 {
					for i := range g {
						g[i] *= 2
					}
				}
				b.g[[2]int{k, c}] = g
			} else {
				b.g[[2]int{k, c}] = randInts(r, n, -glim, glim)
			}
		}
	}
	if r.IntN(3) == 0 { // with some classes stopped early
		b.E = 1 + r.IntN(2)
		b.randLoss(r)
	}
	if r.IntN(4) == 0 {
		// with sub-sampling (which regular boosting must ignore)
		if !b.xgb || !exact {
			b.sub, b.csub, b.minSam = choose(r, 4, 8, 12), choose(r, 0, 8), choose(r, 0, 1, n/2)
		}
		if b.xgb && !exact && b.lam == 0 {
			b.lam = 4
		}
	}
	for i := 0; i < 3; i++ {
		q := randInts(r, len(b.X[0]), -1, 8)
		b.qs = append(b.qs, q)
	}
	b.qs = append(b.qs, b.X[r.IntN(n)])
	return b
}

// wide is a run with many classes, or many rounds. Every row can get a leaf of
// its own; the scores stay within a few steps.
func wide(r *rand.Rand, K, R int) *boostCase {
	b := randBoost(r, true)
	n := K + r.IntN(6)
	b.K, b.R, b.E, b.loss, b.depth, b.lr = K, R, 0, nil, 2*n, 8
	b.X, b.h, b.fm = nil, nil, 0
	for _, v := range r.Perm(n) {
		b.X = append(b.X, []int{v, r.IntN(3)})
		b.h = append(b.h, 1)
	}
	b.lab, b.labels = labelling(r, n, K), someLabels(r, K)
	b.sub, b.csub, b.minSam = 0, 0, choose(r, 0, 1, n)
	b.g = map[[2]int][]int{}
	for k := 0; k < K; k++ {
		at := make([]int, n)
		for c := 1; c <= R; c++ {
			g := make([]int, n)
			for i := range g {
				g[i] = r.IntN(3) - 1
				if v := at[i] - g[i]; v > 3 || v < -3 {
					g[i] = 0
				}
				at[i] -= g[i]
			}
			b.g[[2]int{k, c}] = g
		}
	}
	b.qs = [][]int{b.X[0], b.X[n-1], {-1, 0}, {n, 2}}
	return b
}

func (b *boostCase) runWide(w *W, kind string) {
	vmax = len(b.X)
	defer func() { vmax = 11 }()
	b.run(w, kind)
}

// falls gives losses that fall for long, until somewhere they don't.
func (b *boostCase) falls(r *rand.Rand) {
	b.loss, b.lscale = map[[2]int]int{}, choose(r, 0, 1, 3, 5)
	flat := r.IntN(2) == 0 // for long: about as long as needed to stop
	for k := 0; k < b.K; k++ {
		at := 1 + r.IntN(b.R+b.R/2)
		v := 2*b.R + 10
		for c := 1; c <= b.R; c++ {
			if flat {
				if c < at || c >= at+b.E+r.IntN(3)-1 {
					v--
				} else if r.IntN(4) == 0 {
					v++
				}
			} else if c < at || r.IntN(3) == 0 {
				v--
			} else if r.IntN(3) == 0 {
				v++
			}
			b.loss[[2]int{k, c}] = v
		}
		if r.IntN(4) == 0 && at <= b.R {
			b.loss[[2]int{k, at}] = choose(r, -1, 0, 1)
		}
	}
}

func (b *boostCase) randLoss(r *rand.Rand) {
	b.loss = map[[2]int]int{}
	for k := 0; k < b.K; k++ {
		for c := 1; c <= b.R; c++ {
			v := 2 + r.IntN(4)
			if r.IntN(12) == 0 {
				v = choose(r, -1, 0, 1)
			}
			b.loss[[2]int{k, c}] = v
		}
	}
}

func driveBoost(w *W) {
	for i := 0; i < w.pick(250, 2500); i++ {
		randBoost(w.rng, false).run(w, "boost")
	}
	for i := 0; i < w.pick(250, 2500); i++ {
		randBoost(w.rng, true).run(w, "boost")
	}
	for i := 0; i < w.pick(10, 60); i++ {
		b := randBoost(w.rng, false, 150+w.rng.IntN(300))
		b.R = min(b.R, 2)
		b.run(w, "boost")
	}
	// chains: each split takes one row off, far down
	for i := 0; i < w.pick(6, 40); i++ {
		r := w.rng
		n := 18 + r.IntN(14)
		b := randBoost(r, false, n)
		n = len(b.X)
		vmax = n
		b.R, b.fm, b.mcw, b.lam, b.gam, b.depth = min(b.R, 2), choose(r, 0, 1, 2), 1, 0, 0, choose(r, n, 60, 1000)
		b.sub, b.csub, b.minSam = 0, 0, 1
		for j, v := range r.Perm(n) {
			b.X[j], b.h[j] = []int{v}, 1
			for k := 0; k < b.K; k++ {
				for c := 1; c <= b.R; c++ {
					b.g[[2]int{k, c}][j] = 1 - 2*(v%2)
				}
			}
		}
		b.qs = [][]int{{-1}, {n}, {n / 2}, {r.IntN(n)}}
		b.run(w, "boost")
		vmax = 11
	}
	for i := 0; i < w.pick(6, 40); i++ {
		r := w.rng
		wide(r, 10+r.IntN(30), 1+r.IntN(3)).runWide(w, "boost")
		wide(r, 1+r.IntN(3), []int{50, 120, 260}[i%3]+r.IntN(60)).runWide(w, "boost")
	}
	for i := 0; i < w.pick(40, 400); i++ {
		longRun(w)
	}
}

// longRun trains for long with the losses of the library, until the
// probabilities saturate: whatever happens, predictions are distributions.
func longRun(w *W) {
	r := w.rng
	n, K := 2+r.IntN(9), 1+r.IntN(4)
	if K > n {
		K = n
	}
	D := &utils.DataBunch{Labels: labelling(r, n, K), Keys: []string{"a", "b"}}
	for i := 0; i < n; i++ {
		D.Data = append(D.Data, []float64{float64(r.IntN(choose(r, 1, 4, 10))), float64(i % (1 + r.IntN(4)))})
	}
	o := boo.DefaultXOptions()
	o.XGB = r.IntN(3) > 0
	o.EarlyStop = 0
	o.Rounds = choose(r, 40, 150, 400)
	o.LearningRate = choose(r, 0.3, 1, 1, 5)
	o.Lambda = choose(r, 0, 0, 0, 1e-9, 1)
	o.Gamma = choose(r, 0, 0, 0.1)
	o.SubSample, o.ColSubSample = 1, 1
	o.MinSample = 1
	o.MinChildWeight = choose(r, 1.0, 1, 2)
	o.MaxDepth = 1 + r.IntN(4)
	o.BaseScore = choose(r, 0, 0.5, -3)
	o.Loss = &utils.MSELoss{}
	if r.IntN(4) == 0 {
		o.Loss = &utils.SQErrLoss{}
	}
	ev := []M{}
	msg := safe(func() {
		m := boo.NewMultiClass(D, o)
		_, err := modelText(m)
		for i := 0; i < n; i++ {
			p := m.PredictSingle(D.Data[i])
			ps, sum := []int{}, 0.0
			for _, v := range p {
				ps = append(ps, fx(v, 1e6))
				sum += v
			}
			ev = append(ev, M{"e": "dist", "p": ps, "sum": fx(sum, 1e6), "class": m.PredictSingleClass(D.Data[i]) + 1, "werr": err != nil})
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	} else {
		ev = append(ev, M{"e": "end"})
	}
	w.Case("boost", M{"X": [][]int{}, "K": K, "R": 0, "trees": []int{}, "sub": false, "opts": o.String(), "data": D.Data, "lab": D.Labels}, ev)
}

// driveStop replays histories of losses produced by the specification, and random ones.
func driveStop(w *W) {
	r := w.rng
	mk := func(K, R, E int) *boostCase {
		b := randBoost(r, true)
		b.K, b.R, b.E = K, R, E
		n := K + 1 + r.IntN(4)
		perm := r.Perm(n)
		b.X, b.h = nil, nil
		for i := 0; i < n; i++ {
			b.X = append(b.X, []int{perm[i] % 10, r.IntN(3)})
			b.h = append(b.h, 1)
		}
		b.lab = labelling(r, n, K)
		b.labels = someLabels(r, K)
		b.minSam = choose(r, 0, 1, n)
		b.lr = 8
		b.g = map[[2]int][]int{}
		for k := 0; k < K; k++ {
			for c := 1; c <= R; c++ {
				b.g[[2]int{k, c}] = randInts(r, n, -1, 1)
			}
		}
		b.qs = b.X[:min(3, n)]
		b.sub, b.csub = 0, 0
		if r.IntN(2) == 0 {
			b.lscale = r.IntN(7)
		}
		return b
	}
	for _, s := range readScen() {
		E := int(s["E"].(float64))
		ls := s["loss"].([]any) // per class, the losses in order
		K := len(ls)
		R := int(s["R"].(float64))
		b := mk(K, R, E)
		b.loss = map[[2]int]int{}
		for k := range ls {
			for c, v := range ints(ls[k]) {
				b.loss[[2]int{k, c + 1}] = v
			}
			// a class that should have been stopped gets an ordinary falling loss
			for c := len(ints(ls[k])) + 1; c <= R; c++ {
				b.loss[[2]int{k, c}] = 100 - c
			}
		}
		b.run(w, "stop")
	}
	for i := 0; i < w.pick(150, 2000); i++ {
		b := mk(1+r.IntN(5), 1+r.IntN(14), choose(r, 0, 1, 1, 2, 2, 3, 4, 6))
		b.randLoss(r)
		if i%4 == 0 { // some rounds are not performed
			b.xgb, b.lam, b.sub, b.minSam = true, 4, choose(r, 6, 8, 12), len(b.X)/2+1
		}
		b.run(w, "stop")
	}
	for i := 0; i < w.pick(12, 80); i++ {
		b := wide(r, 10+r.IntN(30), 1+r.IntN(10))
		if i%2 == 0 {
			b = wide(r, 1+r.IntN(4), []int{40, 120, 260}[i/2%3]+r.IntN(60))
		}
		b.E = choose(r, 0, 1, 2, 5, 20, 30, 60)
		if i%6 > 1 && i%2 == 0 {
			b.E = choose(r, 20, 40, 60, 80)
		}
		b.falls(r)
		b.runWide(w, "stop")
	}
}
