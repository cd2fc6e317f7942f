package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

func init() {
	drivers["grid"] = driveGrid
	drivers["climb"] = driveClimb
	drivers["live"] = driveLive
}

type searchCase struct {
	search string
	g      *cv.GridOptions
	D      *utils.DataBunch
	nfold  int
	fails  bool
	center *boo.Options // step
	fd     int          // sixty-fourths
	sends  int
	unbuf  bool
	gate   bool
	bare   bool // no options are given
	procs  int
	scale  float64
	evals  map[int]*evalAt
	raw    []float64 // accuracies, to be ranked
	mu     sync.Mutex
	ev     []M
}

func ex(v float64, scale float64) int { // exact multiples only (up to rounding, if they are decimal)
	r := fx(v, scale)
	if float64(r)/scale != v && (scale != 100 || math.Abs(float64(r)/scale-v) > 1e-9) {
		return big + 5
	}
	return r
}

func vals(o *boo.Options, f func(float64) int) []int {
	return []int{o.Rounds, o.MaxDepth, f(o.MinChildWeight), f(o.LearningRate), f(o.Lambda), f(o.Gamma), f(o.SubSample), f(o.ColSubSample)}
}

func optFinite(o *boo.Options) bool {
	for _, v := range []float64{o.MinChildWeight, o.LearningRate, o.Lambda, o.Gamma, o.SubSample, o.ColSubSample, o.BaseScore} {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

func optKey(o *boo.Options) string {
	c := *o
	c.Loss = nil
	return fmt.Sprintf("%+v", c)
}

// unsearched: what is not in the search space is as in the default options
func unsearched(o, d *boo.Options) bool {
	l := func(o *boo.Options) string {
		if o.Loss == nil {
			return ""
		}
		return o.Loss.Name()
	}
	return o.MinSample == d.MinSample && o.TreeMethod == d.TreeMethod && l(o) == l(d)
}

// evalAt: an evaluation of a gradient step: which hyperparameters it changed, and how
type evalAt struct {
	at    []float64
	conc  bool
	dims  []int
	above bool
	acc   float64
	done  bool
}

func fvals(o *boo.Options) []float64 {
	return []float64{float64(o.Rounds), float64(o.MaxDepth), o.MinChildWeight, o.LearningRate, o.Lambda, o.Gamma, o.SubSample, o.ColSubSample}
}

// candidates: for each hyperparameter, the values that a gradient step may try, from the
// longest move to the shortest, given the accuracies that it found. For central differences
// the scale of the derivative is left open (two alternatives). Empty if the evaluations can't be told apart.
func (s *searchCase) candidates(center *boo.Options) [][][]int {
	var es []*evalAt
	for _, e := range s.evals {
		es = append(es, e)
	}
	return s.moves(fvals(center), es, float64(s.fd)/64)
}

func (s *searchCase) moves(c []float64, evals []*evalAt, fd float64) [][][]int {
	ret := make([][][]int, 8)
	for i := range ret {
		ret[i] = [][]int{}
	}
	var here []*evalAt
	for _, e := range evals {
		if !e.done {
			return ret
		}
		if len(e.dims) == 0 {
			here = append(here, e)
		}
	}
	g := s.g
	unit := []float64{float64(g.Rounds[2]), 0, 0, g.LearningRate[2], g.Lambda[2], g.Gamma[2], g.SubSample[2], g.ColSubSample[2]}
	for _, d := range []int{0, 3, 4, 5, 6, 7} {
		find := func(above bool) *evalAt {
			for _, e := range evals {
				if len(e.dims) == 1 && e.dims[0] == d && e.above == above {
					return e
				}
			}
			return nil
		}
		hi, lo := find(true), find(false)
		h := fd * c[d]
		var ders []float64
		switch {
		case hi == nil:
		case g.Central && lo != nil:
			diff := hi.acc - lo.acc
			ders = []float64{diff / 2 * h, diff / (2 * h)}
		case !g.Central && len(here) == 1:
			ders = []float64{(hi.acc - here[0].acc) / h}
		}
		for _, der := range ders {
			var seq []int
			for st := g.Step; st > 0.1*g.Step; st -= st * 0.2 {
				if d == 0 {
					seq = append(seq, fx(c[d]+math.Trunc(der*unit[d]*st), 1))
				} else {
					seq = append(seq, fx(c[d]+der*unit[d]*st, 1e4))
				}
			}
			ret[d] = append(ret[d], seq)
		}
	}
	return ret
}

func (s *searchCase) acc(v float64) int {
	s.raw = append(s.raw, v)
	return len(s.raw) - 1 // replaced by its rank later
}

func (s *searchCase) add(m M) {
	s.mu.Lock()
	s.ev = append(s.ev, m)
	s.mu.Unlock()
}

// gate lets the evaluations that are about to end go on one by one, in a random order, once
// no more of them arrive.
type gate struct {
	mu      sync.Mutex
	waiting []chan struct{}
	last    time.Time
	stop    chan struct{}
	r       *rand.Rand
}

func newGate(seed uint64, quiet time.Duration) *gate {
	g := &gate{stop: make(chan struct{}), r: rand.New(rand.NewPCG(seed, 7))}
	go func() {
		t := time.NewTicker(quiet / 2)
		defer t.Stop()
		for {
			select {
			case <-g.stop:
				g.mu.Lock()
				for _, c := range g.waiting {
					close(c)
				}
				g.waiting = nil
				g.mu.Unlock()
				return
			case <-t.C:
			}
			g.mu.Lock()
			if len(g.waiting) > 0 && time.Since(g.last) > quiet {
				i := g.r.IntN(len(g.waiting))
				close(g.waiting[i])
				g.waiting = append(g.waiting[:i], g.waiting[i+1:]...)
			}
			g.mu.Unlock()
		}
	}()
	return g
}

func (g *gate) wait(int) {
	select {
	case <-g.stop:
		return
	default:
	}
	c := make(chan struct{})
	g.mu.Lock()
	g.waiting = append(g.waiting, c)
	g.last = time.Now()
	g.mu.Unlock()
	select {
	case <-c:
	case <-g.stop:
	}
}

// leftovers counts the goroutines with frames of the code under test.
func leftovers() (int, string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	c, txt := 0, ""
	for i, g := range strings.Split(string(buf[:n]), "\n\n") {
		if i == 0 {
			continue // this one
		}
		if strings.Contains(g, "rmera/boo") {
			c++
			txt = g
		}
	}
	return c, txt
}

var hung = false

func (s *searchCase) run(w *W, kind string) {
	if hung {
		return
	}
	if s.scale == 0 {
		s.scale = 64
	}
	if s.procs > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(s.procs))
	}
	var center *boo.Options
	if s.center != nil {
		center = s.center.Clone() // it may be changed in place
	}
	s.evals = map[int]*evalAt{}
	cv.VerifHook = func(e cv.VerifEvent) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if e.End {
			if x := s.evals[e.ID]; x != nil {
				x.acc, x.done = e.Acc, true
			}
			s.ev = append(s.ev, M{"e": "end", "id": e.ID, "rank": s.acc(e.Acc), "err": e.Err != nil})
			return
		}
		o := e.O
		if o == nil {
			o = boo.DefaultXOptions()
		}
		if center == nil {
			s.evals[e.ID] = &evalAt{at: fvals(o), conc: e.Conc}
		} else {
			x := &evalAt{}
			c := fvals(center)
			for i, v := range fvals(o) {
				if v != c[i] {
					x.dims = append(x.dims, i)
					x.above = v > c[i]
				}
			}
			s.evals[e.ID] = x
		}
		def := center
		if def == nil {
			def = boo.DefaultGOptions()
			if o.XGB {
				def = boo.DefaultXOptions()
			}
		}
		s.ev = append(s.ev, M{"e": "begin", "rest": unsearched(o, def) && (s.search != "grid" || o.BaseScore == def.BaseScore), "id": e.ID, "conc": e.Conc, "nfold": e.NFold, "key": optKey(o),
			"v": vals(o, func(v float64) int { return ex(v, s.scale) }), "x": vals(o, func(v float64) int { return fx(v, 1e4) }),
			"finite": optFinite(o), "xgb": o.XGB, "es": o.EarlyStop})
	}
	cv.VerifGate = nil
	var gt *gate
	if s.gate {
		gt = newGate(w.rng.Uint64(), 3*time.Millisecond)
		cv.VerifGate = gt.wait
	}
	cfg := M{"search": s.search, "nfold": s.nfold, "fails": s.fails, "ncpus": s.g.NCPUs, "xgb": s.g.XGB, "es": s.g.EarlyStop, "central": s.g.Central,
		"fd": s.fd, "minsample": 0, "sends": s.sends, "center": []int{}, "inside": true, "valid": false, "procs": s.procs, "gated": s.gate, "nsteps": s.g.NSteps, "bare": s.bare,
		"grid": fmt.Sprintf("%+v", *s.g), "n": len(s.D.Data)}
	e := func(a [3]float64, sc float64) []int { return []int{ex(a[0], sc), ex(a[1], sc), ex(a[2], sc)} }
	g := s.g
	cfg["space"] = [][]int{g.Rounds[:], g.MaxDepth[:], e(g.MinChildWeight, s.scale), e(g.LearningRate, s.scale), e(g.Lambda, s.scale), e(g.Gamma, s.scale), e(g.SubSample, s.scale), e(g.ColSubSample, s.scale)}
	b := func(a [3]float64) []int { return []int{fx(a[0], 1e4), fx(a[1], 1e4)} }
	cfg["box"] = [][]int{g.Rounds[:2], g.MaxDepth[:2], b(g.MinChildWeight), b(g.LearningRate), b(g.Lambda), b(g.Gamma), b(g.SubSample), b(g.ColSubSample)}
	if s.center != nil {
		cfg["center"] = vals(s.center, func(v float64) int { return fx(v, 1e4) })
		in := s.center.MinSample >= 1
		cfg["valid"] = !s.fails && s.center.Check() == nil
		cfg["minsample"] = s.center.MinSample
		for i, v := range cfg["center"].([]int) {
			bx := cfg["box"].([][]int)[i]
			if v < bx[0] || v > bx[1] {
				in = false
			}
		}
		cfg["inside"] = in
	}
	ret := make(chan M, 1)
	go func() {
		m := M{"e": "ret", "err": false, "nil": true, "best": 0, "accs": []int{}, "key": "", "x": []int{}, "finite": true, "sent": 0, "kept": true, "cand": []int{}}
		var best float64
		var accs []float64
		var o *boo.Options
		var err error
		opts := []*cv.GridOptions{s.g}
		if s.bare {
			opts = opts[:len(s.D.Data)%2]
			if len(opts) > 0 {
				opts[0] = nil
			}
		}
		msg := safe(func() {
			switch s.search {
			case "grid":
				best, accs, o, err = cv.Grid(s.D, s.nfold, opts...)
			case "gradient":
				best, accs, o, err = cv.GradientGrid(s.D, s.nfold, opts...)
			case "hybrid":
				best, accs, o, err = cv.HybridGradientGrid(s.D, s.nfold, opts...)
			case "step":
				var out chan *boo.Options
				sent := 0
				fin := make(chan struct{})
				stop := make(chan struct{})
				if s.sends > 0 {
					n := 4
					if s.unbuf {
						n = 0
					}
					out = make(chan *boo.Options, n)
					go func() {
						defer close(fin)
						for {
							select {
							case <-out:
								sent++
							case <-stop:
								for len(out) > 0 {
									<-out
									sent++
								}
								return
							}
						}
					}()
				}
				o = cv.GradStep(s.center, s.g, s.D, s.g.Step, float64(s.fd)/64, s.nfold, s.g.Central, out)
				if out != nil {
					close(stop)
					<-fin
					m["sent"] = sent
					m["kept"] = optKey(s.center) == optKey(center) && s.center.Equal(center)
				}
			}
		})
		if msg != "" {
			ret <- M{"e": "panic", "msg": msg}
			return
		}
		m["err"] = err != nil
		s.mu.Lock()
		m["best"] = s.acc(best)
		if center != nil {
			m["cand"] = s.candidates(center)
		}
		ra := []int{}
		for _, a := range accs {
			ra = append(ra, s.acc(a))
		}
		m["accs"] = ra
		if o != nil {
			m["nil"], m["key"], m["finite"] = false, optKey(o), optFinite(o)
			m["x"] = vals(o, func(v float64) int { return fx(v, 1e4) })
		}
		s.ev = append(s.ev, m) // in order with the hooks
		s.mu.Unlock()
		ret <- nil
	}()
	select {
	case m := <-ret:
		if m != nil {
			s.add(m)
		}
	case <-time.After(180 * time.Second):
		_, txt := leftovers()
		s.add(M{"e": "hang", "stack": txt})
		hung = true
	}
	if gt != nil {
		close(gt.stop)
	}
	if !hung {
		left, txt := 0, ""
		for i, d := 0, time.Millisecond; i < 300; i++ {
			left, txt = leftovers()
			if left == 0 {
				break
			}
			time.Sleep(d)
			d = min(d*2, 100*time.Millisecond)
		}
		s.add(M{"e": "quiet", "left": left, "stack": txt})
		if left > 0 {
			hung = true
		}
	}
	cv.VerifHook, cv.VerifGate = nil, nil
	s.mu.Lock()
	defer s.mu.Unlock()
	// ranks
	u := append([]float64{}, s.raw...)
	sort.Float64s(u)
	rank := func(i int) int {
		v := s.raw[i]
		if math.IsNaN(v) {
			return big
		}
		k := 0
		for j := range u {
			if j > 0 && u[j] != u[j-1] && !math.IsNaN(u[j-1]) {
				k++
			}
			if u[j] == v {
				return k
			}
		}
		return -1
	}
	for _, m := range s.ev {
		switch m["e"] {
		case "end":
			m["rank"] = rank(m["rank"].(int))
		case "ret":
			m["best"] = rank(m["best"].(int))
			a := m["accs"].([]int)
			for i := range a {
				a[i] = rank(a[i])
			}
		}
	}
	ev := append([]M{}, s.ev...)
	if kind == "climb" && center == nil {
		ev = s.steps()
	}
	w.Case(kind, cfg, ev)
}

// steps adds to the events of a search the gradient steps made, after the evaluations of each: the point
// where it begins, and where it may lead given the accuracies found
func (s *searchCase) steps() []M {
	var ret []M
	n := 12
	if !s.g.Central {
		n = 6
	}
	var last *evalAt // the last one that was not part of the slope
	var group []*evalAt
	lost := false
	for _, m := range s.ev {
		ret = append(ret, m)
		if m["e"] != "end" {
			continue
		}
		e := s.evals[m["id"].(int)]
		if e == nil {
			continue
		}
		if !e.conc {
			last, group, lost = e, nil, false
			continue
		}
		if group = append(group, e); len(group) < n || lost {
			continue
		}
		c := append([]float64{}, group[0].at...)
		for d := range c { // the value that most of them have
			cnt := map[float64]int{}
			for _, e := range group {
				cnt[e.at[d]]++
			}
			for v, k := range cnt {
				if k > cnt[c[d]] {
					c[d] = v
				}
			}
		}
		all := group
		if !s.g.Central {
			all = append([]*evalAt{last}, group...)
		}
		group = nil
		for _, e := range all {
			if e == nil {
				lost = true
				break
			}
			e.dims = nil
			for d, v := range e.at {
				if v != c[d] {
					e.dims, e.above = append(e.dims, d), v > c[d]
				}
			}
			if len(e.dims) > 1 { // not a step from here
				lost = true
				break
			}
		}
		if lost || (!s.g.Central && len(last.dims) > 0) {
			lost = true
			continue
		}
		from := []int{}
		for d, v := range c {
			if d < 2 {
				from = append(from, int(v))
			} else {
				from = append(from, fx(v, 1e4))
			}
		}
		ret = append(ret, M{"e": "step", "from": from, "cand": s.moves(c, all, s.g.DeltaFraction)})
	}
	return ret
}

// searchData: a few noisy samples of two or three classes.
func searchData(r *rand.Rand, n int) *utils.DataBunch {
	d := &utils.DataBunch{}
	K := 2 + r.IntN(2)
	if r.IntN(12) == 0 {
		K = n + 1 // no label is ever seen twice: all the accuracies are zero
	}
	for i := 0; i < n; i++ {
		k := i % K
		d.Data = append(d.Data, []float64{float64(k) + r.NormFloat64()*0.7, r.NormFloat64(), float64(k*k%7) + r.NormFloat64()})
		d.Labels = append(d.Labels, k*3+1)
	}
	return d
}

// easyData can be told apart without mistakes, by any feature.
func easyData(r *rand.Rand, n int) *utils.DataBunch {
	d := &utils.DataBunch{}
	for i := 0; i < n; i++ {
		x := float64(100 * (i % 2))
		d.Data = append(d.Data, []float64{x + r.Float64(), -x + r.Float64(), 2*x + r.Float64()})
		d.Labels = append(d.Labels, 7+i%2)
	}
	return d
}

func f3(a, b, c int) [3]float64 { return [3]float64{float64(a) / 64, float64(b) / 64, float64(c) / 64} }

func randGrid(r *rand.Rand, maxCombos int) *cv.GridOptions {
	for {
		g := cv.DefaultXGridOptions()
		g.XGB = r.IntN(2) == 0
		g.EarlyStop = choose(r, 0, 1, 2, 10)
		rng := func(lo, span, maxstep int) [3]float64 {
			a := lo + r.IntN(span)
			st := 1 + r.IntN(maxstep)
			k := choose(r, 0, 0, 0, 1, 1, 2, 3)
			return f3(a, a+k*st+r.IntN(st), st)
		}
		ri := func(lo, span int) [3]int {
			a := lo + r.IntN(span)
			st := 1 + r.IntN(3)
			k := choose(r, 0, 0, 1, 1, 2)
			return [3]int{a, a + k*st + r.IntN(st), st}
		}
		g.Rounds = ri(1, 3)
		g.MaxDepth = ri(2, 2)
		g.MinChildWeight = rng(64, 128, 64)
		g.LearningRate = rng(8, 32, 16)
		g.Lambda = rng(0, 96, 32)
		g.Gamma = rng(0, 16, 8)
		g.SubSample = rng(32, 16, 8)
		g.ColSubSample = rng(32, 16, 8)
		if r.IntN(8) == 0 {
			g.SubSample = f3(64, 64, 128) // as in the defaults for regular boosting
		}
		if r.IntN(25) == 0 {
			g.Lambda = f3(64, 32, 16) // nothing in it
		}
		if r.IntN(4) == 0 {
			switch r.IntN(5) { // a single value needs no step
			case 0:
				g.Gamma = f3(8, 8, 0)
			case 1:
				g.MinChildWeight = f3(64, 64, 0)
			case 2:
				g.Rounds = [3]int{2, 2, 0}
			case 3:
				g.MaxDepth = [3]int{3, 3, 0}
			case 4:
				g.LearningRate, g.Lambda, g.SubSample, g.ColSubSample = f3(16, 16, 0), f3(64, 64, 0), f3(64, 64, 0), f3(48, 48, 0)
			}
		}
		g.NCPUs = choose(r, 0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 16, -1)
		n := 1
		for _, a := range [][3]float64{g.MinChildWeight, g.LearningRate, g.Lambda, g.Gamma, g.SubSample, g.ColSubSample} {
			if a[1] < a[0] {
				n = 0
			} else if a[2] > 0 {
				n *= int((a[1]-a[0])/a[2]) + 1
			}
		}
		n *= (g.Rounds[1]-g.Rounds[0])/max(g.Rounds[2], 1) + 1
		n *= (g.MaxDepth[1]-g.MaxDepth[0])/max(g.MaxDepth[2], 1) + 1
		if n <= maxCombos {
			return g
		}
	}
}

// decimal changes the (dyadic) space of the search for a decimal one.
func decimal(r *rand.Rand, s *searchCase) *searchCase {
	s.scale = 100
	rng := func(lo, hi, k int) [3]float64 {
		a := lo + r.IntN(hi-lo)
		st := choose(r, 1, 3, 5, 7, 10, 10, 15)
		return [3]float64{float64(a) / 100, float64(a+k*st) / 100, float64(st) / 100}
	}
	g := s.g
	g.LearningRate = rng(5, 40, choose(r, 1, 2, 3))
	g.Lambda = rng(10, 150, choose(r, 0, 1, 2))
	g.Gamma = rng(1, 30, choose(r, 0, 1, 2))
	g.SubSample = rng(50, 70, choose(r, 0, 1, 2))
	g.ColSubSample = rng(50, 70, choose(r, 0, 1))
	g.MinChildWeight = [3]float64{1, 1, 0.1}
	if r.IntN(3) == 0 {
		g.SubSample = [3]float64{0.7, 1, 0.1}
		g.ColSubSample = [3]float64{0.8, 1, 0.2}
		g.MinChildWeight = [3]float64{1, 1.3, 0.1}
		g.Lambda, g.Gamma = [3]float64{0.5, 0.5, 0}, [3]float64{0.2, 0.2, 0.1}
	}
	g.Rounds, g.MaxDepth = [3]int{2, 2, 1}, [3]int{2, 2, 0}
	return s
}

func gridCase(r *rand.Rand, maxCombos int) *searchCase {
	g := randGrid(r, maxCombos)
	s := &searchCase{search: "grid", g: g, nfold: choose(r, 2, 2, 3, 0), D: searchData(r, 12+r.IntN(8)), procs: choose(r, 1, 2, 8, 8)}
	if s.nfold == 0 {
		s.D = searchData(r, 14)
	}
	s.gate = r.IntN(3) == 0
	g.WriteBest = r.IntN(10) == 0
	g.Verbose = r.IntN(4) == 0
	return s
}

func driveGrid(w *W) {
	null, _ := os.Open(os.DevNull)
	_ = null
	for i := 0; i < w.pick(90, 700); i++ {
		gridCase(w.rng, w.pick(24, 60)).run(w, "grid")
	}
	for i := 0; i < w.pick(12, 150); i++ {
		decimal(w.rng, gridCase(w.rng, 24)).run(w, "grid")
	}
	for i := 0; i < w.pick(8, 80); i++ { // the last value is all but a step away
		r := w.rng
		s := gridCase(r, 4)
		s.scale = 16384
		near := func(lo, step int) [3]float64 {
			a := lo + r.IntN(lo)
			b := step + r.IntN(step)
			return [3]float64{float64(a) / 16384, float64(a+(1+r.IntN(3))*b-choose(r, 1, 1, 0, -1, 3)) / 16384, float64(b) / 16384}
		}
		switch r.IntN(3) {
		case 0:
			s.g.Lambda = near(3000, 2000)
		case 1:
			s.g.Gamma, s.g.LearningRate = near(1000, 1000), near(2000, 1000)
		case 2:
			s.g.SubSample, s.g.ColSubSample = near(2000, 1000), near(2000, 1000)
		}
		s.run(w, "grid")
	}
	for i := 0; i < w.pick(2, 20); i++ {
		s := gridCase(w.rng, 400)
		s.gate = false
		s.run(w, "grid")
	}
}

// randClimb: a gradient or hybrid search
func randClimb(r *rand.Rand) *searchCase {
	g := cv.DefaultXGridOptions()
	g.XGB = r.IntN(5) != 0
	g.EarlyStop = choose(r, 0, 1, 3, 10)
	lo := 2 + r.IntN(3)
	g.Rounds = [3]int{lo, lo + 2 + r.IntN(9), 1 + r.IntN(6)}
	d := 2 + r.IntN(2)
	g.MaxDepth = [3]int{d, d + r.IntN(2), 1}
	c := 64 * (1 + r.IntN(2))
	g.MinChildWeight = f3(c, c+64*r.IntN(2), 64)
	a := 4 + r.IntN(20)
	g.LearningRate = f3(a, a+8+r.IntN(40), 1+r.IntN(16))
	a = r.IntN(3) * 16
	g.Lambda = f3(a, a+32+r.IntN(64), 16+r.IntN(64))
	a = r.IntN(2) * 8
	g.Gamma = f3(a, a+8+r.IntN(24), 4+r.IntN(16))
	g.SubSample = f3(36+r.IntN(8), 56+r.IntN(9), 1+r.IntN(12))
	g.ColSubSample = f3(36+r.IntN(8), 56+r.IntN(9), 1+r.IntN(12))
	g.Step = choose(r, 0.1, 0.01, 0.5, 0.002, 2.0)
	g.Central = r.IntN(2) == 0
	g.NSteps = r.IntN(6)
	g.NCPUs = choose(r, 0, 1, 4)
	g.Verbose = r.IntN(4) == 0
	s := &searchCase{g: g, nfold: choose(r, 2, 2, 3), D: searchData(r, 12+r.IntN(10)), procs: choose(r, 1, 4, 8)}
	s.fd = choose(r, 4, 8, 3, 16)
	g.DeltaFraction = float64(s.fd) / 64
	if r.IntN(4) == 0 {
		s.D = easyData(r, 16+r.IntN(10))
	}
	s.search = choose(r, "gradient", "gradient", "hybrid")
	if s.search == "hybrid" && r.IntN(2) == 0 {
		g.Rounds = [3]int{lo, lo + 3, 2}
	}
	return s
}

// longClimb: many steps from one start, with room to move and enough samples to tell small improvements
func longClimb(r *rand.Rand, search string) *searchCase {
	s := randClimb(r)
	g := s.g
	s.search, g.XGB, g.NSteps, g.EarlyStop = search, true, choose(r, 5, 8, 12), 0
	g.Rounds, g.MaxDepth, g.MinChildWeight = [3]int{8, 13, 6}, [3]int{2, 2, 1}, f3(64, 64, 0)
	g.LearningRate, g.Lambda, g.Gamma = f3(4, 60, 16), f3(16, 120, 128), f3(4, 60, 16)
	g.SubSample, g.ColSubSample = f3(40, 64, 8), f3(40, 64, 8)
	g.Step, s.fd = choose(r, 0.5, 2.0, 8.0), choose(r, 8, 16)
	g.DeltaFraction = float64(s.fd) / 64
	s.D, s.nfold = searchData(r, 90+r.IntN(60)), 2
	for len(s.D.Labels) > 3 && s.D.Labels[3] > 7 { // not the ones without repeated labels
		s.D = searchData(r, 90+r.IntN(60))
	}
	return s
}

func randStep(r *rand.Rand) *searchCase {
	s := randClimb(r)
	s.search = "step"
	o := boo.DefaultXOptions()
	if !s.g.XGB {
		o = boo.DefaultGOptions()
	}
	o.XGB, o.EarlyStop = s.g.XGB, s.g.EarlyStop
	at := func(a [3]float64) float64 {
		lo, hi := int(math.Round(a[0]*64)), int(math.Round(a[1]*64))
		switch r.IntN(4) {
		case 0:
			return a[0]
		case 1:
			return a[1]
		}
		return float64(lo+r.IntN(hi-lo+1)) / 64
	}
	g := s.g
	if r.IntN(3) == 0 { // room to move
		g.Rounds = [3]int{1, 100000, 1 + r.IntN(400)}
		g.LearningRate, g.Lambda, g.Gamma = f3(1, 64000, 1+r.IntN(64)), f3(0, 64000, 1+r.IntN(64)), f3(0, 64000, 1+r.IntN(64))
		g.SubSample, g.ColSubSample = f3(1, 6400, 1+r.IntN(64)), f3(1, 6400, 1+r.IntN(64))
	}
	o.Rounds = g.Rounds[0] + r.IntN(g.Rounds[1]-g.Rounds[0]+1)
	o.MaxDepth = g.MaxDepth[0] + r.IntN(g.MaxDepth[1]-g.MaxDepth[0]+1)
	o.MinChildWeight, o.LearningRate, o.Lambda, o.Gamma = at(g.MinChildWeight), at(g.LearningRate), at(g.Lambda), at(g.Gamma)
	o.SubSample, o.ColSubSample = at(g.SubSample), at(g.ColSubSample)
	if g.Rounds[1] == 100000 {
		o.Rounds, o.LearningRate, o.Lambda, o.Gamma = 20+r.IntN(40), float64(8+r.IntN(40))/64, float64(8+r.IntN(80))/64, float64(8+r.IntN(40))/64
		o.SubSample, o.ColSubSample = float64(30+r.IntN(34))/64, float64(30+r.IntN(34))/64
	}
	o.MinSample = choose(r, 1, 1, 2, 5)
	switch r.IntN(6) {
	case 0: // outside of the space
		o.Lambda = float64(r.IntN(300)) / 64
	case 1:
		o.Gamma = 0
	}
	s.center = o
	if r.IntN(2) == 0 {
		s.sends = 1
		s.unbuf = r.IntN(2) == 0
	}
	return s
}

func driveClimb(w *W) {
	for i := 0; i < w.pick(70, 600); i++ {
		randClimb(w.rng).run(w, "climb")
	}
	for i := 0; i < w.pick(20, 160); i++ {
		longClimb(w.rng, []string{"gradient", "hybrid"}[i%2]).run(w, "climb")
	}
	for i := 0; i < w.pick(8, 80); i++ { // decimal steps of what is not moved
		s := randClimb(w.rng)
		s.scale = 100
		g := s.g
		g.MinChildWeight = [3]float64{1.1, 1.3, 0.1}
		g.MaxDepth = [3]int{2, 2, 0}
		g.Lambda = choose(w.rng, [3]float64{0.1, 0.3, 0.1}, [3]float64{0.7, 0.8, 0.1}, [3]float64{0.6, 1.2, 0.3})
		g.Rounds = [3]int{3, 3, choose(w.rng, 0, 1)}
		g.LearningRate, g.Gamma = [3]float64{0.1, 0.3, 0.1}, [3]float64{0.1, 0.2, 0.1}
		g.SubSample, g.ColSubSample = [3]float64{0.7, 0.9, 0.1}, [3]float64{0.7, 0.9, 0.1}
		g.NSteps = min(g.NSteps, 2)
		s.run(w, "climb")
	}
	for i := 0; i < w.pick(2, 4); i++ { // the default search
		bareSearch("gradient", searchData(w.rng, 5+i), 2).run(w, "climb")
	}
	for i := 0; i < w.pick(150, 1500); i++ {
		randStep(w.rng).run(w, "climb")
	}
	for i := 0; i < w.pick(60, 600); i++ { // small steps from an end of the rounds
		s := randStep(w.rng)
		g := s.g
		s.fd = 16
		g.DeltaFraction = float64(s.fd) / 64
		g.Rounds = [3]int{4, 12, 1 + w.rng.IntN(2)}
		s.center.Rounds = g.Rounds[i%2]
		s.center.MinSample = 1
		g.Step = choose(w.rng, 0.1, 0.2, 0.5)
		s.run(w, "climb")
	}
}

// bareSearch: a search without options
func bareSearch(search string, D *utils.DataBunch, nfold int) *searchCase {
	s := &searchCase{search: search, g: cv.DefaultXGridOptions(), D: D, nfold: nfold, bare: true, scale: 100, procs: 4}
	s.fd = 3 // it isn't a multiple of 1/64
	return s
}

// driveLive: liveness and concurrency; the binary is built with the race detector.
func driveLive(w *W) {
	r := w.rng
	few := func(s *searchCase) *searchCase {
		s.fails = true
		s.D = searchData(r, r.IntN(4))
		s.gate = r.IntN(2) == 0
		return s
	}
	for i := 0; i < w.pick(30, 300); i++ {
		gridCase(r, 16).run(w, "live")
	}
	for i := 0; i < w.pick(30, 200); i++ {
		s := few(gridCase(r, 16))
		if s.g.Lambda[1] < s.g.Lambda[0] {
			s.fails = false // nothing to evaluate
		}
		s.run(w, "live")
	}
	for i := 0; i < 6; i++ {
		s := few(bareSearch([]string{"grid", "gradient", "hybrid"}[i%3], nil, 2+i))
		s.D = searchData(r, i/3*2+i%2) // 0, 1, 2 or 3 of them
		s.gate = false
		s.run(w, "live")
	}
	for i := 0; i < w.pick(8, 80); i++ {
		s := randClimb(r)
		s.gate = r.IntN(3) == 0
		s.g.NSteps = r.IntN(4)
		s.run(w, "live")
	}
	for i := 0; i < w.pick(10, 60); i++ {
		few(randClimb(r)).run(w, "live")
	}
	for i := 0; i < w.pick(20, 200); i++ {
		s := randStep(r)
		s.gate = r.IntN(3) == 0
		s.run(w, "live")
	}
	for i := 0; i < w.pick(10, 60); i++ {
		few(randStep(r)).run(w, "live")
	}
}
