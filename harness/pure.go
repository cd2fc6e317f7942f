package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

func init() { drivers["pure"] = drivePure }

type dataObj struct {
	name string
	D    *utils.DataBunch
	qs   [][]float64
	nf   int
	// the arrays that the slices of D are part of
	labs []int
	vals [][]float64
	keys []string
}

type optObj struct {
	name string
	O    *boo.Options
}

type modelObj struct {
	name string
	m    *boo.MultiClass
	qs   [][]float64
	nf   int
}

type world struct {
	r  *rand.Rand
	d  []*dataObj
	o  []*optObj
	m  []*modelObj
	ev []M
	n  int
	in interner
	mu sync.Mutex
}

func (w *world) id(s string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.in.id(s)
}

func (w *world) fresh(p string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	return fmt.Sprintf("%s%d", p, w.n)
}

func optDump(o *boo.Options) string {
	c := *o
	c.Loss = nil
	l := "nil"
	if o.Loss != nil {
		l = o.Loss.Name()
	}
	return fmt.Sprintf("%+v %s", c, l)
}

func cloneData(D *utils.DataBunch) *utils.DataBunch {
	E := &utils.DataBunch{Labels: append([]int{}, D.Labels...), Keys: append([]string{}, D.Keys...)}
	for _, v := range D.Data {
		E.Data = append(E.Data, append([]float64{}, v...))
	}
	return E
}

func (w *world) newData() {
	r := w.r
	nf := 1 + r.IntN(3)
	n := 4 + r.IntN(12)
	K := 1 + r.IntN(3)
	D := &utils.DataBunch{}
	lab := labelling(r, n, K)
	labels := someLabels(r, K)
	for i := 0; i < n; i++ {
		v := make([]float64, nf)
		for j := range v {
			v[j] = float64(r.IntN(9))
			if r.IntN(2) == 0 {
				v[j] = r.NormFloat64()
			}
		}
		D.Data = append(D.Data, v)
		D.Labels = append(D.Labels, labels[lab[i]])
	}
	for j := 0; j < nf; j++ {
		D.Keys = append(D.Keys, fmt.Sprintf("f%d", j))
	}
	d := &dataObj{name: w.fresh("d"), D: D, nf: nf}
	if r.IntN(3) > 0 { // slices with room after their end, where nobody should write
		d.labs = append(D.Labels, -5, -5, -5)
		d.keys = append(D.Keys, "z", "z")
		d.vals = nil
		for i, v := range D.Data {
			x := append(v, -5, -5)
			d.vals = append(d.vals, x)
			D.Data[i] = x[:nf]
		}
		d.vals = append(d.vals, []float64{-5})
		D.Labels, D.Keys, D.Data = d.labs[:n], d.keys[:nf], append([][]float64{}, D.Data...)
	}
	for i := 0; i < 4; i++ {
		q := make([]float64, nf)
		for j := range q {
			q[j] = r.NormFloat64() * 5
		}
		d.qs = append(d.qs, q)
	}
	w.d = append(w.d, d)
	w.ev = append(w.ev, M{"e": "new", "o": d.name})
	w.obsData(d, &w.ev)
}

func (w *world) newOpt() {
	r := w.r
	o := boo.DefaultGOptions()
	if r.IntN(2) == 0 {
		o = boo.DefaultXOptions()
		o.SubSample, o.ColSubSample = 1, 1
		if r.IntN(3) == 0 {
			o.SubSample = 0.7
		}
		if r.IntN(3) == 0 {
			o.ColSubSample = 0.7
		}
		o.MinSample = choose(r, 1, 2)
	}
	o.Rounds = 1 + r.IntN(5)
	o.MaxDepth = 1 + r.IntN(4)
	o.MinChildWeight = choose(r, 0, 0.5, 1, 2, 3) // also those that training has to adjust
	o.EarlyStop = choose(r, 0, 1, 3)
	o.LearningRate = choose(r, 0.1, 0.5, 1)
	o.BaseScore = choose(r, 0, 0.5, -1)
	x := &optObj{w.fresh("o"), o}
	w.o = append(w.o, x)
	w.ev = append(w.ev, M{"e": "new", "o": x.name})
	w.obsOpt(x, &w.ev)
}

func (w *world) obsData(d *dataObj, ev *[]M) {
	*ev = append(*ev, M{"e": "obs", "o": d.name, "q": "data", "v": w.id(dump(d.D) + fmt.Sprint(d.labs, d.vals, d.keys))})
}

func (w *world) obsOpt(o *optObj, ev *[]M) {
	*ev = append(*ev, M{"e": "obs", "o": o.name, "q": "options", "v": w.id(optDump(o.O))})
}

func (w *world) obsModel(m *modelObj, ev *[]M) {
	obs := observe(m.m, m.qs, nil)
	shape, preds, text := "", "", ""
	for _, x := range obs {
		switch {
		case x[0] == "text":
			text = x[1]
		case x[0][0] == 'p' || x[0][0] == 'c' && x[0] != "classes":
			preds += x[0] + "=" + x[1] + ";"
		default:
			shape += x[0] + "=" + x[1] + ";"
		}
	}
	for _, x := range [][2]string{{"shape", shape}, {"predictions", preds}, {"text", text}} {
		*ev = append(*ev, M{"e": "obs", "o": m.name, "q": x[0], "v": w.id(x[1])})
	}
}

func det(o *boo.Options) bool { return !o.XGB || (o.SubSample >= 1 && o.ColSubSample >= 1) }

func (w *world) train(r *rand.Rand, d *dataObj, o *optObj, ev *[]M) *modelObj {
	m := &modelObj{name: w.fresh("m"), qs: d.qs, nf: d.nf}
	m.m = boo.NewMultiClass(d.D, o.O)
	*ev = append(*ev, M{"e": "train", "o": m.name, "d": d.name, "opt": o.name, "det": det(o.O)})
	w.obsModel(m, ev)
	w.obsData(d, ev)
	w.obsOpt(o, ev)
	return m
}

// use does something that should change nothing.
func (w *world) use(r *rand.Rand, m *modelObj, d *dataObj, o *optObj, conc bool, ev *[]M) {
	if d.nf != m.nf {
		m = nil
	}
	k := r.IntN(15)
	*ev = append(*ev, M{"e": "nop", "use": k})
	if m == nil && k < 7 {
		k = 7 + r.IntN(8)
	}
	switch k {
	case 0:
		l := m.m.ClassLabels()
		for i := range l {
			l[i] = -1000
		}
	case 1:
		p := m.m.PredictSingle(d.qs[0])
		for i := range p {
			p[i] = 1e9
		}
		buf := make([]float64, m.m.Classes())
		m.m.PredictSingle(d.qs[1], buf)
		for i := range buf {
			buf[i] = 17
		}
		m.m.PredictSingleClass(d.qs[1], buf)
	case 2:
		m.m.Accuracy(d.D)
		m.m.Accuracy(d.D, m.m.Classes())
		m.m.Accuracy(d.D, 1+r.IntN(5))
	case 3:
		f, err := m.m.FeatureImportance()
		if err == nil {
			f.Add(0, 5)
			f.Merge(f2(r))
			_ = f.String()
		}
	case 4:
		C := confu.MCConfusions(m.m, d.D)
		C.Matrix()
		C.TopNPerLabel(2)
		l := m.m.ClassLabels()
		C.TopNForLabelM(1, l[r.IntN(len(l))])
		C.PrintTopN(2, confu.MakeSimpleNameMap(l))
		mm := C.Matrix()
		for i := range mm {
			for j := range mm[i] {
				mm[i][j] = -7
			}
		}
		for i := range C.Labels {
			C.Labels[i] = 999
		}
		for i := range C.Predicted {
			C.Predicted[i] = 999
		}
	case 5, 6:
		var b bytes.Buffer
		if err := boo.JSONMultiClass(m.m, "softmax", &b); err == nil && !conc {
			x, err := boo.UnJSONMultiClass(bufio.NewReader(&b))
			if err != nil {
				*ev = append(*ev, M{"e": "error", "msg": err.Error()})
				return
			}
			c := &modelObj{name: w.fresh("m"), m: x, qs: m.qs, nf: m.nf}
			*ev = append(*ev, M{"e": "copy", "from": m.name, "o": c.name})
			w.obsModel(c, ev)
			w.m = append(w.m, c)
		}
	case 7:
		copies := r.IntN(2) == 0
		n, f, _ := utils.CrossValidationSamples(d.D, 2+r.IntN(3), copies)
		for i := 0; i < n; i++ {
			tr, te := f()
			if copies {
				scribble(tr)
				scribble(te)
			}
		}
	case 8:
		cv.MultiClassCrossValidation(d.D, 2, &cv.Options{O: o.O})
	case 9:
		_ = d.D.CSV()
		_ = d.D.LibSVM()
		_ = d.D.String()
		_ = o.O.String()
		o.O.Check()
	case 10:
		x, l := d.D.OHELabels()
		utils.ToOnes(x)
		for i := range l {
			l[i] = -3
		}
		z, ks := d.D.OHEKeys()
		utils.ToOnes(z)
		for i := range ks {
			ks[i] = "z"
		}
	case 11:
		c := o.O.Clone()
		if !c.Equal(o.O) {
			*ev = append(*ev, M{"e": "error", "msg": "a clone is not equal"})
		}
		c.Rounds += 5
		c.LearningRate = 99
		c.XGB = !c.XGB
		c.TreeMethod = "other"
	case 12: // the searches
		g := &cv.GridOptions{XGB: r.IntN(2) == 0, EarlyStop: 1, Rounds: [3]int{1, 2, 1}, MaxDepth: [3]int{2, 2, 1}, LearningRate: [3]float64{0.5, 1, 0.5},
			Gamma: [3]float64{0, 0, 1}, Lambda: [3]float64{1, 1, 1}, SubSample: [3]float64{1, 1, 1}, ColSubSample: [3]float64{1, 1, 1}, MinChildWeight: [3]float64{1, 2, 1},
			Step: 0.1, DeltaFraction: 0.1, NSteps: 1, Central: true, NCPUs: 2}
		was := fmt.Sprintf("%+v", *g)
		switch r.IntN(3) {
		case 0:
			cv.Grid(d.D, 2, g)
		case 1:
			cv.GradientGrid(d.D, 2, g)
		case 2:
			cv.HybridGradientGrid(d.D, 2, g)
		}
		if fmt.Sprintf("%+v", *g) != was {
			*ev = append(*ev, M{"e": "error", "msg": "the search changed its options"})
		}
	case 13: // no options are the default ones
		name := w.fresh("x")
		*ev = append(*ev, M{"e": "new", "o": name})
		for _, f := range []func() *boo.MultiClass{
			func() *boo.MultiClass { return boo.NewMultiClass(d.D) },
			func() *boo.MultiClass { return boo.NewMultiClass(d.D, nil) },
			func() *boo.MultiClass { return boo.NewMultiClass(d.D, boo.DefaultXOptions()) },
			func() *boo.MultiClass { return boo.NewMultiClass(d.D, boo.DefaultOptions()) }} {
			x := f()
			t, err := modelText(x)
			meta, _, _ := strings.Cut(t, "\n")
			y := w.fresh("m")
			*ev = append(*ev, M{"e": "train", "o": y, "d": d.name, "opt": name, "det": true})
			*ev = append(*ev, M{"e": "obs", "o": y, "q": "meta", "v": w.id(fmt.Sprint(meta, err))})
		}
		cv.MultiClassCrossValidation(d.D, 2, &cv.Options{})
	case 14: // default options don't depend on what was done with others
		fs := []func() string{
			func() string {
				o := boo.DefaultXOptions()
				s := optDump(o)
				o.Rounds, o.LearningRate, o.Loss = 77, 77, nil
				return s
			},
			func() string {
				o := boo.DefaultGOptions()
				s := optDump(o)
				o.Rounds, o.LearningRate, o.Loss = 77, 77, nil
				return s
			},
			func() string {
				o := cv.DefaultXGridOptions()
				s := fmt.Sprintf("%+v", *o)
				o.Rounds[0], o.NSteps = 77, 77
				return s
			},
			func() string {
				o := cv.DefaultGGridOptions()
				s := fmt.Sprintf("%+v", *o)
				o.Rounds[0], o.NSteps = 77, 77
				return s
			},
			func() string {
				o := cv.DefaultGridOptions()
				s := fmt.Sprintf("%+v", *o)
				o.Rounds[0], o.NSteps = 77, 77
				return s
			}}
		for _, f := range fs {
			name := w.fresh("x")
			*ev = append(*ev, M{"e": "new", "o": name})
			for i := 0; i < 2; i++ {
				*ev = append(*ev, M{"e": "obs", "o": name, "q": "default", "v": w.id(f())})
			}
		}
	}
}

func f2(r *rand.Rand) *boo.Feats {
	f := boo.NewFeats(true)
	f.Add(1, 1)
	return f
}

// user changes of objects that the user owns
func (w *world) change() {
	r := w.r
	if r.IntN(2) == 0 {
		o := choose(r, w.o...)
		if r.IntN(3) == 0 {
			o.O.Verbose = !o.O.Verbose
			w.ev = append(w.ev, M{"e": "loud", "o": o.name, "b": o.O.Verbose})
			w.obsOpt(o, &w.ev)
			return
		}
		switch r.IntN(7) {
		case 0:
			o.O.Rounds = 1 + r.IntN(5)
		case 1:
			o.O.LearningRate = choose(r, 0.1, 0.5, 1, 2)
		case 2:
			o.O.MaxDepth = 1 + r.IntN(4)
		case 3:
			o.O.XGB = !o.O.XGB
			o.O.SubSample, o.O.ColSubSample = 1, 1
		case 4:
			o.O.BaseScore = choose(r, 0, 0.5, 3)
		case 5:
			o.O.Lambda, o.O.Gamma = choose(r, 0.1, 1, 3), choose(r, 0, 0.1, 1)
		case 6:
			o.O.Loss = choose[utils.LossFunc](r, &utils.MSELoss{}, &utils.SQErrLoss{})
		}
		w.ev = append(w.ev, M{"e": "new", "o": o.name})
		if o.O.Verbose {
			w.ev = append(w.ev, M{"e": "loud", "o": o.name, "b": true})
		}
		w.obsOpt(o, &w.ev)
		return
	}
	d := choose(r, w.d...)
	switch r.IntN(4) {
	case 0:
		d.D.Data[r.IntN(len(d.D.Data))][r.IntN(d.nf)] = r.NormFloat64() * 10
	case 1:
		i, j := r.IntN(len(d.D.Labels)), r.IntN(len(d.D.Labels))
		d.D.Labels[i] = d.D.Labels[j]
	case 2:
		d.D.Keys[r.IntN(d.nf)] = "other"
	case 3:
		i, j := r.IntN(len(d.D.Data)), r.IntN(len(d.D.Data))
		d.D.Data[i], d.D.Data[j] = d.D.Data[j], d.D.Data[i]
	}
	w.ev = append(w.ev, M{"e": "new", "o": d.name})
	w.obsData(d, &w.ev)
}

func (w *world) concurrent() {
	ng := 2 + w.r.IntN(5)
	evs := make([][]M, ng)
	ms := make([][]*modelObj, ng)
	msgs := make([]string, ng)
	var wg sync.WaitGroup
	start := make(chan bool)
	// often all on the same objects
	d0, o0, m0 := choose(w.r, w.d...), choose(w.r, w.o...), choose(w.r, w.m...)
	same := w.r.IntN(2) == 0
	for g := 0; g < ng; g++ {
		r := rand.New(rand.NewPCG(w.r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			msgs[g] = safe(func() {
				for i := 0; i < 2; i++ {
					d, o, m := d0, o0, m0
					if !same {
						d, o, m = choose(r, w.d...), choose(r, w.o...), choose(r, w.m...)
					}
					runtime.Gosched()
					switch r.IntN(3) {
					case 0:
						ms[g] = append(ms[g], w.train(r, d, o, &evs[g]))
					case 1:
						w.obsModel(m, &evs[g])
						w.obsData(d, &evs[g])
					case 2:
						w.use(r, m, d, o, true, &evs[g])
					}
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	for g := range evs {
		w.ev = append(w.ev, evs[g]...)
		w.m = append(w.m, ms[g]...)
		if msgs[g] != "" {
			w.ev = append(w.ev, M{"e": "panic", "msg": msgs[g]})
		}
	}
}

func drivePure(w *W) {
	for i := 0; i < w.pick(160, 1500); i++ {
		wd := &world{r: w.rng, in: interner{}}
		r := w.rng
		msg := safe(func() {
			for j := 0; j < 1+r.IntN(2); j++ {
				wd.newData()
			}
			for j := 0; j < 1+r.IntN(2); j++ {
				wd.newOpt()
			}
			wd.m = append(wd.m, wd.train(r, wd.d[0], wd.o[0], &wd.ev))
			for j := 0; j < 4+r.IntN(10); j++ {
				switch r.IntN(10) {
				case 0, 1, 2:
					wd.m = append(wd.m, wd.train(r, choose(r, wd.d...), choose(r, wd.o...), &wd.ev))
				case 3, 4, 5, 6:
					wd.use(r, choose(r, wd.m...), choose(r, wd.d...), choose(r, wd.o...), false, &wd.ev)
				case 7:
					wd.change()
				case 8, 9:
					wd.concurrent()
				}
				if r.IntN(3) == 0 {
					wd.obsModel(choose(r, wd.m...), &wd.ev)
				}
			}
			for _, m := range wd.m {
				wd.obsModel(m, &wd.ev)
			}
			for _, d := range wd.d {
				wd.obsData(d, &wd.ev)
			}
			for _, o := range wd.o {
				wd.obsOpt(o, &wd.ev)
			}
		})
		if msg != "" {
			wd.ev = append(wd.ev, M{"e": "panic", "msg": msg})
		}
		w.Case("pure", M{}, wd.ev)
	}
}
