package main

import (
	"bufio"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

func init() { drivers["folds"] = driveFolds; drivers["cv"] = driveCV }

// ---- folds ------------------------------------------------------------------

type foldData struct {
	d      *utils.DataBunch
	id     map[string]int // values -> row
	labels []int
	keys   []string
}

func mkFoldData(w *W, tot, nf int, labels, keys bool) *foldData {
	r := w.rng
	f := &foldData{d: &utils.DataBunch{}, id: map[string]int{}, labels: []int{}, keys: []string{}}
	for i := 0; i < tot; i++ {
		v := make([]float64, nf)
		for j := range v {
			v[j] = float64(r.IntN(3))
		}
		v[0] = float64(i) + 0.5
		f.d.Data = append(f.d.Data, v)
		f.id[fmt.Sprint(v)] = i + 1
		if labels {
			l := r.IntN(7) - 2
			f.d.Labels = append(f.d.Labels, l)
			f.labels = append(f.labels, l)
		}
	}
	if keys {
		for j := 0; j < nf; j++ {
			f.d.Keys = append(f.d.Keys, fmt.Sprintf("k%d", j))
			f.keys = append(f.keys, fmt.Sprintf("k%d", j))
		}
	}
	return f
}

func (f *foldData) set(d *utils.DataBunch) M {
	rows := []int{}
	for _, v := range d.Data {
		rows = append(rows, f.id[fmt.Sprint(v)]) // 0 if it is no row of the data
	}
	return M{"rows": rows, "labels": append([]int{}, d.Labels...), "keys": append([]string{}, d.Keys...)}
}

func dump(d *utils.DataBunch) string { return fmt.Sprintf("%v|%v|%q", d.Data, d.Labels, d.Keys) }

func scribble(d *utils.DataBunch) {
	for _, v := range d.Data {
		for j := range v {
			v[j] = -99
		}
	}
	for i := range d.Labels {
		d.Labels[i] = -99
	}
	for i := range d.Keys {
		d.Keys[i] = "changed"
	}
}

func driveFolds(w *W) {
	r := w.rng
	one := func(tot, req int) {
		nf := 1 + r.IntN(3)
		f := mkFoldData(w, tot, nf, r.IntN(4) != 0, r.IntN(3) != 0)
		orig := dump(f.d)
		ev := []M{}
		mode := r.IntN(3) // 0: no argument, 1: references, 2: copies
		msg := safe(func() {
			var n int
			var sampler func() (*utils.DataBunch, *utils.DataBunch)
			var err error
			switch mode {
			case 0:
				n, sampler, err = utils.CrossValidationSamples(f.d, req)
			case 1:
				n, sampler, err = utils.CrossValidationSamples(f.d, req, false)
			case 2:
				n, sampler, err = utils.CrossValidationSamples(f.d, req, true)
			}
			ev = append(ev, M{"e": "open", "n": n, "err": err != nil})
			if n == 0 || sampler == nil {
				ev = append(ev, M{"e": "done"})
				return
			}
			var sets []*utils.DataBunch
			var dumps []string
			for i := 0; i < n+2; i++ {
				train, test := sampler()
				if train == nil && test == nil {
					ev = append(ev, M{"e": "call", "nil": true})
					continue
				}
				if train == nil || test == nil {
					ev = append(ev, M{"e": "half"})
					return
				}
				ev = append(ev, M{"e": "call", "nil": false, "train": f.set(train), "test": f.set(test)})
				sets = append(sets, train, test)
				dumps = append(dumps, dump(train), dump(test))
				if mode == 2 && r.IntN(2) == 0 { // now, while the other folds are still to come
					j := r.IntN(len(sets))
					scribble(sets[j])
					dumps[j] = dump(sets[j])
				}
			}
			ev = append(ev, M{"e": "same", "what": "data", "v": dump(f.d) == orig})
			for i := range sets {
				ev = append(ev, M{"e": "same", "what": "set", "v": dump(sets[i]) == dumps[i]})
			}
			if mode == 2 {
				scribble(f.d)
				for i := range sets {
					ev = append(ev, M{"e": "same", "what": "set after data", "v": dump(sets[i]) == dumps[i]})
				}
			}
			ev = append(ev, M{"e": "done"})
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("folds", M{"tot": tot, "req": req, "labels": f.labels, "keys": f.keys, "mode": mode}, ev)
	}
	for tot := 0; tot <= 14; tot++ {
		for req := -1; req <= 9; req++ {
			for k := 0; k < w.pick(2, 20); k++ {
				one(tot, req)
			}
		}
	}
	for i := 0; i < w.pick(60, 1000); i++ {
		one(r.IntN(60), choose(r, -7, 0, 2, 3, 5, 10, 11, 20, 100, 1000))
	}
	for i := 0; i < w.pick(12, 120); i++ {
		one(200+r.IntN(1000), choose(r, 0, 2, 3, 7, 10, 20))
	}
	for i := 0; i < w.pick(2, 12); i++ {
		one(150+r.IntN(200), []int{70, 40}[i%2]+r.IntN(60))
	}
}

// ---- cross-validation ----------------------------------------------------------

// fitLoss tells, for each model trained with it, the number of samples and classes.
type fitLoss struct {
	utils.LossFunc
	rounds  int
	ones    int
	classes int
	ev      *[]M
}

func (f *fitLoss) note(y *matDense) {
	d := y.RawMatrix().Data
	f.classes++
	for _, v := range d {
		if v == 1 {
			f.ones++
		}
	}
	if f.ones >= f.rounds*len(d) {
		e := M{"e": "fit", "rows": len(d), "classes": f.classes / f.rounds}
		if f.ones != f.rounds*len(d) || f.classes%f.rounds != 0 {
			e["e"] = "badfit"
		}
		*f.ev = append(*f.ev, e)
		f.ones, f.classes = 0, 0
	}
}

func (f *fitLoss) Gradients(y, p, r *matDense) *matDense {
	f.note(y)
	return f.LossFunc.Gradients(y, p, r)
}
func (f *fitLoss) NegGradients(y, p, r *matDense) *matDense {
	f.note(y)
	return f.LossFunc.NegGradients(y, p, r)
}

// cvDefault: without options, the default ones are used. Every feature tells the two common labels.
func cvDefault(w *W) {
	r := w.rng
	nf, odd := 2+r.IntN(4), r.IntN(4)
	req := nf
	if nf == 5 {
		req = choose(r, 5, 0, -1)
	}
	tot := nf * (50 + r.IntN(20))
	lbl := someLabels(r, odd+2)
	d := &utils.DataBunch{Data: make([][]float64, tot), Labels: make([]int, tot)}
	for i, p := range r.Perm(tot) {
		v := float64(i%2)*100 + r.Float64()
		d.Labels[p] = lbl[i%2]
		if i < odd {
			v, d.Labels[p] = 1000+100*float64(i), lbl[2+i]
		}
		d.Data[p] = []float64{v, 3 * v, v - 50}
	}
	conc := r.IntN(2) == 0
	opts := &cv.Options{Conc: conc}
	if conc {
		opts.Acc, opts.Err, opts.Ochan = make(chan float64, 2), make(chan error, 2), make(chan *boo.Options, 2)
	}
	ev := []M{}
	msg := safe(func() {
		a, err := cv.MultiClassCrossValidation(d, req, opts)
		e := M{"e": "plain", "nf": nf, "err": err != nil, "acc": fx(a, 1e4), "conc": conc, "errs": []bool{}, "accs": []int{}, "opts": []bool{}}
		if conc {
			errs, accs, os := []bool{}, []int{}, []bool{}
			for len(opts.Err) > 0 {
				errs = append(errs, <-opts.Err != nil)
			}
			for len(opts.Acc) > 0 {
				accs = append(accs, fx(<-opts.Acc, 1e4))
			}
			for len(opts.Ochan) > 0 {
				o := <-opts.Ochan
				def := boo.DefaultXOptions()
				if o != nil {
					def.Loss = o.Loss
				}
				os = append(os, o == nil || o.Equal(def))
			}
			e["errs"], e["accs"], e["opts"] = errs, accs, os
		}
		ev = append(ev, e)
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	w.Case("cv", M{"tot": tot, "req": req, "odd": odd, "minsample": 5, "common": 2, "model": []any{}, "labels": []int{}}, ev)
}

// a model needs at least minsample samples: with fewer, a fold has no model
func cvCase(w *W, tot, req, odd, minsample int) {
	r := w.rng
	ev := []M{}
	d := &utils.DataBunch{}
	lbl := someLabels(r, odd+2)
	perm := r.Perm(tot)
	d.Data = make([][]float64, tot)
	d.Labels = make([]int, tot)
	for i, p := range perm {
		switch {
		case i < odd:
			d.Data[p], d.Labels[p] = []float64{1000 + 100*float64(i), 5}, lbl[2+i]
		case i%2 == 0:
			d.Data[p], d.Labels[p] = []float64{r.Float64(), 5}, lbl[0]
		default:
			d.Data[p], d.Labels[p] = []float64{100 + r.Float64(), 5}, lbl[1]
		}
	}
	o := boo.DefaultGOptions()
	if r.IntN(2) == 0 {
		o = boo.DefaultXOptions()
	}
	o.Rounds, o.MaxDepth, o.EarlyStop, o.MinSample, o.MinChildWeight = choose(r, 1, 1, 2, 3, 4, 5), 4, 0, minsample, 1
	o.LearningRate, o.Lambda, o.Gamma, o.SubSample, o.ColSubSample = 0.5, 0.5, 0, 1, 1
	o.Loss = &fitLoss{LossFunc: &utils.SQErrLoss{}, rounds: o.Rounds, ev: &ev}
	conc := r.IntN(2) == 0
	before := dump(d)
	op := *o
	e := M{"e": "result", "conc": conc, "errs": []bool{}, "accs": []int{}, "opts": []string{}, "err": false, "acc": 0}
	opts := &cv.Options{O: o, Conc: conc}
	errs, accs, os := []bool{}, []int{}, []string{}
	gotE := func(x error) { errs = append(errs, x != nil) }
	gotA := func(x float64) { accs = append(accs, fx(x, 1e4)) }
	gotO := func(x *boo.Options) {
		s := "other"
		if x == nil {
			s = "nil"
		} else if x.Equal(&op) && x.MinSample == op.MinSample {
			s = "given"
		}
		os = append(os, s)
	}
	done := make(chan string, 1)
	unbuf := r.IntN(2) == 0
	stop := make(chan struct{})
	stopped := make(chan struct{})
	if conc {
		n := 8
		if unbuf {
			n = 0
		}
		opts.Acc, opts.Err, opts.Ochan = make(chan float64, n), make(chan error, n), make(chan *boo.Options, n)
	}
	if conc && unbuf {
		go func() {
			for {
				select {
				case x := <-opts.Err:
					gotE(x)
				case x := <-opts.Acc:
					gotA(x)
				case x := <-opts.Ochan:
					gotO(x)
				case <-stop:
					close(stopped)
					return
				}
			}
		}()
	}
	go func() {
		done <- safe(func() {
			a, err := cv.MultiClassCrossValidation(d, req, opts)
			e["err"], e["acc"] = err != nil, fx(a, 1e4)
		})
	}()
	cfg := M{"tot": tot, "req": req, "odd": odd, "minsample": minsample, "common": 2, "model": []any{}, "labels": []int{}, "xgb": o.XGB, "rounds": o.Rounds}
	select {
	case msg := <-done:
		if msg != "" {
			w.Case("cv", cfg, append(ev, M{"e": "panic", "msg": msg}))
			return
		}
	case <-time.After(120 * time.Second):
		w.Case("cv", cfg, []M{{"e": "hang"}})
		return
	}
	if conc && unbuf {
		close(stop)
		<-stopped
	} else if conc {
		for len(opts.Err) > 0 {
			gotE(<-opts.Err)
		}
		for len(opts.Acc) > 0 {
			gotA(<-opts.Acc)
		}
		for len(opts.Ochan) > 0 {
			gotO(<-opts.Ochan)
		}
	}
	e["errs"], e["accs"], e["opts"] = errs, accs, os
	ev = append(ev, e)
	if dump(d) != before {
		ev = append(ev, M{"e": "datachanged"})
	}
	w.Case("cv", cfg, ev)
}

// counts gives the numbers of right predictions that are the percentages a of n,
// and how far they are from whole numbers (in units of 1e-9).
func counts(a []float64, n int) ([]int, []int) {
	c, d := []int{}, []int{}
	for _, v := range a {
		x := v / 100 * float64(n)
		c = append(c, fx(x, 1))
		d = append(d, fx(x-math.Round(x), 1e9))
	}
	return c, d
}

// accCase evaluates a model with known trees.
func accCase(w *W) {
	r := w.rng
	K := 1 + r.IntN(5)
	if r.IntN(12) == 0 {
		K = 10 + r.IntN(40)
	}
	nf := 1 + r.IntN(3)
	labels := someLabels(r, K)
	var b strings.Builder
	lb := strings.Join(strings.Fields(fmt.Sprint(labels)), ",")
	fmt.Fprintf(&b, `{"LearningRate":1,"ClassLabels":%s,"ProbTransformName":"softmax","BaseScore":0.5,"XGB":true}`+"\n", lb)
	shapes := [][]bool{{true}, {false, true, true}, {false, false, true, true, true}, {false, true, false, true, true}}
	model := make([][]any, K)
	for k := range model {
		model[k] = []any{}
	}
	for rd := 0; rd < 1+r.IntN(3); rd++ {
		fmt.Fprintf(&b, "ROUND %d\n", rd)
		for k := 0; k < K; k++ {
			if rd > 0 && r.IntN(4) == 0 {
				continue // stopped
			}
			fmt.Fprintf(&b, "CLASS %d, label: %d \n", k, labels[k])
			ns := handTree(r, shapes[r.IntN(len(shapes))], nf, true)
			tr := []M{}
			for _, n := range ns {
				v := r.IntN(13) - 6
				th := r.IntN(4)
				n.Value, n.Threshold = float64(v), float64(th)+0.5
				fmt.Fprintln(&b, jsonOf(n))
				tr = append(tr, M{"leaf": n.Leaf, "val": v, "thr": th, "f": n.SplitFeatureIndex + 1})
			}
			model[k] = append(model[k], tr)
		}
	}
	m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(b.String())))
	if err != nil {
		unusable("cannot make the model: %v", err)
	}
	ev := []M{}
	msg := safe(func() {
		for i := 0; i < 3; i++ {
			n := 1 + r.IntN(20)
			if r.IntN(40) == 0 {
				n = 200 + r.IntN(2500)
			}
			X := [][]int{}
			d := &utils.DataBunch{}
			for j := 0; j < n; j++ {
				x := randInts(r, nf, 0, 5)
				X = append(X, x)
				d.Data = append(d.Data, floatsOf(x))
				y := labels[r.IntN(K)]
				if r.IntN(3) == 0 {
					y = r.IntN(K + 2) // perhaps the index of a class, or no class
				}
				d.Labels = append(d.Labels, y)
			}
			fa := []float64{m.Accuracy(d)}
			for _, c := range []int{K, 0, 1, K + 5, -1, 2} {
				fa = append(fa, m.Accuracy(d, c))
			}
			accs, dev := counts(fa, n)
			ev = append(ev, M{"e": "acc", "X": X, "y": d.Labels, "accs": accs, "dev": dev})
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	w.Case("acc", M{"tot": 0, "req": 0, "odd": 0, "common": 0, "model": model, "labels": labels}, ev)
}

// accTrained compares the accuracy of a trained model with the labels it predicts.
func accTrained(w *W) {
	t := randModel(w.rng, false)
	ev := []M{}
	msg := safe(func() {
		pred := []int{}
		for _, v := range t.D.Data {
			pred = append(pred, t.m.ClassLabels()[t.m.PredictSingleClass(v)])
		}
		fa := []float64{}
		for _, c := range [][]int{{}, {t.m.Classes()}, {t.m.Classes() + 3}, {1}, {0}} {
			fa = append(fa, t.m.Accuracy(t.D, c...))
		}
		accs, dev := counts(fa, len(pred))
		ev = append(ev, M{"e": "accp", "pred": pred, "y": t.D.Labels, "accs": accs, "dev": dev})
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	w.Case("acc", M{"tot": 0, "req": 0, "odd": 0, "common": 0, "model": []any{}, "labels": []int{}}, ev)
}

func driveCV(w *W) {
	r := w.rng
	for i := 0; i < w.pick(12, 100); i++ {
		cvDefault(w)
	}
	for tot := 0; tot <= 3; tot++ { // cannot be performed
		for k := 0; k < 4; k++ {
			cvCase(w, tot, choose(r, 0, 2, 3, 5), 0, 1)
		}
	}
	for i := 0; i < w.pick(80, 800); i++ {
		req := choose(r, 0, 2, 3, 4, 5, 7)
		n := req
		if n <= 0 {
			n = 5
		}
		tot := 4*n + r.IntN(3*n)
		last := tot - (n-1)*(tot/n)
		odd := r.IntN(5)
		if (tot-odd)/2 < last+1 { // both classes stay in every training set
			continue
		}
		cvCase(w, tot, req, odd, 1)
	}
	for i := 0; i < w.pick(6, 40); i++ {
		n := choose(r, 2, 5, 10)
		tot := 150 + r.IntN(500)
		cvCase(w, tot, n, r.IntN(9), 1)
	}
	for i := 0; i < w.pick(20, 100); i++ { // more folds than possible
		tot := 8 + r.IntN(10)
		cvCase(w, tot, tot, r.IntN(3), 1)
	}
	for i := 0; i < w.pick(30, 300); i++ { // some folds, or all of them, have too few samples to train
		n := choose(r, 3, 4, 5)
		tot := 4*n + r.IntN(3*n)
		last := tot - (n-1)*(tot/n)
		if tot/2 < last+1 { // both classes stay in every training set
			continue
		}
		cvCase(w, tot, n, 0, choose(r, tot-last+1, tot-tot/n, tot-tot/n+1, tot+5))
	}
	for i := 0; i < w.pick(150, 1500); i++ {
		accCase(w)
	}
	for i := 0; i < w.pick(80, 800); i++ {
		accTrained(w)
	}
}
