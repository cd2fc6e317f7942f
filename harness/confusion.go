package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
)

func init() { drivers["confusion"] = driveConfusion }

// classifier is a model that predicts class k for vectors with k in their first feature.
func classifier(labels []int, xgb bool) *boo.MultiClass {
	var b strings.Builder
	line := func(v any) {
		j, err := json.Marshal(v)
		if err != nil {
			fatal("%v", err)
		}
		b.Write(j)
		b.WriteString("\n")
	}
	line(metaData{LearningRate: 1, ClassLabels: labels, ProbTransformName: "softmax", XGB: xgb})
	fmt.Fprintf(&b, "ROUND 0\n")
	for k := range labels {
		fmt.Fprintf(&b, "CLASS %d, label: %d \n", k, labels[k])
		leaf := func(id uint, v float64) utils.JSONNode {
			return utils.JSONNode{Id: id, XGB: xgb, Leaf: true, Branches: 1, Nsamples: 1, Value: v}
		}
		line(utils.JSONNode{Id: 1, XGB: xgb, Threshold: float64(k) + 0.5, Leftid: 2, Rightid: 5, Branches: 5, Nsamples: 3, BestScoreSoFar: 1})
		line(utils.JSONNode{Id: 2, XGB: xgb, Threshold: float64(k) - 0.5, Leftid: 3, Rightid: 4, Branches: 3, Nsamples: 2, BestScoreSoFar: 1})
		line(leaf(3, 0))
		line(leaf(4, 5))
		line(leaf(5, 0))
	}
	m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(b.String())))
	if err != nil {
		panic("rmera/boo: can't read the model: " + err.Error())
	}
	return m
}

func confusionCase(w *W, r *rand.Rand, m *boo.MultiClass, D *utils.DataBunch, desc string) {
	var ev []M
	labels := m.ClassLabels()
	K := len(labels)
	cfg := M{"d": desc, "K": K, "labels": labels, "actual": append([]int{}, D.Labels...)}
	names := map[int]string{}
	for i, v := range labels {
		names[v] = choose(r, "n", "cat", "L_") + strconv.Itoa(i)
	}
	if r.IntN(3) == 0 {
		names = confu.MakeSimpleNameMap(labels)
	}
	ix := map[string]int{}
	for i, v := range labels {
		ix[names[v]] = i + 1
	}
	plus := func(s []int) []int {
		t := []int{}
		for _, v := range s {
			t = append(t, v+1)
		}
		return t
	}
	msg := safe(func() {
		preds := []int{}
		for i, v := range D.Data {
			p := m.PredictSingleClass(v)
			preds = append(preds, labels[p])
			ev = append(ev, M{"e": "sample", "a": slices.Index(labels, D.Labels[i]) + 1, "p": p + 1})
		}
		cfg["predicted"] = preds
		C := confu.MCConfusions(m, D)
		acc := int(math.Round(m.Accuracy(D) * float64(len(D.Data)) / 100))
		nq := 6 + r.IntN(8)
		for i := 0; i < nq; i++ {
			N := choose(r, 1, 1, 2, 3, K, K+3, 0)
			switch r.IntN(6) {
			case 0:
				mx := C.Matrix()
				cp := [][]int{}
				for _, v := range mx {
					cp = append(cp, append([]int{}, v...))
				}
				ev = append(ev, M{"e": "matrix", "m": cp})
			case 1:
				ev = append(ev, M{"e": "lists", "labels": append([]int{}, C.Labels...), "actual": append([]int{}, C.Actual...), "predicted": append([]int{}, C.Predicted...), "acc": acc})
			case 2, 3:
				lab := labels[r.IntN(K)]
				if r.IntN(6) == 0 {
					lab = 77777 + r.IntN(3)
				}
				var idx, cnt []int
				if r.IntN(2) == 0 {
					idx, cnt = C.TopNForLabelM(N, lab)
				} else {
					idx, cnt = C.TopNForLabelM(N, lab, r.IntN(3) != 0)
				}
				ev = append(ev, M{"e": "top", "l": slices.Index(labels, lab) + 1, "n": N, "nil": idx == nil && cnt == nil, "idx": plus(idx), "counts": append([]int{}, cnt...)})
			case 4:
				idx, cnt := C.TopNPerLabel(N)
				var a, b [][]int
				for j := range idx {
					a = append(a, plus(idx[j]))
					b = append(b, append([]int{}, cnt[j]...))
				}
				ev = append(ev, M{"e": "tops", "n": N, "idx": a, "counts": b})
			case 5:
				txt := C.PrintTopN(N, names)
				lines := []M{}
				for _, ln := range strings.Split(txt, "\n")[1:] {
					f := strings.Fields(ln)
					if len(f) == 0 {
						continue
					}
					if len(f) < 2 || f[0] != "Label" {
						lines = append(lines, M{"l": 0, "idx": []int{}, "counts": []int{}})
						continue
					}
					x := M{"l": ix[f[1]]}
					id, ct := []int{}, []int{}
					for _, t := range f[2:] {
						nm, v, _ := strings.Cut(t, ":")
						n, err := strconv.Atoi(v)
						if err != nil {
							n = -1
						}
						id = append(id, ix[nm])
						ct = append(ct, n)
					}
					x["idx"], x["counts"] = id, ct
					lines = append(lines, x)
				}
				ev = append(ev, M{"e": "print", "n": N, "lines": lines})
			}
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	if _, ok := cfg["predicted"]; !ok {
		cfg["predicted"] = []int{}
	}
	w.Case("confusion", cfg, ev)
}

func driveConfusion(w *W) {
	r := w.rng
	for i := 0; i < w.pick(500, 6000); i++ {
		if i%4 == 0 {
			t := randModel(r, true)
			D := &utils.DataBunch{Keys: t.D.Keys}
			ls := t.m.ClassLabels()
			for j := range t.D.Data {
				for k := 0; k < 1+r.IntN(2); k++ {
					D.Data = append(D.Data, t.D.Data[j])
					l := t.D.Labels[j]
					switch r.IntN(5) {
					case 0:
						l = choose(r, ls...)
					case 1:
						if r.IntN(3) == 0 {
							l = 987654 // a label that the model doesn't know
						}
					}
					D.Labels = append(D.Labels, l)
				}
			}
			confusionCase(w, r, t.m, D, "trained "+t.d)
			continue
		}
		K := 1 + r.IntN(6)
		if r.IntN(5) == 0 {
			K = 12 + r.IntN(6)
		}
		labels := someLabels(r, K)
		m := classifier(labels, r.IntN(2) == 0)
		n := 1 + r.IntN(40)
		if i%100 == 1 {
			n = 300 + r.IntN(1500)
		}
		D := &utils.DataBunch{Keys: []string{"a"}}
		spread := choose(r, 1, 2, K) // how many predicted classes
		drop := r.IntN(K)            // a class without samples
		for j := 0; j < n; j++ {
			k := r.IntN(K)
			if k == drop && K > 1 {
				k = (k + 1) % K
			}
			l := labels[k]
			if r.IntN(12) == 0 {
				l = 987654
			}
			D.Labels = append(D.Labels, l)
			D.Data = append(D.Data, []float64{float64((k + r.IntN(spread)) % K)})
		}
		confusionCase(w, r, m, D, "handmade")
	}
}
