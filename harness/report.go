package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

func init() { drivers["report"] = driveReport }

func thousandths(s string) int {
	v, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
	if err != nil {
		return big + 9
	}
	return fx(v, 1000)
}

// the lines of a printed tree, by fields
func printedLines(s, base string) []M {
	ls := []M{}
	for _, ln := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		pre, rest, ok := strings.Cut(ln, base) // (the leaves are indented before it)
		t := strings.TrimLeft(rest, " ")
		ind := (len(pre) + len(rest) - len(t)) / 2
		if !ok || strings.TrimLeft(pre, " ") != "" {
			t = "without the prefix"
		}
		switch {
		case t == "---> True":
			ls = append(ls, M{"t": "true", "ind": ind})
		case t == "---> False":
			ls = append(ls, M{"t": "false", "ind": ind})
		case strings.HasPrefix(t, "Feature "):
			t = strings.TrimPrefix(t, "Feature ")
			n, v := t, ""
			if i := strings.LastIndex(t, " < "); i >= 0 {
				n, v = t[:i], t[i+3:]
			}
			ls = append(ls, M{"t": "split", "ind": ind, "name": n, "num": strings.TrimSpace(n), "thr": thousandths(v)})
		case strings.HasPrefix(t, "PREDICT"):
			v, r, _ := strings.Cut(strings.TrimPrefix(t, "PREDICT"), " with ")
			r, _, _ = strings.Cut(r, " Samples")
			rows := []int{}
			for _, x := range strings.Fields(strings.Trim(r, "[] ")) {
				n, err := strconv.Atoi(x)
				if err != nil {
					n = -77
				}
				rows = append(rows, n)
			}
			sort.Ints(rows)
			ls = append(ls, M{"t": "leaf", "ind": ind, "val": thousandths(v), "rows": rows})
		default:
			ls = append(ls, M{"t": "other " + t, "ind": ind})
		}
	}
	return ls
}

func reportTree(w *W) {
	r := w.rng
	n, nf := 2+r.IntN(14), 1+r.IntN(12)
	if r.IntN(12) == 0 {
		n = 30 + r.IntN(150)
	}
	if r.IntN(10) == 0 {
		nf = 110
	}
	X := make([][]float64, n)
	o := boo.DefaultGTreeOptions()
	if r.IntN(2) == 0 {
		o = boo.DefaultXTreeOptions()
		o.Gamma = 0
	}
	for i := range X {
		X[i] = make([]float64, nf)
		for j := range X[i] {
			X[i][j] = float64(r.IntN(40)-20) / 8
		}
		g := float64(r.IntN(9) - 4)
		o.Y = append(o.Y, g)
		o.Gradients = append(o.Gradients, g)
		o.Hessian = append(o.Hessian, 1)
	}
	o.MaxDepth = choose(r, 0, 1, 2, 3, 4, 4, 15)
	nodes := []M{}
	ev := []M{}
	msg := safe(func() {
		t := boo.NewTree(X, o)
		var walk func(t *boo.Tree)
		walk = func(t *boo.Tree) {
			j := t.JNode(1, true)
			s := append([]int{}, j.Samples...)
			sort.Ints(s)
			if j.Leaf {
				nodes = append(nodes, M{"leaf": true, "val": fx(j.Value, 1000), "rows": s, "f": 0, "thr": 0})
				return
			}
			nodes = append(nodes, M{"leaf": false, "val": 0, "rows": []int{}, "f": j.SplitFeatureIndex + 1, "thr": fx(j.Threshold, 1000)})
			walk(t.Leftf(nil).(*boo.Tree))
			walk(t.Rightf(nil).(*boo.Tree))
		}
		walk(t)
		full := []string{}
		for j := 0; j < nf; j++ {
			full = append(full, choose(r, "len", "a b", "x-", "Ω", "f", " < ", "%d ", "\t")+fmt.Sprint(j))
			switch r.IntN(8) {
			case 0:
				full[j] += " "
			case 1:
				full[j] = " " + full[j]
			case 2:
				full[j] = choose(r, "", "7", "same")
			}
		}
		base := choose(r, "", "", "  ", "      ", "| ", "tree:")
		for _, names := range [][]string{nil, {}, full, full[:r.IntN(nf)]} {
			var s string
			if names == nil && r.IntN(2) == 0 {
				s = t.Print(base)
			} else {
				s = t.Print(base, names)
			}
			ev = append(ev, M{"e": "tree", "names": append([]string{}, names...), "lines": printedLines(s, base)})
		}
	})
	if msg != "" {
		ev = append(ev, M{"e": "panic", "msg": msg})
	}
	w.Case("report", M{"nodes": nodes}, ev)
}

func reportOpts(r *rand.Rand) M {
	o := boo.DefaultXOptions()
	o.XGB = r.IntN(2) == 0
	o.Rounds, o.MaxDepth = r.IntN(3000), r.IntN(40)
	for _, p := range []*float64{&o.LearningRate, &o.SubSample, &o.BaseScore, &o.Gamma, &o.Lambda, &o.MinChildWeight, &o.ColSubSample} {
		*p = float64(r.IntN(40000)-1000) / 1000
	}
	k, s, _ := strings.Cut(o.String(), " ")
	fs := []M{}
	for _, x := range strings.Split(s, "/") {
		v, tag, _ := strings.Cut(x, " ")
		val := thousandths(v)
		if tag == "r" || tag == "md" {
			n, err := strconv.Atoi(v)
			if err != nil {
				n = -77
			}
			val = n
		}
		fs = append(fs, M{"tag": tag, "val": val})
	}
	return M{"e": "opts", "kind": k, "fields": fs, "o": M{"xgb": o.XGB, "r": o.Rounds, "md": o.MaxDepth, "lr": fx(o.LearningRate, 1000), "ss": fx(o.SubSample, 1000),
		"bs": fx(o.BaseScore, 1000), "gam": fx(o.Gamma, 1000), "lam": fx(o.Lambda, 1000), "mcw": fx(o.MinChildWeight, 1000), "css": fx(o.ColSubSample, 1000)}}
}

func numbers(s string, scale float64) []int {
	r := []int{}
	for _, x := range strings.Fields(s) {
		v, err := strconv.ParseFloat(x, 64)
		if err != nil {
			r = append(r, big+9)
			continue
		}
		r = append(r, fx(v, scale))
	}
	return r
}

func reportData(r *rand.Rand) M {
	n, nf := r.IntN(7), 1+r.IntN(6)
	if r.IntN(10) == 0 {
		n = 100 + r.IntN(300)
	} else if r.IntN(10) == 0 {
		nf = 100 + r.IntN(300)
	}
	D := &utils.DataBunch{}
	X := [][]int{}
	for i := 0; i < n; i++ {
		v := randInts(r, nf, -400000, 400000) // ten thousandths
		f := make([]float64, nf)
		for j := range f {
			f[j] = float64(v[j]) / 10000
		}
		X = append(X, v)
		D.Data = append(D.Data, f)
	}
	labels, keys := []int{}, []string{}
	if r.IntN(4) > 0 {
		labels = randInts(r, n, -5, 2000)
		D.Labels = labels
	}
	if r.IntN(4) > 0 {
		for j := 0; j < nf; j++ {
			keys = append(keys, fmt.Sprintf("k%d", j))
		}
		D.Keys = keys
	}
	ls := strings.Split(D.String(), "\n")
	rows := [][]int{}
	for _, x := range ls[1:] {
		x = strings.TrimLeft(x, " ")
		a, b, _ := strings.Cut(x, " ")
		lab, err := strconv.Atoi(a)
		if err != nil {
			lab = -77
		}
		rows = append(rows, append([]int{lab}, numbers(b, 10000)...))
	}
	hd := strings.Fields(ls[0])
	got := []string{}
	if len(hd) > 0 && hd[0] == "Labels" {
		got = append(got, hd[1:]...)
	}
	return M{"e": "data", "keys": got, "rows": rows, "d": M{"keys": keys, "labels": labels, "X": X}}
}

func reportMatrix(r *rand.Rand) M {
	n, c := 1+r.IntN(6), 1+r.IntN(6)
	if r.IntN(10) == 0 {
		n = 60 + r.IntN(300)
	} else if r.IntN(10) == 0 {
		c = 60 + r.IntN(300)
	}
	m := mat.NewDense(n+2, c+2, nil)
	for i := 0; i < n+2; i++ {
		for j := 0; j < c+2; j++ {
			m.Set(i, j, float64(r.IntN(4001)-2000)/8)
		}
	}
	if r.IntN(2) == 0 {
		m = m.Slice(1, n+1, 1, c+1).(*mat.Dense)
	}
	n, c = m.Dims()
	want := [][]int{}
	for i := 0; i < n; i++ {
		v := []int{}
		for j := 0; j < c; j++ {
			v = append(v, fx(m.At(i, j), 1000))
		}
		want = append(want, v)
	}
	rows := [][]int{}
	for _, ln := range strings.Split(utils.PrintDenseMatrix(m), "\n") {
		rows = append(rows, numbers(strings.Trim(ln, "[]"), 1000))
	}
	return M{"e": "matrix", "m": want, "rows": rows}
}

// vloss has losses of its own, and remembers them
type vloss struct {
	utils.MSELoss
	r      *rand.Rand
	lab    []int // class of each sample
	losses [][]int
}

func (v *vloss) Loss(y, p, tmp *mat.Dense) float64 {
	k := -1
	for i := range v.lab {
		if y.At(0, i) == 1 {
			k = v.lab[i]
			break
		}
	}
	x := v.r.IntN(5000) + 1
	v.losses = append(v.losses, []int{k, x})
	return float64(x) / 1000
}

func reportCourse(w *W) M {
	r := w.rng
	n, K := 4+r.IntN(6), 1+r.IntN(4)
	D := &utils.DataBunch{Keys: []string{"a"}}
	lab := labelling(r, n, K)
	order := map[int]int{}
	v := &vloss{r: r, losses: [][]int{}}
	for i := 0; i < n; i++ {
		D.Data = append(D.Data, []float64{float64(r.IntN(9))})
		D.Labels = append(D.Labels, lab[i]*3)
		if _, ok := order[lab[i]]; !ok {
			order[lab[i]] = len(order)
		}
		v.lab = append(v.lab, order[lab[i]])
	}
	o := boo.DefaultXOptions()
	o.XGB = r.IntN(2) == 0
	o.SubSample, o.ColSubSample, o.MinSample = 1, 1, 1
	o.Rounds = r.IntN(8)
	if r.IntN(10) == 0 {
		o.Rounds = 30 + r.IntN(120)
	}
	o.EarlyStop = choose(r, 0, 0, 1, 2)
	o.Verbose = true
	o.Loss = v
	f, err := os.Create(filepath.Join(*scratch, "course.txt"))
	if err != nil {
		fatal("%v", err)
	}
	old := os.Stdout
	os.Stdout = f
	func() {
		defer func() { os.Stdout = old; f.Close() }()
		boo.NewMultiClass(D, o)
	}()
	b, err := os.ReadFile(f.Name())
	if err != nil {
		fatal("%v", err)
	}
	lines := [][]int{}
	for _, ln := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if ln == "" {
			continue
		}
		var a, k int
		var x float64
		if _, err := fmt.Sscanf(ln, "round: %d, class: %d train loss = %g", &a, &k, &x); err != nil {
			a = -77
		}
		lines = append(lines, []int{a, k, fx(x, 1000)})
	}
	return M{"e": "course", "lines": lines, "losses": v.losses}
}

var nodeField = regexp.MustCompile(`([A-Za-z]+): ?(\[[^\]]*\]|true|false|-?[0-9]+(?:\.[0-9]+)?)`)

// reportNode: the text of a node to be written to a file
func reportNode(r *rand.Rand) M {
	num := func() float64 { return float64(r.IntN(20000)-10000) / 1024 }
	j := &utils.JSONNode{Id: uint(r.IntN(300)), Nsamples: r.IntN(300), SplitFeatureIndex: r.IntN(9), BestScoreSoFar: num(), Leaf: r.IntN(2) == 0, Threshold: num(),
		Leftid: uint(r.IntN(300)), Rightid: uint(r.IntN(300)), Branches: r.IntN(300), Value: num(), XGB: r.IntN(2) == 0}
	for i := r.IntN(5); i > 0; i-- {
		j.Samples = append(j.Samples, r.IntN(200))
	}
	bit := func(b bool) []int {
		if b {
			return []int{1}
		}
		return []int{0}
	}
	n := M{"ID": []int{int(j.Id)}, "Samples": append([]int{}, j.Samples...), "ns": []int{j.Nsamples}, "score": []int{fx(j.BestScoreSoFar, 1000)}, "Value": []int{fx(j.Value, 1000)},
		"Threshold": []int{fx(j.Threshold, 1000)}, "Leaf": bit(j.Leaf), "Branches": []int{j.Branches}, "LeftID": []int{int(j.Leftid)}, "RightID": []int{int(j.Rightid)}, "XGB": bit(j.XGB)}
	fields := []M{}
	for _, f := range nodeField.FindAllStringSubmatch(j.String(), -1) {
		v := []int{}
		switch {
		case f[2][0] == '[':
			for _, x := range strings.Fields(f[2][1 : len(f[2])-1]) {
				k, err := strconv.Atoi(x)
				if err != nil {
					k = -77
				}
				v = append(v, k)
			}
		case f[2] == "true" || f[2] == "false":
			v = bit(f[2] == "true")
		default:
			x, _ := strconv.ParseFloat(f[2], 64)
			k := 1.0
			if f[1] == "score" || f[1] == "Value" || f[1] == "Threshold" {
				k = 1000
			}
			v = append(v, fx(x, k))
		}
		fields = append(fields, M{"tag": f[1], "val": v})
	}
	return M{"e": "node", "n": n, "fields": fields}
}

func driveReport(w *W) {
	r := w.rng
	for i := 0; i < w.pick(150, 1500); i++ {
		reportTree(w)
	}
	for i := 0; i < w.pick(100, 1000); i++ {
		ev := []M{}
		msg := safe(func() {
			ev = append(ev, reportOpts(r), reportData(r), reportMatrix(r), reportCourse(w), reportNode(r))
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("report", M{"nodes": []int{}}, ev)
	}
}
