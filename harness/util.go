package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

func init() { drivers["util"] = driveUtil }

func fl(s []int) []float64 {
	r := make([]float64, len(s))
	for i, v := range s {
		r[i] = float64(v)
	}
	return r
}

func unfl(s []float64) []int {
	r := make([]int, len(s))
	for i, v := range s {
		r[i] = fx(v, 1)
	}
	return r
}

func fl2(m [][]int) [][]float64 {
	r := make([][]float64, len(m))
	for i, v := range m {
		r[i] = fl(v)
	}
	return r
}

func unfl2(m [][]float64) [][]int {
	r := make([][]int, len(m))
	for i, v := range m {
		r[i] = unfl(v)
	}
	return r
}

func driveUtil(w *W) {
	r := w.rng
	dim := func() int {
		if r.IntN(12) == 0 {
			return 10 + r.IntN(40)
		}
		if r.IntN(400) == 0 {
			return 100 + r.IntN(200)
		}
		if r.IntN(1200) == 0 {
			return 400 + r.IntN(1000)
		}
		return 1 + r.IntN(6)
	}
	val := func(spread int) func() int { return func() int { return r.IntN(2*spread+1) - spread } }
	for i := 0; i < w.pick(1500, 12000); i++ {
		ev := []M{}
		for k := 0; k < 6; k++ {
			ev = append(ev, utilPure(r, dim, val)...)
		}
		w.Case("pure", M{}, ev)
	}
	for i := 0; i < w.pick(60, 400); i++ { // one dimension is large
		n := 0
		large := func() int {
			n++
			if n == i%2+1 {
				return []int{150, 500, 1200}[i/2%3] + r.IntN(300)
			}
			return 1 + r.IntN(3)
		}
		w.Case("pure", M{}, utilPure(r, large, val))
	}
	for i := 0; i < w.pick(800, 6000); i++ {
		w.Case("view", M{}, utilView(r, i%60 == 7))
	}
	for i := 0; i < w.pick(600, 5000); i++ {
		w.Case("sorter", M{}, utilSorter(r))
	}
}

func utilPure(r *rand.Rand, dim func() int, val func(int) func() int) []M {
	spread := []int{0, 1, 2, 3, 50}[r.IntN(5)]
	gen := val(spread)
	seq := func(n int) []int {
		s := make([]int, n)
		for i := range s {
			s[i] = gen()
		}
		return s
	}
	switch r.IntN(8) {
	case 0: // labels
		s := seq(dim())
		if r.IntN(30) == 0 { // many different ones
			gen = val(150 + r.IntN(400))
			s = seq(200 + r.IntN(200))
		}
		D := &utils.DataBunch{Labels: slices.Clone(s)}
		m, d := D.OHELabels()
		return []M{{"e": "onehot", "s": s, "m": undense(m, 1), "d": slices.Clone(d), "after": D.Labels}}
	case 1: // keys
		s := seq(dim())
		k := make([]string, len(s))
		for i, v := range s {
			k[i] = fmt.Sprintf("k%d", v)
			if v == 0 {
				k[i] = ""
			}
		}
		D := &utils.DataBunch{Keys: slices.Clone(k)}
		m, d := D.OHEKeys()
		return []M{{"e": "onehot", "s": k, "m": undense(m, 1), "d": slices.Clone(d), "after": D.Keys}}
	case 2: // parts of a slice
		n := dim() - 1
		s := seq(n)
		ix := make([]int, r.IntN(n+2))
		for i := range ix {
			ix[i] = r.IntN(n + 1)
			if r.IntN(4) > 0 && n > 0 {
				ix[i] = r.IntN(n)
			}
		}
		f := fl(s)
		out := []int{}
		msg := safe(func() { out = unfl(utils.SampleSlice(f, ix)) })
		return []M{{"e": "pick", "s": s, "ix": ix, "ok": msg == "", "out": out, "after": unfl(f)}}
	case 3: // parts of a matrix
		n, c := dim(), dim()
		m := intMat(r, n, c, gen)
		rows := make([]int, r.IntN(2*n+1))
		for i := range rows {
			rows[i] = r.IntN(n)
		}
		cols := make([]int, r.IntN(c+1))
		for i := range cols {
			cols[i] = r.IntN(c)
		}
		f := fl2(m)
		out := utils.SampleMatrix(f, rows, cols)
		o := unfl2(out)
		// what was sampled is not part of the original
		for _, v := range out {
			for j := range v {
				v[j] = 777
			}
		}
		return []M{{"e": "sub", "m": m, "rows": rows, "cols": cols, "out": o, "after": unfl2(f)}}
	case 4:
		m := intMat(r, dim(), dim(), gen)
		f := fl2(m)
		out := utils.TransposeFloats(f)
		o := unfl2(out)
		for _, v := range out {
			for j := range v {
				v[j] = 777
			}
		}
		return []M{{"e": "transpose", "m": m, "out": o, "after": unfl2(f)}}
	case 5: // sorted indexes, with buffers or not
		n := dim() - 1
		if r.IntN(100) == 0 {
			n = 300 + r.IntN(2000)
			if r.IntN(2) == 0 {
				spread = 1000
				gen = val(spread)
			}
		}
		s := seq(n)
		// numbers of any scale, and very close to each other
		up := choose(r, func(v int) float64 { return float64(v) }, func(v int) float64 { return float64(v) },
			func(v int) float64 { return float64(v) * math.SmallestNonzeroFloat64 },
			func(v int) float64 { return 1 + math.Ldexp(float64(v), -52) },
			func(v int) float64 { return float64(v) * 1e300 },
			func(v int) float64 {
				if v == spread || v == -spread {
					return math.Inf(v)
				}
				return float64(v) * 1e-9
			})
		back := map[float64]int{}
		f := make([]float64, n)
		for i, v := range s {
			f[i] = up(v)
			back[f[i]] = v
		}
		unfl := func(f []float64) []int {
			ret := []int{}
			for _, v := range f {
				x, ok := back[v]
				if !ok {
					x = big
				}
				ret = append(ret, x)
			}
			return ret
		}
		var ix []int
		var v []float64
		if r.IntN(2) == 0 {
			ix, v = utils.ArgSort(f)
		} else {
			ex := r.IntN(2) * r.IntN(4)
			ix, v = utils.MemArgSort(f, randInts(r, n+ex, -60, 60), fl(randInts(r, n+ex, -60, 60)))
		}
		return []M{{"e": "argsort", "s": s, "ix": append([]int{}, ix...), "out": unfl(v), "after": unfl(f)}}
	case 6:
		m := intMat(r, dim(), dim(), gen)
		d := dense(m, 1)
		o := boo.ClassesFromProbs(d)
		if _, cc := o.Dims(); cc != 1 {
			return []M{{"e": "classes", "m": m, "out": "not a column", "after": m}}
		}
		return []M{{"e": "classes", "m": m, "out": unfl(mat.Col(nil, 0, o)), "after": undense(d, 1)}}
	default:
		n, c := dim(), 2+r.IntN(5)
		m := intMat(r, n, c, func() int { return r.IntN(8) })
		for i := range m {
			if r.IntN(2) == 0 { // usual values
				for j := range m[i] {
					m[i][j]++
				}
			}
			if slices.Max(m[i]) == 0 {
				m[i][0] = 1
			}
		}
		d := dense(m, 8) // eighths
		o := boo.LogOddsFromProbs(d)
		rr, cc := o.Dims()
		out, inv := make([][]int, rr), make([][]int, rr)
		for i := range out {
			for j := 0; j < cc; j++ {
				out[i] = append(out[i], fx(math.Exp(o.At(i, j)), 1e5))
				inv[i] = append(inv[i], fx(math.Exp(-o.At(i, j)), 1e5))
			}
		}
		return []M{{"e": "odds", "m": m, "out": out, "inv": inv, "after": undense(d, 8)}}
	}
}

// utilView: matrices and windows on them.
func utilView(r *rand.Rand, large bool) []M {
	rows, steps := 1+r.IntN(6), 3+r.IntN(10)
	if large {
		rows, steps = choose(r, 60, 300, 1500)+r.IntN(100), 3+r.IntN(4)
	}
	ev := []M{}
	mats := map[string]*mat.Dense{}
	names := []string{}
	set := func(n string, rows, cols int) {
		m := intMat(r, rows, cols, func() int { return r.IntN(41) - 20 })
		mats[n] = dense(m, 1)
		names = append(names, n)
		ev = append(ev, M{"e": "set", "n": n, "m": m})
	}
	set("a", rows, 1+r.IntN(6))
	if r.IntN(2) == 0 {
		set("b", 1+r.IntN(3), 1+r.IntN(3))
	}
	for k := 0; k < steps; k++ {
		n := names[r.IntN(len(names))]
		D := mats[n]
		rows, cols := D.Dims()
		switch r.IntN(6) {
		case 0, 1:
			r0, c0 := r.IntN(rows), r.IntN(cols)
			rr, cc := 1+r.IntN(rows-r0), 1+r.IntN(cols-c0)
			v := fmt.Sprintf("v%d", k)
			mats[v] = D.Slice(r0, r0+rr, c0, c0+cc).(*mat.Dense)
			names = append(names, v)
			ev = append(ev, M{"e": "view", "n": v, "of": n, "r0": r0, "c0": c0, "r": rr, "c": cc})
		case 2, 3:
			col := r.IntN(cols + r.IntN(3))
			out := []int{}
			var o *mat.Dense
			msg := safe(func() { o = utils.DenseCol(D, col) })
			if o != nil {
				out = undense(o, 1)[0]
				if x, _ := o.Dims(); x != 1 {
					out = nil
				}
				utils.ToOnes(o) // it is a copy
			}
			ev = append(ev, M{"e": "col", "n": n, "col": col, "ok": msg == "", "out": out})
		case 4:
			col := r.IntN(cols + r.IntN(3))
			l := rows
			if r.IntN(6) == 0 {
				l = r.IntN(2 * rows)
			}
			s := randInts(r, l, -9, 9)
			msg := safe(func() { utils.AddToCol(D, fl(s), col) })
			ev = append(ev, M{"e": "add", "n": n, "col": col, "s": s, "ok": msg == ""})
		case 5:
			if large {
				n, D = "a", mats["a"]
			}
			if large || r.IntN(3) == 0 {
				utils.ToOnes(D)
				ev = append(ev, M{"e": "ones", "n": n})
			}
		}
		for _, x := range names {
			if x == "a" || r.IntN(3) == 0 {
				ev = append(ev, M{"e": "look", "n": x, "m": undense(mats[x], 1)})
			}
		}
	}
	return ev
}

func utilSorter(r *rand.Rand) []M {
	ev := []M{}
	n := r.IntN(8)
	if r.IntN(60) == 0 {
		n = 100 + r.IntN(300)
	}
	s := randInts(r, n, -3, 3)
	S := utils.NewSlice(fl(s))
	ev = append(ev, M{"e": "sorter", "n": "s", "s": s})
	see := func(e string) {
		ev = append(ev, M{"e": e, "n": "s", "v": unfl(S.Float64Slice), "ix": append([]int{}, S.Idx...)})
	}
	see("see")
	for k := 0; k < 1+r.IntN(6); k++ {
		switch x := r.IntN(4); {
		case x < 2 && n > 0:
			i, j := r.IntN(n), r.IntN(n)
			S.Swap(i, j)
			ev = append(ev, M{"e": "swap", "n": "s", "i": i, "j": j})
			see("see")
		case x == 2 && n > 0:
			i, j := r.IntN(n), r.IntN(n)
			ev = append(ev, M{"e": "less", "n": "s", "i": i, "j": j, "v": S.Less(i, j), "len": S.Len()})
		default:
			sort.Sort(S)
			see("sort")
		}
	}
	return ev
}
