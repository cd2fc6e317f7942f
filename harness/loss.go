package main

import (
	"fmt"
	"math"
	"math/rand/v2"

	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

func init() { drivers["loss"] = driveLoss }

func dense(m [][]int, unit float64) *mat.Dense {
	d := mat.NewDense(len(m), len(m[0]), nil)
	for i := range m {
		for j := range m[i] {
			d.Set(i, j, float64(m[i][j])/unit)
		}
	}
	return d
}

// frame: a matrix of which another one is a view, and what it has around it
type frame struct {
	big       *mat.Dense
	r0, c0    int
	r, c      int
	untouched float64
}

// inFrame returns a copy of d that is a view of a larger matrix.
func inFrame(r *rand.Rand, d *mat.Dense) (*mat.Dense, *frame) {
	n, c := d.Dims()
	f := &frame{r0: r.IntN(2), c0: r.IntN(3), r: n, c: c, untouched: -77.125}
	f.big = mat.NewDense(n+f.r0+r.IntN(2), c+f.c0+r.IntN(3), nil)
	f.big.Apply(func(i, j int, v float64) float64 { return f.untouched }, f.big)
	v := f.big.Slice(f.r0, f.r0+n, f.c0, f.c0+c).(*mat.Dense)
	v.Copy(d)
	return v, f
}

func (f *frame) intact() bool {
	if f == nil {
		return true
	}
	n, c := f.big.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			in := i >= f.r0 && i < f.r0+f.r && j >= f.c0 && j < f.c0+f.c
			if !in && f.big.At(i, j) != f.untouched {
				return false
			}
		}
	}
	return true
}

func undense(d *mat.Dense, unit float64) [][]int {
	if d == nil {
		return nil
	}
	r, c := d.Dims()
	ret := make([][]int, r)
	for i := range ret {
		for j := 0; j < c; j++ {
			v := d.At(i, j) * unit
			x := fx(v, 1)
			if math.Abs(v-float64(x)) > 1e-9 {
				x = big + 5 // not a multiple of the unit
			}
			ret[i] = append(ret[i], x)
		}
	}
	return ret
}

func intMat(r *rand.Rand, n, c int, gen func() int) [][]int {
	m := make([][]int, n)
	for i := range m {
		for j := 0; j < c; j++ {
			m[i] = append(m[i], gen())
		}
	}
	return m
}

func driveLoss(w *W) {
	r := w.rng
	for i := 0; i < w.pick(400, 4000); i++ {
		n, c := 1, 1+r.IntN(8)
		if r.IntN(3) == 0 {
			n = 1 + r.IntN(5)
		}
		if i%40 == 7 { // many samples or classes
			n, c = 1, 100+r.IntN(1000)
			if r.IntN(3) == 0 {
				n, c = c, 1+r.IntN(3)
			}
		}
		regs := map[string]*mat.Dense{}
		unit := map[string]float64{}
		frames := map[string]*frame{}
		views := r.IntN(3) == 0
		mk := func(nm string, m [][]int) {
			regs[nm], frames[nm] = dense(m, 8), nil
			if views && r.IntN(2) == 0 {
				regs[nm], frames[nm] = inFrame(r, regs[nm])
			}
		}
		var ev []M
		set := func(nm string, m [][]int) {
			mk(nm, m)
			unit[nm] = 8
			ev = append(ev, M{"e": "set", "r": nm, "m": m})
		}
		lim := choose(r, 8, 8, 100)
		set("y", intMat(r, n, c, func() int { return 8 * r.IntN(2) }))
		set("p", intMat(r, n, c, func() int {
			if lim > 8 {
				return r.IntN(2*lim) - lim
			}
			return r.IntN(9)
		}))
		if r.IntN(3) == 0 {
			set("y", intMat(r, n, c, func() int { return r.IntN(40) - 20 }))
		}
		nm := 0
		msg := safe(func() {
			for k := 0; k < 2+r.IntN(8); k++ {
				var L utils.LossFunc = &utils.SQErrLoss{}
				if r.IntN(2) == 0 {
					L = &utils.MSELoss{}
				}
				_, sq := L.(*utils.SQErrLoss)
				lname := "mse"
				if sq {
					lname = "sqerr"
				}
				dst := ""
				var D *mat.Dense
				if r.IntN(2) == 0 {
					dst = "g"
					D = regs["g"]
					if D == nil {
						mk("g", intMat(r, n, c, func() int { return r.IntN(9) * 13 })) // garbage
						D = regs["g"]
					}
				} else {
					nm++
					dst = fmt.Sprintf("n%d", nm)
				}
				var R *mat.Dense
				u := 8.0
				switch op := r.IntN(5); op {
				case 0, 1:
					e := "grad"
					f := L.Gradients
					if op == 1 {
						e, f = "neg", L.NegGradients
					}
					R = f(regs["y"], regs["p"], D)
					ev = append(ev, M{"e": e, "loss": lname, "y": "y", "p": "p", "dst": dst, "m": undense(R, 8)})
				case 2:
					u = 64
					R = L.Hessian(regs["p"], D)
					ev = append(ev, M{"e": "hess", "loss": lname, "p": "p", "dst": dst, "m": undense(R, 64)})
				case 3:
					var T *mat.Dense
					if r.IntN(2) == 0 {
						mk("t", intMat(r, n, c, func() int { return r.IntN(9) * 13 }))
						T = regs["t"]
					}
					v := L.Loss(regs["y"], regs["p"], T) * 64 * float64(n*c)
					ev = append(ev, M{"e": "loss", "loss": lname, "y": "y", "p": "p", "n": n * c, "v": fx(v, 1), "whole": math.Abs(v-math.Round(v)) < 1e-6})
				case 4:
					ev = append(ev, M{"e": "name", "v": L.Name(), "want": lname})
				}
				if R != nil {
					regs[dst], unit[dst] = R, u
					if D != nil {
						regs[dst] = D // the supplied matrix has to hold the result too
					}
				}
				for nm, d := range regs {
					if unit[nm] > 0 && (nm == "y" || nm == "p" || nm == dst || r.IntN(4) == 0) {
						ev = append(ev, M{"e": "look", "r": nm, "m": undense(d, unit[nm]), "around": frames[nm].intact()})
					}
				}
				if !frames["t"].intact() {
					ev = append(ev, M{"e": "look", "r": "y", "m": undense(regs["y"], 8), "around": false})
				}
				if r.IntN(6) == 0 {
					set("p", intMat(r, n, c, func() int { return r.IntN(9) }))
				}
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("loss", M{"n": n, "c": c}, ev)
	}
	for i := 0; i < w.pick(600, 6000); i++ {
		var ev []M
		msg := safe(func() {
			for k := 0; k < 1+r.IntN(3); k++ {
				if i%60 == 3 {
					ev = append(ev, softmaxCase(r, 50+r.IntN(600)))
					continue
				}
				switch r.IntN(5) {
				case 4:
					ev = append(ev, tinyCase(r))
				case 0, 1:
					ev = append(ev, softmaxCase(r))
				case 2:
					ev = append(ev, softbigCase(r))
				case 3:
					ev = append(ev, normCase(r))
				}
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("activation", M{}, ev)
	}
}

// apply runs a vector or matrix version, with or without a supplied destination.
func apply(r *rand.Rand, in [][]float64, vec func(p, q []float64) []float64, den func(o, d *mat.Dense) *mat.Dense) (out [][]float64, same bool) {
	n, c := len(in), len(in[0])
	if n == 1 && r.IntN(2) == 0 {
		x := append([]float64{}, in[0]...)
		var buf []float64
		if r.IntN(2) == 0 {
			buf = make([]float64, c+choose(r, 0, 0, 1, 5)) // a buffer can be longer than needed
			for i := range buf {
				buf[i] = 1e3 * r.Float64()
			}
		}
		o := vec(x, buf)
		same = bits(x) == bits(in[0]) && len(o) >= c && (buf != nil || len(o) == c)
		if !same {
			return [][]float64{o}, same
		}
		o = o[:c]
		same = buf == nil || bits(buf[:c]) == bits(o)
		return [][]float64{append([]float64{}, o...)}, same
	}
	X := mat.NewDense(n, c, nil)
	var fX, fD *frame
	if r.IntN(3) == 0 {
		X, fX = inFrame(r, X)
	}
	for i := range in {
		X.SetRow(i, in[i])
	}
	var D *mat.Dense
	if r.IntN(2) == 0 {
		D = mat.NewDense(n, c, nil)
		if r.IntN(3) == 0 {
			D, fD = inFrame(r, D)
		}
		for i := 0; i < n; i++ {
			for j := 0; j < c; j++ {
				D.Set(i, j, 1e3*r.Float64())
			}
		}
	}
	O := den(X, D)
	same = fX.intact() && fD.intact()
	for i := range in {
		same = same && bits(X.RawRowView(i)) == bits(in[i])
		if D != nil {
			same = same && bits(D.RawRowView(i)) == bits(O.RawRowView(i))
		}
		out = append(out, append([]float64{}, O.RawRowView(i)...))
	}
	return
}

func softmaxCase(r *rand.Rand, wide ...int) M {
	n, c := 1, 1+r.IntN(7)
	if r.IntN(2) == 0 {
		n = 1 + r.IntN(4)
	}
	if r.IntN(40) == 0 {
		c = 50 + r.IntN(600)
		if r.IntN(2) == 0 {
			n, c = c, 1+r.IntN(4)
		}
	}
	lim := choose(r, 3, 40, 400, 20000)
	if len(wide) > 0 {
		n, c, lim = 1+r.IntN(2), wide[0], choose(r, 3, 20)
	}
	var in [][]float64
	var x [][]int
	for i := 0; i < n; i++ {
		shift := choose(r, 0, 0, 1, -1, 750, -750, 1e4, -1e6)
		var row []float64
		var xi []int
		for j := 0; j < c; j++ {
			k := r.IntN(2*lim+1) - lim
			xi = append(xi, k)
			row = append(row, float64(k)/16*math.Ln2+shift)
		}
		in, x = append(in, row), append(x, xi)
	}
	out, same := apply(r, in, utils.SoftMax, utils.SoftMaxDense)
	var es [][]int
	var sums []int
	var negs []bool
	for _, o := range out {
		mx, s, neg := 0.0, 0.0, false
		for _, v := range o {
			mx = math.Max(mx, v)
			s += v
			neg = neg || v < 0 || math.IsNaN(v)
		}
		var e []int
		for _, v := range o {
			e = append(e, fx(16*math.Log2(v/mx), 10000))
		}
		es, sums, negs = append(es, e), append(sums, fx(s, 1e8)), append(negs, neg)
	}
	return M{"e": "softmax", "x": x, "in": fmt.Sprint(in), "out": es, "sum": sums, "neg": negs, "same": same}
}

// tinyCase: probabilities very near 0 or 1, given by k times a tiny unit
func tinyCase(r *rand.Rand) M {
	n, c := 1+r.IntN(2), 1+r.IntN(6)
	one := r.IntN(2) == 0
	sh := 30 + r.IntN(20)
	if !one {
		sh = 30 + r.IntN(900)
	}
	u := math.Ldexp(1, -sh)
	var x [][]int
	P := mat.NewDense(n, c, nil)
	for i := 0; i < n; i++ {
		var xi []int
		for j := 0; j < c; j++ {
			k := r.IntN(8)
			xi = append(xi, k)
			v := float64(k) * u
			if one {
				v = 1 - v
			}
			P.Set(i, j, v)
		}
		x = append(x, xi)
	}
	var L utils.LossFunc = &utils.MSELoss{}
	h := L.Hessian(P, nil)
	out := make([][]int, n)
	for i := range out {
		for j := 0; j < c; j++ {
			out[i] = append(out[i], fx(h.At(i, j)/u, 1e4))
		}
	}
	return M{"e": "tiny", "x": x, "one": one, "sh": sh, "out": out}
}

func softbigCase(r *rand.Rand) M {
	c := 1 + r.IntN(6)
	vals := []float64{-math.MaxFloat64, -1e308, -1e200, -1e10, -2000, 0, 2000, 1e6, 1e155, 1e308, math.MaxFloat64}
	var row []float64
	var x []int
	for j := 0; j < c; j++ {
		k := r.IntN(len(vals))
		x = append(x, k)
		row = append(row, vals[k])
	}
	out, same := apply(r, [][]float64{row}, utils.SoftMax, utils.SoftMaxDense)
	var o []int
	for _, v := range out[0] {
		// the projection is truncated in the specification
		o = append(o, fx(math.Floor(v*100000+1e-6), 1))
	}
	return M{"e": "softbig", "x": x, "in": fmt.Sprint(row), "out": o, "same": same}
}

func normCase(r *rand.Rand) M {
	n, c := 1+r.IntN(3), 1+r.IntN(7)
	if r.IntN(40) == 0 {
		c = 50 + r.IntN(600)
		if r.IntN(2) == 0 {
			n, c = c, 1+r.IntN(4)
		}
	}
	var in [][]float64
	var x [][]int
	unit := choose(r, 1, 8, 1e-300, 1e300)
	for i := 0; i < n; i++ {
		for {
			var row []float64
			var xi []int
			s := 0
			for j := 0; j < c; j++ {
				k := r.IntN(1000)
				if r.IntN(4) == 0 {
					k = -k
				}
				xi = append(xi, k)
				s += k
				row = append(row, float64(k)*unit)
			}
			if s > 20 || s < -20 {
				in, x = append(in, row), append(x, xi)
				break
			}
		}
	}
	out, same := apply(r, in, utils.Normalization, utils.NormalizationDense)
	var o [][]int
	for _, v := range out {
		var oi []int
		for _, w := range v {
			oi = append(oi, fx(w, 100000))
		}
		o = append(o, oi)
	}
	return M{"e": "norm", "x": x, "in": fmt.Sprint(in), "out": o, "same": same}
}
