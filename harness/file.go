package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
)

func init() { drivers["roundtrip"] = driveRoundtrip; drivers["cut"] = driveCut }

func bits(p []float64) string {
	s := make([]string, len(p))
	for i, v := range p {
		s[i] = fmt.Sprintf("%016x", math.Float64bits(v))
	}
	return strings.Join(s, ",")
}

// observe asks a model everything it can be asked.
func observe(m *boo.MultiClass, qs [][]float64, D *utils.DataBunch) [][2]string {
	var r [][2]string
	add := func(q, v string) { r = append(r, [2]string{q, v}) }
	add("labels", fmt.Sprint(m.ClassLabels()))
	add("classes", fmt.Sprint(m.Classes()))
	rs := []int{m.Rounds()}
	for k := 0; k <= m.Classes(); k++ {
		rs = append(rs, m.Rounds(k))
	}
	add("rounds", fmt.Sprint(rs))
	f, err := m.FeatureImportance()
	if err != nil {
		add("importance", "error")
	} else {
		add("importance", sortedImportance(f))
	}
	for i, q := range qs {
		add(fmt.Sprintf("p%d", i), bits(m.PredictSingle(q)))
		add(fmt.Sprintf("c%d", i), fmt.Sprint(m.PredictSingleClass(q)))
	}
	if D != nil {
		add("acc", bits([]float64{m.Accuracy(D), m.Accuracy(D, m.Classes())}))
	}
	t, err := modelText(m)
	if err != nil {
		t = "error " + err.Error()
	}
	add("text", t)
	return r
}

// ties between equally important features may be reported in any order
func sortedImportance(f *boo.Feats) string {
	l := strings.Split(f.String(), "\n")
	for i := range l[1:] {
		if _, a, ok := strings.Cut(l[i+1], "Feature"); ok {
			l[i+1] = a
		}
	}
	sort.Strings(l[1:])
	return strings.Join(l, "\n")
}

// obsEvents logs observations; long answers are interned, so that the trace stays small.
type interner map[string]string

func (in interner) id(s string) string {
	if len(s) < 60 {
		return s
	}
	if v, ok := in[s]; ok {
		return v
	}
	in[s] = fmt.Sprintf("#%d", len(in))
	return in[s]
}

func obsEvents(in interner, o string, obs [][2]string) []M {
	var ev []M
	for _, x := range obs {
		ev = append(ev, M{"e": "obs", "o": o, "q": x[0], "v": in.id(x[1])})
	}
	return ev
}

// randFloat gives any kind of finite float.
func randFloat(r *rand.Rand) float64 {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return math.Copysign(0, -1)
	case 2:
		return math.Ldexp(r.Float64(), -1060) // subnormal
	case 3:
		return (r.Float64() - 0.5) * 1e300
	case 4:
		return -1e-300 * r.Float64()
	case 5:
		return float64(r.IntN(1 << 30)) // large integer
	case 6:
		return 1 + math.Ldexp(float64(r.IntN(4)), -52)
	}
	return r.NormFloat64() * 10
}

type trained struct {
	m  *boo.MultiClass
	D  *utils.DataBunch
	o  *boo.Options
	qs [][]float64
	d  string
}

// randModel trains a model of any kind.
func randModel(r *rand.Rand, small bool) *trained {
	n := 3 + r.IntN(20)
	K := 1 + r.IntN(4)
	if !small && r.IntN(6) == 0 {
		K = 10 + r.IntN(4)
		n = K + 5
	}
	if K > n {
		K = n
	}
	nf := 1 + r.IntN(4)
	t := &trained{}
	t.D = &utils.DataBunch{}
	wild := r.IntN(3) == 0
	lab := labelling(r, n, K)
	labels := someLabels(r, K)
	if r.IntN(4) == 0 {
		for i := range labels {
			labels[i] *= 1000003
		}
	}
	for i := 0; i < n; i++ {
		v := make([]float64, nf)
		for j := range v {
			if wild {
				v[j] = randFloat(r)
			} else {
				v[j] = r.NormFloat64()
			}
		}
		t.D.Data = append(t.D.Data, v)
		t.D.Labels = append(t.D.Labels, labels[lab[i]])
	}
	for j := 0; j < nf; j++ {
		t.D.Keys = append(t.D.Keys, fmt.Sprintf("f%d", j))
	}
	o := boo.DefaultGOptions()
	if r.IntN(2) == 0 {
		o = boo.DefaultXOptions()
	}
	o.Rounds = choose(r, 0, 1, 2, 3, 5, 8)
	if small {
		o.Rounds = choose(r, 0, 1, 2, 3)
	}
	o.MaxDepth = 1 + r.IntN(4)
	o.MinChildWeight = float64(1 + r.IntN(3))
	o.MinSample = choose(r, 0, 1, 2)
	o.SubSample, o.ColSubSample = 1, 1
	if r.IntN(3) == 0 {
		o.SubSample, o.ColSubSample = 0.6, 0.7
	}
	o.LearningRate = choose(r, 0.1, 0.3, 1, 0.07, 1.0/3)
	o.BaseScore = choose(r, 0.5, 0, -2.25, 1.0/3)
	o.Lambda, o.Gamma = choose(r, 0.1, 1.5, 0.37), choose(r, 0, 0.01, 0.2)
	o.EarlyStop = 0
	if r.IntN(2) == 0 {
		// classes are stopped at different rounds
		o.EarlyStop = 1 + r.IntN(2)
		stops := make([]int, K)
		for k := range stops {
			stops[k] = 1 + r.IntN(o.Rounds+2)
		}
		o.Loss = &stopLoss{LossFunc: o.Loss, cls: lab, stops: stops, n: map[int]int{}}
	}
	t.o = o
	t.m = boo.NewMultiClass(t.D, o)
	for i := 0; i < 4; i++ {
		q := make([]float64, nf)
		for j := range q {
			q[j] = t.D.Data[r.IntN(n)][j]
			if r.IntN(2) == 0 {
				q[j] = randFloat(r)
			}
		}
		t.qs = append(t.qs, q)
	}
	t.d = fmt.Sprintf("xgb=%v n=%d K=%d nf=%d R=%d E=%d", o.XGB, n, K, nf, o.Rounds, o.EarlyStop)
	return t
}

// stopLoss is a real loss function, but that vanishes for class k in its stops[k]-th round.
type stopLoss struct {
	utils.LossFunc
	cls, stops []int
	n          map[int]int
}

func (s *stopLoss) Loss(y, p, tmp *matDense) float64 {
	for i, v := range y.RawMatrix().Data {
		if v == 1 {
			k := s.cls[i]
			s.n[k]++
			if s.n[k] >= s.stops[k] {
				return 0
			}
			break
		}
	}
	return 1 / float64(1+s.n[0]+s.n[1]) // some loss that falls
}

// handmade writes the text of a model with the given shapes (preorder, true is a leaf).
func handmade(r *rand.Rand, ens [][][]bool, K, nf int, xgb bool) string {
	var b strings.Builder
	meta := metaData{LearningRate: choose(r, 0.1, 0.5, 1.0/3), ClassLabels: someLabels(r, K), ProbTransformName: "softmax", BaseScore: choose(r, 0, 0.5, -1.0/7)}
	meta.XGB = xgb
	j, _ := json.Marshal(meta)
	b.Write(j)
	b.WriteString("\n")
	for rn, rd := range ens {
		fmt.Fprintf(&b, "ROUND %d\n", rn)
		for k, tr := range rd {
			if len(tr) == 0 {
				continue
			}
			fmt.Fprintf(&b, "CLASS %d, label: %d \n", k, meta.ClassLabels[k])
			for _, n := range handTree(r, tr, nf, xgb) {
				j, err := json.Marshal(n)
				if err != nil {
					fatal("%v", err)
				}
				b.Write(j)
				b.WriteString("\n")
			}
		}
	}
	return b.String()
}

func handTree(r *rand.Rand, tr []bool, nf int, xgb bool) []*utils.JSONNode {
	var ret []*utils.JSONNode
	pos := 0
	var walk func() *utils.JSONNode
	walk = func() *utils.JSONNode {
		leaf := tr[pos]
		pos++
		n := &utils.JSONNode{Id: uint(pos), XGB: xgb, Leaf: leaf, Branches: 1}
		ret = append(ret, n)
		n.Value = randFloat(r)
		if math.Abs(n.Value) > 1e6 {
			n.Value = r.NormFloat64()
		}
		if leaf {
			n.Nsamples = 1 + r.IntN(9)
			if !xgb {
				n.BestScoreSoFar = 0.1189998819991197253
			}
			return n
		}
		n.Threshold = randFloat(r)
		n.SplitFeatureIndex = r.IntN(nf)
		n.BestScoreSoFar = 0.001 + r.Float64()
		if !xgb {
			n.BestScoreSoFar *= -1
		}
		a := walk()
		b := walk()
		n.Leftid, n.Rightid = a.Id, b.Id
		n.Branches = 1 + a.Branches + b.Branches
		n.Nsamples = a.Nsamples + b.Nsamples
		return n
	}
	walk()
	return ret
}

func scenEns(s M) [][][]bool {
	var ens [][][]bool
	for _, rd := range s["ens"].([]any) {
		var x [][]bool
		for _, tr := range rd.([]any) {
			y := []bool{}
			for _, b := range tr.([]any) {
				y = append(y, b.(bool))
			}
			x = append(x, y)
		}
		ens = append(ens, x)
	}
	return ens
}

// writeTo writes the model by one of the ways a user would, and gives a reader of the result.
func writeTo(r *rand.Rand, m *boo.MultiClass, name, act string) (*bufio.Reader, func(), error) {
	switch r.IntN(3) {
	case 0: // a real file
		fn := filepath.Join(*scratch, name)
		f, err := os.Create(fn)
		if err != nil {
			fatal("%v", err)
		}
		w := bufio.NewWriter(f)
		if err := boo.JSONMultiClass(m, act, w); err != nil {
			f.Close()
			return nil, nil, err
		}
		w.Flush()
		f.Close()
		g, err := os.Open(fn)
		if err != nil {
			fatal("%v", err)
		}
		return bufio.NewReader(g), func() { g.Close(); os.Remove(fn) }, nil
	case 1:
		var b strings.Builder
		if err := boo.JSONMultiClass(m, act, &b); err != nil {
			return nil, nil, err
		}
		return bufio.NewReaderSize(iotest.OneByteReader(strings.NewReader(b.String())), 16), func() {}, nil
	}
	var b bytes.Buffer
	if err := boo.JSONMultiClass(m, act, &b); err != nil {
		return nil, nil, err
	}
	return bufio.NewReader(iotest.DataErrReader(&b)), func() {}, nil
}

// softCalls counts the uses of the activation function registered here
var softCalls int

func registerSoft() {
	soft := boo.ProbTransformMap["softmax"]
	boo.ProbTransformMap["verif-soft"] = func(a, b *mat.Dense) *mat.Dense {
		softCalls++
		return soft(a, b)
	}
}

var numField = regexp.MustCompile(`"[A-Za-z]+":(-?[0-9][^,}\]]*)[,}]`)

func driveRoundtrip(w *W) {
	registerSoft()
	r := w.rng
	chain := func(desc string, m *boo.MultiClass, qs [][]float64, D *utils.DataBunch, start []M, in interner) {
		ev := append([]M{}, start...)
		msg := safe(func() {
			ev = append(ev, obsEvents(in, "m0", observe(m, qs, D))...)
			for i := 1; i <= 2; i++ {
				act := "softmax"
				if r.IntN(3) == 0 { // the activation function is looked up by its name
					act = "verif-soft"
				}
				rd, done, err := writeTo(r, m, fmt.Sprintf("m%d", i), act)
				if err != nil {
					ev = append(ev, M{"e": "error", "msg": err.Error()})
					return
				}
				ev = append(ev, M{"e": "copy", "from": fmt.Sprintf("m%d", i-1), "o": fmt.Sprintf("f%d", i)})
				m, err = boo.UnJSONMultiClass(rd)
				done()
				if err != nil {
					ev = append(ev, M{"e": "error", "msg": err.Error()})
					return
				}
				ev = append(ev, M{"e": "copy", "from": fmt.Sprintf("f%d", i), "o": fmt.Sprintf("m%d", i)})
				softCalls = 0
				ev = append(ev, obsEvents(in, fmt.Sprintf("m%d", i), observe(m, qs, D))...)
				if len(qs) > 0 {
					ev = append(ev, M{"e": "activation", "mine": act != "softmax", "calls": softCalls})
				}
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("roundtrip", M{"d": desc}, ev)
	}
	for i := 0; i < w.pick(250, 2500); i++ {
		t := randModel(r, false)
		chain(t.d, t.m, t.qs, t.D, []M{{"e": "new", "o": "d"}, {"e": "new", "o": "o"}, {"e": "train", "o": "m0", "d": "d", "opt": "o", "det": false}}, interner{})
	}
	// ensembles produced by the specification
	type shape struct {
		ens [][][]bool
		K   int
	}
	shapes := []shape{}
	for _, s := range readScen() {
		shapes = append(shapes, shape{scenEns(s), int(s["K"].(float64))})
	}
	// and much larger ones: the lines have any length, the trees any depth, and there is any number of them
	for i := 0; i < w.pick(1, 4); i++ {
		for _, d := range [][3]int{{12000 + r.IntN(9000), 1, 3}, {1000 + r.IntN(400), 2, 2}, {3, 300, 1}, {2, 3, 500}} {
			K, e := d[0], [][][]bool{}
			last := make([]int, K)
			for k := range last {
				last[k] = r.IntN(d[1] + 1)
			}
			last[r.IntN(K)], last[K-1] = d[1], d[1]
			for n := 0; n < d[1]; n++ {
				rd := make([][]bool, K)
				for k := range rd {
					if n < last[k] && (K < 100 || k%500 == 0 || k == K-1) {
						rd[k] = anyShape(r, 1+r.IntN(d[2]))
					}
				}
				e = append(e, rd)
			}
			shapes = append(shapes, shape{e, K})
		}
	}
	for _, s := range shapes {
		K, ens := s.K, s.ens
		xgb := r.IntN(2) == 0
		text := handmade(r, ens, K, 3, xgb)
		ev := []M{{"e": "new", "o": "m0"}}
		in := interner{}
		meta, rounds, trees, err := parseModel(text)
		if err != nil {
			fatal("handmade: %v", err)
		}
		m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
		if err != nil {
			w.Case("roundtrip", M{"d": "handmade", "text": text}, []M{{"e": "error", "msg": err.Error()}})
			continue
		}
		// what the text says, by an independent reading of it
		qs := [][]float64{}
		for i := 0; i < 3; i++ {
			qs = append(qs, []float64{randFloat(r), randFloat(r), randFloat(r)})
		}
		rs := []int{0}
		for k := 0; k < K; k++ {
			rs = append(rs, 0)
		}
		for _, t := range trees {
			rs[t.class+1]++
		}
		rs[0] = rs[1]
		rs = append(rs, -1)
		_ = rounds
		ev = append(ev, obsEvents(in, "m0", [][2]string{{"labels", fmt.Sprint(meta.ClassLabels)}, {"classes", fmt.Sprint(K)}, {"rounds", fmt.Sprint(rs)},
			{"treelines", in.id(treeLines(text))}})...)
		t2, err := modelText(m)
		if err != nil {
			t2 = "error"
		}
		ev = append(ev, obsEvents(in, "m0", [][2]string{{"treelines", in.id(treeLines(t2))}})...)
		chain("handmade", m, qs, nil, ev, in)
	}
}

// anyShape gives the shape of a tree with n splits, of all kinds from chains to bushes.
func anyShape(r *rand.Rand, n int) []bool {
	if n == 0 {
		return []bool{true}
	}
	a := choose(r, 0, n-1, (n-1)/2, r.IntN(n))
	return append(append([]bool{false}, anyShape(r, a)...), anyShape(r, n-1-a)...)
}

// treeLines gives the lines with the trees (everything but the metadata).
func treeLines(text string) string {
	_, a, _ := strings.Cut(text, "\n")
	return a
}

var errInjected = errors.New("injected failure")

type failWriter struct {
	left int
	n    int
}

func (f *failWriter) WriteString(s string) (int, error) {
	f.n++
	if f.left == 0 {
		return 0, errInjected
	}
	f.left--
	return len(s), nil
}

// failReader gives the bytes of s and then fails.
type failReader struct {
	s     string
	chunk int
	err   error
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.s) == 0 {
		return 0, f.err
	}
	n := min(len(p), len(f.s), f.chunk)
	copy(p, f.s[:n])
	f.s = f.s[n:]
	return n, nil
}

// tryRead reads a (damaged) file and says what came out, in terms of the trees of the original one.
func tryRead(rd *bufio.Reader, orig []jtree, lines [][]string, K int) M {
	out := M{"err": false, "panic": false, "trees": []int{}, "rounds": []int{}}
	p := safe(func() {
		m, err := boo.UnJSONMultiClass(rd)
		if err != nil {
			out["err"] = true
			return
		}
		text, err := modelText(m)
		if err != nil {
			out["trees"] = []int{0}
			return
		}
		ids := []int{}
		rs := []int{}
		for k := 0; k < K; k++ {
			rs = append(rs, m.Rounds(k))
		}
		_, _, trees, err := parseModel(text)
		got := treeText(text)
		if err != nil {
			out["trees"] = []int{0}
			return
		}
		for i, t := range trees {
			id := 0
			if i < len(orig) && t.round == orig[i].round && t.class == orig[i].class && fmt.Sprint(got[i]) == fmt.Sprint(lines[i]) {
				id = i + 1
			}
			ids = append(ids, id)
		}
		out["trees"], out["rounds"] = ids, rs
		m.PredictSingle(make([]float64, 16))
	})
	if p != "" {
		out["panic"] = true
	}
	return out
}

func treeText(text string) [][]string {
	var ret [][]string
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n")[1:] {
		if strings.HasPrefix(l, "ROUND") {
			continue
		}
		if strings.HasPrefix(l, "CLASS") {
			ret = append(ret, nil)
			continue
		}
		ret[len(ret)-1] = append(ret[len(ret)-1], l)
	}
	return ret
}

func cutCase(w *W, text string, every bool) {
	r := w.rng
	meta, _, trees, err := parseModel(text)
	if err != nil {
		unusable("cannot parse the model file: %v", err)
	}
	K := len(meta.ClassLabels)
	tl := treeText(text)
	raw := strings.SplitAfter(text, "\n")
	raw = raw[:len(raw)-1]
	lines := []M{}
	for i, s := range raw {
		ln := M{"t": "node", "k": 0, "leaf": false}
		switch {
		case i == 0:
			ln["t"] = "meta"
		case strings.HasPrefix(s, "ROUND"):
			ln["t"] = "round"
		case strings.HasPrefix(s, "CLASS"):
			c := 0
			fmt.Sscanf(s, "CLASS %d", &c)
			ln["t"], ln["k"] = "class", c+1
		default:
			var j utils.JSONNode
			json.Unmarshal([]byte(s), &j)
			ln["leaf"] = j.Leaf
		}
		lines = append(lines, ln)
	}
	ev := []M{}
	rate := float64(w.pick(500, 3000)) / float64(len(text))
	reader := func(s string) *bufio.Reader {
		switch r.IntN(4) {
		case 0:
			return bufio.NewReaderSize(strings.NewReader(s), 16)
		case 1:
			return bufio.NewReader(iotest.DataErrReader(strings.NewReader(s)))
		case 2:
			return bufio.NewReaderSize(iotest.HalfReader(strings.NewReader(s)), 64)
		}
		return bufio.NewReader(strings.NewReader(s))
	}
	off := 0
	for n := 0; n <= len(raw); n++ {
		L := 0
		if n < len(raw) {
			L = len(raw[n])
		}
		outs := map[string][]M{}
		seen := map[string]bool{}
		for p := 0; p == 0 || p < L; p++ {
			if !every && p > 0 && p < L-1 && r.Float64() > rate {
				continue
			}
			part := "mid"
			if p == 0 {
				part = "none"
			} else if p == L-1 {
				part = "whole"
			}
			o := tryRead(reader(text[:off+p]), trees, tl, K)
			k := part + fmt.Sprint(o)
			if !seen[k] {
				seen[k] = true
				o["at"] = off + p
				outs[part] = append(outs[part], o)
			}
		}
		for _, part := range []string{"none", "mid", "whole"} {
			if outs[part] != nil {
				ev = append(ev, M{"e": "cut", "n": n, "part": part, "outs": outs[part]})
			}
		}
		off += L
	}
	// a line that can't be understood
	for n := range raw {
		if len(raw) > 60 && r.IntN(len(raw)) > 60 {
			continue
		}
		outs := []M{}
		L := len(raw[n])
		bad := []string{raw[n][:1+r.IntN(max(L-3, 1))], "nothing", raw[n][:L-1] + "}"}
		if f := numField.FindAllStringSubmatchIndex(raw[n], -1); len(f) > 0 { // text where there is a number
			k := f[r.IntN(len(f))]
			bad = append(bad, raw[n][:k[2]]+`"text"`+raw[n][k[3]:L-1])
		}
		switch lines[n]["t"] {
		case "class":
			bad = []string{"CLASS", "CLASS x, label: 0", "CLAS 0, label: 0"}
		case "round":
			bad = []string{"RUND 0", "{"}
		}
		for _, b := range bad {
			s := append([]string{}, raw...)
			s[n] = b + "\n"
			o := tryRead(reader(strings.Join(s, "")), trees, tl, K)
			o["line"] = b
			outs = append(outs, o)
		}
		ev = append(ev, M{"e": "damage", "n": n + 1, "outs": outs})
	}
	// a tree without its last lines, with what follows it
	for n := range raw {
		if lines[n]["t"] != "node" || (n+1 < len(raw) && lines[n+1]["t"] == "node") {
			continue
		}
		first := n
		for lines[first-1]["t"] == "node" {
			first--
		}
		for _, a := range []int{first, first + r.IntN(n-first+1)} {
			s := append(append([]string{}, raw[:a]...), raw[n+1:]...)
			o := tryRead(reader(strings.Join(s, "")), trees, tl, K)
			ev = append(ev, M{"e": "lost", "from": a + 1, "to": n + 1, "out": o})
		}
	}
	// a reader that fails after any number of bytes
	worst := M{"e": "mustfail", "what": "failing reader", "err": true, "panic": false, "at": -1}
	for p := 0; p <= len(text); p++ {
		if !every && r.Float64() > rate && p != len(text) {
			continue
		}
		e := choose(r, errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe)
		o := tryRead(bufio.NewReaderSize(&failReader{text[:p], 1 + r.IntN(64), e}, choose(r, 16, 64, 4096)), trees, tl, K)
		if o["err"] != true || o["panic"] != false {
			worst["err"], worst["panic"], worst["at"] = o["err"], o["panic"], p
			break
		}
	}
	ev = append(ev, worst)
	// a writer that fails at any call
	m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
	if err == nil {
		ok := &failWriter{left: -1}
		e := M{"e": "mustwork", "what": "writer", "err": false, "panic": false}
		if p := safe(func() { e["err"] = boo.JSONMultiClass(m, "softmax", ok) != nil }); p != "" {
			e["panic"] = true
		}
		ev = append(ev, e)
		worst := M{"e": "mustfail", "what": "failing writer", "err": true, "panic": false, "at": -1}
		for i := 0; i < ok.n; i++ {
			var err error
			p := safe(func() { err = boo.JSONMultiClass(m, "softmax", &failWriter{left: i}) })
			if err == nil || p != "" {
				worst["err"], worst["panic"], worst["at"] = err != nil, p != "", i
				break
			}
		}
		ev = append(ev, worst)
	}
	// an unknown activation function
	var unk string
	for {
		unk = choose(r, "hardmax", "", "Softmax", "softmaxx", "sigmoid")
		if _, ok := boo.ProbTransformMap[unk]; !ok {
			break
		}
	}
	o := tryRead(reader(strings.Replace(text, `"softmax"`, `"`+unk+`"`, 1)), trees, tl, K)
	ev = append(ev, M{"e": "mustfail", "what": "activation " + unk, "err": o["err"], "panic": o["panic"]})
	// a tree of a class that does not exist
	if len(trees) > 0 {
		i := r.IntN(len(trees))
		cnt := -1
		bad := choose(r, K, K+1, -1, 1000, K+100000)
		s := append([]string{}, raw...)
		for j := range s {
			if strings.HasPrefix(s[j], "CLASS") {
				cnt++
				if cnt == i {
					s[j] = fmt.Sprintf("CLASS %d, label: 1 \n", bad)
				}
			}
		}
		o = tryRead(reader(strings.Join(s, "")), trees, tl, K)
		ev = append(ev, M{"e": "mustfail", "what": fmt.Sprintf("class %d of %d", bad, K), "err": o["err"], "panic": o["panic"]})
	}
	w.Case("cut", M{"K": K, "lines": lines, "text": text}, ev)
}

func driveCut(w *W) {
	r := w.rng
	for i := 0; i < w.pick(25, 200); i++ {
		t := randModel(r, i%3 != 0)
		text, err := modelText(t.m)
		if err != nil {
			w.Case("cut", M{"K": 1, "lines": []M{}}, []M{{"e": "mustwork", "what": "write", "err": true, "panic": false}})
			continue
		}
		cutCase(w, text, len(text) < w.pick(2500, 10000))
	}
	sc := readScen()
	for i, s := range sc {
		if !w.thorough() && len(sc) > 40 && r.IntN(len(sc)/40+1) != 0 {
			continue
		}
		K := int(s["K"].(float64))
		cutCase(w, handmade(r, scenEns(s), K, 3, i%2 == 0), false)
	}
}
