package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
)

func init() { drivers["text"] = driveText }

func chars(s string) []string {
	r := []string{}
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

// texts gives all the strings of up to n characters.
func texts(alpha string, n int, f func(string)) {
	f("")
	var rec func(p string)
	rec = func(p string) {
		if len(p) == n {
			return
		}
		for _, c := range alpha {
			f(p + string(c))
			rec(p + string(c))
		}
	}
	rec("")
}

type batch struct {
	w    *W
	kind string
	ev   []M
}

func (b *batch) add(m M) {
	b.ev = append(b.ev, m)
	if len(b.ev) >= 200 {
		b.flush()
	}
}

func (b *batch) flush() {
	if len(b.ev) > 0 {
		b.w.Case(b.kind, M{"d": b.kind}, b.ev)
	}
	b.ev = nil
}

// res projects what a reader returned.
func res(D *utils.DataBunch, err error, msg string, val func(float64) any, lab func(int) any, key func(string) any) M {
	if msg != "" {
		return M{"err": false, "nil": true, "panic": msg, "labels": []int{}, "data": []int{}, "keys": []int{}}
	}
	r := M{"err": err != nil, "nil": D == nil}
	labels, data, keys := []any{}, []any{}, []any{}
	if D != nil {
		for _, v := range D.Labels {
			labels = append(labels, lab(v))
		}
		for _, v := range D.Data {
			row := []any{}
			for _, w := range v {
				row = append(row, val(w))
			}
			data = append(data, row)
		}
		for _, v := range D.Keys {
			keys = append(keys, key(v))
		}
	}
	r["labels"], r["data"], r["keys"] = labels, data, keys
	return r
}

func small(D *utils.DataBunch, err error, msg string) M {
	return res(D, err, msg, func(f float64) any { return fx(f, 1) }, func(i int) any { return i }, func(s string) any { return chars(s) })
}

func exact(D *utils.DataBunch, err error, msg string) M {
	return res(D, err, msg, func(f float64) any { return bits([]float64{f}) }, func(i int) any { return strconv.Itoa(i) }, func(s string) any { return s })
}

func printed(D *utils.DataBunch, err error, msg string) M {
	return res(D, err, msg, func(f float64) any { return strconv.FormatFloat(f, 'f', 4, 64) }, func(i int) any { return strconv.Itoa(i) }, func(s string) any { return s })
}

// reader gives the text in one of several ways.
func reader(r *rand.Rand, s string) io.Reader {
	switch r.IntN(4) {
	case 0:
		return iotest.OneByteReader(strings.NewReader(s))
	case 1:
		return iotest.DataErrReader(strings.NewReader(s))
	case 2:
		return iotest.HalfReader(strings.NewReader(s))
	}
	return strings.NewReader(s)
}

func tmpFile(name, s string) string {
	fn := filepath.Join(*scratch, name)
	if err := os.WriteFile(fn, []byte(s), 0o600); err != nil {
		fatal("%v", err)
	}
	return fn
}

func readCSV(r *rand.Rand, s string, hdr, lab bool, sep rune) (D *utils.DataBunch, err error, msg string) {
	msg = safe(func() {
		if r.IntN(20) == 0 {
			if sep == ',' && r.IntN(2) == 0 {
				D, err = utils.DataBunchFromCSVFile(tmpFile("t.csv", s), hdr, lab)
			} else {
				D, err = utils.DataBunchFromCSVFile(tmpFile("t.csv", s), hdr, lab, sep)
			}
			return
		}
		D, err = utils.ParseCSVFromReader(reader(r, s), hdr, lab, sep)
	})
	return
}

func readSVM(r *rand.Rand, s string, hdr bool) (D *utils.DataBunch, err error, msg string) {
	msg = safe(func() {
		if r.IntN(20) == 0 {
			if !hdr && r.IntN(2) == 0 {
				D, err = utils.DataBunchFromLibSVMFile(tmpFile("t.svm", s))
			} else {
				D, err = utils.DataBunchFromLibSVMFile(tmpFile("t.svm", s), hdr)
			}
			return
		}
		D, err = utils.ParseLibSVMFromReader(reader(r, s), hdr)
	})
	return
}

// longNum tells whether the text has a number too long for the specification's integers.
func longNum(s string) bool {
	n := 0
	for _, c := range s {
		if c >= '0' && c <= '9' {
			n++
		} else {
			n = 0
		}
		if n > 8 {
			return true
		}
	}
	return false
}

func randText(r *rand.Rand, pieces []string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pieces[r.IntN(len(pieces))])
	}
	if longNum(b.String()) {
		return randText(r, pieces, n)
	}
	return b.String()
}

// crlf gives the text with the other kind of line ends, now and then.
func crlf(r *rand.Rand, s string) string {
	if r.IntN(4) == 0 {
		return strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

func driveText(w *W) {
	r := w.rng
	b := &batch{w: w, kind: "csv"}
	csv := func(s string, sep string) {
		for k := 0; k < 4; k++ {
			hdr, lab := k&1 == 1, k&2 == 2
			D, err, msg := readCSV(r, crlf(r, s), hdr, lab, []rune(sep)[0])
			b.add(M{"e": "csv", "t": chars(s), "hdr": hdr, "lab": lab, "sep": sep, "res": small(D, err, msg)})
		}
	}
	texts("1x,\n ", w.pick(5, 6), func(s string) { csv(s, ",") })
	texts("1,\n", w.pick(7, 8), func(s string) { csv(s, ",") })
	texts("0#x\n", w.pick(4, 5), func(s string) { csv(s, ",") })
	for i := 0; i < w.pick(3000, 20000); i++ {
		sep := choose(r, ",", ";", "|", "§")
		csv(randText(r, []string{"1", "2", "3", "12", sep, sep, sep, "\n", "\n", choose(r, "x", " ", "1", "0", "#", "0x1", "010")}, 1+r.IntN(24)), sep)
		// mostly right: rows of the same length
		n := 1 + r.IntN(4)
		var rows []string
		for j := 0; j < 1+r.IntN(5); j++ {
			var f []string
			for k := 0; k < n; k++ {
				f = append(f, choose(r, "1", "2", "3", "12", "31", " 2", "010", "0", "00"))
			}
			rows = append(rows, strings.Join(f, sep))
			if r.IntN(8) == 0 {
				rows = append(rows, "")
			}
			if r.IntN(25) == 0 {
				rows[len(rows)-1] += choose(r, sep, sep+"1", "x", " ", "#")
			}
			if r.IntN(25) == 0 {
				rows[len(rows)-1] = choose(r, "#", "0x", "0b", "'") + rows[len(rows)-1]
			}
		}
		csv(strings.Join(rows, "\n")+choose(r, "", "\n", "\n\n"), sep)
	}
	b.flush()

	b.kind = "svm"
	svm := func(s string) {
		for _, hdr := range []bool{false, true} {
			D, err, msg := readSVM(r, crlf(r, s), hdr)
			b.add(M{"e": "svm", "t": chars(s), "hdr": hdr, "res": small(D, err, msg)})
		}
	}
	texts("1:x \n", w.pick(6, 7), svm)
	texts("0:# \n", w.pick(5, 6), svm)
	for i := 0; i < w.pick(4000, 30000); i++ {
		svm(randText(r, []string{"1 1:", "\n1", "1:2", " 2:3", " 1:1", " 3:1", "\n", "2", "x", " ", ":"}, 1+r.IntN(12)))
		n := r.IntN(4)
		var rows []string
		for j := 0; j < 1+r.IntN(5); j++ {
			s := choose(r, "1", "2", "13", " 3", "010", "0", "02", choose(r, "x", "0x1", "#1", "1_1", "0b1"))
			for k := 0; k < n; k++ {
				s += choose(r, " ", " ", "  ") + strconv.Itoa(k+1) + ":" + choose(r, "1", "2", "3", "22", "010", choose(r, "1", "x", "", "0", "0x1", "1#"))
			}
			if r.IntN(20) == 0 {
				s += choose(r, " 1:1", " 1", ":", " ", " 1:1:1", "#", " #", " # 1", "#1:1")
			}
			rows = append(rows, s)
			if r.IntN(8) == 0 {
				rows = append(rows, choose(r, "", " ", "  "))
			}
		}
		svm(strings.Join(rows, "\n") + choose(r, "", "\n", "\n\n", "\n "))
	}
	b.flush()

	b.kind = "names"
	names := func(s, sep string) {
		var m map[int]string
		var err error
		fn := tmpFile("names", crlf(r, s))
		msg := safe(func() {
			if sep == " " && r.IntN(2) == 0 {
				m, err = confu.ReadNameMap(fn)
			} else {
				m, err = confu.ReadNameMap(fn, sep)
			}
		})
		labels, keys := []int{}, [][]string{}
		for k := range m {
			labels = append(labels, k)
		}
		sort.Ints(labels)
		for _, k := range labels {
			keys = append(keys, chars(m[k]))
		}
		x := M{"err": err != nil, "nil": m == nil, "labels": labels, "keys": keys}
		if msg != "" {
			x = M{"err": false, "nil": true, "labels": []int{-1}, "keys": [][]string{}, "panic": msg}
		}
		b.add(M{"e": "names", "t": chars(s), "sep": sep, "res": x})
	}
	texts("1x \n", w.pick(5, 6), func(s string) { names(s, " ") })
	texts("1x,\n ", w.pick(4, 5), func(s string) { names(s, ",") })
	for i := 0; i < w.pick(1000, 8000); i++ {
		sep := choose(r, " ", ",", ";")
		var rows []string
		for j := 0; j < r.IntN(5); j++ {
			rows = append(rows, choose(r, "1", "2", "3", "12", "31", "123", "33", "x", "010", "0", "0x1", "#1")+sep+choose(r, "a", "bb", "xyz", "1", ""))
		}
		names(strings.Join(rows, "\n")+choose(r, "", "\n", "\n\n"), sep)
	}
	b.flush()

	docs(w, &batch{w: w, kind: "doc"})
	backs(w, &batch{w: w, kind: "back"})

	b.kind = "failing"
	for i := 0; i < w.pick(300, 3000); i++ {
		s := "1,2,3\n4,5,6\n7,8,9\n"
		f := func() (*utils.DataBunch, error) {
			return utils.ParseCSVFromReader(&failReader2{s: s, n: r.IntN(len(s) + 1)}, r.IntN(2) == 0, r.IntN(2) == 0, ',')
		}
		if i%2 == 0 {
			f = func() (*utils.DataBunch, error) {
				t := "1 1:2 2:3\n2 1:2 2:5\n"
				return utils.ParseLibSVMFromReader(&failReader2{s: t, n: r.IntN(len(t) + 1)}, r.IntN(2) == 0)
			}
		}
		if i == 4 {
			f = func() (*utils.DataBunch, error) {
				return utils.DataBunchFromCSVFile(filepath.Join(*scratch, "absent"), true, true)
			}
		}
		if i == 5 {
			f = func() (*utils.DataBunch, error) {
				return utils.DataBunchFromLibSVMFile(filepath.Join(*scratch, "absent"), true)
			}
		}
		if i == 6 || i == 7 {
			f = func() (*utils.DataBunch, error) {
				name := filepath.Join(*scratch, "absent")
				if i == 7 { // there, but can't be read
					name = *scratch
				}
				m, err := confu.ReadNameMap(name)
				if m == nil || (err != nil && i == 7) {
					return nil, err
				}
				return &utils.DataBunch{}, err
			}
		}
		var D *utils.DataBunch
		var err error
		msg := safe(func() { D, err = f() })
		b.add(M{"e": "failing", "res": exact(D, err, msg)})
	}
	b.flush()

	b.kind = "any"
	for i := 0; i < w.pick(4000, 40000); i++ {
		n := r.IntN(40)
		s := make([]byte, n)
		for j := range s {
			switch r.IntN(3) {
			case 0:
				s[j] = byte(r.IntN(256))
			default:
				s[j] = "0123456789.,:;-+eEnNiIfF\"' \t\r\n\n\n,,::"[r.IntN(36)]
			}
		}
		var D *utils.DataBunch
		var err error
		var msg string
		switch r.IntN(3) {
		case 0:
			D, err, msg = readSVM(r, string(s), r.IntN(2) == 0)
		case 1:
			D, err, msg = readCSV(r, string(s), r.IntN(2) == 0, r.IntN(2) == 0, choose(r, ',', ';', '\t', ' ', '"', '\n', 0, 'é', 0xFFFD))
		default:
			fn := tmpFile("names", string(s))
			var m map[int]string
			msg = safe(func() { m, err = confu.ReadNameMap(fn, choose(r, " ", ",", "", "::")) })
			if err == nil && m != nil {
				D = &utils.DataBunch{}
			}
		}
		x := exact(D, err, msg)
		x["data"], x["keys"], x["labels"] = []int{}, []int{}, []int{}
		b.add(M{"e": "any", "t": strconv.Quote(string(s)), "res": x})
	}
	b.flush()
}

type failReader2 struct {
	s string
	n int
}

func (f *failReader2) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, errors.New("device failed")
	}
	k := min(len(p), f.n)
	copy(p, f.s[:k])
	f.s, f.n = f.s[k:], f.n-k
	return k, nil
}

// spell writes a number in one of the ways numbers are written.
func spell(r *rand.Rand, v float64) string {
	switch r.IntN(5) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, 64)
	case 1:
		return strconv.FormatFloat(v, 'E', 17, 64)
	case 2:
		if math.Abs(v) < 1e15 && math.Abs(v) > 1e-6 {
			return strconv.FormatFloat(v, 'f', -1, 64)
		}
	case 3:
		if !math.Signbit(v) {
			return "+" + strconv.FormatFloat(v, 'g', -1, 64)
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func docs(w *W, b *batch) {
	r := w.rng
	for i := 0; i < w.pick(1500, 15000); i++ {
		n, nf := 1+r.IntN(8), 1+r.IntN(6)
		if r.IntN(20) == 0 {
			nf = 40 + r.IntN(300)
		}
		if r.IntN(20) == 0 {
			n = 40 + r.IntN(300)
			nf = min(nf, 5)
		}
		if i%500 == 7 && i < 3000 { // lines longer than any buffer
			n, nf = 1+r.IntN(3), choose(r, 600, 5000, 9000)+r.IntN(2000)
		}
		if i%500 == 8 && i < 3000 { // and many lines
			n, nf = 1500+r.IntN(3000), 1+r.IntN(3)
		}
		issvm := r.IntN(2) == 0
		lab, hdr := issvm || r.IntN(2) == 0, r.IntN(2) == 0
		sep := choose(r, ",", ";", "\t", "|", "§", "→")
		quoted := !issvm && r.IntN(6) == 0
		keys := []string{}
		for j := 0; j < nf; j++ {
			k := fmt.Sprintf("%s%d", choose(r, "k", "Name", "é", "#", "x#", "0"), j)
			if quoted && r.IntN(2) == 0 { // then it can hold anything
				k += choose(r, sep, "\"", "\n", " x ", "", sep+sep)
			}
			keys = append(keys, k)
		}
		quote := func(x string) string {
			if !quoted || (!strings.ContainsAny(x, "\"\n"+sep) && r.IntN(2) == 0) {
				return x
			}
			return `"` + strings.ReplaceAll(x, `"`, `""`) + `"`
		}
		defect := r.IntN(3) == 0
		at := r.IntN(n)
		var lines []M
		var txt []string
		if hdr {
			var f []string
			if lab {
				f = append(f, quote(choose(r, "L", "#", "#id", "Label", "1")))
			}
			for j, k := range keys {
				if issvm {
					k = fmt.Sprintf("%d:%s", j+1, k)
				}
				f = append(f, quote(k))
			}
			if issvm {
				txt = append(txt, strings.Join(f, " "))
			} else {
				txt = append(txt, strings.Join(f, sep))
			}
		} else {
			keys = []string{}
		}
		for s := 0; s < n; s++ {
			ln := M{"bad": false}
			l := choose(r, r.IntN(5), -r.IntN(5), r.IntN(1<<30), math.MaxInt64, math.MinInt64)
			ls := strconv.Itoa(l)
			if l >= 0 && r.IntN(8) == 0 {
				ls = choose(r, "0", "00", "+", "+0") + ls
			}
			vals, f := []string{}, []string{}
			for j := 0; j < nf; j++ {
				v := randFloat(r)
				sp := spell(r, v)
				// what the spelling says, which might be a rounded value
				u, err := strconv.ParseFloat(sp, 64)
				if err != nil {
					fatal("spelling %s: %v", sp, err)
				}
				vals = append(vals, bits([]float64{u}))
				f = append(f, sp)
			}
			kind := ""
			if defect && s == at {
				kind = choose(r, "value", "label", "short", "long", "term", "term2")
				if (n == 1 && (kind == "short" || kind == "long") && (!hdr || issvm)) || (!lab && kind == "label") || (!issvm && (kind == "term" || kind == "term2")) ||
					(kind == "short" && !issvm && nf == 1 && !lab) {
					kind = "value"
				}
			}
			j := r.IntN(nf)
			switch kind {
			case "value":
				f[j] = choose(r, "x", "1.2.3", "1,5"[:1]+"_", "--1", "1e", "0x", "abc", "#1", "1#", "0b1", "0o7")
				ln["bad"] = true
			case "label":
				ls = choose(r, "x", "1.5", "1e3", "--2", "99999999999999999999", "0x10", "1_000", "#1", "0b1", "0o7", "1.0", "1#")
				ln["bad"] = true
			case "short":
				f, vals = f[:nf-1], vals[:nf-1]
			case "long":
				f, vals = append(f, "1"), append(vals, bits([]float64{1}))
			}
			var parts []string
			if lab {
				parts = append(parts, quote(ls))
			}
			for k, x := range f {
				if issvm {
					x = fmt.Sprintf("%d:%s", k+1, x)
					if kind == "term" && k == j {
						x = strings.Replace(x, ":", choose(r, "", "::", "="), 1)
						ln["bad"] = true
					}
					if kind == "term2" && k == j {
						x += ":3"
						ln["bad"] = true
					}
				}
				parts = append(parts, quote(x))
			}
			if issvm {
				txt = append(txt, strings.Join(parts, choose(r, " ", " ", "  ", "\t")))
			} else {
				txt = append(txt, strings.Join(parts, choose(r, sep, sep, sep+" ")))
			}
			ln["lab"], ln["vals"] = strconv.Itoa(l), vals
			lines = append(lines, ln)
			if r.IntN(9) == 0 {
				txt = append(txt, "")
			}
		}
		// in a CSV file also the header has to have the right length
		broken := false
		if !issvm && hdr && defect && n == 1 {
			broken = len(lines[0]["vals"].([]string)) != nf
		}
		s := strings.Join(txt, "\n") + choose(r, "", "\n")
		var D *utils.DataBunch
		var err error
		var msg string
		if issvm {
			D, err, msg = readSVM(r, crlf(r, s), hdr)
		} else {
			D, err, msg = readCSV(r, crlf(r, s), hdr, lab, []rune(sep)[0])
		}
		b.add(M{"e": "doc", "svm": issvm, "hdr": hdr, "lab": lab, "sep": sep, "lines": lines, "keys": keys, "broken": broken, "res": exact(D, err, msg)})
	}
	b.flush()
}

// numbering gives the different ways the lines of a libSVM text number the features
func numbering(txt string) [][]int {
	ret := [][]int{}
	seen := map[string]bool{}
	for _, line := range strings.Split(txt, "\n") {
		n := []int{}
		for i, f := range strings.Fields(line) {
			if i == 0 {
				continue
			}
			k, _, _ := strings.Cut(f, ":")
			v, err := strconv.Atoi(k)
			if err != nil {
				v = -1
			}
			n = append(n, v)
		}
		if k := fmt.Sprint(n); !seen[k] {
			seen[k] = true
			ret = append(ret, n)
		}
	}
	return ret
}

func backs(w *W, b *batch) {
	r := w.rng
	for i := 0; i < w.pick(1500, 15000); i++ {
		n, nf := 1+r.IntN(8), 1+r.IntN(6)
		if r.IntN(20) == 0 {
			nf = 12 + r.IntN(200)
		}
		if i%500 == 7 && i < 3000 { // lines longer than any buffer
			n, nf = 1+r.IntN(3), choose(r, 600, 5000, 9000)+r.IntN(2000)
		}
		if i%500 == 8 && i < 3000 { // and many lines
			n, nf = 1500+r.IntN(3000), 1+r.IntN(3)
		}
		D := &utils.DataBunch{}
		data, labels, keys := [][]string{}, []string{}, []string{}
		withlab, withkeys := r.IntN(4) != 0, r.IntN(2) == 0
		for s := 0; s < n; s++ {
			row, rs := []float64{}, []string{}
			for j := 0; j < nf; j++ {
				v := randFloat(r)
				if r.IntN(4) == 0 {
					v = choose(r, 0.00005, -0.00005, 99999.99995, -1e-9, 1234567.00001, 0.5)
				}
				row = append(row, v)
				rs = append(rs, strconv.FormatFloat(v, 'f', 4, 64))
			}
			D.Data = append(D.Data, row)
			data = append(data, rs)
			if withlab {
				l := choose(r, r.IntN(5), -r.IntN(500), r.IntN(1<<40))
				D.Labels = append(D.Labels, l)
				labels = append(labels, strconv.Itoa(l))
			}
		}
		if withkeys {
			for j := 0; j < nf; j++ {
				keys = append(keys, fmt.Sprintf("%s%d", choose(r, "k", "Name_", "é"), j))
			}
			if r.IntN(200) == 0 {
				keys[r.IntN(nf)] += strings.Repeat("long", 1+r.IntN(20000))
			}
			D.Keys = append([]string{}, keys...)
		}
		before := dump(D)
		var E *utils.DataBunch
		var err error
		var msg, txt string
		nums := [][]int{}
		if r.IntN(2) == 0 {
			m1 := safe(func() { txt = D.LibSVM() })
			E, err, msg = readSVM(r, txt, withkeys)
			nums = numbering(txt)
			if m1 != "" {
				msg = m1
			}
		} else {
			sep := choose(r, ",", ";", "\t", "|", " ", "§")
			m1 := safe(func() {
				if sep == "," && r.IntN(2) == 0 {
					txt = D.CSV()
				} else {
					txt = D.CSV(sep)
				}
			})
			E, err, msg = readCSV(r, txt, withkeys, true, []rune(sep)[0])
			if m1 != "" {
				msg = m1
			}
		}
		x := printed(E, err, msg)
		if dump(D) != before {
			x["err"] = true // writing changed the data
		}
		b.add(M{"e": "back", "data": data, "labels": labels, "keys": keys, "nums": nums, "res": x})
	}
	for _, D := range []*utils.DataBunch{nil, {}, {Keys: []string{"a", "b"}}, {Data: [][]float64{}, Labels: []int{}}} {
		for _, f := range []func() string{func() string { return D.LibSVM() }, func() string { return D.CSV() }, func() string { return D.CSV(";") }} {
			txt := ""
			msg := safe(func() { txt = f() })
			b.add(M{"e": "empty", "panic": msg != "", "txt": txt})
		}
	}
	b.flush()
}
