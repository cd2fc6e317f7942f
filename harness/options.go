package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
)

func init() { drivers["options"] = driveOptions }

// floats and their codes, in order
var fcodes = []struct {
	v float64
	c int
}{
	{-math.MaxFloat64, -20}, {-2, -16}, {-0.5, -4}, {-math.SmallestNonzeroFloat64, -1}, {0, 0}, {math.SmallestNonzeroFloat64, 1}, {1e-9, 2}, {0.5, 4},
	{math.Nextafter(1, 0), 7}, {1, 8}, {math.Nextafter(1, 2), 9}, {1.5, 12}, {2, 16}, {3, 24}, {1e300, 30},
}

var icodes = []int{-7, -1, 0, 1, 2, 3, 10, 1000}

func fcode(v float64) int {
	for _, x := range fcodes {
		if x.v == v {
			return x.c
		}
	}
	return 12345
}

type tagLoss struct {
	utils.MSELoss
	tag string
}

var losses = []utils.LossFunc{nil, &tagLoss{tag: "a"}, &tagLoss{tag: "b"}}

// code projects one field.
func code(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Int:
		return int(v.Int())
	case reflect.Float64:
		return fcode(v.Float())
	case reflect.String:
		return int(3 * len(v.String()))
	case reflect.Array, reflect.Slice:
		r := []any{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, code(v.Index(i)))
		}
		return r
	case reflect.Interface:
		for i, l := range losses {
			if v.IsNil() && l == nil {
				return 0
			}
			if !v.IsNil() && l != nil && v.Interface() == any(l) {
				return i
			}
		}
		return 99
	}
	fatal("options have a field of kind %v", v.Kind())
	return nil
}

// other gives a random value to a field.
func other(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int:
		v.SetInt(int64(choose(r, icodes...)))
	case reflect.Float64:
		v.SetFloat(fcodes[r.IntN(len(fcodes))].v)
	case reflect.String:
		v.SetString(choose(r, "", "a", "exact", "histogram"))
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			other(r, v.Index(i))
		}
	case reflect.Interface:
		l := losses[r.IntN(3)]
		if l == nil {
			v.SetZero()
		} else {
			v.Set(reflect.ValueOf(l))
		}
	default:
		fatal("options have a field of kind %v", v.Kind())
	}
}

// fields gives all the fields of the struct that p points to.
func fields(p any) []string {
	t := reflect.TypeOf(p).Elem()
	var r []string
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			r = append(r, t.Field(i).Name)
		}
	}
	sort.Strings(r)
	return r
}

func look(p any) M {
	m := M{}
	for _, f := range fields(p) {
		m[f] = code(reflect.ValueOf(p).Elem().FieldByName(f))
	}
	return m
}

func validOptions() *boo.Options {
	o := &boo.Options{}
	o.XGB = true
	o.Rounds, o.MaxDepth, o.MinSample = 3, 3, 2
	o.LearningRate, o.SubSample, o.ColSubSample = 0.5, 0.5, 1
	o.Lambda, o.Gamma, o.MinChildWeight = 2, 0, 1.5
	o.TreeMethod = "exact"
	return o
}

func driveOptions(w *W) {
	r := w.rng
	fs := fields(&boo.Options{})
	set := func(ev *[]M, name string, p any, f string) {
		v := reflect.ValueOf(p).Elem().FieldByName(f)
		other(r, v)
		*ev = append(*ev, M{"e": "set", "o": name, "k": f, "v": code(v)})
	}
	// ensemble options: histories of changes, copies, comparisons and checks
	for i := 0; i < w.pick(600, 8000); i++ {
		var ev []M
		os := map[string]*boo.Options{}
		names := []string{}
		add := func(n string, o *boo.Options) {
			os[n] = o
			names = append(names, n)
		}
		o := validOptions()
		if r.IntN(3) == 0 {
			for _, f := range fs {
				other(r, reflect.ValueOf(o).Elem().FieldByName(f))
			}
		}
		add("a", o)
		ev = append(ev, M{"e": "new", "o": "a", "f": look(o)})
		msg := safe(func() {
			for k := 0; k < 4+r.IntN(10); k++ {
				x := choose(r, names...)
				y := choose(r, names...)
				switch r.IntN(6) {
				case 0:
					n := fmt.Sprintf("c%d", len(names))
					add(n, os[x].Clone())
					ev = append(ev, M{"e": "clone", "from": x, "o": n}, M{"e": "look", "o": n, "f": look(os[n])}, M{"e": "equal", "a": x, "b": n, "v": os[x].Equal(os[n])})
				case 1, 2:
					set(&ev, x, os[x], choose(r, fs...))
					ev = append(ev, M{"e": "equal", "a": x, "b": y, "v": os[x].Equal(os[y])}, M{"e": "equal", "a": y, "b": x, "v": os[y].Equal(os[x])})
				case 3:
					ev = append(ev, M{"e": "equal", "a": x, "b": y, "v": os[x].Equal(os[y])})
				case 4, 5:
					ev = append(ev, M{"e": "check", "o": x, "ok": os[x].Check() == nil})
				}
				for _, n := range names {
					if r.IntN(2) == 0 {
						ev = append(ev, M{"e": "look", "o": n, "f": look(os[n])})
					}
				}
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("options", M{}, ev)
	}
	// every field, alone, makes options different; every value of every field is checked
	for _, f := range fs {
		var ev []M
		msg := safe(func() {
			for k := 0; k < 40; k++ {
				a := validOptions()
				b := a.Clone()
				ev = append(ev, M{"e": "new", "o": "a", "f": look(a)}, M{"e": "clone", "from": "a", "o": "b"})
				set(&ev, "b", b, f)
				ev = append(ev, M{"e": "equal", "a": "a", "b": "b", "v": a.Equal(b)}, M{"e": "equal", "a": "b", "b": "a", "v": b.Equal(a)},
					M{"e": "check", "o": "b", "ok": b.Check() == nil}, M{"e": "look", "o": "a", "f": look(a)}, M{"e": "look", "o": "b", "f": look(b)})
			}
			v := reflect.ValueOf(validOptions()).Elem().FieldByName(f)
			all := func(n int, put func(v reflect.Value, i int)) {
				for k := 0; k < n; k++ {
					a := validOptions()
					v := reflect.ValueOf(a).Elem().FieldByName(f)
					put(v, k)
					ev = append(ev, M{"e": "new", "o": "a", "f": look(a)}, M{"e": "check", "o": "a", "ok": a.Check() == nil})
				}
			}
			switch v.Kind() {
			case reflect.Int:
				all(len(icodes), func(v reflect.Value, i int) { v.SetInt(int64(icodes[i])) })
			case reflect.Float64:
				all(len(fcodes), func(v reflect.Value, i int) { v.SetFloat(fcodes[i].v) })
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("field", M{"f": f}, ev)
	}
	// grid options
	gs := fields(&cv.GridOptions{})
	for i := 0; i < w.pick(200, 2000); i++ {
		var ev []M
		a := &cv.GridOptions{}
		for _, f := range gs {
			other(r, reflect.ValueOf(a).Elem().FieldByName(f))
		}
		ev = append(ev, M{"e": "new", "o": "a", "f": look(a)})
		msg := safe(func() {
			b := a.Clone()
			ev = append(ev, M{"e": "clone", "from": "a", "o": "b"}, M{"e": "look", "o": "b", "f": look(b)})
			for k := 0; k < 5; k++ {
				if r.IntN(2) == 0 {
					set(&ev, "a", a, choose(r, gs...))
				} else {
					set(&ev, "b", b, choose(r, gs...))
				}
				ev = append(ev, M{"e": "look", "o": "a", "f": look(a)}, M{"e": "look", "o": "b", "f": look(b)})
			}
		})
		if msg != "" {
			ev = append(ev, M{"e": "panic", "msg": msg})
		}
		w.Case("grid", M{}, ev)
	}
}
