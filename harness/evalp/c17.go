package main

import (
	"errors"
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"pgregory.net/rapid"
	"verif/hx"
)

// recorder is a classifier that notes what it is given and predicts by a rule
// of the row's identity and the number of the fold.
type recorder struct {
	base.BaseClassifier
	t           hx.TB
	m           *hx.Table
	attrs       []base.Attribute
	id          int
	train, test [][]int
	failFit     int // fold whose Fit fails, or -1
	failPredict int
	short       int // fold whose prediction lacks a row
	label       func(fold, id int) int
}

var errFit, errPredict = errors.New("fit failed"), errors.New("predict failed")

// ids reads a grid both ways, checks every row is a whole genuine row, and
// returns which ones they are.
func (r *recorder) ids(what string, g base.FixedDataGrid) []int {
	if c, _ := g.Size(); c != len(r.attrs) || len(g.AllAttributes()) != len(r.attrs) {
		r.t.Fatalf("%s has %d attributes, the data %d", what, c, len(r.attrs))
	}
	hx.CheckClasses(r.t, what, g, r.m)
	cells := hx.CellsByGet(r.t, g, r.attrs)
	var out []int
	for _, row := range cells {
		out = append(out, int(base.UnpackBytesToFloat(row[r.id])))
	}
	for _, id := range out {
		if id < 0 || id >= len(r.m.Rows) {
			r.t.Fatalf("%s holds row %d of %d", what, id, len(r.m.Rows))
		}
	}
	hx.CheckCells(r.t, what, g, r.attrs, r.m.Sub(out))
	for i, id := range out {
		if got, want := base.GetClass(g, i), r.m.Cols[r.m.Class].Str(r.m.Rows[id][r.m.Class]); got != want {
			r.t.Fatalf("%s: class of row %d is %q, want %q", what, i, got, want)
		}
	}
	return out
}

func (r *recorder) Fit(g base.FixedDataGrid) error {
	if len(r.train) != len(r.test) {
		r.t.Fatalf("trained again without being tested")
	}
	if len(r.train) == r.failFit {
		return errFit
	}
	r.train = append(r.train, r.ids("training data", g))
	return nil
}

func (r *recorder) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	if len(r.test) == r.failPredict {
		return nil, errPredict
	}
	ids := r.ids("test data", g)
	fold := len(r.test)
	r.test = append(r.test, ids)
	if fold == r.short && len(ids) > 0 {
		sub := r.m.Sub(ids[1:])
		return sub.BuildWith(r.attrs), nil
	}
	p := base.GeneratePredictionVector(g)
	for i, id := range ids {
		base.SetClass(p, i, r.m.Cols[r.m.Class].Labels[r.label(fold, id)])
	}
	return p, nil
}

func (r *recorder) String() string                                            { return "recorder" }
func (r *recorder) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (r *recorder) Save(string) error                                         { return nil }
func (r *recorder) Load(string) error                                         { return nil }
func (r *recorder) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (r *recorder) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }
func (r *recorder) GetClassifierMetadata() (x base.ClassifierMetadataV1)      { return }

func init() {
	hx.Register("C17", "folds", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 24, MinCols: 0, MaxCols: 3, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MaxClass: 4, Big: 200})
		m.Cols = append(m.Cols, hx.Col{Name: "id", Kind: hx.Float})
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], float64(i))
		}
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		folds := rapid.IntRange(2, min(24, len(m.Rows))).Draw(t, "folds")
		hx.SeedRand(t)
		salt := rapid.IntRange(0, 1000).Draw(t, "salt")
		k := len(m.Cols[m.Class].Labels)
		r := &recorder{t: t, m: m, attrs: attrs, id: len(m.Cols) - 1, failFit: -1, failPredict: -1, short: -1,
			label: func(fold, id int) int {
				if (id*7+fold*3+salt)%3 > 0 {
					return int(m.Rows[id][m.Class])
				}
				return (id + fold + salt) % k
			}}
		fail := rapid.IntRange(0, 9).Draw(t, "fail")
		at := rapid.IntRange(0, folds-1).Draw(t, "at")
		switch fail {
		case 0:
			r.failFit = at
		case 1:
			r.failPredict = at
		case 2:
			r.short = at
		}
		before := hx.Digest(t, g)
		c.Describe(len(m.Rows) > 3, "%d folds of %s: %s; failure %d at %d, salt %d", folds, how, m, fail, at, salt)
		c.Class(fail < 3, "classifier fails")
		cms, err := evaluation.GenerateCrossFoldValidationConfusionMatrices(g, r, folds)
		if hx.Digest(t, g) != before {
			t.Fatalf("cross-validation changed the data")
		}
		switch {
		case r.failFit >= 0:
			if err != errFit {
				t.Fatalf("training failed in fold %d, but the error is %v", at, err)
			}
			return
		case r.failPredict >= 0:
			if err != errPredict {
				t.Fatalf("prediction failed in fold %d, but the error is %v", at, err)
			}
			return
		case r.short >= 0 && len(r.test) > at && len(r.test[at]) > 0:
			if err == nil {
				t.Fatalf("a prediction lacking a row was evaluated")
			}
			return
		}
		if err != nil {
			t.Fatalf("%v", err)
		}
		if len(r.train) != folds || len(r.test) != folds || len(cms) != folds {
			t.Fatalf("%d folds: trained %d times, tested %d times, %d matrices", folds, len(r.train), len(r.test), len(cms))
		}
		tested := make([]int, len(m.Rows))
		for f := range r.train {
			in := make([]int, len(m.Rows))
			for _, id := range r.train[f] {
				in[id]++
			}
			for _, id := range r.test[f] {
				in[id]++
				tested[id]++
			}
			for id, n := range in {
				if n != 1 {
					t.Fatalf("fold %d uses row %d %d times: train %v test %v", f, id, n, r.train[f], r.test[f])
				}
			}
			want := map[string]map[string]int{}
			for _, id := range r.test[f] {
				a := m.Cols[m.Class].Labels[int(m.Rows[id][m.Class])]
				b := m.Cols[m.Class].Labels[r.label(f, id)]
				if want[a] == nil {
					want[a] = map[string]int{}
				}
				want[a][b]++
			}
			if fmt.Sprint(map[string]map[string]int(cms[f])) != fmt.Sprint(want) {
				t.Fatalf("fold %d has matrix %v, want %v", f, cms[f], want)
			}
		}
		for id, n := range tested {
			if n != 1 {
				t.Fatalf("row %d is tested %d times", id, n)
			}
		}
		// the summary over folds, of a metric that is defined for every fold
		metric := func(c evaluation.ConfusionMatrix) float64 {
			s := 0.0
			for a := range c {
				for b := range c[a] {
					if a == b {
						s += float64(c[a][b])
					}
				}
			}
			return s
		}
		mean, sq := 0.0, 0.0
		for _, cm := range cms {
			mean += metric(cm) / float64(folds)
		}
		for _, cm := range cms {
			sq += (metric(cm) - mean) * (metric(cm) - mean) / float64(folds)
		}
		gm, gv := evaluation.GetCrossValidatedMetric(cms, metric)
		if !close9(gm, mean) || !(close9(gv, sq) || close9(gv, sq*float64(folds)/float64(folds-1))) {
			t.Fatalf("mean %v variance %v, want %v and %v", gm, gv, mean, sq)
		}
	})

	hx.Register("C17", "metric", 2000, 30000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 12).Draw(t, "n")
		vals := make([]float64, n)
		in := make([]evaluation.ConfusionMatrix, n)
		off := rapid.SampledFrom([]float64{0, 0, 1e3, -1e8, 1e9}).Draw(t, "offset")
		for i := range vals {
			vals[i] = off + hx.SmallFloat(t, "v")
			in[i] = evaluation.ConfusionMatrix{"x": {"x": i}}
		}
		c.Describe(n > 1, "%v", vals)
		mean := 0.0 // about the offset
		for _, v := range vals {
			mean += (v - off) / float64(n)
		}
		sq := 0.0
		for _, v := range vals {
			sq += (v - off - mean) * (v - off - mean) / float64(n)
		}
		gm, gv := evaluation.GetCrossValidatedMetric(in, func(c evaluation.ConfusionMatrix) float64 { return vals[c["x"]["x"]] })
		if !close9(gm, off+mean) || !(math.Abs(gv-sq) <= 1e-6*(1+sq)) {
			t.Fatalf("mean %v variance %v of %v, want %v and %v", gm, gv, vals, mean, sq)
		}
	})
}
