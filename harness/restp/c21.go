package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/naive"
	"pgregory.net/rapid"
	"verif/hx"
)

// nbModel is the reference: counts per class label.
type nbModel struct {
	n     int
	rows  map[string]int
	with  map[string][]int
	nfeat int
}

func nbFeats(m *hx.Table) []int {
	var x []int
	for i := range m.Cols {
		if i != m.Class {
			x = append(x, i)
		}
	}
	return x
}

func nbFit(m *hx.Table) *nbModel {
	f := nbFeats(m)
	o := &nbModel{n: len(m.Rows), rows: map[string]int{}, with: map[string][]int{}, nfeat: len(f)}
	for _, r := range m.Rows {
		l := m.Cols[m.Class].Str(r[m.Class])
		o.rows[l]++
		if o.with[l] == nil {
			o.with[l] = make([]int, len(f))
		}
		for i, c := range f {
			if r[c] != 0 {
				o.with[l][i]++
			}
		}
	}
	return o
}

// score is the log of prior times likelihoods.
func (o *nbModel) score(label string, x []bool) float64 {
	n := float64(o.rows[label])
	s := math.Log(n / float64(o.n))
	for i, on := range x {
		with := float64(o.with[label][i])
		switch {
		case on:
			s += math.Log((with + 1) / (n + 1))
		case with == n:
			s += math.Log(1 / (n + 1))
		default:
			s += math.Log(1 - (with+1)/(n+1))
		}
	}
	return s
}

// best lists the labels which are (within rounding) most probable.
func (o *nbModel) best(x []bool) map[string]bool {
	top := math.Inf(-1)
	for l := range o.rows {
		top = math.Max(top, o.score(l, x))
	}
	out := map[string]bool{}
	for l := range o.rows {
		if o.score(l, x) >= top-1e-9*(1+math.Abs(top)) {
			out[l] = true
		}
	}
	return out
}

func list(m map[string]bool) string {
	var x []string
	for k := range m {
		x = append(x, fmt.Sprintf("%q", k))
	}
	sort.Strings(x)
	return strings.Join(x, " or ")
}

func nbTable(t *rapid.T, classKind hx.Kind) *hx.Table {
	m := &hx.Table{}
	nf := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 8, 9, 17}).Draw(t, "features")
	for i := 0; i < nf; i++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Bin})
	}
	c := hx.Col{Name: "class", Kind: classKind}
	nc := 2
	if classKind == hx.Cat {
		nc = rapid.IntRange(1, 5).Draw(t, "classes")
		if hx.Rare(t, "manyclasses", 100) {
			nc = rapid.IntRange(6, 30).Draw(t, "moreclasses")
		}
		c.Labels = hx.Labels(t, nc, "labels")
	}
	m.Class = rapid.IntRange(0, nf).Draw(t, "classpos")
	m.Cols = append(m.Cols[:m.Class:m.Class], append([]hx.Col{c}, m.Cols[m.Class:]...)...)
	n := rapid.SampledFrom([]int{1, 2, 3, 5, 8, 13, 30, 60}).Draw(t, "rows")
	if hx.Rare(t, "long", 300) {
		n = rapid.IntRange(100, 500).Draw(t, "longrows")
	}
	// each class has its own rate for each feature
	rate := make([][]int, nc)
	for k := range rate {
		for i := 0; i < nf; i++ {
			rate[k] = append(rate[k], rapid.SampledFrom([]int{0, 0, 2, 5, 8, 10, 10}).Draw(t, "rate"))
		}
	}
	skew := rapid.IntRange(0, 8).Draw(t, "skew")
	for r := 0; r < n; r++ {
		k := rapid.IntRange(0, nc-1).Draw(t, "class")
		if rapid.IntRange(0, 9).Draw(t, "common") < skew {
			k = 0
		}
		row := make([]float64, len(m.Cols))
		f := 0
		for i := range m.Cols {
			if i == m.Class {
				row[i] = float64(k)
				continue
			}
			if rapid.IntRange(0, 9).Draw(t, "on") < rate[k][f] {
				row[i] = 1
			}
			f++
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

func init() {
	hx.Register("C21", "prediction", 2500, 40000, func(t *rapid.T, c *hx.Case) {
		kind := hx.Cat
		if rapid.IntRange(0, 4).Draw(t, "binclass") == 0 {
			kind = hx.Bin
		}
		m := nbTable(t, kind)
		attrs := m.Attrs()
		nb := naive.NewBernoulliNBClassifier()
		if rapid.IntRange(0, 4).Draw(t, "refit") == 0 {
			o := nbTable(t, kind)
			if err := nb.Fit(o.BuildWith(o.Attrs())); err != nil {
				t.Fatalf("first Fit: %v", err)
			}
		}
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		if err := nb.Fit(g); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		ref := nbFit(m)
		// queries: the training rows and others, in a grid with its own
		// class labels
		q := &hx.Table{Cols: append([]hx.Col{}, m.Cols...), Class: m.Class}
		qattrs := append([]base.Attribute{}, attrs...)
		own := kind == hx.Cat && rapid.Bool().Draw(t, "ownlabels")
		if own {
			q.Cols[m.Class].Labels = []string{"other"}
			qattrs[m.Class] = q.Cols[m.Class].NewAttr()
		}
		for i := rapid.IntRange(1, 8).Draw(t, "queries"); i > 0; i-- {
			var row []float64
			if rapid.Bool().Draw(t, "seen") {
				row = append(row, m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")]...)
			} else {
				row = hx.GenRow(t, m, hx.SmallFloat)
			}
			if own {
				row[m.Class] = 0
			}
			q.Rows = append(q.Rows, row)
		}
		qg, qhow := hx.Wrap(t, q, qattrs)
		shuffled := false
		if rapid.Bool().Draw(t, "columns") { // the columns in another order
			p := hx.Perm(t, len(q.Cols), "cols")
			s := &hx.Table{}
			var sa []base.Attribute
			for i, j := range p {
				s.Cols = append(s.Cols, q.Cols[j])
				sa = append(sa, qattrs[j])
				shuffled = shuffled || i != j
				if j == q.Class {
					s.Class = i
				}
			}
			for _, r := range q.Rows {
				var row []float64
				for _, j := range p {
					row = append(row, r[j])
				}
				s.Rows = append(s.Rows, row)
			}
			qg = s.BuildWith(sa)
		}
		qbefore := hx.Digest(t, qg)
		c.Describe(len(ref.rows) > 1 && len(m.Rows) > 3, "%s %s asked %s %s", how, m, qhow, q)
		c.Class(own, "query grid with its own labels")
		c.Class(shuffled, "query columns in another order")
		c.Class(len(m.Cols) > 9, "more than eight features")
		silent, always := false, false
		for _, w := range ref.with {
			for _, n := range w {
				silent = silent || n == 0
			}
		}
		for l, w := range ref.with {
			for _, n := range w {
				always = always || n == ref.rows[l]
			}
		}
		c.Class(len(m.Rows) > 99, "hundreds of rows")
		c.Class(silent, "a feature never seen in a class")
		c.Class(always, "a feature always seen in a class")
		pred, err := nb.Predict(qg)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		if _, n := pred.Size(); n != len(q.Rows) {
			t.Fatalf("%d predictions for %d rows", n, len(q.Rows))
		}
		for i, r := range q.Rows {
			var x []bool
			var doc [][]byte
			for _, f := range nbFeats(q) {
				x = append(x, r[f] != 0)
				doc = append(doc, []byte{byte(r[f])})
			}
			b := ref.best(x)
			c.Class(len(b) > 1, "tie")
			if got := base.GetClass(pred, i); !b[got] {
				t.Fatalf("row %v is predicted as %q, most probable is %s", x, got, list(b))
			}
			if got := nb.PredictOne(doc); !b[got] {
				t.Fatalf("document %v is predicted as %q, most probable is %s", x, got, list(b))
			}
		}
		if !own && hx.Digest(t, qg) != qbefore {
			t.Fatalf("predicting changed the query grid")
		}
		if hx.Digest(t, g) != before {
			t.Fatalf("fitting changed the training grid")
		}
		// the wrong width
		w := rapid.IntRange(0, len(m.Cols)+2).Draw(t, "width")
		if w != len(m.Cols)-1 {
			if no, _ := refused(func() error { nb.PredictOne(make2(w)); return nil }); !no {
				t.Fatalf("a document of %d features is accepted, the model has %d", w, len(m.Cols)-1)
			}
		}
	})

	hx.Register("C21", "refusals", 300, 3000, func(t *rapid.T, c *hx.Case) {
		m := nbTable(t, hx.Cat)
		what := rapid.SampledFrom([]string{"unfitted", "float feature", "categorical feature", "no class", "two classes"}).Draw(t, "what")
		c.Describe(true, "%s %s", what, m)
		nb := naive.NewBernoulliNBClassifier()
		switch what {
		case "unfitted":
			d, _ := m.Build()
			if no, _ := refused(func() error { _, err := nb.Predict(d); return err }); !no {
				t.Fatalf("an unfitted model predicts")
			}
			if no, _ := refused(func() error { nb.PredictOne(make2(len(m.Cols) - 1)); return nil }); !no {
				t.Fatalf("an unfitted model predicts one document")
			}
			return
		case "no class":
			m.Class = -1
			d, _ := m.Build()
			if no, _ := refused(func() error { return nb.Fit(d) }); !no {
				t.Fatalf("fitted without a class")
			}
			return
		case "two classes":
			d, attrs := m.Build()
			d.AddClassAttribute(attrs[(m.Class+1)%len(attrs)])
			if no, _ := refused(func() error { return nb.Fit(d) }); !no {
				t.Fatalf("fitted with two classes")
			}
			return
		}
		col := hx.Col{Name: "extra", Kind: hx.Float, Prec: 2}
		if what == "categorical feature" {
			col = hx.Col{Name: "extra", Kind: hx.Cat, Labels: []string{"0", "1"}}
		}
		m.Cols = append(m.Cols, col)
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], float64(i%2))
		}
		d, _ := m.Build()
		if no, _ := refused(func() error { return nb.Fit(d) }); !no {
			t.Fatalf("fitted on a %s", what)
		}
	})
}

func make2(n int) [][]byte {
	x := make([][]byte, n)
	for i := range x {
		x[i] = []byte{byte(i % 2)}
	}
	return x
}

func init() {
	// So many features that every row is very improbable in every class.
	hx.Register("C21", "wide", 25, 400, func(t *rapid.T, c *hx.Case) {
		nf := rapid.IntRange(200, 4000).Draw(t, "features")
		nc := rapid.IntRange(2, 4).Draw(t, "classes")
		per := rapid.IntRange(1, 6).Draw(t, "rows of a class")
		noise := rapid.SampledFrom([]float64{0, 0, 0.02, 0.3}).Draw(t, "noise")
		r := rand.New(rand.NewSource(hx.SeedRand(t)))
		m := &hx.Table{}
		for i := 0; i < nf; i++ {
			m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Bin})
		}
		m.Cols = append(m.Cols, hx.Col{Name: "class", Kind: hx.Cat, Labels: hx.Labels(t, nc, "labels")})
		m.Class = nf
		proto := make([][]bool, nc)
		for k := range proto {
			p := r.Float64()
			for i := 0; i < nf; i++ {
				proto[k] = append(proto[k], r.Float64() < p)
			}
		}
		row := func(k int, noise float64) []float64 {
			x := make([]float64, nf+1)
			for i := 0; i < nf; i++ {
				if proto[k][i] != (r.Float64() < noise) {
					x[i] = 1
				}
			}
			x[nf] = float64(k)
			return x
		}
		for k := 0; k < nc; k++ {
			for i := 0; i < per; i++ {
				m.Rows = append(m.Rows, row(k, noise))
			}
		}
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for i := 0; i < 3; i++ {
			q.Rows = append(q.Rows, row(r.Intn(nc), []float64{0.1, 0.5, 0.9}[i]))
		}
		attrs := m.Attrs()
		nb := naive.NewBernoulliNBClassifier()
		if err := nb.Fit(m.BuildWith(attrs)); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		ref := nbFit(m)
		pred, err := nb.Predict(q.BuildWith(attrs))
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		for i, r := range q.Rows {
			x := make([]bool, nf)
			for f := range x {
				x[f] = r[f] != 0
			}
			top := math.Inf(-1)
			for l := range ref.rows {
				top = math.Max(top, ref.score(l, x))
			}
			c.Class(top < -1000, "log probability below -1000 in every class")
			b := ref.best(x)
			if got := base.GetClass(pred, i); !b[got] {
				t.Fatalf("row %d is predicted as %q, most probable is %s (log probability %g)", i, got, list(b), top)
			}
		}
		c.Describe(true, "%d features, %d classes of %d rows, noise %g", nf, nc, per, noise)
	})
}
