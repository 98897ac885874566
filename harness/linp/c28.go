package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"pgregory.net/rapid"
	"verif/hx"
)

// linear is what both classifiers offer.
type linear interface {
	Fit(base.FixedDataGrid) error
	Predict(base.FixedDataGrid) (base.FixedDataGrid, error)
}

// newLinear draws a classifier whose penalty weight is large enough for its
// optimum to separate data with a margin of 0.5, and small enough for
// liblinear's bounded iterations to get there.
func newLinear(t *rapid.T) (linear, string) {
	k := rapid.IntRange(0, 6).Draw(t, "model")
	C := 20.0
	if k < 2 {
		C = rapid.SampledFrom([]float64{300, 1000}).Draw(t, "C")
	}
	var l linear
	var err error
	name := ""
	switch k {
	case 0, 1:
		p := []string{"l2", "l1"}[k]
		name = "logistic " + p
		l, err = linear_models.NewLogisticRegression(p, C, 1e-4)
	case 2, 3, 4, 5:
		s := [][3]string{{"l1", "l2", "dual"}, {"l2", "l2", "dual"}, {"l2", "l2", ""}, {"l2", "l1", ""}}[k-2]
		name = fmt.Sprint("svc ", s)
		l, err = linear_models.NewLinearSVC(s[0], s[1], s[2] != "", C, 1e-4)
	default:
		name = "svc weighted"
		C = 50
		w := []float64{float64(rapid.IntRange(1, 4).Draw(t, "w")), float64(rapid.IntRange(1, 4).Draw(t, "w"))}
		p := &linear_models.LinearSVCParams{ClassWeights: w, C: C, Eps: 1e-4, Dual: true}
		if rapid.Bool().Draw(t, "auto") {
			p.ClassWeights = nil
			p.WeightClassesAutomatically = true
			name = "svc auto-weighted"
		}
		if err := p.SetKindFromStrings("l1", "l2"); err != nil {
			t.Fatalf("%v", err)
		}
		l, err = linear_models.NewLinearSVCFromParams(p)
	}
	if err != nil {
		t.Fatalf("%s: %v", name, err)
	}
	return l, name
}

// separable draws two-class data separated with a margin by a plane through
// the origin; labels are the class values.
func separable(t *rapid.T, labels []float64) *hx.Table {
	d := rapid.IntRange(1, 5).Draw(t, "features")
	if hx.Rare(t, "wide", 100) {
		d = rapid.IntRange(6, 80).Draw(t, "d")
	}
	w := make([]float64, d)
	n2 := 0.0
	for i := range w {
		w[i] = float64(rapid.IntRange(-4, 4).Draw(t, "w"))
		n2 += w[i] * w[i]
	}
	if n2 == 0 {
		w[0] = float64(2*rapid.IntRange(0, 1).Draw(t, "w0") - 1)
		n2 = 1
	}
	m := &hx.Table{Class: -1}
	for i := 0; i < d; i++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
	}
	side := func(s float64) []float64 {
		r := make([]float64, d)
		dot := 0.0
		for i := range r {
			r[i] = float64(rapid.IntRange(-24, 24).Draw(t, "x")) / 8
			dot += w[i] * r[i]
		}
		// move to the wanted distance from the plane
		want := s * math.Sqrt(n2) * float64(rapid.IntRange(4, 24).Draw(t, "distance")) / 8
		for i := range r {
			r[i] += w[i] * (want - dot) / n2
		}
		return r
	}
	n := rapid.IntRange(0, 16).Draw(t, "rows")
	if hx.Rare(t, "long", 100) {
		n = rapid.IntRange(50, 300).Draw(t, "n")
	}
	var cls []float64
	// at least three rows of each class: liblinear's dual solver stops when all
	// projected gradients are within eps of each other, which two or three rows
	// can satisfy by accident far from the optimum
	for i := 0; i < n+6; i++ {
		c := i % 2
		if i > 5 {
			c = rapid.IntRange(0, 1).Draw(t, "class")
		}
		m.Rows = append(m.Rows, side(float64(1-2*c)))
		cls = append(cls, labels[c])
	}
	// the class anywhere among the columns, perhaps a column of another kind
	at := rapid.IntRange(0, d).Draw(t, "classpos")
	m.Cols = append(m.Cols[:at:at], append([]hx.Col{{Name: "class", Kind: hx.Float, Prec: 1}}, m.Cols[at:]...)...)
	for i, r := range m.Rows {
		m.Rows[i] = append(r[:at:at], append([]float64{cls[i]}, r[at:]...)...)
	}
	m.Class = at
	if rapid.IntRange(0, 3).Draw(t, "extra") == 0 {
		at := rapid.IntRange(0, len(m.Cols)).Draw(t, "extrapos")
		m.Cols = append(m.Cols[:at:at], append([]hx.Col{{Name: "tag", Kind: hx.Cat, Labels: []string{"u", "v"}}}, m.Cols[at:]...)...)
		for i, r := range m.Rows {
			m.Rows[i] = append(r[:at:at], append([]float64{float64(rapid.IntRange(0, 1).Draw(t, "tag"))}, r[at:]...)...)
		}
		if at <= m.Class {
			m.Class++
		}
	}
	return m.Sub(hx.Perm(t, len(m.Rows), "order"))
}

func init() {
	hx.Register("C28", "separable", 8000, 600000, func(t *rapid.T, c *hx.Case) {
		labels := rapid.SampledFrom([][]float64{{0, 1}, {1, 0}, {-1, 1}, {1, -1}, {1, 2}, {7, 3}}).Draw(t, "labels")
		m := separable(t, labels)
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		l, name := newLinear(t)
		if name == "svc auto-weighted" && labels[0]+labels[1] != 1 {
			// weights are counted for classes 0 and 1
			for _, row := range m.Rows {
				row[m.Class] = map[float64]float64{labels[0]: 0, labels[1]: 1}[row[m.Class]]
			}
			g = m.BuildWith(attrs)
			how = "dense"
		}
		f := feats(m)
		c.Describe(len(m.Rows) > 3 && len(f) > 1, "%s %s %s", name, how, m)
		neg := false
		for _, r := range m.Rows {
			for _, j := range f {
				neg = neg || r[j] < 0
			}
		}
		c.Class(neg, "negative features")
		c.Class(name[:3] == "svc", "svc")
		c.Class(name[:3] == "log", "logistic")
		before := hx.Digest(t, g)
		crand := rapid.IntRange(1, 1000).Draw(t, "crand")
		if name != "svc auto-weighted" && rapid.IntRange(0, 4).Draw(t, "used") == 0 {
			// a classifier which has learned something else, perhaps of
			// another width
			c.Class(true, "fitted before")
			o := separable(t, labels)
			hx.SeedC(crand)
			if err := l.Fit(o.BuildWith(attrsOf(o))); err != nil {
				t.Fatalf("%v", err)
			}
		}
		// liblinear visits rows in random order and stops after 1000 rounds; in
		// about one case of a million that leaves it far from the optimum, so
		// a fit counts as wrong when it is under three different orders
		for try := 0; try < 3; try++ {
			hx.SeedC(crand + try)
			if err := l.Fit(g); err != nil {
				t.Fatalf("%v", err)
			}
			p, err := l.Predict(g)
			if err != nil {
				t.Fatalf("%v", err)
			}
			good := true
			for r, got := range numbers(t, p, "class", len(m.Rows)) {
				good = good && got == m.Rows[r][m.Class]
			}
			if good {
				break
			}
		}
		predict := func(what string, g base.FixedDataGrid, tab *hx.Table) {
			p, err := l.Predict(g)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for r, got := range numbers(t, p, "class", len(tab.Rows)) {
				if want := tab.Rows[r][m.Class]; got != want {
					t.Fatalf("%s: %s: row %d (%v) is predicted %v, want %v", name, what, r, tab.Rows[r], got, want)
				}
			}
		}
		predict("training grid", g, m)
		// positive combinations of rows of a class lie on its side of any
		// plane through the origin that separates the training rows
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for n := rapid.IntRange(1, 6).Draw(t, "queries"); n > 0; n-- {
			a := m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "first")]
			row := append([]float64(nil), a...)
			for _, b := range m.Rows {
				if b[m.Class] == a[m.Class] {
					k := float64(rapid.IntRange(0, 4).Draw(t, "part")) / 2
					for _, j := range f {
						row[j] += k * b[j]
					}
				}
			}
			if rapid.Bool().Draw(t, "shrink") {
				for _, j := range f {
					row[j] /= 16
				}
			}
			q.Rows = append(q.Rows, row)
		}
		qa := attrs
		if rapid.Bool().Draw(t, "ownattrs") {
			qa = attrsOf(m)
		}
		// the class column of a query grid says nothing
		hidden := &hx.Table{Cols: m.Cols, Class: m.Class}
		for _, r := range q.Rows {
			h := append([]float64(nil), r...)
			h[m.Class] = labels[rapid.IntRange(0, 1).Draw(t, "hide")]
			hidden.Rows = append(hidden.Rows, h)
		}
		qg, _ := hx.Wrap(t, hidden, qa)
		predict("query grid", qg, q)
		// each row alone
		r := rapid.IntRange(0, len(m.Rows)-1).Draw(t, "alone")
		predict("one row", m.Sub([]int{r}).BuildWith(attrs), m.Sub([]int{r}))
		if hx.Digest(t, g) != before {
			t.Fatalf("the training data changed")
		}
	})
}

func init() {
	hx.Register("C28", "settings", 800, 20000, func(t *rapid.T, c *hx.Case) {
		names := []string{"l1", "l2", "L2", "", "l3", "hinge"}
		loss := rapid.SampledFrom(append([]string{"l1", "l2", "l1", "l2"}, names...)).Draw(t, "loss")
		penalty := rapid.SampledFrom(append([]string{"l1", "l2", "l1", "l2"}, names...)).Draw(t, "penalty")
		dual := rapid.Bool().Draw(t, "dual")
		C := rapid.SampledFrom([]float64{0.5, 1, 20}).Draw(t, "C")
		eps := rapid.SampledFrom([]float64{1e-4, 1e-3}).Draw(t, "eps")
		was := rapid.SampledFrom([]int{0, linear_models.L2R_L2LOSS_SVC, linear_models.L1R_L2LOSS_SVC, linear_models.L2R_L1LOSS_SVC_DUAL}).Draw(t, "was")
		c.Describe(true, "loss %q penalty %q dual %v C %v eps %v, was %d", loss, penalty, dual, C, eps, was)
		// the forms liblinear has
		type form struct {
			loss, penalty string
			dual          bool
		}
		solver, valid := map[form]int{
			{"l1", "l2", true}:  linear_models.L2R_L1LOSS_SVC_DUAL,
			{"l2", "l2", true}:  linear_models.L2R_L2LOSS_SVC_DUAL,
			{"l2", "l2", false}: linear_models.L2R_L2LOSS_SVC,
			{"l2", "l1", false}: linear_models.L1R_L2LOSS_SVC,
		}[form{loss, penalty, dual}]
		c.Class(valid, "valid")
		p := &linear_models.LinearSVCParams{SolverType: was, C: C, Eps: eps, Dual: dual}
		if rapid.Bool().Draw(t, "weights") {
			p.ClassWeights = []float64{float64(rapid.IntRange(1, 9).Draw(t, "w0")), float64(rapid.IntRange(1, 9).Draw(t, "w1"))}
		}
		p.WeightClassesAutomatically = rapid.Bool().Draw(t, "auto")
		full := *p
		err := p.SetKindFromStrings(loss, penalty)
		if (err == nil) != valid {
			t.Fatalf("loss %q, penalty %q, dual %v: error %v", loss, penalty, dual, err)
		}
		if valid {
			full.SolverType, full.Dual = solver, dual
			if fmt.Sprintf("%#v", *p) != fmt.Sprintf("%#v", full) {
				t.Fatalf("loss %q, penalty %q, dual %v: the parameters are %#v, want %#v", loss, penalty, dual, *p, full)
			}
		} else if loss == "l1" && penalty == "l2" || loss == "l2" && penalty == "l1" {
			// told about the other form, which the parameters now have
			c.Class(true, "other form")
			want := linear_models.L2R_L1LOSS_SVC_DUAL
			if loss == "l2" {
				want = linear_models.L1R_L2LOSS_SVC
			}
			if p.SolverType != want || p.Dual == dual {
				t.Fatalf("loss %q, penalty %q, dual %v: solver %d, dual %v", loss, penalty, dual, p.SolverType, p.Dual)
			}
		}
		q := p.Copy()
		if fmt.Sprintf("%#v", *q) != fmt.Sprintf("%#v", *p) {
			t.Fatalf("the copy of %#v is %#v", *p, *q)
		}
		if q.ClassWeights != nil {
			q.ClassWeights[0] = -1
			if p.ClassWeights[0] == -1 {
				t.Fatalf("a copy shares its weights with the original")
			}
		}
		l, err := linear_models.NewLinearSVC(loss, penalty, dual, C, eps)
		if (err == nil) != valid || (l == nil) == valid {
			t.Fatalf("a classifier of loss %q, penalty %q, dual %v: error %v", loss, penalty, dual, err)
		}
		if valid && (l.Param.SolverType != solver || l.Param.C != C || l.Param.Eps != eps || l.Param.Dual != dual || l.Param.ClassWeights != nil || l.Param.WeightClassesAutomatically) {
			t.Fatalf("a classifier of loss %q, penalty %q, dual %v, C %v, eps %v has %#v", loss, penalty, dual, C, eps, *l.Param)
		}
		r, err := linear_models.NewLogisticRegression(penalty, C, eps)
		if good := penalty == "l1" || penalty == "l2"; (err == nil) != good || (r == nil) == good {
			t.Fatalf("logistic regression of penalty %q: error %v", penalty, err)
		}

		// data without exactly one numeric class is refused
		m := separable(t, []float64{0, 1})
		attrs := attrsOf(m)
		wrong := rapid.SampledFrom([]string{"no class", "two classes", "categorical"}).Draw(t, "class")
		if wrong == "categorical" {
			attrs[m.Class] = hx.Col{Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}}.NewAttr()
		}
		g := base.NewDenseInstances()
		specs := make([]base.AttributeSpec, len(attrs))
		for i, a := range attrs {
			specs[i] = g.AddAttribute(a)
		}
		g.Extend(len(m.Rows))
		for i, row := range m.Rows {
			for j, v := range row {
				if j == m.Class && wrong == "categorical" {
					g.Set(specs[j], i, base.PackU64ToBytes(uint64(v)))
				} else {
					g.Set(specs[j], i, m.Cols[j].Pack(v))
				}
			}
		}
		if wrong != "no class" {
			g.AddClassAttribute(attrs[m.Class])
		}
		if wrong == "two classes" {
			g.AddClassAttribute(attrs[feats(m)[0]])
		}
		lm, name := newLinear(t)
		if name == "svc auto-weighted" {
			return
		}
		ok := false
		func() {
			defer func() { recover() }()
			ok = lm.Fit(g) == nil
		}()
		if ok {
			t.Fatalf("%s was fitted to data with %s: %s", name, wrong, m)
		}
	})
}
