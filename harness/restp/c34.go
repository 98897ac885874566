package main

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/perceptron"
	"pgregory.net/rapid"
	"verif/hx"
)

// ptTable draws two-class data; when sided, every row points to its own
// side: rows of one class have positive inner products with each other and
// negative ones with the rows of the other.
func ptTable(t *rapid.T, sided bool) *hx.Table {
	d := rapid.IntRange(1, 5).Draw(t, "features")
	if hx.Rare(t, "wide", 100) {
		d = rapid.IntRange(6, 15).Draw(t, "d")
	}
	m := &hx.Table{}
	for i := 0; i < d; i++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
	}
	cl := hx.Col{Name: "class", Kind: hx.Cat}
	if rapid.IntRange(0, 3).Draw(t, "bin") == 0 {
		cl.Kind = hx.Bin
	} else {
		cl.Labels = hx.Labels(t, 2, "labels")
	}
	m.Class = rapid.IntRange(0, d).Draw(t, "classpos")
	m.Cols = append(m.Cols[:m.Class:m.Class], append([]hx.Col{cl}, m.Cols[m.Class:]...)...)
	main := rapid.IntRange(0, d-1).Draw(t, "main")
	dir := make([]float64, d)
	for i := range dir {
		dir[i] = float64(rapid.SampledFrom([]int{-1, 0, 1}).Draw(t, "dir"))
	}
	dir[main] = float64(2*rapid.IntRange(0, 1).Draw(t, "side") - 1)
	n := rapid.IntRange(1, 14).Draw(t, "rows")
	if hx.Rare(t, "long", 100) {
		n = rapid.IntRange(50, 400).Draw(t, "n")
	}
	for r := 0; r < n; r++ {
		k := rapid.IntRange(0, 1).Draw(t, "class")
		m.Rows = append(m.Rows, ptRow(t, m, dir, k, sided))
	}
	return m
}

func ptRow(t *rapid.T, m *hx.Table, dir []float64, k int, sided bool) []float64 {
	row := make([]float64, len(m.Cols))
	f := 0
	size := float64(rapid.IntRange(1, 5).Draw(t, "size"))
	for i := range m.Cols {
		if i == m.Class {
			row[i] = float64(k)
			continue
		}
		if sided {
			// within 0.2 of the direction in each column: for up to
			// sixteen columns inner products keep their sign
			row[i] = size * (dir[f]*float64(2*k-1) + float64(rapid.IntRange(-2, 2).Draw(t, "v"))/10)
		} else {
			row[i] = float64(rapid.IntRange(-40, 40).Draw(t, "v")) / 4
		}
		f++
	}
	return row
}

func dot(m *hx.Table, a, b []float64) float64 {
	s := 0.0
	for i := range m.Cols {
		if i != m.Class {
			s += a[i] * b[i]
		}
	}
	return s
}

func init() {
	hx.Register("C34", "predictions", 3000, 40000, func(t *rapid.T, c *hx.Case) {
		sided := rapid.Bool().Draw(t, "sided")
		m := ptTable(t, sided)
		d := len(m.Cols) - 1
		if sided {
			for _, a := range m.Rows {
				for _, b := range m.Rows {
					if v := dot(m, a, b); (v > 0) != (a[m.Class] == b[m.Class]) || v == 0 {
						sided = false
					}
				}
			}
		}
		rate := rapid.SampledFrom([]float64{0.1, 0.3, 1, 1.2}).Draw(t, "rate")
		th := rapid.SampledFrom([]float64{0, 0.001, 0.5}).Draw(t, "threshold")
		if !sided && rapid.Bool().Draw(t, "negative") {
			th = -th
		}
		if sided {
			// the threshold must be small against the first correction
			for _, a := range m.Rows {
				for _, b := range m.Rows {
					v := dot(m, a, b)
					if v < 0 {
						v = -v
					}
					if th > rate*v/2 {
						sided = false
					}
				}
			}
		}
		attrs := m.Attrs()
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		p := perceptron.NewAveragePerceptron(d, rate, th, 0.1)
		both := map[float64]bool{}
		for _, r := range m.Rows {
			both[r[m.Class]] = true
		}
		c.Describe(len(both) > 1 && len(m.Rows) > 2, "rate %v threshold %v %s %s", rate, th, how, m)
		c.Class(sided && len(both) > 1, "every row on its own side")
		if no, _ := refused(func() error {
			if p.Predict(g) == nil {
				return fmt.Errorf("nothing")
			}
			return nil
		}); !no {
			t.Fatalf("an untrained perceptron predicts")
		}
		p.Fit(g)
		labels := []string{m.Cols[m.Class].Str(0), m.Cols[m.Class].Str(1)}
		ask := func(what string, q base.FixedDataGrid, n int) []string {
			pr := p.Predict(q)
			if pr == nil {
				t.Fatalf("%s: no predictions", what)
			}
			if _, r := pr.Size(); r != n {
				t.Fatalf("%s: %d predictions for %d rows", what, r, n)
			}
			if a := pr.AllClassAttributes(); len(a) != 1 || !a[0].Equals(attrs[m.Class]) {
				t.Fatalf("%s: class attributes of the predictions %v", what, a)
			}
			var o []string
			for i := 0; i < n; i++ {
				l := base.GetClass(pr, i)
				if l != labels[0] && l != labels[1] {
					t.Fatalf("%s: predicted label %q, labels are %q", what, l, labels)
				}
				o = append(o, l)
			}
			return o
		}
		got := ask("training grid", g, len(m.Rows))
		if sided {
			for i, r := range m.Rows {
				if w := labels[int(r[m.Class])]; got[i] != w {
					t.Fatalf("training row %v of class %q is predicted as %q (threshold %v, rate %v)", r, w, got[i], th, rate)
				}
			}
		}
		// any other grid with the same columns
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		var from []int
		var alone []string
		for i := rapid.IntRange(1, 6).Draw(t, "queries"); i > 0; i-- {
			f := rapid.IntRange(-1, len(m.Rows)-1).Draw(t, "row")
			from = append(from, f)
			r := ptRow(t, m, make([]float64, d), 0, false)
			if f >= 0 {
				r = append([]float64{}, m.Rows[f]...)
				r[m.Class] = float64(rapid.IntRange(0, 1).Draw(t, "shown"))
			}
			q.Rows = append(q.Rows, r)
			one := &hx.Table{Cols: m.Cols, Class: m.Class, Rows: [][]float64{r}}
			og, _ := hx.Wrap(t, one, attrs)
			alone = append(alone, ask("one row", og, 1)[0])
		}
		qg, qhow := hx.Wrap(t, q, attrs)
		qbefore := hx.Digest(t, qg)
		res := ask(qhow, qg, len(q.Rows))
		if hx.Digest(t, qg) != qbefore {
			t.Fatalf("predicting changed the query grid")
		}
		// columns in another order
		perm := hx.Perm(t, len(q.Cols), "cols")
		s := &hx.Table{}
		var sa []base.Attribute
		for i, j := range perm {
			s.Cols = append(s.Cols, q.Cols[j])
			sa = append(sa, attrs[j])
			if j == q.Class {
				s.Class = i
			}
		}
		for _, r := range q.Rows {
			var row []float64
			for _, j := range perm {
				row = append(row, r[j])
			}
			s.Rows = append(s.Rows, row)
		}
		moved := ask("columns in another order", s.BuildWith(sa), len(q.Rows))
		for i := range res {
			if res[i] != alone[i] || res[i] != moved[i] {
				t.Fatalf("row %v: %q in a grid, %q alone, %q with columns in another order", q.Rows[i], res[i], alone[i], moved[i])
			}
			if from[i] >= 0 && res[i] != got[from[i]] {
				t.Fatalf("row %v: %q in the training grid, %q in another", q.Rows[i], got[from[i]], res[i])
			}
		}
		// a linear rule: the predicted regions are half spaces
		for i := range q.Rows {
			for j := range q.Rows {
				if res[i] != res[j] {
					continue
				}
				mid := &hx.Table{Cols: m.Cols, Class: m.Class, Rows: [][]float64{make([]float64, len(m.Cols))}}
				for k := range m.Cols {
					if k != m.Class {
						mid.Rows[0][k] = (q.Rows[i][k] + q.Rows[j][k]) / 2
					}
				}
				if i < j && i < 2 {
					if l := ask("a row between two", mid.BuildWith(attrs), 1)[0]; l != res[i] {
						// rounding may matter on the very boundary
						if a := ask("again", mid.BuildWith(attrs), 1)[0]; a == l && !nearTie(ask, m, attrs, mid.Rows[0]) {
							t.Fatalf("rows %v and %v are both %q, the middle is %q", q.Rows[i], q.Rows[j], res[i], l)
						}
					}
				}
			}
		}
		if hx.Digest(t, g) != before {
			t.Fatalf("fitting or predicting changed the training grid")
		}
	})

	hx.Register("C34", "refusals", 300, 3000, func(t *rapid.T, c *hx.Case) {
		m := ptTable(t, false)
		what := rapid.SampledFrom([]string{"three labels", "float class", "no class", "two classes", "too few numeric columns", "other columns"}).Draw(t, "what")
		c.Describe(true, "%s %s", what, m)
		d := len(m.Cols) - 1
		p := perceptron.NewAveragePerceptron(d, 1, 0.1, 0.1)
		switch what {
		case "three labels":
			m.Cols[m.Class] = hx.Col{Name: "class", Kind: hx.Cat, Labels: []string{"a", "b", "c"}}
		case "float class":
			m.Cols[m.Class] = hx.Col{Name: "class", Kind: hx.Float}
		case "no class":
			m.Class = -1
		case "too few numeric columns":
			p = perceptron.NewAveragePerceptron(d+1, 1, 0.1, 0.1)
		}
		g, attrs := m.Build()
		if what == "two classes" {
			g.AddClassAttribute(attrs[(m.Class+1)%len(attrs)])
		}
		if what == "other columns" {
			p.Fit(g)
			o := &hx.Table{Class: m.Class, Rows: m.Rows}
			for i, cl := range m.Cols {
				if i != m.Class {
					cl.Name += "x"
				}
				o.Cols = append(o.Cols, cl)
			}
			og, _ := o.Build()
			if no, _ := refused(func() error {
				if p.Predict(og) == nil {
					return fmt.Errorf("nothing")
				}
				return nil
			}); !no {
				t.Fatalf("predicted for other columns")
			}
			return
		}
		if no, _ := refused(func() error { p.Fit(g); return nil }); !no {
			t.Fatalf("trained on data with %s", what)
		}
	})
}

// nearTie tells whether tiny steps around the row change its label, that is,
// the row lies on the boundary within rounding.
func nearTie(ask func(string, base.FixedDataGrid, int) []string, m *hx.Table, attrs []base.Attribute, row []float64) bool {
	seen := map[string]bool{}
	for i := range m.Cols {
		if i == m.Class {
			continue
		}
		for _, e := range []float64{-1e-9, 1e-9} {
			r := append([]float64{}, row...)
			r[i] += e
			x := &hx.Table{Cols: m.Cols, Class: m.Class, Rows: [][]float64{r}}
			seen[ask("near the boundary", x.BuildWith(attrs), 1)[0]] = true
		}
	}
	return len(seen) > 1
}
