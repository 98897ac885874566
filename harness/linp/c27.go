package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/linear_models"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

const prec = 400 // bits of the reference solution

func bf(v float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(v) }

// leastSquares solves the normal equations with an intercept in high
// precision; ok is false when the columns are (nearly) dependent.
func leastSquares(x [][]float64, y []float64) (beta []*big.Float, ok bool) {
	d := len(x[0]) + 1
	at := func(r, j int) float64 {
		if j == 0 {
			return 1
		}
		return x[r][j-1]
	}
	a := make([][]*big.Float, d)
	for i := range a {
		a[i] = make([]*big.Float, d+1)
		for j := range a[i] {
			s := bf(0)
			for r := range x {
				w := y[r]
				if j < d {
					w = at(r, j)
				}
				s.Add(s, new(big.Float).SetPrec(prec).Mul(bf(at(r, i)), bf(w)))
			}
			a[i][j] = s
		}
	}
	for i := 0; i < d; i++ {
		p := i
		for r := i + 1; r < d; r++ {
			if new(big.Float).Abs(a[r][i]).Cmp(new(big.Float).Abs(a[p][i])) > 0 {
				p = r
			}
		}
		a[i], a[p] = a[p], a[i]
		if v, _ := new(big.Float).Abs(a[i][i]).Float64(); v < 1e-80 {
			return nil, false
		}
		for r := 0; r < d; r++ {
			if r == i {
				continue
			}
			f := new(big.Float).SetPrec(prec).Quo(a[r][i], a[i][i])
			for j := i; j <= d; j++ {
				a[r][j].Sub(a[r][j], new(big.Float).SetPrec(prec).Mul(f, a[i][j]))
			}
		}
	}
	for i := 0; i < d; i++ {
		beta = append(beta, new(big.Float).SetPrec(prec).Quo(a[i][d], a[i][i]))
	}
	return beta, true
}

// cond is the condition number of the design matrix with intercept, columns
// scaled to unit length.
func cond(x [][]float64) float64 {
	d := len(x[0]) + 1
	m := mat.NewDense(len(x), d, nil)
	for r := range x {
		m.Set(r, 0, 1)
		for j, v := range x[r] {
			m.Set(r, j+1, v)
		}
	}
	for j := 0; j < d; j++ {
		n := mat.Norm(m.ColView(j), 2)
		if n == 0 {
			return math.Inf(1)
		}
		for r := range x {
			m.Set(r, j, m.At(r, j)/n)
		}
	}
	var svd mat.SVD
	if !svd.Factorize(m, mat.SVDNone) {
		return math.Inf(1)
	}
	return svd.Cond()
}

func attrsOf(m *hx.Table) []base.Attribute {
	a := make([]base.Attribute, len(m.Cols))
	for i := range a {
		a[i] = m.Cols[i].NewAttr()
	}
	return a
}

// feats are the float feature columns.
func feats(m *hx.Table) []int {
	var f []int
	for i, c := range m.Cols {
		if i != m.Class && c.Kind == hx.Float {
			f = append(f, i)
		}
	}
	return f
}

func pick(row []float64, f []int) []float64 {
	x := make([]float64, len(f))
	for i, j := range f {
		x[i] = row[j]
	}
	return x
}

// numbers reads the predicted numbers.
func numbers(t *rapid.T, p base.FixedDataGrid, class string, rows int) []float64 {
	cs := p.AllClassAttributes()
	if len(cs) != 1 || cs[0].GetName() != class {
		t.Fatalf("prediction has classes %v", cs)
	}
	if _, n := p.Size(); n != rows {
		t.Fatalf("prediction has %d rows, the query %d", n, rows)
	}
	out := make([]float64, rows)
	for r, c := range hx.CellsByGet(t, p, cs) {
		out[r] = base.UnpackBytesToFloat(c[0])
	}
	return out
}

func init() {
	hx.Register("C27", "fit", 6000, 200000, func(t *rapid.T, c *hx.Case) {
		kinds := []hx.Kind{hx.Float}
		if rapid.IntRange(0, 3).Draw(t, "mixed") == 0 {
			kinds = []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin}
		}
		o := hx.Opts{MinRows: 1, MaxRows: 16, MinCols: 0, MaxCols: 5, Kinds: kinds, ClassKind: hx.Float, Big: 200, BigRows: true}
		if hx.Rare(t, "many columns", 40) {
			o.MinRows, o.MaxRows, o.MinCols, o.MaxCols = 20, 50, 8, 24
		}
		m := hx.GenTable(t, o)
		f := feats(m)
		scale := rapid.SampledFrom([]float64{1, 1, 1, 0.01, 100, 1e4}).Draw(t, "scale")
		law := rapid.IntRange(0, 2).Draw(t, "law") == 0
		w := make([]float64, len(f)+1)
		for i := range w {
			w[i] = float64(rapid.IntRange(-40, 40).Draw(t, "w")) / 8
		}
		off, unit := make([]float64, len(m.Cols)), make([]float64, len(m.Cols))
		odd := rapid.IntRange(0, 2).Draw(t, "units") == 0 // columns in units of their own
		for _, j := range f {
			off[j], unit[j] = rapid.SampledFrom([]float64{0, 0, 10, -50}).Draw(t, "offset"), scale
			if odd {
				unit[j] = rapid.SampledFrom([]float64{1, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e-9}).Draw(t, "unit")
				off[j] = unit[j] * rapid.SampledFrom([]float64{0, 0, 30, 1e3, -1e5, 1e6}).Draw(t, "away")
			}
		}
		if law {
			for _, row := range m.Rows {
				y := w[0]
				for i, j := range f {
					row[j] = row[j]*unit[j] + off[j]
					y += w[i+1] * row[j] / unit[j]
				}
				row[m.Class] = y
			}
		} else {
			for _, row := range m.Rows {
				for _, j := range f {
					row[j] = row[j]*unit[j] + off[j]
				}
				row[m.Class] *= scale
			}
		}
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for n := rapid.IntRange(0, 5).Draw(t, "queries"); n > 0; n-- {
			row := hx.GenRow(t, m, hx.SmallFloat)
			for _, j := range f {
				row[j] = row[j]*unit[j] + off[j]
			}
			q.Rows = append(q.Rows, row)
		}
		qa := attrs
		if rapid.Bool().Draw(t, "ownattrs") {
			qa = attrsOf(m)
		}
		qg, qhow := hx.Wrap(t, q, qa)
		var x [][]float64
		var y []float64
		for _, row := range m.Rows {
			x = append(x, pick(row, f))
			y = append(y, row[m.Class])
		}
		lr := linear_models.NewLinearRegression()
		before, qbefore := hx.Digest(t, g), hx.Digest(t, qg)
		if _, err := lr.Predict(qg); err == nil {
			t.Fatalf("an unfitted model predicts")
		}
		if len(m.Rows) < len(f)+1 {
			c.Describe(false, "too few rows: %s", m)
			c.Class(true, "too few rows")
			if err := lr.Fit(g); err == nil {
				t.Fatalf("%d rows were enough for %d features", len(m.Rows), len(f))
			}
			if _, err := lr.Predict(qg); err == nil {
				t.Fatalf("a model that was refused predicts")
			}
			return
		}
		k := cond(x)
		if k > 1e7 {
			c.Describe(false, "dependent columns: %s", m)
			c.Class(true, "dependent columns (not judged)")
			return
		}
		c.Describe(len(m.Rows) > len(f)+1 && len(f) > 0, "law=%v train %s %s; query %s %s", law, how, m, qhow, q)
		c.Class(law, "linear law")
		c.Class(len(f) > 2, "more than two features")
		c.Class(len(m.Rows) == len(f)+1, "as many rows as unknowns")
		c.Class(m.Class != len(m.Cols)-1, "class not last")
		if rapid.IntRange(0, 3).Draw(t, "refit") == 0 {
			// fitted before on other data
			o := m.Sub(hx.Perm(t, len(m.Rows), "other"))
			for i := range o.Rows {
				o.Rows[i] = append([]float64(nil), o.Rows[i]...)
				o.Rows[i][o.Class] = float64(i * i)
			}
			if err := lr.Fit(o.BuildWith(attrsOf(m))); err != nil {
				t.Fatalf("%v", err)
			}
			c.Class(true, "refit")
		}
		if err := lr.Fit(g); err != nil {
			t.Fatalf("%v", err)
		}
		beta, ok := leastSquares(x, y)
		if !ok {
			t.Fatalf("harness: dependent columns with condition %v", k)
		}
		// A backward stable solution fits every row up to a multiple of the
		// rounding unit of these: the size of the terms, and the residual
		// times the condition.
		coef := make([]float64, len(beta))
		norms := make([]float64, len(beta))
		for i := range beta {
			coef[i], _ = beta[i].Float64()
			for r := range x {
				v := 1.0
				if i > 0 {
					v = x[r][i-1]
				}
				norms[i] = math.Hypot(norms[i], v)
			}
		}
		terms, resid := 0.0, 0.0
		for i := range coef {
			terms += math.Abs(coef[i]) * norms[i]
		}
		for r := range y {
			e := bf(y[r])
			e.Sub(e, beta[0])
			for i, v := range x[r] {
				e.Sub(e, bf(0).Mul(bf(v), beta[i+1]))
			}
			ef, _ := e.Float64()
			resid = math.Hypot(resid, ef)
			terms += math.Abs(y[r])
		}
		c.Class(k > 1e3, "ill-conditioned")
		check := func(what string, g base.FixedDataGrid, tab *hx.Table) {
			p, err := lr.Predict(g)
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			for r, got := range numbers(t, p, m.Cols[m.Class].Name, len(tab.Rows)) {
				want := bf(0).Set(beta[0])
				size := terms
				reach := 1 / norms[0]
				for i, v := range pick(tab.Rows[r], f) {
					term := bf(0).Mul(bf(v), beta[i+1])
					want.Add(want, term)
					tf, _ := term.Float64()
					size += math.Abs(tf)
					reach += math.Abs(v) / norms[i+1]
				}
				wf, _ := want.Float64()
				tol := 1e-12 * (size + k*resid)
				if tab != m {
					tol *= 1 + k*reach
				}
				if !(math.Abs(got-wf) <= tol) {
					t.Fatalf("%s: row %d (%v) is predicted %v, the least-squares solution gives %v (condition %.3g)", what, r, tab.Rows[r], got, wf, k)
				}
			}
		}
		check("training grid", g, m)
		check("query grid", qg, q)
		check("training grid again", g, m)
		if hx.Digest(t, g) != before || hx.Digest(t, qg) != qbefore {
			t.Fatalf("the data changed")
		}
	})

	hx.Register("C27", "refuse", 600, 5000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 5, MaxRows: 8, MinCols: 1, MaxCols: 3, Kinds: []hx.Kind{hx.Float}, ClassKind: hx.Kind(rapid.IntRange(1, 2).Draw(t, "kind"))})
		mode := rapid.IntRange(0, 2).Draw(t, "mode")
		attrs := attrsOf(m)
		g := m.BuildWith(attrs)
		what := "class of another type"
		if mode == 1 {
			g.RemoveClassAttribute(attrs[m.Class])
			what = "no class"
		} else if mode == 2 {
			if err := g.AddClassAttribute(attrs[feats(m)[0]]); err != nil {
				t.Fatalf("%v", err)
			}
			what = "two classes"
		}
		c.Describe(true, "%s: %s", what, m)
		lr := linear_models.NewLinearRegression()
		err, pan := guard(func() error { return lr.Fit(g) })
		if pan != "" {
			t.Fatalf("a grid with %s makes Fit panic: %s", what, pan)
		}
		if err == nil {
			t.Fatalf("a grid with %s was accepted", what)
		}
	})
}

func guard(f func() error) (err error, pan string) {
	defer func() {
		if e := recover(); e != nil {
			pan = fmt.Sprint(e)
		}
	}()
	return f(), ""
}
