package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

// gauss is one fitted component: mean and the Cholesky factor of its
// covariance.
type gauss struct {
	mu   []float64
	l    [][]float64
	ldet float64
	sing bool // nearly singular: densities cannot be computed
}

func newGauss(mu []float64, cov func(i, j int) float64) (*gauss, error) {
	d := len(mu)
	g := &gauss{mu: mu, l: make([][]float64, d)}
	for i := range g.l {
		g.l[i] = make([]float64, d)
		if math.IsNaN(mu[i]) || math.IsInf(mu[i], 0) {
			return nil, fmt.Errorf("mean %v", mu)
		}
		for j := 0; j <= i; j++ {
			s := cov(i, j)
			if math.IsNaN(s) || math.IsInf(s, 0) {
				return nil, fmt.Errorf("covariance %v at %d,%d", s, i, j)
			}
			if s != cov(j, i) {
				return nil, fmt.Errorf("covariance is not symmetric")
			}
			for k := 0; k < j; k++ {
				s -= g.l[i][k] * g.l[j][k]
			}
			if i == j {
				if s <= 0 {
					return nil, fmt.Errorf("covariance is not positive definite")
				}
				g.l[i][i] = math.Sqrt(s)
				g.ldet += math.Log(g.l[i][i])
			} else {
				g.l[i][j] = s / g.l[j][j]
			}
		}
	}
	return g, nil
}

// logp is the log density up to the common constant.
func (g *gauss) logp(x []float64) float64 {
	d := len(x)
	z := make([]float64, d)
	q := 0.0
	for i := 0; i < d; i++ {
		s := x[i] - g.mu[i]
		for k := 0; k < i; k++ {
			s -= g.l[i][k] * z[k]
		}
		z[i] = s / g.l[i][i]
		q += z[i] * z[i]
	}
	return -q/2 - g.ldet
}

// cond is a crude measure of how elongated the component is.
func (g *gauss) cond() float64 {
	lo, hi := math.Inf(1), 0.0
	for i := range g.l {
		lo = math.Min(lo, g.l[i][i])
		for j := 0; j <= i; j++ {
			hi = math.Max(hi, math.Abs(g.l[i][j]))
		}
	}
	return hi / lo
}

func components(t *rapid.T, p clustering.Params, k, d int) []*gauss {
	if r, c := p.Means.Dims(); r != k || c != d {
		t.Fatalf("means are %d x %d, for %d components and %d columns", r, c, k, d)
	}
	if len(p.Covs) != k {
		t.Fatalf("%d covariances for %d components", len(p.Covs), k)
	}
	var gs []*gauss
	for i := 0; i < k; i++ {
		if n := p.Covs[i].Symmetric(); n != d {
			t.Fatalf("covariance %d is %d x %d for %d columns", i, n, n, d)
		}
		mu := append([]float64{}, p.Means.RawRowView(i)...)
		g, err := newGauss(mu, p.Covs[i].At)
		if err != nil {
			t.Fatalf("component %d: %v", i, err)
		}
		var ch mat.Cholesky
		g.sing = !ch.Factorize(p.Covs[i]) || ch.Cond() > 1e14
		gs = append(gs, g)
	}
	return gs
}

func logps(gs []*gauss, x []float64) []string {
	var o []string
	for _, g := range gs {
		o = append(o, fmt.Sprintf("%.12g (cond %.3g)", g.logp(x), g.cond()))
	}
	return o
}

// best lists the components which are most likely for x, ties (within
// rounding) included.
func best(gs []*gauss, x []float64) map[int]bool {
	top, tol := math.Inf(-1), 0.0
	lp := make([]float64, len(gs))
	out := map[int]bool{}
	for i, g := range gs {
		if g.sing {
			for j := range gs {
				out[j] = true
			}
			return out
		}
		lp[i] = g.logp(x)
		top = math.Max(top, lp[i])
	}
	for i, g := range gs {
		tol = 1e-9 * (1 + math.Abs(top)) * (1 + g.cond())
		if lp[i] >= top-tol {
			out[i] = true
		}
	}
	return out
}

// mixture draws spread data: k blobs of jittered points, all columns on
// scales well above the stopping tolerance.
func mixture(t *rapid.T, blobs, n, d int, sep float64) *hx.Table {
	r := rand.New(rand.NewSource(rapid.Int64Range(1, 1<<40).Draw(t, "dataseed")))
	m := &hx.Table{Class: -1}
	scale := make([]float64, d)
	shift := make([]float64, d)
	for j := 0; j < d; j++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", j), Kind: hx.Float, Prec: 3})
		scale[j] = float64(rapid.SampledFrom([]int{20, 100, 1000}).Draw(t, "scale"))
		if tiny := rapid.IntRange(0, 5).Draw(t, "tiny"); d > 1 && tiny == 0 {
			scale[j] = 2e-4 // moves less than the tolerance allows to see
			m.Cols[j].Prec = 9
		}
		shift[j] = float64(rapid.IntRange(-2, 2).Draw(t, "shift")) * scale[j]
	}
	cen := make([][]float64, blobs)
	for b := range cen {
		cen[b] = make([]float64, d)
		for j := range cen[b] {
			cen[b][j] = r.NormFloat64() * sep
		}
	}
	for i := 0; i < n; i++ {
		row := make([]float64, d)
		b := cen[i%blobs]
		for j := range row {
			row[j] = shift[j] + scale[j]*(b[j]+r.NormFloat64())
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

func attrFree(m *hx.Table, at int) *hx.Table {
	// a class column which must not count
	c := hx.Col{Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}}
	n := &hx.Table{Class: at}
	n.Cols = append(append(append([]hx.Col{}, m.Cols[:at]...), c), m.Cols[at:]...)
	for i, r := range m.Rows {
		n.Rows = append(n.Rows, append(append(append([]float64{}, r[:at]...), float64(i%2)), r[at:]...))
	}
	return n
}

func feats(m *hx.Table, r []float64) []float64 {
	var x []float64
	for i := range m.Cols {
		if i != m.Class {
			x = append(x, r[i])
		}
	}
	return x
}

// assignment turns a cluster map over n rows into a list, -1 impossible.
func assignment(t *rapid.T, what string, cm clustering.ClusterMap, n, k int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = -1
	}
	for id, rows := range cm {
		if id < 0 || id >= k {
			t.Fatalf("%s: component %d of %d", what, id, k)
		}
		for _, r := range rows {
			if r < 0 || r >= n || a[r] >= 0 {
				t.Fatalf("%s: row %d of %d out of range or assigned twice: %v", what, r, n, cm)
			}
			a[r] = id
		}
	}
	for r, id := range a {
		if id < 0 {
			t.Fatalf("%s: row %d is assigned to no component: %v", what, r, cm)
		}
	}
	return a
}

// describes says which component, if any, does not have the mean and
// covariance of the rows assigned to it.
func describes(c *hx.Case, m *hx.Table, gs []*gauss, p clustering.Params, a []int, used map[int]int) string {
	for id, cnt := range used {
		if cnt < 2 {
			continue
		}
		var rows [][]float64
		for r, x := range a {
			if x == id {
				rows = append(rows, feats(m, m.Rows[r]))
			}
		}
		d := len(gs[id].mu)
		mean := make([]float64, d)
		for j := range mean {
			for _, x := range rows {
				mean[j] += x[j] / float64(cnt)
			}
			if math.Abs(mean[j]-gs[id].mu[j]) > 0.01+1e-9*math.Abs(mean[j]) {
				return fmt.Sprintf("component %d has mean %v, its %d rows have mean %v in column %d", id, gs[id].mu, cnt, mean[j], j)
			}
		}
		c.Class(true, "component mean is the mean of its rows")
		for i := range mean {
			for j := range mean {
				if i != j && cnt <= d {
					continue // not enough rows for more than the variances
				}
				s := 0.0
				for _, x := range rows {
					s += (x[i] - mean[i]) * (x[j] - mean[j]) / float64(cnt-1)
				}
				if got := p.Covs[id].At(i, j); math.Abs(got-s) > 0.01+1e-6*math.Abs(s) {
					return fmt.Sprintf("component %d has covariance %v between columns %d and %d, its %d rows have %v", id, got, i, j, cnt, s)
				}
			}
		}
		c.Class(cnt > d, "full covariance")
	}
	return ""
}

func init() {
	hx.Register("C30", "assignment", 1500, 20000, func(t *rapid.T, c *hx.Case) {
		d := rapid.IntRange(1, 4).Draw(t, "columns")
		k := rapid.IntRange(1, 5).Draw(t, "components")
		if hx.Rare(t, "many", 40) {
			k = rapid.IntRange(6, 12).Draw(t, "morecomponents")
		}
		n := k + rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 30, 80}).Draw(t, "rows")
		sep := rapid.SampledFrom([]float64{0, 2, 10, 50}).Draw(t, "sep")
		m := mixture(t, rapid.IntRange(1, 5).Draw(t, "blobs"), n, d, sep)
		if rapid.IntRange(0, 2).Draw(t, "withclass") == 0 {
			m = attrFree(m, rapid.IntRange(0, d).Draw(t, "classat"))
		}
		attrs := m.Attrs()
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		em, err := clustering.NewExpectationMaximization(k)
		if err != nil {
			t.Fatalf("%v", err)
		}
		if cm, err := em.Predict(g); err != clustering.NoTrainingDataError {
			t.Fatalf("unfitted model predicts %v, %v", cm, err)
		}
		seed := hx.SeedRand(t)
		c.Describe(k > 1 && n > k+2, "components %d seed %d %s %s", k, seed, how, m)
		c.Class(n > 20, "more than 20 rows")
		c.Class(d > 1, "several columns")
		c.Class(m.Class >= 0, "with a class column")
		if rapid.IntRange(0, 3).Draw(t, "refit") == 0 {
			o := mixture(t, 2, 2*k+d, d, 10)
			if m.Class >= 0 {
				o = attrFree(o, m.Class)
			}
			if err := em.Fit(o.BuildWith(attrs)); err != nil {
				t.Fatalf("first fit: %v", err)
			}
		}
		if err := em.Fit(g); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		gs := components(t, em.Params, k, d)
		cm, err := em.Predict(g)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		a := assignment(t, "Predict", cm, n, k)
		ties := false
		for r, id := range a {
			b := best(gs, feats(m, m.Rows[r]))
			ties = ties || len(b) > 1
			if !b[id] {
				t.Fatalf("row %v is assigned to component %d, most likely is %v (log densities %v)\nmeans %v", m.Rows[r], id, b, logps(gs, feats(m, m.Rows[r])), em.Params.Means)
			}
		}
		used := map[int]int{}
		for _, id := range a {
			used[id]++
		}
		c.Class(len(used) > 1, "several components in use")
		c.Class(len(used) < k, "components without rows")
		// other grids: chosen rows in any order, and new rows
		q := rapid.IntRange(1, 6).Draw(t, "query")
		sub := &hx.Table{Cols: m.Cols, Class: m.Class}
		from := make([]int, q)
		for i := range from {
			from[i] = rapid.IntRange(-1, n-1).Draw(t, "row")
			if from[i] >= 0 {
				sub.Rows = append(sub.Rows, m.Rows[from[i]])
				continue
			}
			x := append([]float64{}, m.Rows[rapid.IntRange(0, n-1).Draw(t, "near")]...)
			for j := range x {
				if j != m.Class {
					x[j] += float64(rapid.IntRange(-100, 100).Draw(t, "step"))
				}
			}
			sub.Rows = append(sub.Rows, x)
		}
		qg, qhow := hx.Wrap(t, sub, attrs)
		cm2, err := em.Predict(qg)
		if err != nil {
			t.Fatalf("Predict on %s: %v", qhow, err)
		}
		for i, id := range assignment(t, "Predict on other rows", cm2, q, k) {
			if from[i] >= 0 && id != a[from[i]] {
				t.Fatalf("row %v: component %d in the training grid, %d in another (%s)", sub.Rows[i], a[from[i]], id, qhow)
			}
			if b := best(gs, feats(m, sub.Rows[i])); !b[id] {
				t.Fatalf("row %v is assigned to component %d, most likely is %v", sub.Rows[i], id, b)
			}
		}
		if hx.Digest(t, g) != before {
			t.Fatalf("clustering changed the data")
		}
		// Components with enough rows describe the rows assigned to them. A
		// fit whose first means happen to lie on the means of their rows
		// stops before the covariances settle, so one that disagrees is
		// judged together with other starts.
		if ties {
			return
		}
		worst := describes(c, m, gs, em.Params, a, used)
		for i, more := int64(1), 0; worst != "" && i <= 20; i++ {
			rand.Seed(seed + i)
			if err := em.Fit(g); err != nil {
				t.Fatalf("Fit: %v", err)
			}
			gs := components(t, em.Params, k, d)
			cm, err := em.Predict(g)
			if err != nil {
				t.Fatalf("Predict: %v", err)
			}
			a := assignment(t, "Predict", cm, n, k)
			used, ties := map[int]int{}, false
			for r, id := range a {
				used[id]++
				ties = ties || len(best(gs, feats(m, m.Rows[r]))) > 1
			}
			if !ties && describes(c, m, gs, em.Params, a, used) != "" {
				if more++; more == 2 {
					t.Fatalf("%s", worst)
				}
			}
		}
	})

	hx.Register("C30", "refusals", 300, 3000, func(t *rapid.T, c *hx.Case) {
		k := rapid.IntRange(-3, 6).Draw(t, "components")
		n := rapid.IntRange(0, 5).Draw(t, "rows")
		c.Describe(k > 0, "components %d rows %d", k, n)
		em, err := clustering.NewExpectationMaximization(k)
		if k < 1 {
			if err != clustering.InsufficientComponentsError {
				t.Fatalf("%d components: %v", k, err)
			}
			return
		}
		if n >= k {
			return
		}
		m := mixture(t, 1, n, 2, 1)
		hx.SeedRand(t)
		if err := em.Fit(m.BuildWith(m.Attrs())); err != clustering.InsufficientDataError {
			t.Fatalf("%d rows for %d components: %v", n, k, err)
		}
		if _, err := em.Predict(mixture(t, 1, 3, 2, 1).BuildWith(m.Attrs())); err != clustering.NoTrainingDataError {
			t.Fatalf("predicts after a refused fit: %v", err)
		}
	})
	_ = base.DescribeError
}
