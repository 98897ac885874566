package main

import (
	"math"
	"math/rand"
	"sort"

	"github.com/sjwhitworth/golearn/pca"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

func genMatrix(t *rapid.T) [][]float64 {
	d := rapid.IntRange(1, 6).Draw(t, "columns")
	if hx.Rare(t, "wide", 60) {
		d = rapid.IntRange(7, 25).Draw(t, "manycolumns")
	}
	n := d + rapid.SampledFrom([]int{1, 2, 3, 6, 20}).Draw(t, "rows")
	unit := rapid.SampledFrom([]float64{1, 1, 1, 1e-12, 1e-6, 1e9}).Draw(t, "unit")
	var many *rand.Rand
	if hx.Rare(t, "many", 300) {
		n = rapid.IntRange(900, 1500).Draw(t, "n")
		many = rand.New(rand.NewSource(rapid.Int64Range(1, 1<<40).Draw(t, "data")))
	}
	scale := make([]float64, d)
	shift := make([]float64, d)
	for j := range scale {
		scale[j] = rapid.SampledFrom([]float64{0.1, 1, 1, 10, 100}).Draw(t, "scale")
		shift[j] = float64(rapid.IntRange(-5, 5).Draw(t, "shift")) * 10
	}
	mix := rapid.Bool().Draw(t, "mix")
	x := make([][]float64, n)
	for r := range x {
		x[r] = make([]float64, d)
		s := 0.0
		for j := range x[r] {
			v := 0.0
			if many != nil {
				v = float64(many.Intn(1001)-500) / 100
			} else {
				v = float64(rapid.IntRange(-500, 500).Draw(t, "v")) / 100
			}
			s += v
			if mix {
				v += s / 2
			}
			x[r][j] = unit * (shift[j] + scale[j]*v)
		}
	}
	return x
}

func dense(x [][]float64) *mat.Dense {
	m := mat.NewDense(len(x), len(x[0]), nil)
	for r := range x {
		m.SetRow(r, x[r])
	}
	return m
}

func rowsOf(m *mat.Dense) [][]float64 {
	n, _ := m.Dims()
	x := make([][]float64, n)
	for r := range x {
		x[r] = append([]float64{}, m.RawRowView(r)...)
	}
	return x
}

// covariance of columns, divisor n-1.
func covariance(x [][]float64) ([][]float64, []float64) {
	n, d := len(x), len(x[0])
	mu := make([]float64, d)
	for _, r := range x {
		for j, v := range r {
			mu[j] += v / float64(n)
		}
	}
	c := make([][]float64, d)
	for i := range c {
		c[i] = make([]float64, d)
		for j := range c[i] {
			for _, r := range x {
				c[i][j] += (r[i] - mu[i]) * (r[j] - mu[j]) / float64(n-1)
			}
		}
	}
	return c, mu
}

// eigenvalues of a symmetric matrix by Jacobi rotations, descending.
func eigenvalues(c [][]float64) []float64 {
	d := len(c)
	a := make([][]float64, d)
	for i := range a {
		a[i] = append([]float64{}, c[i]...)
	}
	for sweep := 0; sweep < 60; sweep++ {
		off := 0.0
		for p := 0; p < d; p++ {
			for q := p + 1; q < d; q++ {
				off += a[p][q] * a[p][q]
				if a[p][q] == 0 {
					continue
				}
				th := (a[q][q] - a[p][p]) / (2 * a[p][q])
				t := 1 / (math.Abs(th) + math.Sqrt(th*th+1))
				if th < 0 {
					t = -t
				}
				cs := 1 / math.Sqrt(t*t+1)
				sn := t * cs
				for k := 0; k < d; k++ {
					x, y := a[k][p], a[k][q]
					a[k][p], a[k][q] = cs*x-sn*y, sn*x+cs*y
				}
				for k := 0; k < d; k++ {
					x, y := a[p][k], a[q][k]
					a[p][k], a[q][k] = cs*x-sn*y, sn*x+cs*y
				}
			}
		}
		if off < 1e-300 {
			break
		}
	}
	e := make([]float64, d)
	for i := range e {
		e[i] = a[i][i]
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(e)))
	return e
}

func same(t *rapid.T, what string, a, b [][]float64, tol float64) {
	if len(a) != len(b) {
		t.Fatalf("%s: %d and %d rows", what, len(a), len(b))
	}
	for r := range a {
		if len(a[r]) != len(b[r]) {
			t.Fatalf("%s: %d and %d columns", what, len(a[r]), len(b[r]))
		}
		for j := range a[r] {
			if !(math.Abs(a[r][j]-b[r][j]) <= tol) {
				t.Fatalf("%s: row %d: %v and %v", what, r, a[r], b[r])
			}
		}
	}
}

func init() {
	hx.Register("C32", "projection", 2500, 40000, func(t *rapid.T, c *hx.Case) {
		x := genMatrix(t)
		n, d := len(x), len(x[0])
		k := rapid.IntRange(0, d+1).Draw(t, "components")
		cov, mu := covariance(x)
		ev := eigenvalues(cov)
		total := 0.0
		for _, v := range ev {
			total += math.Max(v, 0)
		}
		full := ev[d-1] > 1e-9*ev[0] && ev[0] > 0
		c.Describe(full && d > 1, "components %d %v", k, x)
		c.Class(k > 0 && k < d, "fewer components than columns")
		c.Class(!full, "dependent columns")
		scale := math.Sqrt(total * float64(n))
		for j := range mu {
			scale += math.Abs(mu[j])
		}
		tol := 1e-9*scale + 1e-300
		m := dense(x)
		p := pca.NewPCA(k)
		var out [][]float64
		how := rapid.IntRange(0, 2).Draw(t, "how")
		switch how {
		case 0:
			out = rowsOf(p.FitTransform(m))
		case 1:
			p.Fit(m)
			out = rowsOf(p.Transform(m))
		default: // after another fit
			p.Fit(dense(genMatrix(t)))
			out = rowsOf(p.Fit(m).Transform(m))
		}
		same(t, "the caller's data after fitting", rowsOf(m), x, 0)
		want := k
		if k == 0 || k > d {
			want = d
		}
		if len(out) != n || len(out[0]) != want {
			t.Fatalf("%d x %d results for %d rows and %d components of %d columns", len(out), len(out[0]), n, k, d)
		}
		oc, omu := covariance(out)
		vt := 1e-9*(total+scale*scale*1e-6) + 1e-300
		last := math.Inf(1)
		for i := range oc {
			if math.Abs(omu[i]) > tol {
				t.Fatalf("component %d has mean %v", i, omu[i])
			}
			for j := range oc {
				if i != j && math.Abs(oc[i][j]) > vt {
					t.Fatalf("components %d and %d are correlated: %v", i, j, oc[i][j])
				}
			}
			if oc[i][i] > last+vt {
				t.Fatalf("component %d has more variance (%v) than the one before (%v)", i, oc[i][i], last)
			}
			last = oc[i][i]
			if math.Abs(oc[i][i]-ev[i]) > vt {
				t.Fatalf("component %d has variance %v, the data's is %v", i, oc[i][i], ev[i])
			}
		}
		dist := func(a, b []float64) float64 {
			s := 0.0
			for j := range a {
				s += (a[j] - b[j]) * (a[j] - b[j])
			}
			return math.Sqrt(s)
		}
		for a := 0; a < n; a++ {
			for b := 0; b < a; b++ {
				o, w := dist(out[a], out[b]), dist(x[a], x[b])
				if o > w+tol || want == d && o < w-tol {
					t.Fatalf("rows %d and %d: distance %v becomes %v", a, b, w, o)
				}
			}
		}
		// the same once more, separately, and row by row
		p2 := pca.NewPCA(k)
		p2.Fit(m)
		same(t, "Fit+Transform against the first result", rowsOf(p2.Transform(m)), out, tol)
		same(t, "FitTransform against the first result", rowsOf(pca.NewPCA(k).FitTransform(m)), out, tol)
		q := rapid.IntRange(1, 4).Draw(t, "queries")
		var sub, exp [][]float64
		for i := 0; i < q; i++ {
			r := rapid.IntRange(0, n-1).Draw(t, "row")
			sub, exp = append(sub, x[r]), append(exp, out[r])
		}
		sm := dense(sub)
		same(t, "chosen rows on their own", rowsOf(p2.Transform(sm)), exp, tol)
		same(t, "the caller's query after projecting", rowsOf(sm), sub, 0)
		// projecting is affine: the middle of two rows is projected to the middle
		a, b := rapid.IntRange(0, n-1).Draw(t, "a"), rapid.IntRange(0, n-1).Draw(t, "b")
		mid, wmid := make([]float64, d), make([]float64, want)
		for j := range mid {
			mid[j] = (x[a][j] + x[b][j]) / 2
		}
		for j := range wmid {
			wmid[j] = (out[a][j] + out[b][j]) / 2
		}
		same(t, "the middle of two rows", rowsOf(p2.Transform(dense([][]float64{mid}))), [][]float64{wmid}, tol)
		same(t, "the caller's data", rowsOf(m), x, 0)
	})

	hx.Register("C32", "refusals", 100, 1000, func(t *rapid.T, c *hx.Case) {
		x := genMatrix(t)
		k := rapid.IntRange(-3, 3).Draw(t, "components")
		c.Describe(k < 0, "components %d %v", k, x)
		if no, _ := refused(func() error { pca.NewPCA(k).Transform(dense(x)); return nil }); !no {
			t.Fatalf("transformed without fitting")
		}
		if k < 0 {
			if no, _ := refused(func() error { pca.NewPCA(k).FitTransform(dense(x)); return nil }); !no {
				t.Fatalf("%d components", k)
			}
		}
	})
}
