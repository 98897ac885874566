package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

func genVec(t *rapid.T, n int, name string) []float64 {
	kind := rapid.IntRange(0, 3).Draw(t, name+"-kind")
	v := make([]float64, n)
	for i := range v {
		switch kind {
		case 0:
			v[i] = hx.SmallFloat(t, name)
		case 1:
			v[i] = rapid.Float64Range(-1000, 1000).Draw(t, name)
		case 2:
			v[i] = rapid.Float64Range(-1, 1).Draw(t, name) * math.Pow(10, float64(rapid.IntRange(-6, 6).Draw(t, name+"-exp")))
		default:
			v[i] = float64(rapid.IntRange(-1, 1).Draw(t, name))
		}
	}
	return v
}

// shape makes a matrix holding v as a row or column, contiguous or as a slice
// of a larger matrix.
func shape(v []float64, form int) *mat.Dense {
	n := len(v)
	c := append([]float64(nil), v...)
	switch form {
	case 0:
		return mat.NewDense(1, n, c)
	case 1:
		return mat.NewDense(n, 1, c)
	case 2: // a column of a wider matrix
		m := mat.NewDense(n+1, 3, nil)
		for i := 0; i <= n; i++ {
			for j := 0; j < 3; j++ {
				m.Set(i, j, 55)
			}
		}
		for i := range v {
			m.Set(i, 1, v[i])
		}
		return m.Slice(0, n, 1, 2).(*mat.Dense)
	default: // part of a row
		m := mat.NewDense(2, n+2, nil)
		for j := 0; j < n+2; j++ {
			m.Set(0, j, 55)
			m.Set(1, j, 55)
		}
		for i := range v {
			m.Set(1, i+1, v[i])
		}
		return m.Slice(1, 2, 1, n+1).(*mat.Dense)
	}
}

// refusedBy requires that matrices of different shape make f panic.
func refusedBy(t *rapid.T, name string, f func(a, b *mat.Dense) float64, x, y *mat.Dense) {
	v, ok := 0.0, false
	func() {
		defer func() { recover() }()
		v = f(x, y)
		ok = true
	}()
	if ok {
		t.Fatalf("%s of matrices %v and %v gave %v", name, mat.Formatted(x), mat.Formatted(y), v)
	}
}

func init() {
	hx.Register("C15", "distances", 6000, 300000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 12).Draw(t, "n")
		if hx.Rare(t, "long", 200) {
			n = rapid.IntRange(20, 400).Draw(t, "length")
		}
		x, y, z := genVec(t, n, "x"), genVec(t, n, "y"), genVec(t, n, "z")
		switch rapid.IntRange(0, 7).Draw(t, "rel") {
		case 0:
			copy(y, x)
		case 1:
			k := rapid.SampledFrom([]float64{-2, -1, -0.1, 0.1, 3, 7}).Draw(t, "k")
			for i := range y {
				y[i] = k * x[i]
			}
		}
		// row and column forms pair up
		side := rapid.IntRange(0, 1).Draw(t, "side")
		form := func(name string) int {
			if side == 0 {
				return rapid.SampledFrom([]int{0, 3}).Draw(t, name)
			}
			return rapid.SampledFrom([]int{1, 2}).Draw(t, name)
		}
		fx, fy, fz := form("fx"), form("fy"), form("fz")
		mx, my, mz := shape(x, fx), shape(y, fy), shape(z, fz)
		c.Describe(n > 1, "%v / %v / %v forms %d%d%d", x, y, z, fx, fy, fz)
		c.Class(side == 1, "columns")
		c.Class(fx > 1 || fy > 1, "slices")
		big := 0.0
		for i := range x {
			big = math.Max(big, math.Max(math.Abs(x[i]), math.Max(math.Abs(y[i]), math.Abs(z[i]))))
		}
		zero := func(v []float64) bool { return dot(v, v) < 1e-250 }
		for _, m := range metrics {
			if m.name == "cosine" && (zero(x) || zero(y)) {
				continue
			}
			rel, abs := 1e-10, 1e-300
			if m.name == "cosine" {
				abs = 1e-10
			}
			got, back := m.impl.Distance(mx, my), m.impl.Distance(my, mx)
			if want := m.ref(x, y); !near(got, want, rel, abs) {
				t.Fatalf("%s distance of %v and %v is %v, want %v", m.name, x, y, got, want)
			}
			if !near(got, back, 1e-12, abs*1e-3) {
				t.Fatalf("%s distance is %v one way and %v the other", m.name, got, back)
			}
			if got < 0 || math.IsNaN(got) {
				t.Fatalf("%s distance of %v and %v is %v", m.name, x, y, got)
			}
			if self := m.impl.Distance(mx, shape(x, fx)); self > abs {
				t.Fatalf("%s distance of %v to itself is %v", m.name, x, self)
			}
			if m.name == "cosine" {
				if got > 2 {
					t.Fatalf("cosine distance %v", got)
				}
				continue
			}
			if m.name == "canberra" {
				continue
			}
			xz, yz := m.impl.Distance(mx, mz), m.impl.Distance(my, mz)
			if xz > got+yz+1e-9*(1+big) {
				t.Fatalf("%s: d(x,z)=%v > d(x,y)+d(y,z)=%v+%v for %v %v %v", m.name, xz, got, yz, x, y, z)
			}
		}
		for i, p := range []struct {
			m *mat.Dense
			v []float64
		}{{mx, x}, {my, y}, {mz, z}} {
			for j, v := range p.v {
				r, cc := p.m.Dims()
				k := p.m.At(j%r, j/r%cc)
				if r == 1 {
					k = p.m.At(0, j)
				}
				if k != v {
					t.Fatalf("argument %d was changed: %v, was %v", i, mat.Formatted(p.m), p.v)
				}
			}
		}
	})

	hx.Register("C15", "shapes", 1500, 30000, func(t *rapid.T, c *hx.Case) {
		dim := func(name string) int { return rapid.IntRange(1, 5).Draw(t, name) }
		r1, c1, r2, c2 := dim("r1"), dim("c1"), dim("r2"), dim("c2")
		if rapid.Bool().Draw(t, "sameSize") { // a row against a column, or 2x3 against 3x2
			r2, c2 = c1, r1
		}
		if r1 == r2 && c1 == c2 {
			c2++
		}
		x := mat.NewDense(r1, c1, genVec(t, r1*c1, "x"))
		y := mat.NewDense(r2, c2, genVec(t, r2*c2, "y"))
		c.Describe(true, "%dx%d / %dx%d", r1, c1, r2, c2)
		c.Class(r1*c1 == r2*c2, "as many cells")
		for _, m := range metrics {
			refusedBy(t, m.name, m.impl.Distance, x, y)
		}
		refusedBy(t, "inner product", pairwise.NewEuclidean().InnerProduct, x, y)
		refusedBy(t, "polynomial kernel", pairwise.NewPolyKernel(2).InnerProduct, x, y)
		refusedBy(t, "polynomial kernel distance", pairwise.NewPolyKernel(2).Distance, x, y)
		refusedBy(t, "RBF kernel", pairwise.NewRBFKernel(1).InnerProduct, x, y)
	})

	hx.Register("C15", "kernels", 6000, 300000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 10).Draw(t, "n")
		if hx.Rare(t, "long", 200) {
			n = rapid.IntRange(20, 400).Draw(t, "length")
		}
		x, y := genVec(t, n, "x"), genVec(t, n, "y")
		if rapid.IntRange(0, 5).Draw(t, "same") == 0 {
			copy(y, x)
		}
		f := rapid.IntRange(0, 3).Draw(t, "form")
		mx, my := shape(x, f), shape(y, f)
		degree := rapid.IntRange(0, 6).Draw(t, "degree")
		if hx.Rare(t, "high", 40) {
			degree = rapid.IntRange(7, 25).Draw(t, "highdegree")
		}
		gamma := rapid.SampledFrom([]float64{0, 0.01, 0.5, 1, 2, 10}).Draw(t, "gamma")
		c.Describe(n > 1, "%v / %v form %d degree %d gamma %v", x, y, f, degree, gamma)
		c.Class(degree%2 == 1, "odd degree")
		abs := 0.0 // magnitude of the terms of the inner product
		for i := range x {
			abs += math.Abs(x[i] * y[i])
		}
		d := dot(x, y)
		e := pairwise.NewEuclidean()
		if got := e.InnerProduct(mx, my); !near(got, d, 0, 1e-12*abs) {
			t.Fatalf("inner product of %v and %v is %v, want %v", x, y, got, d)
		}
		p := pairwise.NewPolyKernel(degree)
		want := 1.0
		for i := 0; i < degree; i++ {
			want *= d + 1
		}
		tol := 1e-10 * math.Pow(abs+1, float64(degree))
		got, back := p.InnerProduct(mx, my), p.InnerProduct(my, mx)
		if !near(got, want, 1e-10, tol) || !near(back, want, 1e-10, tol) {
			t.Fatalf("polynomial kernel (degree %d) of %v and %v is %v and %v, want %v", degree, x, y, got, back, want)
		}
		diff := make([]float64, n)
		for i := range x {
			diff[i] = x[i] - y[i]
		}
		want = 1.0
		for i := 0; i < degree; i++ {
			want *= dot(diff, diff) + 1
		}
		want = math.Sqrt(want)
		got, back = p.Distance(mx, my), p.Distance(my, mx)
		if !near(got, want, 1e-10, 1e-300) || !near(back, want, 1e-10, 1e-300) {
			t.Fatalf("polynomial kernel distance (degree %d) of %v and %v is %v and %v, want %v", degree, x, y, got, back, want)
		}
		r := pairwise.NewRBFKernel(gamma)
		sq := 0.0
		for i := range x {
			sq += (x[i] - y[i]) * (x[i] - y[i])
		}
		want = math.Exp(-gamma * sq)
		got, back = r.InnerProduct(mx, my), r.InnerProduct(my, mx)
		if !near(got, want, 1e-9*(1+gamma*sq), 1e-300) || got != back {
			t.Fatalf("RBF kernel (gamma %v) of %v and %v is %v and %v, want %v", gamma, x, y, got, back, want)
		}
		for i := range x {
			a, b := shape(x, f), shape(y, f)
			if fmt.Sprint(mat.Formatted(a)) != fmt.Sprint(mat.Formatted(mx)) || fmt.Sprint(mat.Formatted(b)) != fmt.Sprint(mat.Formatted(my)) {
				t.Fatalf("arguments were changed")
			}
			_ = i
			break
		}
	})
}
