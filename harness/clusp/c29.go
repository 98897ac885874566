package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/clustering"
	"github.com/sjwhitworth/golearn/metrics/pairwise"
	"pgregory.net/rapid"
	"verif/hx"
)

type metric struct {
	name string
	pd   pairwise.PairwiseDistanceFunc
	ref  func(a, b []float64) float64
}

var metrics = []metric{
	{"euclidean", pairwise.NewEuclidean(), func(a, b []float64) float64 {
		s := 0.0
		for i := range a {
			s += (a[i] - b[i]) * (a[i] - b[i])
		}
		return math.Sqrt(s)
	}},
	{"manhattan", pairwise.NewManhattan(), func(a, b []float64) float64 {
		s := 0.0
		for i := range a {
			s += math.Abs(a[i] - b[i])
		}
		return s
	}},
	{"chebyshev", pairwise.NewChebyshev(), func(a, b []float64) float64 {
		s := 0.0
		for i := range a {
			s = math.Max(s, math.Abs(a[i]-b[i]))
		}
		return s
	}},
}

// scene is a clustering problem: points on a fine grid (so that distances
// are exact), which columns count, radius and minimum.
type scene struct {
	m    *hx.Table
	use  []int
	met  metric
	eps  float64
	min  int
	dist [][]float64
	nb   [][]int
	core []bool
	comp []int // component of each core point, -1 otherwise
	size map[int]int
}

func (s *scene) String() string {
	return fmt.Sprintf("%s columns %v eps %v min %d %s", s.met.name, s.use, s.eps, s.min, s.m)
}

func (s *scene) pt(r int) []float64 {
	x := make([]float64, len(s.use))
	for i, c := range s.use {
		x[i] = s.m.Rows[r][c]
	}
	return x
}

// solve computes neighbourhoods, core points and their components.
func (s *scene) solve() {
	n := len(s.m.Rows)
	s.nb = make([][]int, n)
	s.dist = make([][]float64, n)
	for i := range s.nb {
		s.dist[i] = make([]float64, n)
		for j := range s.nb {
			s.dist[i][j] = s.met.ref(s.pt(i), s.pt(j))
			if s.dist[i][j] <= s.eps {
				s.nb[i] = append(s.nb[i], j)
			}
		}
	}
	s.core = make([]bool, n)
	s.comp = make([]int, n)
	for i := range s.nb {
		s.core[i] = len(s.nb[i]) >= s.min
		s.comp[i] = -1
	}
	s.size = map[int]int{}
	id := 0
	for i := 0; i < n; i++ {
		if !s.core[i] || s.comp[i] >= 0 {
			continue
		}
		stack := []int{i}
		s.comp[i] = id
		for len(stack) > 0 {
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			s.size[id]++
			for _, q := range s.nb[p] {
				if s.core[q] && s.comp[q] < 0 {
					s.comp[q] = id
					stack = append(stack, q)
				}
			}
		}
		id++
	}
}

// owners lists the components a non-core point touches.
func (s *scene) owners(p int) []int {
	in := map[int]bool{}
	for _, q := range s.nb[p] {
		if s.core[q] {
			in[s.comp[q]] = true
		}
	}
	var o []int
	for k := range in {
		o = append(o, k)
	}
	sort.Ints(o)
	return o
}

func genScene(t *rapid.T) *scene {
	s := &scene{}
	dims := rapid.IntRange(1, 3).Draw(t, "dims")
	m := &hx.Table{Class: -1}
	for i := 0; i < dims; i++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
		s.use = append(s.use, i)
	}
	switch rapid.IntRange(0, 3).Draw(t, "extra") {
	case 0: // a column which must not count
		m.Cols = append(m.Cols, hx.Col{Name: "other", Kind: hx.Float, Prec: 3})
	case 1:
		m.Cols = append(m.Cols, hx.Col{Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}})
		m.Class = len(m.Cols) - 1
	}
	n := 0
	switch k := rapid.IntRange(0, 5).Draw(t, "size"); {
	case k < 4:
		n = rapid.IntRange(1, 14).Draw(t, "n")
	default:
		n = rapid.IntRange(10, 90).Draw(t, "n")
		if hx.Rare(t, "large", 40) {
			n = rapid.IntRange(250, 320).Draw(t, "rows")
		}
	}
	shape := rapid.IntRange(0, 3).Draw(t, "shape")
	span := rapid.SampledFrom([]int{2, 6, 20, 60}).Draw(t, "span")
	var centres [][]int
	for i := rapid.IntRange(1, 4).Draw(t, "centres"); i > 0; i-- {
		c := make([]int, dims)
		for j := range c {
			c[j] = rapid.IntRange(-40, 40).Draw(t, "c")
		}
		centres = append(centres, c)
	}
	for r := 0; r < n; r++ {
		row := make([]float64, len(m.Cols))
		for j := range m.Cols {
			v := 0
			switch {
			case m.Cols[j].Kind == hx.Cat:
				row[j] = float64(rapid.IntRange(0, 1).Draw(t, "l"))
				continue
			case j >= dims:
				v = rapid.IntRange(-4000, 4000).Draw(t, "o")
			case shape == 0: // uniform
				v = rapid.IntRange(-span, span).Draw(t, "v")
			case shape == 1: // blobs
				v = centres[r%len(centres)][j] + rapid.IntRange(-4, 4).Draw(t, "v")
			case shape == 2: // a chain
				v = 0
				if j == 0 {
					v = r*2 + rapid.IntRange(0, 2).Draw(t, "v")
				}
			default: // repeated points
				v = rapid.IntRange(-2, 2).Draw(t, "v") * span
			}
			row[j] = float64(v) / 4
		}
		m.Rows = append(m.Rows, row)
	}
	if n > 1 && shape == 2 {
		p := hx.Perm(t, n, "order")
		m = m.Sub(p)
	}
	s.m = m
	s.met = metrics[rapid.IntRange(0, len(metrics)-1).Draw(t, "metric")]
	s.min = rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 8, 8, 16, n / 2, n, n + 1}).Draw(t, "min")
	switch k := rapid.IntRange(0, 5).Draw(t, "epsKind"); {
	case k == 0 && n > 1: // a distance that occurs
		s.eps = s.met.ref(s.pt(rapid.IntRange(0, n-1).Draw(t, "p")), s.pt(rapid.IntRange(0, n-1).Draw(t, "q")))
	default:
		s.eps = float64(rapid.SampledFrom([]int{0, 1, 2, 2, 3, 4, 4, 6, 8, 12, 40, 400}).Draw(t, "eps")) / 4
	}
	if rapid.IntRange(0, 7).Draw(t, "almost") == 0 { // a radius just off a distance (all are multiples of 1/4, or far from them)
		s.eps *= 1 + math.Ldexp(float64(2*rapid.IntRange(0, 1).Draw(t, "side")-1), -rapid.IntRange(24, 40).Draw(t, "off"))
	}
	s.solve()
	return s
}

// checkClusters judges a cluster map of the rows perm of the scene.
func (s *scene) checkClusters(t *rapid.T, what string, cm clustering.ClusterMap, perm []int) {
	n := len(s.m.Rows)
	in := make([]int, n)
	seen := make([]bool, n)
	for id, rows := range cm {
		if len(rows) == 0 {
			t.Fatalf("%s: cluster %d is empty", what, id)
		}
		for _, v := range rows {
			if v < 0 || v >= n {
				t.Fatalf("%s: cluster %d holds row %d of %d", what, id, v, n)
			}
			p := perm[v]
			if seen[p] {
				t.Fatalf("%s: row %d is in a cluster twice: %v", what, v, cm)
			}
			seen[p] = true
			in[p] = id
		}
	}
	// the least size of each component, its sure members
	least := map[int]int{}
	for k, v := range s.size {
		least[k] = v
	}
	for p := 0; p < n; p++ {
		if !s.core[p] {
			if o := s.owners(p); len(o) == 1 {
				least[o[0]]++
			}
		}
	}
	of := map[int]int{}    // cluster -> component
	holds := map[int]int{} // component -> cluster
	for p := 0; p < n; p++ {
		if !s.core[p] {
			continue
		}
		k := s.comp[p]
		if !seen[p] {
			if least[k] >= s.min {
				t.Fatalf("%s: core point %v is in no cluster: %v", what, s.pt(p), cm)
			}
			if h, ok := holds[k]; ok && h != math.MinInt {
				t.Fatalf("%s: core point %v is missing from its cluster: %v", what, s.pt(p), cm)
			}
			holds[k] = math.MinInt
			continue
		}
		if c, ok := holds[k]; ok && c != in[p] {
			t.Fatalf("%s: connected core points in different clusters (%v): %v", what, s.pt(p), cm)
		}
		if c, ok := of[in[p]]; ok && c != k {
			t.Fatalf("%s: unconnected core points share cluster %d (%v): %v", what, in[p], s.pt(p), cm)
		}
		holds[k], of[in[p]] = in[p], k
	}
	for p := 0; p < n; p++ {
		if s.core[p] {
			continue
		}
		o := s.owners(p)
		if !seen[p] {
			for _, k := range o {
				// it may only be left over from a component that was dropped
				if holds[k] == math.MinInt {
					o = nil
					break
				}
			}
			if len(o) > 0 {
				t.Fatalf("%s: %v is within reach of a cluster but in none: %v", what, s.pt(p), cm)
			}
			continue
		}
		k, ok := of[in[p]]
		if !ok {
			t.Fatalf("%s: cluster %d has no core point: %v", what, in[p], cm)
		}
		found := false
		for _, x := range o {
			found = found || x == k
		}
		if !found {
			t.Fatalf("%s: %v is in cluster %d but not within reach of it: %v", what, s.pt(p), in[p], cm)
		}
	}
}

func (s *scene) params(attrs []base.Attribute) clustering.DBSCANParameters {
	use := []base.Attribute{}
	for _, c := range s.use {
		use = append(use, attrs[c])
	}
	return clustering.DBSCANParameters{ClusterParameters: clustering.ClusterParameters{Attributes: use, Metric: s.met.pd}, Eps: s.eps, MinCount: s.min}
}

func init() {
	hx.Register("C29", "clusters", 4000, 60000, func(t *rapid.T, c *hx.Case) {
		s := genScene(t)
		n := len(s.m.Rows)
		attrs := s.m.Attrs()
		g, how := hx.Wrap(t, s.m, attrs)
		before := hx.Digest(t, g)
		comps := len(s.size)
		border, noise, shared := 0, 0, 0
		for p := range s.m.Rows {
			if !s.core[p] {
				switch o := s.owners(p); len(o) {
				case 0:
					noise++
				case 1:
					border++
				default:
					border++
					shared++
				}
			}
		}
		c.Describe(comps > 0 && n > 3 && n > s.size[0], "%s %s", how, s)
		c.Class(comps > 1, "several clusters")
		c.Class(border > 0, "border points")
		c.Class(shared > 0, "shared border points")
		c.Class(noise > 0, "noise")
		c.Class(n > 32, "more than 32 rows")
		cm, err := clustering.DBSCAN(g, s.params(attrs))
		if err != nil {
			t.Fatalf("DBSCAN: %v", err)
		}
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		s.checkClusters(t, "DBSCAN", cm, id)
		if hx.Digest(t, g) != before {
			t.Fatalf("clustering changed the data")
		}
		// the same in any row order
		p := hx.Perm(t, n, "reorder")
		sub := s.m.Sub(p)
		cm2, err := clustering.DBSCAN(sub.BuildWith(attrs), s.params(attrs))
		if err != nil {
			t.Fatalf("DBSCAN on reordered rows: %v", err)
		}
		s.checkClusters(t, "DBSCAN on reordered rows", cm2, p)
	})

	hx.Register("C29", "refusals", 200, 3000, func(t *rapid.T, c *hx.Case) {
		s := genScene(t)
		s.m.Cols = append(s.m.Cols, hx.Col{Name: "colour", Kind: hx.Cat, Labels: []string{"r", "g"}})
		for i := range s.m.Rows {
			s.m.Rows[i] = append(s.m.Rows[i][:len(s.m.Cols)-1:len(s.m.Cols)-1], float64(i%2))
		}
		s.use = append(s.use, len(s.m.Cols)-1)
		c.Describe(len(s.m.Rows) > 0, "%s", s)
		attrs := s.m.Attrs()
		if len(s.m.Rows) == 0 {
			return
		}
		if cm, err := clustering.DBSCAN(s.m.BuildWith(attrs), s.params(attrs)); err == nil {
			t.Fatalf("clustered on a categorical column: %v", cm)
		}
	})
}
