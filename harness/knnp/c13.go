package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/kdtree"
	"pgregory.net/rapid"
	"verif/hx"
)

// nearly draws values that single precision cannot tell apart.
func nearly(t *rapid.T, name string) float64 {
	return float64(rapid.IntRange(-1, 2).Draw(t, name)) + float64(rapid.IntRange(-9, 9).Draw(t, name+"-eps"))*1e-8
}

func genPoints(t *rapid.T, n, dims int) [][]float64 {
	kind := rapid.IntRange(0, 5).Draw(t, "points")
	pts := make([][]float64, n)
	for i := range pts {
		p := make([]float64, dims)
		for j := range p {
			switch kind {
			case 0:
				p[j] = float64(rapid.IntRange(-2, 2).Draw(t, "p"))
			case 1:
				p[j] = hx.SmallFloat(t, "p")
			case 2:
				p[j] = rapid.Float64Range(-100, 100).Draw(t, "p")
			case 4: // nearly equal
				p[j] = nearly(t, "p")
			case 3: // collinear or constant in some axes
				if j == 0 {
					p[j] = float64(rapid.IntRange(-10, 10).Draw(t, "p"))
				} else {
					p[j] = p[0] * float64(j%3)
				}
			default: // positive, away from the origin
				p[j] = 100 + float64(rapid.IntRange(0, 30).Draw(t, "p"))/4
			}
		}
		pts[i] = p
	}
	return pts
}

func init() {
	hx.Register("C13", "search", 5000, 200000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		if rapid.IntRange(0, 2).Draw(t, "size") > 0 {
			n = rapid.IntRange(1, 40).Draw(t, "n2")
		}
		dims := rapid.IntRange(1, 4).Draw(t, "dims")
		pts := genPoints(t, n, dims)
		orig := fmt.Sprint(pts)
		m := metrics[rapid.IntRange(0, 3).Draw(t, "metric")]
		tree := kdtree.New()
		if err := tree.Build(pts); err != nil {
			t.Fatalf("building over %d points: %v", n, err)
		}
		nq := rapid.IntRange(1, 3).Draw(t, "queries")
		var qs [][]float64
		var ks []int
		for q := 0; q < nq; q++ {
			query := genPoints(t, 1, dims)[0]
			switch rapid.IntRange(0, 2).Draw(t, "q") {
			case 0:
				query = append([]float64(nil), pts[rapid.IntRange(0, n-1).Draw(t, "qi")]...)
			case 1: // between two points
				a, b := pts[rapid.IntRange(0, n-1).Draw(t, "qa")], pts[rapid.IntRange(0, n-1).Draw(t, "qb")]
				for j := range query {
					query[j] = (a[j] + b[j]) / 2
				}
			}
			qs = append(qs, query)
			ks = append(ks, rapid.IntRange(1, n).Draw(t, "k"))
		}
		c.Describe(n > 2, "%s k=%v of %v for %v", m.name, ks, pts, qs)
		c.Class(true, m.name)
		for q, query := range qs {
			k := ks[q]
			qcopy := append([]float64(nil), query...)
			rows, lens, err := tree.Search(k, m.impl, query)
			if err != nil {
				t.Fatalf("searching %d of %d points: %v", k, n, err)
			}
			if fmt.Sprint(qcopy) != fmt.Sprint(query) {
				t.Fatalf("the query was changed to %v from %v", query, qcopy)
			}
			if len(rows) != k || len(lens) != k {
				t.Fatalf("asked for %d neighbours, got %v %v", k, rows, lens)
			}
			all := make([]float64, n)
			for i := range pts {
				all[i] = m.ref(pts[i], query)
			}
			sorted := append([]float64(nil), all...)
			sort.Float64s(sorted)
			seen := map[int]bool{}
			for i, r := range rows {
				if r < 0 || r >= n || seen[r] {
					t.Fatalf("%s k=%d query %v: rows %v (points %v)", m.name, k, query, rows, pts)
				}
				seen[r] = true
				if !near(lens[i], all[r], 1e-9, 1e-12) {
					t.Fatalf("%s query %v: row %d at %v reported at distance %v, really %v", m.name, query, r, pts[r], lens[i], all[r])
				}
				if !near(lens[i], sorted[i], 1e-9, 1e-12) {
					t.Fatalf("%s k=%d query %v: neighbour %d at %v, the true one is at %v\nrows %v lengths %v\npoints %v", m.name, k, query, i, lens[i], sorted[i], rows, lens, pts)
				}
				if i > 0 && lens[i] < lens[i-1] {
					t.Fatalf("distances not ascending: %v", lens)
				}
			}
			if _, _, err := tree.Search(n+rapid.IntRange(1, 3).Draw(t, "more"), m.impl, query); err == nil {
				t.Fatalf("a search for more than %d neighbours was answered", n)
			}
			if _, _, err := tree.Search(1, m.impl, append(query, 0)); err == nil {
				t.Fatalf("a query of the wrong width was answered")
			}
		}
		if fmt.Sprint(pts) != orig {
			t.Fatalf("the points were changed")
		}
	})

	hx.Register("C13", "large", 40, 1500, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(200, 1500).Draw(t, "n")
		dims := rapid.IntRange(1, 5).Draw(t, "dims")
		if rapid.IntRange(0, 3).Draw(t, "high") == 0 {
			dims = rapid.IntRange(6, 40).Draw(t, "manydims")
		}
		rng := newRand(t)
		levels := rapid.SampledFrom([]int{0, 3, 20}).Draw(t, "levels")
		pts := make([][]float64, n)
		for i := range pts {
			pts[i] = make([]float64, dims)
			for j := range pts[i] {
				if levels > 0 {
					pts[i][j] = float64(rng.Intn(levels))
				} else {
					pts[i][j] = rng.NormFloat64()
				}
			}
		}
		tree := kdtree.New()
		if err := tree.Build(pts); err != nil {
			t.Fatalf("%v", err)
		}
		m := metrics[rapid.IntRange(0, 3).Draw(t, "metric")]
		k := rapid.IntRange(1, 20).Draw(t, "k")
		if rapid.IntRange(0, 3).Draw(t, "manyk") == 0 {
			k = rapid.IntRange(20, n).Draw(t, "bigk")
		}
		c.Describe(true, "%s k=%d of %d points, %d dims, %d levels, first %v", m.name, k, n, dims, levels, pts[0])
		for q := 0; q < 10; q++ {
			query := append([]float64(nil), pts[rng.Intn(n)]...)
			query[rng.Intn(dims)] += rng.NormFloat64()
			rows, lens, err := tree.Search(k, m.impl, query)
			if err != nil || len(rows) != k {
				t.Fatalf("%v %v", rows, err)
			}
			all := make([]float64, n)
			for i := range pts {
				all[i] = m.ref(pts[i], query)
			}
			sorted := append([]float64(nil), all...)
			sort.Float64s(sorted)
			seen := map[int]bool{}
			for i, r := range rows {
				if seen[r] {
					t.Fatalf("row %d twice", r)
				}
				seen[r] = true
				if !near(lens[i], all[r], 1e-9, 1e-12) || !near(lens[i], sorted[i], 1e-9, 1e-12) {
					t.Fatalf("%s k=%d query %v: neighbour %d is row %d at %v (reported %v), the true one at %v", m.name, k, query, i, r, all[r], lens[i], sorted[i])
				}
			}
		}
	})

	hx.Register("C13", "refused", 300, 3000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(0, 6).Draw(t, "n")
		pts := make([][]float64, n)
		ragged := false
		for i := range pts {
			pts[i] = make([]float64, rapid.IntRange(1, 2).Draw(t, "w"))
			ragged = ragged || len(pts[i]) != len(pts[0])
			for j := range pts[i] {
				pts[i][j] = math.Floor(rapid.Float64Range(0, 5).Draw(t, "v"))
			}
		}
		c.Describe(n > 1, "%v", pts)
		err := kdtree.New().Build(pts)
		if (err != nil) != (n == 0 || ragged) {
			t.Fatalf("building over %v: %v", pts, err)
		}
	})
}
