package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// rowsOf reads rows both ways and checks they agree; the keys identify rows.
func rowsOf(t hx.TB, what string, g base.FixedDataGrid, attrs []base.Attribute) []string {
	a, b := hx.CellsByGet(t, g, attrs), hx.CellsByMap(t, g, attrs)
	out := make([]string, len(a))
	for i := range a {
		out[i] = fmt.Sprintf("%x", a[i])
		if x := fmt.Sprintf("%x", b[i]); x != out[i] {
			t.Fatalf("%s: row %d reads as %s and iterates as %s", what, i, out[i], x)
		}
	}
	return out
}

func genSampled(t *rapid.T, min, max int) (*hx.Table, []base.Attribute, base.FixedDataGrid, string) {
	big := 0
	if max > 9 {
		big = 60
	}
	m := hx.GenTable(t, hx.Opts{MinRows: min, MaxRows: max, MinCols: 0, MaxCols: 4,
		Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MaxClass: 4, Twins: true, Big: big})
	// an identity column makes every row different
	m.Cols = append(m.Cols, hx.Col{Name: "id", Kind: hx.Float})
	for i := range m.Rows {
		m.Rows[i] = append(m.Rows[i], float64(i))
	}
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	g, how := hx.Wrap(t, m, attrs)
	if how == "dense" && rapid.Bool().Draw(t, "lazyview") {
		how = "whole-view"
		g = base.NewInstancesViewFromRows(g, map[int]int{})
	}
	return m, attrs, g, how
}

func sameAttrs(t hx.TB, what string, g base.FixedDataGrid, m *hx.Table, attrs []base.Attribute) {
	if c, _ := g.Size(); c != len(attrs) || len(g.AllAttributes()) != len(attrs) {
		t.Fatalf("%s: attributes %v, want %v", what, g.AllAttributes(), attrs)
	}
	hx.SpecsOf(t, g, attrs)
	hx.CheckClasses(t, what, g, m)
}

func init() {
	hx.Register("C05", "shuffle", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 0, 20)
		want := rowsOf(t, "source", g, attrs)
		hx.SeedRand(t)
		lazy := rapid.Bool().Draw(t, "lazy")
		c.Describe(len(m.Rows) > 2, "shuffle lazy=%v of %s: %s", lazy, how, m)
		c.Class(how != "dense", "view source")
		var s base.FixedDataGrid
		if lazy {
			before := hx.Digest(t, g)
			s = base.LazyShuffle(g)
			if hx.Digest(t, g) != before {
				t.Fatalf("lazy shuffle changed its source")
			}
		} else {
			s = base.Shuffle(g)
		}
		if got := rowsOf(t, "shuffled "+how, s, attrs); !hx.SameMultiset(got, want) {
			t.Fatalf("shuffled %s holds rows %v, source %v", how, got, want)
		}
		sameAttrs(t, "shuffled", s, m, attrs)
	})

	hx.Register("C05", "shuffle-mixes", 24, 200, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 4, 5)
		n := len(m.Rows)
		hx.SeedRand(t)
		lazy := rapid.Bool().Draw(t, "lazy")
		c.Describe(true, "400 shuffles lazy=%v of %s: %s", lazy, how, m)
		pos := map[[2]int]bool{}
		idc := len(attrs) - 1
		for i := 0; i < 400; i++ {
			// always from the same start
			start := base.FixedDataGrid(base.NewDenseCopy(g))
			if how != "dense" {
				start = g
			}
			var s base.FixedDataGrid
			if lazy {
				s = base.LazyShuffle(start)
			} else {
				s = base.Shuffle(start)
			}
			spec := hx.SpecsOf(t, s, attrs[idc:])[0]
			for r := 0; r < n; r++ {
				pos[[2]int{r, int(base.UnpackBytesToFloat(s.Get(spec, r)))}] = true
			}
		}
		if len(pos) != n*n {
			t.Fatalf("in 400 shuffles of %d rows only %d of %d (position, row) pairs occurred", n, len(pos), n*n)
		}
	})

	// Rows of every part of a long table go to every part of the result: that
	// none does has a chance below 1e-15.
	hx.Register("C05", "long", 60, 1500, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(700, 2500).Draw(t, "n")
		m := &hx.Table{Class: 1, Cols: []hx.Col{{Name: "id"}, {Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}}}}
		for i := 0; i < n; i++ {
			m.Rows = append(m.Rows, []float64{float64(i), float64(i & 1)})
		}
		attrs := m.Attrs()
		g, how := hx.Wrap(t, m, attrs)
		what := rapid.SampledFrom([]string{"shuffle", "lazy shuffle", "sample", "split"}).Draw(t, "what")
		hx.SeedRand(t)
		c.Describe(true, "%s of %d rows, %s", what, n, how)
		var s base.FixedDataGrid
		switch what {
		case "shuffle":
			s = base.Shuffle(g)
		case "lazy shuffle":
			s = base.LazyShuffle(g)
		case "sample":
			s = base.SampleWithReplacement(g, n)
		default:
			_, s = base.InstancesTrainTestSplit(g, 0.8)
		}
		spec := hx.SpecsOf(t, s, attrs[:1])[0]
		_, rows := s.Size()
		var from [4][4]int
		for r := 0; r < rows; r++ {
			from[r*4/rows][int(base.UnpackBytesToFloat(s.Get(spec, r)))*4/n]++
		}
		for i := range from {
			for j, k := range from[i] {
				if k == 0 {
					t.Fatalf("no row of quarter %d came to quarter %d: %v", j, i, from)
				}
			}
		}
	})

	hx.Register("C05", "split", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 0, 30)
		prop := rapid.Float64Range(0, 1).Draw(t, "prop")
		want := rowsOf(t, "source", g, attrs)
		hx.SeedRand(t)
		c.Describe(len(m.Rows) > 3 && prop > 0.05 && prop < 0.95, "split %.3f of %s: %s", prop, how, m)
		c.Class(how != "dense", "view source")
		a, b := base.InstancesTrainTestSplit(g, prop)
		ra, rb := rowsOf(t, "first part", a, attrs), rowsOf(t, "second part", b, attrs)
		if !hx.SameMultiset(append(append([]string(nil), ra...), rb...), want) {
			t.Fatalf("split of %s at %v: parts %v and %v do not make up %v", how, prop, ra, rb, want)
		}
		sameAttrs(t, "first part", a, m, attrs)
		sameAttrs(t, "second part", b, m, attrs)
	})

	hx.Register("C05", "split-fraction", 60, 400, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(300, 900).Draw(t, "n")
		prop := rapid.Float64Range(0, 1).Draw(t, "prop")
		m := &hx.Table{Class: 1, Cols: []hx.Col{{Name: "id"}, {Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}}}}
		for i := 0; i < n; i++ {
			m.Rows = append(m.Rows, []float64{float64(i), float64(i % 2)})
		}
		g, _ := m.Build()
		hx.SeedRand(t)
		c.Describe(true, "split %.3f of %d rows", prop, n)
		_, b := base.InstancesTrainTestSplit(g, prop)
		_, k := b.Size()
		// two percent for the generator's granularity, seven standard deviations for chance
		if dev := math.Abs(float64(k) - prop*float64(n)); dev > 0.02*float64(n)+7*math.Sqrt(float64(n)*0.25) {
			t.Fatalf("split at %v of %d rows gave %d rows", prop, n, k)
		}
	})

	hx.Register("C05", "sample", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 1, 15)
		size := rapid.IntRange(0, 40).Draw(t, "size")
		want := rowsOf(t, "source", g, attrs)
		before := hx.Digest(t, g)
		hx.SeedRand(t)
		c.Describe(size > 1 && len(m.Rows) > 1, "sample %d of %s: %s", size, how, m)
		c.Class(size < len(m.Rows), "smaller than source")
		s := base.SampleWithReplacement(g, size)
		if _, n := s.Size(); n != size {
			t.Fatalf("a sample of %d rows from %d has %d", size, len(m.Rows), n)
		}
		known := map[string]bool{}
		for _, k := range want {
			known[k] = true
		}
		for i, k := range rowsOf(t, "sample of "+how, s, attrs) {
			if !known[k] {
				t.Fatalf("row %d of the sample is no row of the source: %s", i, k)
			}
		}
		sameAttrs(t, "sample", s, m, attrs)
		if hx.Digest(t, g) != before {
			t.Fatalf("sampling changed the source")
		}
	})

	hx.Register("C05", "small-samples-reach-all", 24, 200, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 4, 9)
		hx.SeedRand(t)
		size := rapid.IntRange(1, len(m.Rows)-1).Draw(t, "size")
		c.Describe(true, "many samples of %d of %s: %s", size, how, m)
		n := 0
		pos := map[string]bool{}
		for n < 120*len(m.Rows)*size {
			s := base.SampleWithReplacement(g, size)
			for i, k := range rowsOf(t, "sample", s, attrs) {
				pos[fmt.Sprint(i, " ", k)] = true
				n++
			}
		}
		if len(pos) != size*len(m.Rows) {
			t.Fatalf("120 samples per row of %d from %d rows gave only %d of %d (place, row) pairs", size, len(m.Rows), len(pos), size*len(m.Rows))
		}
	})

	hx.Register("C05", "sample-reaches-all", 60, 600, func(t *rapid.T, c *hx.Case) {
		m, attrs, g, how := genSampled(t, 1, 8)
		hx.SeedRand(t)
		c.Describe(len(m.Rows) > 1, "sample of %s: %s", how, m)
		s := base.SampleWithReplacement(g, 60*len(m.Rows))
		got := map[string]bool{}
		for _, k := range rowsOf(t, "sample", s, attrs) {
			got[k] = true
		}
		if len(got) != len(m.Rows) {
			t.Fatalf("%d draws from %d rows gave only %d of them", 60*len(m.Rows), len(m.Rows), len(got))
		}
	})
}
