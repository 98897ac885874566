package main

import (
	"math"
	"strconv"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"pgregory.net/rapid"
	"verif/hx"
)

// scaled draws values on a grid of a drawn step around a drawn offset, so that
// ties, boundaries, tiny and huge ranges all happen.
func scaled(t *rapid.T) func(*rapid.T, string) float64 {
	step := rapid.SampledFrom([]float64{1, 0.1, 0.25, 1e-3, 1e-6, 1e-9, 3, 1e4, 1e8}).Draw(t, "step")
	off := rapid.SampledFrom([]float64{0, 0, 0, -3, 100}).Draw(t, "offset") * step
	wide := rapid.SampledFrom([]int{1, 3, 10, 40}).Draw(t, "wide")
	frac := rapid.Bool().Draw(t, "fractions")
	return func(t *rapid.T, name string) float64 {
		v := float64(rapid.IntRange(-wide, wide).Draw(t, name))
		if frac {
			v += float64(rapid.IntRange(0, 999).Draw(t, name)) / 1000
		}
		return v*step + off
	}
}

func init() {
	hx.Register("C19", "binning", 4000, 150000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 14, MinCols: 1, MaxCols: 4, Kinds: []hx.Kind{hx.Float, hx.Float, hx.Float, hx.Cat, hx.Bin},
			ClassKind: hx.Kind(rapid.IntRange(0, 1).Draw(t, "classkind")), Value: hx.SmallFloat, Big: 200})
		for i := range m.Cols {
			if m.Cols[i].Kind == hx.Float {
				gen := scaled(t)
				m.Cols[i].Prec = rapid.IntRange(0, 4).Draw(t, "prec")
				for r := range m.Rows {
					m.Rows[r][i] = gen(t, "v")
				}
			}
		}
		bins := rapid.IntRange(1, 12).Draw(t, "bins")
		if hx.Rare(t, "many", 25) {
			bins = rapid.IntRange(13, 3000).Draw(t, "manybins")
			c.Class(true, "many bins")
		}
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		f := filters.NewBinningFilter(g, bins)
		picked := map[int]bool{}
		for i, col := range m.Cols {
			if rapid.IntRange(0, 3).Draw(t, "pick") == 0 {
				continue
			}
			err := f.AddAttribute(attrs[i])
			if col.Kind != hx.Float {
				if err == nil {
					t.Fatalf("attribute %q of another type was accepted for binning", col.Name)
				}
				continue
			}
			if err != nil {
				t.Fatalf("AddAttribute: %v", err)
			}
			picked[i] = true
		}
		if err := f.AddAttribute(base.NewFloatAttribute("stranger")); err == nil {
			t.Fatalf("an attribute the grid does not have was accepted")
		}
		if d, ok := g.(base.UpdatableDataGrid); ok && rapid.IntRange(0, 3).Draw(t, "retrain") == 0 {
			// first trained on other values in the same grid
			c.Class(true, "trained again")
			specs := hx.SpecsOf(t, g, attrs)
			by := rapid.SampledFrom([]float64{-3, 0, 0.5, 5}).Draw(t, "stretch")
			for pass := 0; pass < 2; pass++ {
				for r := range m.Rows {
					for i, s := range specs {
						if v := m.Rows[r][i]; m.Cols[i].Kind == hx.Float {
							if pass == 0 {
								v *= by
							}
							d.Set(s, r, base.PackFloatToBytes(v))
						}
					}
				}
				if pass == 0 {
					if err := f.Train(); err != nil {
						t.Fatalf("Train: %v", err)
					}
				}
			}
		}
		if err := f.Train(); err != nil {
			t.Fatalf("Train: %v", err)
		}
		// further rows to bin with the trained filter
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		outside := false
		for n := rapid.IntRange(0, 4).Draw(t, "queries"); n > 0; n-- {
			row := append([]float64(nil), m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "base")]...)
			for i := range row {
				if m.Cols[i].Kind == hx.Float {
					lo, hi := bounds(m, i)
					row[i] = lo + (hi-lo)*float64(rapid.IntRange(-4, 12).Draw(t, "at"))/8
					if rapid.IntRange(0, 4).Draw(t, "away") == 0 {
						row[i] += rapid.SampledFrom([]float64{-1, 1, 1e6}).Draw(t, "by")
					}
					outside = outside || picked[i] && (row[i] < lo || row[i] > hi)
				}
			}
			q.Rows = append(q.Rows, row)
		}
		c.Describe(len(m.Rows) > 2 && len(picked) > 0, "bins=%d filtered=%v %s %s queries %v", bins, picked, how, m, q.Rows)
		c.Class(outside, "values outside the training range")
		c.Class(how != "dense", "view source")
		checkBins(t, "training grid", base.NewLazilyFilteredInstances(g, f), m, m, picked, bins, attrs)
		if rapid.IntRange(0, 3).Draw(t, "ownattrs") == 0 {
			// the query grid has equal attributes of its own
			attrs = make([]base.Attribute, len(m.Cols))
			for i := range attrs {
				attrs[i] = m.Cols[i].NewAttr()
			}
			c.Class(true, "equal attributes")
		}
		checkBins(t, "query grid", base.NewLazilyFilteredInstances(q.BuildWith(attrs), f), q, m, picked, bins, attrs)
	})
}

func bounds(m *hx.Table, i int) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, r := range m.Rows {
		lo, hi = math.Min(lo, r[i]), math.Max(hi, r[i])
	}
	return
}

func checkBins(t *rapid.T, what string, g *base.LazilyFilteredInstances, m, train *hx.Table, picked map[int]bool, bins int, old []base.Attribute) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(m.Rows) || len(g.AllAttributes()) != cols {
		t.Fatalf("%s: size %d x %d with %d attributes, want %d x %d", what, cols, rows, len(g.AllAttributes()), len(m.Cols), len(m.Rows))
	}
	binned := &hx.Table{Cols: append([]hx.Col(nil), m.Cols...), Class: m.Class}
	for i := range picked {
		binned.Cols[i].Kind = hx.Cat
	}
	hx.CheckClasses(t, what, g, binned)
	attrs := make([]base.Attribute, len(m.Cols))
	for i, c := range m.Cols {
		attrs[i] = hx.FindAttr(t, g, c.Name)
		if !picked[i] && !attrs[i].Equals(old[i]) {
			t.Fatalf("%s: attribute %q was not given to the filter but changed", what, c.Name)
		}
	}
	byGet, byMap := hx.CellsByGet(t, g, attrs), hx.CellsByMap(t, g, attrs)
	for pass, cells := range [][][][]byte{byGet, byMap} {
		how := what + []string{" (single read)", " (iteration)"}[pass]
		for i, c := range m.Cols {
			if !picked[i] {
				for r := range m.Rows {
					hx.CheckCell(t, how, attrs[i], c, cells[r][i], r, m.Rows[r][i])
				}
				continue
			}
			ca, ok := attrs[i].(*base.CategoricalAttribute)
			if !ok {
				t.Fatalf("%s: binned attribute %q is %T", how, c.Name, attrs[i])
			}
			lo, hi := bounds(train, i)
			labels := ca.GetValues()
			starts := make([]float64, len(labels))
			for j, l := range labels {
				v, err := strconv.ParseFloat(l, 64)
				if err != nil {
					t.Fatalf("%s: bin label %q is no number", how, l)
				}
				starts[j] = v
			}
			width := (hi - lo) / float64(bins)
			for r := range m.Rows {
				v := m.Rows[r][i]
				b := int(base.UnpackBytesToU64(cells[r][i]))
				if b < 0 || b >= len(labels) {
					t.Fatalf("%s: value %v of %q has bin %d, there are labels %q", how, v, c.Name, b, labels)
				}
				if got := ca.GetStringFromSysVal(cells[r][i]); got != labels[b] {
					t.Fatalf("%s: value %v of %q in bin %d reads %q", how, v, c.Name, b, got)
				}
				if hi > lo {
					x := (v - lo) / width
					clamp := func(j float64) int {
						return int(math.Max(0, math.Min(math.Floor(j), float64(bins))))
					}
					min, max := clamp(x-1e-6), clamp(x+0.0001+1e-6)
					if v == hi {
						min, max = bins, bins
					}
					if v > hi {
						min = bins - 1
					}
					if b < min || b > max {
						t.Fatalf("%s: value %v of %q (range %v..%v, %d bins) has bin %d, want %d..%d", how, v, c.Name, lo, hi, bins, b, min, max)
					}
				} else if b != 0 {
					t.Fatalf("%s: value %v of constant column %q has bin %d", how, v, c.Name, b)
				}
				// the label names the start of its bin, as closely as it is written
				if tol := math.Pow(10, -float64(decimals(labels[b])))/2 + 1e-9*(math.Abs(lo)+math.Abs(hi)); hi > lo && math.Abs(starts[b]-(lo+float64(b)*width)) > tol {
					t.Fatalf("%s: bin %d of %q (range %v..%v, %d bins) is labelled %q", how, b, c.Name, lo, hi, bins, labels[b])
				}
				for r2 := range m.Rows[:r] {
					v2, b2 := m.Rows[r2][i], int(base.UnpackBytesToU64(cells[r2][i]))
					if v == v2 && b != b2 || v < v2 && b > b2 || v > v2 && b < b2 {
						t.Fatalf("%s: values %v and %v of %q have bins %d and %d", how, v, v2, c.Name, b, b2)
					}
				}
			}
		}
	}
}

func decimals(s string) int {
	for i := range s {
		if s[i] == '.' {
			return len(s) - i - 1
		}
	}
	return 0
}
