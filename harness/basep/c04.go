package main

import (
	"fmt"
	"math"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func sortFloat(t *rapid.T, n string) float64 {
	switch rapid.IntRange(0, 9).Draw(t, n+"-s") {
	case 0:
		return math.Inf(rapid.SampledFrom([]int{-1, 1}).Draw(t, n))
	case 1, 2, 3:
		return float64(rapid.IntRange(-3, 3).Draw(t, n))
	case 4:
		return math.Float64frombits(rapid.Uint64Range(0, 1<<62).Draw(t, n))
	case 5:
		return -math.Float64frombits(rapid.Uint64Range(0, 1<<62).Draw(t, n))
	default:
		return hx.AnyFloat(t, n)
	}
}

func init() {
	hx.Register("C04", "sort", 4000, 100000, func(t *rapid.T, c *hx.Case) {
		o := hx.Opts{MinRows: 0, MaxRows: 24, MinCols: 1, MaxCols: 5, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin},
			ClassKind: hx.Cat, MaxClass: 5, Value: sortFloat, Big: 150}
		checkSort(t, c, hx.GenTable(t, o))
	})
	hx.Register("C04", "many-categories", 60, 1500, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(100, 700).Draw(t, "labels")
		var labels []string
		for i := 0; i < n; i++ {
			labels = append(labels, fmt.Sprint("L", (i*7919)%100003))
		}
		m := &hx.Table{Class: 0, Cols: []hx.Col{{Name: "k", Kind: hx.Cat, Labels: labels}, {Name: "v", Kind: hx.Float}}}
		for i := 0; i < rapid.IntRange(2, 80).Draw(t, "rows"); i++ {
			m.Rows = append(m.Rows, []float64{float64(rapid.IntRange(0, n-1).Draw(t, "c")), float64(rapid.IntRange(-2, 2).Draw(t, "v"))})
		}
		checkSort(t, c, m)
	})
}

func checkSort(t *rapid.T, c *hx.Case, m *hx.Table) {
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	keys := hx.Perm(t, len(m.Cols), "keyorder")[:rapid.IntRange(1, len(m.Cols)).Draw(t, "nkeys")]
	dir := rapid.SampledFrom([]base.SortDirection{base.Ascending, base.Descending}).Draw(t, "dir")
	neg := false
	for _, r := range m.Rows {
		for _, k := range keys {
			neg = neg || r[k] < 0 || r[k] > 127
		}
	}
	c.Describe(len(m.Rows) > 2, "by %v dir %d: %s", keys, dir, m)
	c.Class(neg, "negative or large key")
	c.Class(len(keys) > 1, "several keys")

	g := m.BuildWith(attrs)
	before := hx.RowKeys(t, g)
	var specs []base.AttributeSpec
	for _, k := range keys {
		specs = append(specs, hx.SpecsOf(t, g, attrs[k:k+1])[0])
	}
	src, how := hx.Wrap(t, m, attrs)
	srcBefore := hx.Digest(t, src)
	var vspecs []base.AttributeSpec
	for _, k := range keys {
		vspecs = append(vspecs, hx.SpecsOf(t, src, attrs[k:k+1])[0])
	}
	lazy, err := base.LazySort(src, dir, vspecs)
	if err != nil {
		t.Fatalf("view sort failed: %v", err)
	}
	if hx.Digest(t, src) != srcBefore {
		t.Fatalf("view sort of a %s changed its source", how)
	}
	sorted, err := base.Sort(g, dir, specs)
	if err != nil {
		t.Fatalf("sort failed: %v", err)
	}
	check := func(what string, s base.FixedDataGrid) {
		if !hx.SameMultiset(hx.RowKeys(t, s), before) {
			t.Fatalf("%s: rows are not those of the source", what)
		}
		for pass, cells := range [][][][]byte{hx.CellsByGet(t, s, attrs), hx.CellsByMap(t, s, attrs)} {
			for r := 1; r < len(cells); r++ {
				for _, k := range keys {
					a, b := sortKey(m.Cols[k], cells[r-1][k]), sortKey(m.Cols[k], cells[r][k])
					if dir == base.Descending {
						a, b = b, a
					}
					if a < b {
						break
					}
					if a > b {
						t.Fatalf("%s (pass %d, direction %d) by %v: row %d and %d are out of order at %q (%v, %v)",
							what, pass, dir, keys, r-1, r, m.Cols[k].Name, a, b)
					}
				}
			}
		}
		if n := len(s.AllClassAttributes()); n != 1 {
			t.Fatalf("%s: %d class attributes", what, n)
		}
	}
	check("in-place sort", g)
	check("result of in-place sort", sorted)
	check("view sort of "+how, lazy)
	a, b := hx.CellsByGet(t, sorted, attrs), hx.CellsByGet(t, lazy, attrs)
	for r := range a {
		for _, k := range keys {
			if sortKey(m.Cols[k], a[r][k]) != sortKey(m.Cols[k], b[r][k]) {
				t.Fatalf("the two sorts differ at row %d key %q", r, m.Cols[k].Name)
			}
		}
	}
}

func sortKey(c hx.Col, b []byte) float64 {
	switch c.Kind {
	case hx.Float:
		return base.UnpackBytesToFloat(b)
	case hx.Cat:
		return float64(base.UnpackBytesToU64(b))
	}
	return float64(b[0])
}
