package main

import (
	"fmt"
	"reflect"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func init() {
	hx.Register("C06", "counts", 4000, 100000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 14, MinCols: 1, MaxCols: 4,
			Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MaxClass: 4, Twins: true, Big: 60})
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		c.Describe(len(m.Rows) > 2, "%s: %s", how, m)
		c.Class(how != "dense", "view")
		cl := m.Cols[m.Class]
		want := map[string]int{}
		byCode := make([]int, len(cl.Labels))
		for _, r := range m.Rows {
			want[cl.Str(r[m.Class])]++
			byCode[int(r[m.Class])]++
		}
		if got := base.GetClassDistribution(g); !reflect.DeepEqual(got, want) {
			t.Fatalf("class distribution %v, want %v", got, want)
		}
		if got := base.GetClassDistributionByCategoricalValue(g); !reflect.DeepEqual(got, byCode) {
			t.Fatalf("class distribution by code %v, want %v", got, byCode)
		}
		for r, row := range m.Rows {
			if got := base.GetClass(g, r); got != cl.Str(row[m.Class]) {
				t.Fatalf("class of row %d is %q, want %q", r, got, cl.Str(row[m.Class]))
			}
		}
		k := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "split")
		col := m.Cols[k]
		if k != m.Class {
			exp := map[string]map[string]int{}
			for _, r := range m.Rows {
				b := col.Str(r[k])
				if exp[b] == nil {
					exp[b] = map[string]int{}
				}
				exp[b][cl.Str(r[m.Class])]++
			}
			if got := base.GetClassDistributionAfterSplit(g, attrs[k]); !reflect.DeepEqual(got, exp) {
				t.Fatalf("distribution after a split on %q: %v, want %v", col.Name, got, exp)
			}
			branches := func(r []float64) string { return col.Str(r[k]) }
			checkChildren(t, "split on "+col.Name, m, attrs, k, branches, base.DecomposeOnAttributeValues(g, attrs[k]))
		}
		if col.Kind == hx.Float {
			th := hx.SmallFloat(t, "th")
			if len(m.Rows) > 0 && rapid.Bool().Draw(t, "exact") {
				th = m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "at")][k]
			}
			exp := map[string]map[string]int{}
			branch := func(r []float64) string {
				if r[k] > th {
					return "1"
				}
				return "0"
			}
			for _, r := range m.Rows {
				b := branch(r)
				if exp[b] == nil {
					exp[b] = map[string]int{}
				}
				exp[b][cl.Str(r[m.Class])]++
			}
			if got := base.GetClassDistributionAfterThreshold(g, attrs[k], th); !reflect.DeepEqual(got, exp) {
				t.Fatalf("distribution after %q > %v: %v, want %v", col.Name, th, got, exp)
			}
			kids := base.DecomposeOnNumericAttributeThreshold(g, attrs[k], th)
			checkChildren(t, fmt.Sprintf("split on %s > %v", col.Name, th), m, attrs, k, branch, kids)
			// decompose once more: a child is a grid like any other
			for b, kid := range kids {
				var rows []int
				for i, r := range m.Rows {
					if branch(r) == b {
						rows = append(rows, i)
					}
				}
				sub := m.Sub(rows)
				for k2 := range m.Cols {
					if k2 == k || k2 == m.Class {
						continue
					}
					checkChildren2(t, "second split", sub, attrs, []int{k, k2}, func(r []float64) string { return m.Cols[k2].Str(r[k2]) },
						base.DecomposeOnAttributeValues(kid, attrs[k2]))
					break
				}
			}
		}
	})

	hx.Register("C06", "binary-float-class", 1500, 30000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 14, MinCols: 1, MaxCols: 3,
			Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Float, Twins: true, Big: 60})
		want := []int{0, 0}
		for _, r := range m.Rows {
			b := rapid.IntRange(0, 1).Draw(t, "cls")
			r[m.Class] = float64(b) + rapid.SampledFrom([]float64{0, 0, 1e-9, -1e-9, 0.01, -0.01}).Draw(t, "eps")
			want[b]++
		}
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		c.Describe(want[0] > 0 && want[1] > 0, "%s: %s", how, m)
		if got := base.GetClassDistributionByBinaryFloatValue(g); !reflect.DeepEqual(got, want) {
			t.Fatalf("class distribution %v, want %v", got, want)
		}
	})
}

func checkChildren(t hx.TB, what string, m *hx.Table, attrs []base.Attribute, gone int, branch func([]float64) string, kids map[string]base.FixedDataGrid) {
	checkChildren2(t, what, m, attrs, []int{gone}, branch, kids)
}

func checkChildren2(t hx.TB, what string, m *hx.Table, attrs []base.Attribute, gone []int, branch func([]float64) string, kids map[string]base.FixedDataGrid) {
	rows := map[string][]int{}
	for i, r := range m.Rows {
		b := branch(r)
		rows[b] = append(rows[b], i)
	}
	if len(kids) != len(rows) {
		t.Fatalf("%s: %d children, want %d", what, len(kids), len(rows))
	}
	for b, ix := range rows {
		kid, ok := kids[b]
		if !ok {
			t.Fatalf("%s: no child for %q", what, b)
		}
		sub := m.Sub(ix)
		want := &hx.Table{Class: -1}
		var as []base.Attribute
		for i, c := range sub.Cols {
			skip := false
			for _, x := range gone {
				skip = skip || x == i
			}
			if skip {
				if _, err := kid.GetAttribute(attrs[i]); err == nil {
					t.Fatalf("%s: child %q still shows %q", what, b, c.Name)
				}
				continue
			}
			if i == sub.Class {
				want.Class = len(want.Cols)
			}
			want.Cols = append(want.Cols, c)
			as = append(as, attrs[i])
		}
		for _, r := range sub.Rows {
			var row []float64
			for i, v := range r {
				skip := false
				for _, x := range gone {
					skip = skip || x == i
				}
				if !skip {
					row = append(row, v)
				}
			}
			want.Rows = append(want.Rows, row)
		}
		c, n := kid.Size()
		if n != len(ix) || c != len(want.Cols) {
			t.Fatalf("%s: child %q is %d x %d, want %d x %d", what, b, c, n, len(want.Cols), len(ix))
		}
		hx.CheckClasses(t, what, kid, want)
		// row order inside a child is free: compare as multisets
		var w []string
		for _, r := range want.Rows {
			s := ""
			for i, v := range r {
				s += fmt.Sprintf("%x;", want.Cols[i].Pack(v))
			}
			w = append(w, s)
		}
		for pass, cells := range [][][][]byte{hx.CellsByGet(t, kid, as), hx.CellsByMap(t, kid, as)} {
			var got []string
			for _, r := range cells {
				s := ""
				for _, v := range r {
					s += fmt.Sprintf("%x;", v)
				}
				got = append(got, s)
			}
			if !hx.SameMultiset(got, w) {
				t.Fatalf("%s: child %q (pass %d) has rows %v, want %v", what, b, pass, got, w)
			}
		}
	}
}
