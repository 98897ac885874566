package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"pgregory.net/rapid"
	"verif/hx"
)

// chiCDF is the chi-squared distribution function.
func chiCDF(k int, x float64) float64 {
	if k < 1 || x <= 0 {
		return 0
	}
	p, i := math.Erf(math.Sqrt(x/2)), 1
	if k%2 == 0 {
		p, i = -math.Expm1(-x/2), 2
	}
	for ; i < k; i += 2 {
		lg, _ := math.Lgamma(float64(i)/2 + 1)
		p -= math.Exp(float64(i)/2*math.Log(x/2) - x/2 - lg)
	}
	return p
}

// chiStat is the statistic of two rows of class counts, expected counts below
// one half being taken as one half in the denominator.
func chiStat(a, b []int) float64 {
	na, nb := 0, 0
	for i := range a {
		na += a[i]
		nb += b[i]
	}
	s := 0.0
	for i := range a {
		for _, p := range [][2]int{{a[i], na}, {b[i], nb}} {
			e := float64(a[i]+b[i]) * float64(p[1]) / float64(na+nb)
			d := float64(p[0]) - e
			s += d * d / math.Max(e, 0.5)
		}
	}
	return s
}

// reach computes every interval start set the merging rule can end with, ties
// being broken in any way. counts are per distinct value in ascending order.
func reach(counts [][]int, df int, sig float64, min, max int) map[string]bool {
	final := map[string]bool{}
	seen := map[string]bool{}
	merge := func(starts []int) [][]int {
		out := make([][]int, len(starts))
		for j := range starts {
			end := len(counts)
			if j+1 < len(starts) {
				end = starts[j+1]
			}
			sum := make([]int, len(counts[0]))
			for v := starts[j]; v < end; v++ {
				for k, n := range counts[v] {
					sum[k] += n
				}
			}
			out[j] = sum
		}
		return out
	}
	var walk func(starts []int)
	walk = func(starts []int) {
		key := fmt.Sprint(starts)
		if seen[key] {
			return
		}
		seen[key] = true
		if len(starts) <= min {
			final[key] = true
			return
		}
		rows := merge(starts)
		chi := make([]float64, len(rows)-1)
		best := math.Inf(1)
		for i := range chi {
			chi[i] = chiStat(rows[i], rows[i+1])
			best = math.Min(best, chi[i])
		}
		if len(starts) <= max {
			p := chiCDF(df, best)
			if p > sig-1e-6 && sig <= 1 {
				final[key] = true
			}
			if p >= sig+1e-6 {
				return
			}
		}
		var tied []int
		for i := range chi {
			if chi[i] <= best*(1+1e-9)+1e-9 {
				tied = append(tied, i)
			}
		}
		for mask := 1; mask < 1<<len(tied); mask++ {
			drop := map[int]bool{}
			for b, i := range tied {
				if mask>>b&1 == 1 {
					drop[i+1] = true
				}
			}
			if len(starts)-len(drop) < min {
				continue
			}
			var next []int
			for j, s := range starts {
				if !drop[j] {
					next = append(next, s)
				}
			}
			walk(next)
		}
	}
	all := make([]int, len(counts))
	for i := range all {
		all[i] = i
	}
	walk(all)
	return final
}

func chimerge(t *rapid.T, c *hx.Case, distinct, heavy int, exact bool) {
	k := rapid.IntRange(1, 5).Draw(t, "classes")
	if hx.Rare(t, "manyclasses", 50) {
		k = rapid.IntRange(6, 20).Draw(t, "k")
	}
	nf := rapid.IntRange(1, 2).Draw(t, "features")
	m := &hx.Table{Class: nf}
	for i := 0; i < nf; i++ {
		m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
	}
	m.Cols = append(m.Cols, hx.Col{Name: "class", Kind: hx.Cat, Labels: hx.Labels(t, k, "labels")})
	step := rapid.SampledFrom([]float64{1, 0.1, 1e-7, 1e5}).Draw(t, "step")
	nd := rapid.IntRange(1, distinct).Draw(t, "distinct")
	from := 0.0
	if rapid.IntRange(0, 5).Draw(t, "nearly") == 0 {
		step, from = 1e-11, rapid.SampledFrom([]float64{1, -1, 50}).Draw(t, "from")
	}
	for v := 0; v < nd; v++ {
		fav := rapid.IntRange(0, k-1).Draw(t, "favourite")
		for n := rapid.IntRange(1, heavy).Draw(t, "rows"); n > 0; n-- {
			cl := fav
			if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
				cl = rapid.IntRange(0, k-1).Draw(t, "class")
			}
			row := []float64{from + float64(v-nd/2)*step}
			if nf == 2 {
				row = append(row, float64(rapid.IntRange(0, distinct-1).Draw(t, "w"))*step)
			}
			m.Rows = append(m.Rows, append(row, float64(cl)))
		}
	}
	if heavy > 3 { // weigh the rows
		w := rapid.SampledFrom([]int{1, 1, 5, 40}).Draw(t, "weight")
		rows := m.Rows
		for ; w > 1; w-- {
			m.Rows = append(m.Rows, rows...)
		}
	}
	if len(m.Rows) < 150 {
		m = m.Sub(hx.Perm(t, len(m.Rows), "order"))
	}
	sig := rapid.SampledFrom([]float64{0.5, 0.9, 0.95, 0.99, 0.999, 0.1}).Draw(t, "sig")
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	var g base.FixedDataGrid
	how := "dense"
	if len(m.Rows) < 150 {
		g, how = hx.Wrap(t, m, attrs)
	} else {
		g = m.BuildWith(attrs)
	}
	before := hx.Digest(t, g)
	f := filters.NewChiMergeFilter(g, sig)
	min, max := 2, len(m.Rows)
	if rapid.Bool().Draw(t, "limits") {
		f.MinRows = rapid.IntRange(2, 5).Draw(t, "min")
		f.MaxRows = f.MinRows + rapid.IntRange(1, 8).Draw(t, "max")
		min, max = f.MinRows, f.MaxRows
	}
	if max <= min {
		max = min + 1
	}
	picked0 := append([]base.Attribute(nil), attrs...)
	picked := map[int]bool{0: true}
	if nf == 2 && rapid.Bool().Draw(t, "both") {
		picked[1] = true
	}
	for i := range picked {
		if err := f.AddAttribute(attrs[i]); err != nil {
			t.Fatalf("AddAttribute: %v", err)
		}
	}
	if err := f.AddAttribute(attrs[nf]); err == nil {
		t.Fatalf("a categorical attribute was accepted")
	}
	if rapid.IntRange(0, 5).Draw(t, "retrain") == 0 {
		// first trained on other values and classes in the same grid
		c.Class(true, "trained again")
		cells := hx.CellsByGet(t, g, attrs)
		specs := hx.SpecsOf(t, g, attrs)
		n := len(m.Rows)
		for r := range m.Rows {
			g2, ok := g.(base.UpdatableDataGrid)
			if !ok {
				break
			}
			for i, s := range specs {
				g2.Set(s, r, cells[(r*r+i)%n][i])
			}
		}
		if err := f.Train(); err != nil {
			t.Fatalf("Train: %v", err)
		}
		for r := range m.Rows {
			g2, ok := g.(base.UpdatableDataGrid)
			if !ok {
				break
			}
			for i, s := range specs {
				g2.Set(s, r, cells[r][i])
			}
		}
	}
	if err := f.Train(); err != nil {
		t.Fatalf("Train: %v", err)
	}
	rows := m.Rows
	if len(rows) > 60 {
		rows = rows[:60]
	}
	c.Describe(nd > 2 && k > 1, "classes=%d sig=%v min=%d max=%d filtered=%v %s %d rows: %v", k, sig, min, max, picked, how, len(m.Rows), rows)
	c.Class(k == 2, "two classes")
	c.Class(how != "dense", "view source")
	if rapid.IntRange(0, 3).Draw(t, "ownattrs") == 0 {
		// another grid of the same rows with equal attributes
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g = m.BuildWith(attrs)
		c.Class(true, "equal attributes")
	}
	lf := base.NewLazilyFilteredInstances(g, f)
	hx.CheckClasses(t, "filtered grid", lf, m)
	for i, col := range m.Cols {
		a := hx.FindAttr(t, lf, col.Name)
		cells := hx.CellsByGet(t, lf, []base.Attribute{a})
		for r, x := range hx.CellsByMap(t, lf, []base.Attribute{a}) {
			if string(x[0]) != string(cells[r][0]) {
				t.Fatalf("row %d of %q differs between single read and iteration", r, col.Name)
			}
		}
		if !picked[i] {
			if !a.Equals(attrs[i]) {
				t.Fatalf("attribute %q was not given to the filter but changed", col.Name)
			}
			for r := range m.Rows {
				hx.CheckCell(t, "untouched attribute", a, col, cells[r][0], r, m.Rows[r][i])
			}
			continue
		}
		ca, ok := a.(*base.CategoricalAttribute)
		if !ok {
			t.Fatalf("discretised attribute is %T", a)
		}
		labels := ca.GetValues()
		// group rows by value
		code := map[float64]int{}
		hist := map[float64][]int{}
		for r, row := range m.Rows {
			b := int(base.UnpackBytesToU64(cells[r][0]))
			if b < 0 || b >= len(labels) {
				t.Fatalf("value %v of %q has interval %d, there are labels %q", row[i], col.Name, b, labels)
			}
			if old, ok := code[row[i]]; ok && old != b {
				t.Fatalf("value %v of %q is in intervals %d and %d", row[i], col.Name, old, b)
			}
			code[row[i]] = b
			if hist[row[i]] == nil {
				hist[row[i]] = make([]int, k)
			}
			hist[row[i]][int(row[nf])]++
		}
		var vals []float64
		for v := range hist {
			vals = append(vals, v)
		}
		sort.Float64s(vals)
		counts := make([][]int, len(vals))
		var starts []int
		classesUsed := map[int]bool{}
		for j, v := range vals {
			counts[j] = hist[v]
			for cl, n := range hist[v] {
				if n > 0 {
					classesUsed[cl] = true
				}
			}
			switch {
			case j == 0:
				if code[v] != 0 {
					t.Fatalf("the smallest value %v of %q is in interval %d", v, col.Name, code[v])
				}
				starts = append(starts, j)
			case code[v] == code[vals[j-1]]+1:
				starts = append(starts, j)
			case code[v] != code[vals[j-1]]:
				t.Fatalf("consecutive values %v and %v of %q are in intervals %d and %d", vals[j-1], v, col.Name, code[vals[j-1]], code[v])
			}
		}
		if len(starts) != len(labels) {
			t.Fatalf("%d labels %q of %q, but %d intervals hold values", len(labels), labels, col.Name, len(starts))
		}
		for j, l := range labels {
			var v float64
			fmt.Sscan(l, &v)
			if math.Abs(v-vals[starts[j]]) > math.Pow(10, -float64(decimals(l)))/2+1e-9*math.Abs(v) {
				t.Fatalf("interval %d of %q starts at %v, its label is %q", j, col.Name, vals[starts[j]], l)
			}
		}
		// values never seen in training belong to the interval around them
		for q := rapid.IntRange(0, 3).Draw(t, "unseen"); q > 0; q-- {
			v := vals[rapid.IntRange(0, len(vals)-1).Draw(t, "near")] + float64(rapid.IntRange(-20, 20).Draw(t, "off"))*step/8
			want := 0
			for j, s := range starts {
				if vals[s] <= v {
					want = j
				}
			}
			if got := int(base.UnpackBytesToU64(f.Transform(picked0[i], a, base.PackFloatToBytes(v)))); got != want {
				t.Fatalf("value %v of %q goes to interval %d, want %d (starts %v of %v)", v, col.Name, got, want, starts, vals)
			}
		}
		df := len(classesUsed) - 1
		c.Class(len(starts) > min && len(starts) < len(vals), "stopped by significance")
		c.Class(len(starts) < len(vals), "merged")
		if len(starts) > max {
			t.Fatalf("%d intervals of %q, more than the maximum %d", len(starts), col.Name, max)
		}
		if len(starts) < min && len(starts) < len(vals) {
			t.Fatalf("%d intervals of %q, fewer than the minimum %d (%d distinct values)", len(starts), col.Name, min, len(vals))
		}
		if len(starts) > min {
			sum := make([][]int, len(starts))
			for j := range starts {
				end := len(vals)
				if j+1 < len(starts) {
					end = starts[j+1]
				}
				sum[j] = make([]int, k)
				for v := starts[j]; v < end; v++ {
					for cl, n := range counts[v] {
						sum[j][cl] += n
					}
				}
			}
			for j := 1; j < len(sum); j++ {
				if p := chiCDF(df, chiStat(sum[j-1], sum[j])); p < sig-1e-6 {
					t.Fatalf("intervals %d and %d of %q with class counts %v and %v differ only with probability %v, below %v, but were not merged (starts %v)", j-1, j, col.Name, sum[j-1], sum[j], p, sig, starts)
				}
			}
		}
		if exact && len(vals) <= 9 {
			if ends := reach(counts, df, sig, min, max); !ends[fmt.Sprint(starts)] {
				t.Fatalf("the intervals of %q over values %v with class counts %v start at %v; merging can only end with %v", col.Name, vals, counts, starts, ends)
			}
			c.Class(true, "all merge orders enumerated")
		}
	}
	if after := hx.Digest(t, g); after != before {
		t.Fatalf("training and filtering changed the source grid")
	}
}

func init() {
	hx.Register("C20", "small", 3000, 100000, func(t *rapid.T, c *hx.Case) { chimerge(t, c, 8, 3, true) })
	hx.Register("C20", "weighted", 300, 8000, func(t *rapid.T, c *hx.Case) { chimerge(t, c, 7, 12, true) })
	hx.Register("C20", "long", 400, 12000, func(t *rapid.T, c *hx.Case) { chimerge(t, c, 30, 3, false) })
	hx.Register("C20", "cdf", 1, 1, func(t *rapid.T, c *hx.Case) { // the oracle against published quantiles
		for _, q := range []struct {
			k    int
			x, p float64
		}{{1, 3.841, 0.95}, {1, 2.706, 0.9}, {2, 4.605, 0.9}, {3, 7.815, 0.95}, {4, 13.277, 0.99}, {10, 18.307, 0.95}, {4, 1000, 1}} {
			if math.Abs(chiCDF(q.k, q.x)-q.p) > 1e-4 {
				panic(fmt.Sprintf("oracle: chi-squared %v", q))
			}
		}
		c.Describe(false, "oracle self-check")
	})
}
