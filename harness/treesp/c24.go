package main

import (
	"math"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

// cart is the reference: every prediction greedy splitting may lead to, ties
// (up to rounding) being broken in any way.
type cart struct {
	m     *hx.Table
	feats []int
	loss  func(rows []int) float64 // per row
	leaf  func(rows []int) []float64
	max   int // depth limit, -1 for none
	cuts  map[string]admissible
	work  int // states left to visit
	memo  map[string]map[float64]bool
}

type admissible struct {
	cuts []cut
	stop bool
}

type cut struct {
	col         int
	at          float64
	left, right []int
}

// best lists the splits of lowest weighted loss that may be chosen, and
// whether stopping is possible.
func (c *cart) best(rows []int) (cuts []cut, stop bool) {
	orig := c.loss(rows)
	tol := 1e-9 * (1 + orig)
	low := math.Inf(1)
	type cand struct {
		cut
		l float64
	}
	var all []cand
	for _, f := range c.feats {
		for _, at := range thresholds(c.m, rows, f) {
			for _, r := range rows { // a number with no other between it and the next
				if c.m.Rows[r][f] == at {
					at = math.Nextafter(at, math.Inf(1))
					break
				}
			}
			x := cand{cut: cut{col: f, at: at}}
			for _, r := range rows {
				if c.m.Rows[r][f] < at {
					x.left = append(x.left, r)
				} else {
					x.right = append(x.right, r)
				}
			}
			n := float64(len(rows))
			x.l = c.loss(x.left)*float64(len(x.left))/n + c.loss(x.right)*float64(len(x.right))/n
			low = math.Min(low, x.l)
			all = append(all, x)
		}
	}
	if low > orig+tol || len(all) == 0 {
		return nil, true
	}
	for _, x := range all {
		if x.l <= low+tol {
			cuts = append(cuts, x.cut)
		}
	}
	return cuts, low >= orig-tol
}

// predict gives the admissible predictions for a row.
func (c *cart) predict(rows []int, depth int, row []float64) map[float64]bool {
	set := make([]byte, len(c.m.Rows)/8+2)
	for _, r := range rows {
		set[r/8] |= 1 << (r % 8)
	}
	set[len(set)-1] = byte(depth)
	key := string(set)
	if p, ok := c.memo[key]; ok {
		return p
	}
	out := map[float64]bool{}
	c.memo[key] = out
	if c.work--; c.work < 0 {
		return out
	}
	var cuts []cut
	stop := true
	if c.max < 0 || depth < c.max {
		k := key[:len(key)-1]
		if _, ok := c.cuts[k]; !ok {
			if c.cuts == nil {
				c.cuts = map[string]admissible{}
			}
			cs, st := c.best(rows)
			c.cuts[k] = admissible{cs, st}
		}
		cuts, stop = c.cuts[k].cuts, c.cuts[k].stop
	}
	if stop {
		for _, v := range c.leaf(rows) {
			out[v] = true
		}
	}
	for _, x := range cuts {
		side := x.right
		if row[x.col] < x.at {
			side = x.left
		}
		for v := range c.predict(side, depth+1, row) {
			out[v] = true
		}
	}
	return out
}

func has(p map[float64]bool, v float64) bool {
	for x := range p {
		if math.Abs(x-v) <= 1e-9*(1+math.Abs(x)) {
			return true
		}
	}
	return false
}

func cartData(t *rapid.T, many bool, target func(t *rapid.T, row []float64) float64) (*hx.Table, *hx.Table) {
	value := rapid.SampledFrom([]func(*rapid.T, string) float64{coarse, hx.SmallFloat, func(t *rapid.T, n string) float64 {
		return float64(rapid.IntRange(-9999, 9999).Draw(t, n)) / 100
	}, touching}).Draw(t, "values")
	min, max := 1, rapid.SampledFrom([]int{14, 14, 14, 40}).Draw(t, "maxrows")
	if many {
		min, max = 60, 240
	}
	cols := 3
	if hx.Rare(t, "larger", 60) {
		cols = 16
		if !many {
			max = 150
		}
	}
	m := hx.GenTable(t, hx.Opts{MinRows: min, MaxRows: max, MinCols: 1, MaxCols: cols, Kinds: []hx.Kind{hx.Float}, ClassKind: hx.Float, Value: value})
	if rapid.IntRange(0, 3).Draw(t, "extra") == 0 { // a column that is not numeric takes no part
		m.Cols = append(m.Cols, hx.Col{Name: "extra", Kind: hx.Cat, Labels: []string{"x", "y"}})
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], float64(i%2))
		}
	}
	q := queries(t, m, 6, value)
	for _, x := range []*hx.Table{m, q} {
		for _, row := range x.Rows {
			row[m.Class] = target(t, row)
		}
	}
	for _, row := range q.Rows { // queries on thresholds
		if len(m.Rows) > 1 && rapid.Bool().Draw(t, "mid") {
			a, b := m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "a")], m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "b")]
			for i, c := range m.Cols {
				if i != m.Class && c.Kind == hx.Float {
					row[i] = (a[i] + b[i]) / 2
				}
			}
		}
	}
	return m, q
}

func numeric(m *hx.Table) []int {
	var out []int
	for _, i := range features(m) {
		if m.Cols[i].Kind == hx.Float {
			out = append(out, i)
		}
	}
	return out
}

func every(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func init() {
	hx.Register("C24", "classifier", 3000, 90000, func(t *rapid.T, c *hx.Case) { classifier(t, c, false) })
	hx.Register("C24", "lopsided", 100, 4000, func(t *rapid.T, c *hx.Case) { classifier(t, c, true) })
	hx.Register("C24", "regressor", 3000, 90000, func(t *rapid.T, c *hx.Case) {
		shape := rapid.IntRange(0, 2).Draw(t, "target")
		offset := rapid.SampledFrom([]float64{0, 0, 0, 1e6, -1 << 30}).Draw(t, "offset")
		m, q := cartData(t, false, func(t *rapid.T, row []float64) (y float64) {
			defer func() { y += offset }()
			switch shape {
			case 0:
				return float64(rapid.IntRange(-4, 4).Draw(t, "y"))
			case 1:
				return math.Floor(row[0]*3) + row[len(row)-1]/7
			}
			return float64(rapid.IntRange(-9999, 9999).Draw(t, "y")) / 128
		})
		crit := rapid.SampledFrom([]string{"mse", "mae", "MAE"}).Draw(t, "criterion")
		depth := rapid.IntRange(-1, 4).Draw(t, "depth")
		mean := func(rows []int) float64 {
			s := 0.0
			for _, r := range rows {
				s += m.Rows[r][m.Class]
			}
			return s / float64(len(rows))
		}
		ref := &cart{m: m, feats: numeric(m), max: depth,
			loss: func(rows []int) float64 {
				mu, s := mean(rows), 0.0
				for _, r := range rows {
					d := m.Rows[r][m.Class] - mu
					if crit == "mse" {
						s += d * d
					} else {
						s += math.Abs(d)
					}
				}
				return s / float64(len(rows))
			},
			leaf: func(rows []int) []float64 { return []float64{mean(rows)} }}
		attrs := newAttrs(m)
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		tree := trees.NewDecisionTreeRegressor(crit, int64(depth))
		if rapid.IntRange(0, 4).Draw(t, "used") == 0 { // on other rows
			c.Class(true, "fitted before")
			if err := tree.Fit(m.Sub(hx.Perm(t, len(m.Rows), "others")[:(len(m.Rows)+1)/2]).BuildWith(attrs)); err != nil {
				t.Fatalf("Fit: %v", err)
			}
		}
		if err := tree.Fit(g); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		_ = tree.String()
		c.Describe(len(m.Rows) > 3, "%s depth=%d %s %s queries %v", crit, depth, how, m, q.Rows)
		for _, x := range []*hx.Table{m, q} {
			xg, _ := hx.Wrap(t, x, attrs)
			p := tree.Predict(xg)
			if len(p) != len(x.Rows) {
				t.Fatalf("%d predictions for %d rows", len(p), len(x.Rows))
			}
			for r, row := range x.Rows {
				ref.memo, ref.work = map[string]map[float64]bool{}, 2000
				if want := ref.predict(every(len(m.Rows)), 0, row); ref.work >= 0 && !has(want, p[r]) {
					t.Fatalf("row %v predicted %v, greedy splitting gives %v", row, p[r], want)
				}
			}
		}
		cuts, _ := ref.best(every(len(m.Rows)))
		c.Class(len(cuts) == 1, "unique best split")
		c.Class(ref.work < 0, "too many ties to enumerate")
		c.Class(len(cuts) == 0, "pure or unsplittable")
		if hx.Digest(t, g) != before {
			t.Fatalf("fitting or predicting changed the training grid")
		}
	})
}

func init() {
	hx.Register("C24", "unusable", 200, 3000, func(t *rapid.T, c *hx.Case) {
		m, _ := cartData(t, false, func(*rapid.T, []float64) float64 { return 1 })
		wrong := rapid.SampledFrom([]string{"no class", "two classes", "categorical", "binary", "criterion"}).Draw(t, "class")
		attrs := newAttrs(m)
		switch wrong {
		case "categorical":
			m.Cols[m.Class] = hx.Col{Name: "class", Kind: hx.Cat, Labels: []string{"a", "b"}}
			attrs[m.Class] = m.Cols[m.Class].NewAttr()
		case "binary":
			m.Cols[m.Class] = hx.Col{Name: "class", Kind: hx.Bin}
			attrs[m.Class] = m.Cols[m.Class].NewAttr()
		}
		g := m.BuildWith(attrs)
		switch wrong {
		case "no class":
			g.RemoveClassAttribute(attrs[m.Class])
		case "two classes":
			g.AddClassAttribute(attrs[numeric(m)[0]])
		}
		crit := "gini"
		if wrong == "criterion" {
			crit = rapid.SampledFrom([]string{"mse", "", "gin", "mae"}).Draw(t, "criterion")
		}
		c.Describe(true, "%s %s %s", wrong, crit, m)
		tree := trees.NewDecisionTreeClassifier(crit, 2, []int64{0, 1})
		if err := tree.Fit(g); err == nil {
			t.Fatalf("a classifier was fitted to data with: %s", wrong)
		}
		if wrong == "criterion" {
			return
		}
		if err := trees.NewDecisionTreeRegressor("mse", 2).Fit(g); err == nil {
			t.Fatalf("a regressor was fitted to data with: %s", wrong)
		}
	})
}

func classifier(t *rapid.T, c *hx.Case, lopsided bool) {
	labels := rapid.SliceOfNDistinct(rapid.IntRange(-3, 6), 1, 4, rapid.ID[int]).Draw(t, "labels")
	if hx.Rare(t, "manylabels", 60) {
		labels = rapid.SliceOfNDistinct(rapid.IntRange(-300, 600), 5, 20, rapid.ID[int]).Draw(t, "morelabels")
	}
	noisy := rapid.Bool().Draw(t, "noisy")
	m, q := cartData(t, lopsided, func(t *rapid.T, row []float64) float64 {
		s := 0.0
		for _, v := range row {
			s += math.Floor(math.Abs(v))
		}
		i := int(s) % len(labels)
		if lopsided { // a label so rare that dividing its rows hardly lowers the impurity
			i = 0
			if rapid.IntRange(0, 60).Draw(t, "rare") == 0 {
				i = rapid.IntRange(0, len(labels)-1).Draw(t, "label")
			}
		} else if noisy {
			i = rapid.IntRange(0, len(labels)-1).Draw(t, "label")
		}
		return float64(labels[i])
	})
	crit := rapid.SampledFrom([]string{"gini", "entropy", "GINI"}).Draw(t, "criterion")
	depth := rapid.IntRange(-1, 4).Draw(t, "depth")
	given := make([]int64, len(labels))
	for i, l := range labels {
		given[i] = int64(l)
	}
	imp := gini
	if crit == "entropy" {
		imp = entropy
	}
	count := func(rows []int) map[int]int {
		n := map[int]int{}
		for _, r := range rows {
			n[int(m.Rows[r][m.Class])]++
		}
		return n
	}
	ref := &cart{m: m, feats: numeric(m), max: depth,
		loss: func(rows []int) float64 { return imp(count(rows)) },
		leaf: func(rows []int) (out []float64) {
			n, max := count(rows), 0
			for _, k := range n {
				if k > max {
					max = k
				}
			}
			for l, k := range n {
				if k == max {
					out = append(out, float64(l))
				}
			}
			return
		}}
	attrs := newAttrs(m)
	g, how := hx.Wrap(t, m, attrs)
	before := hx.Digest(t, g)
	tree := trees.NewDecisionTreeClassifier(crit, int64(depth), given)
	used := rapid.IntRange(0, 4).Draw(t, "used") == 0
	c.Class(used, "fitted before")
	if used { // on other rows
		if err := tree.Fit(m.Sub(hx.Perm(t, len(m.Rows), "others")[:(len(m.Rows)+1)/2]).BuildWith(attrs)); err != nil {
			t.Fatalf("Fit: %v", err)
		}
	}
	if err := tree.Fit(g); err != nil {
		t.Fatalf("Fit: %v", err)
	}
	_ = tree.String()
	c.Describe(len(m.Rows) > 3 && len(labels) > 1, "%s depth=%d labels=%v %s %s queries %v", crit, depth, labels, how, m, q.Rows)
	for _, x := range []*hx.Table{m, q} {
		xg, _ := hx.Wrap(t, x, attrs)
		p := tree.Predict(xg)
		if len(p) != len(x.Rows) {
			t.Fatalf("%d predictions for %d rows", len(p), len(x.Rows))
		}
		right := 0
		for r, row := range x.Rows {
			if float64(p[r]) == row[m.Class] {
				right++
			}
			if lopsided && r%8 != 0 && row[m.Class] == float64(labels[0]) {
				continue
			}
			ref.memo, ref.work = map[string]map[float64]bool{}, 2000
			if want := ref.predict(every(len(m.Rows)), 0, row); ref.work >= 0 && !has(want, float64(p[r])) {
				t.Fatalf("row %v predicted %d, greedy splitting gives %v", row, p[r], want)
			}
		}
		if acc, err := tree.Evaluate(xg); err != nil || len(x.Rows) > 0 && math.Abs(acc-float64(right)/float64(len(x.Rows))) > eps {
			t.Fatalf("Evaluate gives %v (%v), %d of %d rows are predicted correctly", acc, err, right, len(x.Rows))
		}
	}
	cuts, _ := ref.best(every(len(m.Rows)))
	c.Class(len(cuts) == 1, "unique best split")
	c.Class(ref.work < 0, "too many ties to enumerate")
	c.Class(len(cuts) == 0, "pure or unsplittable")
	if hx.Digest(t, g) != before {
		t.Fatalf("fitting or predicting changed the training grid")
	}
}

var _ base.Attribute
