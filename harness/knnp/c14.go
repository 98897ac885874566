package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/knn"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

func newRand(t *rapid.T) *rand.Rand {
	return rand.New(rand.NewSource(rapid.Int64Range(1, 1<<40).Draw(t, "rng")))
}

// admissible tells whether some choice of the k nearest rows (rows within tol
// of the k-th distance are interchangeable) makes label win the vote.
func admissible(label string, d []float64, labels []string, k int, tol float64, weighted bool) bool {
	idx := make([]int, len(d))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return d[idx[a]] < d[idx[b]] })
	D := d[idx[k-1]]
	w := func(x float64) float64 {
		if !weighted {
			return 1
		}
		if x < 1e-9 {
			return 1e30
		}
		return 1 / x
	}
	sure, edge := map[string]float64{}, map[string]int{}
	m := k
	for _, i := range idx {
		switch {
		case d[i] < D-tol:
			sure[labels[i]] += w(d[i])
			m--
		case d[i] <= D+tol:
			edge[labels[i]]++
		}
	}
	we := w(D)
	mine := edge[label]
	if mine > m {
		mine = m
	}
	score := sure[label] + float64(mine)*we
	if score == 0 {
		return false
	}
	left := m - mine
	slack := 1e-9 * score
	if weighted && (we >= 1e29 || score >= 1e29) {
		// rows at distance zero have unlimited weight: any label having one may win
		slack = score * 1e6
	}
	room := 0
	all := map[string]bool{}
	for l := range sure {
		all[l] = true
	}
	for l := range edge {
		all[l] = true
	}
	for l := range all {
		if l == label {
			continue
		}
		free := score + slack - sure[l]
		if free < 0 {
			return false
		}
		n := int(math.Min(free/we+1e-9, 1e6))
		if n > edge[l] {
			n = edge[l]
		}
		room += n
	}
	return room >= left
}

// groupedDense builds the table with its float features spread over named
// attribute groups.
func groupedDense(t *rapid.T, m *hx.Table, attrs []base.Attribute, groups []int) *base.DenseInstances {
	d := base.NewDenseInstances()
	specs := make([]base.AttributeSpec, len(attrs))
	for i, a := range attrs {
		name := fmt.Sprintf("g%d", groups[i])
		size := 8
		if i == m.Class {
			name = "cls"
		}
		if m.Cols[i].Kind == hx.Bin {
			name, size = "bin", 0
		} else if m.Cols[i].Kind == hx.Cat && i != m.Class {
			name = fmt.Sprintf("cat%d", i)
		}
		if _, err := d.GetAttributeGroup(name); err != nil {
			if err := d.CreateAttributeGroup(name, size); err != nil {
				t.Fatalf("%v", err)
			}
		}
		s, err := d.AddAttributeToAttributeGroup(a, name)
		if err != nil {
			t.Fatalf("%v", err)
		}
		specs[i] = s
	}
	if err := d.AddClassAttribute(attrs[m.Class]); err != nil {
		t.Fatalf("%v", err)
	}
	if err := d.Extend(len(m.Rows)); err != nil {
		t.Fatalf("%v", err)
	}
	for r, row := range m.Rows {
		for i, v := range row {
			d.Set(specs[i], r, m.Cols[i].Pack(v))
		}
	}
	return d
}

func init() {
	hx.Register("C14", "classifier", 3500, 100000, func(t *rapid.T, c *hx.Case) {
		distance := rapid.SampledFrom([]string{"euclidean", "euclidean", "manhattan", "cosine"}).Draw(t, "distance")
		algorithm := rapid.SampledFrom([]string{"linear", "linear", "kdtree"}).Draw(t, "algorithm")
		weighted := rapid.IntRange(0, 2).Draw(t, "weighted") == 0
		optimise := rapid.IntRange(0, 3).Draw(t, "optimise") > 0
		kinds := []hx.Kind{hx.Float}
		if rapid.IntRange(0, 4).Draw(t, "mixed") == 0 {
			kinds = []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin} // only numeric attributes count
		}
		value := hx.SmallFloat
		if rapid.IntRange(0, 5).Draw(t, "nearly") == 0 {
			value = nearly
		} else if rapid.Bool().Draw(t, "spread") {
			value = func(t *rapid.T, n string) float64 {
				return math.Round(rapid.Float64Range(-50, 50).Draw(t, n)*1000) / 1000
			}
		}
		tr := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 15, MinCols: 1, MaxCols: 4, Kinds: kinds, Big: 300,
			ClassKind: rapid.SampledFrom([]hx.Kind{hx.Cat, hx.Cat, hx.Cat, hx.Float, hx.Bin}).Draw(t, "classkind"), MaxClass: 4, Value: value})
		var feats []int
		for i, col := range tr.Cols {
			if col.Kind == hx.Float && i != tr.Class {
				feats = append(feats, i)
			}
		}
		if len(feats) == 0 {
			tr.Cols = append(tr.Cols, hx.Col{Name: "extra", Kind: hx.Float, Prec: 3})
			for r := range tr.Rows {
				tr.Rows[r] = append(tr.Rows[r], value(t, "x"))
			}
			feats = []int{len(tr.Cols) - 1}
		}
		if tr.Cols[tr.Class].Kind == hx.Float {
			for r := range tr.Rows {
				tr.Rows[r][tr.Class] = float64(rapid.IntRange(0, 2).Draw(t, "fc")) / 2
			}
		}
		q := &hx.Table{Cols: tr.Cols, Class: tr.Class}
		nq := rapid.IntRange(1, 5).Draw(t, "queries")
		if hx.Rare(t, "manyqueries", 150) {
			nq = rapid.IntRange(60, 400).Draw(t, "nqueries")
			c.Class(true, "many queries")
		}
		for i := nq; i > 0; i-- {
			row := hx.GenRow(t, tr, value)
			if rapid.IntRange(0, 3).Draw(t, "copy") == 0 {
				row = append([]float64(nil), tr.Rows[rapid.IntRange(0, len(tr.Rows)-1).Draw(t, "of")]...)
			}
			q.Rows = append(q.Rows, row)
		}
		vec := func(row []float64) []float64 {
			var v []float64
			for _, f := range feats {
				v = append(v, row[f])
			}
			return v
		}
		ref := euclid
		switch distance {
		case "manhattan":
			ref = manhattan
		case "cosine":
			ref = cosine
			// no direction: not measurable
			for _, rows := range [][][]float64{tr.Rows, q.Rows} {
				for _, row := range rows {
					if dot(vec(row), vec(row)) == 0 {
						row[feats[0]] = 1
					}
				}
			}
		}
		k := rapid.IntRange(1, len(tr.Rows)).Draw(t, "k")
		attrs := make([]base.Attribute, len(tr.Cols))
		qattrs := make([]base.Attribute, len(tr.Cols))
		same := rapid.Bool().Draw(t, "shared attributes")
		groups := make([]int, len(attrs))
		for i := range attrs {
			attrs[i] = tr.Cols[i].NewAttr()
			qattrs[i] = tr.Cols[i].NewAttr()
			if same {
				qattrs[i] = attrs[i]
			}
			groups[i] = rapid.IntRange(0, 2).Draw(t, "group")
		}
		var train, query base.FixedDataGrid
		var how, qhow string
		if rapid.IntRange(0, 2).Draw(t, "layout") == 0 {
			train, query = groupedDense(t, tr, attrs, groups), groupedDense(t, q, qattrs, groups)
			how, qhow = "grouped", fmt.Sprint(groups)
		} else {
			train, how = hx.Wrap(t, tr, attrs)
			query, qhow = hx.Wrap(t, q, qattrs)
		}
		c.Describe(len(tr.Rows) > 2 && k < len(tr.Rows), "%s %s weighted=%v optimise=%v k=%d train %s: %s; query %s: %s", distance, algorithm, weighted, optimise, k, how, tr, qhow, q)
		c.Class(weighted, "weighted")
		c.Class(true, distance+" "+algorithm)
		c.Class(optimise && distance == "euclidean" && algorithm == "linear" && !weighted && (how == "dense" && qhow == "dense" || how == "grouped"), "optimised path")
		cls := knn.NewKnnClassifier(distance, algorithm, k)
		cls.Weighted = weighted
		cls.AllowOptimisations = optimise
		if rapid.IntRange(0, 4).Draw(t, "used") == 0 { // on other rows, and asked
			c.Class(true, "fitted before")
			o := tr.Sub(hx.Perm(t, len(tr.Rows), "others")[:(len(tr.Rows)+1)/2])
			cls.NearestNeighbours = 1
			if err := cls.Fit(o.BuildWith(attrs)); err != nil {
				t.Fatalf("fit: %v", err)
			}
			if _, err := cls.Predict(o.BuildWith(attrs)); err != nil {
				t.Fatalf("predict: %v", err)
			}
			cls.NearestNeighbours = k
		}
		if err := cls.Fit(train); err != nil {
			t.Fatalf("fit: %v", err)
		}
		p, err := cls.Predict(query)
		if err != nil {
			t.Fatalf("predict: %v", err)
		}
		if _, n := p.Size(); n != len(q.Rows) {
			t.Fatalf("%d predictions for %d rows", n, len(q.Rows))
		}
		labels := make([]string, len(tr.Rows))
		for r, row := range tr.Rows {
			labels[r] = tr.Cols[tr.Class].Str(row[tr.Class])
		}
		for r, row := range q.Rows {
			d := make([]float64, len(tr.Rows))
			max := 0.0
			for i := range tr.Rows {
				d[i] = ref(vec(tr.Rows[i]), vec(row))
				max = math.Max(max, d[i])
			}
			tol := 1e-9
			if distance == "cosine" {
				tol = 1e-11
			}
			got := base.GetClass(p, r)
			if admissible(got, d, labels, k, tol, weighted) {
				continue
			}
			t.Fatalf("%s %s weighted=%v optimise=%v k=%d: row %d %v predicted %q\ndistances %v\nlabels %q", distance, algorithm, weighted, optimise, k, r, vec(row), got, d, labels)
		}
		cls.NearestNeighbours = len(tr.Rows) + 1
		if _, err := cls.Predict(query); err == nil {
			t.Fatalf("%d neighbours of %d training rows were found", len(tr.Rows)+1, len(tr.Rows))
		}
	})

	hx.Register("C14", "unusable", 200, 3000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 4, MinCols: 1, MaxCols: 3, Kinds: []hx.Kind{hx.Float}, ClassKind: hx.Cat})
		g, _ := m.Build()
		kind := rapid.SampledFrom([]string{"distance", "algorithm", "attributes"}).Draw(t, "kind")
		c.Describe(true, "%s: %s", kind, m)
		cls := knn.NewKnnClassifier("euclidean", "linear", 1)
		q := g
		switch kind {
		case "distance":
			cls.DistanceFunc = rapid.StringMatching(`[a-d]{0,5}`).Draw(t, "d")
		case "algorithm":
			cls.Algorithm = rapid.StringMatching(`[a-d]{0,5}`).Draw(t, "a")
		default:
			o := &hx.Table{Cols: append([]hx.Col(nil), m.Cols...), Class: m.Class, Rows: m.Rows}
			i := rapid.IntRange(0, len(o.Cols)-1).Draw(t, "i")
			o.Cols[i].Name += "z"
			q, _ = o.Build()
		}
		if err := cls.Fit(g); err != nil {
			t.Fatalf("%v", err)
		}
		if _, err := cls.Predict(q); err == nil {
			t.Fatalf("predicted with an unusable %s", kind)
		}
	})

	hx.Register("C14", "regressor", 3000, 60000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 12).Draw(t, "n")
		dims := rapid.IntRange(1, 4).Draw(t, "dims")
		if hx.Rare(t, "larger", 60) {
			n = rapid.IntRange(20, 80).Draw(t, "many")
			dims = rapid.IntRange(1, 40).Draw(t, "manydims")
			c.Class(true, "many points")
		}
		distance := rapid.SampledFrom([]string{"euclidean", "manhattan"}).Draw(t, "distance")
		ref := euclid
		if distance == "manhattan" {
			ref = manhattan
		}
		k := rapid.IntRange(1, n).Draw(t, "k")
		pts := genPoints(t, n+1, dims)
		query := pts[n]
		pts = pts[:n]
		var numbers []float64
		values := make([]float64, n)
		for i, p := range pts {
			numbers = append(numbers, p...)
			values[i] = float64(rapid.IntRange(-20, 20).Draw(t, "value"))
		}
		c.Describe(n > 2 && k < n, "%s k=%d %v -> %v at %v", distance, k, pts, values, query)
		r := knn.NewKnnRegressor(distance)
		if rapid.IntRange(0, 4).Draw(t, "used") == 0 { // on one point, of other width
			c.Class(true, "fitted before")
			r.Fit([]float64{77}, make([]float64, dims+1), 1, dims+1)
		}
		r.Fit(append([]float64(nil), values...), numbers, n, dims)
		got := r.Predict(mat.NewDense(1, dims, append([]float64(nil), query...)), k)
		d := make([]float64, n)
		for i := range pts {
			d[i] = ref(pts[i], query)
		}
		s := append([]float64(nil), d...)
		sort.Float64s(s)
		D := s[k-1]
		// sums reachable with j rows
		sums := map[[2]int]bool{{0, 0}: true}
		for pass := 0; pass < 2; pass++ {
			for i := range d {
				sure := d[i] < D-1e-9
				if sure != (pass == 0) || d[i] > D+1e-9 {
					continue
				}
				next := map[[2]int]bool{}
				for x := range sums {
					if !sure {
						next[x] = true
					}
					if x[0] < k {
						next[[2]int{x[0] + 1, x[1] + int(values[i])}] = true
					}
				}
				sums = next
			}
		}
		for x := range sums {
			if x[0] == k && near(got, float64(x[1])/float64(k), 1e-9, 1e-9) {
				return
			}
		}
		t.Fatalf("%s k=%d at %v predicts %v; points %v values %v distances %v", distance, k, query, got, pts, values, d)
	})
}
