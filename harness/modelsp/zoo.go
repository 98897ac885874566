package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/neural"
	"github.com/sjwhitworth/golearn/perceptron"
	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

// saver is what can be saved.
type saver interface {
	Save(string) error
	Load(string) error
}

// model is a trainable thing with data that suits it.
type model struct {
	name    string // family
	how     string // configuration
	m       *hx.Table
	value   func(*rapid.T, string) float64
	fit     func(base.FixedDataGrid) error
	predict func(base.FixedDataGrid) (base.FixedDataGrid, error)
	plain   func(base.FixedDataGrid) []float64 // instead of predict
	byName  bool                               // columns are found by attribute
	rounded bool                               // sums of values depend on their order
	chance  bool                               // training depends on chance
	// saveable models only
	save   saver
	fresh  func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error))
	config func(saver) string // the configuration a loaded model shows
	refit  func(saver, base.FixedDataGrid) error
}

// classifier fills in the functions of a base.Classifier.
func (m *model) classifier(c base.Classifier, fresh func() base.Classifier) {
	m.fit, m.predict = c.Fit, c.Predict
	m.save = c
	m.fresh = func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error)) {
		f := fresh()
		return f, f.Predict
	}
	m.refit = func(s saver, g base.FixedDataGrid) error { return s.(base.Classifier).Fit(g) }
}

// answers reads predictions row by row: labels, or the bits of numbers.
func (m *model) answers(t hx.TB, g base.FixedDataGrid) []string {
	return m.answersOf(t, m.predict, g)
}

func bits(v float64) string {
	if v != v {
		return "NaN"
	}
	return fmt.Sprintf("%v", v+0) // zero of either sign
}

func (m *model) answersOf(t hx.TB, predict func(base.FixedDataGrid) (base.FixedDataGrid, error), g base.FixedDataGrid) []string {
	_, rows := g.Size()
	if m.plain != nil {
		var out []string
		for _, v := range m.plain(g) {
			out = append(out, bits(v))
		}
		if len(out) != rows {
			t.Fatalf("%s: %d predictions for %d rows", m.how, len(out), rows)
		}
		return out
	}
	p, err := predict(g)
	if err != nil {
		t.Fatalf("%s: predicting failed: %v", m.how, err)
	}
	return m.read(t, p, rows)
}

// read checks the shape of predictions and lists them.
func (m *model) read(t hx.TB, p base.FixedDataGrid, rows int) []string {
	if _, n := p.Size(); n != rows {
		t.Fatalf("%s: %d predictions for %d rows", m.how, n, rows)
	}
	cl := p.AllClassAttributes()
	want := m.m.Cols[m.m.Class]
	if len(cl) != 1 || cl[0].GetName() != want.Name {
		t.Fatalf("%s: the predictions have the classes %v, want %q", m.how, cl, want.Name)
	}
	hx.CheckAttr(t, m.how, cl[0], want)
	if c, ok := cl[0].(*base.CategoricalAttribute); ok && fmt.Sprintf("%q", c.GetValues()) != fmt.Sprintf("%q", want.Labels) {
		t.Fatalf("%s: the predicted class has the labels %q, want %q", m.how, c.GetValues(), want.Labels)
	}
	spec, err := p.GetAttribute(cl[0])
	if err != nil {
		t.Fatalf("%v", err)
	}
	var out []string
	for r := 0; r < rows; r++ {
		switch b := p.Get(spec, r); want.Kind {
		case hx.Float:
			out = append(out, bits(base.UnpackBytesToFloat(b)))
		case hx.Cat:
			if v := base.UnpackBytesToU64(b); v >= uint64(len(want.Labels)) {
				t.Fatalf("%s: row %d is predicted as value %d of %q", m.how, r, v, want.Labels)
			}
			fallthrough
		default:
			out = append(out, base.GetClass(p, r))
		}
	}
	return out
}

func feats(m *hx.Table) (out []int) {
	for i := range m.Cols {
		if i != m.Class {
			out = append(out, i)
		}
	}
	return
}

func floatFeats(m *hx.Table) (out []int) {
	for _, i := range feats(m) {
		if m.Cols[i].Kind == hx.Float {
			out = append(out, i)
		}
	}
	return
}

func decimals(t *rapid.T, n string) float64 {
	return float64(rapid.IntRange(-9999, 9999).Draw(t, n)) / 1000
}

// touching numbers lie so close together that single precision cannot tell
// them apart.
func touching(t *rapid.T, n string) float64 {
	v := rapid.SampledFrom([]float64{0.1, 1, -3.7, 1e6}).Draw(t, n)
	for i := rapid.IntRange(0, 3).Draw(t, n+"-ulps"); i > 0; i-- {
		v = math.Nextafter(v, math.Inf(1))
	}
	return v
}

func rule(t *rapid.T) (trees.RuleGenerator, string) {
	switch rapid.IntRange(0, 2).Draw(t, "rule") {
	case 0:
		return new(trees.InformationGainRuleGenerator), "gain"
	case 1:
		return new(trees.GiniCoefficientRuleGenerator), "gini"
	}
	return new(trees.InformationGainRatioRuleGenerator), "ratio"
}

// families of models; the first savable ones can be saved.
var families = []string{"knn", "id3", "random tree", "forest", "naive bayes", "svc", "multi svc", "one-vs-all", "bag",
	"logistic", "regression", "perceptron", "network", "cart", "cart regression", "isolation"}

const savable = 9

var mixed = []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin}

func newKNN(t *rapid.T, rows int) (func() *knn.KNNClassifier, string) {
	d := rapid.SampledFrom([]string{"euclidean", "euclidean", "manhattan", "cosine"}).Draw(t, "distance")
	a := rapid.SampledFrom([]string{"linear", "linear", "kdtree"}).Draw(t, "algorithm")
	k := rapid.IntRange(1, rows).Draw(t, "k")
	w := rapid.IntRange(0, 3).Draw(t, "weighted") == 0
	o := rapid.IntRange(0, 3).Draw(t, "optimise") > 0
	return func() *knn.KNNClassifier {
		c := knn.NewKnnClassifier(d, a, k)
		c.Weighted, c.AllowOptimisations = w, o
		return c
	}, fmt.Sprintf("knn %s %s k=%d weighted=%v optimise=%v", d, a, k, w, o)
}

func svcParams(t *rapid.T) ([2]string, bool, float64) {
	k := rapid.IntRange(0, 3).Draw(t, "solver")
	return [][2]string{{"l1", "l2"}, {"l2", "l2"}, {"l2", "l2"}, {"l2", "l1"}}[k], k < 2, rapid.SampledFrom([]float64{0.3, 1, 7.7}).Draw(t, "C")
}

// noZeroRows keeps cosine distances defined.
func noZeroRows(m *hx.Table) {
	for _, r := range m.Rows {
		z, at := true, -1
		for _, i := range feats(m) {
			if m.Cols[i].Kind == hx.Float {
				z = z && r[i] == 0
				at = i
			}
		}
		if z && at >= 0 {
			r[at] = 1
		}
	}
}

// noZeroCells keeps cosine distances of any columns defined.
func noZeroCells(m *hx.Table) {
	for _, r := range m.Rows {
		for _, i := range feats(m) {
			if m.Cols[i].Kind == hx.Float && r[i] == 0 {
				r[i] = 1
			}
		}
	}
}

// exact tells whether a kNN classifier measures the same distances whatever
// the order of columns, and settles ties by row.
func (m *model) exact(how string) bool {
	return !m.rounded && !strings.Contains(how, "cosine") && !strings.Contains(how, "kdtree")
}

// draw makes a model of a family and its training data.
func draw(t *rapid.T, family string) *model {
	m := &model{name: family, how: family, byName: true, value: hx.SmallFloat}
	switch rapid.IntRange(0, 5).Draw(t, "values") {
	case 0, 1:
		m.value = decimals
		m.rounded = true
	case 2:
		m.value = touching
		m.rounded = true
	}
	opts := hx.Opts{MinRows: 1, MaxRows: 14, MinCols: 1, MaxCols: 4, Kinds: mixed, ClassKind: hx.Cat, MinClass: 1, MaxClass: 4, Value: m.value, Big: 60, BigRows: true}
	switch {
	case hx.Rare(t, "many labels", 30):
		opts.MinClass, opts.MaxClass, opts.MinRows, opts.MaxRows = 6, 20, 12, 40
	case hx.Rare(t, "many columns", 30):
		opts.MinCols, opts.MaxCols, opts.MinRows, opts.MaxRows = 6, 18, 24, 40
	}
	addFloat := func() { // at least one numeric column
		for _, i := range feats(m.m) {
			if m.m.Cols[i].Kind == hx.Float {
				return
			}
		}
		m.m.Cols = append(m.m.Cols, hx.Col{Name: "extra", Kind: hx.Float, Prec: 3})
		for r := range m.m.Rows {
			m.m.Rows[r] = append(m.m.Rows[r], m.value(t, "x"))
		}
	}
	switch family {
	case "knn":
		m.m = hx.GenTable(t, opts)
		addFloat()
		noZeroRows(m.m)
		mk, how := newKNN(t, len(m.m.Rows))
		m.how = how
		m.byName = m.exact(how)
		m.classifier(mk(), func() base.Classifier { return &knn.KNNClassifier{} })
		m.config = func(s saver) string {
			k := s.(*knn.KNNClassifier)
			return fmt.Sprintln(k.DistanceFunc, k.Algorithm, k.NearestNeighbours, k.Weighted, k.AllowOptimisations)
		}
	case "id3":
		m.m = hx.GenTable(t, opts)
		r, how := rule(t)
		prune := 0.0
		if len(m.m.Rows) > 4 && rapid.Bool().Draw(t, "prune") {
			prune = 0.4
			// enough rows for the split to leave some to learn from
			for i := 0; len(m.m.Rows) < 30; i++ {
				m.m.Rows = append(m.m.Rows, append([]float64{}, m.m.Rows[i]...))
			}
		}
		m.how = fmt.Sprintf("id3 %s prune %v", how, prune)
		tree := trees.NewID3DecisionTreeFromRule(prune, r)
		m.classifier(tree, func() base.Classifier { return trees.NewID3DecisionTreeFromRule(prune, r) })
		m.config = func(s saver) string { return s.(*trees.ID3DecisionTree).String() }
		m.refit = nil
		if prune == 0 && rapid.IntRange(0, 3).Draw(t, "node") == 0 {
			// the same tree without a classifier around it
			m.how = "node of " + m.how
			node := &trees.DecisionTreeNode{}
			m.fit = func(g base.FixedDataGrid) error {
				*node = *trees.InferID3Tree(g, r)
				return nil
			}
			m.save, m.predict = node, node.Predict
			used := len(m.m.Rows) > 1 && rapid.Bool().Draw(t, "used node")
			m.fresh = func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error)) {
				n := &trees.DecisionTreeNode{}
				if used {
					g, _ := m.m.Sub([]int{len(m.m.Rows) - 1, 0}).Build()
					n = trees.InferID3Tree(g, r)
				}
				return n, n.Predict
			}
			m.config = func(s saver) string { return s.(*trees.DecisionTreeNode).String() }
		}
	case "random tree":
		m.m = hx.GenTable(t, opts)
		n := rapid.IntRange(1, len(feats(m.m))).Draw(t, "consider")
		m.how = fmt.Sprintf("random tree %d", n)
		m.classifier(trees.NewRandomTree(n), func() base.Classifier { return trees.NewRandomTree(n) })
		m.config = func(s saver) string { return s.(*trees.RandomTree).String() }
		m.refit = nil
	case "forest":
		m.m = hx.GenTable(t, opts)
		n := rapid.IntRange(1, 6).Draw(t, "size")
		if hx.Rare(t, "large", 7+1) {
			n = rapid.IntRange(10, 21).Draw(t, "n")
		}
		f := rapid.IntRange(1, len(feats(m.m))).Draw(t, "features")
		m.how = fmt.Sprintf("forest %d %d", n, f)
		other := rapid.SampledFrom([][2]int{{n, f}, {n, f}, {1, 1}, {7, 2}, {0, 0}}).Draw(t, "loader")
		m.chance = true
		m.classifier(ensemble.NewRandomForest(n, f), func() base.Classifier { return ensemble.NewRandomForest(other[0], other[1]) })
		m.config = func(s saver) string {
			r := s.(*ensemble.RandomForest)
			return fmt.Sprintln(r.ForestSize, r.Features, len(r.Model.Models), r.Model.RandomFeatures, r)
		}
	case "naive bayes":
		opts.Kinds = []hx.Kind{hx.Bin}
		opts.MaxCols = 10
		opts.ClassKind = rapid.SampledFrom([]hx.Kind{hx.Cat, hx.Cat, hx.Bin}).Draw(t, "classkind")
		m.m = hx.GenTable(t, opts)
		m.classifier(naive.NewBernoulliNBClassifier(), func() base.Classifier { return naive.NewBernoulliNBClassifier() })
	case "svc", "logistic", "multi svc":
		opts.Kinds = []hx.Kind{hx.Float}
		if rapid.IntRange(0, 3).Draw(t, "tags") == 0 {
			opts.Kinds = mixed
		}
		opts.MinRows = max(opts.MinRows, 4)
		if family != "multi svc" {
			opts.ClassKind = hx.Float
		}
		opts.MinClass = 2
		m.m = hx.GenTable(t, opts)
		addFloat()
		for i, r := range m.m.Rows {
			if family != "multi svc" {
				r[m.m.Class] = float64(i % 2)
			} else {
				r[m.m.Class] = float64(i % len(m.m.Cols[m.m.Class].Labels))
			}
		}
		s, dual, C := svcParams(t)
		m.how = fmt.Sprint(family, s, dual, C)
		m.byName = false
		switch family {
		case "logistic":
			l, err := linear_models.NewLogisticRegression(s[1], C, 1e-3)
			if err != nil {
				t.Fatalf("%v", err)
			}
			m.fit, m.predict = l.Fit, l.Predict
		case "svc":
			p := &linear_models.LinearSVCParams{C: C, Eps: 1e-3, Dual: dual}
			if err := p.SetKindFromStrings(s[0], s[1]); err != nil {
				t.Fatalf("%v", err)
			}
			if rapid.Bool().Draw(t, "weights") {
				p.ClassWeights = []float64{1, 2.5}
			}
			l, err := linear_models.NewLinearSVCFromParams(p)
			if err != nil {
				t.Fatalf("%v", err)
			}
			m.classifier(l, func() base.Classifier { return &linear_models.LinearSVC{} })
			m.config = func(s saver) string { return fmt.Sprintf("%+v", *s.(*linear_models.LinearSVC).Param) }
		default:
			var w map[string]float64
			if rapid.Bool().Draw(t, "weights") {
				w = map[string]float64{}
				for i, l := range m.m.Cols[m.m.Class].Labels {
					w[l] = float64(i) + 0.5
				}
			}
			c := ensemble.NewMultiLinearSVC(s[0], s[1], dual, C, 1e-3, w)
			m.fit, m.predict, m.save = c.Fit, c.Predict, c
			m.fresh = func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error)) {
				c := &ensemble.MultiLinearSVC{}
				return c, c.Predict
			}
			m.refit = func(s saver, g base.FixedDataGrid) error { return s.(*ensemble.MultiLinearSVC).Fit(g) }
		}
	case "one-vs-all":
		opts.Kinds = []hx.Kind{hx.Float}
		opts.MinRows, opts.MinClass = max(opts.MinRows, 4), 2
		if hx.Rare(t, "large", 7+1) {
			opts.MinClass, opts.MaxClass, opts.MinRows, opts.MaxRows = 10, 18, 18, 24
		}
		m.m = hx.GenTable(t, opts)
		noZeroRows(m.m)
		for i, r := range m.m.Rows {
			r[m.m.Class] = float64(i % len(m.m.Cols[m.m.Class].Labels))
		}
		var mk func() base.Classifier
		switch rapid.IntRange(0, 3).Draw(t, "member") {
		case 0:
			f, how := newKNN(t, len(m.m.Rows))
			mk = func() base.Classifier { return f() }
			m.how = "one-vs-all " + how
			m.byName = m.exact(how)
		case 1:
			mk = func() base.Classifier { return trees.NewID3DecisionTree(0) }
			m.how = "one-vs-all id3"
		case 2:
			n := rapid.IntRange(1, len(feats(m.m))).Draw(t, "consider")
			mk = func() base.Classifier { return ensemble.NewRandomForest(3, n) }
			m.how = fmt.Sprintf("one-vs-all forest 3 %d", n)
		default:
			m.byName = false
			s, dual, C := svcParams(t)
			mk = func() base.Classifier {
				c, err := linear_models.NewLinearSVC(s[0], s[1], dual, C, 1e-3)
				if err != nil {
					panic(err)
				}
				return c
			}
			m.how = fmt.Sprint("one-vs-all svc ", s, dual, C)
		}
		newOVA := func() *meta.OneVsAllModel {
			return meta.NewOneVsAllModel(func(string) base.Classifier { return mk() })
		}
		c := newOVA()
		m.fit = func(g base.FixedDataGrid) error { c.Fit(g); return nil }
		m.predict, m.save = c.Predict, c
		m.fresh = func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error)) {
			c := newOVA()
			return c, c.Predict
		}
	case "bag":
		n := rapid.IntRange(1, 5).Draw(t, "members")
		if hx.Rare(t, "large", 7+1) {
			n = rapid.IntRange(10, 21).Draw(t, "n")
		}
		kind := rapid.IntRange(0, 3).Draw(t, "member")
		switch kind {
		case 0:
			opts.Kinds = []hx.Kind{hx.Float}
		case 1:
			opts.Kinds = []hx.Kind{hx.Bin}
		}
		m.m = hx.GenTable(t, opts)
		if kind == 0 {
			noZeroCells(m.m)
		}
		nf := rapid.IntRange(0, len(feats(m.m))).Draw(t, "features")
		var mk []func() base.Classifier
		m.how = fmt.Sprintf("bag of %d, %d features:", n, nf)
		for i := 0; i < n; i++ {
			switch kind {
			case 0:
				f, how := newKNN(t, len(m.m.Rows))
				mk = append(mk, func() base.Classifier { return f() })
				m.how += " " + how
				m.byName = m.byName && m.exact(how)
			case 1:
				mk = append(mk, func() base.Classifier { return naive.NewBernoulliNBClassifier() })
				m.how += " naive bayes"
			case 2:
				mk = append(mk, func() base.Classifier { return trees.NewRandomTree(1) })
				m.how += " random tree"
			default:
				mk = append(mk, func() base.Classifier { return trees.NewID3DecisionTree(0) })
				m.how += " id3"
			}
		}
		newBag := func() *meta.BaggedModel {
			b := &meta.BaggedModel{RandomFeatures: nf}
			for _, f := range mk {
				b.AddModel(f())
			}
			return b
		}
		c := newBag()
		m.fit = func(g base.FixedDataGrid) error { c.Fit(g); return nil }
		m.predict, m.save = c.Predict, c
		m.fresh = func() (saver, func(base.FixedDataGrid) (base.FixedDataGrid, error)) {
			c := newBag()
			c.RandomFeatures = 0
			return c, c.Predict
		}
		m.config = func(s saver) string {
			b := s.(*meta.BaggedModel)
			return fmt.Sprintln(b.RandomFeatures, len(b.Models))
		}
	case "regression":
		opts.ClassKind, opts.MinRows = hx.Float, max(opts.MinRows, 6)
		m.m = hx.GenTable(t, opts)
		addFloat()
		l := linear_models.NewLinearRegression()
		m.fit, m.predict = l.Fit, l.Predict
	case "perceptron":
		opts.MinClass, opts.MaxClass = 2, 2
		opts.MinRows = max(opts.MinRows, 2)
		m.m = hx.GenTable(t, opts)
		addFloat()
		n := 0
		for _, i := range feats(m.m) {
			if m.m.Cols[i].Kind == hx.Float {
				n++
			}
		}
		p := perceptron.NewAveragePerceptron(n, rapid.SampledFrom([]float64{0.1, 0.5}).Draw(t, "rate"), rapid.SampledFrom([]float64{0, 0.5}).Draw(t, "threshold"), 0.1)
		m.fit = func(g base.FixedDataGrid) error { p.Fit(g); return nil }
		m.predict = func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return p.Predict(g), nil }
	case "network":
		opts.MinClass = 2
		if rapid.IntRange(0, 2).Draw(t, "numeric class") == 0 {
			opts.ClassKind = hx.Float
		}
		m.m = hx.GenTable(t, opts)
		names := map[string]bool{}
		for _, c := range m.m.Cols {
			for _, l := range append([]string{""}, c.Labels...) {
				n := c.Name + "_" + l
				if names[n] {
					t.Skip()
				}
				names[n] = true
			}
		}
		hidden := rapid.SliceOfN(rapid.IntRange(1, 3), 0, 2).Draw(t, "hidden")
		n := neural.NewMultiLayerNet(hidden)
		n.MaxIterations = rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "iterations")
		n.Convergence = 0
		m.how = fmt.Sprint("network ", hidden, " ", n.MaxIterations)
		m.fit = func(g base.FixedDataGrid) error { n.Fit(g); return nil }
		m.predict = func(g base.FixedDataGrid) (base.FixedDataGrid, error) { return n.Predict(g), nil }
	case "cart", "cart regression":
		opts.Kinds, opts.ClassKind = []hx.Kind{hx.Float}, hx.Float
		m.m = hx.GenTable(t, opts)
		m.byName = false
		depth := rapid.SampledFrom([]int64{-1, 1, 2, 4}).Draw(t, "depth")
		if family == "cart" {
			for i, r := range m.m.Rows {
				r[m.m.Class] = float64(i % 3)
			}
			crit := rapid.SampledFrom([]string{trees.GINI, trees.ENTROPY}).Draw(t, "criterion")
			m.how = fmt.Sprint("cart ", crit, depth)
			c := trees.NewDecisionTreeClassifier(crit, depth, []int64{0, 1, 2})
			m.fit = c.Fit
			m.plain = func(g base.FixedDataGrid) (out []float64) {
				for _, v := range c.Predict(g) {
					out = append(out, float64(v))
				}
				return
			}
		} else {
			crit := rapid.SampledFrom([]string{trees.MSE, trees.MAE}).Draw(t, "criterion")
			m.how = fmt.Sprint("cart regression ", crit, depth)
			c := trees.NewDecisionTreeRegressor(crit, depth)
			m.fit = c.Fit
			m.plain = c.Predict
		}
	case "isolation":
		opts.Kinds, opts.ClassKind, opts.MinRows = []hx.Kind{hx.Float}, hx.Float, max(opts.MinRows, 2)
		m.m = hx.GenTable(t, opts)
		m.byName = false
		n := rapid.IntRange(1, 5).Draw(t, "trees")
		sub := rapid.IntRange(2, len(m.m.Rows)).Draw(t, "subspace")
		f := trees.NewIsolationForest(n, rapid.IntRange(1, 6).Draw(t, "depth"), sub)
		m.how = fmt.Sprintf("isolation %d of %d", n, sub)
		m.fit = func(g base.FixedDataGrid) error { f.Fit(g); return nil }
		m.plain = f.Predict
	}
	return m
}

// queries draws rows to predict, some from the training data.
func (m *model) queries(t *rapid.T, max int) *hx.Table {
	q := &hx.Table{Cols: m.m.Cols, Class: m.m.Class}
	for i := rapid.IntRange(1, max).Draw(t, "queries"); i > 0; i-- {
		r := hx.GenRow(t, m.m, m.value)
		if rapid.IntRange(0, 2).Draw(t, "seen") == 0 {
			r = append([]float64{}, m.m.Rows[rapid.IntRange(0, len(m.m.Rows)-1).Draw(t, "row")]...)
		} else if m.m.Cols[m.m.Class].Kind == hx.Float {
			r[m.m.Class] = float64(rapid.IntRange(0, 1).Draw(t, "class"))
		}
		if n := len(q.Rows); n > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
			// much like another query: some values changed or exchanged
			near := append([]float64{}, q.Rows[rapid.IntRange(0, n-1).Draw(t, "like")]...)
			if fl := floatFeats(m.m); len(fl) > 1 && rapid.Bool().Draw(t, "exchange") {
				i, j := rapid.SampledFrom(fl).Draw(t, "i"), rapid.SampledFrom(fl).Draw(t, "j")
				near[i], near[j] = near[j], near[i]
			} else if fe := feats(m.m); len(fe) > 0 {
				i := rapid.SampledFrom(fe).Draw(t, "i")
				near[i] = r[i]
			}
			r = near
		}
		if !strings.Contains(m.how, "knn") && rapid.IntRange(0, 5).Draw(t, "wild") == 0 {
			// values which swallow the others in any sum
			for _, i := range floatFeats(m.m) {
				if rapid.Bool().Draw(t, "huge") {
					r[i] = rapid.SampledFrom([]float64{1e18, -1e18, 1e150, 1e-150}).Draw(t, "v")
				}
			}
		}
		q.Rows = append(q.Rows, r)
	}
	if m.name == "bag" {
		noZeroCells(q)
	}
	noZeroRows(q)
	return q
}

// train fits the model, and tells how.
func (m *model) train(t *rapid.T) (base.FixedDataGrid, []base.Attribute, string) {
	attrs := m.m.Attrs()
	g, how := hx.Wrap(t, m.m, attrs)
	rand.Seed(rapid.Int64Range(1, 1<<40).Draw(t, "seed"))
	hx.SeedC(rapid.IntRange(1, 1000).Draw(t, "crand"))
	before := hx.Digest(t, g)
	failed, why := refused(func() error { return m.fit(g) })
	if failed {
		t.Fatalf("%s: fitting %s failed: %s", m.how, how, why)
	}
	if hx.Digest(t, g) != before {
		t.Fatalf("%s: fitting changed the training grid", m.how)
	}
	return g, attrs, how
}

func refused(fn func() error) (r bool, how string) {
	defer func() {
		if e := recover(); e != nil {
			r, how = true, fmt.Sprint("panic: ", e)
		}
	}()
	if err := fn(); err != nil {
		return true, err.Error()
	}
	return false, ""
}
