package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/meta"
	"pgregory.net/rapid"
	"verif/hx"
)

// scorer is a member of a one-vs-all combination: it notes what it is trained
// on and scores rows by a rule of its class and their features.
type scorer struct {
	base.BaseClassifier
	label string
	class string // name of the class attribute
	score func(label, tuple string) float64
	fits  []*seen
	asked []*seen
	fail  error
}

func (s *scorer) Fit(g base.FixedDataGrid) error {
	s.fits = append(s.fits, look(g))
	return nil
}

func (s *scorer) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	k := look(g)
	s.asked = append(s.asked, k)
	if s.fail != nil {
		return nil, s.fail
	}
	if k.bad != "" {
		return nil, fmt.Errorf("%s", k.bad)
	}
	p := base.GeneratePredictionVector(g)
	spec, err := p.GetAttribute(p.AllClassAttributes()[0])
	if err != nil {
		return nil, err
	}
	for r := range k.rows {
		p.Set(spec, r, base.PackFloatToBytes(s.score(s.label, k.features(r, s.class))))
	}
	return p, nil
}

// features is the tuple of a row without the class.
func (s *seen) features(r int, class string) string {
	var x []string
	for i, a := range s.attrs {
		if a.GetName() != class {
			x = append(x, fmt.Sprintf("%s=%x", a.GetName(), s.rows[r][i]))
		}
	}
	sort.Strings(x)
	return strings.Join(x, ";")
}

func (s *scorer) String() string                                            { return "scorer" }
func (s *scorer) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (s *scorer) Save(string) error                                         { return nil }
func (s *scorer) Load(string) error                                         { return nil }
func (s *scorer) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (s *scorer) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

// checkTarget checks a member's grid: all rows in order, features unchanged,
// the class numeric and 1 exactly for the rows of the member's label.
func checkTarget(t *rapid.T, what string, s *seen, m *hx.Table, label int) {
	if s.bad != "" {
		t.Fatalf("%s: %s", what, s.bad)
	}
	cls := m.Cols[m.Class]
	if len(s.attrs) != len(m.Cols) || len(s.rows) != len(m.Rows) {
		t.Fatalf("%s has %d attributes and %d rows, the data %d and %d", what, len(s.attrs), len(s.rows), len(m.Cols), len(m.Rows))
	}
	if len(s.classes) != 1 || s.classes[0].GetName() != cls.Name {
		t.Fatalf("%s has classes %v", what, s.classes)
	}
	if _, ok := s.classes[0].(*base.FloatAttribute); !ok {
		t.Fatalf("%s has class %v, want a float", what, s.classes[0])
	}
	found := map[string]bool{}
	for i, a := range s.attrs {
		found[a.GetName()] = true
		j := -1
		for k, c := range m.Cols {
			if c.Name == a.GetName() {
				j = k
			}
		}
		if j < 0 {
			t.Fatalf("%s has attribute %s", what, a)
		}
		if j != m.Class {
			hx.CheckAttr(t, what, a, m.Cols[j])
		}
		for r := range s.rows {
			want := m.Cols[j].Pack(m.Rows[r][j])
			if j == m.Class {
				want = base.PackFloatToBytes(0)
				if int(m.Rows[r][j]) == label {
					want = base.PackFloatToBytes(1)
				}
			}
			if string(s.rows[r][i]) != string(want) || string(s.mapped[r][i]) != string(want) {
				t.Fatalf("%s: row %d of %s is % x (read) and % x (iterated), want % x", what, r, a.GetName(), s.rows[r][i], s.mapped[r][i], want)
			}
		}
	}
	if len(found) != len(m.Cols) {
		t.Fatalf("%s has attributes %s", what, s.names())
	}
}

func init() {
	hx.Register("C26", "combine", 3000, 100000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 12, MinCols: 1, MaxCols: 4, Kinds: []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MinClass: 2, MaxClass: 5, Big: 300, BigRows: true})
		if hx.Rare(t, "many", 400) { // more classes than a byte counts
			n := rapid.IntRange(257, 300).Draw(t, "classes")
			for i := len(m.Cols[m.Class].Labels); i < n; i++ {
				m.Cols[m.Class].Labels = append(m.Cols[m.Class].Labels, fmt.Sprintf("class %d", i))
			}
			for _, r := range m.Rows {
				r[m.Class] = float64(rapid.IntRange(0, n-1).Draw(t, "class"))
			}
			c.Class(true, "hundreds of classes")
		}
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for n := rapid.IntRange(0, 8).Draw(t, "queries"); n > 0; n-- {
			q.Rows = append(q.Rows, hx.GenRow(t, m, hx.SmallFloat))
		}
		qa := attrs
		if rapid.Bool().Draw(t, "ownattrs") {
			qa = attrsOf(m)
		}
		qg, qhow := hx.Wrap(t, q, qa)
		mode := rapid.IntRange(0, 6).Draw(t, "mode")
		salt := rapid.IntRange(0, 100000).Draw(t, "salt")
		score := func(label, tuple string) float64 {
			h := hash(fmt.Sprintf("%d|%s|%s", salt, label, tuple))
			switch mode {
			case 0: // confidences
				return float64(h%1000) / 999
			case 1: // decisions, often none or several
				return float64(h % 2)
			case 2: // any outputs
				return float64(h%2001-1000) / 7
			case 3: // all negative
				return -1 - float64(h%1000)/10
			case 4: // almost alike
				return 0.5 + float64(h%4)*1e-13
			case 5: // almost nothing, or almost alike and large
				return math.Ldexp(float64(h%5-2)*1e-9, 40*(salt%2*salt%9-5))
			default: // far apart
				return math.Ldexp(float64(h%3-1), h%40-20)
			}
		}
		failAt := ""
		labels := m.Cols[m.Class].Labels
		if rapid.IntRange(0, 11).Draw(t, "fail") == 0 {
			failAt = labels[rapid.IntRange(0, len(labels)-1).Draw(t, "at")]
		}
		var made []*scorer
		o := meta.NewOneVsAllModel(func(l string) base.Classifier {
			s := &scorer{label: l, class: m.Cols[m.Class].Name, score: score}
			if l == failAt {
				s.fail = fmt.Errorf("member %q cannot", l)
			}
			made = append(made, s)
			return s
		})
		c.Describe(len(m.Rows) > 2 && len(q.Rows) > 1, "scores %d/%d, fail %q, train %s %s; query %s %s", mode, salt, failAt, how, m, qhow, q)
		c.Class(failAt != "", "member fails")
		c.Class(len(labels) > 2, "more than two classes")
		before, qbefore := hx.Digest(t, g), hx.Digest(t, qg)
		if rapid.IntRange(0, 3).Draw(t, "refit") == 0 {
			if rapid.Bool().Draw(t, "othercolumns") {
				x := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 14, MinCols: 1, MaxCols: 6, Kinds: []hx.Kind{hx.Float, hx.Cat}, ClassKind: hx.Cat, MinClass: 2, MaxClass: 7})
				o.Fit(x.BuildWith(attrsOf(x)))
			} else {
				o.Fit((&hx.Table{Cols: m.Cols, Class: m.Class, Rows: m.Rows[:1]}).BuildWith(attrsOf(m)))
			}
			c.Class(true, "refit")
			made = nil
		}
		o.Fit(g)
		byLabel := map[string]*scorer{}
		for _, s := range made {
			byLabel[s.label] = s
		}
		if len(made) != len(labels) || len(byLabel) != len(labels) {
			t.Fatalf("%d members were made (%d labels) for classes %q", len(made), len(byLabel), labels)
		}
		for i, l := range labels {
			s := byLabel[l]
			if s == nil {
				t.Fatalf("no member for class %q", l)
			}
			if len(s.fits) != 1 {
				t.Fatalf("the member for %q was trained %d times", l, len(s.fits))
			}
			checkTarget(t, fmt.Sprintf("training grid of %q", l), s.fits[0], m, i)
		}
		for again := 0; again < 2; again++ {
			p, err := o.Predict(qg)
			if failAt != "" {
				if err == nil {
					t.Fatalf("member %q failed to predict, but the combination did not", failAt)
				}
				return
			}
			if err != nil {
				t.Fatalf("%v", err)
			}
			if _, n := p.Size(); n != len(q.Rows) {
				t.Fatalf("prediction has %d rows, the query %d", n, len(q.Rows))
			}
			if cs := p.AllClassAttributes(); len(cs) != 1 || cs[0].GetName() != m.Cols[m.Class].Name {
				t.Fatalf("prediction has classes %v", cs)
			}
			for i, l := range labels {
				if s := byLabel[l]; len(s.asked) != again+1 {
					t.Fatalf("the member for %q was asked %d times in %d predictions", l, len(s.asked), again+1)
				} else {
					checkTarget(t, fmt.Sprintf("query of %q", l), s.asked[again], q, i)
				}
			}
			names := make([]string, len(m.Cols))
			for i, cc := range m.Cols {
				names[i] = cc.Name
			}
			for r, row := range q.Rows {
				tuple := featTuple(m, row, strings.Join(names, ","))
				best := math.Inf(-1)
				for _, l := range labels {
					best = math.Max(best, score(l, tuple))
				}
				if got := base.GetClass(p, r); score(got, tuple) != best {
					var x []string
					for _, l := range labels {
						x = append(x, fmt.Sprintf("%q: %v", l, score(l, tuple)))
					}
					t.Fatalf("row %d is predicted %q with outputs %v", r, got, x)
				}
			}
		}
		if hx.Digest(t, g) != before || hx.Digest(t, qg) != qbefore {
			t.Fatalf("the data changed")
		}
	})

	// clusters along different axes, each separable from the rest by a plane
	// through the origin (the underlying classifier fits no intercept)
	hx.Register("C26", "multisvc", 1200, 100000, func(t *rapid.T, c *hx.Case) {
		k := rapid.IntRange(2, 4).Draw(t, "classes")
		labels := hx.Labels(t, k, "labels")
		d := rapid.IntRange(k, k+1).Draw(t, "features")
		sign := make([]float64, d)
		for i := range sign {
			sign[i] = float64(2*rapid.IntRange(0, 1).Draw(t, "sign") - 1)
		}
		axis := hx.Perm(t, d, "axis")
		m := &hx.Table{Class: d}
		for i := 0; i < d; i++ {
			m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
		}
		m.Cols = append(m.Cols, hx.Col{Name: "class", Kind: hx.Cat, Labels: labels})
		row := func(cl int) []float64 {
			r := make([]float64, d+1)
			for i := 0; i < d; i++ {
				r[i] = float64(rapid.IntRange(-15, 15).Draw(t, "noise")) / 100
			}
			r[axis[cl]] = sign[cl] * float64(rapid.IntRange(8, 24).Draw(t, "far")) / 8
			r[d] = float64(cl)
			return r
		}
		for n := rapid.IntRange(0, 20).Draw(t, "rows"); n > 0; n-- {
			m.Rows = append(m.Rows, row(rapid.IntRange(0, k-1).Draw(t, "class")))
		}
		for cl := 0; cl < 3*k; cl++ {
			m.Rows = append(m.Rows, row(cl%k))
		}
		if p := hx.Perm(t, len(m.Rows), "order"); true {
			m = m.Sub(p)
		}
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		q := &hx.Table{Cols: m.Cols, Class: d}
		var want []int
		for n := rapid.IntRange(1, 8).Draw(t, "queries"); n > 0; n-- {
			cl := rapid.IntRange(0, k-1).Draw(t, "class")
			r := row(cl)
			r[d] = float64(rapid.IntRange(0, k-1).Draw(t, "noclass"))
			q.Rows = append(q.Rows, r)
			want = append(want, cl)
		}
		_ = want
		kind := rapid.IntRange(0, 3).Draw(t, "solver")
		s := [][3]string{{"l1", "l2", "d"}, {"l2", "l2", "d"}, {"l2", "l2", ""}, {"l2", "l1", ""}}[kind]
		var weights map[string]float64
		if rapid.IntRange(0, 2).Draw(t, "weighted") == 0 {
			weights = map[string]float64{}
			for _, l := range labels {
				weights[l] = float64(rapid.IntRange(1, 3).Draw(t, "weight"))
			}
		}
		c.Describe(len(m.Rows) > k+2, "%v, weights %v, train %s %s", s, weights, how, m)
		c.Class(weights != nil, "weighted")
		svc := ensemble.NewMultiLinearSVC(s[0], s[1], s[2] == "d", 50, 1e-4, weights)
		crand := rapid.IntRange(1, 1000).Draw(t, "crand")
		var p base.FixedDataGrid
		var err error
		// three attempts, see the note in linp/c28.go on liblinear's iterations
		for try, good := 0, false; try < 3 && !good; try++ {
			hx.SeedC(crand + try)
			if err = svc.Fit(g); err != nil {
				t.Fatalf("%v", err)
			}
			p, err = svc.Predict(g)
			if err != nil {
				t.Fatalf("%v", err)
			}
			good = true
			for r, row := range m.Rows {
				good = good && base.GetClass(p, r) == labels[int(row[d])]
			}
		}
		for r, row := range m.Rows {
			if got := base.GetClass(p, r); got != labels[int(row[d])] {
				t.Fatalf("training row %d (%v) is predicted %q, it is %q", r, row[:d], got, labels[int(row[d])])
			}
		}
		// a query row may lie outside the hull; one that is a sum of training
		// rows of a class lies on its side of every plane
		for i := range q.Rows {
			cl := want[i]
			sum := make([]float64, d+1)
			for _, r := range m.Rows {
				if int(r[d]) == cl {
					w := float64(rapid.IntRange(0, 4).Draw(t, "w")) / 4
					for j := 0; j < d; j++ {
						sum[j] += w * r[j]
					}
				}
			}
			for _, r := range m.Rows {
				if int(r[d]) == cl {
					for j := 0; j < d; j++ {
						sum[j] += r[j] / 8
					}
					break
				}
			}
			sum[d] = q.Rows[i][d]
			q.Rows[i] = sum
		}
		qg, _ := hx.Wrap(t, q, attrs)
		p, err = svc.Predict(qg)
		if err != nil {
			t.Fatalf("%v", err)
		}
		for r, row := range q.Rows {
			if got := base.GetClass(p, r); got != labels[want[r]] {
				t.Fatalf("row %v, a sum of training rows of %q, is predicted %q", row[:d], labels[want[r]], got)
			}
		}
	})
}
