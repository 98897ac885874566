package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

// seen is a grid as a member saw it, read inside the member's goroutine.
type seen struct {
	attrs   []base.Attribute
	classes []base.Attribute
	rows    [][][]byte // by single reads
	mapped  [][][]byte // by iteration
	bad     string
}

// collector turns the helpers' complaints into text (they run in goroutines
// which must not end the case).
type collector struct{ bad string }

func (c *collector) Fatalf(f string, a ...interface{}) {
	panic(fmt.Sprintf(f, a...))
}

func look(g base.FixedDataGrid) (s *seen) {
	s = &seen{}
	defer func() {
		if e := recover(); e != nil {
			s.bad = fmt.Sprint(e)
		}
	}()
	c := &collector{}
	s.attrs = g.AllAttributes()
	s.classes = g.AllClassAttributes()
	s.rows = hx.CellsByGet(c, g, s.attrs)
	s.mapped = hx.CellsByMap(c, g, s.attrs)
	if n, _ := g.Size(); n != len(s.attrs) {
		s.bad = fmt.Sprintf("size says %d attributes, %d are listed", n, len(s.attrs))
	}
	return
}

func (s *seen) names() string {
	var x []string
	for _, a := range s.attrs {
		x = append(x, a.GetName())
	}
	sort.Strings(x)
	return strings.Join(x, ",")
}

// tuple is a row restricted to the attributes seen (by name).
func (s *seen) tuple(r int) string {
	var x []string
	for i, a := range s.attrs {
		x = append(x, fmt.Sprintf("%s=%x", a.GetName(), s.rows[r][i]))
	}
	sort.Strings(x)
	return strings.Join(x, ";")
}

// rowTuple is the same of a row of the model table.
func rowTuple(m *hx.Table, row []float64, names string) string {
	var x []string
	in := map[string]bool{}
	for _, n := range strings.Split(names, ",") {
		in[n] = true
	}
	for i, c := range m.Cols {
		if in[c.Name] {
			x = append(x, fmt.Sprintf("%s=%x", c.Name, c.Pack(row[i])))
		}
	}
	sort.Strings(x)
	return strings.Join(x, ";")
}

// featTuple is a row's tuple without the class.
func featTuple(m *hx.Table, row []float64, names string) string {
	var keep []string
	for _, n := range strings.Split(names, ",") {
		if n != m.Cols[m.Class].Name {
			keep = append(keep, n)
		}
	}
	return rowTuple(m, row, strings.Join(keep, ","))
}

func hash(s string) int {
	h := fnv.New32a()
	h.Write([]byte(s))
	return int(h.Sum32() >> 1)
}

// member is a classifier that notes its training grid and predicts by a hash
// of its number and the features it is asked about.
type member struct {
	base.BaseClassifier
	id     int
	m      *hx.Table
	own    bool // predict with its own class attribute, labels in reverse
	bias   int
	fail   error
	fits   []*seen
	asked  []*seen
	broken string
}

func (b *member) Fit(g base.FixedDataGrid) error {
	b.fits = append(b.fits, look(g))
	return nil
}

// vote is the label code for a row with the given feature tuple.
func (b *member) vote(tuple string) int {
	k := len(b.m.Cols[b.m.Class].Labels)
	h := hash(fmt.Sprintf("%d|%s", b.id, tuple))
	if h%4 < b.bias {
		return hash(tuple) % k
	}
	return (h / 4) % k
}

func (b *member) Predict(g base.FixedDataGrid) (base.FixedDataGrid, error) {
	s := look(g)
	b.asked = append(b.asked, s)
	if b.fail != nil {
		return nil, b.fail
	}
	if s.bad != "" {
		return nil, errors.New(s.bad)
	}
	class := b.m.Cols[b.m.Class]
	var p base.UpdatableDataGrid
	if b.own {
		c := class
		c.Labels = nil
		for i := range class.Labels {
			c.Labels = append(c.Labels, class.Labels[len(class.Labels)-1-i])
		}
		sub := &hx.Table{Cols: []hx.Col{c}, Class: 0}
		for range s.rows {
			sub.Rows = append(sub.Rows, []float64{0})
		}
		p, _ = sub.Build()
	} else {
		p = base.GeneratePredictionVector(g)
	}
	for r := range s.rows {
		var x []string
		for i, a := range s.attrs {
			if a.GetName() != class.Name {
				x = append(x, fmt.Sprintf("%s=%x", a.GetName(), s.rows[r][i]))
			}
		}
		sort.Strings(x)
		base.SetClass(p, r, class.Labels[b.vote(strings.Join(x, ";"))])
	}
	return p, nil
}

func (b *member) String() string                                            { return "member" }
func (b *member) GetMetadata() base.ClassifierMetadataV1                    { return base.ClassifierMetadataV1{} }
func (b *member) Save(string) error                                         { return nil }
func (b *member) Load(string) error                                         { return nil }
func (b *member) SaveWithPrefix(*base.ClassifierSerializer, string) error   { return nil }
func (b *member) LoadWithPrefix(*base.ClassifierDeserializer, string) error { return nil }

// marked makes every row recognisable by its float and categorical features.
func marked(m *hx.Table) {
	for i, c := range m.Cols {
		if i == m.Class || c.Kind == hx.Bin {
			continue
		}
		if c.Kind == hx.Cat {
			m.Cols[i].Labels = nil
			for r := range m.Rows {
				m.Cols[i].Labels = append(m.Cols[i].Labels, fmt.Sprintf("%s-%d", c.Name, r))
			}
			m.Cols[i].Labels = append(m.Cols[i].Labels, "other")
		}
		for r := range m.Rows {
			m.Rows[r][i] = float64(r)
		}
	}
}

func attrsOf(m *hx.Table) []base.Attribute {
	a := make([]base.Attribute, len(m.Cols))
	for i := range a {
		a[i] = m.Cols[i].NewAttr()
	}
	return a
}

// checkTraining checks what a member was trained on.
func checkTraining(t *rapid.T, what string, s *seen, m *hx.Table, features int) {
	if s.bad != "" {
		t.Fatalf("%s: %s", what, s.bad)
	}
	nf := len(m.Cols) - 1
	if features == 0 {
		features = nf
	}
	if len(s.attrs) != features+1 {
		t.Fatalf("%s has %d attributes (%s), want %d features and the class", what, len(s.attrs), s.names(), features)
	}
	uniq := map[string]bool{}
	for _, a := range s.attrs {
		uniq[a.GetName()] = true
		i := -1
		for j, c := range m.Cols {
			if c.Name == a.GetName() {
				i = j
			}
		}
		if i < 0 {
			t.Fatalf("%s has attribute %s", what, a)
		}
		hx.CheckAttr(t, what, a, m.Cols[i])
	}
	cls := m.Cols[m.Class].Name
	if len(uniq) != features+1 || !uniq[cls] || len(s.classes) != 1 || s.classes[0].GetName() != cls {
		t.Fatalf("%s has attributes %s and classes %v", what, s.names(), s.classes)
	}
	if len(s.rows) != len(m.Rows) {
		t.Fatalf("%s has %d rows, the data %d", what, len(s.rows), len(m.Rows))
	}
	ok := map[string]bool{}
	for _, r := range m.Rows {
		ok[rowTuple(m, r, s.names())] = true
	}
	for r := range s.rows {
		if !ok[s.tuple(r)] {
			t.Fatalf("%s: row %d is %s, which is no row of the data restricted to %s", what, r, s.tuple(r), s.names())
		}
		for i := range s.attrs {
			if string(s.rows[r][i]) != string(s.mapped[r][i]) {
				t.Fatalf("%s: row %d of %s is % x read and % x iterated", what, r, s.attrs[i].GetName(), s.rows[r][i], s.mapped[r][i])
			}
		}
	}
}

// checkAsked checks a member was asked about the query rows and the features
// it was trained on.
func checkAsked(t *rapid.T, what string, s *seen, trained *seen, q *hx.Table) {
	if s.bad != "" {
		t.Fatalf("%s: %s", what, s.bad)
	}
	if s.names() != trained.names() {
		t.Fatalf("%s is about %s, but it was trained on %s", what, s.names(), trained.names())
	}
	if len(s.rows) != len(q.Rows) {
		t.Fatalf("%s has %d rows, want %d", what, len(s.rows), len(q.Rows))
	}
	for r := range s.rows {
		if want := rowTuple(q, q.Rows[r], s.names()); s.tuple(r) != want {
			t.Fatalf("%s: row %d is %s, want %s", what, r, s.tuple(r), want)
		}
	}
}

// checkVotes checks every predicted label has the most votes.
func checkVotes(t *rapid.T, p base.FixedDataGrid, q *hx.Table, votes [][]string) bool {
	cls := q.Cols[q.Class]
	if cs := p.AllClassAttributes(); len(cs) != 1 || cs[0].GetName() != cls.Name {
		t.Fatalf("prediction has classes %v", cs)
	}
	if _, n := p.Size(); n != len(q.Rows) {
		t.Fatalf("prediction has %d rows, the query %d", n, len(q.Rows))
	}
	disagree := false
	for r := range q.Rows {
		count := map[string]int{}
		best := 0
		for i := range votes {
			count[votes[i][r]]++
			if count[votes[i][r]] > best {
				best = count[votes[i][r]]
			}
		}
		got := base.GetClass(p, r)
		if count[got] != best {
			t.Fatalf("row %d is predicted %q with votes %v", r, got, count)
		}
		disagree = disagree || len(count) > 1
	}
	return disagree
}

func init() {
	hx.Register("C25", "bag", 3000, 100000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 12, MinCols: 1, MaxCols: 5, Kinds: []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MinClass: 1, MaxClass: 4, Big: 300})
		marked(m)
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for n := rapid.IntRange(0, 8).Draw(t, "queries"); n > 0; n-- {
			q.Rows = append(q.Rows, hx.GenRow(t, m, hx.SmallFloat))
		}
		qa := attrs
		if rapid.Bool().Draw(t, "ownattrs") {
			qa = attrsOf(m)
		}
		qg, qhow := hx.Wrap(t, q, qa)
		k := rapid.IntRange(1, 9).Draw(t, "members")
		features := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "features")
		bias := rapid.IntRange(0, 3).Draw(t, "bias")
		failAt := -1
		if rapid.IntRange(0, 11).Draw(t, "fail") == 0 {
			failAt = rapid.IntRange(0, k-1).Draw(t, "at")
		}
		hx.SeedRand(t)
		b := &meta.BaggedModel{RandomFeatures: features}
		var ms []*member
		own := rapid.Bool().Draw(t, "own")
		late := k // members added after a first training
		if rapid.IntRange(0, 3).Draw(t, "refit") == 0 {
			late = rapid.IntRange(0, k).Draw(t, "late")
		} else {
			late = -1
		}
		for i := 0; i < k; i++ {
			mm := &member{id: i, m: m, bias: bias, own: own && i%2 == 1}
			if i == failAt {
				mm.fail = fmt.Errorf("member %d cannot", i)
			}
			ms = append(ms, mm)
			if late < 0 || i < late {
				b.AddModel(mm)
			}
		}
		c.Describe(len(m.Rows) > 2 && len(q.Rows) > 1 && k > 1 && len(m.Cols[m.Class].Labels) > 1,
			"%d members, %d features, bias %d, fail %d, train %s %s; query %s %s", k, features, bias, failAt, how, m, qhow, q)
		c.Class(failAt >= 0, "member fails")
		before, qbefore := hx.Digest(t, g), hx.Digest(t, qg)
		// a model trained before on other data
		if late >= 0 {
			first := &hx.Table{Cols: m.Cols, Class: m.Class, Rows: m.Rows[:1]}
			fa := attrsOf(m)
			if rapid.Bool().Draw(t, "sameattrs") {
				fa = attrs
			}
			switch rapid.IntRange(0, 2).Draw(t, "first") {
			case 0: // with another number of features
				b.RandomFeatures = rapid.IntRange(0, len(m.Cols)-1).Draw(t, "firstfeatures")
				b.Fit(first.BuildWith(fa))
				b.RandomFeatures = features
			case 1: // of other columns
				b.RandomFeatures = min(features, 5) // no more than it has
				o := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 14, MinCols: 5, MaxCols: 6, Kinds: []hx.Kind{hx.Float, hx.Cat}, ClassKind: hx.Cat})
				b.Fit(o.BuildWith(attrsOf(o)))
				b.RandomFeatures = features
			default:
				b.Fit(first.BuildWith(fa))
			}
			for _, mm := range ms {
				mm.fits = nil
			}
			for _, mm := range ms[late:] {
				b.AddModel(mm)
			}
			c.Class(true, "refit")
		}
		b.Fit(g)
		for i, mm := range ms {
			if len(mm.fits) != 1 {
				t.Fatalf("member %d was trained %d times in a fit", i, len(mm.fits))
			}
			checkTraining(t, fmt.Sprintf("training grid of member %d", i), mm.fits[0], m, features)
		}
		for again := 0; again < 2; again++ {
			p, err := b.Predict(qg)
			if failAt >= 0 {
				if err == nil {
					t.Fatalf("member %d failed to predict, but the ensemble did not", failAt)
				}
				return
			}
			if err != nil {
				t.Fatalf("%v", err)
			}
			votes := make([][]string, k)
			for i, mm := range ms {
				if len(mm.asked) != again+1 {
					t.Fatalf("member %d was asked %d times in %d predictions", i, len(mm.asked), again+1)
				}
				tr := mm.fits[0]
				checkAsked(t, fmt.Sprintf("query of member %d", i), mm.asked[again], tr, q)
				for _, row := range q.Rows {
					votes[i] = append(votes[i], m.Cols[m.Class].Labels[mm.vote(featTuple(q, row, tr.names()))])
				}
			}
			if checkVotes(t, p, q, votes) {
				c.Class(true, "members disagree")
			}
			if k == 1 {
				for r := range q.Rows {
					if base.GetClass(p, r) != votes[0][r] {
						t.Fatalf("one member says %q, the ensemble %q", votes[0][r], base.GetClass(p, r))
					}
				}
			}
		}
		if hx.Digest(t, g) != before || hx.Digest(t, qg) != qbefore {
			t.Fatalf("the data changed")
		}
	})

	// over many members every row is drawn and every feature chosen (each
	// fails to with a chance below 1e-12)
	hx.Register("C25", "spread", 60, 1500, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 15, MinCols: 1, MaxCols: 4, Kinds: []hx.Kind{hx.Float, hx.Cat}, ClassKind: hx.Cat, MaxClass: 3})
		marked(m)
		g, how := hx.Wrap(t, m, attrsOf(m))
		features := rapid.IntRange(1, len(m.Cols)-1).Draw(t, "features")
		hx.SeedRand(t)
		b := &meta.BaggedModel{RandomFeatures: features}
		var ms []*member
		const k = 120
		for i := 0; i < k; i++ {
			ms = append(ms, &member{id: i, m: m})
			b.AddModel(ms[i])
		}
		c.Describe(len(m.Rows) > 3 && features < len(m.Cols)-1, "%d members, %d features, %s %s", k, features, how, m)
		b.Fit(g)
		rows, feats, samples := map[string]bool{}, map[string]int{}, map[string]bool{}
		for i, mm := range ms {
			s := mm.fits[0]
			checkTraining(t, fmt.Sprintf("training grid of member %d", i), s, m, features)
			var all []string
			for r := range s.rows {
				for j, a := range s.attrs {
					if a.GetName() != m.Cols[m.Class].Name {
						id := s.attrs[j].GetStringFromSysVal(s.rows[r][j])
						if f, ok := a.(*base.FloatAttribute); ok {
							_ = f
							id = fmt.Sprint(int(base.UnpackBytesToFloat(s.rows[r][j])))
						} else {
							id = id[strings.LastIndex(id, "-")+1:]
						}
						rows[id] = true
						all = append(all, id)
						break
					}
				}
			}
			sort.Strings(all)
			samples[strings.Join(all, ",")] = true
			for _, a := range s.attrs {
				feats[a.GetName()]++
			}
		}
		if len(rows) != len(m.Rows) {
			t.Fatalf("%d bootstrap samples of %d rows hold only %d of them", k, len(m.Rows), len(rows))
		}
		if len(feats) != len(m.Cols) {
			t.Fatalf("%d members chose only the features %v", k, feats)
		}
		if len(m.Rows) > 3 && len(samples) < 3 {
			t.Fatalf("%d members were trained on only %d different samples of %d rows", k, len(samples), len(m.Rows))
		}
	})

	hx.Register("C25", "forest", 1200, 25000, func(t *rapid.T, c *hx.Case) {
		kinds := [][]hx.Kind{{hx.Float}, {hx.Cat}, {hx.Float, hx.Cat}}[rapid.IntRange(0, 2).Draw(t, "kinds")]
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 20, MinCols: 1, MaxCols: 5, Kinds: kinds, ClassKind: hx.Cat, MinClass: 2, MaxClass: 3, MaxLabels: 3})
		attrs := attrsOf(m)
		g, how := hx.Wrap(t, m, attrs)
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		for n := rapid.IntRange(1, 10).Draw(t, "queries"); n > 0; n-- {
			if rapid.Bool().Draw(t, "known") {
				q.Rows = append(q.Rows, m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")])
			} else {
				q.Rows = append(q.Rows, hx.GenRow(t, m, hx.SmallFloat))
			}
		}
		qg, qhow := hx.Wrap(t, q, attrs)
		size := rapid.IntRange(1, 8).Draw(t, "trees")
		if hx.Rare(t, "larger", 60) {
			size = rapid.IntRange(20, 120).Draw(t, "manytrees")
			c.Class(true, "large forest")
		}
		nf := len(m.Cols) - 1
		features := rapid.IntRange(0, nf+1).Draw(t, "features")
		hx.SeedRand(t)
		f := ensemble.NewRandomForest(size, features)
		c.Describe(len(m.Rows) > 4 && size > 1, "%d trees of %d features, %s %s; query %s %s", size, features, how, m, qhow, q)
		c.Class(features > nf, "too many features")
		err := f.Fit(g)
		if features > nf {
			if err == nil {
				t.Fatalf("%d of %d features could be chosen", features, nf)
			}
			return
		}
		if err != nil {
			t.Fatalf("%v", err)
		}
		if rapid.IntRange(0, 4).Draw(t, "refit") == 0 {
			if rapid.Bool().Draw(t, "othersize") {
				size = rapid.IntRange(1, 8).Draw(t, "newtrees")
				f.ForestSize = size
			}
			if err := f.Fit(g); err != nil {
				t.Fatalf("%v", err)
			}
			c.Class(true, "refit")
		}
		if f.Model == nil || len(f.Model.Models) != size || f.Model.RandomFeatures != features {
			t.Fatalf("forest of %d trees with %d features is %v", size, features, f)
		}
		if features == 0 {
			features = nf
		}
		p, err := f.Predict(qg)
		if err != nil {
			t.Fatalf("%v", err)
		}
		votes := make([][]string, size)
		for i, mod := range f.Model.Models {
			tree, ok := mod.(*trees.ID3DecisionTree)
			if !ok {
				t.Fatalf("member %d is a %T", i, mod)
			}
			used := map[string]bool{}
			total := 0
			for label, n := range tree.Root.ClassDist {
				total += n
				in := false
				for _, l := range m.Cols[m.Class].Labels {
					in = in || l == label
				}
				if !in {
					t.Fatalf("tree %d counts class %q", i, label)
				}
			}
			if total != len(m.Rows) {
				t.Fatalf("tree %d was grown on %d rows, the data has %d", i, total, len(m.Rows))
			}
			walk(tree.Root, used)
			if len(used) > features {
				t.Fatalf("tree %d uses features %v, allowed %d", i, used, features)
			}
			tp, err := tree.Predict(qg)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for r := range q.Rows {
				votes[i] = append(votes[i], base.GetClass(tp, r))
			}
		}
		c.Class(checkVotes(t, p, q, votes), "trees disagree")
	})
}

func walk(n *trees.DecisionTreeNode, used map[string]bool) {
	if n == nil {
		return
	}
	for _, ch := range n.Children {
		walk(ch, used)
	}
	if n.Children != nil && n.SplitRule != nil && n.SplitRule.SplitAttr != nil {
		used[n.SplitRule.SplitAttr.GetName()] = true
	}
}
