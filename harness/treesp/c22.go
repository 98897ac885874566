package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

const eps = 1e-9

// rule names a split rule and how to make it.
type rule struct {
	name string
	make func() trees.RuleGenerator
}

var rules = []rule{
	{"gain", func() trees.RuleGenerator { return new(trees.InformationGainRuleGenerator) }},
	{"ratio", func() trees.RuleGenerator { return new(trees.InformationGainRatioRuleGenerator) }},
	{"gini", func() trees.RuleGenerator { return new(trees.GiniCoefficientRuleGenerator) }},
}

func entropy(counts map[int]int) float64 {
	n, e := 0, 0.0
	for _, c := range counts {
		n += c
	}
	for _, c := range counts {
		if c > 0 {
			p := float64(c) / float64(n)
			e -= p * math.Log2(p)
		}
	}
	return e
}

func gini(counts map[int]int) float64 {
	n, s := 0, 0.0
	for _, c := range counts {
		n += c
	}
	for _, c := range counts {
		p := float64(c) / float64(n)
		s += p * p
	}
	return 1 - s
}

// branches is a partition of rows, each branch as class counts.
type branches map[int]map[int]int

func (b branches) add(branch, class int) {
	if b[branch] == nil {
		b[branch] = map[int]int{}
	}
	b[branch][class]++
}

func (b branches) mean(f func(map[int]int) float64) float64 {
	n, s := 0, 0.0
	for _, c := range b {
		k := 0
		for _, x := range c {
			k += x
		}
		n += k
		s += float64(k) * f(c)
	}
	return s / float64(n)
}

// score is higher for better splits.
func (b branches) score(rule string) float64 {
	all, sizes := map[int]int{}, map[int]int{}
	for i, c := range b {
		for k, x := range c {
			all[k] += x
			sizes[i] += x
		}
	}
	gain := entropy(all) - b.mean(entropy)
	switch rule {
	case "gini":
		return -b.mean(gini)
	case "ratio":
		if len(sizes) < 2 {
			return 0
		}
		return gain / entropy(sizes)
	}
	return gain
}

func byThreshold(m *hx.Table, rows []int, col int, at float64) branches {
	b := branches{}
	for _, r := range rows {
		k := 0
		if m.Rows[r][col] > at {
			k = 1
		}
		b.add(k, int(m.Rows[r][m.Class]))
	}
	return b
}

func byLabel(m *hx.Table, rows []int, col int) branches {
	b := branches{}
	for _, r := range rows {
		b.add(int(m.Rows[r][col]), int(m.Rows[r][m.Class]))
	}
	return b
}

// thresholds lists the midpoints of a column over rows.
func thresholds(m *hx.Table, rows []int, col int) []float64 {
	var v []float64
	for _, r := range rows {
		v = append(v, m.Rows[r][col])
	}
	sort.Float64s(v)
	var out []float64
	for i := 1; i < len(v); i++ {
		if v[i] != v[i-1] {
			out = append(out, (v[i]+v[i-1])/2)
			if out[len(out)-1] >= v[i] { // no number lies in between
				out[len(out)-1] = v[i-1]
			}
		}
	}
	return out
}

// touching draws numbers with nothing, or little, in between.
func touching(t *rapid.T, name string) float64 {
	v := rapid.SampledFrom([]float64{0.3, 1, -2.5, 1e9}).Draw(t, name)
	for k := rapid.IntRange(0, 3).Draw(t, name+"-steps"); k > 0; k-- {
		v = math.Nextafter(v, math.Inf(1))
	}
	return v
}

// options gives the lowest and highest score an attribute may be credited
// with: numeric attributes are split where the information gain is greatest.
func options(m *hx.Table, rows []int, col int, rule string) (lo, hi float64, ok bool) {
	if m.Cols[col].Kind != hx.Float {
		s := byLabel(m, rows, col).score(rule)
		return s, s, true
	}
	best := math.Inf(-1)
	ts := thresholds(m, rows, col)
	for _, at := range ts {
		best = math.Max(best, byThreshold(m, rows, col, at).score("gain"))
	}
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, at := range ts {
		b := byThreshold(m, rows, col, at)
		if b.score("gain") >= best-eps {
			s := b.score(rule)
			lo, hi = math.Min(lo, s), math.Max(hi, s)
		}
	}
	return lo, hi, len(ts) > 0
}

// checkNode checks a node and everything under it against the rows which
// reach it. consider is how many attributes are drawn at each node, 0 for all.
func checkNode(t hx.TB, n *trees.DecisionTreeNode, m *hx.Table, rows, left []int, rule string, consider int, path string) (depth int) {
	counts := map[string]int{}
	for _, r := range rows {
		counts[m.Cols[m.Class].Labels[int(m.Rows[r][m.Class])]]++
	}
	for k, c := range n.ClassDist {
		if c != counts[k] {
			t.Fatalf("node %q: class counts %v, rows have %v", path, n.ClassDist, counts)
		}
	}
	max := 0
	for k, c := range counts {
		if n.ClassDist[k] != c {
			t.Fatalf("node %q: class counts %v, rows have %v", path, n.ClassDist, counts)
		}
		if c > max {
			max = c
		}
	}
	if counts[n.Class] != max {
		t.Fatalf("node %q names class %q, its rows have %v", path, n.Class, counts)
	}
	usable := 0 // attributes which offer a split
	for _, c := range left {
		if _, _, ok := options(m, rows, c, rule); ok {
			usable++
		}
	}
	if n.Children == nil {
		idle := usable == 0
		if consider > 0 {
			idle = usable == 0 || len(left)-usable >= consider
		}
		if len(counts) > 1 && len(left) > 1 && !idle {
			t.Fatalf("node %q is a leaf though its rows have classes %v and can be split on %d attributes", path, counts, usable)
		}
		return 0
	}
	if n.SplitRule == nil || n.SplitRule.SplitAttr == nil {
		t.Fatalf("node %q has children but no split", path)
	}
	if len(counts) < 2 {
		t.Fatalf("node %q is split though all its rows have class %v", path, counts)
	}
	col := -1
	for _, c := range left {
		if m.Cols[c].Name == n.SplitRule.SplitAttr.GetName() {
			col = c
		}
	}
	if col < 0 {
		t.Fatalf("node %q splits on %q, which is not left to split on", path, n.SplitRule.SplitAttr.GetName())
	}
	// the chosen split against the others
	var b branches
	at := n.SplitRule.SplitVal
	if m.Cols[col].Kind == hx.Float {
		b = byThreshold(m, rows, col, at)
		if len(b) < 2 {
			t.Fatalf("node %q: threshold %v of %q does not divide its rows", path, at, m.Cols[col].Name)
		}
		got := b.score("gain")
		for _, o := range thresholds(m, rows, col) {
			if s := byThreshold(m, rows, col, o).score("gain"); s > got+eps {
				t.Fatalf("node %q splits %q at %v with information gain %v, at %v it is %v", path, m.Cols[col].Name, at, got, o, s)
			}
		}
	} else {
		b = byLabel(m, rows, col)
	}
	got := b.score(rule)
	better := 0
	what := ""
	for _, c := range left {
		if lo, _, ok := options(m, rows, c, rule); ok && c != col && lo > got+eps {
			better++
			what += fmt.Sprintf(" %q (%v)", m.Cols[c].Name, lo)
		}
	}
	allowed := 0
	if consider > 0 && len(left) > consider {
		allowed = len(left) - consider
	}
	if better > allowed {
		t.Fatalf("node %q splits on %q with score %v, better are%s", path, m.Cols[col].Name, got, what)
	}
	// the branches
	parts := map[string][]int{}
	for _, r := range rows {
		k := "0"
		if m.Cols[col].Kind == hx.Float {
			if m.Rows[r][col] > at {
				k = "1"
			}
		} else {
			k = m.Cols[col].Str(m.Rows[r][col])
		}
		parts[k] = append(parts[k], r)
	}
	if len(parts) != len(n.Children) {
		t.Fatalf("node %q has %d branches for values %v", path, len(n.Children), parts)
	}
	var rest []int
	for _, c := range left {
		if c != col {
			rest = append(rest, c)
		}
	}
	for k, p := range parts {
		ch := n.Children[k]
		if ch == nil {
			t.Fatalf("node %q lacks a branch for %q", path, k)
		}
		if d := checkNode(t, ch, m, p, rest, rule, consider, path+"/"+m.Cols[col].Name+"="+k) + 1; d > depth {
			depth = d
		}
	}
	return depth
}

// leaves lists the leaves a row may be predicted by: the one its values lead
// to, or, where a category was not seen at a node, any below that node.
func leaves(n *trees.DecisionTreeNode, m *hx.Table, row []float64) (out []*trees.DecisionTreeNode, seen bool) {
	if n.Children == nil {
		return []*trees.DecisionTreeNode{n}, true
	}
	col := -1
	for i, c := range m.Cols {
		if c.Name == n.SplitRule.SplitAttr.GetName() {
			col = i
		}
	}
	k := "0"
	if m.Cols[col].Kind == hx.Float {
		if row[col] > n.SplitRule.SplitVal {
			k = "1"
		}
	} else {
		k = m.Cols[col].Str(row[col])
	}
	if ch := n.Children[k]; ch != nil {
		return leaves(ch, m, row)
	}
	for _, ch := range n.Children {
		l, _ := leaves(ch, m, row)
		out = append(out, l...)
	}
	return out, false
}

// checkPredictions compares predictions of a grid with the leaves of the tree.
func checkPredictions(t hx.TB, p base.FixedDataGrid, root *trees.DecisionTreeNode, m *hx.Table) (unseen int) {
	if _, n := p.Size(); n != len(m.Rows) {
		t.Fatalf("%d predictions for %d rows", n, len(m.Rows))
	}
	for r, row := range m.Rows {
		ls, seen := leaves(root, m, row)
		if !seen {
			unseen++
		}
		got := base.GetClass(p, r)
		ok := false
		for _, l := range ls {
			ok = ok || l.Class == got
		}
		if !ok {
			t.Fatalf("row %v predicted %q, its leaf says %q", row, got, ls[0].Class)
		}
	}
	return
}

func coarse(t *rapid.T, name string) float64 {
	return float64(rapid.IntRange(-3, 3).Draw(t, name)) / 2
}

// queries draws rows like a table's.
func queries(t *rapid.T, m *hx.Table, max int, value func(*rapid.T, string) float64) *hx.Table {
	q := &hx.Table{Cols: m.Cols, Class: m.Class}
	for n := rapid.IntRange(0, max).Draw(t, "queries"); n > 0; n-- {
		q.Rows = append(q.Rows, hx.GenRow(t, m, value))
	}
	return q
}

func newAttrs(m *hx.Table) []base.Attribute {
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	return attrs
}

func features(m *hx.Table) []int {
	var out []int
	for i := range m.Cols {
		if i != m.Class {
			out = append(out, i)
		}
	}
	return out
}

func kinds(t *rapid.T) []hx.Kind {
	return rapid.SampledFrom([][]hx.Kind{{hx.Cat}, {hx.Float}, {hx.Cat, hx.Float, hx.Bin}, {hx.Cat, hx.Bin}}).Draw(t, "kinds")
}

func id3(t *rapid.T, c *hx.Case, maxRows int) {
	value := rapid.SampledFrom([]func(*rapid.T, string) float64{coarse, hx.SmallFloat, coarse, hx.SmallFloat, touching}).Draw(t, "values")
	m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: maxRows, MinCols: 1, MaxCols: 5, Kinds: kinds(t), ClassKind: hx.Cat, MaxClass: 4, Value: value, Big: 300})
	if rapid.Bool().Draw(t, "learnable") { // let a feature or two decide the class, mostly
		f := features(m)
		a, b := f[rapid.IntRange(0, len(f)-1).Draw(t, "a")], f[rapid.IntRange(0, len(f)-1).Draw(t, "b")]
		k := len(m.Cols[m.Class].Labels)
		for _, row := range m.Rows {
			row[m.Class] = float64((int(math.Abs(row[a])*2) + int(math.Abs(row[b])*4)) % k)
		}
	}
	attrs := newAttrs(m)
	g, how := hx.Wrap(t, m, attrs)
	before := hx.Digest(t, g)
	hx.SeedRand(t)
	ru := rapid.SampledFrom(rules).Draw(t, "rule")
	consider := 0
	mode := rapid.IntRange(0, 3).Draw(t, "mode")
	var root *trees.DecisionTreeNode
	var predict func(base.FixedDataGrid) (base.FixedDataGrid, error)
	var tree *trees.ID3DecisionTree
	// a tree which has learned something else
	learn := func(fit func(base.FixedDataGrid) error) {
		if rapid.IntRange(0, 4).Draw(t, "used") == 0 {
			c.Class(true, "fitted before")
			if err := fit(m.Sub(hx.Perm(t, len(m.Rows), "others")[:(len(m.Rows)+1)/2]).BuildWith(attrs)); err != nil {
				t.Fatalf("Fit: %v", err)
			}
		}
	}
	switch mode {
	case 0:
		root = trees.InferID3Tree(g, ru.make())
		predict = root.Predict
	case 1:
		tree = trees.NewID3DecisionTreeFromRule(0, ru.make())
		if ru.name == "gain" && rapid.Bool().Draw(t, "default") {
			tree = trees.NewID3DecisionTree(0)
		}
		learn(tree.Fit)
		if err := tree.Fit(g); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		root, predict = tree.Root, tree.Predict
	default:
		ru = rules[0]
		consider = rapid.IntRange(1, len(m.Cols)+1).Draw(t, "consider")
		rt := trees.NewRandomTree(consider)
		learn(rt.Fit)
		if err := rt.Fit(g); err != nil {
			t.Fatalf("Fit: %v", err)
		}
		root, predict = rt.Root, rt.Predict
	}
	all := make([]int, len(m.Rows))
	for i := range all {
		all[i] = i
	}
	q := queries(t, m, 6, value)
	c.Describe(len(m.Rows) > 3 && len(m.Cols) > 2, "mode=%d rule=%s consider=%d %s %s queries %v", mode, ru.name, consider, how, m, q.Rows)
	if hx.Digest(t, g) != before {
		t.Fatalf("fitting changed the training grid")
	}
	depth := checkNode(t, root, m, all, features(m), ru.name, consider, "root")
	c.Class(depth > 0, "split at least once")
	c.Class(depth > 1, "two or more levels")
	c.Class(how != "dense", "view source")
	p, err := predict(g)
	if err != nil {
		t.Fatalf("Predict: %v", err)
	}
	checkPredictions(t, p, root, m)
	qg, _ := hx.Wrap(t, q, attrs)
	if p, err = predict(qg); err != nil {
		t.Fatalf("Predict: %v", err)
	}
	c.Class(checkPredictions(t, p, root, q) > 0, "category unseen at a node")
	if tree != nil {
		if len(q.Rows) > 1 {
			ok := false
			func() {
				defer func() { recover() }()
				_, err := tree.PredictProba(q.BuildWith(attrs))
				ok = err == nil
			}()
			if ok {
				t.Fatalf("the probabilities of %d rows were predicted as of one", len(q.Rows))
			}
		}
		for r := range q.Rows {
			one := q.Sub([]int{r})
			pr, err := tree.PredictProba(one.BuildWith(attrs))
			if err != nil {
				t.Fatalf("PredictProba: %v", err)
			}
			ls, seen := leaves(root, m, q.Rows[r])
			if !seen {
				continue
			}
			total, sum := 0, 0.0
			for _, n := range ls[0].ClassDist {
				total += n
			}
			for i, x := range pr {
				if want := float64(ls[0].ClassDist[x.ClassValue]) / float64(total); math.Abs(x.Probability-want) > eps {
					t.Fatalf("row %v: probability of %q is %v, its leaf has counts %v", q.Rows[r], x.ClassValue, x.Probability, ls[0].ClassDist)
				}
				if i > 0 && x.Probability > pr[i-1].Probability {
					t.Fatalf("row %v: probabilities are not in descending order: %v", q.Rows[r], pr)
				}
				sum += x.Probability
			}
			if math.Abs(sum-1) > eps {
				t.Fatalf("row %v: probabilities %v do not add up to 1", q.Rows[r], pr)
			}
		}
	}
}

func init() {
	hx.Register("C22", "id3", 6000, 200000, func(t *rapid.T, c *hx.Case) { id3(t, c, 14) })
	hx.Register("C22", "larger", 400, 12000, func(t *rapid.T, c *hx.Case) { id3(t, c, 70) })

	hx.Register("C23", "prune", 6000, 200000, func(t *rapid.T, c *hx.Case) {
		value := rapid.SampledFrom([]func(*rapid.T, string) float64{coarse, hx.SmallFloat}).Draw(t, "values")
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 20, MinCols: 2, MaxCols: 5, Kinds: kinds(t), ClassKind: hx.Cat, MinClass: 2, MaxClass: 3, Value: value, Big: 300})
		attrs := newAttrs(m)
		g, how := hx.Wrap(t, m, attrs)
		hx.SeedRand(t)
		var root *trees.DecisionTreeNode
		var prune func(base.FixedDataGrid)
		if rapid.Bool().Draw(t, "random") {
			rt := trees.NewRandomTree(rapid.IntRange(1, len(m.Cols)-1).Draw(t, "consider"))
			rt.Fit(g)
			root, prune = rt.Root, rt.Prune
		} else {
			root = trees.InferID3Tree(g, rapid.SampledFrom(rules).Draw(t, "rule").make())
			prune = root.Prune
		}
		hold := queries(t, m, 12, value)
		if len(hold.Rows) == 0 || rapid.IntRange(0, 2).Draw(t, "noisy") == 0 {
			hold.Rows = append(hold.Rows, m.Rows...)
		}
		k := len(m.Cols[m.Class].Labels)
		for i, row := range hold.Rows { // mostly the tree's own opinion, so that something is worth keeping
			if rapid.IntRange(0, 3).Draw(t, "keep") > 0 {
				ls, _ := leaves(root, m, row)
				nr := append([]float64(nil), row...)
				for l := 0; l < k; l++ {
					if m.Cols[m.Class].Labels[l] == ls[0].Class {
						nr[m.Class] = float64(l)
					}
				}
				hold.Rows[i] = nr
			}
		}
		if len(hold.Rows) > 0 && rapid.IntRange(0, 11).Draw(t, "crowd") == 0 { // many rows, of which a few decide
			row := hold.Rows[rapid.IntRange(0, len(hold.Rows)-1).Draw(t, "row")]
			for n := rapid.IntRange(100, 900).Draw(t, "times"); n > 0; n-- {
				hold.Rows = append(hold.Rows, row)
			}
		}
		hg, how2 := hx.Wrap(t, hold, attrs)
		q := queries(t, m, 6, value)
		qg := q.BuildWith(attrs)
		old := clone(root)
		hp, err := root.Predict(hg)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		qp, err := root.Predict(qg)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		was := correct(hp, hold)
		c.Describe(old.Children != nil && len(hold.Rows) > 2, "%s %s hold-out %s %v", how, m, how2, hold.Rows)
		c.Class(old.Children != nil && k > 1, "had something to prune")
		hd := hx.Digest(t, hg)
		prune(hg)
		if hx.Digest(t, hg) != hd {
			t.Fatalf("pruning changed the hold-out grid")
		}
		cut := map[*trees.DecisionTreeNode]bool{}
		sameBut(t, old, root, "root", cut)
		c.Class(len(cut) > 0 && root.Children != nil, "pruned below the root")
		c.Class(root.Children != nil, "something kept")
		hp2, err := root.Predict(hg)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		if now := correct(hp2, hold); now < was {
			t.Fatalf("pruning lowered the correct hold-out rows from %d to %d of %d", was, now, len(hold.Rows))
		}
		qp2, err := root.Predict(qg)
		if err != nil {
			t.Fatalf("Predict: %v", err)
		}
		for _, x := range []struct {
			m    *hx.Table
			a, b base.FixedDataGrid
		}{{hold, hp, hp2}, {q, qp, qp2}} {
			for r, row := range x.m.Rows {
				ls, seen := leaves(root, m, row)
				if seen && !cut[ls[0]] && base.GetClass(x.a, r) != base.GetClass(x.b, r) {
					t.Fatalf("pruning changed the prediction of row %v from %q to %q though its leaf was kept", row, base.GetClass(x.a, r), base.GetClass(x.b, r))
				}
			}
			checkPredictions(t, x.b, root, x.m)
		}
		// nothing that is left could go without losing hold-out rows
		var walk func(n *trees.DecisionTreeNode, path string)
		walk = func(n *trees.DecisionTreeNode, path string) {
			if n.Children == nil {
				return
			}
			kids := n.Children
			n.Children = nil
			p, err := root.Predict(hg)
			if err != nil {
				t.Fatalf("Predict: %v", err)
			}
			n.Children = kids
			reached := 0
			for _, row := range hold.Rows {
				if goesThrough(root, n, m, row) {
					reached++
				}
			}
			if got := correct(p, hold); reached > 0 && got >= correct(hp2, hold) {
				t.Fatalf("node %q was kept though a leaf in its place classifies %d hold-out rows correctly instead of %d", path, got, correct(hp2, hold))
			}
			for k, ch := range kids {
				walk(ch, path+"/"+k)
			}
		}
		walk(root, "root")
	})
}

// goesThrough says whether a row surely reaches a node.
func goesThrough(root, n *trees.DecisionTreeNode, m *hx.Table, row []float64) bool {
	for cur := root; ; {
		if cur == n {
			return true
		}
		if cur.Children == nil {
			return false
		}
		col := -1
		for i, c := range m.Cols {
			if c.Name == cur.SplitRule.SplitAttr.GetName() {
				col = i
			}
		}
		k := "0"
		if m.Cols[col].Kind == hx.Float {
			if row[col] > cur.SplitRule.SplitVal {
				k = "1"
			}
		} else {
			k = m.Cols[col].Str(row[col])
		}
		if cur = cur.Children[k]; cur == nil {
			return false
		}
	}
}

func clone(n *trees.DecisionTreeNode) *trees.DecisionTreeNode {
	c := *n
	c.ClassDist = map[string]int{}
	for k, v := range n.ClassDist {
		c.ClassDist[k] = v
	}
	if n.Children != nil {
		c.Children = map[string]*trees.DecisionTreeNode{}
		for k, v := range n.Children {
			c.Children[k] = clone(v)
		}
	}
	if n.SplitRule != nil {
		r := *n.SplitRule
		c.SplitRule = &r
	}
	return &c
}

func correct(p base.FixedDataGrid, m *hx.Table) int {
	n := 0
	for r, row := range m.Rows {
		if base.GetClass(p, r) == m.Cols[m.Class].Labels[int(row[m.Class])] {
			n++
		}
	}
	return n
}

// sameBut compares a pruned tree with what it was; cut collects the nodes
// which were turned into leaves.
func sameBut(t hx.TB, old, now *trees.DecisionTreeNode, path string, cut map[*trees.DecisionTreeNode]bool) {
	if old.Class != now.Class || fmt.Sprint(old.ClassDist) != fmt.Sprint(now.ClassDist) {
		t.Fatalf("pruning changed node %q from %q %v to %q %v", path, old.Class, old.ClassDist, now.Class, now.ClassDist)
	}
	if now.Children == nil {
		if old.Children != nil {
			cut[now] = true
		}
		return
	}
	if len(old.Children) != len(now.Children) || old.SplitRule.SplitAttr != now.SplitRule.SplitAttr || old.SplitRule.SplitVal != now.SplitRule.SplitVal {
		t.Fatalf("pruning changed the split of node %q", path)
	}
	for k, ch := range now.Children {
		if old.Children[k] == nil {
			t.Fatalf("pruning added branch %q to node %q", k, path)
		}
		sameBut(t, old.Children[k], ch, path+"/"+k, cut)
	}
}
