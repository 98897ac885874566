package main

import (
	"math"
	"reflect"
	"unsafe"

	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

// norm is the expected path length of an unsuccessful search among n points,
// with the logarithm for the harmonic number, as the scores are defined.
func norm(n float64) float64 {
	if n <= 1 {
		return 0
	}
	return 2*(math.Log(n-1)+0.5772156649) - 2*(n-1)/n
}

// inode is an isolation tree read from a fitted forest.
type inode struct {
	left, right   *inode
	feature       int
	at            float64
	nleft, nright float64
	whole         bool // the sample was not divided at all
}

// forestOf reads the trees of a forest; nil when it is stored in some other
// way, in which case only the scores are judged.
func forestOf(f *trees.IsolationForest) (out []*inode) {
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	v := reflect.ValueOf(f).Elem().FieldByName("trees")
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	var read func(n reflect.Value, root bool) *inode
	read = func(n reflect.Value, root bool) *inode {
		x := &inode{feature: int(n.FieldByName("Feature").Int()), at: n.FieldByName("Threshold").Float(),
			nleft: n.FieldByName("LeftPred").Float(), nright: n.FieldByName("RightPred").Float()}
		x.whole = root && x.nleft == 0 && x.nright == 0
		if l := n.FieldByName("Left"); !l.IsNil() {
			x.left = read(l.Elem(), false)
		}
		if r := n.FieldByName("Right"); !r.IsNil() {
			x.right = read(r.Elem(), false)
		}
		return x
	}
	for i := 0; i < v.Len(); i++ {
		out = append(out, read(v.Index(i), true))
	}
	return out
}

func (n *inode) path(row []float64, depth float64) float64 {
	next, size := n.right, n.nright
	if row[n.feature] <= n.at {
		next, size = n.left, n.nleft
	}
	if next != nil {
		return next.path(row, depth+1)
	}
	return depth + 1 + norm(size)
}

// check says whether a tree obeys its depth limit and its counts add up.
func (n *inode) check(t hx.TB, size float64, depth, max, dims int) {
	if depth > max {
		t.Fatalf("a tree is deeper than the limit %d", max)
	}
	if n.feature < 0 || n.feature >= dims {
		t.Fatalf("a tree splits on column %d of %d", n.feature, dims)
	}
	if n.nleft+n.nright != size {
		t.Fatalf("a node of %v rows is divided into %v and %v", size, n.nleft, n.nright)
	}
	if n.left != nil {
		n.left.check(t, n.nleft, depth+1, max, dims)
	}
	if n.right != nil {
		n.right.check(t, n.nright, depth+1, max, dims)
	}
}

func init() {
	hx.Register("C36", "scores", 3000, 90000, func(t *rapid.T, c *hx.Case) {
		value := rapid.SampledFrom([]func(*rapid.T, string) float64{coarse, hx.SmallFloat, func(t *rapid.T, n string) float64 {
			return rapid.Float64Range(-1000, 1000).Draw(t, n)
		}, touching}).Draw(t, "values")
		m := hx.GenTable(t, hx.Opts{MinRows: 2, MaxRows: 16, MinCols: 0, MaxCols: 3, Kinds: []hx.Kind{hx.Float}, ClassKind: hx.Float, Value: value, Big: 150, BigRows: true})
		attrs := newAttrs(m)
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		hx.SeedRand(t)
		n := rapid.IntRange(1, 12).Draw(t, "trees")
		depth := rapid.IntRange(1, 8).Draw(t, "depth")
		sub := rapid.IntRange(2, 24).Draw(t, "sample")
		if hx.Rare(t, "larger", 60) {
			n = rapid.IntRange(10, 300).Draw(t, "manytrees")
			depth = rapid.IntRange(5, 30).Draw(t, "deep")
			sub = rapid.IntRange(25, 600).Draw(t, "bigsample")
			c.Class(true, "large forest")
		}
		f := trees.NewIsolationForest(n, depth, sub)
		if rapid.IntRange(0, 4).Draw(t, "used") == 0 { // on other rows
			c.Class(true, "fitted before")
			f.Fit(m.Sub(hx.Perm(t, len(m.Rows), "others")[:(len(m.Rows)+1)/2]).BuildWith(attrs))
		}
		f.Fit(g)
		q := queries(t, m, 5, value)
		q.Rows = append(q.Rows, m.Rows...)
		qg, _ := hx.Wrap(t, q, attrs)
		p := f.Predict(qg)
		c.Describe(len(m.Rows) > 3, "trees=%d depth=%d sample=%d %s %s queries %v", n, depth, sub, how, m, q.Rows)
		if len(p) != len(q.Rows) {
			t.Fatalf("%d scores for %d rows", len(p), len(q.Rows))
		}
		order := append(features(m), m.Class) // the class counts as the last column
		vec := func(row []float64) []float64 {
			var v []float64
			for _, i := range order {
				v = append(v, row[i])
			}
			return v
		}
		// the longest path: the depth limit, and what is left undivided there
		longest := float64(depth) + norm(float64(sub))
		for r, s := range p {
			if !(s > 0 && s < 1) {
				t.Fatalf("row %v scores %v", q.Rows[r], s)
			}
			if lo, hi := math.Exp2(-longest/norm(float64(sub))), math.Exp2(-1/norm(float64(sub))); s < lo*(1-eps) || s > hi*(1+eps) {
				t.Fatalf("row %v scores %v, paths between 1 and %v give %v to %v", q.Rows[r], s, longest, lo, hi)
			}
			for r2 := range p[:r] {
				same := true
				for i := range q.Rows[r] {
					same = same && q.Rows[r][i] == q.Rows[r2][i]
				}
				if same && s != p[r2] {
					t.Fatalf("equal rows %v score %v and %v", q.Rows[r], p[r2], s)
				}
			}
		}
		if n == 1 && depth == 1 {
			// one division: every row scores by the size of its side
			var sizes []int
			for _, s := range p {
				path, size := -math.Log2(s)*norm(float64(sub)), -1
				for k := 1; k <= sub; k++ {
					if math.Abs(path-1-norm(float64(k))) < 1e-6 {
						size = k
						break
					}
				}
				if size < 0 {
					t.Fatalf("score %v is that of no division of %d rows", s, sub)
				}
				known := false
				for _, k := range sizes {
					known = known || k == size
				}
				if !known {
					sizes = append(sizes, size)
				}
			}
			if len(sizes) > 2 || len(sizes) == 2 && sizes[0]+sizes[1] != sub {
				t.Fatalf("the one division of %d rows has sides %v", sub, sizes)
			}
			c.Class(len(sizes) == 2, "single division decoded")
		}
		if ts := forestOf(&f); len(ts) > 0 {
			if len(ts) != n {
				t.Fatalf("%d trees, want %d", len(ts), n)
			}
			for _, x := range ts {
				if !x.whole {
					x.check(t, float64(sub), 1, depth, len(order))
				}
			}
			for r, s := range p {
				sum := 0.0
				for _, x := range ts {
					sum += x.path(vec(q.Rows[r]), 0)
				}
				if want := math.Exp2(-sum / float64(n) / norm(float64(sub))); math.Abs(s-want) > eps {
					t.Fatalf("row %v scores %v, its average path length %v gives %v", q.Rows[r], s, sum/float64(n), want)
				}
			}
			c.Class(true, "paths recomputed")
		}
		again := f.Predict(qg)
		for r := range p {
			if again[r] != p[r] {
				t.Fatalf("row %v scores %v, then %v", q.Rows[r], p[r], again[r])
			}
		}
		if hx.Digest(t, g) != before {
			t.Fatalf("fitting or predicting changed the grid")
		}
	})
	hx.Register("C36", "outlier", 60, 2000, func(t *rapid.T, c *hx.Case) {
		dims := rapid.IntRange(1, 3).Draw(t, "dims")
		rows := rapid.IntRange(8, 14).Draw(t, "rows")
		m := &hx.Table{Class: dims}
		for i := 0; i <= dims; i++ {
			m.Cols = append(m.Cols, hx.Col{Name: string(rune('a' + i)), Kind: hx.Float, Prec: 3})
		}
		sign := make([]float64, dims+1)
		centre := make([]float64, dims+1)
		for i := range sign {
			sign[i] = rapid.SampledFrom([]float64{-1, 1}).Draw(t, "side")
			centre[i] = float64(rapid.IntRange(-50, 50).Draw(t, "centre"))
		}
		// columns in which all rows are equal say nothing
		flat := make([]bool, dims+1)
		if telling := rapid.IntRange(0, 2*dims+1).Draw(t, "telling"); telling <= dims {
			for i := range flat {
				flat[i] = i != telling
			}
		}
		for r := 0; r < rows; r++ {
			row := make([]float64, dims+1)
			for i := range row {
				row[i] = centre[i]
				if !flat[i] {
					row[i] += rapid.Float64Range(-1, 1).Draw(t, "v")
				}
			}
			m.Rows = append(m.Rows, row)
		}
		out := rapid.IntRange(0, rows-1).Draw(t, "outlier")
		far := rapid.SampledFrom([]float64{100, 1000, 1e5}).Draw(t, "far")
		for i := range m.Rows[out] {
			if flat[i] {
				continue
			}
			m.Rows[out][i] = centre[i] + sign[i]*far
		}
		hx.SeedRand(t)
		f := trees.NewIsolationForest(200, rapid.IntRange(6, 12).Draw(t, "depth"), 64)
		g, how := hx.Wrap(t, m, newAttrs(m))
		f.Fit(g)
		p := f.Predict(g)
		c.Describe(true, "outlier %d, %s %v", out, how, m.Rows)
		for r, s := range p {
			if r != out && s >= p[out] {
				t.Fatalf("row %v of the cluster scores %v, the outlier %v scores %v", m.Rows[r], s, m.Rows[out], p[out])
			}
		}
	})
}
