package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/neural"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

type activation struct {
	name string
	f    neural.NeuralFunction
	fwd  func(float64) float64
	der  func(in float64) float64 // by the value before activation
}

var activations = []activation{
	{"sigmoid", neural.Sigmoid,
		func(v float64) float64 { return 1 / (1 + math.Exp(-v)) },
		func(v float64) float64 { e := math.Exp(-v); return e / ((1 + e) * (1 + e)) }},
	{"linear", neural.Linear,
		func(v float64) float64 { return v },
		func(v float64) float64 { return 1 }},
	{"softplus", neural.SoftplusRectifier,
		func(v float64) float64 { return math.Log(1 + math.Exp(v)) },
		func(v float64) float64 { return 1 / (1 + math.Exp(-v)) }},
	{"tanh", neural.NeuralFunction{Forward: math.Tanh, Backward: func(v float64) float64 { return 1 - v*v }},
		math.Tanh,
		func(v float64) float64 { x := math.Tanh(v); return 1 - x*x }},
}

// ref is a feed-forward network, edges only from lower to higher nodes.
type ref struct {
	n, in int
	a     activation
	w     [][]float64 // w[src][dst]
	b     []float64
}

func (r *ref) String() string {
	s := fmt.Sprintf("%s %d nodes, %d inputs, biases %v, weights", r.a.name, r.n, r.in, r.b)
	for i := range r.w {
		for j, v := range r.w[i] {
			if v != 0 {
				s += fmt.Sprintf(" %d-%d:%v", i+1, j+1, v)
			}
		}
	}
	return s
}

// run returns values before and after activation.
func (r *ref) run(x []float64) (net, out []float64) {
	net, out = make([]float64, r.n), make([]float64, r.n)
	for j := 0; j < r.n; j++ {
		if j < r.in {
			net[j], out[j] = x[j], x[j]
			continue
		}
		s := r.b[j]
		for i := 0; i < j; i++ {
			s += r.w[i][j] * out[i]
		}
		net[j] = s
		out[j] = r.a.fwd(s)
	}
	return
}

// delta is the gradient of sum(err*out) by each node's input.
func (r *ref) delta(net, err []float64) []float64 {
	d := make([]float64, r.n)
	for i := r.n - 1; i >= r.in; i-- {
		s := err[i]
		for j := i + 1; j < r.n; j++ {
			s += r.w[i][j] * d[j]
		}
		d[i] = s * r.a.der(net[i])
	}
	return d
}

// depth is the number of steps values need from the inputs to every node.
func (r *ref) depth() int {
	l := make([]int, r.n)
	top := 0
	for j := 0; j < r.n; j++ {
		if j >= r.in {
			l[j] = 1
		}
		for i := 0; i < j; i++ {
			if r.w[i][j] != 0 && l[i]+1 > l[j] {
				l[j] = l[i] + 1
			}
		}
		if l[j] > top {
			top = l[j]
		}
	}
	return top
}

func weight(t *rapid.T, name string) float64 {
	s := float64(2*rapid.IntRange(0, 1).Draw(t, "sign") - 1)
	if rapid.IntRange(0, 4).Draw(t, "small") == 0 {
		return s * float64(rapid.IntRange(1, 60).Draw(t, name)) / 9973
	}
	return s * float64(rapid.IntRange(1, 2000).Draw(t, name)) / 997
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func init() {
	hx.Register("C33", "network", 3000, 40000, func(t *rapid.T, c *hx.Case) {
		r := &ref{in: rapid.IntRange(1, 3).Draw(t, "inputs")}
		r.a = activations[rapid.IntRange(0, len(activations)-1).Draw(t, "function")]
		// layers; now and then with connections that skip some
		layers := rapid.SliceOfN(rapid.IntRange(1, 3), 1, 3).Draw(t, "layers")
		switch {
		case hx.Rare(t, "deep", 30):
			layers = rapid.SliceOfN(rapid.IntRange(1, 2), 4, 9).Draw(t, "manylayers")
		case hx.Rare(t, "broad", 60):
			layers = rapid.SliceOfN(rapid.IntRange(4, 12), 1, 2).Draw(t, "broadlayers")
		}
		skip := rapid.IntRange(0, 3).Draw(t, "skip") == 0
		r.n = r.in
		level := make([]int, r.in)
		for k, l := range layers {
			for i := 0; i < l; i++ {
				level = append(level, k+1)
			}
			r.n += l
		}
		r.b = make([]float64, r.n)
		r.w = make([][]float64, r.n)
		for i := range r.w {
			r.w[i] = make([]float64, r.n)
		}
		net := neural.NewNetwork(r.n, r.in, r.a.f)
		for i := 0; i < r.n; i++ {
			if i >= r.in && rapid.IntRange(0, 3).Draw(t, "biased") > 0 {
				r.b[i] = weight(t, "b")
				net.SetBias(i+1, r.b[i])
			}
			for j := i + 1; j < r.n; j++ {
				gap := level[j] - level[i]
				if j < r.in || gap < 1 || gap > 1 && !skip {
					continue
				}
				if rapid.IntRange(0, 5).Draw(t, "linked") > 0 {
					r.w[i][j] = weight(t, "w")
					net.SetWeight(i+1, j+1, r.w[i][j])
				}
			}
		}
		c.Describe(r.n > r.in+1 && len(layers) > 1, "%s skip %v", r, skip)
		c.Class(len(layers) > 1, "hidden nodes")
		c.Class(skip, "skipping connections")
		c.Class(r.a.name == "softplus", "softplus")
		check := func(when string) {
			for i := 0; i < r.n; i++ {
				if b := net.GetBias(i + 1); !near(b, r.b[i]) {
					t.Fatalf("%s: bias of node %d is %v, should be %v", when, i+1, b, r.b[i])
				}
				for j := 0; j < r.n; j++ {
					w := r.w[i][j]
					if i == j && i < r.in {
						w = 1
					}
					if g := net.GetWeight(i+1, j+1); !near(g, w) {
						t.Fatalf("%s: weight %d-%d is %v, should be %v", when, i+1, j+1, g, w)
					}
				}
			}
		}
		check("as set")
		for step := rapid.IntRange(1, 4).Draw(t, "steps"); step > 0; step-- {
			x := make([]float64, r.n)
			for i := 0; i < r.in; i++ {
				x[i] = float64(rapid.IntRange(-300, 300).Draw(t, "x")) / 100
			}
			rn, ro := r.run(x)
			big := 0.0
			for _, v := range rn {
				big = math.Max(big, math.Abs(v))
			}
			if big > 30 { // out of the range where rounding is harmless
				t.Skip()
			}
			a := mat.NewDense(r.n, 1, append([]float64{}, x...))
			its := r.depth() + rapid.IntRange(0, 2).Draw(t, "extra")
			net.Activate(a, its)
			for i := 0; i < r.n; i++ {
				if !near(a.At(i, 0), ro[i]) {
					t.Fatalf("node %d has value %v after %d passes over %v, should be %v", i+1, a.At(i, 0), its, x, ro[i])
				}
			}
			check("after activating")
			if rapid.IntRange(0, 4).Draw(t, "only") == 0 {
				continue
			}
			e := make([]float64, r.n)
			for i := r.in; i < r.n; i++ {
				if level[i] == len(layers) {
					e[i] = float64(rapid.IntRange(-200, 200).Draw(t, "e")) / 100
				}
			}
			em := mat.NewDense(r.n, 1, append([]float64{}, e...))
			want := r.delta(rn, e)
			got := net.Error(a, em, r.depth()+rapid.IntRange(0, 2).Draw(t, "extra2")+1)
			for i := r.in; i < r.n; i++ {
				if !near(got.At(i, 0), want[i]) {
					t.Fatalf("back-propagated error of node %d is %v, should be %v (inputs %v errors %v)", i+1, got.At(i, 0), want[i], x, e)
				}
			}
			for i := range e {
				if em.At(i, 0) != e[i] || !near(a.At(i, 0), ro[i]) {
					t.Fatalf("computing the error changed its arguments")
				}
			}
			if big := maxAbs(want); big > 100 {
				t.Skip()
			}
			lr := rapid.SampledFrom([]float64{0.01, 0.1, 0.5, 0.9}).Draw(t, "rate")
			if rapid.IntRange(0, 5).Draw(t, "which") > 0 {
				net.UpdateWeights(a, got, lr)
				for i := range r.w {
					for j := range r.w[i] {
						if r.w[i][j] != 0 {
							r.w[i][j] += lr * ro[i] * want[j]
						}
					}
				}
				check("after updating weights")
			}
			if rapid.IntRange(0, 5).Draw(t, "which") > 0 {
				net.UpdateBias(got, lr)
				for j := r.in; j < r.n; j++ {
					r.b[j] += lr * want[j]
				}
				check("after updating biases")
			}
			if rapid.IntRange(0, 3).Draw(t, "edit") == 0 {
				i, j := rapid.IntRange(0, r.n-2).Draw(t, "src"), rapid.IntRange(r.in, r.n-1).Draw(t, "dst")
				if level[i] < level[j] && (skip || level[j]-level[i] == 1) {
					r.w[i][j] = weight(t, "w")
					if rapid.IntRange(0, 3).Draw(t, "cut") == 0 {
						r.w[i][j] = 0
					}
					net.SetWeight(i+1, j+1, r.w[i][j])
				}
				r.b[j] = weight(t, "b")
				net.SetBias(j+1, r.b[j])
				check("after editing")
			}
		}
	})

	hx.Register("C33", "training without hidden layers", 700, 8000, func(t *rapid.T, c *hx.Case) {
		d := rapid.IntRange(1, 4).Draw(t, "inputs")
		k := rapid.IntRange(1, 3).Draw(t, "outputs")
		m := &hx.Table{Class: -1}
		for i := 0; i < d+k; i++ {
			m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("f%d", i), Kind: hx.Float, Prec: 3})
		}
		isClass := make([]bool, d+k)
		for _, i := range hx.Perm(t, d+k, "classes")[:k] {
			isClass[i] = true
		}
		for n := rapid.IntRange(1, 8).Draw(t, "rows"); n > 0; n-- {
			row := make([]float64, d+k)
			for i := range row {
				if isClass[i] {
					row[i] = float64(rapid.IntRange(0, 4).Draw(t, "y")) / 4
				} else {
					row[i] = float64(rapid.IntRange(-20, 20).Draw(t, "x")) / 10
				}
			}
			m.Rows = append(m.Rows, row)
		}
		epochs := rapid.SampledFrom([]int{1, 1, 2, 3, 10, 60}).Draw(t, "epochs")
		rate := rapid.SampledFrom([]float64{0.1, 0.5, 0.9}).Draw(t, "rate")
		seed := rapid.Int64Range(1, 1<<31).Draw(t, "seed")
		var ins, outs []int
		for i := range m.Cols {
			if isClass[i] {
				outs = append(outs, i)
			} else {
				ins = append(ins, i)
			}
		}
		c.Describe(len(m.Rows) > 1, "epochs %d rate %v seed %d classes %v %s", epochs, rate, seed, outs, m)
		c.Class(k > 1, "several outputs")
		build := func(m *hx.Table, attrs []base.Attribute) *base.DenseInstances {
			g := m.BuildWith(attrs)
			for _, o := range outs {
				g.AddClassAttribute(attrs[o])
			}
			return g
		}
		attrs := m.Attrs()
		train := func(its int) *neural.MultiLayerNet {
			net := neural.NewMultiLayerNet(nil)
			net.MaxIterations = its
			net.LearningRate = rate
			net.Convergence = 0
			rand.Seed(seed)
			net.Fit(build(m, attrs))
			return net
		}
		// ask predicts outputs for given inputs; the grid's own class
		// values must not matter
		ask := func(net *neural.MultiLayerNet, xs [][]float64) [][]float64 {
			q := &hx.Table{Cols: m.Cols, Class: -1}
			for _, x := range xs {
				row := make([]float64, d+k)
				for i := range row {
					row[i] = 9
				}
				for i, c := range ins {
					row[c] = x[i]
				}
				q.Rows = append(q.Rows, row)
			}
			pr := net.Predict(build(q, q.Attrs()))
			if _, n := pr.Size(); n != len(xs) {
				t.Fatalf("%d predictions for %d rows", n, len(xs))
			}
			ys := make([][]float64, len(xs))
			for _, o := range outs {
				s, err := pr.GetAttribute(attrs[o])
				if err != nil {
					t.Fatalf("the predictions lack %s: %v", m.Cols[o].Name, err)
				}
				for r := range ys {
					ys[r] = append(ys[r], base.UnpackBytesToFloat(pr.Get(s, r)))
				}
			}
			return ys
		}
		// The untrained network shows its weights.
		probes := [][]float64{make([]float64, d)}
		for i := 0; i < d; i++ {
			x := make([]float64, d)
			x[i] = 1
			probes = append(probes, x)
		}
		logit := func(p float64) float64 { return math.Log(p / (1 - p)) }
		first := ask(train(0), probes)
		w := make([][]float64, k)
		b := make([]float64, k)
		for o := range w {
			b[o] = logit(first[0][o])
			for i := 0; i < d; i++ {
				w[o] = append(w[o], logit(first[i+1][o])-b[o])
			}
		}
		out := func(o int, x []float64) float64 {
			s := b[o]
			for i, v := range x {
				s += w[o][i] * v
			}
			return 1 / (1 + math.Exp(-s))
		}
		input := func(row []float64) []float64 {
			var x []float64
			for _, c := range ins {
				x = append(x, row[c])
			}
			return x
		}
		for e := 0; e < epochs; e++ {
			for _, row := range m.Rows {
				x := input(row)
				for o, col := range outs {
					y := out(o, x)
					dl := rate * (row[col] - y) * y * (1 - y)
					for i := range x {
						w[o][i] += dl * x[i]
					}
					b[o] += dl
				}
			}
		}
		xs := append([][]float64{}, probes...)
		for _, row := range m.Rows {
			xs = append(xs, input(row))
		}
		ys := ask(train(epochs), xs)
		for r, x := range xs {
			for o := range outs {
				if want := out(o, x); !(math.Abs(ys[r][o]-want) < 1e-6) {
					t.Fatalf("after %d epochs the output %d for %v is %v, should be %v", epochs, o, x, ys[r][o], want)
				}
			}
		}
	})

	hx.Register("C33", "layered networks", 700, 8000, func(t *rapid.T, c *hx.Case) {
		// a table with typed columns and its all-float twin
		o := hx.Opts{MinRows: 1, MaxRows: 8, MinCols: 1, MaxCols: 3, Kinds: []hx.Kind{hx.Float, hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MinClass: 2, MaxClass: 4}
		if hx.Rare(t, "many labels", 10) {
			o.MinClass, o.MaxClass, o.MinRows, o.MaxRows = 5, 14, 6, 20
		}
		m := hx.GenTable(t, o)
		hidden := rapid.SliceOfN(rapid.IntRange(1, 4), 0, 4).Draw(t, "hidden")
		switch {
		case hx.Rare(t, "deep", 15):
			hidden = rapid.SliceOfN(rapid.IntRange(1, 3), 5, 8).Draw(t, "manyhidden")
		case hx.Rare(t, "broad", 30):
			hidden = rapid.SliceOfN(rapid.IntRange(8, 40), 1, 1).Draw(t, "broadhidden")
		}
		epochs := rapid.SampledFrom([]int{0, 1, 5, 40}).Draw(t, "epochs")
		rate := rapid.SampledFrom([]float64{0.1, 0.9}).Draw(t, "rate")
		seed := rapid.Int64Range(1, 1<<31).Draw(t, "seed")
		twin := &hx.Table{Class: -1}
		expand := func(c hx.Col, v float64) (cols []hx.Col, vals []float64) {
			if c.Kind != hx.Cat || len(c.Labels) <= 2 {
				return []hx.Col{{Name: c.Name, Kind: hx.Float, Prec: 3}}, []float64{v}
			}
			for i, l := range c.Labels {
				x := 0.0
				if float64(i) == v {
					x = 1
				}
				cols = append(cols, hx.Col{Name: c.Name + "_" + l, Kind: hx.Float, Prec: 3})
				vals = append(vals, x)
			}
			return
		}
		// Nodes follow the grid's own order of columns, in which binary
		// columns come together.
		attrs := m.Attrs()
		g := m.BuildWith(attrs)
		var order []int
		for _, a := range g.AllAttributes() {
			for i := range attrs {
				if attrs[i].Equals(a) {
					order = append(order, i)
				}
			}
		}
		var outs []int
		for _, i := range order {
			cols, _ := expand(m.Cols[i], 0)
			for range cols {
				if i == m.Class {
					outs = append(outs, len(twin.Cols))
				}
				twin.Cols = append(twin.Cols, cols[0])
				cols = cols[1:]
			}
		}
		names := map[string]bool{}
		for _, c := range twin.Cols {
			if names[c.Name] {
				t.Skip() // a label spells another column's name
			}
			names[c.Name] = true
		}
		twinRow := func(r []float64) []float64 {
			var row []float64
			for _, i := range order {
				_, v := expand(m.Cols[i], r[i])
				row = append(row, v...)
			}
			return row
		}
		for _, r := range m.Rows {
			twin.Rows = append(twin.Rows, twinRow(r))
		}
		nc := len(m.Cols[m.Class].Labels)
		c.Describe(len(hidden) > 0 && len(m.Rows) > 1, "hidden %v epochs %d rate %v seed %d %s", hidden, epochs, rate, seed, m)
		c.Class(len(hidden) > 0, "hidden layers")
		c.Class(nc > 2, "more than two labels")
		tattrs := twin.Attrs()
		build := func(tw *hx.Table) *base.DenseInstances {
			g := tw.BuildWith(tattrs)
			for _, o := range outs {
				g.AddClassAttribute(tattrs[o])
			}
			return g
		}
		fit := func(g base.FixedDataGrid, refit bool) *neural.MultiLayerNet {
			net := neural.NewMultiLayerNet(hidden)
			net.MaxIterations = epochs
			net.LearningRate = rate
			net.Convergence = 0
			if refit {
				rand.Seed(seed + 1)
				net.Fit(g)
			}
			rand.Seed(seed)
			net.Fit(g)
			return net
		}
		before := hx.Digest(t, g)
		refit := rapid.IntRange(0, 3).Draw(t, "refit") == 0
		net := fit(g, refit)
		if bad := misconnected(fmt.Sprint(net), append(append([]int{len(twin.Cols) - len(outs)}, hidden...), len(outs))); bad != "" {
			t.Fatalf("%s in %v", bad, net)
		}
		tnet := fit(build(twin), false)
		// queries: any rows, in any grid
		q := &hx.Table{Cols: m.Cols, Class: m.Class}
		tq := &hx.Table{Cols: twin.Cols, Class: -1}
		for i := rapid.IntRange(1, 6).Draw(t, "queries"); i > 0; i-- {
			r := hx.GenRow(t, m, hx.SmallFloat)
			if rapid.Bool().Draw(t, "seen") {
				r = append([]float64{}, m.Rows[rapid.IntRange(0, len(m.Rows)-1).Draw(t, "row")]...)
			}
			q.Rows = append(q.Rows, r)
			tq.Rows = append(tq.Rows, twinRow(r))
		}
		qattrs := attrs
		if rapid.Bool().Draw(t, "parsedapart") {
			qattrs = q.Attrs()
		}
		qg, qhow := hx.Wrap(t, q, qattrs)
		qbefore := hx.Digest(t, qg)
		pr := net.Predict(qg)
		tp := tnet.Predict(build(tq))
		if _, n := pr.Size(); n != len(q.Rows) {
			t.Fatalf("%d predictions for %d rows", n, len(q.Rows))
		}
		for i := range q.Rows {
			var act []float64
			for _, o := range outs {
				s, err := tp.GetAttribute(tattrs[o])
				if err != nil {
					t.Fatalf("%v", err)
				}
				v := base.UnpackBytesToFloat(tp.Get(s, i))
				if !(v >= 0 && v <= 1) {
					t.Fatalf("activation %v", v)
				}
				act = append(act, v)
			}
			var x []float64
			isOut := map[int]bool{}
			for _, o := range outs {
				isOut[o] = true
			}
			for j, v := range tq.Rows[i] {
				if !isOut[j] {
					x = append(x, v)
				}
			}
			if lo, hi, ok := described(fmt.Sprint(tnet), x, len(outs)); ok {
				c.Class(true, "checked against the described weights")
				for k, v := range act {
					if v < lo[k]-1e-6 || v > hi[k]+1e-6 {
						t.Fatalf("output %d for %v is %v; with the weights of the description it is between %v and %v: %v", k, x, v, lo[k], hi[k], tnet)
					}
				}
			}
			ok := map[string]bool{}
			for l := range m.Cols[m.Class].Labels {
				switch {
				case nc == 2 && (l == 1) == (act[0] > 0.5):
					ok[m.Cols[m.Class].Labels[l]] = true
				case nc == 2 && math.Abs(act[0]-0.5) < 1e-9:
					ok[m.Cols[m.Class].Labels[l]] = true
				case nc > 2 && act[l] >= maxAbs(act)-1e-9:
					ok[m.Cols[m.Class].Labels[l]] = true
				}
			}
			got := base.GetClass(pr, i)
			if !ok[got] {
				t.Fatalf("row %v (%s) is predicted as %q, the output nodes have %v for %q", q.Rows[i], qhow, got, act, m.Cols[m.Class].Labels)
			}
			one := &hx.Table{Cols: m.Cols, Class: m.Class, Rows: q.Rows[i : i+1]}
			og, _ := hx.Wrap(t, one, attrs)
			if l := base.GetClass(net.Predict(og), 0); l != got {
				t.Fatalf("row %v is predicted as %q in a grid and %q alone", q.Rows[i], got, l)
			}
		}
		if hx.Digest(t, qg) != qbefore || hx.Digest(t, g) != before {
			t.Fatalf("fitting or predicting changed a grid")
		}
		// A small step on one row brings the outputs nearer to it.
		row := &hx.Table{Cols: twin.Cols, Class: -1, Rows: twin.Rows[:1]}
		off := func(its int) float64 {
			n := neural.NewMultiLayerNet(hidden)
			n.MaxIterations, n.LearningRate, n.Convergence = its, 0.01, 0
			rand.Seed(seed)
			n.Fit(build(row))
			p := n.Predict(build(row))
			s := 0.0
			for _, o := range outs {
				as, _ := p.GetAttribute(tattrs[o])
				e := base.UnpackBytesToFloat(p.Get(as, 0)) - row.Rows[0][o]
				s += e * e
			}
			return s
		}
		if a, b := off(0), off(1); a > 1e-3 && b >= a {
			t.Fatalf("one step on one row moves the squared error from %v to %v", a, b)
		}
	})

	hx.Register("C33", "convergence", 200, 3000, func(t *rapid.T, c *hx.Case) {
		// several outputs, whose errors may cancel
		k := rapid.IntRange(1, 3).Draw(t, "outputs")
		m := &hx.Table{Class: -1, Cols: []hx.Col{{Name: "x", Kind: hx.Float, Prec: 3}}}
		for i := 0; i < k; i++ {
			m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("y%d", i), Kind: hx.Float, Prec: 3})
		}
		for n := rapid.IntRange(1, 4).Draw(t, "rows"); n > 0; n-- {
			row := []float64{float64(rapid.IntRange(-10, 10).Draw(t, "x")) / 5}
			for i := 0; i < k; i++ {
				row = append(row, float64(rapid.IntRange(0, 1).Draw(t, "y")))
			}
			m.Rows = append(m.Rows, row)
		}
		seed := rapid.Int64Range(1, 1<<31).Draw(t, "seed")
		limit := rapid.SampledFrom([]float64{0.02, 0.05}).Draw(t, "limit")
		its := rapid.SampledFrom([]int{1, 3, 30, 300}).Draw(t, "iterations")
		attrs := m.Attrs()
		build := func() *base.DenseInstances {
			g := m.BuildWith(attrs)
			for _, a := range attrs[1:] {
				g.AddClassAttribute(a)
			}
			return g
		}
		run := func(its int) (y []float64) {
			n := neural.NewMultiLayerNet([]int{2})
			n.MaxIterations, n.Convergence = its, limit
			rand.Seed(seed)
			n.Fit(build())
			p := n.Predict(build())
			for _, a := range attrs[1:] {
				as, _ := p.GetAttribute(a)
				for r := range m.Rows {
					y = append(y, base.UnpackBytesToFloat(p.Get(as, r)))
				}
			}
			return
		}
		c.Describe(k > 1, "seed %d limit %v iterations %d %s", seed, limit, its, m)
		a, b := run(its), run(its+1)
		same := true
		for i := range a {
			same = same && a[i] == b[i]
		}
		if !same {
			return
		}
		c.Class(true, "stopped early")
		e := 0.0
		for o := 0; o < k; o++ {
			for r, row := range m.Rows {
				e += math.Abs(a[o*len(m.Rows)+r]-row[o+1]) / float64(len(m.Rows))
			}
		}
		if e > 10*limit {
			t.Fatalf("training stopped within %d iterations with mean error %v, the limit is %v", its, e, limit)
		}
	})

	hx.Register("C33", "refusals", 100, 1000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 4, MinCols: 2, MaxCols: 3, Kinds: []hx.Kind{hx.Float}, ClassKind: hx.Cat, MinClass: 2, MaxClass: 3})
		what := rapid.SampledFrom([]string{"unfitted", "mixed classes", "other columns"}).Draw(t, "what")
		c.Describe(true, "%s %s", what, m)
		g, attrs := m.Build()
		net := neural.NewMultiLayerNet([]int{2})
		net.MaxIterations = 1
		switch what {
		case "mixed classes":
			g.AddClassAttribute(attrs[(m.Class+1)%len(attrs)])
			net.Fit(g)
		case "other columns":
			net.Fit(g)
			o := &hx.Table{Class: m.Class, Rows: m.Rows}
			for i, cl := range m.Cols {
				if i != m.Class {
					cl.Name += "x"
				}
				o.Cols = append(o.Cols, cl)
			}
			g, _ = o.Build()
		}
		if no, _ := refused(func() error { net.Predict(g); return nil }); !no {
			t.Fatalf("%s: predicted", what)
		}
	})
}

// misconnected finds a connection, as listed in the network's description,
// that is neither from a node to itself nor to a node of the next layer.
func misconnected(s string, layers []int) string {
	at := func(node int) int {
		for l, n := range layers {
			if node -= n; node <= 0 {
				return l
			}
		}
		return len(layers)
	}
	for _, x := range strings.Split(s, "(")[1:] {
		var i, j int
		var w float64
		if n, _ := fmt.Sscanf(x, "%d %d %f)", &i, &j, &w); n == 3 && i > 0 && j > 0 && i != j && at(j) != at(i)+1 {
			return fmt.Sprintf("node %d of layer %d is connected to node %d of layer %d", i, at(i), j, at(j))
		}
	}
	return ""
}

// described computes the outputs of a network of sigmoid nodes from its
// description, in which weights and biases have two decimals: the least and
// the greatest value of each of the last k nodes.
func described(s string, x []float64, k int) (lo, hi []float64, ok bool) {
	at := strings.Index(s, "Network(")
	if at < 0 {
		return nil, nil, false
	}
	s = s[at+len("Network("):]
	parts := strings.SplitN(s, ",", 3)
	n, err := strconv.Atoi(parts[0])
	if err != nil || len(parts) < 3 || n < len(x)+k {
		return nil, nil, false
	}
	biases := strings.Fields(parts[1])
	if len(biases) != n {
		return nil, nil, false
	}
	b := make([]float64, n)
	for i := range b {
		if b[i], err = strconv.ParseFloat(biases[i], 64); err != nil {
			return nil, nil, false
		}
	}
	w := make(map[[2]int]float64)
	for _, x := range strings.Split(parts[2], "(")[1:] {
		var i, j int
		var v float64
		if n, _ := fmt.Sscanf(x, "%d %d %f)", &i, &j, &v); n != 3 {
			return nil, nil, false
		}
		w[[2]int{i - 1, j - 1}] = v
	}
	const half = 0.005 + 1e-9
	lo, hi = append([]float64{}, x...), append([]float64{}, x...)
	for j := len(x); j < n; j++ {
		l, h := b[j]-half, b[j]+half
		for i := 0; i < j; i++ {
			v, linked := w[[2]int{i, j}]
			if !linked {
				continue
			}
			a := []float64{(v - half) * lo[i], (v - half) * hi[i], (v + half) * lo[i], (v + half) * hi[i]}
			sort.Float64s(a)
			l, h = l+a[0], h+a[3]
		}
		lo, hi = append(lo, 1/(1+math.Exp(-l))), append(hi, 1/(1+math.Exp(-h)))
	}
	return lo[n-k:], hi[n-k:], true
}

func maxAbs(x []float64) float64 {
	m := 0.0
	for _, v := range x {
		m = math.Max(m, math.Abs(v))
	}
	return m
}
