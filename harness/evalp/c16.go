package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/evaluation"
	"pgregory.net/rapid"
	"verif/hx"
)

func close9(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

// ratio compares a quotient with its definition; 0/0 may be reported as NaN
// or as 0.
func ratio(got, num, den float64) bool {
	if den == 0 {
		return math.IsNaN(got) || got == 0
	}
	return close9(got, num/den)
}

// column builds a grid whose class column holds the given labels, coded in an
// order of its own.
func column(t *rapid.T, labels []string, pool []string, kind hx.Kind, name string) (base.FixedDataGrid, string) {
	col := hx.Col{Name: name, Kind: kind, Prec: 2}
	code := map[string]float64{}
	if kind == hx.Cat {
		p := hx.Perm(t, len(pool), "codes")
		for k, i := range p {
			col.Labels = append(col.Labels, pool[i])
			code[pool[i]] = float64(k)
		}
	} else {
		for _, l := range pool {
			v, err := strconv.ParseFloat(l, 64)
			if err != nil {
				t.Fatalf("%v", err)
			}
			code[l] = v
		}
	}
	m := &hx.Table{Cols: []hx.Col{col}, Class: 0}
	if rapid.Bool().Draw(t, "feature") {
		m.Cols = append(m.Cols, hx.Col{Name: "x", Kind: hx.Float})
	}
	for _, l := range labels {
		row := make([]float64, len(m.Cols))
		row[0] = code[l]
		m.Rows = append(m.Rows, row)
	}
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	return hx.Wrap(t, m, attrs)
}

func init() {
	hx.Register("C16", "metrics", 6000, 200000, func(t *rapid.T, c *hx.Case) {
		kind := rapid.SampledFrom([]hx.Kind{hx.Cat, hx.Cat, hx.Cat, hx.Float, hx.Bin}).Draw(t, "kind")
		var pool []string
		switch kind {
		case hx.Cat:
			pool = hx.Labels(t, rapid.IntRange(1, 5).Draw(t, "labels"), "pool")
			if hx.Rare(t, "longlabels", 20) {
				for i := range pool {
					pool[i] += strings.Repeat(rapid.SampledFrom([]string{"x", "ab"}).Draw(t, "tail"), rapid.IntRange(8, 200).Draw(t, "length"))
				}
			}
		case hx.Float:
			pool = []string{"0.00", "1.00", "-2.50", "0.25"}[:rapid.IntRange(1, 4).Draw(t, "labels")]
		default:
			pool = []string{"0", "1"}
		}
		n := rapid.IntRange(0, 4).Draw(t, "n")
		if rapid.IntRange(0, 2).Draw(t, "long") > 0 {
			n = rapid.IntRange(0, 40).Draw(t, "rows")
		}
		if hx.Rare(t, "big", 300) {
			n = rapid.IntRange(100, 1500).Draw(t, "bigrows")
			if kind == hx.Cat && rapid.Bool().Draw(t, "manylabels") {
				for k := rapid.IntRange(20, 400).Draw(t, "biglabels"); len(pool) < k; {
					pool = append(pool, fmt.Sprint("more", len(pool)))
				}
			}
		}
		// the reference often lacks some of the labels
		refPool := pool[:rapid.IntRange(1, len(pool)).Draw(t, "refpool")]
		var ref, gen []string
		for i := 0; i < n; i++ {
			r := rapid.SampledFrom(refPool).Draw(t, "r")
			g := r
			if rapid.IntRange(0, 2).Draw(t, "wrong") == 0 {
				g = rapid.SampledFrom(pool).Draw(t, "g")
			}
			ref, gen = append(ref, r), append(gen, g)
		}
		rg, rh := column(t, ref, pool, kind, "ref")
		gg, gh := column(t, gen, pool, kind, "gen")
		c.Describe(n > 1 && len(pool) > 1, "%s %q / %s %q", rh, ref, gh, gen)
		cm, err := evaluation.GetConfusionMatrix(rg, gg)
		if err != nil {
			t.Fatalf("confusion matrix of %d rows: %v", n, err)
		}
		want := map[string]map[string]int{}
		count := func(f func(r, g string) bool) float64 {
			k := 0
			for i := range ref {
				if f(ref[i], gen[i]) {
					k++
				}
			}
			return float64(k)
		}
		inRef, all := map[string]bool{}, map[string]bool{}
		for i := range ref {
			if want[ref[i]] == nil {
				want[ref[i]] = map[string]int{}
			}
			want[ref[i]][gen[i]]++
			inRef[ref[i]] = true
			all[ref[i]], all[gen[i]] = true, true
		}
		c.Class(len(all) > len(inRef), "label only predicted")
		for r, row := range cm {
			for g, k := range row {
				if want[r][g] != k {
					t.Fatalf("matrix has %d rows of %q predicted %q, there are %d", k, r, g, want[r][g])
				}
			}
		}
		for r, row := range want {
			for g, k := range row {
				if cm[r][g] != k {
					t.Fatalf("matrix has %d rows of %q predicted %q, there are %d", cm[r][g], r, g, k)
				}
			}
		}
		m := evaluation.ConfusionMatrix(cm)
		exact := func(what, l string, got, want float64) {
			if got != want {
				t.Fatalf("%s of %q is %v, want %v (ref %q gen %q)", what, l, got, want, ref, gen)
			}
		}
		rat := func(what, l string, got, num, den float64) {
			if !ratio(got, num, den) {
				t.Fatalf("%s of %q is %v, want %v/%v (ref %q gen %q)", what, l, got, num, den, ref, gen)
			}
		}
		sumP, sumR := 0.0, 0.0
		undefP, undefR := false, false
		summary := map[string]string{}
		for _, l := range append(append([]string(nil), pool...), "no such label") {
			tp := count(func(r, g string) bool { return r == l && g == l })
			fp := count(func(r, g string) bool { return r != l && g == l })
			fn := count(func(r, g string) bool { return r == l && g != l })
			tn := count(func(r, g string) bool { return r != l && g != l })
			exact("true positives", l, evaluation.GetTruePositives(l, m), tp)
			exact("false positives", l, evaluation.GetFalsePositives(l, m), fp)
			exact("false negatives", l, evaluation.GetFalseNegatives(l, m), fn)
			exact("true negatives", l, evaluation.GetTrueNegatives(l, m), tn)
			rat("precision", l, evaluation.GetPrecision(l, m), tp, tp+fp)
			rat("recall", l, evaluation.GetRecall(l, m), tp, tp+fn)
			f1 := evaluation.GetF1Score(l, m)
			if tp > 0 && !close9(f1, 2*tp/(2*tp+fp+fn)) || tp == 0 && !(math.IsNaN(f1) || f1 == 0) {
				t.Fatalf("F1 of %q is %v (tp %v fp %v fn %v)", l, f1, tp, fp, fn)
			}
			if inRef[l] {
				if tp+fp == 0 {
					undefP = true
				} else {
					sumP += tp / (tp + fp)
				}
				if tp+fn == 0 {
					undefR = true
				} else {
					sumR += tp / (tp + fn)
				}
				summary[l] = fmt.Sprintf("%.0f %.0f %.0f", tp, fp, tn)
			}
		}
		right := count(func(r, g string) bool { return r == g })
		rat("accuracy", "", evaluation.GetAccuracy(m), right, float64(n))
		rat("micro precision", "", evaluation.GetMicroPrecision(m), right, float64(n))
		rat("micro recall", "", evaluation.GetMicroRecall(m), right, float64(n))
		// averages over the reference labels; or over all labels, where those
		// only predicted have precision 0 and no recall
		mp, mr := evaluation.GetMacroPrecision(m), evaluation.GetMacroRecall(m)
		kr, ka := float64(len(inRef)), float64(len(all))
		if n > 0 {
			if !(undefP && math.IsNaN(mp)) && !close9(mp, sumP/kr) && !close9(mp, sumP/ka) {
				t.Fatalf("macro precision is %v, want %v (ref %q gen %q)", mp, sumP/kr, ref, gen)
			}
			if !(undefR && math.IsNaN(mr)) && !close9(mr, sumR/kr) {
				t.Fatalf("macro recall is %v, want %v (ref %q gen %q)", mr, sumR/kr, ref, gen)
			}
		}
		// the printed forms
		text := evaluation.GetSummary(m)
		lines := strings.Split(strings.TrimSpace(text), "\n")
		if len(lines) != len(inRef)+3 {
			t.Fatalf("summary has %d lines for %d classes:\n%s", len(lines), len(inRef), text)
		}
		for _, line := range lines[2 : len(lines)-1] {
			f := strings.Fields(line)
			if len(f) != 7 {
				t.Fatalf("summary line %q", line)
			}
			if got := strings.Join(f[1:4], " "); got != summary[f[0]] {
				t.Fatalf("summary of %q reads %s, want %s\n%s", f[0], got, summary[f[0]], text)
			}
			num := func(s string, v float64) bool {
				x, err := strconv.ParseFloat(s, 64)
				return err == nil && (math.IsNaN(x) && math.IsNaN(v) || math.Abs(x-v) <= 0.00005001)
			}
			if !num(f[4], evaluation.GetPrecision(f[0], m)) || !num(f[5], evaluation.GetRecall(f[0], m)) || !num(f[6], evaluation.GetF1Score(f[0], m)) {
				t.Fatalf("summary line %q", line)
			}
			delete(summary, f[0])
		}
		table := strings.Split(strings.TrimRight(evaluation.ShowConfusionMatrix(m), "\n"), "\n")
		head := strings.Fields(table[0])[2:]
		sorted := append([]string(nil), head...)
		sort.Strings(sorted)
		var names []string
		for l := range all {
			names = append(names, l)
		}
		sort.Strings(names)
		if strings.Join(sorted, " ") != strings.Join(names, " ") || len(table) != len(inRef)+2 {
			t.Fatalf("matrix has %d lines and the columns %q, the labels are %q (ref %q gen %q)", len(table), head, names, ref, gen)
		}
		for _, line := range table[2:] {
			f := strings.Fields(line)
			if len(f) != len(head)+1 {
				t.Fatalf("matrix line %q", line)
			}
			for i, h := range head {
				if f[i+1] != strconv.Itoa(want[f[0]][h]) {
					t.Fatalf("matrix shows %s rows of %q predicted %q, there are %d", f[i+1], f[0], h, want[f[0]][h])
				}
			}
		}
	})

	// matrices with counts no test data set would reach
	hx.Register("C16", "counts", 2000, 40000, func(t *rapid.T, c *hx.Case) {
		labels := hx.Labels(t, rapid.IntRange(1, 6).Draw(t, "labels"), "pool")
		m := evaluation.ConfusionMatrix{}
		n := 0.0
		for _, r := range labels {
			for _, g := range labels {
				if rapid.IntRange(0, 3).Draw(t, "none") > 0 {
					if m[r] == nil {
						m[r] = map[string]int{}
					}
					m[r][g] = rapid.IntRange(0, rapid.SampledFrom([]int{3, 300, 1 << 17, 1 << 33, 1 << 45}).Draw(t, "to")).Draw(t, "count")
					n += float64(m[r][g])
				}
			}
		}
		c.Describe(len(m) > 1, "%v", m)
		right := 0.0
		for _, l := range labels {
			var tp, fp, fn, tn float64
			for r := range m {
				for g, k := range m[r] {
					switch {
					case r == l && g == l:
						tp += float64(k)
					case r == l:
						fn += float64(k)
					case g == l:
						fp += float64(k)
					default:
						tn += float64(k)
					}
				}
			}
			right += tp
			for i, x := range []float64{evaluation.GetTruePositives(l, m), evaluation.GetFalsePositives(l, m), evaluation.GetFalseNegatives(l, m), evaluation.GetTrueNegatives(l, m)} {
				if want := []float64{tp, fp, fn, tn}[i]; x != want {
					t.Fatalf("%q: %s %v, want %v in %v", l, []string{"true positives", "false positives", "false negatives", "true negatives"}[i], x, want, m)
				}
			}
			if p, r := evaluation.GetPrecision(l, m), evaluation.GetRecall(l, m); !ratio(p, tp, tp+fp) || !ratio(r, tp, tp+fn) {
				t.Fatalf("%q: precision %v and recall %v in %v", l, p, r, m)
			}
		}
		for i, x := range []float64{evaluation.GetAccuracy(m), evaluation.GetMicroPrecision(m), evaluation.GetMicroRecall(m)} {
			if !ratio(x, right, n) {
				t.Fatalf("%s %v, want %v/%v in %v", []string{"accuracy", "micro precision", "micro recall"}[i], x, right, n, m)
			}
		}
	})

	hx.Register("C16", "mismatch", 400, 5000, func(t *rapid.T, c *hx.Case) {
		pool := []string{"a", "b"}
		mk := func(name string) []string { return rapid.SliceOfN(rapid.SampledFrom(pool), 0, 6).Draw(t, name) }
		a, b := mk("a"), mk("b")
		ga, _ := column(t, a, pool, hx.Cat, "ref")
		gb, _ := column(t, b, pool, hx.Cat, "gen")
		c.Describe(len(a) != len(b), "%q / %q", a, b)
		if _, err := evaluation.GetConfusionMatrix(ga, gb); (err != nil) != (len(a) != len(b)) {
			t.Fatalf("grids of %d and %d rows: error %v", len(a), len(b), err)
		}
	})
}
