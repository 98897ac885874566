package main

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func init() {
	for _, f := range families {
		f := f
		hx.Register("C35", f, 250, 20000, func(t *rapid.T, c *hx.Case) {
			m := draw(t, f)
			train, attrs, how := m.train(t)
			q := m.queries(t, 8)
			c.Describe(len(q.Rows) > 1 && len(m.m.Rows) > 2, "%s trained on %s %s, asked %s", m.how, how, m.m, q)
			tbefore := hx.Digest(t, train)
			g := q.BuildWith(attrs)
			want := m.answers(t, g)
			distinct := map[string]bool{}
			for _, w := range want {
				distinct[w] = true
			}
			c.Class(len(distinct) > 1, "different predictions")
			ask := func(what string, g base.FixedDataGrid, rows []int) {
				before := hx.Digest(t, g)
				got := m.answers(t, g)
				for i, r := range rows {
					if got[i] != want[r] {
						t.Fatalf("%s: %s: row %v is predicted %q, among the others %q", m.how, what, q.Rows[r], got[i], want[r])
					}
				}
				if hx.Digest(t, g) != before {
					t.Fatalf("%s: %s: predicting changed the grid", m.how, what)
				}
			}
			all := make([]int, len(q.Rows))
			for i := range all {
				all[i] = i
			}
			ask("again", g, all)
			// some rows, in some order, some twice, in any grid
			sel := func() []int {
				var s []int
				for n := rapid.IntRange(1, len(q.Rows)+3).Draw(t, "n"); n > 0; n-- {
					s = append(s, rapid.IntRange(0, len(q.Rows)-1).Draw(t, "r"))
				}
				if hx.Rare(t, "many", 15+1) { // the same rows over and over
					for n, k := rapid.IntRange(100, 400).Draw(t, "rows"), len(s); n > 0; n-- {
						s = append(s, s[n%k])
					}
				}
				return s
			}
			s := sel()
			vg, vhow := hx.Wrap(t, q.Sub(s), attrs)
			ask(fmt.Sprintf("rows %v (%s)", s, vhow), vg, s)
			one := rapid.IntRange(0, len(q.Rows)-1).Draw(t, "one")
			vg, vhow = hx.Wrap(t, q.Sub([]int{one}), attrs)
			ask("alone ("+vhow+")", vg, []int{one})
			// the class cells say nothing (but isolation forests have no class)
			s = sel()
			if f != "isolation" {
				x := q.Sub(s)
				for i, r := range x.Rows {
					r = append([]float64{}, r...)
					if k := x.Cols[x.Class]; k.Kind == hx.Cat {
						r[x.Class] = float64(rapid.IntRange(0, len(k.Labels)-1).Draw(t, "hide"))
					} else {
						r[x.Class] = float64(rapid.IntRange(0, 1).Draw(t, "hide"))
					}
					x.Rows[i] = r
				}
				vg, vhow = hx.Wrap(t, x, attrs)
				ask("with other class cells ("+vhow+")", vg, s)
			}
			// an equal grid made apart
			s = sel()
			vg, vhow = hx.Wrap(t, q.Sub(s), q.Attrs())
			ask("with equal attributes ("+vhow+")", vg, s)
			if m.byName {
				p := hx.Perm(t, len(q.Cols), "columns")
				x := &hx.Table{}
				var xa []base.Attribute
				for i, j := range p {
					x.Cols = append(x.Cols, q.Cols[j])
					xa = append(xa, attrs[j])
					if j == q.Class {
						x.Class = i
					}
				}
				for _, r := range q.Rows {
					var y []float64
					for _, j := range p {
						y = append(y, r[j])
					}
					x.Rows = append(x.Rows, y)
				}
				vg, vhow = hx.Wrap(t, x, xa)
				ask(fmt.Sprintf("with columns in the order %v (%s)", p, vhow), vg, all)
			}
			ask("at last", g, all)
			if hx.Digest(t, train) != tbefore {
				t.Fatalf("%s: predicting changed the training grid", m.how)
			}
		})
	}
}
