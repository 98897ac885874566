package main

import (
	"fmt"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/filters"
	"pgregory.net/rapid"
	"verif/hx"
)

// conv is one converted column: where it comes from and what it must hold.
type conv struct {
	col  hx.Col
	from int
	val  func(float64) float64
}

func ident(v float64) float64 { return v }

// convert is the reference conversion of a column by the binary (or float)
// converting filter.
func convert(c hx.Col, from int, toFloat bool) []conv {
	k := hx.Bin
	if toFloat {
		k = hx.Float
	}
	switch {
	case c.Kind == hx.Cat && len(c.Labels) <= 2:
		return []conv{{hx.Col{Name: c.Name, Kind: k, Prec: 2}, from, ident}}
	case c.Kind == hx.Cat:
		var out []conv
		for i, l := range c.Labels {
			i := float64(i)
			out = append(out, conv{hx.Col{Name: c.Name + "_" + l, Kind: k, Prec: 2}, from, func(v float64) float64 {
				if v == i {
					return 1
				}
				return 0
			}})
		}
		return out
	case c.Kind == hx.Float && !toFloat:
		return []conv{{hx.Col{Name: c.Name, Kind: k}, from, func(v float64) float64 {
			if v != 0 {
				return 1
			}
			return 0
		}}}
	case c.Kind == hx.Bin && toFloat:
		return []conv{{hx.Col{Name: c.Name, Kind: k, Prec: 2}, from, ident}}
	}
	return []conv{{c, from, ident}}
}

// checkFiltered compares a filtered grid with its model table in every way a
// user can read it. classes holds the names of the class attributes.
func checkFiltered(t *rapid.T, what string, g base.FixedDataGrid, m *hx.Table, classes map[string]bool) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(m.Rows) {
		t.Fatalf("%s: size %d x %d, want %d x %d", what, cols, rows, len(m.Cols), len(m.Rows))
	}
	all := g.AllAttributes()
	if len(all) != len(m.Cols) {
		t.Fatalf("%s: %d attributes listed, want %d", what, len(all), len(m.Cols))
	}
	attrs := make([]base.Attribute, len(m.Cols))
	for i, c := range m.Cols {
		attrs[i] = hx.FindAttr(t, g, c.Name)
		hx.CheckAttr(t, what, attrs[i], c)
	}
	hx.CheckCells(t, what, g, attrs, m)
	got := map[string]bool{}
	for _, a := range g.AllClassAttributes() {
		if got[a.GetName()] {
			t.Fatalf("%s: class attribute %q listed twice", what, a.GetName())
		}
		got[a.GetName()] = true
	}
	if fmt.Sprint(got) != fmt.Sprint(classes) {
		t.Fatalf("%s: class attributes %v, want %v", what, got, classes)
	}
	// row text, in the order of the listed attributes
	at := map[string]int{}
	for i, c := range m.Cols {
		at[c.Name] = i
	}
	for r := range m.Rows {
		var w []string
		for _, a := range all {
			i := at[a.GetName()]
			c := m.Cols[i]
			if f, ok := a.(*base.FloatAttribute); ok {
				c.Prec = f.Precision
			}
			w = append(w, c.Str(m.Rows[r][i]))
		}
		if got, want := g.RowString(r), strings.Join(w, " "); got != want {
			t.Fatalf("%s: row %d reads %q, want %q", what, r, got, want)
		}
	}
	_ = fmt.Sprint(g)
}

func init() {
	hx.Register("C18", "convert", 4000, 120000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 9, MinCols: 1, MaxCols: 5, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin},
			ClassKind: hx.Kind(rapid.IntRange(0, 2).Draw(t, "classkind")), MaxClass: 5, MaxLabels: 5, Spaced: true, Value: hx.AnyFloat, Big: 400})
		for _, col := range m.Cols { // an indicator for each label
			if n := len(col.Labels); n > 50 {
				m.Rows = m.Rows[:min(len(m.Rows), 6000/n)]
			}
		}
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		before := hx.Digest(t, g)
		toFloat := rapid.Bool().Draw(t, "tofloat")
		var f base.Filter
		if toFloat {
			f = filters.NewFloatConvertFilter()
		} else {
			f = filters.NewBinaryConvertFilter()
		}
		order := hx.Perm(t, len(m.Cols), "order")
		picked := map[int]bool{}
		for _, i := range order {
			if rapid.IntRange(0, 2).Draw(t, "pick") > 0 {
				picked[i] = true
				if err := f.AddAttribute(attrs[i]); err != nil {
					t.Fatalf("AddAttribute: %v", err)
				}
			}
		}
		if err := f.Train(); err != nil {
			t.Fatalf("Train: %v", err)
		}
		var cs []conv
		classes := map[string]bool{}
		indic := false
		for i, col := range m.Cols {
			nc := []conv{{col, i, ident}}
			if picked[i] {
				nc = convert(col, i, toFloat)
				indic = indic || len(nc) > 1
			}
			for _, x := range nc {
				if i == m.Class {
					classes[x.col.Name] = true
				}
			}
			cs = append(cs, nc...)
		}
		want := &hx.Table{Class: -1}
		for _, x := range cs {
			want.Cols = append(want.Cols, x.col)
		}
		for _, row := range m.Rows {
			nr := make([]float64, len(cs))
			for i, x := range cs {
				nr[i] = x.val(row[x.from])
			}
			want.Rows = append(want.Rows, nr)
		}
		c.Describe(len(m.Rows) > 1 && len(picked) > 0, "float=%v filtered=%v %s %s", toFloat, picked, how, m)
		c.Class(indic, "set indicators")
		c.Class(len(picked) < len(m.Cols), "some attributes untouched")
		c.Class(m.Class >= 0 && picked[m.Class], "class filtered")
		c.Class(how != "dense", "view source")

		fg := g
		if rapid.IntRange(0, 3).Draw(t, "ownattrs") == 0 {
			// another grid with equal attributes
			attrs = make([]base.Attribute, len(m.Cols))
			for i := range attrs {
				attrs[i] = m.Cols[i].NewAttr()
			}
			fg, _ = hx.Wrap(t, m, attrs)
			c.Class(true, "equal attributes")
		}
		lf := base.NewLazilyFilteredInstances(fg, f)
		checkFiltered(t, "filtered grid", lf, want, classes)
		checkFiltered(t, "dense copy of the filtered grid", base.NewDenseCopy(lf), want, classes)
		no := base.NewFloatAttribute("nowhere at all")
		if _, err := lf.GetAttribute(no); err == nil {
			t.Fatalf("an attribute that is not there was found")
		}
		if lf.AddClassAttribute(no) == nil || lf.RemoveClassAttribute(no) == nil {
			t.Fatalf("an attribute that is not there was made a class, or unmade")
		}
		// a class is removed and added back by its name before or after filtering
		if m.Class >= 0 {
			old := attrs[m.Class]
			if rapid.Bool().Draw(t, "bynew") && len(classes) == 1 {
				old = lf.AllClassAttributes()[0]
			}
			if err := lf.RemoveClassAttribute(old); err != nil {
				t.Fatalf("RemoveClassAttribute: %v", err)
			}
			checkFiltered(t, "filtered grid without class", lf, want, map[string]bool{})
			if err := lf.AddClassAttribute(old); err != nil {
				t.Fatalf("AddClassAttribute: %v", err)
			}
			checkFiltered(t, "filtered grid with its class added back", lf, want, classes)
		}
		if len(want.Cols) > 0 {
			// a view of the filtered grid, and a second filter over it
			f2 := filters.NewFloatConvertFilter()
			w2 := &hx.Table{Class: -1}
			var cs2 []conv
			classes2 := map[string]bool{}
			for i, col := range want.Cols {
				nc := []conv{{col, i, ident}}
				if rapid.Bool().Draw(t, "pick2") {
					f2.AddAttribute(hx.FindAttr(t, lf, col.Name))
					nc = convert(col, i, true)
				}
				for _, x := range nc {
					if classes[col.Name] {
						classes2[x.col.Name] = true
					}
					w2.Cols = append(w2.Cols, x.col)
				}
				cs2 = append(cs2, nc...)
			}
			f2.Train()
			for _, row := range want.Rows {
				nr := make([]float64, len(cs2))
				for i, x := range cs2 {
					nr[i] = x.val(row[x.from])
				}
				w2.Rows = append(w2.Rows, nr)
			}
			checkFiltered(t, "filter over a filtered grid", base.NewLazilyFilteredInstances(lf, f2), w2, classes2)
			p := hx.Perm(t, len(want.Rows), "rows")
			if len(p) > 1 {
				mp := map[int]int{}
				for i := range p {
					mp[i] = p[i]
				}
				checkFiltered(t, "view of the filtered grid", base.NewInstancesViewFromRows(lf, mp), want.Sub(p), classes)
			}
		}
		if after := hx.Digest(t, g); after != before {
			t.Fatalf("filtering changed the source grid:\n%s\n%s", before, after)
		}
	})
}
