package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// viewModel says, for a view over a dense grid, which source row each row is
// and which source columns are visible in which order.
type viewModel struct {
	g     base.FixedDataGrid
	rows  []int
	cols  []int
	class map[int]bool
	how   string
}

func init() {
	hx.Register("C03", "nested", 3000, 80000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 1, MaxRows: 9, MinCols: 1, MaxCols: 5,
			Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, MaxClass: 4, Twins: true, Big: 200})
		d, attrs := m.Build()
		cls := map[int]bool{m.Class: true}
		if rapid.IntRange(0, 3).Draw(t, "secondclass") == 0 {
			k := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "k")
			d.AddClassAttribute(attrs[k])
			cls[k] = true
		}
		root := &viewModel{g: d, class: cls, how: "dense"}
		for i := range m.Rows {
			root.rows = append(root.rows, i)
		}
		for _, a := range d.AllAttributes() {
			for i := range attrs {
				if attrs[i] == a {
					root.cols = append(root.cols, i)
				}
			}
		}
		views := []*viewModel{root}
		n := rapid.IntRange(1, 5).Draw(t, "views")
		for i := 0; i < n; i++ {
			src := views[len(views)-1]
			if rapid.IntRange(0, 3).Draw(t, "other") == 0 {
				src = views[rapid.IntRange(0, len(views)-1).Draw(t, "src")]
			}
			if len(src.cols) == 0 {
				src = root
			}
			v := &viewModel{class: map[int]bool{}}
			subset := func() []base.Attribute {
				p := hx.Perm(t, len(src.cols), "colorder")
				k := rapid.IntRange(1, len(src.cols)).Draw(t, "ncols")
				var as []base.Attribute
				for _, x := range p[:k] {
					v.cols = append(v.cols, src.cols[x])
					as = append(as, attrs[src.cols[x]])
				}
				return as
			}
			nsrc := len(src.rows)
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				v.how = "rows(" + src.how + ")"
				v.cols = src.cols
				mp := map[int]int{}
				size := nsrc
				if nsrc > 0 {
					if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
						size = nsrc + rapid.IntRange(1, 4).Draw(t, "more")
						for k := 0; k < size; k++ {
							mp[k] = rapid.IntRange(0, nsrc-1).Draw(t, "to")
						}
					} else {
						for k := 0; k < size; k++ {
							if rapid.Bool().Draw(t, "mapped") {
								mp[k] = rapid.IntRange(0, nsrc-1).Draw(t, "to")
							}
						}
					}
				}
				v.g = base.NewInstancesViewFromRows(src.g, mp)
				for k := 0; k < size; k++ {
					to, ok := mp[k]
					if !ok {
						to = k
					}
					v.rows = append(v.rows, src.rows[to])
				}
			case 1:
				v.how = "visible(" + src.how + ")"
				as := subset()
				var vis []int
				if nsrc > 0 {
					vis = rapid.SliceOfN(rapid.IntRange(0, nsrc-1), 0, 2*nsrc).Draw(t, "visible")
				}
				v.g = base.NewInstancesViewFromVisible(src.g, vis, as)
				for _, r := range vis {
					v.rows = append(v.rows, src.rows[r])
				}
			case 2:
				v.how = "attrs(" + src.how + ")"
				v.g = base.NewInstancesViewFromAttrs(src.g, subset())
				v.rows = src.rows
			}
			for _, k := range v.cols {
				if src.class[k] {
					v.class[k] = true
				}
			}
			views = append(views, v)
		}
		var hows []string
		for _, v := range views[1:] {
			hows = append(hows, v.how)
		}
		nt := false
		for _, v := range views[1:] {
			for i, r := range v.rows {
				nt = nt || i != r
			}
		}
		c.Describe(nt, "%s over %s", strings.Join(hows, ","), m)
		c.Class(strings.Count(strings.Join(hows, ","), "(") > 2, "nested")
		check := func() {
			for _, v := range views {
				checkView(t, v, m, attrs)
			}
		}
		check()
		for i := 0; i < rapid.IntRange(0, 4).Draw(t, "changes"); i++ {
			if rapid.Bool().Draw(t, "write") {
				// write to the source
				k := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "wc")
				r := rapid.IntRange(0, len(m.Rows)-1).Draw(t, "wr")
				nv := hx.GenRow(t, m, hx.AnyFloat)[k]
				s, _ := d.GetAttribute(attrs[k])
				d.Set(s, r, m.Cols[k].Pack(nv))
				m.Rows[r] = append([]float64(nil), m.Rows[r]...)
				m.Rows[r][k] = nv
			} else {
				v := views[rapid.IntRange(0, len(views)-1).Draw(t, "which")]
				k := v.cols[rapid.IntRange(0, len(v.cols)-1).Draw(t, "cc")]
				on := rapid.Bool().Draw(t, "on")
				var err error
				if on {
					err = v.g.AddClassAttribute(attrs[k])
				} else {
					err = v.g.RemoveClassAttribute(attrs[k])
				}
				if err != nil {
					t.Fatalf("class change of %v on %s: %v", attrs[k], v.how, err)
				}
				v.class[k] = on
			}
			check()
		}
		// hidden attributes are refused
		for _, v := range views {
			vis := map[int]bool{}
			for _, k := range v.cols {
				vis[k] = true
			}
			for k := range attrs {
				if vis[k] {
					continue
				}
				if _, err := v.g.GetAttribute(attrs[k]); err == nil {
					t.Fatalf("%s resolves the hidden %v", v.how, attrs[k])
				}
				if err := v.g.AddClassAttribute(attrs[k]); err == nil {
					t.Fatalf("%s takes the hidden %v as class", v.how, attrs[k])
				}
			}
			if _, err := v.g.GetAttribute(base.NewFloatAttribute("nowhere")); err == nil {
				t.Fatalf("%s resolves an unknown attribute", v.how)
			}
		}
		v := views[len(views)-1]
		checkIterationControl(t, v.g, v.g.AllAttributes(), rapid.IntRange(0, 10).Draw(t, "stop"), rapid.IntRange(0, 1).Draw(t, "mode"))
		// a dense copy of the innermost view
		cp := base.NewDenseCopy(v.g)
		want := &hx.Table{Class: -1}
		var ca []base.Attribute
		for _, k := range v.cols {
			want.Cols = append(want.Cols, m.Cols[k])
			ca = append(ca, attrs[k])
		}
		for _, r := range v.rows {
			var row []float64
			for _, k := range v.cols {
				row = append(row, m.Rows[r][k])
			}
			want.Rows = append(want.Rows, row)
		}
		hx.CheckCells(t, "dense copy of "+v.how, cp, ca, want)
	})
}

func checkView(t hx.TB, v *viewModel, m *hx.Table, attrs []base.Attribute) {
	cols, rows := v.g.Size()
	if cols != len(v.cols) || rows != len(v.rows) {
		t.Fatalf("%s: size %d x %d, want %d x %d", v.how, cols, rows, len(v.cols), len(v.rows))
	}
	all := v.g.AllAttributes()
	if len(all) != len(v.cols) {
		t.Fatalf("%s: lists %v, want %d attributes", v.how, all, len(v.cols))
	}
	var want, got []string
	for i, k := range v.cols {
		if !all[i].Equals(attrs[k]) {
			t.Fatalf("%s: attribute %d is %v, want %v", v.how, i, all[i], attrs[k])
		}
	}
	for k, on := range v.class {
		if on {
			want = append(want, fmt.Sprint(attrs[k].GetName(), "/", hx.KindOf(attrs[k])))
		}
	}
	for _, a := range v.g.AllClassAttributes() {
		got = append(got, fmt.Sprint(a.GetName(), "/", hx.KindOf(a)))
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		t.Fatalf("%s: class attributes %v, want %v", v.how, got, want)
	}
	specs := hx.SpecsOf(t, v.g, all)
	byGet := hx.CellsByGet(t, v.g, all)
	byMap := hx.CellsByMap(t, v.g, all)
	for i, r := range v.rows {
		var text []string
		for j, k := range v.cols {
			if specs[j].GetAttribute() == nil || !specs[j].GetAttribute().Equals(attrs[k]) {
				t.Fatalf("%s: resolving %v gave %v", v.how, attrs[k], specs[j])
			}
			hx.CheckCell(t, v.how+" single read", attrs[k], m.Cols[k], byGet[i][j], i, m.Rows[r][k])
			hx.CheckCell(t, v.how+" iteration", attrs[k], m.Cols[k], byMap[i][j], i, m.Rows[r][k])
			text = append(text, m.Cols[k].Str(m.Rows[r][k]))
		}
		if s := v.g.RowString(i); strings.Join(strings.Fields(s), " ") != strings.Join(text, " ") {
			t.Fatalf("%s: text of row %d is %q, want %q", v.how, i, s, text)
		}
	}
}
