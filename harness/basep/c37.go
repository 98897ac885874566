package main

import (
	"fmt"
	"math"
	"strconv"

	dataframe "github.com/rocketlaunchr/dataframe-go"
	"github.com/sjwhitworth/golearn/base"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
	"verif/hx"
)

func init() {
	hx.Register("C37", "rows", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 8, MinCols: 1, MaxCols: 6, Kinds: []hx.Kind{hx.Float, hx.Float, hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Float, Value: anyBits, Big: 150})
		attrs := make([]base.Attribute, len(m.Cols))
		for i := range attrs {
			attrs[i] = m.Cols[i].NewAttr()
		}
		g, how := hx.Wrap(t, m, attrs)
		var floats []int
		other := -1
		for i, col := range m.Cols {
			if col.Kind == hx.Float {
				floats = append(floats, i)
			} else {
				other = i
			}
		}
		p := hx.Perm(t, len(floats), "order")
		k := rapid.IntRange(1, len(floats)).Draw(t, "k")
		var sel []base.Attribute
		var cols []int
		for _, i := range p[:k] {
			sel = append(sel, attrs[floats[i]])
			cols = append(cols, floats[i])
		}
		c.Describe(len(m.Rows) > 1 && k > 1, "%s columns %v of %s", how, cols, m)
		all, err := base.ConvertAllRowsToMat64(sel, g)
		if err != nil {
			t.Fatalf("conversion failed: %v", err)
		}
		if len(all) != len(m.Rows) {
			t.Fatalf("%d matrices, want %d", len(all), len(m.Rows))
		}
		for r, row := range m.Rows {
			one, err := base.ConvertRowToMat64(sel, g, r)
			if err != nil {
				t.Fatalf("conversion of row %d failed: %v", r, err)
			}
			for _, x := range []*mat.Dense{all[r], one} {
				if a, b := x.Dims(); a != 1 || b != k {
					t.Fatalf("row %d became %d x %d, want 1 x %d", r, a, b, k)
				}
				for j, i := range cols {
					if got, want := x.At(0, j), row[i]; math.Float64bits(got) != math.Float64bits(want) {
						t.Fatalf("row %d column %d (%q) is %v, want %v", r, j, m.Cols[i].Name, got, want)
					}
				}
			}
		}
		if other >= 0 {
			at := rapid.IntRange(0, len(sel)).Draw(t, "at")
			bad := append(append(append([]base.Attribute(nil), sel[:at]...), attrs[other]), sel[at:]...)
			if _, err := base.ConvertAllRowsToMat64(bad, g); err == nil {
				t.Fatalf("a %v column was converted to numbers", attrs[other])
			}
			if len(m.Rows) > 0 {
				if _, err := base.ConvertRowToMat64(bad, g, 0); err == nil {
					t.Fatalf("a %v column was converted to numbers", attrs[other])
				}
			}
		}
		// writing to a result does not write to the grid
		if len(all) > 0 {
			before := hx.Digest(t, g)
			all[0].Set(0, 0, 12345)
			if hx.Digest(t, g) != before {
				t.Fatalf("the matrix shares the grid's memory")
			}
		}
	})

	hx.Register("C37", "matrix", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		rows, cols := rapid.IntRange(1, 7).Draw(t, "r"), rapid.IntRange(1, 6).Draw(t, "c")
		if hx.Rare(t, "big", 100) {
			rows, cols = rapid.IntRange(1, 80).Draw(t, "br"), rapid.IntRange(1, 40).Draw(t, "bc")
		}
		data := make([]float64, rows*cols)
		for i := range data {
			data[i] = anyBits(t, "v")
		}
		orig := append([]float64(nil), data...)
		x := mat.NewDense(rows, cols, data)
		if rapid.Bool().Draw(t, "part") { // of a larger matrix
			r0, c0 := rapid.IntRange(0, 2).Draw(t, "r0"), rapid.IntRange(0, 2).Draw(t, "c0")
			big := mat.NewDense(rows+r0+rapid.IntRange(0, 2).Draw(t, "r1"), cols+c0+rapid.IntRange(0, 2).Draw(t, "c1"), nil)
			big.Apply(func(i, j int, _ float64) float64 { return float64(-100*i - j) }, big)
			part := big.Slice(r0, r0+rows, c0, c0+cols).(*mat.Dense)
			part.Copy(x)
			x = part
		}
		g := base.InstancesFromMat64(rows, cols, x)
		m := &hx.Table{Class: -1}
		for j := 0; j < cols; j++ {
			m.Cols = append(m.Cols, hx.Col{Name: strconv.Itoa(j), Kind: hx.Float})
		}
		for i := 0; i < rows; i++ {
			m.Rows = append(m.Rows, orig[i*cols:(i+1)*cols])
		}
		c.Describe(rows > 1 && cols > 1, "%s", m)
		hx.CheckGrid(t, "wrapped matrix", g, m)
		attrs := g.AllAttributes()
		for i, a := range attrs {
			if a.GetName() != strconv.Itoa(i) {
				t.Fatalf("attribute %d is %v", i, a)
			}
		}
		// iteration over chosen attributes in a chosen order
		p := hx.Perm(t, cols, "order")
		var specs []base.AttributeSpec
		for _, i := range p {
			s, err := g.GetAttribute(attrs[i])
			if err != nil {
				t.Fatalf("%v", err)
			}
			specs = append(specs, s)
		}
		stop := rapid.IntRange(0, rows-1).Draw(t, "stop")
		seen := 0
		g.MapOverRows(specs, func(v [][]byte, r int) (bool, error) {
			for j, i := range p {
				if got := base.UnpackBytesToFloat(v[j]); math.Float64bits(got) != math.Float64bits(orig[r*cols+i]) {
					t.Fatalf("iteration: row %d column %d is %v, want %v", r, i, got, orig[r*cols+i])
				}
			}
			seen++
			return r != stop, nil
		})
		if seen != stop+1 {
			t.Fatalf("iteration stopped after %d rows, asked after %d", seen, stop+1)
		}
		// classes
		m.Class = rapid.IntRange(0, cols-1).Draw(t, "class")
		if err := g.AddClassAttribute(attrs[m.Class]); err != nil {
			t.Fatalf("%v", err)
		}
		hx.CheckClasses(t, "wrapped matrix", g, m)
		if n := len(base.NonClassAttributes(g)); n != cols-1 {
			t.Fatalf("%d non-class attributes of %d", n, cols)
		}
		hx.CheckGrid(t, "dense copy of a wrapped matrix", base.NewDenseCopy(g), m)
		if err := g.RemoveClassAttribute(attrs[m.Class]); err != nil {
			t.Fatalf("%v", err)
		}
		m.Class = -1
		hx.CheckClasses(t, "wrapped matrix", g, m)
		no := base.NewFloatAttribute("no such")
		if g.AddClassAttribute(no) == nil || g.RemoveClassAttribute(no) == nil {
			t.Fatalf("an attribute that is not there was made a class")
		}
		hx.CheckClasses(t, "wrapped matrix", g, m)
		if _, err := g.GetAttribute(base.NewFloatAttribute("no such")); err == nil {
			t.Fatalf("an attribute that is not there was resolved")
		}
		if _, err := g.GetAttribute(base.NewBinaryAttribute("0")); err == nil {
			t.Fatalf("an attribute of another type was resolved")
		}
	})

	hx.Register("C37", "dataframe", 2000, 50000, func(t *rapid.T, c *hx.Case) {
		nc, nr := rapid.IntRange(1, 5).Draw(t, "cols"), rapid.IntRange(1, 7).Draw(t, "rows")
		drawn := nr // later rows repeat these
		switch {
		case hx.Rare(t, "long", 60):
			nr = rapid.IntRange(60, 1500).Draw(t, "longrows")
		case hx.Rare(t, "wide", 60):
			nc = rapid.IntRange(20, 100).Draw(t, "widecols")
		}
		m := &hx.Table{Class: rapid.IntRange(0, nc-1).Draw(t, "class")}
		m.Rows = make([][]float64, nr)
		for r := range m.Rows {
			m.Rows[r] = make([]float64, nc)
		}
		var series []dataframe.Series
		for i := 0; i < nc; i++ {
			col := hx.Col{Name: fmt.Sprintf("s %d", i), Kind: hx.Float}
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				col.Kind = hx.Cat
				s := dataframe.NewSeriesString(col.Name, nil)
				for r := 0; r < nr; r++ {
					v := fmt.Sprintf("r%d", r/7)
					if r < drawn {
						v = rapid.OneOf(genLabel(), rapid.SampledFrom([]string{"1", "2.5", " x ", "", "NaN"})).Draw(t, "s")
					} else if r%3 == 0 {
						v = col.Labels[int(m.Rows[r%drawn][i])]
					}
					k := -1
					for j, l := range col.Labels {
						if l == v {
							k = j
						}
					}
					if k < 0 {
						k = len(col.Labels)
						col.Labels = append(col.Labels, v)
					}
					m.Rows[r][i] = float64(k)
					s.Append(v)
				}
				series = append(series, s)
			case 1:
				s := dataframe.NewSeriesInt64(col.Name, nil)
				for r := 0; r < nr; r++ {
					v := int64(r * r)
					if r < drawn {
						v = rapid.OneOf(rapid.Int64Range(-5, 5), rapid.Int64()).Draw(t, "i")
					}
					m.Rows[r][i] = float64(v)
					s.Append(v)
				}
				series = append(series, s)
			default:
				s := dataframe.NewSeriesFloat64(col.Name, nil)
				for r := 0; r < nr; r++ {
					v := float64(r) / 3
					if r < drawn {
						v = hx.AnyFloat(t, "v")
					}
					m.Rows[r][i] = v
					s.Append(v)
				}
				series = append(series, s)
			}
			m.Cols = append(m.Cols, col)
		}
		if nr <= 20 {
			c.Describe(nr > 1 && nc > 1, "%s", m)
		} else {
			c.Describe(true, "%d rows like %s", nr, m.Sub([]int{0, 1, 2}))
		}
		g := base.ConvertDataFrameToInstances(dataframe.NewDataFrame(series...), m.Class)
		hx.CheckGrid(t, "converted data frame", g, m)
		for i, col := range m.Cols {
			if col.Kind == hx.Cat {
				if got := hx.FindAttr(t, g, col.Name).(*base.CategoricalAttribute).GetValues(); fmt.Sprintf("%q", got) != fmt.Sprintf("%q", m.Cols[i].Labels) {
					t.Fatalf("labels %q, want %q", got, col.Labels)
				}
			}
		}
	})
}

func genLabel() *rapid.Generator[string] { return rapid.StringMatching(`[a-z]{1,3}`) }
