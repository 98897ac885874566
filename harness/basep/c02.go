package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// gridModel is the reference for a dense grid under construction.
type gridModel struct {
	g      *base.DenseInstances
	cols   []hx.Col
	attrs  []base.Attribute
	specs  []base.AttributeSpec // as handed out when the attribute was added
	groups map[string]hx.Kind   // named groups
	member map[string][]int
	rows   int
	cells  map[[2]int]float64 // (col,row) -> raw bits / code / bit
	class  map[int]bool
	fixed  bool
}

func (m *gridModel) want(col, row int) []byte {
	v, ok := m.cells[[2]int{col, row}]
	if !ok {
		v = 0
	}
	switch m.cols[col].Kind {
	case hx.Float:
		if !ok {
			return make([]byte, 8)
		}
		return base.PackFloatToBytes(v)
	case hx.Cat:
		return base.PackU64ToBytes(uint64(v))
	}
	return []byte{byte(v)}
}

func (m *gridModel) check(t hx.TB, deep bool) {
	c, r := m.g.Size()
	if c != len(m.cols) || r != m.rows {
		t.Fatalf("size %d x %d, want %d x %d", c, r, len(m.cols), m.rows)
	}
	all := m.g.AllAttributes()
	if len(all) != len(m.attrs) {
		t.Fatalf("%d attributes listed, want %d", len(all), len(m.attrs))
	}
	seen := map[base.Attribute]bool{}
	for _, a := range all {
		seen[a] = true
	}
	for _, a := range m.attrs {
		if !seen[a] {
			t.Fatalf("attribute %v is not listed", a)
		}
	}
	cls := map[base.Attribute]bool{}
	for _, a := range m.g.AllClassAttributes() {
		if cls[a] {
			t.Fatalf("class attribute %v listed twice", a)
		}
		cls[a] = true
	}
	n := 0
	for i, is := range m.class {
		if is {
			n++
			if !cls[m.attrs[i]] {
				t.Fatalf("class attribute %v is not listed", m.attrs[i])
			}
		}
	}
	if n != len(cls) {
		t.Fatalf("class attributes %v, want %d of them", cls, n)
	}
	for name, members := range m.member {
		ag, err := m.g.GetAttributeGroup(name)
		if err != nil {
			t.Fatalf("group %q: %v", name, err)
		}
		as := ag.Attributes()
		if len(as) != len(members) {
			t.Fatalf("group %q holds %v, want %d attributes", name, as, len(members))
		}
		for i, k := range members {
			if as[i] != m.attrs[k] {
				t.Fatalf("group %q holds %v", name, as)
			}
		}
	}
	if m.fixed {
		m.checkCells(t, deep)
	}
}

func (m *gridModel) checkCells(t hx.TB, deep bool) {
	specs := hx.SpecsOf(t, m.g, m.attrs)
	for i, a := range m.attrs {
		if specs[i].GetAttribute() != a {
			t.Fatalf("looking %v up gave %v", a, specs[i].GetAttribute())
		}
		for r := 0; r < m.rows; r++ {
			want := m.want(i, r)
			if got := m.g.Get(specs[i], r); !bytes.Equal(got, want) {
				t.Fatalf("row %d of %v is % x, want % x", r, a, got, want)
			}
			if got := m.g.Get(m.specs[i], r); !bytes.Equal(got, want) {
				t.Fatalf("row %d of %v through the spec given at creation is % x, want % x", r, a, got, want)
			}
		}
	}
	if !deep {
		return
	}
	next := 0
	err := m.g.MapOverRows(specs, func(row [][]byte, r int) (bool, error) {
		if r != next {
			t.Fatalf("iteration gave row %d after %d", r, next-1)
		}
		next++
		for i := range specs {
			if !bytes.Equal(row[i], m.want(i, r)) {
				t.Fatalf("iteration: row %d of %v is % x, want % x", r, m.attrs[i], row[i], m.want(i, r))
			}
		}
		return true, nil
	})
	if err != nil || next != m.rows {
		t.Fatalf("iteration ended after %d of %d rows with %v", next, m.rows, err)
	}
	for r := 0; r < m.rows; r++ {
		var want []string
		ok := true
		for _, a := range m.g.AllAttributes() {
			for i := range m.attrs {
				if m.attrs[i] != a {
					continue
				}
				v, set := m.cells[[2]int{i, r}]
				if !set && m.cols[i].Kind == hx.Cat && len(m.cols[i].Labels) == 0 {
					ok = false
					continue
				}
				want = append(want, m.cols[i].Str(v))
			}
		}
		if !ok {
			continue
		}
		if got := strings.Fields(m.g.RowString(r)); strings.Join(got, " ") != strings.Join(want, " ") {
			t.Fatalf("text of row %d is %q, want %q", r, got, want)
		}
	}
}

// table gives the model as a plain table.
func (m *gridModel) table() *hx.Table {
	x := &hx.Table{Cols: m.cols, Class: -1}
	for r := 0; r < m.rows; r++ {
		row := make([]float64, len(m.cols))
		for c := range m.cols {
			row[c] = m.cells[[2]int{c, r}]
		}
		x.Rows = append(x.Rows, row)
	}
	return x
}

func init() {
	hx.Register("C02", "history", 2400, 60000, func(t *rapid.T, c *hx.Case) {
		m := &gridModel{g: base.NewDenseInstances(), groups: map[string]hx.Kind{}, member: map[string][]int{},
			cells: map[[2]int]float64{}, class: map[int]bool{}}
		var log strings.Builder
		nattr := rapid.IntRange(1, 14).Draw(t, "nattr")
		mostlyBin := rapid.IntRange(0, 2).Draw(t, "mostlybin") == 0
		if mostlyBin {
			nattr += 6
		}
		for i := 0; i < nattr; i++ {
			k := hx.Kind(rapid.IntRange(0, 2).Draw(t, "kind"))
			if mostlyBin && rapid.IntRange(0, 3).Draw(t, "b") > 0 {
				k = hx.Bin
			}
			col := hx.Col{Name: fmt.Sprintf("a%d", i), Kind: k, Prec: rapid.IntRange(0, 4).Draw(t, "prec")}
			if k == hx.Cat {
				col.Labels = []string{"u", "v", "w"}[:rapid.IntRange(1, 3).Draw(t, "nl")]
			}
			if i > 0 && m.cols[i-1].Kind != k && rapid.IntRange(0, 7).Draw(t, "twin") == 0 {
				col.Name = m.cols[i-1].Name // another type, so another attribute
				if i > 1 && m.cols[i-2].Name == col.Name {
					col.Name = fmt.Sprintf("a%d", i)
				}
			}
			a := col.NewAttr()
			var spec base.AttributeSpec
			fits := []string{}
			for _, name := range []string{"G0", "G1", "G2", "G3"} {
				kd, ok := m.groups[name]
				if !ok || kd != k {
					continue
				}
				if k == hx.Cat && len(m.member[name]) > 0 && len(m.cols[m.member[name][0]].Labels) != len(col.Labels) {
					continue // the group holds another label set
				}
				fits = append(fits, name)
			}
			where := rapid.IntRange(0, 2).Draw(t, "where")
			if where == 1 && len(m.groups) < 4 {
				name := fmt.Sprintf("G%d", len(m.groups))
				size := 8
				if k == hx.Bin {
					size = 0
				}
				if err := m.g.CreateAttributeGroup(name, size); err != nil {
					t.Fatalf("creating group %q: %v", name, err)
				}
				m.groups[name] = k
				m.member[name] = nil
				if k != hx.Cat {
					fits = append(fits, name)
				} else {
					fits = []string{name}
				}
			}
			if where >= 1 && len(fits) > 0 {
				name := rapid.SampledFrom(fits).Draw(t, "group")
				var err error
				if spec, err = m.g.AddAttributeToAttributeGroup(a, name); err != nil {
					t.Fatalf("adding %v to %q: %v", a, name, err)
				}
				m.member[name] = append(m.member[name], i)
				fmt.Fprintf(&log, "+%s/%d@%s ", col.Name, k, name)
			} else {
				spec = m.g.AddAttribute(a)
				fmt.Fprintf(&log, "+%s/%d ", col.Name, k)
			}
			m.cols = append(m.cols, col)
			m.attrs = append(m.attrs, a)
			m.specs = append(m.specs, spec)
			if rapid.IntRange(0, 3).Draw(t, "cls") == 0 {
				if err := m.g.AddClassAttribute(a); err != nil {
					t.Fatalf("making %v a class: %v", a, err)
				}
				m.class[i] = true
			}
		}
		if _, err := m.g.AddAttributeToAttributeGroup(base.NewFloatAttribute("nowhere"), "no such group"); err == nil {
			t.Fatalf("an attribute was added to a group that does not exist")
		}
		if err := m.g.AddClassAttribute(base.NewFloatAttribute("nowhere")); err == nil {
			t.Fatalf("an unknown attribute became a class")
		}
		if err := m.g.RemoveClassAttribute(base.NewFloatAttribute("nowhere")); err == nil {
			t.Fatalf("an unknown attribute was taken from the classes")
		}
		for name, k := range m.groups {
			if len(m.member[name]) == 0 {
				continue
			}
			other := hx.Col{Name: "misfit", Kind: hx.Kind((int(k) + rapid.IntRange(1, 2).Draw(t, "other kind")) % 3), Labels: []string{"y", "z"}}
			if _, err := m.g.AddAttributeToAttributeGroup(other.NewAttr(), name); err == nil {
				t.Fatalf("%v was added to group %s of kind %d", other, name, k)
			}
			if _, err := m.g.GetAttribute(other.NewAttr()); err == nil {
				t.Fatalf("an attribute refused by group %s is there", name)
			}
			if g, err := m.g.GetAttributeGroup(name); err != nil || len(g.Attributes()) != len(m.member[name]) {
				t.Fatalf("group %s has %d attributes (%v), want %d", name, len(g.Attributes()), err, len(m.member[name]))
			}
		}
		if _, err := m.g.GetAttributeGroup("no such group"); err == nil {
			t.Fatalf("a group that was never created was found")
		}
		if got := len(m.g.AllAttributeGroups()); got < len(m.groups) {
			t.Fatalf("%d groups, %d were created", got, len(m.groups))
		}
		if _, err := m.g.GetAttribute(base.NewBinaryAttribute("nowhere")); err == nil {
			t.Fatalf("an unknown attribute was found")
		}
		m.check(t, true)
		writes, extends := 0, 0
		steps := rapid.IntRange(2, 30).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			op := rapid.IntRange(0, 9).Draw(t, "op")
			switch {
			case !m.fixed || op == 0:
				n := rapid.IntRange(0, 9).Draw(t, "rows")
				if err := m.g.Extend(n); err != nil {
					t.Fatalf("reserving %d rows: %v", n, err)
				}
				m.fixed = true
				m.rows += n
				extends++
				fmt.Fprintf(&log, "ext%d ", n)
			case op == 1:
				i := rapid.IntRange(0, len(m.attrs)-1).Draw(t, "attr")
				on := rapid.Bool().Draw(t, "on")
				var err error
				if on {
					err = m.g.AddClassAttribute(m.attrs[i])
				} else {
					err = m.g.RemoveClassAttribute(m.attrs[i])
				}
				if err != nil {
					t.Fatalf("class change of %v: %v", m.attrs[i], err)
				}
				m.class[i] = on
			case op == 2:
				// storage is fixed now: adding attributes must fail and change nothing
				func() {
					defer func() { recover() }()
					m.g.AddAttribute(base.NewFloatAttribute("late"))
					t.Fatalf("an attribute was added after rows were reserved")
				}()
				if err := m.g.CreateAttributeGroup("late", 8); err == nil {
					t.Fatalf("a group was created after rows were reserved")
				}
				for name, k := range m.groups {
					col := hx.Col{Name: "late", Kind: k, Labels: []string{"u", "v", "w"}}
					if k == hx.Cat && len(m.member[name]) > 0 {
						col.Labels = m.cols[m.member[name][0]].Labels
					}
					if _, err := m.g.AddAttributeToAttributeGroup(col.NewAttr(), name); err == nil {
						t.Fatalf("an attribute was added to group %s after rows were reserved", name)
					}
				}
			case m.rows > 0:
				i := rapid.IntRange(0, len(m.attrs)-1).Draw(t, "attr")
				r := rapid.IntRange(0, m.rows-1).Draw(t, "row")
				var v float64
				switch m.cols[i].Kind {
				case hx.Float:
					v = hx.AnyFloat(t, "v")
				case hx.Cat:
					v = float64(rapid.IntRange(0, len(m.cols[i].Labels)-1).Draw(t, "v"))
				default:
					v = float64(rapid.IntRange(0, 1).Draw(t, "v"))
				}
				m.cells[[2]int{i, r}] = v
				spec := m.specs[i]
				if rapid.Bool().Draw(t, "fresh") {
					spec, _ = m.g.GetAttribute(m.attrs[i])
				}
				m.g.Set(spec, r, m.want(i, r))
				writes++
				fmt.Fprintf(&log, "%d,%d=%v ", i, r, v)
			}
			m.check(t, s%5 == 4 || s == steps-1)
		}
		c.Describe(writes > 2 && m.rows > 1 && len(m.cols) > 1, "%s", log.String())
		c.Class(extends > 1, "several reservations")
		c.Class(len(m.groups) > 1, "named groups")
		nb := 0
		for _, col := range m.cols {
			if col.Kind == hx.Bin {
				nb++
			}
		}
		c.Class(nb > 8, "more than 8 binary attributes")
		if !m.fixed {
			return
		}

		// copies
		tab := m.table()
		copyGrid := base.NewDenseCopy(m.g)
		st := base.NewStructuralCopy(m.g)
		for _, g := range []*base.DenseInstances{copyGrid, st} {
			want := map[string]bool{}
			for i, is := range m.class {
				if is {
					want[className(m.cols[i].Name, m.cols[i].Kind)] = true
				}
			}
			got := g.AllClassAttributes()
			if len(got) != len(want) {
				t.Fatalf("copy has class attributes %v, want %v", got, want)
			}
			for _, a := range got {
				if !want[className(a.GetName(), hx.KindOf(a))] {
					t.Fatalf("copy has class attributes %v, want %v", got, want)
				}
			}
			for _, a := range m.attrs {
				if _, err := g.GetAttribute(a); err != nil {
					t.Fatalf("copy lacks %v", a)
				}
			}
			if cols, _ := g.Size(); cols != len(m.cols) {
				t.Fatalf("copy has %d attributes, want %d", cols, len(m.cols))
			}
		}
		if _, rows := st.Size(); rows != 0 {
			t.Fatalf("structural copy has %d rows", rows)
		}
		hx.CheckCells(t, "dense copy", copyGrid, m.attrs, tab)
		if m.rows > 0 {
			// independence, both ways
			i := rapid.IntRange(0, len(m.attrs)-1).Draw(t, "ci")
			r := rapid.IntRange(0, m.rows-1).Draw(t, "cr")
			old := append([]byte(nil), m.want(i, r)...)
			other := append([]byte(nil), old...)
			other[0] ^= 1
			cs, _ := copyGrid.GetAttribute(m.attrs[i])
			copyGrid.Set(cs, r, other)
			m.check(t, true)
			copyGrid.Set(cs, r, old)
			m.g.Set(m.specs[i], r, other)
			hx.CheckCells(t, "dense copy after a write to its source", copyGrid, m.attrs, tab)
		}
	})

	// Rows wider than a page are split over several storage groups.
	hx.Register("C02", "wide", 24, 200, func(t *rapid.T, c *hx.Case) {
		kind := hx.Kind(rapid.IntRange(0, 2).Draw(t, "kind"))
		n := rapid.IntRange(505, 1100).Draw(t, "n")
		if kind == hx.Bin {
			n = rapid.IntRange(60, 600).Draw(t, "bits")
		}
		c.Describe(true, "%d attributes of kind %d", n, kind)
		m := &hx.Table{Class: -1}
		for i := 0; i < n; i++ {
			k := kind
			if i%97 == 5 {
				k = hx.Bin
			}
			m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprint("w", i), Kind: k, Prec: 1, Labels: []string{"p", "q", "r"}})
		}
		base0 := rapid.IntRange(0, 1000).Draw(t, "base")
		for r := 0; r < 3; r++ {
			row := make([]float64, n)
			for i := range row {
				switch m.Cols[i].Kind {
				case hx.Float:
					row[i] = float64(base0 + r*5000 + i)
				case hx.Cat:
					row[i] = float64((base0 + r + i*i/7) % 3)
				default:
					row[i] = float64(bits.OnesCount(uint((base0+r+i)*2654435761)) % 2)
				}
			}
			m.Rows = append(m.Rows, row)
		}
		g, attrs := m.Build()
		hx.CheckCells(t, "wide grid", g, attrs, m)
		hx.CheckCells(t, "copy of a wide grid", base.NewDenseCopy(g), attrs, m)
	})

	hx.Register("C02", "iteration-control", 600, 6000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 12, MinCols: 1, MaxCols: 4, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, Big: 100})
		g, attrs := m.Build()
		stop := rapid.IntRange(0, 12).Draw(t, "stop")
		mode := rapid.IntRange(0, 1).Draw(t, "mode")
		c.Describe(stop < len(m.Rows), "%d rows, stop at %d, mode %d", len(m.Rows), stop, mode)
		checkIterationControl(t, g, attrs, stop, mode)
	})
}

func checkIterationControl(t hx.TB, g base.FixedDataGrid, attrs []base.Attribute, stop, mode int) {
	boom := errors.New("boom")
	_, rows := g.Size()
	n := 0
	err := g.MapOverRows(hx.SpecsOf(t, g, attrs), func(row [][]byte, r int) (bool, error) {
		n++
		if n == stop+1 {
			if mode == 0 {
				return false, nil
			}
			return false, boom
		}
		return true, nil
	})
	want := rows
	if stop < rows {
		want = stop + 1
	}
	if n != want {
		t.Fatalf("iteration over %d rows told to stop at %d made %d calls", rows, stop, n)
	}
	if mode == 1 && stop < rows {
		if err == nil || !strings.Contains(err.Error(), "boom") {
			t.Fatalf("the error of the row function came back as %v", err)
		}
	} else if err != nil {
		t.Fatalf("iteration gave error %v", err)
	}
}

var _ = math.Inf
