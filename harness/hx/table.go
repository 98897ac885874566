package hx

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
)

// Kind is a column type.
type Kind int

// The column types golearn has.
const (
	Float Kind = iota
	Cat
	Bin
)

// Col is a column of the reference table.
type Col struct {
	Name   string
	Kind   Kind
	Labels []string // Cat: labels in code order
	Prec   int      // Float: printed precision
}

// Table is the reference model of a grid: cells are float64 for Float, label
// index for Cat, 0/1 for Bin.
type Table struct {
	Cols  []Col
	Rows  [][]float64
	Class int // column, or -1
}

// NewAttr makes a golearn attribute for a column.
func (c Col) NewAttr() base.Attribute {
	switch c.Kind {
	case Float:
		a := base.NewFloatAttribute(c.Name)
		a.Precision = c.Prec
		return a
	case Cat:
		a := base.NewCategoricalAttribute()
		a.SetName(c.Name)
		for _, l := range c.Labels {
			a.GetSysValFromString(l)
		}
		return a
	default:
		return base.NewBinaryAttribute(c.Name)
	}
}

// Pack gives the stored bytes of a cell.
func (c Col) Pack(v float64) []byte {
	switch c.Kind {
	case Float:
		return base.PackFloatToBytes(v)
	case Cat:
		return base.PackU64ToBytes(uint64(v))
	default:
		if v > 0 {
			return []byte{1}
		}
		return []byte{0}
	}
}

// Str gives the text of a cell.
func (c Col) Str(v float64) string {
	switch c.Kind {
	case Float:
		return fmt.Sprintf("%.*f", c.Prec, v)
	case Cat:
		return c.Labels[int(v)]
	default:
		if v > 0 {
			return "1"
		}
		return "0"
	}
}

func (t *Table) String() string {
	var b strings.Builder
	if len(t.Rows) > 60 {
		fmt.Fprintf(&b, "(%d rows) ", len(t.Rows))
		t = &Table{Cols: t.Cols, Rows: t.Rows[:20], Class: t.Class}
	}
	for i, c := range t.Cols {
		if i > 0 {
			b.WriteString(",")
		}
		if i == t.Class {
			b.WriteString("*")
		}
		fmt.Fprintf(&b, "%q:%s", c.Name, []string{"float", "cat", "bin"}[c.Kind])
		if c.Kind == Cat {
			if len(c.Labels) > 20 {
				fmt.Fprintf(&b, "%q...%d", c.Labels[:20], len(c.Labels))
			} else {
				fmt.Fprintf(&b, "%q", c.Labels)
			}
		}
	}
	for _, r := range t.Rows {
		b.WriteString(" |")
		for i, v := range r {
			if t.Cols[i].Kind == Cat && int(v) < len(t.Cols[i].Labels) && v >= 0 {
				fmt.Fprintf(&b, " %q", t.Cols[i].Labels[int(v)])
			} else {
				fmt.Fprintf(&b, " %v", v)
			}
		}
	}
	return b.String()
}

// Build makes a dense grid holding the table; the attributes are returned in
// column order.
func (t *Table) Build() (*base.DenseInstances, []base.Attribute) {
	attrs := make([]base.Attribute, len(t.Cols))
	for i, c := range t.Cols {
		attrs[i] = c.NewAttr()
	}
	return t.BuildWith(attrs), attrs
}

// BuildWith makes a dense grid using the given attributes (shared with
// another grid).
func (t *Table) BuildWith(attrs []base.Attribute) *base.DenseInstances {
	d := base.NewDenseInstances()
	specs := make([]base.AttributeSpec, len(attrs))
	for i, a := range attrs {
		specs[i] = d.AddAttribute(a)
	}
	if t.Class >= 0 {
		if err := d.AddClassAttribute(attrs[t.Class]); err != nil {
			panic(err)
		}
	}
	if err := d.Extend(len(t.Rows)); err != nil {
		panic(err)
	}
	for r, row := range t.Rows {
		for i, v := range row {
			d.Set(specs[i], r, t.Cols[i].Pack(v))
		}
	}
	return d
}

// Attrs makes new attributes for the columns.
func (t *Table) Attrs() []base.Attribute {
	attrs := make([]base.Attribute, len(t.Cols))
	for i, c := range t.Cols {
		attrs[i] = c.NewAttr()
	}
	return attrs
}

// Sub is the table restricted to rows (in that order).
func (t *Table) Sub(rows []int) *Table {
	n := &Table{Cols: t.Cols, Class: t.Class}
	for _, r := range rows {
		n.Rows = append(n.Rows, t.Rows[r])
	}
	return n
}

// TB is what the comparison helpers report to.
type TB interface {
	Fatalf(format string, args ...interface{})
}

// SpecsOf resolves attributes one by one, in the given order.
func SpecsOf(t TB, g base.FixedDataGrid, attrs []base.Attribute) []base.AttributeSpec {
	ret := make([]base.AttributeSpec, len(attrs))
	for i, a := range attrs {
		s, err := g.GetAttribute(a)
		if err != nil {
			t.Fatalf("attribute %s cannot be resolved: %v", a, err)
		}
		ret[i] = s
	}
	return ret
}

// CellsByGet reads every cell of the given attributes by single reads.
func CellsByGet(t TB, g base.FixedDataGrid, attrs []base.Attribute) [][][]byte {
	specs := SpecsOf(t, g, attrs)
	_, n := g.Size()
	out := make([][][]byte, n)
	for r := 0; r < n; r++ {
		out[r] = make([][]byte, len(specs))
		for i, s := range specs {
			out[r][i] = append([]byte(nil), g.Get(s, r)...)
		}
	}
	return out
}

// CellsByMap reads every cell by row iteration, and checks each row number
// comes exactly once.
func CellsByMap(t TB, g base.FixedDataGrid, attrs []base.Attribute) [][][]byte {
	specs := SpecsOf(t, g, attrs)
	_, n := g.Size()
	out := make([][][]byte, n)
	err := g.MapOverRows(specs, func(row [][]byte, r int) (bool, error) {
		if r < 0 || r >= n {
			t.Fatalf("iteration gave row number %d of %d", r, n)
		}
		if out[r] != nil {
			t.Fatalf("iteration gave row %d twice", r)
		}
		if len(row) != len(specs) {
			t.Fatalf("iteration gave %d cells for %d attributes", len(row), len(specs))
		}
		out[r] = make([][]byte, len(row))
		for i, b := range row {
			out[r][i] = append([]byte(nil), b...)
		}
		return true, nil
	})
	if err != nil {
		t.Fatalf("iteration failed: %v", err)
	}
	for r := range out {
		if out[r] == nil {
			t.Fatalf("iteration skipped row %d of %d", r, n)
		}
	}
	return out
}

// FindAttr finds an attribute of a grid by name.
func FindAttr(t TB, g base.DataGrid, name string) base.Attribute {
	for _, a := range g.AllAttributes() {
		if a.GetName() == name {
			return a
		}
	}
	t.Fatalf("attribute %q is missing", name)
	return nil
}

// KindOf gives the column type of an attribute.
func KindOf(a base.Attribute) Kind {
	switch a.(type) {
	case *base.FloatAttribute:
		return Float
	case *base.CategoricalAttribute:
		return Cat
	}
	return Bin
}

// FindCol finds the attribute of a grid that stands for a column: the one of
// its name and type, or else of its name.
func FindCol(t TB, g base.DataGrid, c Col) base.Attribute {
	for _, a := range g.AllAttributes() {
		if a.GetName() == c.Name && KindOf(a) == c.Kind {
			return a
		}
	}
	return FindAttr(t, g, c.Name)
}

// CheckGrid compares a whole grid with a table through single reads,
// iteration, size, attributes and classes. Attributes are found by name.
func CheckGrid(t TB, what string, g base.FixedDataGrid, m *Table) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(m.Rows) {
		t.Fatalf("%s: size %d x %d, want %d x %d", what, cols, rows, len(m.Cols), len(m.Rows))
	}
	if n := len(g.AllAttributes()); n != len(m.Cols) {
		t.Fatalf("%s: %d attributes listed, want %d", what, n, len(m.Cols))
	}
	attrs := make([]base.Attribute, len(m.Cols))
	for i, c := range m.Cols {
		attrs[i] = FindCol(t, g, c)
		CheckAttr(t, what, attrs[i], c)
	}
	CheckCells(t, what, g, attrs, m)
	CheckClasses(t, what, g, m)
}

// CheckClasses compares the class attributes of a grid with the table's.
func CheckClasses(t TB, what string, g base.FixedDataGrid, m *Table) {
	cls := g.AllClassAttributes()
	if m.Class < 0 {
		if len(cls) != 0 {
			t.Fatalf("%s: unexpected class attributes %v", what, cls)
		}
	} else if len(cls) != 1 || cls[0].GetName() != m.Cols[m.Class].Name || KindOf(cls[0]) != m.Cols[m.Class].Kind {
		t.Fatalf("%s: class attributes %v, want %q", what, cls, m.Cols[m.Class].Name)
	}
}

// CheckAttr compares an attribute's type, labels and precision with a column.
func CheckAttr(t TB, what string, a base.Attribute, c Col) {
	switch c.Kind {
	case Float:
		f, ok := a.(*base.FloatAttribute)
		if !ok {
			t.Fatalf("%s: %q is %T, want a float attribute", what, c.Name, a)
		}
		_ = f
	case Cat:
		f, ok := a.(*base.CategoricalAttribute)
		if !ok {
			t.Fatalf("%s: %q is %T, want a categorical attribute", what, c.Name, a)
		}
		_ = f
	default:
		if _, ok := a.(*base.BinaryAttribute); !ok {
			t.Fatalf("%s: %q is %T, want a binary attribute", what, c.Name, a)
		}
	}
}

// CheckCells compares the cells of a grid with a table's, by single reads and
// by iteration. Categories are compared by label.
func CheckCells(t TB, what string, g base.FixedDataGrid, attrs []base.Attribute, m *Table) {
	for pass, cells := range [][][][]byte{CellsByGet(t, g, attrs), CellsByMap(t, g, attrs)} {
		for r := range m.Rows {
			for i, c := range m.Cols {
				b := cells[r][i]
				how := what + []string{" (single read)", " (iteration)"}[pass]
				CheckCell(t, how, attrs[i], c, b, r, m.Rows[r][i])
			}
		}
	}
}

// CheckCell compares one stored cell with the model value.
func CheckCell(t TB, how string, a base.Attribute, c Col, b []byte, r int, v float64) {
	if c.Kind == Cat {
		if got := a.GetStringFromSysVal(b); got != c.Labels[int(v)] {
			t.Fatalf("%s: row %d of %q is %q, want %q", how, r, c.Name, got, c.Labels[int(v)])
		}
	} else if want := c.Pack(v); !bytes.Equal(b, want) {
		t.Fatalf("%s: row %d of %q is % x, want % x (%v)", how, r, c.Name, b, want, v)
	}
}

// RowKeys gives one comparable string per row over all cells of the grid,
// attributes sorted by name.
func RowKeys(t TB, g base.FixedDataGrid) []string {
	attrs := append([]base.Attribute(nil), g.AllAttributes()...)
	sort.SliceStable(attrs, func(i, j int) bool {
		if attrs[i].GetName() != attrs[j].GetName() {
			return attrs[i].GetName() < attrs[j].GetName()
		}
		return KindOf(attrs[i]) < KindOf(attrs[j])
	})
	cells := CellsByGet(t, g, attrs)
	out := make([]string, len(cells))
	for r := range cells {
		var b strings.Builder
		for i := range attrs {
			fmt.Fprintf(&b, "%x;", cells[r][i])
		}
		out[r] = b.String()
	}
	return out
}

// Digest is the whole content of a grid as one string.
func Digest(t TB, g base.FixedDataGrid) string {
	var b strings.Builder
	c, r := g.Size()
	fmt.Fprintf(&b, "%d x %d;", c, r)
	for _, a := range g.AllAttributes() {
		fmt.Fprintf(&b, "%s;", a)
	}
	var cl []string
	for _, a := range g.AllClassAttributes() {
		cl = append(cl, a.String())
	}
	sort.Strings(cl)
	b.WriteString(strings.Join(cl, ","))
	for _, k := range RowKeys(t, g) {
		b.WriteString("\n" + k)
	}
	return b.String()
}

// SameMultiset compares two string multisets.
func SameMultiset(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]string(nil), a...), append([]string(nil), b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// ---- generators ----

// AnyFloat draws finite floats of all magnitudes, small round ones often.
func AnyFloat(t *rapid.T, name string) float64 {
	switch rapid.IntRange(0, 5).Draw(t, name+"-kind") {
	case 0, 1:
		return float64(rapid.IntRange(-5, 5).Draw(t, name))
	case 2:
		return float64(rapid.IntRange(-2000, 2000).Draw(t, name)) / 16
	case 3:
		return rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1e-300, -1e-300, 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, 0.1, -0.1, 255, 256, -256, 1e16}).Draw(t, name)
	default:
		return rapid.Float64Range(-1e6, 1e6).Draw(t, name)
	}
}

// SmallFloat draws floats on a small grid so that ties happen.
func SmallFloat(t *rapid.T, name string) float64 {
	if rapid.IntRange(0, 2).Draw(t, name+"-k") == 0 {
		return float64(rapid.IntRange(-40, 40).Draw(t, name)) / 8
	}
	return float64(rapid.IntRange(-4, 4).Draw(t, name))
}

// Labels draws k distinct plain labels, sometimes built from one another.
func Labels(t *rapid.T, k int, name string) []string {
	return labels(t, k, name, "-")
}

// SpacedLabels is Labels with blanks around some of them.
func SpacedLabels(t *rapid.T, k int, name string) []string {
	return labels(t, k, name, " ")
}

func labels(t *rapid.T, k int, name, pad string) []string {
	if k > 1 && rapid.IntRange(0, 4).Draw(t, name+"-related") == 0 {
		out := []string{rapid.SampledFrom([]string{"a", "b1", "Q", "a_q"}).Draw(t, name)}
		seen := map[string]bool{out[0]: true}
		for i := 0; len(out) < k; i++ {
			l := out[rapid.IntRange(0, len(out)-1).Draw(t, name+"-of")]
			switch rapid.IntRange(0, 5).Draw(t, name+"-how") {
			case 0:
				l = pad + l
			case 1:
				l += pad
			case 2:
				l = rapid.SampledFrom([]string{"a_", "f0_", "f1_", "class_"}).Draw(t, name+"-prefix") + l
			case 3:
				l += "_q"
			case 4:
				l = strings.ToUpper(l)
			default:
				l += fmt.Sprint(i)
			}
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
		return out
	}
	return rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,6}`), k, k, rapid.ID[string]).Draw(t, name)
}

// Opts shapes generated tables.
type Opts struct {
	MinRows, MaxRows int
	MinCols, MaxCols int // features
	Kinds            []Kind
	ClassKind        Kind
	NoClass          bool
	MinClass         int // class labels
	MaxClass         int
	Value            func(*rapid.T, string) float64
	MaxLabels        int
	ClassLast        bool
	Spaced           bool // labels may have blanks around them
	Twins            bool // sometimes columns of different types share a name
	Big              int  // one case in Big has hundreds of rows, columns or labels
	BigRows          bool // … of rows only
}

// GenTable draws a table.
func GenTable(t *rapid.T, o Opts) *Table {
	if o.Value == nil {
		o.Value = SmallFloat
	}
	if o.MaxLabels == 0 {
		o.MaxLabels = 4
	}
	if o.MinClass == 0 {
		o.MinClass = 1
	}
	if o.MaxClass == 0 {
		o.MaxClass = 3
	}
	Labels := Labels
	if o.Spaced {
		Labels = SpacedLabels
	}
	nc := rapid.IntRange(o.MinCols, o.MaxCols).Draw(t, "cols")
	m := &Table{Class: -1}
	for i := 0; i < nc; i++ {
		k := o.Kinds[rapid.IntRange(0, len(o.Kinds)-1).Draw(t, "kind")]
		c := Col{Name: fmt.Sprintf("f%d", i), Kind: k, Prec: 3}
		if k == Cat {
			c.Labels = Labels(t, rapid.IntRange(1, o.MaxLabels).Draw(t, "nlabels"), "labels")
		}
		m.Cols = append(m.Cols, c)
	}
	if !o.NoClass {
		c := Col{Name: "class", Kind: o.ClassKind, Prec: 3}
		if c.Kind == Cat {
			c.Labels = Labels(t, rapid.IntRange(o.MinClass, o.MaxClass).Draw(t, "nclass"), "classlabels")
		}
		pos := len(m.Cols)
		if !o.ClassLast {
			pos = rapid.IntRange(0, len(m.Cols)).Draw(t, "classpos")
		}
		m.Cols = append(m.Cols[:pos:pos], append([]Col{c}, m.Cols[pos:]...)...)
		m.Class = pos
	}
	// one big case in many: rows, class labels, columns or feature labels
	big := 0
	if o.Big > 0 && Rare(t, "big", uint64(o.Big)) {
		big = 1
		if !o.BigRows {
			big = rapid.IntRange(1, 4).Draw(t, "bigkind")
		}
	}
	more := func(c *Col) {
		for n := rapid.IntRange(100, 600).Draw(t, "labels"); len(c.Labels) < n; {
			c.Labels = append(c.Labels, fmt.Sprintf("more%d", len(c.Labels)))
		}
	}
	switch big {
	case 2:
		if m.Class >= 0 && m.Cols[m.Class].Kind == Cat && o.MaxClass > 2 {
			more(&m.Cols[m.Class])
		}
	case 3:
		for n := rapid.IntRange(30, 150).Draw(t, "bigcols"); len(m.Cols) < n; {
			i := len(m.Cols)
			c := Col{Name: fmt.Sprintf("more%d", i), Kind: o.Kinds[(i*5+i/7)%len(o.Kinds)], Prec: 3}
			if c.Kind == Cat {
				c.Labels = []string{"a", "b", "c"}[:1+i%min(3, o.MaxLabels)]
			}
			m.Cols = append(m.Cols, c)
			if o.ClassLast && m.Class >= 0 {
				m.Cols[i], m.Cols[i-1] = m.Cols[i-1], m.Cols[i]
				m.Class = i
			}
		}
	case 4:
		for i := range m.Cols {
			if i != m.Class && m.Cols[i].Kind == Cat && o.MaxLabels > 2 {
				more(&m.Cols[i])
				break
			}
		}
	}
	if o.Twins && len(m.Cols) > 1 && rapid.IntRange(0, 4).Draw(t, "twins") == 0 {
		i := rapid.IntRange(0, len(m.Cols)-1).Draw(t, "twin")
		for j := range m.Cols {
			if m.Cols[j].Kind != m.Cols[i].Kind {
				m.Cols[j].Name = m.Cols[i].Name
				break
			}
		}
	}
	nr := rapid.IntRange(o.MinRows, o.MaxRows).Draw(t, "rows")
	for r := 0; r < nr; r++ {
		m.Rows = append(m.Rows, GenRow(t, m, o.Value))
	}
	if big > 0 && big != 3 && nr > 0 {
		fresh := rapid.Bool().Draw(t, "fresh")
		for n := rapid.IntRange(100, 1300).Draw(t, "bigrows"); len(m.Rows) < n; {
			k := len(m.Rows)
			row := append([]float64(nil), m.Rows[(k*7+3)%nr]...)
			for i, c := range m.Cols {
				switch {
				case c.Kind == Cat && (i == m.Class || len(c.Labels) > 50):
					row[i] = float64((k*13 + 5) % len(c.Labels))
				case c.Kind == Float && i != m.Class && fresh:
					row[i] += float64((k*37+i*11)%251) / 4
				}
			}
			m.Rows = append(m.Rows, row)
		}
	}
	return m
}

// GenRow draws one row for a table.
func GenRow(t *rapid.T, m *Table, value func(*rapid.T, string) float64) []float64 {
	row := make([]float64, len(m.Cols))
	for i, c := range m.Cols {
		switch c.Kind {
		case Float:
			row[i] = value(t, "v")
		case Cat:
			row[i] = float64(rapid.IntRange(0, len(c.Labels)-1).Draw(t, "l"))
		default:
			row[i] = float64(rapid.IntRange(0, 1).Draw(t, "b"))
		}
	}
	return row
}

// Perm draws a permutation of n.
func Perm(t *rapid.T, n int, name string) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	if n < 2 {
		return x
	}
	return rapid.Permutation(x).Draw(t, name)
}

// Wrap returns the grid either as it is, or as an equivalent view over a
// scrambled, padded copy (same rows, order and attributes).
func Wrap(t *rapid.T, m *Table, attrs []base.Attribute) (base.FixedDataGrid, string) {
	switch rapid.IntRange(0, 4).Draw(t, "wrap") {
	case 0, 1:
		return m.BuildWith(attrs), "dense"
	case 2:
		// rows scattered over a longer grid
		extra := rapid.IntRange(0, 3).Draw(t, "extra")
		n := len(m.Rows) + extra
		p := Perm(t, n, "scatter")
		big := &Table{Cols: m.Cols, Class: m.Class, Rows: make([][]float64, n)}
		vis := make([]int, len(m.Rows))
		for i := range m.Rows {
			big.Rows[p[i]] = m.Rows[i]
			vis[i] = p[i]
		}
		for i := len(m.Rows); i < n; i++ {
			row := make([]float64, len(m.Cols))
			for j, c := range m.Cols {
				if c.Kind == Float {
					row[j] = 77
				}
			}
			big.Rows[p[i]] = row
		}
		d := big.BuildWith(attrs)
		return base.NewInstancesViewFromVisible(d, vis, attrs), "visible-view"
	case 3:
		// a permutation by row mapping
		n := len(m.Rows)
		p := Perm(t, n, "perm")
		src := &Table{Cols: m.Cols, Class: m.Class, Rows: make([][]float64, n)}
		mp := map[int]int{}
		for i := range p {
			src.Rows[p[i]] = m.Rows[i]
			if p[i] != i {
				mp[i] = p[i]
			}
		}
		return base.NewInstancesViewFromRows(src.BuildWith(attrs), mp), "row-view"
	default:
		d := m.BuildWith(attrs)
		return base.NewInstancesViewFromAttrs(d, d.AllAttributes()), "attr-view"
	}
}

// Rare is true about once in n cases (rapid's ranges prefer small numbers),
// never in the simplest one.
func Rare(t *rapid.T, label string, n uint64) bool {
	h := rapid.Uint64().Draw(t, label)*0x9e3779b97f4a7c15 + rapid.Uint64().Draw(t, label)
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h%n == 1
}
