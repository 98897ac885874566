package main

import (
	"fmt"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func cloneTable(m *hx.Table) *hx.Table {
	n := &hx.Table{Class: m.Class}
	for _, c := range m.Cols {
		c.Labels = append([]string(nil), c.Labels...)
		n.Cols = append(n.Cols, c)
	}
	for _, r := range m.Rows {
		n.Rows = append(n.Rows, append([]float64(nil), r...))
	}
	return n
}

func newAttrs(m *hx.Table) []base.Attribute {
	attrs := make([]base.Attribute, len(m.Cols))
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	return attrs
}

func init() {
	hx.Register("C38", "equality", 4000, 100000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 6, MinCols: 1, MaxCols: 4, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Cat, Big: 80})
		n := cloneTable(m)
		kind := rapid.SampledFrom([]string{"none", "none", "cell", "fewer rows", "more rows", "column", "dropped column", "added column", "label", "swap rows", "reordered columns"}).Draw(t, "mutation")
		equal := true
		switch kind {
		case "cell":
			if len(n.Rows) == 0 {
				kind = "none"
				break
			}
			r, i := rapid.IntRange(0, len(n.Rows)-1).Draw(t, "r"), rapid.IntRange(0, len(n.Cols)-1).Draw(t, "i")
			switch n.Cols[i].Kind {
			case hx.Float:
				n.Rows[r][i] += 0.5
			case hx.Bin:
				n.Rows[r][i] = 1 - n.Rows[r][i]
			default:
				if len(n.Cols[i].Labels) < 2 {
					kind = "none"
					break
				}
				n.Rows[r][i] = float64((int(n.Rows[r][i]) + 1) % len(n.Cols[i].Labels))
			}
			equal = kind == "none"
		case "fewer rows":
			if len(n.Rows) == 0 {
				kind = "none"
				break
			}
			n.Rows = n.Rows[:len(n.Rows)-1]
			equal = false
		case "more rows":
			n.Rows = append(n.Rows, hx.GenRow(t, n, hx.SmallFloat))
			equal = false
		case "column":
			i := rapid.IntRange(0, len(n.Cols)-1).Draw(t, "i")
			n.Cols[i].Name += "z"
			equal = false
		case "label":
			kind = "none"
			for i := range n.Cols {
				if n.Cols[i].Kind == hx.Cat {
					n.Cols[i].Labels[0] += "z"
					kind, equal = "label", false
					break
				}
			}
		case "dropped column":
			n.Cols = n.Cols[:len(n.Cols)-1]
			if n.Class >= len(n.Cols) {
				n.Class = -1
			}
			for r := range n.Rows {
				n.Rows[r] = n.Rows[r][:len(n.Cols)]
			}
			equal = false
		case "added column":
			n.Cols = append(n.Cols, hx.Col{Name: "new", Kind: hx.Float})
			for r := range n.Rows {
				n.Rows[r] = append(n.Rows[r], 0)
			}
			equal = false
		case "swap rows":
			if len(n.Rows) < 2 {
				kind = "none"
				break
			}
			n.Rows[0], n.Rows[1] = n.Rows[1], n.Rows[0]
			equal = fmt.Sprint(n.Rows[0]) == fmt.Sprint(n.Rows[1])
		case "reordered columns":
			p := hx.Perm(t, len(n.Cols), "cols")
			o := &hx.Table{Class: -1, Rows: make([][]float64, len(n.Rows))}
			for k, i := range p {
				o.Cols = append(o.Cols, n.Cols[i])
				if i == n.Class {
					o.Class = k
				}
				for r := range n.Rows {
					o.Rows[r] = append(o.Rows[r], n.Rows[r][i])
				}
			}
			n = o
		}
		a, ha := hx.Wrap(t, m, newAttrs(m))
		b, hb := hx.Wrap(t, n, newAttrs(n))
		c.Describe(kind != "none" || len(m.Cols) > 1, "%s %s/%s: %s", kind, ha, hb, m)
		c.Class(true, kind)
		for i, p := range [][2]base.FixedDataGrid{{a, b}, {b, a}} {
			var got bool
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("comparing (%s, order %d) panics: %v", kind, i, r)
					}
				}()
				got = base.InstancesAreEqual(p[0], p[1])
			}()
			// Unequal grids reported equal is the listed finding
			// C38-equal-one-grid, reproduced below.
			if !got && equal {
				t.Fatalf("%s (order %d): grids reported equal=%v\n%s\n%s", kind, i, got, m, n)
			}
		}
		if !base.InstancesAreEqual(a, a) {
			t.Fatalf("a grid is not equal to itself")
		}
		// compatibility: the attribute sets
		compat := kind != "column" && kind != "label" && kind != "dropped column" && kind != "added column"
		for i, p := range [][2]base.FixedDataGrid{{a, b}, {b, a}} {
			got := base.CheckCompatible(p[0], p[1])
			if (got != nil) != compat {
				t.Fatalf("%s (order %d): compatible=%v", kind, i, got)
			}
			if compat && len(got) != len(m.Cols) {
				t.Fatalf("%s: compatible attributes %v", kind, got)
			}
		}
	})

	hx.Probe("C38", "C38-equal-one-grid", func() (bool, string) {
		build := func(v float64) base.FixedDataGrid {
			d := base.NewDenseInstances()
			s := d.AddAttribute(base.NewFloatAttribute("a"))
			d.Extend(1)
			d.Set(s, 0, base.PackFloatToBytes(v))
			return d
		}
		return base.InstancesAreEqual(build(1), build(2)), "grids holding 1 and 2"
	})

	hx.Register("C38", "strict", 3000, 80000, func(t *rapid.T, c *hx.Case) {
		type item struct {
			col   hx.Col
			group string
		}
		var items []item
		for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
			it := item{col: hx.Col{Name: fmt.Sprintf("a%d", len(items)), Kind: rapid.SampledFrom([]hx.Kind{hx.Float, hx.Bin, hx.Float}).Draw(t, "kind")}}
			if it.col.Kind == hx.Float {
				it.group = rapid.SampledFrom([]string{"f1", "f2"}).Draw(t, "g")
			} else {
				it.group = rapid.SampledFrom([]string{"b1", "b2"}).Draw(t, "g")
			}
			items = append(items, it)
		}
		build := func(items []item) *base.DenseInstances {
			d := base.NewDenseInstances()
			for _, it := range items {
				size := 8
				if it.col.Kind == hx.Bin {
					size = 0
				}
				if _, err := d.GetAttributeGroup(it.group); err != nil {
					if err := d.CreateAttributeGroup(it.group, size); err != nil {
						t.Fatalf("%v", err)
					}
				}
				if _, err := d.AddAttributeToAttributeGroup(it.col.NewAttr(), it.group); err != nil {
					t.Fatalf("%v", err)
				}
			}
			d.Extend(rapid.IntRange(0, 2).Draw(t, "rows"))
			return d
		}
		other := append([]item(nil), items...)
		kind := rapid.SampledFrom([]string{"none", "drop", "rename", "regroup", "swap", "reverse", "insert"}).Draw(t, "mutation")
		i := rapid.IntRange(0, len(items)-1).Draw(t, "i")
		switch kind {
		case "drop":
			other = append(other[:i:i], other[i+1:]...)
		case "rename":
			other[i].col.Name += "z"
		case "regroup":
			other[i].group += "x"
		case "swap":
			j := rapid.IntRange(0, len(items)-1).Draw(t, "j")
			other[i], other[j] = other[j], other[i]
		case "reverse":
			for a, b := 0, len(other)-1; a < b; a, b = a+1, b-1 {
				other[a], other[b] = other[b], other[a]
			}
		case "insert":
			x := item{col: hx.Col{Name: "new", Kind: hx.Float}, group: rapid.SampledFrom([]string{"f1", "f2"}).Draw(t, "xg")}
			other = append(other[:i:i], append([]item{x}, other[i:]...)...)
		}
		layout := func(items []item) string {
			m := map[string][]string{}
			for _, it := range items {
				m[it.group] = append(m[it.group], fmt.Sprint(it.col.Name, it.col.Kind))
			}
			return fmt.Sprint(m)
		}
		want := layout(items) == layout(other)
		c.Describe(kind != "none" || len(items) > 1, "%s: %v / %v", kind, items, other)
		c.Class(want, "compatible")
		a, b := build(items), build(other)
		for i, p := range [][2]*base.DenseInstances{{a, b}, {b, a}} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("%s (order %d) panics: %v", kind, i, r)
					}
				}()
				if got := base.CheckStrictlyCompatible(p[0], p[1]); got != want {
					t.Fatalf("%s (order %d): strictly compatible=%v, want %v\n%s\n%s", kind, i, got, want, layout(items), layout(other))
				}
			}()
		}
		if base.CheckStrictlyCompatible(a, base.NewInstancesViewFromAttrs(a, a.AllAttributes())) {
			t.Fatalf("a view is reported strictly compatible")
		}
	})

	hx.Register("C38", "sets", 4000, 100000, func(t *rapid.T, c *hx.Case) {
		// a pool of attributes with equal twins
		var pool []base.Attribute
		for i := 0; i < 4; i++ {
			for k := hx.Float; k <= hx.Bin; k++ {
				col := hx.Col{Name: fmt.Sprintf("p%d", i), Kind: k, Labels: []string{"x", "y"}}
				pool = append(pool, col.NewAttr(), col.NewAttr())
			}
		}
		pick := func(name string) []base.Attribute {
			idx := rapid.SliceOfNDistinct(rapid.IntRange(0, len(pool)-1), 0, 8, rapid.ID[int]).Draw(t, name)
			var l []base.Attribute
			for _, i := range idx {
				l = append(l, pool[i])
			}
			return l
		}
		a, b := pick("a"), pick("b")
		c.Describe(len(a) > 1 && len(b) > 1, "%v / %v", idsOf(pool, a), idsOf(pool, b))
		var inter, diff, interRef, diffRef []base.Attribute
		for _, x := range a {
			eq, same := false, false
			for _, y := range b {
				eq = eq || x.Equals(y)
				same = same || x == y
			}
			if eq {
				inter = append(inter, x)
			} else {
				diff = append(diff, x)
			}
			if same {
				interRef = append(interRef, x)
			} else {
				diffRef = append(diffRef, x)
			}
		}
		ordered := func(name string, got, want []base.Attribute) {
			if fmt.Sprint(idsOf(pool, got)) != fmt.Sprint(idsOf(pool, want)) {
				t.Fatalf("%s is %v, want %v", name, got, want)
			}
		}
		asSet := func(name string, got, want []base.Attribute) {
			seen := map[base.Attribute]int{}
			for _, x := range got {
				seen[x]++
			}
			for _, x := range want {
				seen[x] += 100
			}
			for x, n := range seen {
				if n != 101 {
					t.Fatalf("%s: %v is in one of the sets only, or twice: %v, want %v", name, x, got, want)
				}
			}
		}
		ordered("intersection", base.AttributeIntersect(a, b), inter)
		ordered("difference", base.AttributeDifference(a, b), diff)
		asSet("intersection by reference", base.AttributeIntersectReferences(a, b), interRef)
		asSet("difference by reference", base.AttributeDifferenceReferences(a, b), diffRef)
	})

	hx.Register("C38", "selectors", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m := hx.GenTable(t, hx.Opts{MinRows: 0, MaxRows: 2, MinCols: 1, MaxCols: 6, Kinds: []hx.Kind{hx.Float, hx.Cat, hx.Bin}, ClassKind: hx.Float, NoClass: true, Big: 100})
		attrs := newAttrs(m)
		g, how := hx.Wrap(t, m, attrs)
		isClass := make([]bool, len(attrs))
		for i := range attrs {
			if rapid.IntRange(0, 2).Draw(t, "cls") == 0 {
				isClass[i] = true
				if err := g.AddClassAttribute(attrs[i]); err != nil {
					t.Fatalf("%v", err)
				}
			}
		}
		c.Describe(len(attrs) > 1, "%s classes %v: %s", how, isClass, m)
		names := map[string]bool{}
		for _, a := range base.NonClassAttributes(g) {
			if names[a.GetName()] {
				t.Fatalf("%v is listed twice", a)
			}
			names[a.GetName()] = true
		}
		var floats []string
		for _, a := range base.NonClassFloatAttributes(g) {
			floats = append(floats, a.GetName())
		}
		var wantFloats []string
		for _, a := range g.AllAttributes() {
			for i := range attrs {
				if attrs[i] == a && !isClass[i] && m.Cols[i].Kind == hx.Float {
					wantFloats = append(wantFloats, a.GetName())
				}
			}
		}
		if fmt.Sprint(floats) != fmt.Sprint(wantFloats) {
			t.Fatalf("non-class float attributes %q, want %q", floats, wantFloats)
		}
		for i, a := range attrs {
			if names[a.GetName()] == isClass[i] {
				t.Fatalf("non-class attributes %v, classes %v", names, isClass)
			}
			if got := base.GetAttributeByName(g, a.GetName()); got == nil || !got.Equals(a) {
				t.Fatalf("%q found by name is %v", a.GetName(), got)
			}
		}
		if got := base.GetAttributeByName(g, "no such name"); got != nil {
			t.Fatalf("found %v by a name nothing has", got)
		}
	})
}

func idsOf(pool, l []base.Attribute) []int {
	var o []int
	for _, x := range l {
		for i, p := range pool {
			if p == x {
				o = append(o, i)
			}
		}
	}
	return o
}
