package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// anyBits draws a float with any bit pattern.
func anyBits(t *rapid.T, name string) float64 {
	if rapid.IntRange(0, 3).Draw(t, name+"k") == 0 {
		return math.Float64frombits(rapid.Uint64().Draw(t, name))
	}
	return hx.AnyFloat(t, name)
}

// genArchiveTable draws a table with any columns; classes are marked on the
// returned grid.
func genArchiveTable(t *rapid.T, maxRows int) (*hx.Table, []base.Attribute, base.FixedDataGrid, []string, string) {
	m := &hx.Table{Class: -1}
	nc := rapid.IntRange(1, 6).Draw(t, "cols")
	kinds := []hx.Kind{hx.Float, hx.Cat, hx.Bin}
	if rapid.IntRange(0, 4).Draw(t, "manybin") == 0 {
		nc = rapid.IntRange(7, 30).Draw(t, "cols2")
		kinds = []hx.Kind{hx.Bin, hx.Bin, hx.Bin, hx.Float}
	}
	if hx.Rare(t, "wide", 60) {
		nc = rapid.IntRange(60, 300).Draw(t, "cols3")
	}
	for i := 0; i < nc; i++ {
		c := hx.Col{Name: rapid.StringMatching(`[a-zé"\\ ,{}日-]{0,3}`).Draw(t, "name") + fmt.Sprint(i), Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Prec: rapid.IntRange(0, 9).Draw(t, "prec")}
		if c.Kind == hx.Cat {
			n := rapid.IntRange(1, 5).Draw(t, "nl")
			c.Labels = rapid.SliceOfNDistinct(rapid.OneOf(rapid.StringMatching(`[a-z]{0,3}`), rapid.StringOfN(rapid.Rune(), 0, 5, -1)), n, n, rapid.ID[string]).Draw(t, "labels")
			for k := range c.Labels {
				c.Labels[k] = strings.ToValidUTF8(c.Labels[k], "") + fmt.Sprint(k)
			}
			if rapid.IntRange(0, 5).Draw(t, "emptylabel") == 0 {
				c.Labels[rapid.IntRange(0, n-1).Draw(t, "which")] = ""
			}
			if rapid.IntRange(0, 150).Draw(t, "manylabels") == 150 {
				for k := rapid.IntRange(200, 700).Draw(t, "labels"); len(c.Labels) < k; {
					c.Labels = append(c.Labels, fmt.Sprintf("more%d", len(c.Labels)))
				}
			}
		}
		m.Cols = append(m.Cols, c)
	}
	if nc > 1 && rapid.IntRange(0, 4).Draw(t, "twins") == 0 {
		for j := 1; j < nc; j++ {
			if m.Cols[j].Kind != m.Cols[0].Kind {
				m.Cols[j].Name = m.Cols[0].Name
				break
			}
		}
	}
	nr := rapid.IntRange(0, maxRows).Draw(t, "rows")
	for r := 0; r < nr; r++ {
		m.Rows = append(m.Rows, hx.GenRow(t, m, anyBits))
	}
	if nr > 0 && rapid.IntRange(0, 9).Draw(t, "long") == 0 {
		// long grids by repetition, so that reads straddle buffers
		n := rapid.IntRange(500, 9000).Draw(t, "longrows")
		for len(m.Rows) < n {
			m.Rows = append(m.Rows, m.Rows[len(m.Rows)%nr])
		}
	}
	attrs := make([]base.Attribute, nc)
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	g, how := hx.Wrap(t, m, attrs)
	var classes []string
	for i, a := range attrs {
		if rapid.IntRange(0, 3).Draw(t, "isclass") == 0 {
			if err := g.AddClassAttribute(a); err != nil {
				panic(err)
			}
			classes = append(classes, className(m.Cols[i].Name, m.Cols[i].Kind))
		}
	}
	sort.Strings(classes)
	return m, attrs, g, classes, how
}

func className(name string, k hx.Kind) string { return fmt.Sprint(name, "/", k) }

// checkSameGrid compares a grid read back with the table, exactly.
func checkSameGrid(t hx.TB, what string, g base.FixedDataGrid, m *hx.Table, classes []string) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(m.Rows) || len(g.AllAttributes()) != cols {
		t.Fatalf("%s: %d x %d (%d attributes), want %d x %d", what, cols, rows, len(g.AllAttributes()), len(m.Cols), len(m.Rows))
	}
	attrs := make([]base.Attribute, cols)
	for i, c := range m.Cols {
		attrs[i] = hx.FindCol(t, g, c)
		hx.CheckAttr(t, what, attrs[i], c)
		switch a := attrs[i].(type) {
		case *base.CategoricalAttribute:
			if fmt.Sprintf("%q", a.GetValues()) != fmt.Sprintf("%q", c.Labels) {
				t.Fatalf("%s: labels of %q are %q, want %q", what, c.Name, a.GetValues(), c.Labels)
			}
		case *base.FloatAttribute:
			if a.Precision != c.Prec {
				t.Fatalf("%s: precision of %q is %d, want %d", what, c.Name, a.Precision, c.Prec)
			}
		}
	}
	var got []string
	for _, a := range g.AllClassAttributes() {
		got = append(got, className(a.GetName(), hx.KindOf(a)))
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(classes) {
		t.Fatalf("%s: class attributes %q, want %q", what, got, classes)
	}
	hx.CheckCells(t, what, g, attrs, m)
}

func readGrid(t hx.TB, b []byte) (g *base.DenseInstances, err error) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("reading a %d-byte archive panics: %v", len(b), r)
		}
	}()
	return base.DeserializeInstances(bytes.NewReader(b))
}

func init() {
	hx.Register("C10", "roundtrip", 1500, 30000, func(t *rapid.T, c *hx.Case) {
		m, _, g, classes, how := genArchiveTable(t, 9)
		shown := m
		if len(m.Rows) > 20 {
			shown = m.Sub([]int{0, 1, 2})
		}
		c.Describe(len(m.Rows) > 1, "%s, %d rows, classes %q: %s", how, len(m.Rows), classes, shown)
		c.Class(how != "dense", "view")
		c.Class(len(m.Rows) > 20, "long")
		c.Class(len(classes) > 1, "several classes")
		before := hx.Digest(t, g)
		var back base.FixedDataGrid
		var err error
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			p, th := target(t, "out.grid")
			c.Class(true, "file "+th)
			if err := base.SerializeInstancesToFile(g, p); err != nil {
				t.Fatalf("writing over a %s file: %v", th, err)
			}
			f, err2 := os.Open(p)
			if err2 != nil {
				t.Fatalf("%v", err2)
			}
			defer f.Close()
			back, err = base.DeserializeInstances(f)
		} else {
			var b bytes.Buffer
			if err := base.SerializeInstances(g, &b); err != nil {
				t.Fatalf("writing failed: %v", err)
			}
			back, err = readGrid(t, b.Bytes())
		}
		if err != nil {
			t.Fatalf("reading back failed: %v", err)
		}
		checkSameGrid(t, "read back", back, m, classes)
		if hx.Digest(t, g) != before {
			t.Fatalf("writing changed the grid")
		}
		// and once more
		var b bytes.Buffer
		if err := base.SerializeInstances(back, &b); err != nil {
			t.Fatalf("writing the copy failed: %v", err)
		}
		again, err := readGrid(t, b.Bytes())
		if err != nil {
			t.Fatalf("reading the copy failed: %v", err)
		}
		checkSameGrid(t, "read back twice", again, m, classes)
	})

	hx.Register("C10", "writeerror", 300, 6000, func(t *rapid.T, c *hx.Case) {
		_, _, g, _, how := genArchiveTable(t, 9)
		var b bytes.Buffer
		if err := base.SerializeInstances(g, &b); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		// the length varies a little with attribute order
		n := rapid.IntRange(0, b.Len()).Draw(t, "limit")
		if rapid.Bool().Draw(t, "late") {
			n = b.Len() - rapid.IntRange(0, 24).Draw(t, "left")
		}
		c.Describe(true, "%s: fail after %d of about %d bytes", how, n, b.Len())
		w := &failingWriter{n: n}
		if err := base.SerializeInstances(g, w); (err != nil) != w.failed {
			t.Fatalf("a writer that fails after %d of about %d bytes (reached: %v) gave error %v", n, b.Len(), w.failed, err)
		}
	})

	hx.Register("C11", "grid", 160, 4000, func(t *rapid.T, c *hx.Case) {
		m, _, g, classes, how := genArchiveTable(t, 6)
		if len(m.Rows) > 1500 {
			m = m.Sub(seq(1500))
			g, _ = m.Build()
			for _, c := range m.Cols {
				if has(classes, className(c.Name, c.Kind)) {
					g.AddClassAttribute(hx.FindCol(t, g, c))
				}
			}
		}
		var buf bytes.Buffer
		if err := base.SerializeInstances(g, &buf); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		whole := buf.Bytes()
		check := func(what string, b []byte) {
			back, err := readGrid(t, b)
			if err != nil {
				return
			}
			if back == nil {
				t.Fatalf("%s: neither grid nor error", what)
			}
			checkSameGrid(t, what+" was accepted and", back, m, classes)
		}
		n := 0
		// every truncation point of small archives, a sample of others
		step := 1 + len(whole)/400
		for k := rapid.IntRange(0, step-1).Draw(t, "off"); k < len(whole); k += step {
			check(fmt.Sprintf("archive cut to %d of %d bytes", k, len(whole)), whole[:k])
			n++
		}
		for i := 0; i < 60; i++ {
			b, what := hx.Damage(t, whole)
			check("archive with "+what, b)
			n++
		}
		check("archive with bytes appended", append(append([]byte(nil), whole...), rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(t, "tail")...))
		c.Describe(true, "%s archive %08x of %d bytes, %d rows, %d columns: %d damaged copies", how, crc32.ChecksumIEEE(whole), len(whole), len(m.Rows), len(m.Cols), n+1)
	})
}

func seq(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	return x
}
