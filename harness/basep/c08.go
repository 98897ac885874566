package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// genTextTable draws a table of float and categorical columns with a class,
// with names and labels from the given generators.
func genTextTable(t *rapid.T, maxRows int, name, label func(*rapid.T) string) (*hx.Table, []base.Attribute) {
	nc := rapid.IntRange(1, 5).Draw(t, "cols")
	m := &hx.Table{Class: rapid.IntRange(0, nc-1).Draw(t, "class")}
	seen := map[string]bool{}
	for i := 0; i < nc; i++ {
		n := name(t)
		for seen[n] {
			n += "x"
		}
		seen[n] = true
		c := hx.Col{Name: n, Kind: rapid.SampledFrom([]hx.Kind{hx.Float, hx.Cat}).Draw(t, "kind"), Prec: rapid.IntRange(0, 7).Draw(t, "prec")}
		if c.Kind == hx.Cat {
			k := rapid.IntRange(1, 4).Draw(t, "nlab")
			if rapid.IntRange(0, 7).Draw(t, "morelabels") == 7 {
				k = rapid.IntRange(5, 20).Draw(t, "nlab2")
			}
			for len(c.Labels) < k {
				l := label(t)
				if has(c.Labels, l) {
					l += fmt.Sprint(len(c.Labels)) + "y"
				}
				c.Labels = append(c.Labels, l)
			}
		}
		m.Cols = append(m.Cols, c)
	}
	nr := rapid.IntRange(1, maxRows).Draw(t, "rows")
	for r := 0; r < nr; r++ {
		m.Rows = append(m.Rows, hx.GenRow(t, m, hx.AnyFloat))
	}
	switch {
	case hx.Rare(t, "long", 200): // more than any buffer holds
		n := rapid.IntRange(100, 3000).Draw(t, "longrows")
		if rapid.Bool().Draw(t, "manylabels") {
			for i := range m.Cols {
				for c := &m.Cols[i]; c.Kind == hx.Cat && len(c.Labels) < n/2; {
					c.Labels = append(c.Labels, fmt.Sprintf("many%d", len(c.Labels)))
				}
			}
		}
		for len(m.Rows) < n {
			k := len(m.Rows)
			row := append([]float64{}, m.Rows[k%nr]...)
			for i, c := range m.Cols {
				if c.Kind == hx.Cat {
					row[i] = float64((k*7 + i) % len(c.Labels))
				}
			}
			m.Rows = append(m.Rows, row)
		}
	case hx.Rare(t, "wide", 200):
		for n := rapid.IntRange(20, 150).Draw(t, "widecols"); len(m.Cols) < n; {
			i := len(m.Cols)
			c := hx.Col{Name: fmt.Sprintf("wide%d", i), Kind: []hx.Kind{hx.Float, hx.Cat}[i*5/3%2], Prec: i % 7}
			if c.Kind == hx.Cat {
				c.Labels = []string{"u", "v", "w"}
			}
			m.Cols = append(m.Cols, c)
			for r := range m.Rows {
				m.Rows[r] = append(m.Rows[r], float64((r+i*3)%3))
			}
		}
		nc = len(m.Cols)
	}
	attrs := make([]base.Attribute, nc)
	for i := range attrs {
		attrs[i] = m.Cols[i].NewAttr()
	}
	return m, attrs
}

// checkReread compares a grid parsed from text with the table written.
func checkReread(t *rapid.T, g base.FixedDataGrid, m *hx.Table, text string) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(m.Rows) {
		t.Fatalf("read back %d x %d, want %d x %d\n%q", cols, rows, len(m.Cols), len(m.Rows), text)
	}
	attrs := make([]base.Attribute, len(m.Cols))
	for i, c := range m.Cols {
		attrs[i] = hx.FindAttr(t, g, c.Name)
		hx.CheckAttr(t, "read back", attrs[i], c)
	}
	cells := hx.CellsByGet(t, g, attrs)
	for r, row := range m.Rows {
		for i, c := range m.Cols {
			if c.Kind == hx.Float {
				want, err := strconv.ParseFloat(c.Str(row[i]), 64)
				if err != nil {
					panic(err)
				}
				if got := base.UnpackBytesToFloat(cells[r][i]); got != want {
					t.Fatalf("row %d of %q is %v, want %v (stored %v)\n%q", r, c.Name, got, want, row[i], text)
				}
			} else if got := attrs[i].GetStringFromSysVal(cells[r][i]); got != c.Labels[int(row[i])] {
				t.Fatalf("row %d of %q is %q, want %q\n%q", r, c.Name, got, c.Labels[int(row[i])], text)
			}
		}
	}
	hx.CheckClasses(t, "read back", g, m)
}

// failingWriter accepts n bytes and then fails.
type failingWriter struct {
	n      int
	got    int
	failed bool
}

var errFull = errors.New("disk full")

func (w *failingWriter) Write(b []byte) (int, error) {
	if w.got+len(b) > w.n {
		k := w.n - w.got
		w.got = w.n
		w.failed = true
		return k, errFull
	}
	w.got += len(b)
	return len(b), nil
}

// target prepares a file that is missing, empty, or full of old contents.
func target(t *rapid.T, name string) (string, string) {
	p := filepath.Join(hx.Scratch, name)
	os.Remove(p)
	how := rapid.SampledFrom([]string{"new", "empty", "longer"}).Draw(t, "target")
	switch how {
	case "empty":
		os.WriteFile(p, nil, 0600)
	case "longer":
		os.WriteFile(p, bytes.Repeat([]byte("1,old,row,of,text\n"), 2000), 0600)
	}
	return p, how
}

func init() {
	hx.Register("C08", "roundtrip", 3000, 80000, func(t *rapid.T, c *hx.Case) {
		label := func(t *rapid.T) string {
			w := genWord(t)
			if plainWord.MatchString(w) {
				w += "x"
			}
			return w
		}
		m, attrs := genTextTable(t, 7, genWord, label)
		g, how := hx.Wrap(t, m, attrs)
		c.Describe(len(m.Rows) > 1 && len(m.Cols) > 1, "%s: %s", how, m)
		c.Class(how != "dense", "view")
		before := hx.Digest(t, g)
		var text string
		var back *base.DenseInstances
		var err error
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			p, th := target(t, "out.csv")
			c.Class(true, "file "+th)
			if err := base.SerializeInstancesToCSV(g, p); err != nil {
				t.Fatalf("writing over a %s file failed: %v", th, err)
			}
			b, _ := os.ReadFile(p)
			text = string(b)
			var direct bytes.Buffer
			if err := base.SerializeInstancesToCSVStream(g, &direct); err != nil {
				t.Fatalf("writing failed: %v", err)
			}
			if len(direct.String()) != len(text) {
				t.Fatalf("a %s file holds %d bytes, the text has %d", th, len(text), direct.Len())
			}
			back, err = base.ParseCSVToInstances(p, true)
		} else {
			var b bytes.Buffer
			if err := base.SerializeInstancesToCSVStream(g, &b); err != nil {
				t.Fatalf("writing failed: %v", err)
			}
			text = b.String()
			back, err = base.ParseCSVToInstancesFromReader(bytes.NewReader(b.Bytes()), true)
		}
		if err != nil {
			t.Fatalf("reading back failed: %v\n%q", err, text)
		}
		checkReread(t, back, m, text)
		if hx.Digest(t, g) != before {
			t.Fatalf("writing changed the grid")
		}
		// reading against the original as template keeps the codes
		if d, ok := g.(*base.DenseInstances); ok {
			tb, err := base.ParseCSVToTemplatedInstancesFromReader(strings.NewReader(text), true, d)
			if err != nil {
				t.Fatalf("templated reading back failed: %v\n%q", err, text)
			}
			for r, row := range m.Rows {
				for i, col := range m.Cols {
					s, err := tb.GetAttribute(attrs[i])
					if err != nil {
						t.Fatalf("%v", err)
					}
					if col.Kind == hx.Cat {
						hx.CheckCell(t, "templated read", attrs[i], col, tb.Get(s, r), r, row[i])
						if got := base.UnpackBytesToU64(tb.Get(s, r)); got != uint64(row[i]) {
							t.Fatalf("row %d of %q has code %d, want %v", r, col.Name, got, row[i])
						}
					}
				}
			}
		}
	})

	hx.Register("C08", "writeerror", 600, 15000, func(t *rapid.T, c *hx.Case) {
		m, attrs := genTextTable(t, 7, genWord, genWord)
		if rapid.Bool().Draw(t, "big") {
			for len(m.Rows) < 400 {
				m.Rows = append(m.Rows, m.Rows...)
			}
		}
		g, how := hx.Wrap(t, m, attrs)
		var b bytes.Buffer
		if err := base.SerializeInstancesToCSVStream(g, &b); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		n := rapid.IntRange(0, b.Len()-1).Draw(t, "limit")
		if rapid.Bool().Draw(t, "late") && b.Len() > 24 {
			n = b.Len() - rapid.IntRange(1, 24).Draw(t, "left")
		}
		c.Describe(true, "fail after %d of %d bytes; %s: %d rows", n, b.Len(), how, len(m.Rows))
		if err := base.SerializeInstancesToCSVStream(g, &failingWriter{n: n}); err == nil {
			t.Fatalf("a writer that fails after %d of %d bytes is reported as a success", n, b.Len())
		}
	})
	_ = math.Inf
}
