package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// The supported subset has no quoting, so names have no blanks and labels no
// separators.
func arffName(t *rapid.T) string {
	return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{0,7}`).Draw(t, "name")
}

func arffLabel(t *rapid.T) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_.-]{1,6}`),
		rapid.StringMatching(`[a-c]`),
		rapid.SampledFrom([]string{"b c", "über", "日本", "<=50K", ">50K", "1", "-2.5", "Iris-setosa", "a@b", "@x", "5%", "real", "@data", "x y z", "?no", "?", "'q", "a%b", "null"}),
	).Draw(t, "label")
}

type arffDoc struct {
	m       *hx.Table
	cells   [][]string
	header  []string
	data    []string
	spacing string
}

func keyword(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return s[:1] + strings.ToUpper(s[1:2]) + s[2:]
	default:
		return s
	}
}

func genARFF(t *rapid.T) *arffDoc {
	m, _ := genTextTable(t, 7, arffName, arffLabel)
	m.Class = len(m.Cols) - 1
	d := &arffDoc{m: m}
	d.header = append(d.header, keyword(t, "@relation")+" r")
	for _, c := range m.Cols {
		typ := keyword(t, "real")
		if c.Kind == hx.Cat {
			switch rapid.IntRange(0, 4).Draw(t, "list") {
			case 0:
				typ = "{" + strings.Join(c.Labels, ",") + "}"
			case 1:
				typ = "{" + strings.Join(c.Labels, ", ") + "}"
			case 2:
				typ = "{ " + strings.Join(c.Labels, ", ") + " }"
			case 3:
				typ = "{" + strings.Join(c.Labels, " ,") + "}"
			default:
				typ = "{ " + strings.Join(c.Labels, ",") + "}"
			}
		}
		d.header = append(d.header, keyword(t, "@attribute")+rapid.SampledFrom([]string{" ", "\t", "  "}).Draw(t, "sep")+c.Name+
			rapid.SampledFrom([]string{" ", "\t", "   "}).Draw(t, "sep2")+typ)
	}
	for _, row := range m.Rows {
		var f, out []string
		for i, c := range m.Cols {
			s := ""
			if c.Kind == hx.Cat {
				s = c.Labels[int(row[i])]
			} else {
				s = genNumber(t)
			}
			f = append(f, s)
			out = append(out, rapid.SampledFrom([]string{"", "", " "}).Draw(t, "pad")+s)
		}
		if len(out[0]) > 0 && out[0][0] == '%' {
			out[0] = " " + out[0]
		}
		d.cells = append(d.cells, f)
		d.data = append(d.data, strings.Join(out, ","))
	}
	return d
}

func noise(t *rapid.T) []string {
	var o []string
	for k := rapid.IntRange(0, 5).Draw(t, "noise") - 3; k > 0; k-- {
		o = append(o, rapid.SampledFrom([]string{"", "% a comment, with commas", "%", "% @attribute no real", "%@data"}).Draw(t, "line"))
	}
	return o
}

func (d *arffDoc) text(t *rapid.T) string {
	var lines []string
	for _, h := range d.header {
		lines = append(lines, noise(t)...)
		lines = append(lines, h)
	}
	lines = append(lines, noise(t)...)
	lines = append(lines, keyword(t, "@data")+rapid.SampledFrom([]string{"", "", " ", "\t"}).Draw(t, "afterdata"))
	for _, r := range d.data {
		lines = append(lines, noise(t)...)
		lines = append(lines, r)
	}
	lines = append(lines, noise(t)...)
	nl := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "nl")
	s := strings.Join(lines, nl)
	if rapid.IntRange(0, 2).Draw(t, "lastnl") > 0 {
		s += nl
	}
	return s
}

func readARFF(t *rapid.T, text string) (g *base.DenseInstances, err error) {
	p := filepath.Join(hx.Scratch, "in.arff")
	if err := os.WriteFile(p, []byte(text), 0600); err != nil {
		panic(err)
	}
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("parsing panics: %v\n%s", r, text)
		}
	}()
	return base.ParseDenseARFFToInstances(p)
}

// checkARFF compares a parsed grid with the columns and the text of the cells.
func checkARFF(t *rapid.T, g *base.DenseInstances, m *hx.Table, cells [][]string, text string) {
	cols, rows := g.Size()
	if cols != len(m.Cols) || rows != len(cells) {
		t.Fatalf("%d x %d, want %d x %d\n%s", cols, rows, len(m.Cols), len(cells), text)
	}
	attrs := make([]base.Attribute, cols)
	for i, c := range m.Cols {
		attrs[i] = hx.FindAttr(t, g, c.Name)
		hx.CheckAttr(t, "parsed", attrs[i], c)
		if a, ok := attrs[i].(*base.CategoricalAttribute); ok {
			if fmt.Sprintf("%q", a.GetValues()) != fmt.Sprintf("%q", c.Labels) {
				t.Fatalf("labels of %q are %q, want %q\n%s", c.Name, a.GetValues(), c.Labels, text)
			}
		}
	}
	hx.CheckClasses(t, "parsed", g, m)
	got := hx.CellsByGet(t, g, attrs)
	for r, row := range cells {
		for i, c := range m.Cols {
			if c.Kind == hx.Cat {
				if s := attrs[i].GetStringFromSysVal(got[r][i]); s != row[i] {
					t.Fatalf("row %d of %q is %q, want %q\n%s", r, c.Name, s, row[i], text)
				}
			} else {
				want, _ := strconv.ParseFloat(row[i], 64)
				if f := base.UnpackBytesToFloat(got[r][i]); f != want {
					t.Fatalf("row %d of %q is %v, want %v\n%s", r, c.Name, f, want, text)
				}
			}
		}
	}
}

func init() {
	hx.Register("C09", "parse", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		d := genARFF(t)
		text := d.text(t)
		c.Describe(len(d.data) > 1 && len(d.m.Cols) > 1, "%q", text)
		c.Class(strings.Contains(text, "%"), "comments")
		g, err := readARFF(t, text)
		if err != nil {
			t.Fatalf("refused: %v\n%s", err, text)
		}
		checkARFF(t, g, d.m, d.cells, text)
		p := filepath.Join(hx.Scratch, "in.arff")
		if n, err := base.ParseARFFGetRows(p); err != nil || n != len(d.data) {
			t.Fatalf("row count %d (%v), want %d\n%s", n, err, len(d.data), text)
		}
		checkPrecision(t, "declared", text, base.ParseARFFGetAttributes(p))
		checkPrecision(t, "parsed", text, g.AllAttributes())
		for i, a := range base.ParseARFFGetAttributes(p) {
			if i >= len(d.m.Cols) || a.GetName() != d.m.Cols[i].Name {
				t.Fatalf("declared attribute %d is %v, want %v\n%s", i, a, d.m.Cols[i], text)
			}
		}
	})

	hx.Register("C09", "roundtrip", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		m, attrs := genTextTable(t, 7, arffName, arffLabel)
		g, how := hx.Wrap(t, m, attrs)
		c.Describe(len(m.Rows) > 1 && len(m.Cols) > 1, "%s: %s", how, m)
		c.Class(how != "dense", "view")
		before := hx.Digest(t, g)
		order := hx.Perm(t, len(m.Cols), "order")
		p, th := target(t, "out.arff")
		c.Class(true, "file "+th)
		var err error
		sub := *m
		switch rapid.IntRange(0, 2).Draw(t, "way") {
		case 0:
			err = base.SerializeInstancesToDenseARFF(g, p, "rel")
		default:
			// chosen attributes in a chosen order; the last becomes the class
			k := rapid.IntRange(1, len(order)).Draw(t, "k")
			var as []base.Attribute
			sub = hx.Table{}
			for _, i := range order[:k] {
				as = append(as, attrs[i])
				sub.Cols = append(sub.Cols, m.Cols[i])
			}
			for _, r := range m.Rows {
				var row []float64
				for _, i := range order[:k] {
					row = append(row, r[i])
				}
				sub.Rows = append(sub.Rows, row)
			}
			sub.Class = k - 1
			if rapid.Bool().Draw(t, "stream") {
				var b bytes.Buffer
				err = base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, as, "rel")
				os.WriteFile(p, b.Bytes(), 0600)
			} else {
				err = base.SerializeInstancesToDenseARFFWithAttributes(g, as, p, "rel")
			}
		}
		if err != nil {
			t.Fatalf("writing over a %s file: %v", th, err)
		}
		b, _ := os.ReadFile(p)
		back, err := readARFF(t, string(b))
		if err != nil {
			t.Fatalf("refused: %v\n%s", err, b)
		}
		var cells [][]string
		for _, r := range sub.Rows {
			var f []string
			for i, v := range r {
				f = append(f, sub.Cols[i].Str(v))
			}
			cells = append(cells, f)
		}
		checkARFF(t, back, &sub, cells, string(b))
		if hx.Digest(t, g) != before {
			t.Fatalf("writing changed the grid")
		}
	})

	hx.Register("C09", "broken", 1500, 30000, func(t *rapid.T, c *hx.Case) {
		m, attrs := genTextTable(t, 7, genWord, genWord)
		big := rapid.IntRange(0, 3).Draw(t, "big") == 0
		for big && len(m.Rows) > 0 && len(m.Rows) < 800 {
			m.Rows = append(m.Rows, m.Rows...)
		}
		g, how := hx.Wrap(t, m, attrs)
		var b bytes.Buffer
		if err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, attrs, "rel"); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		n := rapid.IntRange(0, b.Len()-1).Draw(t, "limit")
		if rapid.Bool().Draw(t, "late") && b.Len() > 24 {
			n = b.Len() - rapid.IntRange(1, 24).Draw(t, "left")
		}
		c.Describe(true, "fail after %d of %d bytes; %s: %d rows", n, b.Len(), how, len(m.Rows))
		if rapid.Bool().Draw(t, "reading") {
			c.Class(true, "reading")
			u := base.NewDenseInstances()
			for _, a := range attrs {
				u.AddAttribute(a)
			}
			u.Extend(len(m.Rows))
			r := &brokenReader{Reader: bytes.NewReader(b.Bytes()), at: n, from: 1, pass: 1}
			if err := base.ParseDenseARFFBuildInstancesFromReader(r, attrs, u); err == nil {
				t.Fatalf("a reader that fails after %d of %d bytes is reported as a success", n, b.Len())
			}
		} else if err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&failingWriter{n: n}, g, attrs, "rel"); err == nil {
			t.Fatalf("a writer that fails after %d of %d bytes is reported as a success", n, b.Len())
		}
		if _, err := base.ParseDenseARFFToInstances(hx.Scratch); err == nil {
			t.Fatalf("a directory is read as an ARFF file")
		}
		if _, err := base.ParseARFFGetRows(hx.Scratch); err == nil {
			t.Fatalf("the rows of a directory are counted")
		}
	})

	hx.Register("C09", "refuse", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		d := genARFF(t)
		kind := rapid.SampledFrom([]string{"label", "number", "type", "bracket", "short", "long", "missing", "nothing"}).Draw(t, "mutation")
		r := rapid.IntRange(0, len(d.data)-1).Draw(t, "row")
		cat, num := -1, -1
		for i, col := range d.m.Cols {
			if col.Kind == hx.Cat {
				cat = i
			} else {
				num = i
			}
		}
		setCell := func(i int, s string) {
			f := append([]string(nil), d.cells[r]...)
			f[i] = s
			d.data[r] = strings.Join(f, ",")
		}
		if (kind == "label" || kind == "bracket") && cat < 0 {
			kind = "number"
		}
		if kind == "number" && num < 0 {
			kind = "label"
		}
		switch kind {
		case "label":
			l := rapid.SampledFrom([]string{"undeclared", "", "A A", "{"}).Draw(t, "bad")
			if has(d.m.Cols[cat].Labels, l) || l == "" && len(d.m.Cols) == 1 {
				t.Skip("declared")
			}
			setCell(cat, l)
		case "number":
			setCell(num, rapid.SampledFrom([]string{"abc", "1.2.3", "--4", "12a", "1e", "0x"}).Draw(t, "bad"))
		case "missing":
			if cat >= 0 && (num < 0 || rapid.Bool().Draw(t, "c")) {
				if has(d.m.Cols[cat].Labels, "?") {
					t.Skip("declared")
				}
				setCell(cat, "?")
			} else {
				setCell(num, "?")
			}
		case "type":
			i := rapid.IntRange(0, len(d.m.Cols)-1).Draw(t, "col")
			d.header[i+1] = "@attribute " + d.m.Cols[i].Name + " " + rapid.SampledFrom([]string{"string", "date", "relational", "realish", "[0,1]"}).Draw(t, "ty")
		case "bracket":
			d.header[cat+1] = strings.TrimRight(d.header[cat+1], "} ")
		case "short":
			if len(d.m.Cols) == 1 {
				t.Skip("one column")
			}
			d.data[r] = strings.Join(d.cells[r][:len(d.m.Cols)-1], ",")
		case "long":
			d.data[r] += ",1"
		}
		text := d.text(t)
		if kind == "nothing" {
			text = rapid.SampledFrom([]string{"", "\n", "% only a comment\n", "@relation x\n@data\n", "1,2,3\n"}).Draw(t, "text")
		}
		c.Describe(true, "%s: %q", kind, text)
		c.Class(true, kind)
		if g, err := readARFF(t, text); err == nil {
			t.Fatalf("%s: accepted as\n%v\n%s", kind, g, text)
		}
	})

	// Lines longer than common buffer sizes.
	hx.Register("C09", "longlines", 24, 200, func(t *rapid.T, c *hx.Case) {
		m := &hx.Table{}
		if rapid.Bool().Draw(t, "wide") {
			n := rapid.IntRange(100, 12000).Draw(t, "n")
			for i := 0; i < n; i++ {
				m.Cols = append(m.Cols, hx.Col{Name: fmt.Sprintf("c%d", i), Kind: hx.Float, Prec: 6})
			}
		} else {
			m.Cols = append(m.Cols, hx.Col{Name: "l", Kind: hx.Cat, Labels: []string{strings.Repeat("z", rapid.IntRange(1000, 150000).Draw(t, "len")), "b"}})
		}
		m.Class = len(m.Cols) - 1
		nr := rapid.IntRange(1, 4).Draw(t, "rows")
		for r := 0; r < nr; r++ {
			row := make([]float64, len(m.Cols))
			for i := range row {
				row[i] = float64((r + i) % 2)
			}
			m.Rows = append(m.Rows, row)
		}
		g, attrs := m.Build()
		c.Describe(true, "%d columns, %d rows, %d", len(m.Cols), nr, len(m.Cols[0].Str(0)))
		var b bytes.Buffer
		if err := base.SerializeInstancesToWriterDenseARFFWithAttributes(&b, g, attrs, "rel"); err != nil {
			t.Fatalf("%v", err)
		}
		text := b.String()
		back, err := readARFF(t, text)
		if err != nil {
			t.Fatalf("refused: %v", err)
		}
		if x, y := back.Size(); x != len(m.Cols) || y != nr {
			t.Fatalf("%d x %d, want %d x %d (longest line %d bytes)", x, y, len(m.Cols), nr, len(text)/(nr+1))
		}
		last := hx.FindAttr(t, back, m.Cols[m.Class].Name)
		s, _ := back.GetAttribute(last)
		for r, row := range m.Rows {
			hx.CheckCell(t, "read back", last, m.Cols[m.Class], back.Get(s, r), r, row[m.Class])
		}
	})
}
