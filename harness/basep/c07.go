package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// csvDoc is a text table together with what it means.
type csvDoc struct {
	names   []string
	kinds   []hx.Kind
	cells   [][]string // trimmed text, "" is missing
	text    string
	header  bool
	missing int
}

var plainWord = regexp.MustCompile(`^[-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?$`)

func genNumber(t *rapid.T) string {
	switch rapid.IntRange(0, 6).Draw(t, "num") {
	case 0:
		return strconv.Itoa(rapid.IntRange(-50, 50).Draw(t, "int"))
	case 1:
		return "+" + strconv.Itoa(rapid.IntRange(0, 50).Draw(t, "pint"))
	case 2:
		return fmt.Sprintf("%.*f", rapid.IntRange(1, 6).Draw(t, "digits"), rapid.Float64Range(-1000, 1000).Draw(t, "dec"))
	case 3:
		return fmt.Sprintf("%d%s%s%d", rapid.IntRange(-9, 9).Draw(t, "man"), rapid.SampledFrom([]string{"e", "E"}).Draw(t, "e"),
			rapid.SampledFrom([]string{"", "+", "-"}).Draw(t, "es"), rapid.IntRange(0, 12).Draw(t, "exp"))
	case 4:
		return fmt.Sprintf("%s.%d", rapid.SampledFrom([]string{"", "-", "+"}).Draw(t, "s"), rapid.IntRange(0, 999).Draw(t, "frac"))
	case 5:
		return rapid.SampledFrom([]string{"0", "-0", "00.50", "007", "1e0", "-0.0e-5", "0.1", "12345678901234567890"}).Draw(t, "odd")
	default:
		return strconv.FormatFloat(rapid.Float64Range(-1e9, 1e9).Draw(t, "any"), 'g', -1, 64)
	}
}

func genWord(t *rapid.T) string {
	w := rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_ .-]{0,6}`),
		rapid.StringMatching(`[a-c]`),
		rapid.SampledFrom([]string{"a,b", `say "hi"`, "two\nlines", "über", "日本", "x'y", "#no", "1.2.3", "1-2", "12a", "--1", "NaN?", "$5", "50%", "?", "NA", "a%b", "@data", "a\tb", "-", ".", "1e", "e5", "0x1f", "1,5", "+", "1 2"}),
	).Draw(t, "word")
	w = strings.TrimSpace(w)
	if w == "" {
		return "q"
	}
	return w
}

// field renders a cell's text with optional padding and quoting.
func field(t *rapid.T, s string) string {
	need := strings.ContainsAny(s, ",\"\n")
	if s == "" {
		return rapid.SampledFrom([]string{"", "", `""`}).Draw(t, "empty")
	}
	lead := rapid.SampledFrom([]string{"", "", "", " ", "  "}).Draw(t, "lead")
	trail := rapid.SampledFrom([]string{"", "", "", " "}).Draw(t, "trail")
	if need || rapid.IntRange(0, 4).Draw(t, "quote") == 0 {
		return `"` + lead + strings.ReplaceAll(s, `"`, `""`) + trail + `"`
	}
	return lead + s + trail
}

func genDoc(t *rapid.T, maxRows int) *csvDoc {
	nc := rapid.IntRange(1, 5).Draw(t, "cols")
	nr := rapid.IntRange(1, maxRows).Draw(t, "rows")
	if hx.Rare(t, "wide", 120) {
		nc, nr = rapid.IntRange(20, 120).Draw(t, "widecols"), min(nr, 2)
	}
	d := &csvDoc{header: rapid.IntRange(0, 3).Draw(t, "header") > 0}
	seen := map[string]bool{}
	for i := 0; i < nc; i++ {
		n := strconv.Itoa(i)
		if d.header {
			n = genWord(t)
			for seen[n] {
				n += "x"
			}
			seen[n] = true
		}
		d.names = append(d.names, n)
		d.kinds = append(d.kinds, rapid.SampledFrom([]hx.Kind{hx.Float, hx.Cat}).Draw(t, "kind"))
	}
	for r := 0; r < nr; r++ {
		row := make([]string, nc)
		for i := range row {
			if d.kinds[i] == hx.Float {
				row[i] = genNumber(t)
			} else {
				row[i] = genWord(t)
				if r == 0 && plainWord.MatchString(row[i]) {
					row[i] += "x"
				}
				if r > 0 && rapid.IntRange(0, 7).Draw(t, "numlike") == 0 {
					row[i] = genNumber(t) // a number-like label is still a label
				}
			}
			if r > 0 && nc > 1 && rapid.IntRange(0, 7).Draw(t, "miss") == 0 {
				row[i] = ""
				d.missing++
			}
		}
		d.cells = append(d.cells, row)
	}
	if hx.Rare(t, "many rows", 300) {
		for n := rapid.IntRange(30, 700).Draw(t, "manyrows"); len(d.cells) < n; {
			r := len(d.cells)
			row := append([]string{}, d.cells[r%nr]...)
			for i := range row {
				if d.kinds[i] == hx.Float {
					row[i] = strconv.Itoa(r*(i+1) - 50)
				} else if r%3 == 0 {
					row[i] = fmt.Sprintf("w%d", r)
				}
				if row[i] == "" {
					d.missing++
				}
			}
			d.cells = append(d.cells, row)
		}
	}
	d.render(t)
	return d
}

func (d *csvDoc) render(t *rapid.T) {
	nl := rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "nl")
	var b strings.Builder
	lines := [][]string{}
	if d.header {
		lines = append(lines, d.names)
	}
	lines = append(lines, d.cells...)
	for i, l := range lines {
		for j, s := range l {
			if j > 0 {
				b.WriteString(",")
			}
			b.WriteString(field(t, s))
		}
		if i < len(lines)-1 || rapid.IntRange(0, 2).Draw(t, "lastnl") > 0 {
			b.WriteString(nl)
			if rapid.IntRange(0, 9).Draw(t, "blank") == 0 {
				b.WriteString(nl)
			}
		}
	}
	d.text = b.String()
}

// checkDocCells compares a parsed grid with the document; attrs are in
// document order.
func checkDocCells(t *rapid.T, what string, g base.FixedDataGrid, d *csvDoc, attrs []base.Attribute) {
	_, rows := g.Size()
	if rows != len(d.cells) {
		t.Fatalf("%s: %d rows, want %d\n%s", what, rows, len(d.cells), d.text)
	}
	for pass, cells := range [][][][]byte{hx.CellsByGet(t, g, attrs), hx.CellsByMap(t, g, attrs)} {
		for r, row := range d.cells {
			for i, s := range row {
				b := cells[r][i]
				how := fmt.Sprintf("%s, row %d column %d, pass %d", what, r, i, pass)
				if s == "" {
					for _, x := range b {
						if x != 0 {
							t.Fatalf("%s: missing field is stored as % x\n%s", how, b, d.text)
						}
					}
					continue
				}
				switch a := attrs[i].(type) {
				case *base.FloatAttribute:
					want, err := strconv.ParseFloat(s, 64)
					if err != nil {
						panic(err)
					}
					if got := base.UnpackBytesToFloat(b); got != want {
						t.Fatalf("%s: %v, want %v\n%s", how, got, want, d.text)
					}
				case *base.CategoricalAttribute:
					code := int(binary.LittleEndian.Uint64(b))
					vals := a.GetValues()
					if code >= len(vals) || vals[code] != s {
						t.Fatalf("%s: code %d of %q, want %q\n%s", how, code, vals, s, d.text)
					}
				case *base.BinaryAttribute:
					want, _ := strconv.ParseFloat(s, 64)
					if len(b) != 1 || (b[0] == 1) != (want > 0) || b[0] > 1 {
						t.Fatalf("%s: % x, want %v\n%s", how, b, want > 0, d.text)
					}
				}
			}
		}
	}
}

var decimals = regexp.MustCompile(`(^|[,\s"+-]|[0-9])\.([0-9]+)`)

// checkPrecision looks whether the precision of number attributes shows every
// digit after a point in the lines it is estimated from, and is no more than
// the text needs.
func checkPrecision(t *rapid.T, what, text string, attrs []base.Attribute) {
	lo, hi, lines := 0, 0, 0
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSuffix(l, "\r")
		for _, m := range regexp.MustCompile(`\.[0-9]+`).FindAllString(l, -1) {
			hi = max(hi, len(m)-1)
		}
		if l == "" || l[0] == '@' || l[0] == '%' || lines > 5 {
			continue
		}
		lines++
		for _, m := range decimals.FindAllStringSubmatch(l, -1) {
			lo = max(lo, len(m[2]))
		}
	}
	for _, a := range attrs {
		if f, ok := a.(*base.FloatAttribute); ok && (f.Precision < lo || f.Precision > hi) {
			t.Fatalf("%s: %v has precision %d, want %d to %d\n%.3000s", what, f, f.Precision, lo, hi, text)
		}
	}
}

func (d *csvDoc) reader() *bytes.Reader { return bytes.NewReader([]byte(d.text)) }

func nontrivialDoc(d *csvDoc) bool { return len(d.cells) > 1 && len(d.names) > 1 }

func init() {
	hx.Register("C07", "parse", 4000, 120000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 8)
		if hx.Rare(t, "long", 60) {
			// a line longer than any buffer
			i := rapid.IntRange(0, len(d.names)-1).Draw(t, "long column")
			long := "q" + strings.Repeat(rapid.SampledFrom([]string{"x", "ab c", "é"}).Draw(t, "long text"), rapid.SampledFrom([]int{1100, 4200, 17000, 70000}).Draw(t, "long by"))
			if r := rapid.IntRange(-1, len(d.cells)-1).Draw(t, "long row"); r < 0 && d.header {
				d.names[i] = long
			} else if d.kinds[i] == hx.Cat {
				d.cells[max(r, 0)][i] = long
			}
			d.render(t)
		}
		c.Describe(nontrivialDoc(d), "header=%v %.2000q", d.header, d.text)
		c.Class(len(d.text) > 65536, "more than 64 KiB")
		c.Class(strings.Contains(d.text, `"`), "quotes")
		c.Class(d.missing > 0, "missing fields")
		c.Class(!d.header, "no header")
		var g *base.DenseInstances
		var err error
		if rapid.IntRange(0, 5).Draw(t, "file") == 0 {
			p := filepath.Join(hx.Scratch, "in.csv")
			if err := os.WriteFile(p, []byte(d.text), 0600); err != nil {
				panic(err)
			}
			if n, err := base.ParseCSVGetRows(p); err != nil || n != len(d.cells)+b2i(d.header) {
				t.Fatalf("row count %d (%v), want %d\n%s", n, err, len(d.cells)+b2i(d.header), d.text)
			}
			g, err = base.ParseCSVToInstances(p, d.header)
		} else {
			g, err = base.ParseCSVToInstancesFromReader(d.reader(), d.header)
		}
		if err != nil {
			t.Fatalf("parse failed: %v\n%s", err, d.text)
		}
		if n := len(g.AllAttributes()); n != len(d.names) {
			t.Fatalf("%d attributes, want %d", n, len(d.names))
		}
		attrs := make([]base.Attribute, len(d.names))
		for i, n := range d.names {
			attrs[i] = hx.FindAttr(t, g, n)
		}
		for i, a := range attrs {
			hx.CheckAttr(t, "parsed", a, hx.Col{Name: d.names[i], Kind: d.kinds[i]})
		}
		for i, a := range base.ParseCSVGetAttributesFromReader(d.reader(), d.header) {
			if i >= len(attrs) || a.GetName() != d.names[i] || a.GetType() != attrs[i].GetType() {
				t.Fatalf("sniffed attribute %d is %v, want %v", i, a, attrs[i])
			}
		}
		checkPrecision(t, "parsed", d.text, attrs)
		cls := g.AllClassAttributes()
		if len(cls) != 1 || cls[0] != attrs[len(attrs)-1] {
			t.Fatalf("class attributes are %v, want the last column", cls)
		}
		checkDocCells(t, "parsed", g, d, attrs)
		// labels come in order of appearance
		for i, a := range attrs {
			if d.kinds[i] != hx.Cat {
				continue
			}
			var want []string
			seen := map[string]bool{}
			for _, r := range d.cells {
				if r[i] != "" && !seen[r[i]] {
					seen[r[i]] = true
					want = append(want, r[i])
				}
			}
			if got := a.(*base.CategoricalAttribute).GetValues(); fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("labels %q, want %q", got, want)
			}
		}
	})

	hx.Register("C07", "template", 2500, 80000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 6)
		// The template: the same columns (and possibly more) in another
		// order, own label orders, and possibly other types.
		m := &hx.Table{Class: -1}
		for i, n := range d.names {
			col := hx.Col{Name: n, Kind: d.kinds[i], Prec: 2}
			if col.Kind == hx.Float {
				switch rapid.IntRange(0, 5).Draw(t, "tk") {
				case 0:
					col.Kind = hx.Cat
				case 1:
					col.Kind = hx.Bin
				}
			}
			m.Cols = append(m.Cols, col)
		}
		extra := rapid.IntRange(0, 2).Draw(t, "extracols")
		if extra == 2 {
			m.Cols = append(m.Cols, hx.Col{Name: "zz-not-in-file", Kind: rapid.SampledFrom([]hx.Kind{hx.Float, hx.Cat, hx.Bin}).Draw(t, "ek"), Prec: 1})
		}
		perm := hx.Perm(t, len(m.Cols), "colperm")
		cols := make([]hx.Col, len(m.Cols))
		for i, p := range perm {
			cols[i] = m.Cols[p]
			if cols[i].Kind == hx.Cat && perm[i] < len(d.names) {
				// labels the template already has, in its own order
				pool := []string{"other"}
				for _, r := range d.cells {
					if s := r[perm[i]]; s != "" && rapid.Bool().Draw(t, "known") && !has(pool, s) {
						pool = append(pool, s)
					}
				}
				q := hx.Perm(t, len(pool), "labperm")
				for _, k := range q {
					cols[i].Labels = append(cols[i].Labels, pool[k])
				}
			} else if cols[i].Kind == hx.Cat {
				cols[i].Labels = []string{"p", "q"}
			}
		}
		m.Cols = cols
		m.Class = rapid.IntRange(-1, len(cols)-1).Draw(t, "class")
		nt := rapid.IntRange(0, 3).Draw(t, "trows")
		for r := 0; r < nt; r++ {
			m.Rows = append(m.Rows, hx.GenRow(t, m, hx.SmallFloat))
		}
		attrs := make([]base.Attribute, len(cols))
		tmpl := base.NewDenseInstances()
		for i := range cols {
			attrs[i] = cols[i].NewAttr()
		}
		grouped := rapid.Bool().Draw(t, "groups")
		if grouped {
			tmpl.CreateAttributeGroup("F", 8)
			tmpl.CreateAttributeGroup("B", 0)
		}
		specs := make([]base.AttributeSpec, len(cols))
		for i, a := range attrs {
			if grouped && cols[i].Kind == hx.Float {
				specs[i], _ = tmpl.AddAttributeToAttributeGroup(a, "F")
			} else if grouped && cols[i].Kind == hx.Bin {
				specs[i], _ = tmpl.AddAttributeToAttributeGroup(a, "B")
			} else {
				specs[i] = tmpl.AddAttribute(a)
			}
		}
		if m.Class >= 0 {
			tmpl.AddClassAttribute(attrs[m.Class])
		}
		tmpl.Extend(nt)
		for r, row := range m.Rows {
			for i, v := range row {
				tmpl.Set(specs[i], r, cols[i].Pack(v))
			}
		}
		before := make([][]string, len(cols))
		for i, col := range cols {
			if col.Kind == hx.Cat {
				before[i] = append([]string(nil), attrs[i].(*base.CategoricalAttribute).GetValues()...)
			}
		}
		c.Describe(nontrivialDoc(d), "template %s: header=%v %q", m, d.header, d.text)
		c.Class(grouped, "grouped template")
		g, err := base.ParseCSVToTemplatedInstancesFromReader(d.reader(), d.header, tmpl)
		if err != nil {
			t.Fatalf("templated parse failed: %v\n%s", err, d.text)
		}
		if len(g.AllAttributes()) != len(cols) {
			t.Fatalf("%d attributes, want %d", len(g.AllAttributes()), len(cols))
		}
		docAttrs := make([]base.Attribute, len(d.names))
		for i, n := range d.names {
			docAttrs[i] = hx.FindAttr(t, g, n)
			if docAttrs[i] != hx.FindAttr(t, tmpl, n) {
				t.Fatalf("attribute %q is not the template's", n)
			}
		}
		checkDocCells(t, "templated", g, d, docAttrs)
		for i, col := range cols {
			if col.Kind == hx.Cat {
				after := attrs[i].(*base.CategoricalAttribute).GetValues()
				if fmt.Sprint(after[:len(before[i])]) != fmt.Sprint(before[i]) {
					t.Fatalf("template codes changed: %q became %q", before[i], after)
				}
			}
		}
		cls := g.AllClassAttributes()
		if m.Class < 0 && len(cls) != 0 || m.Class >= 0 && (len(cls) != 1 || cls[0] != attrs[m.Class]) {
			t.Fatalf("class attributes are %v", cls)
		}
		// the template's own rows are as before
		for r, row := range m.Rows {
			for i, v := range row {
				hx.CheckCell(t, "template after parsing", attrs[i], cols[i], tmpl.Get(specs[i], r), r, v)
			}
		}
		if d.header {
			// a column the template lacks is refused
			d2 := *d
			d2.names = append([]string(nil), d.names...)
			d2.names[rapid.IntRange(0, len(d.names)-1).Draw(t, "rename")] = "zz-unknown-column"
			d2.render(t)
			if _, err := base.ParseCSVToTemplatedInstancesFromReader(d2.reader(), true, tmpl); err == nil {
				t.Fatalf("a column missing in the template was accepted:\n%s", d2.text)
			}
		}
	})

	hx.Register("C07", "groups", 2500, 80000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 6)
		kinds := append([]hx.Kind(nil), d.kinds...)
		over := map[int]base.Attribute{}
		for i := range kinds {
			if rapid.IntRange(0, 3).Draw(t, "override") != 0 {
				continue
			}
			n := d.names[i]
			if d.kinds[i] == hx.Float && rapid.Bool().Draw(t, "bin") {
				kinds[i] = hx.Bin
				over[i] = base.NewBinaryAttribute(n)
			} else if d.kinds[i] == hx.Float && rapid.Bool().Draw(t, "keepfloat") {
				over[i] = base.NewFloatAttribute(n)
			} else {
				kinds[i] = hx.Cat
				a := base.NewCategoricalAttribute()
				a.SetName(n)
				over[i] = a
			}
		}
		groups, classGroups := map[string]string{}, map[string]string{}
		wantGroup := map[string]string{}
		var wantClass []string
		for i, n := range d.names {
			// one kind (and no two unequal categories) per group
			var g string
			switch kinds[i] {
			case hx.Float:
				g = rapid.SampledFrom([]string{"gf1", "gf2"}).Draw(t, "g")
			case hx.Bin:
				g = "gb"
			default:
				g = fmt.Sprintf("gc%d", i)
			}
			switch rapid.IntRange(0, 3).Draw(t, "where") {
			case 0, 1:
				groups[n] = g
				wantGroup[n] = g
			case 2:
				g = "class-" + g
				classGroups[n] = g
				wantGroup[n] = g
				wantClass = append(wantClass, n)
			}
		}
		c.Describe(nontrivialDoc(d), "groups %v classes %v overrides %d: header=%v %q", groups, classGroups, len(over), d.header, d.text)
		c.Class(len(over) > 0, "overrides")
		c.Class(len(wantClass) > 0, "classes")
		g, err := base.ParseCSVToInstancesWithAttributeGroupsFromReader(d.reader(), groups, classGroups, over, d.header)
		if err != nil {
			t.Fatalf("parse failed: %v\n%s", err, d.text)
		}
		if n := len(g.AllAttributes()); n != len(d.names) {
			t.Fatalf("%d attributes, want %d", n, len(d.names))
		}
		attrs := make([]base.Attribute, len(d.names))
		for i, n := range d.names {
			attrs[i] = hx.FindAttr(t, g, n)
		}
		for i, a := range attrs {
			hx.CheckAttr(t, "parsed", a, hx.Col{Name: d.names[i], Kind: kinds[i]})
			if o, ok := over[i]; ok && o != a {
				t.Fatalf("override of column %d is not used", i)
			}
		}
		checkDocCells(t, "grouped", g, d, attrs)
		inGroup := map[string]string{}
		for name, ag := range g.AllAttributeGroups() {
			for _, a := range ag.Attributes() {
				inGroup[a.GetName()] = name
			}
		}
		for n, want := range wantGroup {
			if inGroup[n] != want {
				t.Fatalf("%q is in group %q, want %q", n, inGroup[n], want)
			}
		}
		var gotClass []string
		for _, a := range g.AllClassAttributes() {
			gotClass = append(gotClass, a.GetName())
		}
		sort.Strings(gotClass)
		sort.Strings(wantClass)
		if fmt.Sprint(gotClass) != fmt.Sprint(wantClass) {
			t.Fatalf("class attributes %q, want %q", gotClass, wantClass)
		}
	})

	hx.Register("C07", "malformed", 2500, 80000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 6)
		kind := rapid.SampledFrom([]string{"short", "long", "number", "quote", "empty"}).Draw(t, "mutation")
		r := rapid.IntRange(0, len(d.cells)-1).Draw(t, "row")
		switch kind {
		case "short":
			if len(d.names) < 3 || !d.header && len(d.cells) == 1 {
				kind = "long"
				d.cells[r] = append(append([]string(nil), d.cells[r]...), "more")
				break
			}
			d.cells[r] = d.cells[r][:len(d.cells[r])-1]
		case "long":
			d.cells[r] = append(append([]string(nil), d.cells[r]...), "more")
		case "number":
			col := -1
			for i, k := range d.kinds {
				if k == hx.Float {
					col = i
				}
			}
			if col < 0 || len(d.cells) < 2 {
				t.Skip("no number to damage")
			}
			r = rapid.IntRange(1, len(d.cells)-1).Draw(t, "numrow")
			d.cells[r] = append([]string(nil), d.cells[r]...)
			d.cells[r][col] = rapid.SampledFrom([]string{"abc", "1.2.3", "--4", "12a", "?", "1,5", "e"}).Draw(t, "bad")
		}
		if !d.header && len(d.cells) == 1 && kind != "empty" && kind != "quote" {
			t.Skip("one record cannot be ragged")
		}
		d.render(t)
		switch kind {
		case "quote":
			d.text = strings.TrimRight(d.text, "\r\n") + "\n\"unfinished"
			for i := 1; i < len(d.names); i++ {
				d.text += ",x"
			}
			d.text += "\n"
		case "empty":
			d.text = ""
			if d.header && rapid.Bool().Draw(t, "headeronly") {
				d.text = strings.Join(make([]string, len(d.names)), "h,") + "h\n"
			}
		}
		c.Describe(true, "%s: header=%v %q", kind, d.header, d.text)
		c.Class(true, kind)
		tmplDoc := &hx.Table{Class: -1}
		for i, n := range d.names {
			tmplDoc.Cols = append(tmplDoc.Cols, hx.Col{Name: n, Kind: d.kinds[i]})
		}
		tmpl, _ := tmplDoc.Build()
		for i := 0; i < 3; i++ {
			var g base.FixedDataGrid
			var err error
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.Fatalf("%s: way %d panics instead of reporting an error: %v\n%s", kind, i, e, d.text)
					}
				}()
				switch i {
				case 0:
					g, err = base.ParseCSVToInstancesFromReader(d.reader(), d.header)
				case 1:
					g, err = base.ParseCSVToTemplatedInstancesFromReader(d.reader(), d.header, tmpl)
				case 2:
					g, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(d.reader(), nil, nil, nil, d.header)
				}
			}()
			if err == nil {
				t.Fatalf("%s: way %d accepts the text as\n%v\n%s", kind, i, g, d.text)
			}
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
