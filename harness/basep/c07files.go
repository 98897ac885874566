package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

var errBroken = errors.New("broken cable")

// brokenReader fails at an offset, from the given pass over the text on.
type brokenReader struct {
	*bytes.Reader
	at, from, pass int
	hit            bool
}

func (b *brokenReader) Seek(to int64, whence int) (int64, error) {
	if to == 0 && whence == 0 {
		b.pass++
	}
	return b.Reader.Seek(to, whence)
}

func (b *brokenReader) Read(p []byte) (int, error) {
	if b.from > 0 && b.pass >= b.from {
		left := b.at - int(b.Size()) + b.Len()
		if left <= 0 {
			b.hit = true
			return 0, errBroken
		}
		p = p[:min(len(p), left)]
	}
	return b.Reader.Read(p)
}

// A text that cannot be read to its end gives no table.
func init() {
	hx.Register("C07", "broken", 2000, 40000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 6)
		if rapid.IntRange(0, 3).Draw(t, "big") == 0 {
			for rows := d.cells; len(d.cells) < 1500/len(d.names); {
				d.cells = append(d.cells, rows...)
			}
			d.render(t)
		}
		way := rapid.IntRange(0, 3).Draw(t, "way")
		m := &hx.Table{Class: -1}
		for i, n := range d.names {
			m.Cols = append(m.Cols, hx.Col{Name: n, Kind: d.kinds[i]})
		}
		tmpl, _ := m.Build()
		read := func(r *brokenReader) (err error) {
			defer func() {
				if p := recover(); p != nil {
					err = fmt.Errorf("panic: %v", p)
				}
			}()
			switch way {
			case 0:
				_, err = base.ParseCSVToInstancesFromReader(r, d.header)
			case 1:
				_, err = base.ParseCSVToTemplatedInstancesFromReader(r, d.header, tmpl)
			case 2:
				_, err = base.ParseCSVToInstancesWithAttributeGroupsFromReader(r, nil, nil, nil, d.header)
			default:
				_, err = base.ParseCSVGetRowsFromReader(r)
			}
			return err
		}
		whole := &brokenReader{Reader: bytes.NewReader([]byte(d.text))}
		if err := read(whole); err != nil && way != 1 {
			t.Fatalf("reading %q: %v", d.text, err)
		} else if err != nil {
			return
		}
		r := &brokenReader{Reader: bytes.NewReader([]byte(d.text)), at: rapid.IntRange(0, len(d.text)-1).Draw(t, "at"), from: rapid.IntRange(1, whole.pass).Draw(t, "pass")}
		if rapid.Bool().Draw(t, "last pass") {
			r.from = whole.pass
		}
		c.Describe(len(d.cells) > 1, "way %d, broken at %d from pass %d on, header=%v %.300q", way, r.at, r.from, d.header, d.text)
		c.Class(r.from > 1, "breaks in a later pass")
		if err := read(r); err == nil {
			t.Fatalf("way %d: a reader which fails at byte %d of %d from pass %d of %d on gives a table (failed %v)\n%.500q", way, r.at, len(d.text), r.from, whole.pass, r.hit, d.text)
		}
	})
}

// Every function on text has a twin which reads a file.
func init() {
	hx.Register("C07", "files", 1200, 30000, func(t *rapid.T, c *hx.Case) {
		d := genDoc(t, 6)
		missing := rapid.IntRange(0, 9).Draw(t, "missing") == 0
		kind := rapid.SampledFrom([]string{"", "", "", "cut", "more"}).Draw(t, "damage")
		switch {
		case kind == "cut" && len(d.text) > 1:
			d.text = d.text[:rapid.IntRange(1, len(d.text)-1).Draw(t, "at")]
		case kind == "more":
			d.text += "\nq,\"q"
		}
		c.Describe(nontrivialDoc(d), "missing=%v %s header=%v %q", missing, kind, d.header, d.text)
		c.Class(missing, "missing file")
		c.Class(kind != "", "damaged text")
		p := filepath.Join(hx.Scratch, "files.csv")
		if missing {
			p = filepath.Join(hx.Scratch, "no-such-file.csv")
		} else if err := os.WriteFile(p, []byte(d.text), 0600); err != nil {
			panic(err)
		}
		tmpl := func() *base.DenseInstances {
			m := &hx.Table{Class: -1}
			for i, n := range d.names {
				m.Cols = append(m.Cols, hx.Col{Name: n, Kind: d.kinds[i]})
			}
			g, _ := m.Build()
			return g
		}
		grid := func(g *base.DenseInstances, err error) string {
			if err != nil {
				return "error"
			}
			s := fmt.Sprintln(g.Size())
			attrs := g.AllAttributes() // in no particular order
			sort.Slice(attrs, func(i, j int) bool { return attrs[i].GetName() < attrs[j].GetName() })
			for _, a := range attrs {
				s += fmt.Sprintln(a)
			}
			var cl []string
			for _, a := range g.AllClassAttributes() {
				cl = append(cl, a.GetName())
			}
			sort.Strings(cl)
			return s + fmt.Sprintln(cl, hx.CellsByGet(t, g, attrs))
		}
		number := func(n int, err error) string {
			if err != nil {
				return "error"
			}
			return fmt.Sprint(n)
		}
		attrs := func(l []base.Attribute) string {
			s := ""
			for _, a := range l {
				s += fmt.Sprintln(a)
			}
			return s
		}
		groups := map[string]string{d.names[0]: "g0"}
		classes := map[string]string{d.names[len(d.names)-1]: "g1"}
		for _, w := range []struct {
			name       string
			file, text func() string
		}{
			{"row count", func() string { return number(base.ParseCSVGetRows(p)) },
				func() string { return number(base.ParseCSVGetRowsFromReader(d.reader())) }},
			{"precision", func() string { return number(base.ParseCSVEstimateFilePrecision(p)) },
				func() string { return number(base.ParseCSVEstimateFilePrecisionFromReader(d.reader())) }},
			{"attributes", func() string { return attrs(base.ParseCSVGetAttributes(p, d.header)) },
				func() string { return attrs(base.ParseCSVGetAttributesFromReader(d.reader(), d.header)) }},
			{"names", func() string { return fmt.Sprintf("%q", base.ParseCSVSniffAttributeNames(p, d.header)) },
				func() string {
					return fmt.Sprintf("%q", base.ParseCSVSniffAttributeNamesFromReader(d.reader(), d.header))
				}},
			{"types", func() string { return attrs(base.ParseCSVSniffAttributeTypes(p, d.header)) },
				func() string { return attrs(base.ParseCSVSniffAttributeTypesFromReader(d.reader(), d.header)) }},
			{"grid", func() string { return grid(base.ParseCSVToInstances(p, d.header)) },
				func() string { return grid(base.ParseCSVToInstancesFromReader(d.reader(), d.header)) }},
			{"templated grid", func() string { return grid(base.ParseCSVToTemplatedInstances(p, d.header, tmpl())) },
				func() string {
					return grid(base.ParseCSVToTemplatedInstancesFromReader(d.reader(), d.header, tmpl()))
				}},
			{"grouped grid", func() string {
				return grid(base.ParseCSVToInstancesWithAttributeGroups(p, groups, classes, nil, d.header))
			}, func() string {
				return grid(base.ParseCSVToInstancesWithAttributeGroupsFromReader(d.reader(), groups, classes, nil, d.header))
			}},
		} {
			run := func(f func() string) (s string) {
				defer func() {
					if e := recover(); e != nil {
						s = "error"
					}
				}()
				return f()
			}
			file, text := run(w.file), "error"
			if !missing {
				text = run(w.text)
			}
			if file != text {
				t.Fatalf("%s: read from the file (missing: %v)\n%s\nfrom the text\n%s\nof\n%s", w.name, missing, file, text, d.text)
			}
		}
		if !missing {
			if err := os.Remove(p); err != nil {
				t.Fatalf("%v", err)
			}
		}
	})
}
