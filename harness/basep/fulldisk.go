package main

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

// fullDisk writes a file with room for some of its bytes only, which must be
// reported; and one in a directory which does not exist.
func fullDisk(t *rapid.T, c *hx.Case, what string, write func(path string) error, check func(b []byte)) {
	d, err := os.MkdirTemp(hx.Scratch, "full")
	if err != nil {
		t.Fatalf("%v", err)
	}
	defer os.RemoveAll(d)
	path := filepath.Join(d, "out")
	if err := write(path); err != nil {
		t.Fatalf("writing failed: %v", err)
	}
	whole, err := os.ReadFile(path)
	if err != nil {
		t.Fatalf("%v", err)
	}
	n := rapid.IntRange(0, len(whole)-1).Draw(t, "room")
	if rapid.Bool().Draw(t, "nearly enough") {
		n = len(whole) - rapid.IntRange(1, min(24, len(whole))).Draw(t, "missing")
	}
	c.Describe(true, "room for %d of %d bytes; %s", n, len(whole), what)
	os.Remove(path)
	err = hx.FullDisk(n, func() error { return write(path) })
	if got, _ := os.ReadFile(path); err == nil && check != nil {
		check(got)
	} else if err == nil && !bytes.Equal(got, whole) {
		t.Fatalf("with room for %d of %d bytes, %d were written, which is reported as a success", n, len(whole), len(got))
	}
	if err := write(filepath.Join(d, "no such directory", "out")); err == nil {
		t.Fatalf("writing to a directory which does not exist is reported as a success")
	}
	if err := write(path); err != nil {
		t.Fatalf("writing failed: %v", err)
	}
}

func init() {
	hx.Register("C08", "full disk", 400, 8000, func(t *rapid.T, c *hx.Case) {
		m, attrs := genTextTable(t, 7, genWord, genWord)
		g, how := hx.Wrap(t, m, attrs)
		fullDisk(t, c, how+": "+m.String(), func(path string) error { return base.SerializeInstancesToCSV(g, path) }, nil)
	})
	hx.Register("C09", "full disk", 400, 8000, func(t *rapid.T, c *hx.Case) {
		m, attrs := genTextTable(t, 7, genWord, genWord)
		g, how := hx.Wrap(t, m, attrs)
		some := rapid.Bool().Draw(t, "attributes")
		fullDisk(t, c, how+": "+m.String(), func(path string) error {
			if some {
				return base.SerializeInstancesToDenseARFFWithAttributes(g, attrs, path, "rel")
			}
			return base.SerializeInstancesToDenseARFF(g, path, "rel")
		}, nil)
	})
	hx.Register("C10", "full disk", 200, 4000, func(t *rapid.T, c *hx.Case) {
		m, _, g, classes, how := genArchiveTable(t, 9)
		shown := m
		if len(m.Rows) > 20 {
			shown = m.Sub([]int{0, 1, 2})
		}
		fullDisk(t, c, how+": "+shown.String(), func(path string) error { return base.SerializeInstancesToFile(g, path) }, func(b []byte) {
			// the length varies a little with attribute order
			back, err := readGrid(t, b)
			if err != nil {
				t.Fatalf("written without room and without an error, it cannot be read: %v", err)
			}
			checkSameGrid(t, "written without room and without an error, it", back, m, classes)
		})
	})
}
