package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/sjwhitworth/golearn/base"
	"github.com/sjwhitworth/golearn/ensemble"
	"github.com/sjwhitworth/golearn/knn"
	"github.com/sjwhitworth/golearn/linear_models"
	"github.com/sjwhitworth/golearn/meta"
	"github.com/sjwhitworth/golearn/naive"
	"github.com/sjwhitworth/golearn/trees"
	"pgregory.net/rapid"
	"verif/hx"
)

// dir is an empty directory for one case, also used for temporary files.
func dir(t *rapid.T) (string, func()) {
	d, err := os.MkdirTemp(hx.Scratch, "case")
	if err != nil {
		t.Fatalf("%v", err)
	}
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", d)
	return d, func() {
		os.Setenv("TMPDIR", old)
		os.RemoveAll(d)
	}
}

func files(t *rapid.T, d string) (out []string) {
	e, err := os.ReadDir(d)
	if err != nil {
		t.Fatalf("%v", err)
	}
	for _, f := range e {
		out = append(out, f.Name())
	}
	return
}

func must(t *rapid.T, what string, fn func() error) {
	if failed, why := refused(fn); failed {
		t.Fatalf("%s: %s", what, why)
	}
}

func fitAny(s interface{}, g base.FixedDataGrid) error {
	switch x := s.(type) {
	case interface {
		Fit(base.FixedDataGrid) error
	}:
		return x.Fit(g)
	case interface{ Fit(base.FixedDataGrid) }:
		x.Fit(g)
		return nil
	}
	return fmt.Errorf("cannot be fitted")
}

// kindOf tells whose files are alike: trees are trees, forests are bags.
var kindOf = map[string]string{"knn": "knn", "id3": "tree", "random tree": "tree", "forest": "bag", "bag": "bag",
	"naive bayes": "naive bayes", "svc": "svc", "multi svc": "multi svc", "one-vs-all": "one-vs-all"}

// strangers cannot make sense of each other's files.
var strangers = map[string]func() saver{
	"knn":         func() saver { return knn.NewKnnClassifier("euclidean", "linear", 1) },
	"tree":        func() saver { return trees.NewID3DecisionTree(0) },
	"bag":         func() saver { return ensemble.NewRandomForest(2, 1) },
	"naive bayes": func() saver { return naive.NewBernoulliNBClassifier() },
	"svc": func() saver {
		s, err := linear_models.NewLinearSVC("l1", "l2", true, 1, 1e-3)
		if err != nil {
			panic(err)
		}
		return s
	},
	"multi svc": func() saver { return ensemble.NewMultiLinearSVC("l1", "l2", true, 1, 1e-3, nil) },
	"one-vs-all": func() saver {
		return meta.NewOneVsAllModel(func(string) base.Classifier { return knn.NewKnnClassifier("euclidean", "linear", 1) })
	},
}

func init() {
	// Saving either works or says that it did not.
	hx.Register("C12", "full disk", 400, 12000, func(t *rapid.T, c *hx.Case) {
		d, done := dir(t)
		defer done()
		m := draw(t, rapid.SampledFrom(families[:savable]).Draw(t, "family"))
		_, attrs, how := m.train(t)
		q := m.queries(t, 8)
		g := q.BuildWith(attrs)
		want := m.answers(t, g)
		path := filepath.Join(d, "model.cls")
		must(t, m.how+": saving", func() error { return m.save.Save(path) })
		if failed, _ := refused(func() error { return m.save.Save(filepath.Join(d, "no such directory", "model.cls")) }); !failed {
			t.Fatalf("%s: saved in a directory which does not exist", m.how)
		}
		whole, err := os.ReadFile(path)
		if err != nil {
			t.Fatalf("%v", err)
		}
		n := rapid.IntRange(0, len(whole)-1).Draw(t, "room")
		if rapid.Bool().Draw(t, "nearly enough") {
			n = len(whole) - rapid.IntRange(1, min(64, len(whole))).Draw(t, "missing")
		}
		c.Describe(len(m.m.Rows) > 1, "room for %d of %d bytes; %s trained on %s %s", n, len(whole), m.how, how, m.m)
		c.Class(len(whole)-n < 64, "room for all but the last bytes")
		os.Remove(path)
		failed, why := refused(func() error { return hx.FullDisk(n, func() error { return m.save.Save(path) }) })
		c.Class(failed, "reported")
		if strings.HasPrefix(why, "panic: runtime error") {
			t.Fatalf("%s: saving with room for %d of %d bytes: %s", m.how, n, len(whole), why)
		}
		if !failed {
			last, predict := m.fresh()
			size := 0
			if b, err := os.ReadFile(path); err == nil {
				size = len(b)
			}
			if failed, why := refused(func() error { return last.Load(path) }); failed {
				t.Fatalf("%s: saved with room for %d of %d bytes (%d written); loading it: %s", m.how, n, len(whole), size, why)
			}
			var got []string
			if failed, why := refused(func() error { got = m.answersOf(t, predict, g); return nil }); failed || strings.Join(got, " ") != strings.Join(want, " ") {
				t.Fatalf("%s: saved with room for %d of %d bytes (%d written); predicts %q (%s), not %q", m.how, n, len(whole), size, got, why, want)
			}
		}
		// with room again
		must(t, m.how+": saving", func() error { return m.save.Save(path) })
		last, _ := m.fresh()
		must(t, m.how+": loading", func() error { return last.Load(path) })
	})

	for _, f := range families[:savable] {
		f := f
		hx.Register("C12", f, 100, 5000, func(t *rapid.T, c *hx.Case) {
			d, done := dir(t)
			defer done()
			m := draw(t, f)
			train, attrs, how := m.train(t)
			q := m.queries(t, 8)
			c.Describe(len(q.Rows) > 1 && len(m.m.Rows) > 2, "%s trained on %s %s, asked %s", m.how, how, m.m, q)
			g := q.BuildWith(attrs)
			want := m.answers(t, g)
			shown := ""
			if m.config != nil {
				shown = m.config(m.save)
			}
			all := make([]int, len(q.Rows))
			distinct := map[string]bool{}
			for i := range all {
				all[i] = i
				distinct[want[i]] = true
			}
			c.Class(len(distinct) > 1, "different predictions")
			before := hx.Digest(t, train)
			path := filepath.Join(d, "model.cls")
			old := rapid.SampledFrom([]string{"new", "new", "short", "long"}).Draw(t, "file")
			c.Class(old != "new", "over an existing file")
			switch old {
			case "short":
				os.WriteFile(path, []byte("x"), 0600)
			case "long":
				os.WriteFile(path, make([]byte, 100000), 0600)
			}
			var step string
			ask := func(what string, predict func(base.FixedDataGrid) (base.FixedDataGrid, error), g base.FixedDataGrid, rows []int) {
				var got []string
				if failed, why := refused(func() error { got = m.answersOf(t, predict, g); return nil }); failed {
					t.Fatalf("%s: %s%s: predicting %s failed: %s", m.how, step, what, q, why)
				}
				for i, r := range rows {
					if got[i] != want[r] {
						t.Fatalf("%s: %s%s: row %v is predicted %q, by the original %q", m.how, step, what, q.Rows[r], got[i], want[r])
					}
				}
			}
			must(t, m.how+": saving", func() error { return m.save.Save(path) })
			ask("the original after saving", m.predict, g, all)
			if hx.Digest(t, train) != before {
				t.Fatalf("%s: saving changed the training grid", m.how)
			}
			if rapid.IntRange(0, 3).Draw(t, "refit the original") == 0 {
				// what was saved must not depend on the original any more
				m2 := m.m.Sub(hx.Perm(t, len(m.m.Rows), "rows")[:1])
				refused(func() error { return fitAny(m.save, m2.BuildWith(attrs)) })
				c.Class(true, "original refitted")
			}
			var last saver
			var predict func(base.FixedDataGrid) (base.FixedDataGrid, error)
			for i := 0; i < 2; i++ {
				last, predict = m.fresh()
				used := rapid.IntRange(0, 3).Draw(t, "used loader") == 0
				if used {
					// a loader which has been something else
					hx.SeedC(1)
					refused(func() error {
						return fitAny(last, m.m.Sub(hx.Perm(t, len(m.m.Rows), "others")[:1]).BuildWith(attrs))
					})
				}
				c.Class(used, "used loader")
				must(t, m.how+": "+step+"loading", func() error { return last.Load(path) })
				if m.config != nil {
					if got := m.config(last); got != shown {
						t.Fatalf("%s: %sloaded with the configuration\n%s\nwant\n%s", m.how, step, got, shown)
					}
				}
				ask("loaded", predict, g, all)
				var s []int
				for n := rapid.IntRange(1, len(q.Rows)+2).Draw(t, "n"); n > 0; n-- {
					s = append(s, rapid.IntRange(0, len(q.Rows)-1).Draw(t, "r"))
				}
				a := attrs
				if rapid.Bool().Draw(t, "apart") {
					a = q.Attrs()
				}
				vg, vhow := hx.Wrap(t, q.Sub(s), a)
				ask(fmt.Sprintf("loaded, rows %v (%s)", s, vhow), predict, vg, s)
				if i == 0 {
					// save what was loaded, perhaps over the same file
					if rapid.Bool().Draw(t, "elsewhere") {
						path = filepath.Join(d, "again.cls")
					}
					must(t, m.how+": saving what was loaded", func() error { return last.Save(path) })
					ask("loaded, after saving", predict, g, all)
					step = "saved again, "
				}
			}
			for _, n := range files(t, d) {
				if n != "model.cls" && n != "again.cls" {
					t.Fatalf("%s: saving and loading left the file %s behind", m.how, n)
				}
			}
			// no such place
			l, _ := m.fresh()
			if failed, _ := refused(func() error { return l.Load(filepath.Join(d, "none.cls")) }); !failed {
				t.Fatalf("%s: loading a missing file succeeded", m.how)
			}
			// the file of another kind of model
			kinds := []string{}
			for k := range strangers {
				if k != kindOf[f] {
					kinds = append(kinds, k)
				}
			}
			sort.Strings(kinds)
			other := rapid.SampledFrom(kinds).Draw(t, "other kind")
			switch failed, why := refused(func() error { return strangers[other]().Load(path) }); {
			case !failed:
				t.Fatalf("%s: its file was loaded as a %s", m.how, other)
			case strings.HasPrefix(why, "panic: runtime error") || strings.HasPrefix(why, "panic: interface conversion"):
				t.Fatalf("%s: loading its file as a %s: %s", m.how, other, why)
			}
			if k, ok := last.(*knn.KNNClassifier); ok {
				r, err := knn.ReloadKNNClassifier(path)
				if err != nil {
					t.Fatalf("%s: reloading: %v", m.how, err)
				}
				if got := m.config(r); got != m.config(k) {
					t.Fatalf("%s: reloaded with the configuration\n%s\nwant\n%s", m.how, got, m.config(k))
				}
				step = "reloaded, "
				ask("predicting", r.Predict, g, all)
				if _, err := knn.ReloadKNNClassifier(filepath.Join(d, "none.cls")); err == nil {
					t.Fatalf("%s: reloading a missing file succeeded", m.how)
				}
			}
			if b, ok := last.(*meta.BaggedModel); ok {
				// a bag of another size cannot take the saved members
				l, _ := m.fresh()
				o := l.(*meta.BaggedModel)
				if more := rapid.Bool().Draw(t, "more"); more || len(b.Models) == 1 {
					o.AddModel(o.Models[0])
				} else {
					o.Models = o.Models[:len(o.Models)-1]
				}
				if failed, _ := refused(func() error { return o.Load(path) }); !failed {
					t.Fatalf("%s: %d members were loaded into a bag of %d", m.how, len(b.Models), len(o.Models))
				}
			}
			if err := last.Save(filepath.Join(d, "none", "x.cls")); err == nil {
				t.Fatalf("%s: saving into a missing directory succeeded", m.how)
			}
			// a loaded model can be trained again, as the original can
			if m.refit != nil {
				rows := rapid.IntRange(0, 2).Draw(t, "again") // with some rows twice
				m2 := &hx.Table{Cols: m.m.Cols, Class: m.m.Class, Rows: append(append([][]float64{}, m.m.Rows...), m.m.Rows[:min(rows, len(m.m.Rows))]...)}
				g2 := m2.BuildWith(attrs)
				hx.SeedC(7)
				orig, opredict := m.save, m.predict
				must(t, m.how+": training the original again", func() error { return m.refit(orig, g2) })
				retrained := m.answersOf(t, opredict, g)
				hx.SeedC(7)
				must(t, m.how+": training the loaded model", func() error { return m.refit(last, g2) })
				if m.chance {
					m.answersOf(t, predict, g)
					if f, ok := last.(*ensemble.RandomForest); ok && (f.ForestSize != len(f.Model.Models) || fmt.Sprint(f.ForestSize, f.Features) != fmt.Sprint(orig.(*ensemble.RandomForest).ForestSize, orig.(*ensemble.RandomForest).Features)) {
						t.Fatalf("%s: loaded and trained again gives %d trees of %d features", m.how, len(f.Model.Models), f.Features)
					}
				} else {
					step, want = "", retrained
					ask("loaded and trained again", predict, g, all)
				}
			}
		})

		hx.Register("C11", f, 4, 150, func(t *rapid.T, c *hx.Case) {
			d, done := dir(t)
			defer done()
			m := draw(t, f)
			_, attrs, how := m.train(t)
			q := m.queries(t, 5)
			g := q.BuildWith(attrs)
			want := m.answers(t, g)
			shown := ""
			if m.config != nil {
				shown = m.config(m.save)
			}
			path := filepath.Join(d, "model.cls")
			must(t, m.how+": saving", func() error { return m.save.Save(path) })
			whole, err := os.ReadFile(path)
			if err != nil {
				t.Fatalf("%v", err)
			}
			bad := filepath.Join(d, "bad.cls")
			rejected, n := 0, 0
			check := func(what string, b []byte) {
				n++
				if err := os.WriteFile(bad, b, 0600); err != nil {
					t.Fatalf("%v", err)
				}
				l, predict := m.fresh()
				type outcome struct {
					err   error
					panic interface{}
				}
				ch := make(chan outcome, 1)
				go func() {
					var o outcome
					defer func() {
						o.panic = recover()
						ch <- o
					}()
					o.err = l.Load(bad)
				}()
				select {
				case o := <-ch:
					if o.panic != nil {
						t.Fatalf("%s: loading an archive %s panicked: %v", m.how, what, o.panic)
					}
					if o.err != nil {
						rejected++
						return
					}
				case <-time.After(60 * time.Second):
					t.Fatalf("%s: loading an archive %s never ended", m.how, what)
				}
				if m.config != nil && m.config(l) != shown {
					t.Fatalf("%s: an archive %s gave the configuration\n%s\nwant\n%s", m.how, what, m.config(l), shown)
				}
				got := m.answersOf(t, predict, g)
				for i := range got {
					if got[i] != want[i] {
						t.Fatalf("%s: an archive %s was accepted, but predicts %q for %v instead of %q", m.how, what, got[i], q.Rows[i], want[i])
					}
				}
			}
			step := 1 + len(whole)/30
			for k := rapid.IntRange(0, step-1).Draw(t, "off"); k < len(whole); k += step {
				check(fmt.Sprintf("cut to %d of %d bytes", k, len(whole)), whole[:k])
			}
			for k := 1; k < 12 && k < len(whole); k++ {
				check(fmt.Sprintf("without its last %d bytes", k), whole[:len(whole)-k])
			}
			for i := 0; i < 25; i++ {
				b, what := hx.Damage(t, whole)
				check("with "+what, b)
			}
			// archives with valid checksums, but without an entry or of
			// another version
			entries := hx.Unpack(whole)
			drop := hx.Perm(t, len(entries), "entries")
			for _, i := range drop[:min(len(drop), 12)] {
				check("without the entry "+entries[i].Name, hx.Pack(append(append([]hx.Entry{}, entries[:i]...), entries[i+1:]...)))
			}
			for i, e := range entries {
				var versions []string
				switch e.Name {
				case "CLS_MANIFEST":
					versions = []string{"golearn 1.1", "golearn 1.", ""}
				case "METADATA":
					md := map[string]interface{}{}
					if json.Unmarshal(e.Data, &md) != nil || md["format_version"] == nil {
						continue
					}
					for _, v := range []interface{}{2, 0, -1, 11, nil} {
						if md["format_version"] = v; v == nil {
							delete(md, "format_version")
						}
						if b, err := json.Marshal(md); err == nil {
							versions = append(versions, string(b))
						}
					}
				}
				for _, v := range versions {
					l := append([]hx.Entry{}, entries...)
					l[i].Data = []byte(v)
					was := rejected
					check(fmt.Sprintf("with the %s %q", e.Name, v), hx.Pack(l))
					if was == rejected {
						t.Fatalf("%s: an archive with the %s %q was accepted", m.how, e.Name, v)
					}
				}
			}
			c.Class(rejected == n, "all rejected")
			c.Describe(true, "%s trained on %s %s: %d damaged copies of %d bytes, %d rejected", m.how, how, m.m, n, len(whole), rejected)
		})
	}
}
