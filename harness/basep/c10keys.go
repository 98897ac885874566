package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"sort"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func init() {
	hx.Register("C11", "entries", 400, 10000, func(t *rapid.T, c *hx.Case) {
		m, _, g, classes, how := genArchiveTable(t, 6)
		var buf bytes.Buffer
		if err := base.SerializeInstances(g, &buf); err != nil {
			t.Fatalf("writing failed: %v", err)
		}
		whole := hx.Unpack(buf.Bytes())
		find := func(n string) int {
			for i, e := range whole {
				if e.Name == n {
					return i
				}
			}
			t.Fatalf("an archive without %s", n)
			return 0
		}
		n := 0
		refuse := func(what string, l []hx.Entry) {
			n++
			if back, err := readGrid(t, hx.Pack(l)); err == nil {
				cols, rows := back.Size()
				t.Fatalf("an archive %s was read as %d columns, %d rows", what, cols, rows)
			}
		}
		change := func(name, what string, f func([]byte) []byte) {
			l := append([]hx.Entry(nil), whole...)
			i := find(name)
			l[i] = hx.Entry{Name: name, Data: f(append([]byte(nil), l[i].Data...))}
			refuse(fmt.Sprintf("with %s %s", name, what), l)
		}
		if back, err := readGrid(t, hx.Pack(whole)); err != nil {
			t.Fatalf("an archive packed again: %v", err)
		} else {
			checkSameGrid(t, "packed again", back, m, classes)
		}
		for i, e := range whole {
			l := append(append([]hx.Entry(nil), whole[:i]...), whole[i+1:]...)
			refuse("without "+e.Name, l)
		}
		change("MANIFEST", "of another version", func(b []byte) []byte { return append(b, '1') })
		change("MANIFEST", "of no version", func(b []byte) []byte { return b[:0] })
		change("DIMS", "cut", func(b []byte) []byte { return b[:rapid.IntRange(0, 15).Draw(t, "dims")] })
		for _, col := range []int{-1, 1, 1000} {
			change("DIMS", fmt.Sprintf("of %+d columns", col), func(b []byte) []byte {
				v := base.UnpackBytesToU64(b[:8])
				return append(base.PackU64ToBytes(v+uint64(int64(col))), b[8:]...)
			})
		}
		for _, row := range []int{-1, 1, 5, 1 << 60} {
			if len(m.Rows)+row < 0 {
				row = 1
			}
			change("DIMS", fmt.Sprintf("of %+d rows", row), func(b []byte) []byte {
				v := base.UnpackBytesToU64(b[8:16])
				return append(b[:8:8], base.PackU64ToBytes(v+uint64(int64(row)))...)
			})
		}
		for _, a := range []string{"ATTRS", "CATTRS"} {
			change(a, "cut", func(b []byte) []byte { return b[:rapid.IntRange(0, len(b)-1).Draw(t, "attrs")] })
			change(a, "with one column more", func(b []byte) []byte {
				var l []json.RawMessage
				if err := json.Unmarshal(b, &l); err != nil {
					panic(err)
				}
				x, err := base.SerializeAttribute(base.NewFloatAttribute("one more"))
				if err != nil {
					panic(err)
				}
				b, _ = json.Marshal(append(l, x))
				return b
			})
		}
		if len(m.Rows) > 0 {
			change("DATA", "cut", func(b []byte) []byte { return b[:rapid.IntRange(0, len(b)-1).Draw(t, "data")] })
		}
		change("DATA", "with bytes more", func(b []byte) []byte { return append(b, make([]byte, rapid.IntRange(1, 40).Draw(t, "more"))...) })
		c.Describe(true, "%s archive %08x of %d rows, %d columns: %d changed archives", how, crc32.ChecksumIEEE(buf.Bytes()), len(m.Rows), len(m.Cols), n)
	})

	hx.Register("C10", "keys", 120, 4000, func(t *rapid.T, c *hx.Case) {
		// one archive of many values under keys
		p, th := target(t, "keys.cls")
		md := base.ClassifierMetadataV1{FormatVersion: 1, ClassifierName: rapid.StringMatching(`[a-zA-Z" é]{0,6}`).Draw(t, "name"),
			ClassifierVersion: rapid.StringMatching(`[0-9.]{0,4}`).Draw(t, "version"), ClassifierMetadata: map[string]interface{}{}}
		for i := rapid.IntRange(0, 3).Draw(t, "meta"); i > 0; i-- {
			md.ClassifierMetadata[fmt.Sprint("k", i)] = rapid.SampledFrom([]interface{}{1.5, "text", true, nil, -3.0}).Draw(t, "value")
		}
		w, err := base.CreateSerializedClassifierStub(p, md)
		if err != nil {
			t.Fatalf("creating over a %s file: %v", th, err)
		}
		type want struct {
			key   string
			what  string
			check func(*base.ClassifierDeserializer, string)
		}
		var wants []want
		shown := ""
		n := rapid.IntRange(0, 6).Draw(t, "values")
		if hx.Rare(t, "many", 40) {
			n = rapid.IntRange(20, 60).Draw(t, "many values")
		}
		attr := func(k string) (base.Attribute, hx.Col) {
			col := hx.Col{Name: rapid.StringMatching(`[a-z"é ]{0,4}`).Draw(t, "aname") + k, Kind: rapid.SampledFrom([]hx.Kind{hx.Float, hx.Cat, hx.Bin}).Draw(t, "akind"), Prec: rapid.IntRange(0, 9).Draw(t, "prec")}
			if col.Kind == hx.Cat {
				for i := rapid.IntRange(0, 4).Draw(t, "labels"); i >= 0; i-- {
					col.Labels = append(col.Labels, fmt.Sprint(rapid.StringMatching(`[a-z"é]{0,3}`).Draw(t, "label"), i))
				}
			}
			return col.NewAttr(), col
		}
		sameAttr := func(what string, a base.Attribute, o base.Attribute, col hx.Col) {
			hx.CheckAttr(t, what, a, col)
			if !a.Equals(o) || !o.Equals(a) {
				t.Fatalf("%s: %v was read as %v", what, o, a)
			}
			switch x := a.(type) {
			case *base.CategoricalAttribute:
				if fmt.Sprintf("%q", x.GetValues()) != fmt.Sprintf("%q", col.Labels) {
					t.Fatalf("%s: labels %q, want %q", what, x.GetValues(), col.Labels)
				}
			case *base.FloatAttribute:
				if x.Precision != col.Prec {
					t.Fatalf("%s: precision %d, want %d", what, x.Precision, col.Prec)
				}
			}
		}
		for i := 0; i < n; i++ {
			// keys that begin or end like others
			prefix := rapid.SampledFrom([]string{"", "a", "a/b", "1", "x y", "METADATA", "a/"}).Draw(t, "prefix")
			key := w.Prefix(prefix, fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"", "k", "v", "0", "é"}).Draw(t, "key"), i))
			x := want{key: key, what: rapid.SampledFrom([]string{"bytes", "u64", "json", "attribute", "attributes", "grid"}).Draw(t, "what")}
			var err error
			switch x.what {
			case "bytes":
				b := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
				if hx.Rare(t, "long", 30) {
					b = bytes.Repeat(append(b, 7), rapid.IntRange(100, 3000).Draw(t, "times"))
				}
				err = w.WriteBytesForKey(key, b)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					got, err := r.GetBytesForKey(key)
					if err != nil || !bytes.Equal(got, b) {
						t.Fatalf("%q: read % x (%v), want % x", key, got, err, b)
					}
					if s, err := r.GetStringForKey(key); err != nil || s != string(b) {
						t.Fatalf("%q: read %q (%v), want %q", key, s, err, string(b))
					}
				}
			case "u64":
				v := rapid.Uint64().Draw(t, "u64")
				err = w.WriteU64ForKey(key, v)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					if got, err := r.GetU64ForKey(key); err != nil || got != v {
						t.Fatalf("%q: read %d (%v), want %d", key, got, err, v)
					}
				}
			case "json":
				v := map[string][]float64{}
				for j := rapid.IntRange(0, 3).Draw(t, "entries"); j > 0; j-- {
					v[rapid.StringMatching(`[a-z"é]{0,3}`).Draw(t, "jk")] = rapid.SliceOfN(rapid.Float64(), 0, 4).Draw(t, "jv")
				}
				err = w.WriteJSONForKey(key, v)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					got := map[string][]float64{}
					if err := r.GetJSONForKey(key, &got); err != nil || fmt.Sprint(got) != fmt.Sprint(v) {
						t.Fatalf("%q: read %v (%v), want %v", key, got, err, v)
					}
				}
			case "attribute":
				a, col := attr("")
				err = w.WriteAttributeForKey(key, a)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					got, err := r.GetAttributeForKey(key)
					if err != nil {
						t.Fatalf("%q: %v", key, err)
					}
					sameAttr(key, got, a, col)
				}
			case "attributes":
				var as []base.Attribute
				var cols []hx.Col
				for j := rapid.IntRange(0, 12).Draw(t, "attrs"); j > 0; j-- {
					a, col := attr(fmt.Sprint(j))
					as, cols = append(as, a), append(cols, col)
				}
				err = w.WriteAttributesForKey(key, as)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					got, err := r.GetAttributesForKey(key)
					if err != nil || len(got) != len(as) {
						t.Fatalf("%q: read %d attributes (%v), want %d", key, len(got), err, len(as))
					}
					for j := range got {
						sameAttr(fmt.Sprintf("%s %d", key, j), got[j], as[j], cols[j])
					}
				}
			case "grid":
				m, _, g, classes, _ := genArchiveTable(t, 4)
				err = w.WriteInstancesForKey(key, g, true)
				x.check = func(r *base.ClassifierDeserializer, key string) {
					got, err := r.GetInstancesForKey(key)
					if err != nil {
						t.Fatalf("%q: %v", key, err)
					}
					checkSameGrid(t, key, got, m, classes)
				}
			}
			if err != nil {
				t.Fatalf("writing %s to %q: %v", x.what, key, err)
			}
			wants = append(wants, x)
			shown += fmt.Sprintf(" %q=%s", key, x.what)
		}
		c.Describe(n > 1, "%s file, metadata %v:%s", th, md, shown)
		sub := rapid.SampledFrom([]string{"", "sub"}).Draw(t, "metaprefix")
		if sub != "" {
			md2 := md
			md2.ClassifierName += "2"
			if err := w.WriteMetadataAtPrefix(sub, md2); err != nil {
				t.Fatalf("writing metadata at %q: %v", sub, err)
			}
		}
		if err := w.Close(); err != nil {
			t.Fatalf("closing: %v", err)
		}
		r, err := base.ReadSerializedClassifierStub(p)
		if err != nil {
			t.Fatalf("reading: %v", err)
		}
		same := func(what string, got, want base.ClassifierMetadataV1) {
			if fmt.Sprintf("%#v", show(got)) != fmt.Sprintf("%#v", show(want)) {
				t.Fatalf("%s is %#v, want %#v", what, got, want)
			}
		}
		same("the metadata", *r.Metadata, md)
		if sub != "" {
			got, err := r.ReadMetadataAtPrefix(sub)
			if err != nil {
				t.Fatalf("metadata at %q: %v", sub, err)
			}
			md2 := md
			md2.ClassifierName += "2"
			same("the metadata at "+sub, got, md2)
		}
		// in any order, and again
		for pass := 0; pass < 2; pass++ {
			for _, i := range hx.Perm(t, len(wants), "order") {
				wants[i].check(r, wants[i].key)
			}
		}
		for _, k := range []string{"no such key", "a", "DATA"} {
			if b, err := r.GetBytesForKey(k); err == nil {
				t.Fatalf("key %q, never written, gives % x", k, b)
			}
		}
	})
}

// show lists metadata in a fixed order.
func show(m base.ClassifierMetadataV1) []string {
	l := []string{fmt.Sprint(m.FormatVersion), m.ClassifierName, m.ClassifierVersion}
	var keys []string
	for k := range m.ClassifierMetadata {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l = append(l, fmt.Sprintf("%s=%#v", k, m.ClassifierMetadata[k]))
	}
	return l
}
