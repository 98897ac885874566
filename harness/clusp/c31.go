package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/sjwhitworth/golearn/clustering"
	"pgregory.net/rapid"
	"verif/hx"
)

func show(m clustering.ClusterMap) string {
	var x []string
	for id, rows := range m {
		x = append(x, fmt.Sprintf("%d:%v", id, rows))
	}
	sort.Strings(x)
	return "{" + strings.Join(x, " ") + "}"
}

// blocks is a cluster map as a partition: the sorted list of its sorted
// clusters; ok is false when a row occurs twice.
func blocks(m clustering.ClusterMap) (string, bool) {
	var x []string
	seen := map[int]bool{}
	ok := true
	for _, rows := range m {
		r := append([]int{}, rows...)
		sort.Ints(r)
		for _, v := range r {
			ok = ok && !seen[v]
			seen[v] = true
		}
		x = append(x, fmt.Sprint(r))
	}
	sort.Strings(x)
	return strings.Join(x, " "), ok
}

func genMap(t *rapid.T, rows []int) clustering.ClusterMap {
	k := rapid.IntRange(0, 4).Draw(t, "clusters")
	m := clustering.ClusterMap{}
	if k == 0 {
		return m
	}
	if len(rows) > 99 {
		k = rapid.IntRange(1, 40).Draw(t, "many")
	}
	ids := rapid.SliceOfNDistinct(rapid.IntRange(-3, 9+len(rows)), k, k, rapid.ID[int]).Draw(t, "ids")
	for _, id := range ids {
		m[id] = []int{}
	}
	for _, r := range rows {
		id := ids[rapid.IntRange(0, k-1).Draw(t, "in")]
		m[id] = append(m[id], r)
	}
	return m
}

func clone(m clustering.ClusterMap) clustering.ClusterMap {
	o := clustering.ClusterMap{}
	for k, v := range m {
		o[k] = append([]int{}, v...)
	}
	return o
}

func keys(m clustering.ClusterMap) []int {
	var x []int
	for k := range m {
		x = append(x, k)
	}
	sort.Ints(x)
	return x
}

func init() {
	hx.Register("C31", "invert", 3000, 40000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(0, 12).Draw(t, "n")
		rows := make([]int, n)
		for i := range rows {
			rows[i] = rapid.IntRange(-2, 30).Draw(t, "row")
		}
		if hx.Rare(t, "big", 200) {
			n = rapid.IntRange(100, 600).Draw(t, "rows")
			rows = rapid.SliceOfNDistinct(rapid.IntRange(0, 5000), n, n, rapid.ID[int]).Draw(t, "bigrows")
			if rapid.Bool().Draw(t, "twice") {
				rows = append(rows, rows[rapid.IntRange(0, n-1).Draw(t, "again")])
			}
		}
		if hx.Rare(t, "far", 10) {
			off := rapid.SampledFrom([]int{1000000, 1 << 40}).Draw(t, "at")
			for i := range rows {
				rows[i] += off
			}
		}
		m := genMap(t, rows)
		_, valid := blocks(m)
		c.Describe(len(m) > 1 && n > 1, "%s", show(m))
		c.Class(!valid, "a row in two clusters")
		before := show(m)
		inv, err := m.Invert()
		if show(m) != before {
			t.Fatalf("Invert changed the map")
		}
		if !valid {
			if err == nil {
				t.Fatalf("a row is in two clusters, but Invert gives %v", inv)
			}
			return
		}
		if err != nil {
			t.Fatalf("Invert: %v", err)
		}
		count := 0
		for id, rs := range m {
			for _, r := range rs {
				count++
				if got, ok := inv[r]; !ok || got != id {
					t.Fatalf("row %d is in cluster %d, inverted map says %d (%v)", r, id, got, ok)
				}
			}
		}
		if len(inv) != count {
			t.Fatalf("inverted map holds %d rows, not %d", len(inv), count)
		}
	})

	hx.Register("C31", "equal", 6000, 100000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(0, 10).Draw(t, "n")
		rows := rapid.SliceOfNDistinct(rapid.IntRange(0, 20), n, n, rapid.ID[int]).Draw(t, "rows")
		if hx.Rare(t, "big", 200) {
			n = rapid.IntRange(100, 600).Draw(t, "nrows")
			rows = rapid.SliceOfNDistinct(rapid.IntRange(0, 5000), n, n, rapid.ID[int]).Draw(t, "bigrows")
		}
		if hx.Rare(t, "far", 10) {
			off := rapid.SampledFrom([]int{1000000, 1 << 40}).Draw(t, "at")
			for i := range rows {
				rows[i] += off
			}
		}
		a := genMap(t, rows)
		// rename the clusters and reorder their rows
		b := clustering.ClusterMap{}
		ids := rapid.SliceOfNDistinct(rapid.IntRange(-3, 9+len(rows)), len(a), len(a), rapid.ID[int]).Draw(t, "newids")
		for i, k := range keys(a) {
			r := append([]int{}, a[k]...)
			if len(r) > 1 {
				r = rapid.Permutation(r).Draw(t, "order")
			}
			b[ids[i]] = r
		}
		pick := func(name string) (int, bool) {
			k := keys(b)
			if len(k) == 0 {
				return 0, false
			}
			return k[rapid.IntRange(0, len(k)-1).Draw(t, name)], true
		}
		what := "renamed"
		for i := rapid.IntRange(0, 2).Draw(t, "mutations"); i > 0; i-- {
			switch rapid.IntRange(0, 6).Draw(t, "mutation") {
			case 0: // move a row
				x, ok := pick("from")
				y, _ := pick("to")
				if ok && len(b[x]) > 0 {
					what += ", moved"
					j := rapid.IntRange(0, len(b[x])-1).Draw(t, "which")
					v := b[x][j]
					b[x] = append(b[x][:j:j], b[x][j+1:]...)
					b[y] = append(b[y], v)
				}
			case 1: // drop a row
				if x, ok := pick("from"); ok && len(b[x]) > 0 {
					what += ", dropped"
					b[x] = b[x][1:]
				}
			case 2: // add a row
				if x, ok := pick("to"); ok {
					what += ", added"
					b[x] = append(b[x], rapid.IntRange(0, 30).Draw(t, "new"))
				}
			case 3: // split a cluster
				if x, ok := pick("split"); ok {
					what += ", split"
					j := rapid.IntRange(0, len(b[x])).Draw(t, "at")
					y := rapid.IntRange(10, 12).Draw(t, "id")
					b[y] = append(b[y], b[x][j:]...)
					b[x] = b[x][:j:j]
				}
			case 4: // merge clusters
				x, ok := pick("merge")
				y, _ := pick("into")
				if ok && x != y {
					what += ", merged"
					b[y] = append(b[y], b[x]...)
					delete(b, x)
				}
			case 5: // replace a row
				if x, ok := pick("replace"); ok && len(b[x]) > 0 {
					what += ", replaced"
					b[x][rapid.IntRange(0, len(b[x])-1).Draw(t, "at")] = rapid.IntRange(0, 30).Draw(t, "new")
				}
			default: // an empty cluster
				what += ", emptied"
				b[rapid.IntRange(13, 14).Draw(t, "id")] = nil
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "independent") == 0 {
			b = genMap(t, rows)
			what = "independent"
		}
		ka, va := blocks(a)
		kb, vb := blocks(b)
		want := va && vb && ka == kb
		c.Describe(n > 1 && len(a) > 1, "%s %s (%s)", show(a), show(b), what)
		c.Class(want, "equal")
		c.Class(!want, "different")
		c.Class(!want && len(a) == len(b) && va && vb, "different with as many clusters")
		sa, sb := show(a), show(b)
		for i, p := range [][2]clustering.ClusterMap{{a, b}, {b, a}, {a, clone(a)}} {
			w := want || i == 2
			eq, err := p[0].Equals(p[1])
			if eq != w {
				t.Fatalf("%s equals %s: %v (%v), should be %v", show(p[0]), show(p[1]), eq, err, w)
			}
			if eq != (err == nil) {
				t.Fatalf("%s equals %s: %v with error %v", show(p[0]), show(p[1]), eq, err)
			}
		}
		if show(a) != sa || show(b) != sb {
			t.Fatalf("Equals changed its arguments")
		}
	})
}
