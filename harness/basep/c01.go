package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/sjwhitworth/golearn/base"
	"pgregory.net/rapid"
	"verif/hx"
)

func init() {
	hx.Register("C01", "bits", 20000, 400000, func(t *rapid.T, c *hx.Case) {
		u := rapid.Uint64().Draw(t, "u")
		if rapid.Bool().Draw(t, "float") {
			u = math.Float64bits(rapid.Float64().Draw(t, "f"))
		}
		if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
			// spread over all bytes
			b := rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "bytes")
			u = 0
			for i, x := range b {
				u |= uint64(x) << (8 * uint(i))
			}
		}
		c.Describe(u > 255, "%#x", u)
		p := base.PackU64ToBytes(u)
		if len(p) != 8 {
			t.Fatalf("packing %#x gave %d bytes", u, len(p))
		}
		if got := base.UnpackBytesToU64(p); got != u {
			t.Fatalf("u64 %#x came back as %#x", u, got)
		}
		in := bytes.Repeat([]byte{0xAA}, 10)
		base.PackU64ToBytesInline(u, in[1:9])
		if !bytes.Equal(in[1:9], p) || in[0] != 0xAA || in[9] != 0xAA {
			t.Fatalf("inline packing of %#x gave % x, want % x inside", u, in, p)
		}
		f := math.Float64frombits(u)
		if got := base.UnpackBytesToFloat(base.PackFloatToBytes(f)); math.Float64bits(got) != u {
			t.Fatalf("float %#x came back as %#x", u, math.Float64bits(got))
		}
		base.PackFloatToBytesInline(f, in[1:9])
		if got := base.UnpackBytesToFloat(in[1:9]); math.Float64bits(got) != u {
			t.Fatalf("inline float %#x came back as %#x", u, math.Float64bits(got))
		}
		if !bytes.Equal(base.PackFloatToBytes(f), p) {
			t.Fatalf("float packing of %#x is % x, integer packing % x", u, base.PackFloatToBytes(f), p)
		}
	})

	hx.Register("C01", "float-text", 6000, 120000, func(t *rapid.T, c *hx.Case) {
		v := hx.AnyFloat(t, "v")
		if rapid.IntRange(0, 9).Draw(t, "inf") == 0 {
			v = math.Inf(rapid.SampledFrom([]int{-1, 1}).Draw(t, "sign"))
		}
		prec := rapid.IntRange(0, 12).Draw(t, "prec")
		name := rapid.String().Draw(t, "name")
		c.Describe(v != math.Trunc(v) || v < 0, "%v at %d", v, prec)
		a := base.NewFloatAttribute(name)
		a.Precision = prec
		text := strconv.FormatFloat(v, 'g', -1, 64)
		if rapid.Bool().Draw(t, "fixed") {
			text = strconv.FormatFloat(v, 'f', -1, 64)
		}
		b := a.GetSysValFromString(text)
		if got := a.GetFloatFromSysVal(b); math.Float64bits(got) != math.Float64bits(v) {
			t.Fatalf("%q stored as %v", text, got)
		}
		b2, err := a.CheckSysValFromString(text)
		if err != nil || !bytes.Equal(b, b2) {
			t.Fatalf("checked conversion of %q: % x, %v; unchecked % x", text, b2, err, b)
		}
		if got, want := a.GetStringFromSysVal(b), strconv.FormatFloat(v, 'f', prec, 64); got != want {
			t.Fatalf("%v printed as %q at precision %d, want %q", v, got, prec, want)
		}
		if a.GetName() != name || a.GetType() != base.Float64Type {
			t.Fatalf("name %q type %d", a.GetName(), a.GetType())
		}
		junk := rapid.StringMatching(`[0-9a-z.+-]{0,6}`).Draw(t, "junk")
		jb, jerr := a.CheckSysValFromString(junk)
		jf, perr := strconv.ParseFloat(junk, 64)
		if (jerr == nil) != (perr == nil) {
			t.Fatalf("%q: conversion error %v, number error %v", junk, jerr, perr)
		}
		if perr != nil && jb != nil {
			t.Fatalf("%q is no number but gave % x", junk, jb)
		}
		if perr == nil && !bytes.Equal(jb, base.PackFloatToBytes(jf)) {
			t.Fatalf("%q gave % x", junk, jb)
		}
	})

	hx.Register("C01", "binary", 1500, 20000, func(t *rapid.T, c *hx.Case) {
		v := hx.SmallFloat(t, "v")
		c.Describe(v != 0, "%v", v)
		a := base.NewBinaryAttribute("x")
		want := "0"
		if v > 0 {
			want = "1"
		}
		b := a.GetSysValFromString(strconv.FormatFloat(v, 'g', -1, 64))
		if len(b) != 1 || a.GetStringFromSysVal(b) != want {
			t.Fatalf("%v stored as % x, text %q, want %q", v, b, a.GetStringFromSysVal(b), want)
		}
		if !bytes.Equal(a.GetSysValFromString(want), b) {
			t.Fatalf("%q does not encode as % x", want, b)
		}
	})

	hx.Register("C01", "categorical-history", 2500, 60000, func(t *rapid.T, c *hx.Case) {
		a := base.NewCategoricalAttribute()
		if rapid.Bool().Draw(t, "zero") {
			a = new(base.CategoricalAttribute)
		}
		a.SetName(rapid.String().Draw(t, "name"))
		var labels []string
		code := map[string]int{}
		pool := rapid.SliceOfNDistinct(rapid.OneOf(rapid.StringMatching(`[a-c]{0,2}`), rapid.String()), 1, 30, rapid.ID[string]).Draw(t, "pool")
		n := rapid.IntRange(1, 60).Draw(t, "n")
		every := 1
		if hx.Rare(t, "many", 50) {
			pool = manyLabels(t)
			n, every = 2*len(pool), 97
			c.Class(true, "hundreds of labels")
		}
		for i := 0; i < n; i++ {
			l := ""
			if every > 1 && i < len(pool) {
				l = pool[i]
			} else if every > 1 {
				l = pool[(i*7919)%len(pool)]
			} else {
				l = rapid.SampledFrom(pool).Draw(t, "l")
			}
			op := i % 3
			if every == 1 {
				op = rapid.IntRange(0, 2).Draw(t, "op")
			}
			switch op {
			case 0, 1:
				b := a.GetSysValFromString(l)
				k, ok := code[l]
				if !ok {
					k = len(labels)
					code[l] = k
					labels = append(labels, l)
				}
				if got := base.UnpackBytesToU64(b); got != uint64(k) {
					t.Fatalf("label %q got code %d, want %d", l, got, k)
				}
			case 2:
				b := a.GetSysVal(l)
				if k, ok := code[l]; ok {
					if b == nil || base.UnpackBytesToU64(b) != uint64(k) {
						t.Fatalf("look-up of %q gave % x, want %d", l, b, k)
					}
				} else if len(b) != 0 {
					t.Fatalf("look-up of unknown %q gave % x", l, b)
				}
			}
			if i%every != 0 && i < n-1 {
				continue
			}
			vals := a.GetValues()
			if len(vals) != len(labels) {
				t.Fatalf("labels %q, want %q", vals, labels)
			}
			for k, l := range labels {
				if vals[k] != l || a.GetStringFromSysVal(base.PackU64ToBytes(uint64(k))) != l || a.GetUsrVal(base.PackU64ToBytes(uint64(k))) != l {
					t.Fatalf("code %d lists as %q, decodes as %q/%q, want %q", k, vals[k],
						a.GetStringFromSysVal(base.PackU64ToBytes(uint64(k))), a.GetUsrVal(base.PackU64ToBytes(uint64(k))), l)
				}
			}
		}
		c.Describe(len(labels) > 1 && n > len(labels), "%.2000q in %d steps", labels, n)
	})

	hx.Register("C01", "json", 5000, 100000, func(t *rapid.T, c *hx.Case) {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		var attrs []base.Attribute
		many := false
		for i := 0; i < n; i++ {
			name := rapid.String().Draw(t, "name")
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				a := base.NewFloatAttribute(name)
				a.Precision = rapid.IntRange(0, 40).Draw(t, "prec")
				attrs = append(attrs, a)
			case 1:
				attrs = append(attrs, base.NewBinaryAttribute(name))
			case 2:
				a := base.NewCategoricalAttribute()
				if rapid.Bool().Draw(t, "zero") {
					a = new(base.CategoricalAttribute)
				}
				a.SetName(name)
				ls := rapid.SliceOfNDistinct(rapid.String(), 0, 12, rapid.ID[string]).Draw(t, "labels")
				if hx.Rare(t, "many", 100) {
					ls = manyLabels(t)
				}
				for _, l := range ls {
					a.GetSysValFromString(l)
					many = true
				}
				attrs = append(attrs, a)
			}
		}
		c.Describe(many || n > 1, "%.2000s", fmt.Sprint(attrs))
		same := func(how string, x, y base.Attribute) {
			if y == nil || x.GetType() != y.GetType() || x.GetName() != y.GetName() {
				t.Fatalf("%s: %v came back as %v", how, x, y)
			}
			if !x.Equals(y) || !y.Equals(x) || !x.Compatible(y) || !y.Compatible(x) {
				t.Fatalf("%s: %v and its copy %v are not equal", how, x, y)
			}
			switch u := x.(type) {
			case *base.FloatAttribute:
				if u.Precision != y.(*base.FloatAttribute).Precision {
					t.Fatalf("%s: precision %d became %d", how, u.Precision, y.(*base.FloatAttribute).Precision)
				}
			case *base.CategoricalAttribute:
				v, w := u.GetValues(), y.(*base.CategoricalAttribute).GetValues()
				if len(v) != len(w) {
					t.Fatalf("%s: labels %q became %q", how, v, w)
				}
				for i := range v {
					if v[i] != w[i] {
						t.Fatalf("%s: labels %q became %q", how, v, w)
					}
				}
			}
		}
		for _, a := range attrs {
			b, err := base.SerializeAttribute(a)
			if err != nil {
				t.Fatalf("serialising %v: %v", a, err)
			}
			d, err := base.DeserializeAttribute(b)
			if err != nil {
				t.Fatalf("deserialising %s: %v", b, err)
			}
			same("single", a, d)
			m, err := base.MarshalAttribute(a)
			if err != nil || m["name"] != a.GetName() {
				t.Fatalf("map form of %v is %v (%v)", a, m, err)
			}
		}
		b, err := json.Marshal(attrs)
		if err != nil {
			t.Fatalf("marshalling the list: %v", err)
		}
		list, err := base.DeserializeAttributes(b)
		if err != nil || len(list) != len(attrs) {
			t.Fatalf("deserialising the list %s: %v, %v", b, list, err)
		}
		for i := range attrs {
			same("list", attrs[i], list[i])
		}
	})

	hx.Register("C01", "equality", 4000, 60000, func(t *rapid.T, c *hx.Case) {
		type desc struct {
			kind   int
			name   string
			labels []string
		}
		gen := func(s string) (base.Attribute, desc) {
			d := desc{kind: rapid.IntRange(0, 2).Draw(t, s+"kind"), name: rapid.SampledFrom([]string{"a", "b", "A", ""}).Draw(t, s+"name")}
			col := hx.Col{Name: d.name, Kind: hx.Kind(d.kind), Prec: rapid.IntRange(0, 3).Draw(t, s+"prec")}
			if col.Kind == hx.Cat {
				d.labels = rapid.SampledFrom([][]string{{}, {"x"}, {"x", "y"}, {"y", "x"}, {"x", "z"}, {"x", "y", "z"}}).Draw(t, s+"labels")
				col.Labels = d.labels
			}
			return col.NewAttr(), d
		}
		a, da := gen("a-")
		b, db := gen("b-")
		labels := len(da.labels) == len(db.labels)
		for i := 0; labels && i < len(da.labels); i++ {
			labels = da.labels[i] == db.labels[i]
		}
		comp := da.kind == db.kind && labels
		eq := comp && da.name == db.name
		c.Describe(da.kind == db.kind, "%v / %v", a, b)
		c.Class(eq, "equal")
		if a.Equals(b) != eq || b.Equals(a) != eq || !a.Equals(a) {
			t.Fatalf("%v equals %v: %v, %v; want %v", a, b, a.Equals(b), b.Equals(a), eq)
		}
		if a.Compatible(b) != comp || b.Compatible(a) != comp || !a.Compatible(a) {
			t.Fatalf("%v compatible with %v: %v, %v; want %v", a, b, a.Compatible(b), b.Compatible(a), comp)
		}
	})
}

// manyLabels is more labels than a byte counts, or labels longer than one
// does, which differ only at their end.
func manyLabels(t *rapid.T) []string {
	n := rapid.IntRange(2, 5).Draw(t, "labels")
	long := strings.Repeat("x", rapid.SampledFrom([]int{0, 100, 300, 5000}).Draw(t, "long"))
	if long == "" {
		n = rapid.IntRange(250, 700).Draw(t, "many labels")
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(long, i))
	}
	return out
}
