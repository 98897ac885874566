package hx

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"io"
)

// Entry is one file of an archive.
type Entry struct {
	Name string
	Data []byte
}

// Unpack lists the entries of a .tar.gz.
func Unpack(b []byte) (out []Entry) {
	gz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	tr := tar.NewReader(gz)
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return
		}
		if err != nil {
			panic(err)
		}
		data, err := io.ReadAll(tr)
		if err != nil {
			panic(err)
		}
		out = append(out, Entry{h.Name, data})
	}
}

// Pack makes a .tar.gz with valid checksums.
func Pack(l []Entry) []byte {
	var b bytes.Buffer
	gz := gzip.NewWriter(&b)
	tw := tar.NewWriter(gz)
	for _, e := range l {
		if err := tw.WriteHeader(&tar.Header{Name: e.Name, Size: int64(len(e.Data))}); err != nil {
			panic(err)
		}
		if _, err := tw.Write(e.Data); err != nil {
			panic(err)
		}
	}
	tw.Close()
	gz.Close()
	return b.Bytes()
}
