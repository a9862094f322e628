package main

import (
	"bytes"
	"compress/zlib"
)

// deflate compresses like git does, at a level that depends on n.
func deflate(raw []byte, n int) []byte {
	var b bytes.Buffer
	w, err := zlib.NewWriterLevel(&b, []int{zlib.DefaultCompression, zlib.NoCompression, zlib.BestSpeed, zlib.BestCompression, zlib.HuffmanOnly}[n%5])
	if err != nil {
		panic(err)
	}
	if n%3 == 1 && len(raw) > 2 {
		// A flush in the middle makes several blocks.
		w.Write(raw[:len(raw)/2])
		w.Flush()
		raw = raw[len(raw)/2:]
	}
	w.Write(raw)
	w.Close()
	return b.Bytes()
}
