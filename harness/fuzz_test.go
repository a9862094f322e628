package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func fuzzed(tb testing.TB) *part {
	name := os.Getenv("VERIF_FUZZ_PART")
	if name == "" {
		tb.Skip("run by check.py")
	}
	for _, p := range parts {
		if p.prop+"/"+p.name == name {
			if err := loadDict("/repo"); err != nil {
				tb.Fatal(err)
			}
			return p
		}
	}
	tb.Fatal("no part ", name)
	return nil
}

// FuzzPart searches one part's cases, guided by the coverage of the code under
// test: the fuzzed bytes are the draws of the part's generator. check.py builds
// and runs it in the thorough tier. A failing case goes to fail-PID.json, the
// bytes that lead to it to fail-PID.bytes.
func FuzzPart(f *testing.F) {
	p := fuzzed(f)
	out, trace := os.Getenv("VERIF_FUZZ_OUT"), os.Getenv("VERIF_FUZZ_TRACE")
	for _, a := range os.Args {
		if strings.HasPrefix(a, "-test.fuzzworker") {
			quiet()
		}
	}
	x := seedFor(1, 0, p.name)
	for i := 0; i < 40; i++ {
		b := make([]byte, 1024<<(i%5))
		for k := 0; k < len(b); k += 8 {
			x = mix64(x)
			binary.LittleEndian.PutUint64(b[k:], x)
		}
		f.Add(b)
	}
	smallest := 1 << 30
	f.Fuzz(func(t *testing.T, b []byte) {
		var begin func(*failure)
		if trace != "" {
			begin = func(v *failure) { writeFailure(trace, v) }
		}
		rapid.MakeFuzz(func(t *rapid.T) {
			p.fuzz(t, begin, func(v *failure) {
				if len(b) < smallest {
					smallest = len(b)
					name := filepath.Join(out, fmt.Sprintf("fail-%d", os.Getpid()))
					os.WriteFile(name+".bytes", b, 0o644)
					writeFailure(name+".json", v)
				}
			})
		})(t, b)
	})
}

// TestShrink makes a failing case of FuzzPart smaller: draws are left out, or
// become zero, as long as a case fails.
func TestShrink(t *testing.T) {
	p := fuzzed(t)
	in := os.Getenv("VERIF_FUZZ_INPUT")
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	quiet()
	best := -1
	until := time.Now().Add(60 * time.Second)
	try := func(b []byte) bool {
		bad := false
		t.Run("", func(t *testing.T) {
			rapid.MakeFuzz(func(t *rapid.T) {
				p.fuzz(t, nil, func(v *failure) {
					bad = best < 0 || len(v.Case) <= best
					if bad {
						best = len(v.Case)
						writeFailure(strings.TrimSuffix(in, ".bytes")+".json", v)
					}
				})
			})(t, b)
		})
		return bad
	}
	if !try(b) {
		t.Fatal("does not fail again")
	}
	for changed := true; changed && time.Now().Before(until); {
		changed = false
		for n := (len(b)/2 + 7) &^ 7; n >= 8; n = (n / 2) &^ 7 {
			for at := 0; at+n <= len(b) && time.Now().Before(until); {
				c := append(append([]byte{}, b[:at]...), b[at+n:]...)
				if try(c) {
					b, changed = c, true
				} else {
					at += n
				}
			}
		}
		for at := 0; at+8 <= len(b) && time.Now().Before(until); at += 8 {
			for _, v := range []uint64{0, binary.LittleEndian.Uint64(b[at:]) >> 8} {
				c := append([]byte{}, b...)
				binary.LittleEndian.PutUint64(c[at:], v)
				if string(c) != string(b) && try(c) {
					b, changed = c, true
					break
				}
			}
		}
	}
}
