package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"testing/iotest"
)

func reflectValue(v interface{}) reflect.Value { return reflect.ValueOf(v) }

// randomReader returns short reads of random sizes.
type randomReader struct {
	c *C
	r io.Reader
}

func (h *randomReader) Read(p []byte) (int, error) {
	n := 1 + h.c.R.Intn(7)
	if h.c.R.Intn(4) == 0 {
		n = 1 + h.c.R.Intn(5000)
	}
	if n < len(p) {
		p = p[:n]
	}
	return h.r.Read(p)
}

// hostileReader serves data through one of several legal io.Reader behaviours.
func hostileReader(c *C, data []byte) io.Reader {
	br := bytes.NewReader(data)
	switch c.R.Intn(5) {
	case 0:
		c.Obs("small_reads")
		return iotest.OneByteReader(br)
	case 1:
		c.Obs("small_reads")
		return &randomReader{c, br}
	case 2:
		c.Obs("small_reads")
		return iotest.DataErrReader(br)
	}
	return br
}

// matchSets matches two multisets of vectors; every component may differ by
// tol*(1+|x|). It returns a description of the first unmatched element.
func matchSets(want, got [][]float64, tol float64) string {
	used := make([]bool, len(got))
	close := func(a, b []float64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !near(a[i], b[i], tol*(1+math.Abs(a[i]))) {
				return false
			}
		}
		return true
	}
	for _, w := range want {
		ok := false
		for i, g := range got {
			if !used[i] && close(w, g) {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return fmt.Sprintf("missing %.6v (have %d elements, want %d)", w, len(got), len(want))
		}
	}
	for i, g := range got {
		if !used[i] {
			return fmt.Sprintf("unexpected %.6v (have %d elements, want %d)", g, len(got), len(want))
		}
	}
	return ""
}
