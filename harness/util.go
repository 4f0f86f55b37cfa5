package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"golang.org/x/text/encoding/japanese"
)

// deepDiff compares two values structurally: nil and empty slices/maps are
// equal, floats may differ by tol (relative to 1+|v|). It returns the first
// differences as readable paths.
func deepDiff(a, b interface{}, tol float64) []string {
	d := &differ{tol: tol}
	d.walk("", reflect.ValueOf(a), reflect.ValueOf(b))
	return d.out
}

type differ struct {
	tol  float64
	out  []string
	skip map[string]bool // struct field names to ignore
	// tolFor overrides the tolerance by field name (absolute)
	tolFor map[string]float64
	last   string
}

func (d *differ) add(path, f string, a ...interface{}) {
	if len(d.out) < 6 {
		d.out = append(d.out, path+": "+fmt.Sprintf(f, a...))
	}
}

func (d *differ) walk(path string, a, b reflect.Value) {
	if len(d.out) >= 6 {
		return
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			d.add(path, "%v vs %v", a, b)
		}
		return
	}
	if a.Type() != b.Type() {
		d.add(path, "type %v vs %v", a.Type(), b.Type())
		return
	}
	switch a.Kind() {
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				d.add(path, "nil mismatch: %v vs %v", a, b)
			}
			return
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return
		}
		d.walk(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || d.skip[f.Name] || d.skip[a.Type().Name()+"."+f.Name] {
				continue
			}
			old := d.last
			if !(f.Anonymous || f.Name == "X" || f.Name == "Y" || f.Name == "Z" || f.Name == "W") {
				d.last = a.Type().Name() + "." + f.Name
			}
			d.walk(path+"."+f.Name, a.Field(i), b.Field(i))
			d.last = old
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			d.add(path, "length %d vs %d", a.Len(), b.Len())
			return
		}
		for i := 0; i < a.Len(); i++ {
			d.walk(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i))
		}
	case reflect.Map:
		for _, k := range a.MapKeys() {
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				d.add(path, "key %v missing on the right", k)
				continue
			}
			d.walk(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), bv)
		}
		for _, k := range b.MapKeys() {
			if !a.MapIndex(k).IsValid() {
				d.add(path, "key %v missing on the left", k)
			}
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || (math.IsNaN(x) && math.IsNaN(y)) {
			return
		}
		tol := d.tol * (1 + math.Abs(x))
		if t, ok := d.tolFor[d.last]; ok {
			tol = t + 2.4e-7*math.Abs(x)
		}
		if !(math.Abs(x-y) <= tol) {
			d.add(path, "%v vs %v", x, y)
		}
	case reflect.Func, reflect.Chan:
	default:
		if fmt.Sprint(a.Interface()) != fmt.Sprint(b.Interface()) {
			d.add(path, "%#v vs %#v", a.Interface(), b.Interface())
		}
	}
}

// bin is a little-endian encoder.
type bin struct{ bytes.Buffer }

func (b *bin) u8(v int)      { b.WriteByte(byte(v)) }
func (b *bin) u16(v int)     { b.Write([]byte{byte(v), byte(v >> 8)}) }
func (b *bin) u32(v int)     { b.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}) }
func (b *bin) u64(v uint64)  { var t [8]byte; binary.LittleEndian.PutUint64(t[:], v); b.Write(t[:]) }
func (b *bin) f32(v float32) { b.u32(int(math.Float32bits(v))) }
func (b *bin) f32s(v ...float32) {
	for _, x := range v {
		b.f32(x)
	}
}
func (b *bin) f64(v float64) { b.u64(math.Float64bits(v)) }
func (b *bin) idx(sz int, v int) {
	switch sz {
	case 1:
		b.u8(v)
	case 2:
		b.u16(v)
	default:
		b.u32(v)
	}
}

// unbin is a little-endian decoder that panics with stopDecode on short input.
type unbin struct {
	b   []byte
	pos int
}
type shortInput struct{ pos int }

func (u *unbin) take(n int) []byte {
	if n < 0 || u.pos+n > len(u.b) {
		panic(shortInput{u.pos})
	}
	r := u.b[u.pos : u.pos+n]
	u.pos += n
	return r
}
func (u *unbin) u8() int    { return int(u.take(1)[0]) }
func (u *unbin) u16() int   { return int(binary.LittleEndian.Uint16(u.take(2))) }
func (u *unbin) i16() int   { return int(int16(binary.LittleEndian.Uint16(u.take(2)))) }
func (u *unbin) i32() int   { return int(int32(binary.LittleEndian.Uint32(u.take(4)))) }
func (u *unbin) f() float32 { return math.Float32frombits(binary.LittleEndian.Uint32(u.take(4))) }

var specialFloats = []float32{0, 0, 1, 1, -1, 0.5, 2, 0.25}

func rf(r *rand.Rand) float32 {
	switch r.Intn(12) {
	case 0, 1:
		return specialFloats[r.Intn(len(specialFloats))]
	case 2:
		return float32(r.Intn(2000) - 1000)
	case 3:
		return float32(r.NormFloat64() * 1e-6)
	case 4:
		return float32(r.NormFloat64() * 1e6)
	default:
		return float32(r.NormFloat64() * 10)
	}
}

// rweight draws from [0,1], often the exact ends.
func rweight(r *rand.Rand) float32 {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 0.5
	}
	return r.Float32()
}

// echo repeats the previous draw now and then, so that equal neighbours occur.
var echo struct {
	r *rand.Rand
	v [4]float32
}

func rvec(r *rand.Rand) [4]float32 {
	if echo.r != r {
		echo.r, echo.v = r, [4]float32{}
	}
	switch r.Intn(10) {
	case 0:
		return echo.v
	case 1:
		x := specialFloats[r.Intn(len(specialFloats))]
		echo.v = [4]float32{x, x, x, x}
	case 2:
		echo.v = [4]float32{}
		echo.v[r.Intn(4)] = specialFloats[r.Intn(len(specialFloats))]
	default:
		echo.v = [4]float32{rf(r), rf(r), rf(r), rf(r)}
	}
	return echo.v
}

var nameAlphabet = []string{"a", "b", "Z", "_", "0", "9", " ", ".", "-", "頭", "右腕", "ボーン", "材質", "ア", "é", "漢", "表示", "ソ", "能"}
var asciiAlphabet = []string{"a", "b", "Z", "_", "0", "9", ".", "-", "x", "q"}
var sjisAlphabet = []string{"a", "b", "Z", "_", "0", "9", "頭", "右", "腕", "ボ", "ン", "材", "ア", "表", "ソ", "能", "ｱ"}

func rname(r *rand.Rand, alpha []string, maxParts int) string {
	n := r.Intn(maxParts + 1)
	s := ""
	for i := 0; i < n; i++ {
		s += alpha[r.Intn(len(alpha))]
	}
	return s
}

// uniqueName returns a non-empty trimmed name not in used.
func uniqueName(r *rand.Rand, alpha []string, used map[string]bool) string {
	for {
		s := "n" + rname(r, alpha, 5)
		for s[len(s)-1] == ' ' {
			s = s[:len(s)-1]
		}
		if !used[s] {
			used[s] = true
			return s
		}
		s = fmt.Sprintf("%s%d", s, r.Intn(1e6))
		if !used[s] {
			used[s] = true
			return s
		}
	}
}

func sjis(s string) []byte {
	b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(s))
	must(err)
	return b
}

// fixedSJIS encodes s into exactly n bytes: NUL terminated when shorter, the
// tail filled with garbage as real tools do.
func fixedSJIS(s string, n int, fill byte) []byte {
	b := sjis(s)
	if len(b) > n {
		panic(infra{fmt.Errorf("name too long %q", s)})
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = fill
	}
	copy(out, b)
	if len(b) < n {
		out[len(b)] = 0
	}
	return out
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
