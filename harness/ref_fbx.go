package main

// Independent FBX encoders (binary 7.4 and 7.5, ASCII), a strict ASCII parser
// and a generator of scenes.

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

type fN struct {
	Name string
	A    []interface{}
	C    []*fN
}

type fChar byte // 'C' attribute

func fnode(name string, a ...interface{}) *fN {
	n := &fN{Name: name}
	for _, x := range a {
		if l, ok := x.(fList); ok {
			n.A = append(n.A, l...)
		} else {
			n.A = append(n.A, x)
		}
	}
	return n
}

// fList is an array written the old way: as one attribute per number.
type fList []interface{}
func (n *fN) add(c ...*fN) *fN                { n.C = append(n.C, c...); return n }
func (n *fN) child(name string) *fN {
	for _, c := range n.C {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func fbxArrayBytes(v interface{}) (typ byte, n int, b *bin) {
	b = &bin{}
	switch v := v.(type) {
	case []int8:
		typ, n = 'b', len(v)
		for _, x := range v {
			b.u8(int(x))
		}
	case []int16:
		typ, n = 'y', len(v)
		for _, x := range v {
			b.u16(int(x))
		}
	case []int32:
		typ, n = 'i', len(v)
		for _, x := range v {
			b.u32(int(x))
		}
	case []int64:
		typ, n = 'l', len(v)
		for _, x := range v {
			b.u64(uint64(x))
		}
	case []float32:
		typ, n = 'f', len(v)
		for _, x := range v {
			b.f32(x)
		}
	case []float64:
		typ, n = 'd', len(v)
		for _, x := range v {
			b.f64(x)
		}
	}
	return
}

func fbxProp(r *rand.Rand, b *bin, v interface{}) {
	switch v := v.(type) {
	case int8:
		b.u8('B')
		b.u8(int(v))
	case fChar:
		b.u8('C')
		b.u8(int(v))
	case int16:
		b.u8('Y')
		b.u16(int(v))
	case int32:
		b.u8('I')
		b.u32(int(v))
	case int64:
		b.u8('L')
		b.u64(uint64(v))
	case float32:
		b.u8('F')
		b.f32(v)
	case float64:
		b.u8('D')
		b.f64(v)
	case string:
		b.u8('S')
		b.u32(len(v))
		b.WriteString(v)
	case []byte:
		b.u8('R')
		b.u32(len(v))
		b.Write(v)
	default:
		t, n, raw := fbxArrayBytes(v)
		if t == 0 {
			panic(infra{fmt.Errorf("fbx attribute %T", v)})
		}
		b.u8(int(t))
		b.u32(n)
		if r.Intn(2) == 0 {
			b.u32(0)
			b.u32(raw.Len())
			b.Write(raw.Bytes())
		} else {
			var z bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&z, []int{zlib.NoCompression, zlib.BestSpeed, zlib.DefaultCompression, zlib.BestCompression}[r.Intn(4)])
			zw.Write(raw.Bytes())
			zw.Close()
			b.u32(1)
			b.u32(z.Len())
			b.Write(z.Bytes())
		}
	}
}

func encFBX(r *rand.Rand, top []*fN, version int) []byte {
	var b bin
	b.WriteString("Kaydara FBX Binary  \x00\x1a\x00")
	b.u32(version)
	null := 13
	if version >= 7500 {
		null = 25
	}
	var enc func(n *fN, off int) []byte
	enc = func(n *fN, off int) []byte {
		var props bin
		for _, a := range n.A {
			fbxProp(r, &props, a)
		}
		body := append([]byte(nil), props.Bytes()...)
		start := off + null + len(n.Name)
		for _, c := range n.C {
			body = append(body, enc(c, start+len(body))...)
		}
		if len(n.C) > 0 || len(n.A) == 0 && r.Intn(2) == 0 {
			body = append(body, make([]byte, null)...)
		}
		var h bin
		if version >= 7500 {
			h.u64(uint64(start + len(body)))
			h.u64(uint64(len(n.A)))
			h.u64(uint64(props.Len()))
		} else {
			h.u32(start + len(body))
			h.u32(len(n.A))
			h.u32(props.Len())
		}
		h.u8(len(n.Name))
		h.WriteString(n.Name)
		return append(h.Bytes(), body...)
	}
	for _, n := range top {
		b.Write(enc(n, b.Len()))
	}
	b.Write(make([]byte, null))
	// footer
	id := make([]byte, 16)
	r.Read(id)
	b.Write(id)
	b.u32(0)
	for b.Len()%16 != 0 {
		b.u8(0)
	}
	b.u32(version)
	b.Write(make([]byte, 120))
	b.Write([]byte{0xf8, 0x5a, 0x8c, 0x6a, 0xde, 0xf5, 0xd9, 0x7e, 0xec, 0xe9, 0x0c, 0xe3, 0x75, 0x8f, 0x29, 0x0b})
	return b.Bytes()
}

// fbxText converts a name stored in a binary file to its ASCII form.
func fbxText(s string) string {
	if p := strings.SplitN(s, "\x00\x01", 2); len(p) == 2 {
		return p[1] + "::" + p[0]
	}
	return s
}

func fbxFloatText(r *rand.Rand, v float64, bits int) string {
	switch r.Intn(6) {
	case 0:
		return strconv.FormatFloat(v, 'e', -1, bits)
	case 1:
		return strconv.FormatFloat(v, 'E', -1, bits)
	case 2:
		if math.Abs(v) < 1e6 && (v == 0 || math.Abs(v) > 1e-4) {
			return strconv.FormatFloat(v, 'f', -1, bits)
		}
	case 3: // three digit exponents as older runtimes write them
		s := strconv.FormatFloat(v, 'e', -1, bits)
		if i := strings.IndexByte(s, 'e'); len(s)-i == 4 {
			return s[:i+2] + "0" + s[i+2:]
		}
		return s
	}
	return strconv.FormatFloat(v, 'g', -1, bits)
}

func encFBXText(r *rand.Rand, top []*fN, version int) []byte {
	var b bytes.Buffer
	nl := []string{"\n", "\r\n"}[r.Intn(2)]
	fmt.Fprintf(&b, "; FBX %d.%d.0 project file%s", version/1000, version/100%10, nl)
	if r.Intn(2) == 0 {
		b.WriteString("; ----------------------------------------------------" + nl + nl)
	}
	num := func(v interface{}) string {
		switch v := v.(type) {
		case float32:
			return fbxFloatText(r, float64(v), 32)
		case float64:
			return fbxFloatText(r, v, 64)
		}
		return fmt.Sprint(v)
	}
	var enc func(n *fN, ind string)
	enc = func(n *fN, ind string) {
		if r.Intn(15) == 0 {
			b.WriteString(ind + ";comment: \"x\" { *3 }" + nl)
		}
		if r.Intn(15) == 0 {
			b.WriteString(nl)
		}
		b.WriteString(ind + n.Name + ":")
		for i, a := range n.A {
			if i > 0 {
				b.WriteString(",")
				if r.Intn(20) == 0 {
					b.WriteString(nl + ind + "\t")
				}
			}
			if i == 0 || r.Intn(2) == 0 {
				b.WriteString(" ")
			}
			switch a := a.(type) {
			case string:
				b.WriteString(`"` + strings.ReplaceAll(fbxText(a), `"`, "&quot;") + `"`)
			case []byte:
				if r.Intn(2) == 0 && i == 0 {
					b.WriteString(",")
					if r.Intn(2) == 0 {
						b.WriteString(nl + ind + "\t")
					}
				}
				b.WriteString(`"` + base64.StdEncoding.EncodeToString(a) + `"`)
			case fChar:
				b.WriteString(fmt.Sprint(byte(a)))
			case int8, int16, int32, int64, float32, float64:
				b.WriteString(num(a))
			default:
				rv := reflectValue(a)
				fmt.Fprintf(&b, "*%d {%s%s\ta: ", rv.Len(), nl, ind)
				for k := 0; k < rv.Len(); k++ {
					if k > 0 {
						switch r.Intn(12) {
						case 0:
							b.WriteString("," + nl)
						case 1:
							b.WriteString(nl + ",")
						case 2:
							b.WriteString(", ")
						default:
							b.WriteString(",")
						}
					}
					b.WriteString(num(rv.Index(k).Interface()))
				}
				b.WriteString(nl + ind + "} ")
			}
		}
		if len(n.C) > 0 || len(n.A) == 0 {
			b.WriteString(" {" + nl)
			for _, c := range n.C {
				enc(c, ind+"\t")
			}
			b.WriteString(ind + "}" + nl)
		} else {
			b.WriteString(nl)
		}
	}
	for _, n := range top {
		if r.Intn(3) == 0 {
			b.WriteString(nl + "; section" + nl + ";-----" + nl)
		}
		enc(n, "")
	}
	if r.Intn(2) == 0 {
		b.WriteString(nl + "; end")
		if r.Intn(2) == 0 {
			b.WriteString(nl)
		}
	}
	return b.Bytes()
}

// ---- strict ASCII parser

var fbxNumRe = regexp.MustCompile(`^[-+]?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?`)
var fbxIdentRe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_-]*`)

type fbxText1 struct {
	s string
	o int
}

func (p *fbxText1) fail(f string, a ...interface{}) {
	panic(fmt.Errorf("line %d: %s", strings.Count(p.s[:p.o], "\n")+1, fmt.Sprintf(f, a...)))
}

// ws skips blanks; newlines only when nl is set.
func (p *fbxText1) ws(nl bool) {
	for p.o < len(p.s) {
		switch c := p.s[p.o]; {
		case c == ' ' || c == '\t' || c == '\r':
			p.o++
		case c == '\n' && nl:
			p.o++
		case c == ';' && nl:
			for p.o < len(p.s) && p.s[p.o] != '\n' {
				p.o++
			}
		default:
			return
		}
	}
}
func (p *fbxText1) peek() byte {
	if p.o < len(p.s) {
		return p.s[p.o]
	}
	return 0
}
func (p *fbxText1) want(c byte) {
	if p.peek() != c {
		p.fail("%q expected, %q found", c, p.peek())
	}
	p.o++
}
func (p *fbxText1) num() interface{} {
	m := fbxNumRe.FindString(p.s[p.o:])
	if m == "" {
		p.fail("number expected at %q", tail(p.s[p.o:min(len(p.s), p.o+20)], 20))
	}
	p.o += len(m)
	if !strings.ContainsAny(m, ".eE") {
		if v, err := strconv.ParseInt(m, 10, 64); err == nil {
			return v
		}
	}
	v, err := strconv.ParseFloat(m, 64)
	if err != nil {
		p.fail("%v", err)
	}
	return v
}
func (p *fbxText1) nodes(depth int) (out []*fN) {
	for {
		p.ws(true)
		if p.o >= len(p.s) {
			if depth > 0 {
				p.fail("unexpected end")
			}
			return
		}
		if p.peek() == '}' && depth > 0 {
			return
		}
		id := fbxIdentRe.FindString(p.s[p.o:])
		if id == "" {
			p.fail("name expected at %q", p.s[p.o:min(len(p.s), p.o+20)])
		}
		p.o += len(id)
		p.want(':')
		n := &fN{Name: id}
		out = append(out, n)
		p.ws(false)
		for first := true; p.o < len(p.s) && p.peek() != '\n' && p.peek() != '{'; first = false {
			if !first {
				p.want(',')
				p.ws(true)
			}
			switch p.peek() {
			case '"':
				e := strings.IndexByte(p.s[p.o+1:], '"')
				if e < 0 {
					p.fail("string without end")
				}
				n.A = append(n.A, strings.ReplaceAll(p.s[p.o+1:p.o+1+e], "&quot;", `"`))
				p.o += e + 2
			case '*':
				p.o++
				cnt, ok := p.num().(int64)
				if !ok {
					p.fail("bad array size")
				}
				p.ws(true)
				p.want('{')
				p.ws(true)
				p.want('a')
				p.want(':')
				p.ws(true)
				arr := []interface{}{}
				for p.peek() != '}' {
					if len(arr) > 0 {
						p.want(',')
						p.ws(true)
					}
					arr = append(arr, p.num())
					p.ws(true)
				}
				p.o++
				if int64(len(arr)) != cnt {
					p.fail("array of %d has %d values", cnt, len(arr))
				}
				n.A = append(n.A, arr)
			default:
				n.A = append(n.A, p.num())
			}
			p.ws(false)
		}
		if p.peek() == '{' {
			p.o++
			n.C = p.nodes(depth + 1)
			p.want('}')
			p.ws(false)
			if p.o < len(p.s) && p.peek() != '\n' {
				p.fail("text after block")
			}
		}
	}
}

func parseFBXText(s []byte) (top []*fN, err error) {
	p := &fbxText1{s: string(s)}
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(error); ok {
				err = x
				return
			}
			panic(e)
		}
	}()
	if !strings.HasPrefix(p.s, "; FBX ") {
		p.fail("no FBX comment in the first line")
	}
	return p.nodes(0), nil
}

// fbxValDiff compares an attribute with what a reader returned for it. text:
// it went through ASCII, where blobs are base64 and names change their form.
func fbxValDiff(want, got interface{}, text bool) string {
	bad := func() string { return fmt.Sprintf("%T %.60v became %T %.60v", want, want, got, got) }
	switch w := want.(type) {
	case string:
		if text {
			w = fbxText(w)
		}
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("string %.80q became %.80q", w, fmt.Sprint(got))
		}
		return ""
	case []byte:
		if text {
			if g, ok := got.(string); !ok || g != base64.StdEncoding.EncodeToString(w) {
				return bad()
			}
		} else if g, ok := got.([]byte); !ok || !bytes.Equal(g, w) {
			return bad()
		}
		return ""
	case fChar:
		want = int64(w)
	}
	wv, gv := reflectValue(want), reflectValue(got)
	if wv.Kind().String() == "slice" {
		if gv.Kind().String() != "slice" || gv.Len() != wv.Len() {
			return bad()
		}
		for i := 0; i < wv.Len(); i++ {
			if s := fbxValDiff(wv.Index(i).Interface(), gv.Index(i).Interface(), text); s != "" {
				return fmt.Sprintf("element %d: %s", i, s)
			}
		}
		return ""
	}
	if !gv.IsValid() || gv.Kind().String() == "slice" || gv.Kind().String() == "string" {
		return bad()
	}
	wi, wf, wInt := numOf(want)
	gi, gf, gInt := numOf(got)
	if wInt && gInt {
		if wi != gi {
			return bad()
		}
		return ""
	}
	if _, ok := want.(float32); ok {
		if float32(wf) != float32(gf) {
			return bad()
		}
		return ""
	}
	if wInt || wf != gf {
		return bad()
	}
	return ""
}

func numOf(v interface{}) (i int64, f float64, isInt bool) {
	rv := reflectValue(v)
	switch rv.Kind().String() {
	case "float32", "float64":
		return 0, rv.Float(), false
	case "uint8", "uint16", "uint32", "uint64", "uint":
		return int64(rv.Uint()), float64(rv.Uint()), true
	case "int", "int8", "int16", "int32", "int64":
		return rv.Int(), float64(rv.Int()), true
	}
	return 0, math.NaN(), false
}

func fbxTreeDiff(path string, want, got []*fN, text bool) string {
	for i, w := range want {
		at := fmt.Sprintf("%s/%s[%d]", path, w.Name, i)
		if i >= len(got) {
			return at + " is missing"
		}
		g := got[i]
		if g.Name != w.Name {
			return at + " is " + g.Name
		}
		if len(g.A) != len(w.A) {
			return fmt.Sprintf("%s has %d attributes, want %d", at, len(g.A), len(w.A))
		}
		for k := range w.A {
			if s := fbxValDiff(w.A[k], g.A[k], text); s != "" {
				return fmt.Sprintf("%s attribute %d: %s", at, k, s)
			}
		}
		if s := fbxTreeDiff(at, w.C, g.C, text); s != "" {
			return s
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%s has an extra node %s", path, got[len(want)].Name)
	}
	return ""
}

// ---- random trees

var fbxStrings = []string{"a", "B", " ", "::", "\\", "/", "頭", "é", "|", "'", "\"", ";", "{", "}", ":", ",", "*", "%", "\n", "\t", "7", "&", "\\n", "[", "]"}

func fbxRandVal(r *rand.Rand, wild bool) interface{} {
	n := func() int {
		switch r.Intn(5) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return 15 + r.Intn(4)
		}
		return r.Intn(60)
	}
	f := func() float64 {
		switch r.Intn(6) {
		case 0:
			return float64(r.Intn(2000) - 1000)
		case 1:
			return r.NormFloat64() * 1e-9
		case 2:
			return r.NormFloat64() * 1e25
		case 3:
			return 0
		}
		return r.NormFloat64() * 100
	}
	i64 := func() int64 {
		switch r.Intn(4) {
		case 0:
			return r.Int63() - r.Int63()
		case 1:
			return []int64{math.MaxInt64, math.MinInt64, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt32, math.MinInt32}[r.Intn(6)]
		}
		return int64(r.Intn(2000) - 1000)
	}
	switch r.Intn(16) {
	case 0:
		return int8(r.Intn(256) - 128)
	case 1:
		return fChar(r.Intn(256))
	case 2:
		return int16(r.Intn(65536) - 32768)
	case 3:
		return int32(uint32(r.Int63()))
	case 4:
		return i64()
	case 5:
		return float32(f())
	case 6, 7:
		return f()
	case 8:
		s := ""
		if wild {
			s = rname(r, fbxStrings, 8)
		} else {
			s = rname(r, nameAlphabet, 6)
		}
		if r.Intn(4) == 0 {
			s = strings.ReplaceAll(s, "::", "") + "\x00\x01" + []string{"Model", "Geometry", "Foo"}[r.Intn(3)]
		}
		return strings.ReplaceAll(s, "&quot;", "")
	case 9:
		b := make([]byte, n())
		r.Read(b)
		return b
	case 10:
		v := make([]int8, n())
		for i := range v {
			v[i] = int8(r.Intn(256) - 128)
		}
		return v
	case 11:
		v := make([]int16, n())
		for i := range v {
			v[i] = int16(r.Intn(65536) - 32768)
		}
		return v
	case 12:
		v := make([]int32, n())
		for i := range v {
			v[i] = int32(uint32(r.Int63()))
		}
		return v
	case 13:
		v := make([]int64, n())
		for i := range v {
			v[i] = i64()
		}
		return v
	case 14:
		v := make([]float32, n())
		for i := range v {
			v[i] = float32(f())
		}
		return v
	default:
		v := make([]float64, n())
		for i := range v {
			v[i] = f()
		}
		return v
	}
}

func fbxRandTree(r *rand.Rand, depth int) *fN {
	n := &fN{Name: []string{"A", "Key", "LayerElementUV", "a", "Foo_Bar", "Take-001", "X9"}[r.Intn(7)]}
	for i := r.Intn(5); i > 0; i-- {
		n.A = append(n.A, fbxRandVal(r, true))
	}
	if depth > 0 && r.Intn(3) > 0 {
		for i := r.Intn(4); i > 0; i-- {
			n.C = append(n.C, fbxRandTree(r, depth-1))
		}
	}
	return n
}
