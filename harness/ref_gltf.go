package main

// Independent glTF 2.0 reader and validator used by the oracles. It does not
// use the gltf library of the code under test.

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type gExt map[string]json.RawMessage

type gTexInfo struct {
	Index      *int `json:"index"`
	TexCoord   int  `json:"texCoord"`
	Extensions gExt `json:"extensions"`
}

type gAccessor struct {
	BufferView    *int            `json:"bufferView"`
	ByteOffset    int             `json:"byteOffset"`
	ComponentType int             `json:"componentType"`
	Normalized    bool            `json:"normalized"`
	Count         int             `json:"count"`
	Type          string          `json:"type"`
	Max           []float64       `json:"max"`
	Min           []float64       `json:"min"`
	Sparse        json.RawMessage `json:"sparse"`
}
type gBufferView struct {
	Buffer     int  `json:"buffer"`
	ByteOffset int  `json:"byteOffset"`
	ByteLength int  `json:"byteLength"`
	ByteStride *int `json:"byteStride"`
	Target     int  `json:"target"`
}
type gBuffer struct {
	URI        string `json:"uri"`
	ByteLength int    `json:"byteLength"`
	data       []byte
}
type gNode struct {
	Name        string          `json:"name"`
	Children    []int           `json:"children"`
	Mesh        *int            `json:"mesh"`
	Skin        *int            `json:"skin"`
	Camera      *int            `json:"camera"`
	Matrix      []float64       `json:"matrix"`
	Translation []float64       `json:"translation"`
	Rotation    []float64       `json:"rotation"`
	Scale       []float64       `json:"scale"`
	Extensions  gExt            `json:"extensions"`
	Extras      json.RawMessage `json:"extras"`
}
type gPrimitive struct {
	Attributes map[string]int   `json:"attributes"`
	Indices    *int             `json:"indices"`
	Material   *int             `json:"material"`
	Mode       *int             `json:"mode"`
	Targets    []map[string]int `json:"targets"`
	Extensions gExt             `json:"extensions"`
}
type gMesh struct {
	Name       string       `json:"name"`
	Primitives []gPrimitive `json:"primitives"`
	Weights    []float64    `json:"weights"`
	Extras     struct {
		TargetNames []string `json:"targetNames"`
	} `json:"extras"`
}
type gPBR struct {
	BaseColorFactor          []float64 `json:"baseColorFactor"`
	BaseColorTexture         *gTexInfo `json:"baseColorTexture"`
	MetallicFactor           *float64  `json:"metallicFactor"`
	RoughnessFactor          *float64  `json:"roughnessFactor"`
	MetallicRoughnessTexture *gTexInfo `json:"metallicRoughnessTexture"`
}
type gMaterial struct {
	Name             string    `json:"name"`
	PBR              *gPBR     `json:"pbrMetallicRoughness"`
	NormalTexture    *gTexInfo `json:"normalTexture"`
	OcclusionTexture *gTexInfo `json:"occlusionTexture"`
	EmissiveTexture  *gTexInfo `json:"emissiveTexture"`
	EmissiveFactor   []float64 `json:"emissiveFactor"`
	AlphaMode        string    `json:"alphaMode"`
	AlphaCutoff      *float64  `json:"alphaCutoff"`
	DoubleSided      bool      `json:"doubleSided"`
	Extensions       gExt      `json:"extensions"`
}
type gSkin struct {
	InverseBindMatrices *int  `json:"inverseBindMatrices"`
	Skeleton            *int  `json:"skeleton"`
	Joints              []int `json:"joints"`
}
type gImage struct {
	Name       string `json:"name"`
	URI        string `json:"uri"`
	MimeType   string `json:"mimeType"`
	BufferView *int   `json:"bufferView"`
}
type gTexture struct {
	Sampler *int `json:"sampler"`
	Source  *int `json:"source"`
}
type gAnimSampler struct {
	Input         int    `json:"input"`
	Interpolation string `json:"interpolation"`
	Output        int    `json:"output"`
}
type gAnimChannel struct {
	Sampler int `json:"sampler"`
	Target  struct {
		Node *int   `json:"node"`
		Path string `json:"path"`
	} `json:"target"`
}
type gAnimation struct {
	Name     string         `json:"name"`
	Channels []gAnimChannel `json:"channels"`
	Samplers []gAnimSampler `json:"samplers"`
}
type gDoc struct {
	Asset struct {
		Version string `json:"version"`
	} `json:"asset"`
	Scene  *int `json:"scene"`
	Scenes []struct {
		Name  string `json:"name"`
		Nodes []int  `json:"nodes"`
	} `json:"scenes"`
	Nodes              []gNode           `json:"nodes"`
	Meshes             []gMesh           `json:"meshes"`
	Skins              []gSkin           `json:"skins"`
	Materials          []gMaterial       `json:"materials"`
	Textures           []gTexture        `json:"textures"`
	Images             []gImage          `json:"images"`
	Samplers           []json.RawMessage `json:"samplers"`
	Accessors          []gAccessor       `json:"accessors"`
	BufferViews        []gBufferView     `json:"bufferViews"`
	Buffers            []gBuffer         `json:"buffers"`
	Animations         []gAnimation      `json:"animations"`
	Cameras            []json.RawMessage `json:"cameras"`
	Extensions         gExt              `json:"extensions"`
	ExtensionsUsed     []string          `json:"extensionsUsed"`
	ExtensionsRequired []string          `json:"extensionsRequired"`

	raw  map[string]interface{}
	json []byte
}

// parseGLB splits a GLB container; trailing data and wrong lengths are errors.
func parseGLB(b []byte) (js, chunk []byte, err error) {
	if len(b) < 20 || string(b[:4]) != "glTF" {
		return nil, nil, fmt.Errorf("no GLB header (%d bytes)", len(b))
	}
	u := func(o int) int { return int(binary.LittleEndian.Uint32(b[o:])) }
	if u(4) != 2 {
		return nil, nil, fmt.Errorf("GLB version %d", u(4))
	}
	if u(8) != len(b) {
		return nil, nil, fmt.Errorf("GLB length field %d, file has %d bytes", u(8), len(b))
	}
	pos, n := 12, 0
	for pos < len(b) {
		if pos+8 > len(b) {
			return nil, nil, fmt.Errorf("truncated chunk header at %d", pos)
		}
		l, t := u(pos), u(pos+4)
		if l%4 != 0 || pos+8+l > len(b) {
			return nil, nil, fmt.Errorf("chunk at %d has length %d of %d", pos, l, len(b)-pos-8)
		}
		d := b[pos+8 : pos+8+l]
		switch {
		case n == 0 && t == 0x4E4F534A:
			js = d
		case n == 1 && t == 0x004E4942:
			chunk = d
		case n < 2:
			return nil, nil, fmt.Errorf("chunk %d has type %x", n, t)
		}
		n++
		pos += 8 + l
	}
	return
}

func parseGltfJSON(js []byte) (*gDoc, error) {
	d := &gDoc{json: js}
	if err := json.Unmarshal(js, d); err != nil {
		return nil, err
	}
	return d, json.Unmarshal(js, &d.raw)
}

// loadGltfFile reads a .glb/.vrm/.gltf with its external buffers.
func loadGltfFile(path string) (*gDoc, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var d *gDoc
	var chunk []byte
	if len(b) >= 4 && string(b[:4]) == "glTF" {
		var js []byte
		js, chunk, err = parseGLB(b)
		if err != nil {
			return nil, err
		}
		d, err = parseGltfJSON(js)
	} else {
		d, err = parseGltfJSON(b)
	}
	if err != nil {
		return nil, err
	}
	for i := range d.Buffers {
		bf := &d.Buffers[i]
		switch {
		case bf.URI == "":
			if i != 0 || chunk == nil {
				return nil, fmt.Errorf("buffer %d has no data", i)
			}
			if bf.ByteLength > len(chunk) || len(chunk)-bf.ByteLength > 3 {
				return nil, fmt.Errorf("buffer 0 has byteLength %d, the BIN chunk %d", bf.ByteLength, len(chunk))
			}
			bf.data = chunk[:bf.ByteLength]
		default:
			data, err := readURI(filepath.Dir(path), bf.URI)
			if err != nil {
				return nil, fmt.Errorf("buffer %d: %v", i, err)
			}
			if len(data) < bf.ByteLength {
				return nil, fmt.Errorf("buffer %d has byteLength %d, its data %d bytes", i, bf.ByteLength, len(data))
			}
			bf.data = data[:bf.ByteLength]
		}
	}
	return d, nil
}

func readURI(dir, uri string) ([]byte, error) {
	if strings.HasPrefix(uri, "data:") {
		k := strings.Index(uri, ";base64,")
		if k < 0 {
			return nil, fmt.Errorf("data uri without base64")
		}
		return base64.StdEncoding.DecodeString(uri[k+8:])
	}
	u, err := url.PathUnescape(uri)
	if err != nil {
		return nil, fmt.Errorf("uri %q: %v", uri, err)
	}
	uri = u
	return os.ReadFile(filepath.Join(dir, uri))
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeComps = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4, "MAT4": 16, "MAT2": 4, "MAT3": 9}

// read decodes accessor i; errors describe out-of-range references.
func (d *gDoc) read(i int) ([][]float64, error) {
	if i < 0 || i >= len(d.Accessors) {
		return nil, fmt.Errorf("accessor %d of %d", i, len(d.Accessors))
	}
	a := d.Accessors[i]
	cs, n := compSize[a.ComponentType], typeComps[a.Type]
	if cs == 0 || n == 0 {
		return nil, fmt.Errorf("accessor %d has component type %d, type %q", i, a.ComponentType, a.Type)
	}
	if a.Count < 1 {
		return nil, fmt.Errorf("accessor %d has count %d", i, a.Count)
	}
	out := make([][]float64, a.Count)
	if a.BufferView == nil {
		for k := range out {
			out[k] = make([]float64, n)
		}
		return out, nil
	}
	if *a.BufferView < 0 || *a.BufferView >= len(d.BufferViews) {
		return nil, fmt.Errorf("accessor %d uses buffer view %d of %d", i, *a.BufferView, len(d.BufferViews))
	}
	bv := d.BufferViews[*a.BufferView]
	if bv.Buffer < 0 || bv.Buffer >= len(d.Buffers) || bv.ByteOffset < 0 || bv.ByteLength < 1 || bv.ByteOffset+bv.ByteLength > len(d.Buffers[bv.Buffer].data) {
		return nil, fmt.Errorf("buffer view %d (%d+%d in buffer %d) is out of range", *a.BufferView, bv.ByteOffset, bv.ByteLength, bv.Buffer)
	}
	data := d.Buffers[bv.Buffer].data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength]
	stride := cs * n
	if bv.ByteStride != nil && *bv.ByteStride != 0 {
		stride = *bv.ByteStride
		if stride < cs*n {
			return nil, fmt.Errorf("accessor %d needs %d bytes per element, the stride is %d", i, cs*n, stride)
		}
	}
	if a.ByteOffset < 0 || a.ByteOffset+stride*(a.Count-1)+cs*n > len(data) {
		return nil, fmt.Errorf("accessor %d (%d elements of %d bytes from %d) exceeds buffer view %d of %d bytes", i, a.Count, stride, a.ByteOffset, *a.BufferView, len(data))
	}
	if (a.ByteOffset+bv.ByteOffset)%cs != 0 || stride%cs != 0 {
		return nil, fmt.Errorf("accessor %d is not aligned", i)
	}
	for k := range out {
		v := make([]float64, n)
		for j := range v {
			p := data[a.ByteOffset+k*stride+j*cs:]
			switch a.ComponentType {
			case 5120:
				v[j] = float64(int8(p[0]))
			case 5121:
				v[j] = float64(p[0])
			case 5122:
				v[j] = float64(int16(binary.LittleEndian.Uint16(p)))
			case 5123:
				v[j] = float64(binary.LittleEndian.Uint16(p))
			case 5125:
				v[j] = float64(binary.LittleEndian.Uint32(p))
			case 5126:
				v[j] = float64(math.Float32frombits(binary.LittleEndian.Uint32(p)))
			}
			if a.Normalized {
				switch a.ComponentType {
				case 5120:
					v[j] = math.Max(v[j]/127, -1)
				case 5121:
					v[j] /= 255
				case 5122:
					v[j] = math.Max(v[j]/32767, -1)
				case 5123:
					v[j] /= 65535
				}
			}
		}
		out[k] = v
	}
	return out, nil
}

func (d *gDoc) mustRead(c *C, i int) [][]float64 {
	v, err := d.read(i)
	if err != nil {
		c.Fatalf("%v", err)
	}
	return v
}

func (d *gDoc) viewData(i int) ([]byte, error) {
	if i < 0 || i >= len(d.BufferViews) {
		return nil, fmt.Errorf("buffer view %d of %d", i, len(d.BufferViews))
	}
	bv := d.BufferViews[i]
	if bv.Buffer < 0 || bv.Buffer >= len(d.Buffers) || bv.ByteOffset < 0 || bv.ByteLength < 1 || bv.ByteOffset+bv.ByteLength > len(d.Buffers[bv.Buffer].data) {
		return nil, fmt.Errorf("buffer view %d (%d+%d) is out of range", i, bv.ByteOffset, bv.ByteLength)
	}
	return d.Buffers[bv.Buffer].data[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
}

func (n *gNode) local() M4 {
	if len(n.Matrix) == 16 {
		var m M4
		copy(m[:], n.Matrix)
		return m
	}
	t, q, s := V3{}, Q4{0, 0, 0, 1}, V3{1, 1, 1}
	if len(n.Translation) == 3 {
		copy(t[:], n.Translation)
	}
	if len(n.Rotation) == 4 {
		copy(q[:], n.Rotation)
	}
	if len(n.Scale) == 3 {
		copy(s[:], n.Scale)
	}
	return mTRS(t, q, s)
}

// worlds returns the world matrix and the parent (-1) of each node.
func (d *gDoc) worlds() ([]M4, []int) {
	parent := make([]int, len(d.Nodes))
	for i := range parent {
		parent[i] = -1
	}
	for i, n := range d.Nodes {
		for _, k := range n.Children {
			parent[k] = i
		}
	}
	w := make([]M4, len(d.Nodes))
	done := make([]bool, len(d.Nodes))
	var f func(i int) M4
	f = func(i int) M4 {
		if !done[i] {
			m := d.Nodes[i].local()
			if parent[i] >= 0 {
				m = f(parent[i]).mul(m)
			}
			w[i], done[i] = m, true
		}
		return w[i]
	}
	for i := range d.Nodes {
		f(i)
	}
	return w, parent
}

type gCheck struct {
	errs []string
	// counters
	accessors, triangles, joints, targets, textures int
}

func (g *gCheck) bad(f string, a ...interface{}) {
	if len(g.errs) < 5 {
		g.errs = append(g.errs, fmt.Sprintf(f, a...))
	}
}

// validate checks the structural rules of glTF 2.0 that consumers rely on.
func (d *gDoc) validate() *gCheck {
	g := &gCheck{}
	if d.Asset.Version != "2.0" {
		g.bad("asset version %q", d.Asset.Version)
	}
	vals := make([][][]float64, len(d.Accessors))
	for i, a := range d.Accessors {
		v, err := d.read(i)
		if err != nil {
			g.bad("%v", err)
			continue
		}
		g.accessors++
		vals[i] = v
		for k, e := range v {
			for _, x := range e {
				if math.IsNaN(x) || math.IsInf(x, 0) {
					g.bad("accessor %d element %d is %v", i, k, e)
				}
			}
		}
		for _, mm := range [][]float64{a.Min, a.Max} {
			if mm != nil && len(mm) != typeComps[a.Type] {
				g.bad("accessor %d has %d bounds", i, len(mm))
			}
		}
		if len(a.Min) == typeComps[a.Type] && len(a.Max) == typeComps[a.Type] {
			for j := range a.Min {
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, e := range v {
					lo, hi = math.Min(lo, e[j]), math.Max(hi, e[j])
				}
				if float32(lo) != float32(a.Min[j]) || float32(hi) != float32(a.Max[j]) {
					g.bad("accessor %d component %d has bounds %v..%v, its values %v..%v", i, j, a.Min[j], a.Max[j], lo, hi)
				}
			}
		}
	}
	for i, b := range d.Buffers {
		if b.ByteLength < 1 {
			g.bad("buffer %d has byteLength %d", i, b.ByteLength)
		}
	}
	for i, v := range d.BufferViews {
		if _, err := d.viewData(i); err != nil {
			g.bad("%v", err)
		}
		if v.ByteStride != nil && (*v.ByteStride < 4 || *v.ByteStride > 252 || *v.ByteStride%4 != 0) {
			g.bad("buffer view %d has stride %d", i, *v.ByteStride)
		}
		if v.Target != 0 && v.Target != 34962 && v.Target != 34963 {
			g.bad("buffer view %d has target %d", i, v.Target)
		}
	}
	acc := func(what string, i int, types string, comps ...int) [][]float64 {
		if i < 0 || i >= len(d.Accessors) {
			g.bad("%s refers to accessor %d of %d", what, i, len(d.Accessors))
			return nil
		}
		a := d.Accessors[i]
		ok := a.Type == types
		okc := false
		for _, k := range comps {
			okc = okc || k == a.ComponentType
		}
		if !ok || !okc {
			g.bad("%s refers to accessor %d of type %s/%d", what, i, a.Type, a.ComponentType)
			return nil
		}
		return vals[i]
	}
	for mi, m := range d.Meshes {
		if len(m.Primitives) == 0 {
			g.bad("mesh %d has no primitives", mi)
		}
		for pi, p := range m.Primitives {
			what := fmt.Sprintf("mesh %d primitive %d", mi, pi)
			pos, ok := p.Attributes["POSITION"]
			if !ok {
				g.bad("%s has no positions", what)
				continue
			}
			pv := acc(what+" POSITION", pos, "VEC3", 5126)
			if pv == nil {
				continue
			}
			if len(d.Accessors[pos].Min) != 3 || len(d.Accessors[pos].Max) != 3 {
				g.bad("%s: position accessor without bounds", what)
			}
			n := len(pv)
			names := []string{}
			for name := range p.Attributes {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				ai := p.Attributes[name]
				var v [][]float64
				switch {
				case name == "POSITION":
					continue
				case name == "NORMAL":
					v = acc(what+" NORMAL", ai, "VEC3", 5126)
					for k, e := range v {
						if l := (V3{e[0], e[1], e[2]}).len(); math.Abs(l-1) > 5e-3 {
							g.bad("%s: normal %d has length %g", what, k, l)
						}
					}
				case name == "TANGENT":
					v = acc(what+" TANGENT", ai, "VEC4", 5126)
				case strings.HasPrefix(name, "TEXCOORD_"):
					v = acc(what+" "+name, ai, "VEC2", 5126, 5121, 5123)
				case strings.HasPrefix(name, "JOINTS_"):
					v = acc(what+" "+name, ai, "VEC4", 5121, 5123)
				case strings.HasPrefix(name, "WEIGHTS_"):
					v = acc(what+" "+name, ai, "VEC4", 5126, 5121, 5123)
					for k, e := range v {
						for _, x := range e {
							if x < 0 {
								g.bad("%s: vertex %d has weight %v", what, k, e)
							}
						}
					}
				case strings.HasPrefix(name, "COLOR_"), strings.HasPrefix(name, "_"):
					if ai < 0 || ai >= len(vals) {
						g.bad("%s: accessor %d", what, ai)
						continue
					}
					v = vals[ai]
				default:
					g.bad("%s has the attribute %q", what, name)
					continue
				}
				if v != nil && len(v) != n {
					g.bad("%s: %d positions but %d %s", what, n, len(v), name)
				}
			}
			if (p.Attributes["JOINTS_0"] == 0 && !has(p.Attributes, "JOINTS_0")) != (!has(p.Attributes, "WEIGHTS_0")) {
				g.bad("%s has only one of JOINTS_0 and WEIGHTS_0", what)
			}
			if p.Mode != nil && (*p.Mode < 0 || *p.Mode > 6) {
				g.bad("%s has mode %d", what, *p.Mode)
			}
			if p.Indices != nil {
				iv := acc(what+" indices", *p.Indices, "SCALAR", 5121, 5123, 5125)
				for _, e := range iv {
					if int(e[0]) >= n {
						g.bad("%s: index %v of %d vertices", what, e[0], n)
						break
					}
				}
				if (p.Mode == nil || *p.Mode == 4) && len(iv)%3 != 0 {
					g.bad("%s has %d indices", what, len(iv))
				}
				g.triangles += len(iv) / 3
			}
			if p.Material != nil && (*p.Material < 0 || *p.Material >= len(d.Materials)) {
				g.bad("%s refers to material %d of %d", what, *p.Material, len(d.Materials))
			}
			if len(p.Targets) != len(m.Primitives[0].Targets) {
				g.bad("%s has %d morph targets, primitive 0 has %d", what, len(p.Targets), len(m.Primitives[0].Targets))
			}
			for ti, t := range p.Targets {
				g.targets++
				for name, ai := range t {
					if !has(p.Attributes, name) {
						g.bad("%s target %d changes %s which the primitive lacks", what, ti, name)
					}
					if v := acc(fmt.Sprintf("%s target %d %s", what, ti, name), ai, "VEC3", 5126); v != nil && len(v) != n {
						g.bad("%s target %d has %d %s of %d", what, ti, len(v), name, n)
					}
					if name == "POSITION" && ai >= 0 && ai < len(d.Accessors) && len(d.Accessors[ai].Min) != 3 {
						g.bad("%s target %d: no bounds", what, ti)
					}
				}
			}
		}
		if len(m.Primitives) > 0 {
			nt := len(m.Primitives[0].Targets)
			if len(m.Weights) > 0 && len(m.Weights) != nt {
				g.bad("mesh %d has %d weights for %d targets", mi, len(m.Weights), nt)
			}
			if len(m.Extras.TargetNames) > 0 && len(m.Extras.TargetNames) != nt {
				g.bad("mesh %d names %d targets of %d", mi, len(m.Extras.TargetNames), nt)
			}
		}
	}
	// nodes
	parents := make([]int, len(d.Nodes))
	okTree := true
	for i, n := range d.Nodes {
		for _, k := range n.Children {
			if k < 0 || k >= len(d.Nodes) {
				g.bad("node %d has the child %d of %d", i, k, len(d.Nodes))
				okTree = false
				continue
			}
			parents[k]++
			if parents[k] > 1 || k == i {
				g.bad("node %d has several parents", k)
				okTree = false
			}
		}
		if len(n.Matrix) > 0 && (len(n.Translation) > 0 || len(n.Rotation) > 0 || len(n.Scale) > 0) {
			g.bad("node %d has a matrix and TRS", i)
		}
		if (len(n.Matrix) != 0 && len(n.Matrix) != 16) || (len(n.Translation) != 0 && len(n.Translation) != 3) || (len(n.Rotation) != 0 && len(n.Rotation) != 4) || (len(n.Scale) != 0 && len(n.Scale) != 3) {
			g.bad("node %d has a malformed transform", i)
		}
		if len(n.Rotation) == 4 {
			if l := (Q4{n.Rotation[0], n.Rotation[1], n.Rotation[2], n.Rotation[3]}).len(); math.Abs(l-1) > 1e-3 {
				g.bad("node %d has a rotation of length %g", i, l)
			}
		}
		if n.Mesh != nil && (*n.Mesh < 0 || *n.Mesh >= len(d.Meshes)) {
			g.bad("node %d refers to mesh %d of %d", i, *n.Mesh, len(d.Meshes))
			continue
		}
		if n.Skin != nil {
			if *n.Skin < 0 || *n.Skin >= len(d.Skins) {
				g.bad("node %d refers to skin %d of %d", i, *n.Skin, len(d.Skins))
				continue
			}
			if n.Mesh == nil {
				g.bad("node %d has a skin but no mesh", i)
				continue
			}
			nj := len(d.Skins[*n.Skin].Joints)
			for pi, p := range d.Meshes[*n.Mesh].Primitives {
				ja, ok := p.Attributes["JOINTS_0"]
				if !ok {
					g.bad("node %d has a skin, its mesh's primitive %d no joints", i, pi)
					continue
				}
				if ja < 0 || ja >= len(vals) {
					continue
				}
				for k, e := range vals[ja] {
					for _, x := range e {
						if int(x) >= nj {
							g.bad("node %d: vertex %d of primitive %d uses joint %v of %d", i, k, pi, x, nj)
						}
					}
				}
			}
		}
	}
	if okTree { // a forest: every node is reachable from a node without parent
		seen := make([]bool, len(d.Nodes))
		var walk func(i int)
		walk = func(i int) {
			seen[i] = true
			for _, k := range d.Nodes[i].Children {
				walk(k)
			}
		}
		for i := range d.Nodes {
			if parents[i] == 0 {
				walk(i)
			}
		}
		for i := range seen {
			if !seen[i] {
				g.bad("node %d is part of a cycle", i)
			}
		}
	}
	for si, s := range d.Scenes {
		in := map[int]bool{}
		for _, k := range s.Nodes {
			if k < 0 || k >= len(d.Nodes) {
				g.bad("scene %d lists node %d of %d", si, k, len(d.Nodes))
			} else if parents[k] > 0 || in[k] {
				g.bad("scene %d lists node %d, which is not a root or listed twice", si, k)
			}
			in[k] = true
		}
	}
	if d.Scene != nil && (*d.Scene < 0 || *d.Scene >= len(d.Scenes)) {
		g.bad("default scene %d of %d", *d.Scene, len(d.Scenes))
	}
	for si, s := range d.Skins {
		if len(s.Joints) == 0 {
			g.bad("skin %d has no joints", si)
		}
		in := map[int]bool{}
		for _, j := range s.Joints {
			if j < 0 || j >= len(d.Nodes) || in[j] {
				g.bad("skin %d lists joint %d (of %d nodes) or lists it twice", si, j, len(d.Nodes))
			}
			in[j] = true
			g.joints++
		}
		if s.Skeleton != nil && (*s.Skeleton < 0 || *s.Skeleton >= len(d.Nodes)) {
			g.bad("skin %d has the skeleton %d", si, *s.Skeleton)
		}
		if s.InverseBindMatrices != nil {
			v := acc(fmt.Sprintf("skin %d", si), *s.InverseBindMatrices, "MAT4", 5126)
			if v != nil && len(v) < len(s.Joints) {
				g.bad("skin %d has %d matrices for %d joints", si, len(v), len(s.Joints))
			}
			if v != nil {
				a := d.Accessors[*s.InverseBindMatrices]
				if st := d.BufferViews[*a.BufferView].ByteStride; st != nil && *st != 64 && *st != 0 {
					g.bad("skin %d: matrices with stride %d", si, *st)
				}
				for k, e := range v {
					if math.Abs(e[3]) > 1e-6 || math.Abs(e[7]) > 1e-6 || math.Abs(e[11]) > 1e-6 || math.Abs(e[15]-1) > 1e-6 {
						g.bad("skin %d: inverse bind matrix %d is not affine: %v", si, k, e)
					}
				}
			}
		}
	}
	// materials, textures
	tex := func(what string, t *gTexInfo) {
		if t == nil {
			return
		}
		g.textures++
		if t.Index == nil || *t.Index < 0 || *t.Index >= len(d.Textures) {
			g.bad("%s refers to a texture out of %d", what, len(d.Textures))
		}
	}
	unit := func(what string, v ...float64) {
		for _, x := range v {
			if !(x >= 0 && x <= 1) {
				g.bad("%s is %v", what, v)
			}
		}
	}
	for i, m := range d.Materials {
		what := fmt.Sprintf("material %d", i)
		if m.PBR != nil {
			tex(what+" base color", m.PBR.BaseColorTexture)
			tex(what+" metallic roughness", m.PBR.MetallicRoughnessTexture)
			unit(what+" base color", m.PBR.BaseColorFactor...)
			if len(m.PBR.BaseColorFactor) != 0 && len(m.PBR.BaseColorFactor) != 4 {
				g.bad("%s has a base color of %d components", what, len(m.PBR.BaseColorFactor))
			}
			if m.PBR.MetallicFactor != nil {
				unit(what+" metallic factor", *m.PBR.MetallicFactor)
			}
			if m.PBR.RoughnessFactor != nil {
				unit(what+" roughness factor", *m.PBR.RoughnessFactor)
			}
		}
		unit(what+" emission", m.EmissiveFactor...)
		tex(what+" normal", m.NormalTexture)
		tex(what+" occlusion", m.OcclusionTexture)
		tex(what+" emissive", m.EmissiveTexture)
		switch m.AlphaMode {
		case "", "OPAQUE", "BLEND":
			if m.AlphaCutoff != nil {
				g.bad("%s has an alpha cutoff in mode %q", what, m.AlphaMode)
			}
		case "MASK":
		default:
			g.bad("%s has alpha mode %q", what, m.AlphaMode)
		}
		for name, e := range m.Extensions {
			if !strings.HasPrefix(name, "KHR_") {
				continue
			}
			var props map[string]json.RawMessage
			json.Unmarshal(e, &props)
			for k, v := range props {
				if strings.HasSuffix(k, "Texture") {
					var t gTexInfo
					if json.Unmarshal(v, &t) == nil {
						tex(what+" "+name+" "+k, &t)
					}
				}
			}
		}
	}
	for i, t := range d.Textures {
		if t.Sampler != nil && (*t.Sampler < 0 || *t.Sampler >= len(d.Samplers)) {
			g.bad("texture %d refers to sampler %d of %d", i, *t.Sampler, len(d.Samplers))
		}
		if t.Source == nil || *t.Source < 0 || *t.Source >= len(d.Images) {
			g.bad("texture %d has no image", i)
		}
	}
	for i, m := range d.Images {
		if (m.BufferView == nil) == (m.URI == "") {
			g.bad("image %d has %v/%q", i, m.BufferView, m.URI)
		}
		if m.BufferView != nil {
			if _, err := d.viewData(*m.BufferView); err != nil {
				g.bad("image %d: %v", i, err)
			}
			if m.MimeType != "image/png" && m.MimeType != "image/jpeg" {
				g.bad("image %d has mime type %q", i, m.MimeType)
			}
		}
	}
	// animations
	for ai, a := range d.Animations {
		seen := map[string]bool{}
		if len(a.Channels) == 0 || len(a.Samplers) == 0 {
			g.bad("animation %d has %d channels and %d samplers", ai, len(a.Channels), len(a.Samplers))
		}
		for ci, ch := range a.Channels {
			what := fmt.Sprintf("animation %d channel %d", ai, ci)
			if ch.Sampler < 0 || ch.Sampler >= len(a.Samplers) {
				g.bad("%s refers to sampler %d of %d", what, ch.Sampler, len(a.Samplers))
				continue
			}
			if ch.Target.Node == nil || *ch.Target.Node < 0 || *ch.Target.Node >= len(d.Nodes) {
				g.bad("%s has no target", what)
				continue
			}
			key := fmt.Sprint(*ch.Target.Node, ch.Target.Path)
			if seen[key] {
				g.bad("%s: node %d has two channels for %s", what, *ch.Target.Node, ch.Target.Path)
			}
			seen[key] = true
			s := a.Samplers[ch.Sampler]
			in := acc(what+" input", s.Input, "SCALAR", 5126)
			typ, comps := "VEC3", []int{5126}
			per := 1
			switch ch.Target.Path {
			case "translation", "scale":
			case "rotation":
				typ, comps = "VEC4", []int{5126, 5120, 5121, 5122, 5123}
			case "weights":
				typ, comps = "SCALAR", []int{5126, 5120, 5121, 5122, 5123}
				n := d.Nodes[*ch.Target.Node]
				per = 0
				if n.Mesh != nil && *n.Mesh >= 0 && *n.Mesh < len(d.Meshes) && len(d.Meshes[*n.Mesh].Primitives) > 0 {
					per = len(d.Meshes[*n.Mesh].Primitives[0].Targets)
				}
				if per == 0 {
					g.bad("%s animates the weights of node %d, which has no targets", what, *ch.Target.Node)
				}
			default:
				g.bad("%s has path %q", what, ch.Target.Path)
				continue
			}
			out := acc(what+" output", s.Output, typ, comps...)
			if in == nil || out == nil {
				continue
			}
			if len(d.Accessors[s.Input].Min) != 1 || len(d.Accessors[s.Input].Max) != 1 {
				g.bad("%s: input without bounds", what)
			}
			for k := range in {
				if in[k][0] < 0 || k > 0 && in[k][0] <= in[k-1][0] {
					g.bad("%s: times do not increase: %v", what, in)
					break
				}
			}
			want := len(in) * per
			if s.Interpolation == "CUBICSPLINE" {
				want *= 3
			}
			if len(out) != want {
				g.bad("%s has %d keys and %d values (want %d)", what, len(in), len(out), want)
			}
			if oa := d.Accessors[s.Output]; oa.ComponentType != 5126 && !oa.Normalized {
				g.bad("%s: integer output that is not normalized", what)
			}
			if ch.Target.Path == "rotation" {
				for _, e := range out {
					if l := (Q4{e[0], e[1], e[2], e[3]}).len(); math.Abs(l-1) > 1e-3 {
						g.bad("%s: rotation of length %g", what, l)
						break
					}
				}
			}
		}
	}
	// extensions
	used := map[string]bool{}
	for _, e := range d.ExtensionsUsed {
		if used[e] {
			g.bad("extension %s is listed twice", e)
		}
		used[e] = true
	}
	found := map[string]bool{}
	collectExt(d.raw, found)
	var fl []string
	for e := range found {
		fl = append(fl, e)
	}
	sort.Strings(fl)
	for _, e := range fl {
		if !used[e] {
			g.bad("extension %s is used but not listed in extensionsUsed", e)
		}
	}
	for _, e := range d.ExtensionsRequired {
		if !used[e] {
			g.bad("extension %s is required but not listed in extensionsUsed", e)
		}
	}
	return g
}

func has(m map[string]int, k string) bool { _, ok := m[k]; return ok }

func collectExt(v interface{}, out map[string]bool) {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, x := range v {
			if k == "extensions" {
				if m, ok := x.(map[string]interface{}); ok {
					for e := range m {
						out[e] = true
					}
				}
			}
			if k != "extras" {
				collectExt(x, out)
			}
		}
	case []interface{}:
		for _, x := range v {
			collectExt(x, out)
		}
	}
}

// checkGltf fails the case on every structural error and counts what it saw.
func checkGltf(c *C, d *gDoc) {
	g := d.validate()
	for _, e := range g.errs {
		c.Failf("invalid glTF: %s", e)
	}
	if len(g.errs) > 0 {
		panic(stopCase{})
	}
	c.ObsN("gltf_accessor", g.accessors)
	c.ObsN("gltf_triangle", g.triangles)
	c.ObsN("gltf_joint", g.joints)
	c.ObsN("gltf_target", g.targets)
	c.ObsN("gltf_texture_ref", g.textures)
}
