package main

// Generator of Unity projects and packages: scenes, prefabs, materials,
// textures and FBX models, together with the object tree they describe.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const uBuiltinMesh = "0000000000000000e000000000000000"
const uBuiltinMat = "0000000000000000f000000000000000"

type uAsset struct {
	guid, path string
	data       []byte
	meta       string
}

type uTex struct {
	*uAsset
	missing bool // the file is not part of the project
}

type uMat struct {
	guid, name string
	color      [4]float64
	emission   *V3
	tex, bump  *uTex
	uv         [2]float64
}

type uFbx struct {
	*uAsset
	scene  *fbxScene
	unit   float64
	fileID map[*fbxModel]int64
}

type uMesh struct {
	builtin int64 // file id
	fbx     *uFbx
	model   *fbxModel
}

type uLight struct {
	typ                           int
	color                         [4]float64
	intensity, rng, spot, innerSp float64
}

type uCollider struct {
	kind           string
	center, size   V3
	radius, height float64
	mesh           int64 // built-in mesh
	axis           int
}

type uBody struct {
	mass, drag, adrag float64
	kinematic         int
}

type uObj struct {
	name      string
	active    int
	t         V3
	q         Q4
	s         V3
	mesh      *uMesh
	renderer  bool
	enabled   int
	mats      []*uMat
	light     *uLight
	colliders []*uCollider
	body      *uBody
	children  []*uObj // own objects and instances, as listed
	late      []*uObj // attached after the listed ones
	inst      *uInst  // this entry is a prefab instance
	parent    *uObj

	goID, trID, rendID, mfID, lightID int64
	order                             int // position of the document in the file
	src                               *uObj
}

type uMod struct {
	target   *uObj // object of the prefab file
	id       int64
	path     string
	value    string
	ref      string
	apply    func(o *uObj)
	describe string
}

type uInst struct {
	file       *uFile
	id         int64
	strippedID int64 // stripped transform of the root
	listed     bool
	mods       []*uMod
	expanded   *uObj           // expected result
	stripped   map[*uObj]int64 // stripped transforms of other objects (by prefab object)
	xform      *uObj           // parent object (nil: root)
}

type uFile struct {
	*uAsset
	roots  []*uObj
	all    []*uObj // own objects
	insts  []*uInst
	ids    map[int64]bool
	docs   []string
	onInst []*uAttach
}

// uAttach is something placed below an object that comes from an instance.
type uAttach struct {
	inst  *uInst
	under *uObj // object of the prefab file
	obj   *uObj // own object or instance entry
}

type uProject struct {
	c      *C
	r      *rand.Rand
	names  map[string]bool
	guids  map[string]bool
	paths  map[string]bool
	assets []*uAsset
	mats   []*uMat
	noMat  [2]*uMat
	scale  float64
	texs   []*uTex
	fbxs   []*uFbx
	prefab []*uFile
	scene  *uFile
	phys   bool
	crlf   bool
	simple bool // names that every text format can carry
}

func (p *uProject) guid() string {
	for {
		const hex = "0123456789abcdef"
		b := make([]byte, 32)
		set := hex
		switch p.r.Intn(6) {
		case 0:
			set = "0123456789" // looks like a number
		case 1:
			set = "0123456789e"
		}
		for i := range b {
			b[i] = set[p.r.Intn(len(set))]
		}
		g := string(b)
		if !p.guids[g] {
			p.guids[g] = true
			return g
		}
	}
}

func (p *uProject) path(ext string) string {
	for {
		s := "Assets/"
		if p.r.Intn(2) == 0 {
			s += []string{"Scenes/", "Sub Dir/", "深い/", "a/b/", "Assets/"}[p.r.Intn(5)]
		}
		s += []string{"x", "My File", "頭", "t.1", "A"}[p.r.Intn(5)]
		if p.r.Intn(2) == 0 {
			s += strconv.Itoa(p.r.Intn(100))
		}
		s += ext
		if !p.paths[strings.ToLower(s)] {
			p.paths[strings.ToLower(s)] = true
			return s
		}
	}
}

func (p *uProject) asset(ext string, data []byte, importer string) *uAsset {
	a := &uAsset{guid: p.guid(), path: p.path(ext), data: data}
	a.meta = "fileFormatVersion: 2\nguid: " + a.guid + "\n" + importer
	p.assets = append(p.assets, a)
	return a
}

func (p *uProject) name() string {
	if p.r.Intn(8) == 0 {
		n := []string{"123", "1.50", "007", "true", "1e5", "No", "0x1F", "-3", "2019-01-02"}[p.r.Intn(9)]
		if !p.names[n] {
			p.names[n] = true
			p.c.Obs("numeric_name")
			return n
		}
	}
	if p.simple {
		return uniqueName(p.r, []string{"a", "Z", "_", "0", " ", ".", "-", "頭", ":", "#", "(1)"}, p.names)
	}
	return uniqueName(p.r, []string{"a", "Z", "_", "0", " ", ".", "-", "頭", "é", ":", "#", "'", "\"", "{", ",", "&", "*", "!", "\\", "%", "@", "[", "(1)", "/"}, p.names)
}

// ystr writes a string scalar as Unity does: plain when possible.
func ystr(r *rand.Rand, s string) string {
	plain := s != ""
	for i, ch := range s {
		ok := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '.' || i > 0 && (ch == ' ' || ch == '-' || ch == '(' || ch == ')' || ch == '/') || ch == '-' && len(s) > 1 && s[1] >= '0' && s[1] <= '9'
		if !ok {
			plain = false
		}
	}
	if plain && s[len(s)-1] != ' ' {
		return s
	}
	ascii := true
	for _, ch := range s {
		if ch < 32 || ch > 126 {
			ascii = false
		}
	}
	if ascii && r.Intn(2) == 0 {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, ch := range s {
		switch {
		case ch == '"' || ch == '\\':
			b.WriteByte('\\')
			b.WriteRune(ch)
		case ch < 32 || ch > 126:
			fmt.Fprintf(&b, "\\u%04X", ch)
		default:
			b.WriteRune(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func yf(v float64) string { return strconv.FormatFloat(v, 'g', -1, 32) }
func yv3(v V3) string     { return fmt.Sprintf("{x: %s, y: %s, z: %s}", yf(v[0]), yf(v[1]), yf(v[2])) }
func ycol(v [4]float64) string {
	return fmt.Sprintf("{r: %s, g: %s, b: %s, a: %s}", yf(v[0]), yf(v[1]), yf(v[2]), yf(v[3]))
}
func yref(id int64, guid string, typ int) string {
	if guid == "" {
		return fmt.Sprintf("{fileID: %d}", id)
	}
	return fmt.Sprintf("{fileID: %d, guid: %s, type: %d}", id, guid, typ)
}

// wrapRef breaks a long flow mapping over two lines as Unity does.
func (p *uProject) wrapRef(s, indent string) string {
	if i := strings.Index(s, ", type:"); i >= 0 && p.r.Intn(3) == 0 {
		p.c.Obs("wrapped_line")
		return s[:i+1] + "\n" + indent + s[i+2:]
	}
	return s
}

func (p *uProject) finish(s string) []byte {
	if p.crlf {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

const uHeader = "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"

// header is uHeader, maybe with the tags of other programs.
func (p *uProject) header() string {
	if p.r.Intn(6) == 0 {
		p.c.Obs("other_tags")
		if p.r.Intn(2) == 0 {
			return "%YAML 1.1\n%TAG !x! tag:example.com,2000:\n%TAG !u! tag:unity3d.com,2011:\n"
		}
		return uHeader + "%TAG !x! tag:example.com,2000:\n"
	}
	return uHeader
}

func (p *uProject) texture() *uTex {
	r := p.r
	data := make([]byte, r.Intn(3000))
	if r.Intn(40) == 0 {
		data = make([]byte, 1<<(16+r.Intn(6))+r.Intn(1000))
		p.c.Obs("big_asset")
	}
	r.Read(data)
	if r.Intn(12) == 0 {
		return &uTex{&uAsset{guid: p.guid()}, true}
	}
	t := &uTex{uAsset: p.asset([]string{".png", ".PNG", ".tga", ".jpg"}[r.Intn(4)], data, "TextureImporter:\n  serializedVersion: 10\n  mipmaps:\n    mipMapMode: 0\n")}
	p.texs = append(p.texs, t)
	return t
}

// noMaterial returns what is used for an empty material slot or one whose asset is missing.
func (p *uProject) noMaterial(k int) *uMat {
	if p.noMat[k] == nil {
		m := &uMat{color: [4]float64{1, 1, 1, 1}, uv: [2]float64{1, 1}}
		if k == 1 {
			m.guid = fmt.Sprintf("%016x%016x", p.r.Uint64(), p.r.Uint64())
			m.name = m.guid
		}
		p.noMat[k] = m
	}
	p.c.Obs([]string{"material_empty", "material_missing"}[k])
	return p.noMat[k]
}

func (p *uProject) material() *uMat {
	r := p.r
	u := func() float64 { return f32(float64(r.Intn(1001)) / 1000) }
	m := &uMat{name: p.name(), color: [4]float64{u(), u(), u(), u()}, uv: [2]float64{1, 1}}
	if r.Intn(2) == 0 {
		m.emission = &V3{u() + 0.125, u() * 3, u()}
		if r.Intn(4) == 0 {
			m.emission = &V3{0, f32(0.001 + 0.02*r.Float64()), 0}
		}
	}
	if r.Intn(2) == 0 {
		m.tex = p.texture()
		if len(p.texs) > 1 && r.Intn(3) == 0 {
			m.tex = p.texs[r.Intn(len(p.texs))]
		}
		if r.Intn(2) == 0 {
			m.uv = [2]float64{[]float64{2, 0.5, -1, 3, 0.25}[r.Intn(5)], []float64{2, 0.5, 4, 1}[r.Intn(4)]}
		}
	}
	if r.Intn(4) == 0 {
		m.bump = p.texture()
	}
	var b strings.Builder
	b.WriteString(p.header())
	extra := ""
	if r.Intn(4) == 0 {
		extra = "--- !u!114 &-123456789\nMonoBehaviour:\n  m_ObjectHideFlags: 11\n  m_Name: \n  version: 5\n"
		if r.Intn(2) == 0 {
			b.WriteString(extra)
			extra = ""
		}
		p.c.Obs("material_with_other_documents")
	}
	kw := ""
	em := [4]float64{0, 0, 0, 1}
	if m.emission != nil {
		kw = "_EMISSION"
		em = [4]float64{m.emission[0], m.emission[1], m.emission[2], 1}
	}
	fmt.Fprintf(&b, "--- !u!21 &2100000\nMaterial:\n  serializedVersion: 6\n  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n  m_Name: %s\n  m_Shader: {fileID: 46, guid: 0000000000000000f000000000000000, type: 0}\n  m_ShaderKeywords: %s\n  m_LightmapFlags: 4\n  m_EnableInstancingVariants: 0\n  m_DoubleSidedGI: 0\n  m_CustomRenderQueue: -1\n  stringTagMap: {}\n  disabledShaderPasses: []\n  m_SavedProperties:\n    serializedVersion: 3\n    m_TexEnvs:\n", ystr(r, m.name), kw)
	env := func(name string, t *uTex, uv [2]float64) {
		ref := "{fileID: 0}"
		if t != nil {
			ref = p.wrapRef(yref(2800000, t.guid, 3), "          ")
		}
		fmt.Fprintf(&b, "    - %s:\n        m_Texture: %s\n        m_Scale: {x: %s, y: %s}\n        m_Offset: {x: 0, y: 0}\n", name, ref, yf(uv[0]), yf(uv[1]))
	}
	env("_BumpMap", m.bump, [2]float64{1, 1})
	env("_DetailMask", nil, [2]float64{1, 1})
	env("_MainTex", m.tex, m.uv)
	env("_OcclusionMap", nil, [2]float64{7, 7})
	b.WriteString("    m_Floats:\n    - _BumpScale: 1\n    - _Cutoff: 0.5\n    m_Colors:\n")
	if r.Intn(2) == 0 {
		fmt.Fprintf(&b, "    - _Color: %s\n    - _EmissionColor: %s\n", ycol(m.color), ycol(em))
	} else {
		fmt.Fprintf(&b, "    - _EmissionColor: %s\n    - _SpecColor: {r: 0.2, g: 0.2, b: 0.2, a: 1}\n    - _Color: %s\n", ycol(em), ycol(m.color))
	}
	b.WriteString(extra)
	a := p.asset(".mat", p.finish(b.String()), "NativeFormatImporter:\n  mainObjectFileID: 2100000\n")
	m.guid = a.guid
	p.mats = append(p.mats, m)
	return m
}

func (p *uProject) fbxModelFile() *uFbx {
	r, c := p.r, p.c
	s := &fbxScene{r: r, c: c, nextID: int64(r.Intn(1000)), names: map[string]bool{}}
	s.version = []int{7400, 7500, 7300}[r.Intn(3)]
	s.axis, s.sign = [3]int{0, 1, 2}, [3]int{1, 1, 1}
	for i := 0; i < 3; i++ {
		s.coord[s.axis[i]*4+i] = 1
	}
	s.coord[15] = 1
	s.tplS, s.tplCol = V3{1, 1, 1}, V3{0.8, 0.8, 0.8}
	for i := 1 + r.Intn(2); i > 0; i-- {
		s.material()
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		m := s.model("Mesh")
		m.geo = s.geometry()
		if i > 0 && r.Intn(3) == 0 && len(s.models) > 1 && n < 3 {
			// an empty parent
			q := s.model("Null")
			m.parent = q
			c.Obs("fbx_nested_model")
		}
	}
	for _, m := range s.models {
		if m.geo == nil {
			continue
		}
		k := 1 + r.Intn(3)
		for range m.geo.polys {
			v := r.Intn(k)
			if mx := maxInt(m.geo.mat) + 1; v > mx {
				v = mx
			}
			m.geo.mat = append(m.geo.mat, v)
		}
	}
	for _, m := range s.models {
		if m.parent != nil {
			m.parent.children = append(m.parent.children, m)
		}
	}
	s.build()
	f := &uFbx{scene: s, unit: []float64{1, 100, 2.5}[r.Intn(3)], fileID: map[*fbxModel]int64{}}
	if f.unit != 1 || r.Intn(2) == 0 {
		for _, t := range s.top {
			if t.Name == "GlobalSettings" {
				t.child("Properties70").add(s.p("UnitScaleFactor", "double", "Number", "", f.unit))
			}
		}
	}
	data, _ := encodeAny(c, s.top, s.version)
	imp := "ModelImporter:\n  serializedVersion: 23\n  fileIDToRecycleName:\n    100000: //RootNode\n"
	for i, m := range s.models {
		id := int64(4300000 + i*2)
		if m.geo != nil {
			f.fileID[m] = id
			imp += fmt.Sprintf("    %d: %s\n", id, ystr(r, m.name))
		}
	}
	imp += "  materials:\n    importMaterials: 1\n"
	f.uAsset = p.asset([]string{".fbx", ".FBX", ".Fbx"}[r.Intn(3)], data, imp)
	if !strings.HasSuffix(f.path, ".fbx") {
		c.Obs("fbx_upper_case")
	}
	p.fbxs = append(p.fbxs, f)
	return f
}

func maxInt(v []int) int {
	m := -1
	for _, x := range v {
		if x > m {
			m = x
		}
	}
	return m
}

func (p *uProject) quat() Q4 {
	r := p.r
	q := Q4{0, 0, 0, 1}
	switch r.Intn(5) {
	case 0:
		return q
	case 1:
		q = qAxis(r.Intn(3), []float64{math.Pi / 2, math.Pi, -math.Pi / 2, math.Pi / 4, 3}[r.Intn(5)])
	case 2: // half a turn
		q = [][4]float64{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, -1, 0}, {0.6, 0.8, 0, 0}}[r.Intn(4)]
	default:
		q = rquat(r)
	}
	for i := range q {
		q[i] = f32(q[i])
	}
	return q
}

func (p *uProject) pos() V3 {
	r := p.r
	switch r.Intn(4) {
	case 0:
		return V3{}
	case 1:
		return V3{float64(r.Intn(9) - 4), float64(r.Intn(9) - 4), float64(r.Intn(9) - 4)}
	}
	return V3{f32(r.NormFloat64() * 3), f32(r.NormFloat64() * 3), f32(r.NormFloat64() * 3)}
}

func (p *uProject) scl() V3 {
	r := p.r
	if !p.phys {
		switch r.Intn(5) {
		case 0:
			return V3{f32(0.25 + r.Float64()*2), f32(0.25 + r.Float64()*2), f32(0.25 + r.Float64()*2)}
		case 1:
			s := V3{1, 1, 1}
			s[r.Intn(3)] = -1
			return s
		}
	}
	x := []float64{1, 1, 2, 0.5, 1.25, 0.1}[r.Intn(6)]
	x = f32(x)
	return V3{x, x, x}
}

func (p *uProject) object(f *uFile) *uObj {
	r := p.r
	o := &uObj{name: p.name(), active: 1, t: p.pos(), q: p.quat(), s: p.scl(), enabled: 1}
	if r.Intn(5) == 0 {
		o.active = 0
	}
	if r.Intn(3) > 0 {
		m := &uMesh{}
		if len(p.fbxs) > 0 && r.Intn(3) == 0 {
			m.fbx = p.fbxs[r.Intn(len(p.fbxs))]
			var c []*fbxModel
			for _, x := range m.fbx.scene.models {
				if x.geo != nil {
					c = append(c, x)
				}
			}
			m.model = c[r.Intn(len(c))]
		} else {
			m.builtin = []int64{10202, 10206, 10207, 10208, 10209, 10210}[r.Intn(6)]
		}
		o.mesh = m
		o.renderer = r.Intn(8) > 0
		if r.Intn(6) == 0 {
			o.enabled = 0
		}
		n := 1
		if m.fbx != nil {
			n = maxInt(m.model.geo.mat) + 1
		} else if r.Intn(5) == 0 {
			n = 2 // only the first one is used
			p.c.Obs("unused_material")
		}
		for i := 0; i < n; i++ {
			if k := r.Intn(16); k < 2 {
				o.mats = append(o.mats, p.noMaterial(k))
			} else if k < 4 || len(p.mats) == 0 {
				o.mats = append(o.mats, nil) // default material
			} else {
				o.mats = append(o.mats, p.mats[r.Intn(len(p.mats))])
			}
		}
	}
	if r.Intn(5) == 0 {
		u := func() float64 { return f32(r.Float64()) }
		o.light = &uLight{typ: r.Intn(3), color: [4]float64{u(), u(), u(), u()}, intensity: u() * 4, rng: 10 * u(), spot: 30 + u(), innerSp: 20 + u()}
	}
	if p.phys && r.Intn(2) == 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			o.colliders = append(o.colliders, &uCollider{kind: []string{"BOX", "SPHERE", "CAPSULE"}[r.Intn(3)], center: p.pos(),
				size: V3{f32(0.5 + r.Float64()), f32(0.5 + r.Float64()), f32(0.5 + r.Float64())}, radius: f32(0.25 + r.Float64()), height: f32(3 + r.Float64()), axis: []int{1, 1, 0, 2}[r.Intn(4)]})
		}
		if r.Intn(5) == 0 {
			o.colliders = append(o.colliders, []*uCollider{{kind: "BOX", size: V3{1, 1, 1}, mesh: 10202}, {kind: "SPHERE", radius: 0.5, mesh: 10207}}[r.Intn(2)])
		}
		if r.Intn(2) == 0 {
			o.body = &uBody{mass: f32(r.Float64() * 10), drag: f32(r.Float64()), adrag: f32(r.Float64()), kinematic: r.Intn(2)}
		}
	}
	f.all = append(f.all, o)
	return o
}

func (f *uFile) id(r *rand.Rand) int64 {
	for {
		var v int64
		switch r.Intn(4) {
		case 0:
			v = int64(100000 + r.Intn(50)*2)
		case 1:
			v = -r.Int63()
		case 2:
			v = r.Int63()
		default:
			v = int64(r.Int31())
		}
		if v != 0 && !f.ids[v] {
			f.ids[v] = true
			return v
		}
	}
}

// instance places a prefab file.
func (p *uProject) instance(f *uFile) *uObj {
	r := p.r
	src := p.prefab[r.Intn(len(p.prefab))]
	in := &uInst{file: src, id: f.id(r), strippedID: f.id(r), stripped: map[*uObj]int64{}}
	add := func(o *uObj, id int64, path, value, ref string, apply func(o *uObj)) {
		in.mods = append(in.mods, &uMod{target: o, id: id, path: path, value: value, ref: ref, apply: apply})
		p.c.Obs("mod_" + strings.SplitN(path, ".", 2)[0])
	}
	for _, o := range src.all {
		root := o == src.roots[0]
		if root || r.Intn(3) == 0 {
			v := p.pos()
			for k, ax := range []string{"x", "y", "z"} {
				if !root && r.Intn(3) == 0 {
					continue
				}
				k, x := k, v[k]
				add(o, o.trID, "m_LocalPosition."+ax, yf(x), "", func(o *uObj) { o.t[k] = x })
			}
		}
		if root || r.Intn(4) == 0 {
			q := p.quat()
			for k, ax := range []string{"x", "y", "z", "w"} {
				k, x := k, q[k]
				add(o, o.trID, "m_LocalRotation."+ax, yf(x), "", func(o *uObj) { o.q[k] = x })
			}
		}
		if r.Intn(4) == 0 {
			v := p.scl()
			for k, ax := range []string{"x", "y", "z"} {
				k, x := k, v[k]
				add(o, o.trID, "m_LocalScale."+ax, yf(x), "", func(o *uObj) { o.s[k] = x })
			}
		}
		if r.Intn(3) == 0 {
			n := p.name()
			add(o, o.goID, "m_Name", n, "", func(o *uObj) { o.name = n })
		}
		if r.Intn(4) == 0 {
			a := r.Intn(2)
			add(o, o.goID, "m_IsActive", strconv.Itoa(a), "", func(o *uObj) { o.active = a })
		}
		if o.mesh != nil && o.renderer {
			if r.Intn(4) == 0 {
				a := r.Intn(2)
				add(o, o.rendID, "m_Enabled", strconv.Itoa(a), "", func(o *uObj) { o.enabled = a })
			}
			if r.Intn(3) == 0 && len(p.mats) > 0 {
				k := r.Intn(len(o.mats))
				m := p.mats[r.Intn(len(p.mats))]
				add(o, o.rendID, fmt.Sprintf("m_Materials.Array.data[%d]", k), "", yref(2100000, m.guid, 2), func(o *uObj) {
					o.mats = append([]*uMat(nil), o.mats...)
					o.mats[k] = m
				})
			}
		}
		if o.light != nil && r.Intn(3) == 0 {
			x := f32(r.Float64() * 3)
			add(o, o.lightID, "m_Intensity", yf(x), "", func(o *uObj) { l := *o.light; l.intensity = x; o.light = &l })
			y := f32(r.Float64())
			t := r.Intn(3)
			add(o, o.lightID, "m_Type", strconv.Itoa(t), "", func(o *uObj) { l := *o.light; l.typ = t; o.light = &l })
			add(o, o.lightID, "m_Color.g", yf(y), "", func(o *uObj) { l := *o.light; l.color[1] = y; o.light = &l })
		}
	}
	f.insts = append(f.insts, in)
	return &uObj{inst: in, name: "instance"}
}

// genFile fills a scene or prefab with objects.
func (p *uProject) genFile(f *uFile, prefab bool, n int) {
	r := p.r
	f.ids = map[int64]bool{}
	var own []*uObj
	add := func(o *uObj) {
		if len(own) > 0 && (prefab || r.Intn(3) > 0) {
			par := own[r.Intn(len(own))]
			o.parent = par
			if o.inst != nil && r.Intn(4) == 0 {
				par.late = append(par.late, o)
				p.c.Obs("instance_not_listed")
			} else {
				if o.inst != nil {
					o.inst.listed = true
					p.c.Obs("instance_listed")
				}
				par.children = append(par.children, o)
			}
			if o.inst != nil {
				o.inst.xform = par
			}
		} else {
			f.roots = append(f.roots, o)
		}
	}
	for i := 0; i < n; i++ {
		if len(p.prefab) > 0 && r.Intn(3) == 0 && !(prefab && i == 0) {
			add(p.instance(f))
			continue
		}
		o := p.object(f)
		add(o)
		own = append(own, o)
	}
	for _, o := range f.all {
		o.goID, o.trID, o.rendID, o.mfID, o.lightID = f.id(r), f.id(r), f.id(r), f.id(r), f.id(r)
	}
	// things placed below objects of an instance
	for _, in := range f.insts {
		for _, u := range in.file.all {
			if r.Intn(8) > 0 {
				continue
			}
			at := &uAttach{inst: in, under: u}
			if u == in.file.roots[0] {
				in.stripped[u] = in.strippedID
			} else {
				in.stripped[u] = f.id(r)
			}
			at.obj = p.object(f)
			o := at.obj
			o.goID, o.trID, o.rendID, o.mfID, o.lightID = f.id(r), f.id(r), f.id(r), f.id(r), f.id(r)
			f.onInst = append(f.onInst, at)
			p.c.Obs("object_below_instance")
		}
	}
	if p.phys && !prefab {
		for _, o := range f.all {
			box := len(o.children)+len(o.late) == 0
			for _, co := range o.colliders {
				box = box && co.kind == "BOX"
			}
			if box && r.Intn(2) == 0 {
				o.s = V3{f32(0.25 + r.Float64()*2), f32(0.25 + r.Float64()*2), f32(0.25 + r.Float64()*2)}
			}
		}
	}
	// m_Children of a parent in random order
	for _, o := range f.all {
		r.Shuffle(len(o.children), func(a, b int) { o.children[a], o.children[b] = o.children[b], o.children[a] })
	}
	p.writeFile(f)
}

func (p *uProject) writeFile(f *uFile) {
	r := p.r
	type doc struct {
		text string
		o    *uObj // marks the position of an object or instance
	}
	var docs []doc
	head := func(tag int, id int64, suffix string) string {
		return fmt.Sprintf("--- !u!%d &%d%s\n", tag, id, suffix)
	}
	common := "  m_ObjectHideFlags: 0\n  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n"
	father := map[*uObj]int64{}
	for _, a := range f.onInst {
		father[a.obj] = a.inst.stripped[a.under]
	}
	// lostPrefab adds an instance of a prefab that is not there and returns its transform.
	lostPrefab := func(par int64) int64 {
		id, tr := f.id(r), f.id(r)
		guid := fmt.Sprintf("%016x%016x", r.Uint64(), r.Uint64())
		docs = append(docs, doc{head(1001, id, "") + fmt.Sprintf("PrefabInstance:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n    m_Modifications:\n    - target: {fileID: 400000, guid: %s, type: 3}\n      propertyPath: m_LocalPosition.x\n      value: 1\n      objectReference: {fileID: 0}\n    m_RemovedComponents: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", par, guid, guid), nil},
			doc{head(4, tr, " stripped") + fmt.Sprintf("Transform:\n  m_CorrespondingSourceObject: {fileID: 400000, guid: %s, type: 3}\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", guid, id), nil})
		p.c.Obs("prefab_missing")
		return tr
	}
	if r.Intn(10) == 0 {
		lostPrefab(0)
	}
	for _, o := range f.all {
		comps := []int64{}
		comp := func(tag int, name string, id int64, body string) {
			comps = append(comps, id)
			docs = append(docs, doc{head(tag, id, "") + name + ":\n" + common + fmt.Sprintf("  m_GameObject: {fileID: %d}\n", o.goID) + body, nil})
		}
		fid := father[o]
		if o.parent != nil {
			fid = o.parent.trID
		}
		ch := " []\n"
		if len(o.children) > 0 {
			ch = "\n"
			lost := -1
			if r.Intn(10) == 0 {
				lost = r.Intn(len(o.children))
			}
			for i, k := range o.children {
				if i == lost {
					ch += fmt.Sprintf("  - {fileID: %d}\n", lostPrefab(o.trID))
				}
				id := k.trID
				if k.inst != nil {
					id = k.inst.strippedID
				}
				ch += fmt.Sprintf("  - {fileID: %d}\n", id)
			}
		}
		var later []func()
		if o.mesh != nil {
			later = append(later, func() {
				ref := yref(o.mesh.builtin, uBuiltinMesh, 0)
				if o.mesh.fbx != nil {
					ref = yref(o.mesh.fbx.fileID[o.mesh.model], o.mesh.fbx.guid, 3)
				}
				comp(33, "MeshFilter", o.mfID, "  m_Mesh: "+p.wrapRef(ref, "    ")+"\n")
			})
		}
		if o.mesh != nil && o.renderer {
			later = append(later, func() {
				s := fmt.Sprintf("  m_Enabled: %d\n  m_CastShadows: 1\n  m_ReceiveShadows: 1\n  m_Materials:\n", o.enabled)
				for _, m := range o.mats {
					ref := yref(10303, uBuiltinMat, 0)
					if m != nil && m.guid == "" {
						ref = "{fileID: 0}"
					} else if m != nil {
						ref = p.wrapRef(yref(2100000, m.guid, 2), "    ")
					}
					s += "  - " + ref + "\n"
				}
				comp(23, "MeshRenderer", o.rendID, s+"  m_StaticBatchInfo:\n    firstSubMesh: 0\n    subMeshCount: 0\n  m_SortingOrder: 0\n")
			})
		}
		if l := o.light; l != nil {
			later = append(later, func() {
				comp(108, "Light", o.lightID, fmt.Sprintf("  m_Enabled: 1\n  serializedVersion: 10\n  m_Type: %d\n  m_Shape: 0\n  m_Color: %s\n  m_Intensity: %s\n  m_Range: %s\n  m_SpotAngle: %s\n  m_InnerSpotAngle: %s\n  m_CullingMask:\n    serializedVersion: 2\n    m_Bits: 4294967295\n", l.typ, ycol(l.color), yf(l.intensity), yf(l.rng), yf(l.spot), yf(l.innerSp)))
			})
		}
		for _, co := range o.colliders {
			co := co
			later = append(later, func() {
				if co.mesh != 0 {
					comp(64, "MeshCollider", f.id(r), "  m_Material: {fileID: 0}\n  m_IsTrigger: 0\n  m_Enabled: 1\n  serializedVersion: 3\n  m_Convex: 0\n  m_CookingOptions: 14\n  m_Mesh: "+p.wrapRef(yref(co.mesh, uBuiltinMesh, 0), "    ")+"\n")
					return
				}
				switch co.kind {
				case "BOX":
					comp(65, "BoxCollider", f.id(r), fmt.Sprintf("  m_IsTrigger: 0\n  m_Enabled: 1\n  m_Size: %s\n  m_Center: %s\n", yv3(co.size), yv3(co.center)))
				case "SPHERE":
					comp(135, "SphereCollider", f.id(r), fmt.Sprintf("  m_IsTrigger: 0\n  m_Radius: %s\n  m_Center: %s\n", yf(co.radius), yv3(co.center)))
				case "CAPSULE":
					comp(136, "CapsuleCollider", f.id(r), fmt.Sprintf("  m_Radius: %s\n  m_Height: %s\n  m_Direction: %d\n  m_Center: %s\n", yf(co.radius), yf(co.height), co.axis, yv3(co.center)))
				}
			})
		}
		if b := o.body; b != nil {
			later = append(later, func() {
				comp(54, "Rigidbody", f.id(r), fmt.Sprintf("  serializedVersion: 2\n  m_Mass: %s\n  m_Drag: %s\n  m_AngularDrag: %s\n  m_UseGravity: 1\n  m_IsKinematic: %d\n", yf(b.mass), yf(b.drag), yf(b.adrag), b.kinematic))
			})
		}
		if r.Intn(4) == 0 {
			later = append(later, func() {
				comp(114, "MonoBehaviour", f.id(r), "  m_Enabled: 1\n  m_EditorHideFlags: 0\n  m_Script: {fileID: 11500000, guid: f70555f144d8491a825f0804e09c671c, type: 3}\n  m_Name: \n  list:\n  - a: 1\n    b: {x: 1}\n  text: 'a: b'\n")
			})
		}
		if r.Intn(4) == 0 {
			later = append(later, func() { comp(20, "Camera", f.id(r), "  m_Enabled: 1\n  field of view: 60\n") })
		}
		r.Shuffle(len(later), func(a, b int) { later[a], later[b] = later[b], later[a] })
		tr := func() {
			comp(4, "Transform", o.trID, fmt.Sprintf("  m_LocalRotation: {x: %s, y: %s, z: %s, w: %s}\n  m_LocalPosition: %s\n  m_LocalScale: %s\n  m_Children:%s  m_Father: {fileID: %d}\n  m_RootOrder: 0\n  m_LocalEulerAnglesHint: {x: 0, y: 0, z: 0}\n",
				yf(o.q[0]), yf(o.q[1]), yf(o.q[2]), yf(o.q[3]), yv3(o.t), yv3(o.s), ch, fid))
		}
		tr()
		for _, l := range later {
			l()
		}
		s := head(1, o.goID, "") + "GameObject:\n" + common + "  serializedVersion: 6\n  m_Component:\n"
		for _, id := range comps {
			s += fmt.Sprintf("  - component: {fileID: %d}\n", id)
		}
		s += fmt.Sprintf("  m_Layer: 0\n  m_Name: %s\n  m_TagString: Untagged\n  m_Icon: {fileID: 0}\n  m_StaticEditorFlags: 0\n  m_IsActive: %d\n", ystr(r, o.name), o.active)
		docs = append(docs, doc{s, o})
	}
	var entries []*uObj
	var walk func(o *uObj)
	walk = func(o *uObj) {
		if o.inst != nil {
			entries = append(entries, o)
		}
		for _, k := range append(append([]*uObj(nil), o.children...), o.late...) {
			walk(k)
		}
	}
	for _, o := range f.roots {
		walk(o)
	}
	for _, a := range f.onInst {
		walk(a.obj)
	}
	for _, e := range entries {
		in := e.inst
		par := int64(0)
		if in.xform != nil {
			par = in.xform.trID
		}
		s := head(1001, in.id, "") + fmt.Sprintf("PrefabInstance:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n    m_Modifications:", par)
		if len(in.mods) == 0 {
			s += " []"
		}
		s += "\n"
		for _, m := range in.mods {
			if r.Intn(12) == 0 { // an override of something that is gone
				p.c.Obs("mod_of_nothing")
				s += fmt.Sprintf("    - target: %s\n      propertyPath: %s\n      value: 7\n      objectReference: {fileID: 0}\n", yref(in.file.id(r), in.file.guid, 3), m.path)
			}
			v := m.value
			if m.path == "m_Name" {
				v = ystr(r, v)
			}
			ref := m.ref
			if ref == "" {
				ref = "{fileID: 0}"
			}
			s += fmt.Sprintf("    - target: %s\n      propertyPath: %s\n      value: %s\n      objectReference: %s\n", p.wrapRef(yref(m.id, in.file.guid, 3), "        "), m.path, v, p.wrapRef(ref, "        "))
		}
		// overrides the converter has nothing to do with
		s += fmt.Sprintf("    - target: %s\n      propertyPath: m_RootOrder\n      value: 3\n      objectReference: {fileID: 0}\n", yref(in.file.roots[0].trID, in.file.guid, 3))
		s += fmt.Sprintf("    - target: %s\n      propertyPath: m_Unknown.Array.data[7].x\n      value: \n      objectReference: {fileID: 0}\n", yref(in.file.roots[0].trID, in.file.guid, 3))
		s += "    m_RemovedComponents: []\n  m_SourcePrefab: " + p.wrapRef(yref(100100000, in.file.guid, 3), "    ") + "\n"
		docs = append(docs, doc{s, e})
		strip := func(u *uObj, id int64) {
			docs = append(docs, doc{head(4, id, " stripped") + "Transform:\n  m_CorrespondingSourceObject: " + p.wrapRef(yref(u.trID, in.file.guid, 3), "    ") + fmt.Sprintf("\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", in.id), nil})
		}
		_, used := in.stripped[in.file.roots[0]]
		if in.listed || used || r.Intn(3) == 0 {
			strip(in.file.roots[0], in.strippedID)
		}
		for _, u := range in.file.all {
			if id, ok := in.stripped[u]; ok && u != in.file.roots[0] {
				strip(u, id)
			}
		}
		if r.Intn(4) == 0 {
			docs = append(docs, doc{head(1, f.id(r), " stripped") + "GameObject:\n  m_CorrespondingSourceObject: " + yref(in.file.roots[0].goID, in.file.guid, 3) + fmt.Sprintf("\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", in.id), nil})
		}
	}
	if r.Intn(2) == 0 {
		docs = append(docs, doc{head(29, 1, "") + "OcclusionCullingSettings:\n  m_ObjectHideFlags: 0\n  m_SceneGUID: 00000000000000000000000000000000\n  m_OcclusionCullingData: {fileID: 0}\n", nil},
			doc{head(104, 2, "") + "RenderSettings:\n  m_FogColor: {r: 0.5, g: 0.5, b: 0.5, a: 1}\n", nil})
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(docs), func(a, b int) { docs[a], docs[b] = docs[b], docs[a] })
		p.c.Obs("documents_shuffled")
	}
	out := p.header()
	for i, d := range docs {
		out += d.text
		if d.o != nil {
			d.o.order = i + 1
		}
	}
	switch r.Intn(4) {
	case 0:
		out = strings.TrimSuffix(out, "\n")
		p.c.Obs("no_final_newline")
	case 1:
		out += "\n"
	}
	f.data = p.finish(out)
}

func (p *uProject) file(ext string) *uFile {
	imp := "DefaultImporter:\n  externalObjects: {}\n"
	if ext == ".prefab" {
		imp = "PrefabImporter:\n  externalObjects: {}\n"
	}
	return &uFile{uAsset: p.asset(ext, nil, imp)}
}

// expand returns the object tree a file describes.
func (f *uFile) expand() []*uObj {
	var conv func(o *uObj) *uObj
	placed := map[*uInst]map[*uObj]*uObj{} // instance, prefab object -> copy
	conv = func(o *uObj) *uObj {
		if o.inst != nil {
			top := o.inst.file.expand()[0]
			idx := map[*uObj]*uObj{}
			var walk func(x *uObj)
			walk = func(x *uObj) {
				for _, u := range o.inst.file.all {
					if x.src == u {
						idx[u] = x
					}
				}
				for _, k := range x.children {
					walk(k)
				}
			}
			walk(top)
			for _, m := range o.inst.mods {
				m.apply(idx[m.target])
			}
			placed[o.inst] = idx
			top.order = o.order
			return top
		}
		n := *o
		n.src, n.children, n.late = o, nil, nil
		for _, k := range o.children {
			n.children = append(n.children, conv(k))
		}
		// unlisted instances follow in file order
		late := append([]*uObj(nil), o.late...)
		for len(late) > 0 {
			b := 0
			for i := range late {
				if late[i].order < late[b].order {
					b = i
				}
			}
			n.children = append(n.children, conv(late[b]))
			late = append(late[:b], late[b+1:]...)
		}
		return &n
	}
	var out []*uObj
	for _, o := range f.roots {
		out = append(out, conv(o))
	}
	for _, a := range f.onInst {
		u := placed[a.inst][a.under]
		u.children = append(u.children, conv(a.obj))
	}
	for i := range out { // roots in file order
		for j := i; j > 0 && out[j].order < out[j-1].order; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func genUnity(c *C, simple bool) *uProject {
	r := c.R
	p := &uProject{c: c, r: r, simple: simple, names: map[string]bool{}, guids: map[string]bool{}, paths: map[string]bool{}}
	p.phys = r.Intn(3) == 0
	p.crlf = r.Intn(5) == 0
	for i := r.Intn(4); i > 0; i-- {
		p.material()
	}
	for i := r.Intn(3); i > 0; i-- {
		p.fbxModelFile()
	}
	for i := r.Intn(4); i > 0; i-- {
		f := p.file(".prefab")
		p.genFile(f, true, 1+r.Intn(4))
		p.prefab = append(p.prefab, f)
	}
	ext := ".unity"
	if r.Intn(6) == 0 {
		ext = ".prefab"
	}
	if r.Intn(30) == 0 {
		for i := 70 + r.Intn(250); i > 0; i-- {
			p.asset([]string{".cs", ".txt", ".shader"}[r.Intn(3)], []byte("// nothing"), "DefaultImporter:\n  userData: \n")
		}
		c.Obs("many_assets")
	}
	p.scene = p.file(ext)
	p.genFile(p.scene, ext == ".prefab", 1+r.Intn(7))
	return p
}

// writeProject stores the project below dir and returns the scene's path.
func (p *uProject) writeProject(dir string) string {
	dirs := map[string]bool{}
	for _, a := range p.assets {
		f := filepath.Join(dir, a.path)
		must(os.MkdirAll(filepath.Dir(f), 0755))
		for d := filepath.Dir(a.path); d != "Assets" && !dirs[d]; d = filepath.Dir(d) {
			dirs[d] = true
			must(os.WriteFile(filepath.Join(dir, d+".meta"), []byte("fileFormatVersion: 2\nguid: "+p.guid()+"\nfolderAsset: yes\nDefaultImporter:\n  externalObjects: {}\n"), 0644))
		}
		must(os.WriteFile(f, a.data, 0644))
		must(os.WriteFile(f+".meta", p.finish(a.meta), 0644))
	}
	return filepath.Join(dir, p.scene.path)
}

// pathname is the content of the pathname entry of an asset.
func (p *uProject) pathname(path string) string {
	switch p.r.Intn(4) {
	case 0:
		p.c.Obs("pathname_newline")
		return path + "\n"
	case 1:
		p.c.Obs("pathname_second_line")
		return path + "\n00"
	}
	return path
}

type tarEntry struct {
	name string
	data []byte
	typ  byte
	link string
}

func makeTar(entries []tarEntry) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, e := range entries {
		h := &tar.Header{Name: e.name, Typeflag: e.typ, Mode: 0644, Linkname: e.link}
		if e.typ == 0 {
			h.Typeflag = tar.TypeReg
		}
		if e.typ == tar.TypeDir {
			h.Mode = 0755
		}
		h.Size = int64(len(e.data))
		must(w.WriteHeader(h))
		_, err := w.Write(e.data)
		must(err)
	}
	must(w.Close())
	return b.Bytes()
}

func gz(data []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	w.Write(data)
	must(w.Close())
	return b.Bytes()
}

func (p *uProject) packageEntries() []tarEntry {
	r := p.r
	var out []tarEntry
	style := r.Intn(3)
	prefix := []string{"", "./", ""}[style]
	if style == 1 {
		out = append(out, tarEntry{name: "./", typ: tar.TypeDir})
	}
	order := r.Perm(len(p.assets))
	for _, i := range order {
		a := p.assets[i]
		if style != 2 {
			out = append(out, tarEntry{name: prefix + a.guid + "/", typ: tar.TypeDir})
		}
		es := []tarEntry{{name: prefix + a.guid + "/asset", data: a.data}, {name: prefix + a.guid + "/asset.meta", data: p.finish(a.meta)}, {name: prefix + a.guid + "/pathname", data: []byte(p.pathname(a.path))}}
		if r.Intn(3) == 0 {
			es = append(es, tarEntry{name: prefix + a.guid + "/preview.png", data: []byte("png")})
		}
		r.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
		out = append(out, es...)
	}
	if style == 2 {
		p.c.Obs("package_without_directories")
	}
	return out
}
