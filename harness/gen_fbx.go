package main

// Generator of FBX scenes: an own description of the scene plus the node tree
// that encodes it.

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
)

type fbxModel struct {
	id           int64
	name, kind   string
	parent       *fbxModel
	children     []*fbxModel
	t, pre, r, s V3
	geo          *fbxGeo
	mats         []*fbxMat
	bind         *M4 // where the skin was bound, if not where the model is
}

func (m *fbxModel) local() M4 {
	rad := math.Pi / 180
	rot := func(e V3) M4 { return mAxis(2, e[2]*rad).mul(mAxis(1, e[1]*rad)).mul(mAxis(0, e[0]*rad)) }
	return mTranslate(m.t).mul(rot(m.pre)).mul(rot(m.r)).mul(mScale(m.s))
}

func (m *fbxModel) world() M4 {
	if m.parent == nil {
		return m.local()
	}
	return m.parent.world().mul(m.local())
}

func (m *fbxModel) absWorld() M4 {
	l := m.local()
	if m.parent == nil {
		return l.absmul(mScale(V3{1, 1, 1}))
	}
	return m.parent.absWorld().absmul(l)
}

func (m *fbxModel) hasGeo() bool {
	if m.geo != nil {
		return true
	}
	for _, c := range m.children {
		if c.hasGeo() {
			return true
		}
	}
	return false
}

type fbxMat struct {
	id                                  int64
	name                                string
	diffuse                             V3
	opacity, dfac, spec, sfac, amb, afc float64
	power                               float64
	texture                             string
}

type fbxShape struct {
	id    int64
	name  string
	idx   []int32
	delta []V3
	inner bool // stored inside the geometry
}

type fbxCluster struct {
	id   int64
	bone *fbxModel
	idx  []int32
	w    []float64
}

type fbxGeo struct {
	id       int64
	name     string
	verts    []V3
	polys    [][]int
	uvs      [][][2]float64 // per polygon vertex, nil: none
	normals  [][]V3
	mat      []int // per polygon, nil: none
	shapes   []*fbxShape
	clusters []*fbxCluster
}

type fbxScene struct {
	r       *rand.Rand
	c       *C
	nextID  int64
	axis    [3]int
	sign    [3]int
	models  []*fbxModel
	mats    []*fbxMat
	geos    []*fbxGeo
	tplS    V3 // template values used by models that omit the property
	tplT    V3
	tplCol  V3
	tplUsed bool
	version int
	coord   M4
	names   map[string]bool
	objs    []*fN
	conns   []*fN
	top     []*fN
}

func (s *fbxScene) id() int64 {
	s.nextID += 1 + int64(s.r.Intn(1000))
	if s.r.Intn(40) == 0 {
		s.nextID += 1 << 33
	}
	return s.nextID
}

func (s *fbxScene) name() string {
	if s.r.Intn(6) == 0 { // starts or ends like the name of a class
		n := []string{"Model", "Material", "lo", "ed", "Geometry", "d:", "oModel", "ModelModel"}[s.r.Intn(8)] + fmt.Sprint(s.r.Intn(50)) + []string{"", "led", "al", ":Mo"}[s.r.Intn(4)]
		if !s.names[n] {
			s.names[n] = true
			return n
		}
	}
	return uniqueName(s.r, []string{"a", "b", "Z", "_", "0", " ", ".", "-", "頭", "腕", "é"}, s.names)
}

// num encodes a number with a random numeric type that holds it.
func (s *fbxScene) num(v float64) interface{} {
	if v == math.Trunc(v) && math.Abs(v) < 1e6 && s.r.Intn(3) == 0 {
		return []interface{}{int32(v), int64(v), int16(v)}[s.r.Intn(2)]
	}
	if f32(v) == v && s.r.Intn(3) == 0 {
		return float32(v)
	}
	return v
}

func (s *fbxScene) p(name, typ, label, flag string, v ...float64) *fN {
	n := fnode("P", name, typ, label, flag)
	for _, x := range v {
		if typ == "int" {
			n.A = append(n.A, []interface{}{int32(x), int64(x)}[s.r.Intn(2)])
			continue
		}
		n.A = append(n.A, s.num(x))
	}
	return n
}

func (s *fbxScene) rv(scale float64) V3 {
	r := s.r
	f := func() float64 { return f32(r.NormFloat64() * scale) }
	switch r.Intn(5) {
	case 0:
		return V3{float64(r.Intn(9) - 4), float64(r.Intn(9) - 4), float64(r.Intn(9) - 4)}
	case 1:
		return V3{}
	}
	return V3{f(), f(), f()}
}

func (s *fbxScene) connect(typ string, child, parent int64, prop ...string) {
	n := fnode("C", typ, child, parent)
	for _, p := range prop {
		n.A = append(n.A, p)
	}
	s.conns = append(s.conns, n)
}

// iarr is an index array in one of the integer types.
func (s *fbxScene) iarr(v []int32) interface{} {
	if s.r.Intn(5) > 0 {
		return v
	}
	if s.r.Intn(2) == 0 {
		l := fList{}
		for _, x := range v {
			l = append(l, x)
		}
		s.c.Obs("listed_indices")
		return l
	}
	o := []int64{}
	for _, x := range v {
		o = append(o, int64(x))
	}
	s.c.Obs("long_indices")
	return o
}

func farr(r *rand.Rand, v []float64) interface{} {
	whole := true
	for _, x := range v {
		whole = whole && x == math.Trunc(x) && math.Abs(x) < 1e6
	}
	if whole && r.Intn(3) == 0 {
		i, l := []int32{}, []int64{}
		for _, x := range v {
			i, l = append(i, int32(x)), append(l, int64(x))
		}
		return []interface{}{i, l}[r.Intn(2)]
	}
	if r.Intn(8) == 0 {
		l := fList{}
		for _, x := range v {
			l = append(l, x)
		}
		return l
	}
	if r.Intn(2) == 0 {
		return v
	}
	var o = []float32{}
	for _, x := range v {
		o = append(o, float32(x))
	}
	return o
}

func genFBX(c *C, skins, shapes bool) *fbxScene {
	r := c.R
	s := &fbxScene{r: r, c: c, nextID: int64(r.Intn(1000)), names: map[string]bool{}}
	s.version = []int{7400, 7500, 7700, 7300}[r.Intn(4)]
	// axes
	switch r.Intn(4) {
	case 0:
		s.axis, s.sign = [3]int{0, 1, 2}, [3]int{1, 1, 1}
	case 1:
		s.axis, s.sign = [3]int{0, 2, 1}, [3]int{1, 1, -1}
	default:
		p := r.Perm(3)
		s.axis = [3]int{p[0], p[1], p[2]}
		for i := range s.sign {
			s.sign[i] = 1 - 2*r.Intn(2)
		}
	}
	for i := 0; i < 3; i++ {
		s.coord[s.axis[i]*4+i] = float64(s.sign[i])
	}
	s.coord[15] = 1
	s.tplS, s.tplT, s.tplCol = V3{1, 1, 1}, V3{}, V3{0.8, 0.8, 0.8}
	if r.Intn(3) == 0 {
		s.tplS, s.tplT, s.tplCol = V3{2, 2, 2}, V3{1, -2, 3}, V3{0.25, 0.5, 0.75}
	}
	// materials
	for i := r.Intn(4); i > 0; i-- {
		s.material()
	}
	// models
	n := 1 + r.Intn(6)
	for i := 0; i < n; i++ {
		m := s.model("")
		if len(s.models) > 1 && r.Intn(2) == 0 {
			m.parent = s.models[r.Intn(len(s.models)-1)]
		}
		if i == 0 || r.Intn(3) > 0 {
			m.kind = "Mesh"
			m.geo = s.geometry()
			if len(s.mats) > 0 && r.Intn(5) > 0 {
				for _, k := range r.Perm(len(s.mats))[:1+r.Intn(len(s.mats))] {
					m.mats = append(m.mats, s.mats[k])
				}
				if r.Intn(4) > 0 {
					for range m.geo.polys {
						m.geo.mat = append(m.geo.mat, r.Intn(len(m.mats)))
					}
				}
			}
		} else {
			m.kind = []string{"Null", "Root", "LimbNode"}[r.Intn(3)]
		}
	}
	meshes := append([]*fbxModel(nil), s.models...)
	if skins {
		var limbs []*fbxModel
		for i := 1 + r.Intn(6); i > 0; i-- {
			m := s.model("LimbNode")
			if len(limbs) > 0 && r.Intn(4) > 0 {
				m.parent = limbs[r.Intn(len(limbs))]
			} else if r.Intn(3) == 0 {
				m.parent = meshes[r.Intn(len(meshes))]
			}
			limbs = append(limbs, m)
		}
		for _, m := range meshes {
			if m.geo == nil || r.Intn(4) == 0 {
				continue
			}
			for _, k := range r.Perm(len(limbs))[:1+r.Intn(len(limbs))] {
				cl := &fbxCluster{id: s.id(), bone: limbs[k]}
				if cl.bone.bind == nil && r.Intn(4) == 0 {
					b := mTRS(rv3(r, 8), rquat(r), V3{1, 1, 1})
					cl.bone.bind = &b
					s.c.Obs("bind_pose")
				}
				if r.Intn(6) == 0 {
					m.geo.clusters = append(m.geo.clusters, cl)
					continue
				}
				for v := range m.geo.verts {
					if r.Intn(3) == 0 {
						cl.idx = append(cl.idx, int32(v))
						cl.w = append(cl.w, float64(1+r.Intn(1000))/1000)
					}
				}
				r.Shuffle(len(cl.idx), func(a, b int) {
					cl.idx[a], cl.idx[b] = cl.idx[b], cl.idx[a]
					cl.w[a], cl.w[b] = cl.w[b], cl.w[a]
				})
				m.geo.clusters = append(m.geo.clusters, cl)
			}
		}
		// a mesh hanging from a bone
		if r.Intn(3) == 0 {
			m := s.model("Mesh")
			m.parent = limbs[r.Intn(len(limbs))]
			m.geo = s.geometry()
			c.Obs("mesh_below_bone")
		}
	}
	if shapes {
		for _, g := range s.geos {
			for i := r.Intn(3); i > 0; i-- {
				sh := &fbxShape{id: s.id(), name: s.name(), inner: r.Intn(4) == 0}
				for v := range g.verts {
					if r.Intn(2) == 0 {
						sh.idx = append(sh.idx, int32(v))
						sh.delta = append(sh.delta, s.rv(3))
					}
				}
				g.shapes = append(g.shapes, sh)
			}
		}
	}
	for _, m := range s.models {
		if m.parent != nil {
			m.parent.children = append(m.parent.children, m)
		}
	}
	s.build()
	return s
}

func (s *fbxScene) model(kind string) *fbxModel {
	r := s.r
	m := &fbxModel{id: s.id(), name: s.name(), kind: kind, t: s.rv(20), s: V3{1, 1, 1}}
	angle := func() V3 {
		switch r.Intn(4) {
		case 0:
			return V3{}
		case 1:
			v := V3{}
			v[r.Intn(3)] = []float64{90, -90, 180, 45, 270, -180}[r.Intn(6)]
			return v
		}
		return V3{f32(r.Float64()*360 - 180), f32(r.Float64()*360 - 180), f32(r.Float64()*360 - 180)}
	}
	m.r = angle()
	if r.Intn(3) == 0 {
		m.pre = angle()
	}
	switch r.Intn(5) {
	case 0:
		m.s = V3{f32(0.5 + r.Float64()), f32(0.5 + r.Float64()), f32(0.5 + r.Float64())}
	case 1:
		x := []float64{0.5, 2, 1.5}[r.Intn(3)]
		m.s = V3{x, x, x}
	case 2:
		m.s[r.Intn(3)] = -1
	}
	s.models = append(s.models, m)
	return m
}

func (s *fbxScene) material() {
	r := s.r
	u := func() float64 { return float64(r.Intn(101)) / 100 }
	m := &fbxMat{id: s.id(), name: s.name(), diffuse: V3{u(), u(), u()}, opacity: 1, dfac: u(), spec: u(), sfac: u(), amb: u(), afc: u(), power: float64(r.Intn(100))}
	if r.Intn(2) == 0 {
		m.opacity = u()
	}
	s.mats = append(s.mats, m)
}

func (s *fbxScene) geometry() *fbxGeo {
	r := s.r
	g := &fbxGeo{id: s.id(), name: s.name()}
	nv := 3 + r.Intn(12)
	for i := 0; i < nv; i++ {
		g.verts = append(g.verts, V3{f32(r.NormFloat64() * 10), f32(r.NormFloat64() * 10), f32(r.NormFloat64() * 10)})
	}
	for i := 1 + r.Intn(8); i > 0; i-- {
		k := 3
		if r.Intn(2) == 0 {
			k = 3 + r.Intn(min(nv, 6)-2)
		}
		g.polys = append(g.polys, append([]int(nil), r.Perm(nv)[:k]...))
	}
	s.geos = append(s.geos, g)
	return g
}

// layer encodes per polygon vertex values with one of the mappings. values[p][k]
// is filled by draw, which is told how many distinct elements there are.
func (s *fbxScene) layer(g *fbxGeo, dim int, direct string, draw func() []float64, elem, arr, idx string, names []string) (out [][][]float64, node *fN) {
	r := s.r
	mapping := []string{"ByPolygonVertex", "ByPolygonVertex", "ByVertice", "ByControlPoint", "ByPolygon", "AllSame"}[r.Intn(6)]
	indexed := r.Intn(2) == 0
	total := 0
	for _, p := range g.polys {
		total += len(p)
	}
	slots := map[string]int{"ByPolygonVertex": total, "ByVertice": len(g.verts), "ByControlPoint": len(g.verts), "ByPolygon": len(g.polys), "AllSame": 1}[mapping]
	var vals [][]float64
	var ix []int32
	if indexed {
		for i := 1 + r.Intn(slots+2); i > 0; i-- {
			vals = append(vals, draw())
		}
		for i := 0; i < slots; i++ {
			ix = append(ix, int32(r.Intn(len(vals))))
		}
	} else {
		for i := 0; i < slots; i++ {
			vals = append(vals, draw())
			ix = append(ix, int32(i))
		}
	}
	n := 0
	for pi, p := range g.polys {
		var o [][]float64
		for _, v := range p {
			slot := 0
			switch mapping {
			case "ByPolygonVertex":
				slot = n
			case "ByVertice", "ByControlPoint":
				slot = v
			case "ByPolygon":
				slot = pi
			}
			o = append(o, vals[ix[slot]])
			n++
		}
		out = append(out, o)
	}
	var flat []float64
	for _, v := range vals {
		flat = append(flat, v...)
	}
	ref := "Direct"
	if indexed {
		ref = "IndexToDirect"
	}
	node = fnode(elem, int32(0)).add(fnode("Version", int32(101)), fnode("Name", "layer"),
		fnode("MappingInformationType", mapping), fnode("ReferenceInformationType", ref), fnode(arr, farr(r, flat)))
	if indexed {
		node.add(fnode(idx, s.iarr(ix)))
	}
	s.c.Obs(elem + "_" + mapping + "_" + ref)
	if mapping == "ByVertice" && r.Intn(2) == 0 {
		node.child("MappingInformationType").A[0] = "ByVertex" // the other spelling
		s.c.Obs("ByVertex")
	}
	return
}

func (s *fbxScene) cname(name, class string) string { return name + "\x00\x01" + class }

func (s *fbxScene) build() {
	r := s.r
	for _, g := range s.geos {
		s.objs = append(s.objs, s.geoNode(g))
	}
	tex := 0
	var extra [][]*fN
	for _, m := range s.mats {
		pr := fnode("Properties70").add(s.p("DiffuseFactor", "Number", "", "A", m.dfac),
			s.p("SpecularColor", "Color", "", "A", m.spec, m.spec, m.spec), s.p("SpecularFactor", "Number", "", "A", m.sfac),
			s.p("AmbientColor", "Color", "", "A", m.amb, m.amb, m.amb), s.p("AmbientFactor", "Number", "", "A", m.afc),
			s.p("ShininessExponent", "Number", "", "A", m.power))
		if r.Intn(4) == 0 {
			m.diffuse = s.tplCol
			s.c.Obs("template_color")
		} else {
			pr.add(s.p("DiffuseColor", "Color", "", "A", m.diffuse[0], m.diffuse[1], m.diffuse[2]))
		}
		if m.opacity != 1 {
			pr.add(s.p("Opacity", "double", "Number", "", m.opacity))
		}
		s.objs = append(s.objs, fnode("Material", m.id, s.cname(m.name, "Material"), "").add(fnode("Version", int32(102)), fnode("ShadingModel", "phong"), pr))
		// textures, the diffuse one not always first
		props := []string{"NormalMap", "SpecularColor", "DiffuseColor", "Bump"}
		var use []string
		if r.Intn(2) == 0 {
			use = append(use, "DiffuseColor")
			if r.Intn(2) == 0 {
				use = append(use, props[r.Intn(2)])
			}
			r.Shuffle(len(use), func(a, b int) { use[a], use[b] = use[b], use[a] })
		}
		for _, p := range use {
			tex++
			id := s.id()
			file := fmt.Sprintf("%s%d.png", []string{"tex", "textures/t", "頭", "..\\t\\x", "a b"}[r.Intn(5)], tex)
			if p == "DiffuseColor" {
				m.texture = file
				if len(use) > 1 && use[0] != p {
					s.c.Obs("diffuse_texture_second")
				}
			}
			s.objs = append(s.objs, fnode("Texture", id, s.cname(fmt.Sprint("t", tex), "Texture"), "").add(fnode("Type", "TextureVideoClip"), fnode("FileName", "C:\\x\\"+file), fnode("RelativeFilename", file)))
			s.connect("OP", id, m.id, p)
		}
	}
	for _, m := range s.models {
		pr := fnode("Properties70")
		add := func(n *fN, v, def V3) {
			if v == def && r.Intn(2) == 0 {
				s.c.Obs("template_transform")
				return
			}
			pr.add(n)
		}
		if r.Intn(6) == 0 {
			m.t = s.tplT
		}
		if r.Intn(6) == 0 {
			m.s = s.tplS
		}
		add(s.p("Lcl Translation", "Lcl Translation", "", "A", m.t[0], m.t[1], m.t[2]), m.t, s.tplT)
		add(s.p("Lcl Rotation", "Lcl Rotation", "", "A", m.r[0], m.r[1], m.r[2]), m.r, V3{})
		add(s.p("Lcl Scaling", "Lcl Scaling", "", "A", m.s[0], m.s[1], m.s[2]), m.s, s.tplS)
		add(s.p("PreRotation", "Vector3D", "Vector", "", m.pre[0], m.pre[1], m.pre[2]), m.pre, V3{})
		if r.Intn(3) == 0 {
			pr.add(s.p("DefaultAttributeIndex", "int", "Integer", "", 0), fnode("P", "Visibility", "Visibility", "", "A", 1.0), fnode("P", "UDP3DSMAX", "KString", "", "U", "a = \"1\""))
		}
		s.objs = append(s.objs, fnode("Model", m.id, s.cname(m.name, "Model"), m.kind).add(fnode("Version", int32(232)), pr, fnode("Culling", "CullingOff")))
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(s.objs), func(a, b int) { s.objs[a], s.objs[b] = s.objs[b], s.objs[a] })
		// materials are numbered in file order
		var ms []*fbxMat
		for _, o := range s.objs {
			for _, m := range s.mats {
				if o.A[0] == m.id {
					ms = append(ms, m)
				}
			}
		}
		s.mats = ms
	}
	for _, m := range s.models {
		p := int64(0)
		if m.parent != nil {
			p = m.parent.id
		}
		s.connect("OO", m.id, p)
		if m.geo != nil {
			s.connect("OO", m.geo.id, m.id)
		}
		for _, t := range m.mats {
			s.connect("OO", t.id, m.id)
		}
		if m.geo == nil {
			continue
		}
		g := m.geo
		if len(g.clusters) > 0 {
			skin := s.id()
			s.objs = append(s.objs, fnode("Deformer", skin, s.cname("", "Deformer"), "Skin").add(fnode("Version", int32(101))))
			s.connect("OO", skin, g.id)
			for _, cl := range g.clusters {
				n := fnode("Deformer", cl.id, s.cname("Cluster "+cl.bone.name, "SubDeformer"), "Cluster").add(fnode("Version", int32(100)))
				if len(cl.idx) > 0 {
					n.add(fnode("Indexes", s.iarr(cl.idx)), fnode("Weights", cl.w))
				} else if r.Intn(2) == 0 {
					n.add(fnode("Indexes", []int32{}), fnode("Weights", []float64{}))
					s.c.Obs("empty_cluster")
				}
				w := cl.bone.world()
				if cl.bone.bind != nil {
					w = *cl.bone.bind
				}
				wi, _ := w.inverse()
				n.add(fnode("Transform", fslice(wi.mul(m.world()))), fnode("TransformLink", fslice(w)))
				s.objs = append(s.objs, n)
				s.connect("OO", cl.id, skin)
				s.connect("OO", cl.bone.id, cl.id)
			}
		}
		ext := 0
		for _, sh := range g.shapes {
			if !sh.inner {
				ext++
			}
		}
		if ext > 0 {
			bs := s.id()
			s.objs = append(s.objs, fnode("Deformer", bs, s.cname("bs", "Deformer"), "BlendShape").add(fnode("Version", int32(100))))
			s.connect("OO", bs, g.id)
			for _, sh := range g.shapes {
				if sh.inner {
					continue
				}
				ch := s.id()
				s.objs = append(s.objs, fnode("Deformer", ch, s.cname(sh.name, "SubDeformer"), "BlendShapeChannel").add(fnode("Version", int32(100)), fnode("DeformPercent", 0.0), fnode("FullWeights", []float64{100})))
				s.connect("OO", ch, bs)
				s.objs = append(s.objs, fnode("Geometry", sh.id, s.cname(sh.name, "Geometry"), "Shape").add(fnode("Version", int32(100)), fnode("Indexes", s.iarr(sh.idxs())), fnode("Vertices", farr(r, sh.flat()))))
				s.connect("OO", sh.id, ch)
			}
		}
	}
	_ = extra
	gs := fnode("Properties70").add(
		s.p("UpAxis", "int", "Integer", "", float64(s.axis[1])), s.p("UpAxisSign", "int", "Integer", "", float64(s.sign[1])),
		s.p("FrontAxis", "int", "Integer", "", float64(s.axis[2])), s.p("FrontAxisSign", "int", "Integer", "", float64(s.sign[2])),
		s.p("CoordAxis", "int", "Integer", "", float64(s.axis[0])), s.p("CoordAxisSign", "int", "Integer", "", float64(s.sign[0])))
	tpl := func(typ, cls string, ps ...*fN) *fN {
		return fnode("ObjectType", typ).add(fnode("Count", int32(1)), fnode("PropertyTemplate", cls).add(fnode("Properties70").add(ps...)))
	}
	s.top = []*fN{
		fnode("FBXHeaderExtension").add(fnode("FBXHeaderVersion", int32(1003)), fnode("FBXVersion", int32(s.version)), fnode("Creator", "verif \"quoted\"")),
		fnode("FileId", []byte("0123456789abcdef")),
		fnode("CreationTime", "1970-01-01 10:00:00:000"),
		fnode("Creator", "someone"),
		fnode("GlobalSettings").add(fnode("Version", int32(1000)), gs),
		fnode("Documents").add(fnode("Count", int32(1)), fnode("Document", int64(5), "", "Scene").add(fnode("RootNode", int64(0)))),
		fnode("References"),
		fnode("Definitions").add(fnode("Version", int32(100)), fnode("Count", int32(3)),
			fnode("ObjectType", "GlobalSettings").add(fnode("Count", int32(1))),
			tpl("Model", "FbxNode", s.p("Lcl Translation", "Lcl Translation", "", "A", s.tplT[0], s.tplT[1], s.tplT[2]), s.p("Lcl Scaling", "Lcl Scaling", "", "A", s.tplS[0], s.tplS[1], s.tplS[2])),
			tpl("Material", "FbxSurfacePhong", s.p("DiffuseColor", "Color", "", "A", s.tplCol[0], s.tplCol[1], s.tplCol[2])),
			fnode("ObjectType", "Geometry").add(fnode("Count", int32(1)))),
		fnode("Objects").add(s.objs...),
		fnode("Connections").add(s.conns...),
		fnode("Takes").add(fnode("Current", "")),
	}
}

func fslice(m M4) []float64 { return append([]float64(nil), m[:]...) }

func (sh *fbxShape) idxs() []int32 { return append([]int32{}, sh.idx...) }
func (sh *fbxShape) flat() []float64 {
	o := []float64{}
	for _, d := range sh.delta {
		o = append(o, d[:]...)
	}
	return o
}

func (s *fbxScene) geoNode(g *fbxGeo) *fN {
	r := s.r
	var flat []float64
	for _, v := range g.verts {
		flat = append(flat, v[:]...)
	}
	var ix []int32
	for _, p := range g.polys {
		for k, v := range p {
			if k == len(p)-1 {
				v = ^v
			}
			ix = append(ix, int32(v))
		}
	}
	n := fnode("Geometry", g.id, s.cname(g.name, "Geometry"), "Mesh").add(fnode("Properties70"), fnode("Vertices", farr(r, flat)), fnode("PolygonVertexIndex", s.iarr(ix)), fnode("GeometryVersion", int32(124)))
	layer := fnode("Layer", int32(0)).add(fnode("Version", int32(100)))
	el := func(t string) {
		layer.add(fnode("LayerElement").add(fnode("Type", t), fnode("TypedIndex", int32(0))))
	}
	if r.Intn(4) > 0 {
		vals, node := s.layer(g, 3, "", func() []float64 {
			u := rv3(r, 1).unit()
			return []float64{f32(u[0]), f32(u[1]), f32(u[2])}
		}, "LayerElementNormal", "Normals", "NormalsIndex", nil)
		for _, p := range vals {
			var o []V3
			for _, v := range p {
				o = append(o, V3{v[0], v[1], v[2]})
			}
			g.normals = append(g.normals, o)
		}
		n.add(node)
		el("LayerElementNormal")
	}
	if r.Intn(4) > 0 {
		vals, node := s.layer(g, 2, "", func() []float64 {
			return []float64{float64(r.Intn(4001)-1000) / 1000, float64(r.Intn(4001)-1000) / 1000}
		}, "LayerElementUV", "UV", "UVIndex", nil)
		for _, p := range vals {
			var o [][2]float64
			for _, v := range p {
				o = append(o, [2]float64{v[0], v[1]})
			}
			g.uvs = append(g.uvs, o)
		}
		n.add(node)
		el("LayerElementUV")
	}
	if g.mat != nil {
		all := r.Intn(3) == 0
		if all {
			for i := range g.mat {
				g.mat[i] = g.mat[0]
			}
		}
		var m []int32
		for _, v := range g.mat {
			m = append(m, int32(v))
		}
		mapping := "ByPolygon"
		if all {
			m, mapping = m[:1], "AllSame"
		}
		s.c.Obs("material_" + mapping)
		n.add(fnode("LayerElementMaterial", int32(0)).add(fnode("Version", int32(101)), fnode("Name", ""), fnode("MappingInformationType", mapping), fnode("ReferenceInformationType", "IndexToDirect"), fnode("Materials", s.iarr(m))))
		el("LayerElementMaterial")
	}
	n.add(layer)
	for _, sh := range g.shapes {
		if sh.inner {
			n.add(fnode("Shape", sh.name).add(fnode("Indexes", s.iarr(sh.idxs())), fnode("Vertices", farr(r, sh.flat()))))
			s.c.Obs("inner_shape")
		}
	}
	return n
}

var _ = strings.Repeat
