package main

// Inputs whose sizes cross the limits of 8- and 16-bit counters, of common
// buffer sizes and of fixed recursion depths.

import (
	"bytes"
	"fmt"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

// A grid of w x h vertices at integer coordinates; vertex v is at (v%w, v/w).
type gridDim struct{ w, h int }

func (g gridDim) n() int { return g.w * g.h }

// order returns the cells' corners in the given direction.
func (g gridDim) cell(i, j int) [4]int {
	v := j*g.w + i
	return [4]int{v, v + 1, v + g.w + 1, v + g.w}
}

// largeGrid has more than 65536 vertices.
func largeGrid(c *C) gridDim {
	return gridDim{290 + c.R.Intn(30), 232 + c.R.Intn(10)}
}

// checkGrid asserts that the triangles (corners in grid coordinates) tile the
// grid and that each turns in the direction of sign.
func checkGrid(c *C, g gridDim, tris [][3]V3, sign float64) {
	if len(tris) != 2*(g.w-1)*(g.h-1) {
		c.Fatalf("a grid of %dx%d vertices has %d triangles, want %d", g.w, g.h, len(tris), 2*(g.w-1)*(g.h-1))
	}
	missing := make([][]int, (g.w-1)*(g.h-1))
	for k, t := range tris {
		mi, mj := math.Inf(1), math.Inf(1)
		for _, p := range t {
			mi, mj = math.Min(mi, math.Round(p[0])), math.Min(mj, math.Round(p[1]))
		}
		sum := 0
		for _, p := range t {
			i, j := math.Round(p[0])-mi, math.Round(p[1])-mj
			if !(math.Abs(p[0]-math.Round(p[0])) < 0.05 && math.Abs(p[1]-math.Round(p[1])) < 0.05 && i <= 1 && j <= 1) {
				c.Fatalf("triangle %d of a large grid has the corners %v", k, t)
			}
			sum += []int{0, 1, 3, 2}[int(i)+2*int(j)]
		}
		a := (t[1][0]-t[0][0])*(t[2][1]-t[0][1]) - (t[1][1]-t[0][1])*(t[2][0]-t[0][0])
		if !(math.Abs(a-sign) < 0.2) {
			c.Fatalf("triangle %d of a large grid has the signed area %g, want %g: %v", k, a/2, sign/2, t)
		}
		cell := int(mj)*(g.w-1) + int(mi)
		if cell < 0 || cell >= len(missing) {
			c.Fatalf("triangle %d is outside of the grid: %v", k, t)
		}
		missing[cell] = append(missing[cell], 6-sum) // the corner (in order) it lacks
	}
	for i, m := range missing {
		if len(m) != 2 || (m[0]+2)%4 != m[1] {
			c.Fatalf("cell %d of a large grid is covered by %d triangles (lacking the corners %v)", i, len(m), m)
		}
	}
	c.Obs("large_grid")
}

func gridMQO(c *C, g gridDim) (*mqo.Document, *mqo.Object) {
	d := mqo.NewDocument()
	d.Materials = append(d.Materials, &mqo.Material{Name: "mat", Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}})
	o := mqo.NewObject("grid")
	o.UID = 1
	o.Visible = true
	d.Objects = append(d.Objects, o)
	for v := 0; v < g.n(); v++ {
		o.Vertexes = append(o.Vertexes, &geom.Vector3{X: float32(v % g.w), Y: float32(v / g.w), Z: float32(v % 7)})
	}
	uv := c.R.Intn(2) == 0
	for j := 0; j+1 < g.h; j++ {
		for i := 0; i+1 < g.w; i++ {
			q := g.cell(i, j)
			f := &mqo.Face{Verts: q[:]}
			if c.R.Intn(2) == 0 { // two triangles
				o.Faces = append(o.Faces, &mqo.Face{Verts: []int{q[0], q[1], q[2]}})
				f.Verts = []int{q[0], q[2], q[3]}
			}
			o.Faces = append(o.Faces, f)
		}
	}
	if uv {
		for _, f := range o.Faces {
			for _, v := range f.Verts {
				f.UVs = append(f.UVs, geom.Vector2{X: o.Vertexes[v].X, Y: o.Vertexes[v].Y})
			}
		}
	}
	return d, o
}

// gltfLargeCase: P13 and P14.
func gltfLargeCase(c *C) {
	g := largeGrid(c)
	d, _ := gridMQO(c, g)
	doc := convertGltf(c, d, &converter.MQOToGLTFOption{Scale: 1}, c.Dir())
	checkGltf(c, doc)
	w, _ := doc.worlds()
	var tris [][3]V3
	for ni, n := range doc.Nodes {
		if n.Mesh == nil {
			continue
		}
		for _, l := range doc.triangles(c, ni, w[ni]) {
			for _, t := range l {
				tris = append(tris, [3]V3{t[0].pos, t[1].pos, t[2].pos})
				for _, k := range t {
					if z := float64((int(math.Round(k.pos[1]))*g.w + int(math.Round(k.pos[0]))) % 7); k.pos[2] != z {
						c.Fatalf("large grid: corner at %v, want z=%g", k.pos, z)
					}
					if k.hasUV && (k.uv[0] != k.pos[0] || k.uv[1] != k.pos[1]) {
						c.Fatalf("large grid: corner at %v has the UV %v", k.pos, k.uv)
					}
				}
			}
		}
	}
	checkGrid(c, g, tris, -1) // MQO faces are clockwise
	c.Sig("large %v", g)
}

// largeBones adds a skeleton of several hundred bones, part of which is one long chain.
func largeBones(c *C, d *mqo.Document) {
	r := c.R
	bp := mqo.GetBonePlugin(d)
	n := 270 + r.Intn(80)
	var ids []int
	for i := 0; i < n; i++ {
		b := &mqo.Bone{ID: 1000 + i, Name: fmt.Sprintf("big%d", i), Pos: mqo.Vector3Attr{Vector3: *rv3(r, 300).g()}}
		if i > 0 && (i < 100 || r.Intn(4) > 0) {
			b.Parent = ids[i-1]
			if i >= 100 {
				b.Parent = ids[r.Intn(i)]
			}
		}
		ids = append(ids, b.ID)
		bp.AddBone(b)
	}
	o := mqo.NewObject("bigobject")
	o.Visible = true
	for _, x := range d.Objects {
		o.UID = max(o.UID, x.UID)
	}
	o.UID++
	for i := 0; i < n; i++ {
		p := rv3(r, 100)
		for k := 0; k < 3; k++ {
			o.Vertexes = append(o.Vertexes, p.add(V3{float64(k % 2 * 3), float64(k / 2 * 3), float64(i)}).g())
		}
		f := &mqo.Face{Verts: []int{i * 3, i*3 + 1, i*3 + 2}}
		for k := range f.Verts {
			f.UVs = append(f.UVs, geom.Vector2{X: float32(1000000 + i*3 + k), Y: r.Float32()})
		}
		o.Faces = append(o.Faces, f)
	}
	d.Objects = append(d.Objects, o)
	bs := bp.Bones()
	bs = bs[len(bs)-n:]
	shift := append([]int{0}, r.Perm(n - 1)[:1+r.Intn(6)]...)
	for i, b := range bs {
		for j, s := range shift {
			if j > 0 {
				s++
			}
			for k := 0; k < 3; k++ {
				b.SetVertexWeight(o.UID, (i+s)%n*3+k+1, float32(1+r.Intn(50)))
			}
		}
	}
	c.Obs("many_bones")
}

// mqo2mmdLargeCase: P11.
func mqo2mmdLargeCase(c *C) {
	g := largeGrid(c)
	d, o := gridMQO(c, g)
	b := &mqo.Bone{ID: 1, Name: "bone"}
	for _, v := range []int{0, 65535, 65536, g.n() - 1} {
		b.SetVertexWeight(o.UID, v+1, 100)
	}
	mqo.GetBonePlugin(d).AddBone(b)
	m, err := converter.NewMQOToMMDConverter(nil).Convert(d)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	if c.R.Intn(2) == 0 {
		m = pmxAgain(c, m)
	}
	at := func(v *mmd.Vertex) V3 {
		return V3{float64(v.Pos.X) * 80, float64(v.Pos.Y) * 80, float64(v.Pos.Z) * -80}
	}
	var tris [][3]V3
	for _, f := range m.Faces {
		var t [3]V3
		for k, v := range f.Verts {
			if v < 0 || v >= len(m.Vertexes) {
				c.Fatalf("a face has vertex %d of %d", v, len(m.Vertexes))
			}
			t[k] = at(m.Vertexes[v])
		}
		tris = append(tris, t)
	}
	checkGrid(c, g, tris, 1)
	for _, v := range m.Vertexes {
		p := at(v)
		id := int(math.Round(p[1]))*g.w + int(math.Round(p[0]))
		want := id == 0 || id == 65535 || id == 65536 || id == g.n()-1
		got := false
		for k, w := range v.BoneWeights {
			got = got || w != 0 && v.Bones[k] == 0 && w == 1
		}
		if want != got && (want || len(v.BoneWeights) > 0) {
			c.Fatalf("large grid: vertex %d has the bones %v %v", id, v.Bones, v.BoneWeights)
		}
	}
	c.Sig("large %v", g)
}

func pmxAgain(c *C, m *mmd.Document) *mmd.Document {
	var b bytes.Buffer
	if err := mmd.WritePMX(m, &b); err != nil {
		c.Fatalf("%v", err)
	}
	m, err := mmd.Parse(&b)
	if err != nil {
		c.Fatalf("%v", err)
	}
	return m
}

// mmd2mqoLargeCase: P10.
func mmd2mqoLargeCase(c *C) {
	g := largeGrid(c)
	m := mmd.NewDocument()
	m.Bones = append(m.Bones, &mmd.Bone{Name: "bone", ParentID: -1, TailID: -1})
	for v := 0; v < g.n(); v++ {
		m.Vertexes = append(m.Vertexes, &mmd.Vertex{Pos: geom.Vector3{X: float32(v % g.w), Y: float32(v / g.w)}, Normal: geom.Vector3{Z: -1},
			UV: geom.Vector2{X: float32(v % g.w), Y: float32(v / g.w)}, Bones: []int{0}, BoneWeights: []float32{1}, EdgeScale: 1})
	}
	for j := 0; j+1 < g.h; j++ {
		for i := 0; i+1 < g.w; i++ {
			q := g.cell(i, j)
			m.Faces = append(m.Faces, &mmd.Face{Verts: [3]int{q[0], q[1], q[2]}}, &mmd.Face{Verts: [3]int{q[0], q[2], q[3]}})
		}
	}
	m.Materials = append(m.Materials, &mmd.Material{Name: "mat", TextureID: -1, EnvID: -1, Toon: -1, Count: len(m.Faces) * 3})
	last := g.n() - 1
	m.Morphs = append(m.Morphs, &mmd.Morph{Name: "morph", MorphType: 1, Vertex: []*mmd.MorphVertex{{Target: last, Offset: geom.Vector3{Y: 0.5}}, {Target: 65536, Offset: geom.Vector3{Y: 0.25}}}})
	d := converter.NewMMDToMQOConverter(nil).Convert(m)
	var tris [][3]V3
	weighted := map[[2]float64]float32{}
	var moved []V3
	for _, o := range d.Objects {
		if !o.Visible {
			for _, v := range o.Vertexes {
				if v.Y != float32(int(v.Y)) {
					moved = append(moved, v3(v))
				}
			}
			continue
		}
		for _, f := range o.Faces {
			if len(f.Verts) != 3 {
				c.Fatalf("a triangle became %d corners", len(f.Verts))
			}
			var t [3]V3
			for k, v := range f.Verts {
				t[k] = v3(o.Vertexes[v])
				if len(f.UVs) != 3 || float64(f.UVs[k].X) != t[k][0] || float64(f.UVs[k].Y) != t[k][1] {
					c.Fatalf("large grid: corner at %v has the UV %v", t[k], f.UVs)
				}
			}
			tris = append(tris, t)
		}
		for _, b := range mqo.GetBonePlugin(d).Bones() {
			for _, w := range b.Weights {
				if w.ObjectID == o.UID {
					for _, vw := range w.Vertexes {
						if vi := o.GetVertexIndexByID(vw.VertexID); vi >= 0 && vi < len(o.Vertexes) {
							p := v3(o.Vertexes[vi])
							weighted[[2]float64{p[0], p[1]}] += vw.Weight
						}
					}
				}
			}
		}
	}
	checkGrid(c, g, tris, 1)
	if len(weighted) != g.n() {
		c.Fatalf("%d of %d vertices of a large grid have weights", len(weighted), g.n())
	}
	for p, w := range weighted {
		if w != 100 {
			c.Fatalf("large grid: the vertex at %v weighs %g", p, w)
		}
	}
	if len(moved) != 2 {
		c.Fatalf("large grid: the morph moves %v", moved)
	}
	for _, p := range moved {
		dy, id := 0.5, last
		if p[1]-math.Floor(p[1]) == 0.25 {
			dy, id = 0.25, 65536
		}
		if p[0] != float64(id%g.w) || p[1] != float64(id/g.w)+dy {
			c.Fatalf("large grid: the morph moves a vertex to %v", p)
		}
	}
	c.Sig("large %v", g)
}

// gltf2mqoLargeCase: P20.
func gltf2mqoLargeCase(c *C) {
	g := largeGrid(c)
	doc := gltf.NewDocument()
	pos := make([][3]float32, g.n())
	for v := range pos {
		pos[v] = [3]float32{float32(v % g.w), float32(v / g.w), 0}
	}
	var ix []uint32
	mode := gltf.PrimitiveTriangles
	kind := c.R.Intn(3)
	var prims []*gltf.Primitive
	p := modeler.WritePosition(doc, pos)
	if kind < 2 {
		for j := 0; j+1 < g.h; j++ {
			for i := 0; i+1 < g.w; i++ {
				q := g.cell(i, j)
				ix = append(ix, uint32(q[0]), uint32(q[1]), uint32(q[2]), uint32(q[0]), uint32(q[2]), uint32(q[3]))
			}
		}
		prims = append(prims, &gltf.Primitive{Attributes: map[string]uint32{"POSITION": p}, Indices: gltf.Index(modeler.WriteIndices(doc, ix)), Mode: mode})
	} else { // one strip per row (a copy of the vertices per row is expensive)
		for j := 0; j < 8; j++ {
			ix = nil
			for i := 0; i < g.w; i++ {
				v := j*g.w + i
				ix = append(ix, uint32(v+g.w), uint32(v))
			}
			prims = append(prims, &gltf.Primitive{Attributes: map[string]uint32{"POSITION": p}, Indices: gltf.Index(modeler.WriteIndices(doc, ix)), Mode: gltf.PrimitiveTriangleStrip})
		}
		g.h = 9
		c.Obs("long_strip")
	}
	doc.Meshes = []*gltf.Mesh{{Name: "grid", Primitives: prims}}
	// a fan around the origin, deep in the tree
	n := 200 + c.R.Intn(100)
	fan := [][3]float32{{0, 0, 0}}
	for i := 0; i <= n; i++ {
		a := float64(i) * 2 * math.Pi / float64(n)
		fan = append(fan, [3]float32{float32(math.Cos(a)), float32(math.Sin(a)), 0})
	}
	doc.Meshes = append(doc.Meshes, &gltf.Mesh{Name: "fan", Primitives: []*gltf.Primitive{{Attributes: map[string]uint32{"POSITION": modeler.WritePosition(doc, fan)}, Mode: gltf.PrimitiveTriangleFan}}})
	doc.Nodes = []*gltf.Node{{Name: "grid", Mesh: gltf.Index(0)}}
	depth := 40 + c.R.Intn(300)
	for i := 0; i < depth; i++ {
		k := uint32(len(doc.Nodes))
		nd := &gltf.Node{Name: fmt.Sprint("n", i), Translation: [3]float32{1, 0, 0}}
		if i+1 < depth {
			nd.Children = []uint32{k + 1}
		} else {
			nd.Mesh = gltf.Index(1)
		}
		doc.Nodes = append(doc.Nodes, nd)
	}
	doc.Scenes[0].Nodes = []uint32{0, 1}
	in := filepath.Join(c.Dir(), "in.glb")
	must(gltf.SaveBinary(doc, in))
	src, err := gltfutil.Load(in)
	if err != nil {
		c.Fatalf("%v", err)
	}
	d, err := converter.NewGLTFToMQOConverter(nil).Convert(src)
	if err != nil {
		c.Fatalf("%v", err)
	}
	if len(d.Objects) != 2 {
		c.Fatalf("%d objects, want 2", len(d.Objects))
	}
	var tris [][3]V3
	for _, f := range d.Objects[0].Faces {
		var t [3]V3
		for k, v := range f.Verts {
			t[k] = v3(d.Objects[0].Vertexes[v])
		}
		tris = append(tris, t)
	}
	checkGrid(c, g, tris, -1) // MQO faces are clockwise
	o := d.Objects[1]
	area := 0.0
	for _, f := range o.Faces {
		a := faceArea(o, f)
		area -= a[2] / 2
		zero := 0
		for _, v := range f.Verts {
			p := v3(o.Vertexes[v]).sub(V3{float64(depth), 0, 0})
			if p.len() < 1e-3 {
				zero++
			} else if math.Abs(p.len()-1) > 1e-3 {
				c.Fatalf("fan %d levels deep: corner at %v", depth, v3(o.Vertexes[v]))
			}
		}
		if zero != 1 {
			c.Fatalf("a triangle of the fan has %d corners in its centre", zero)
		}
	}
	if len(o.Faces) != n || math.Abs(area-float64(n)/2*math.Sin(2*math.Pi/float64(n))) > 2e-3 {
		c.Fatalf("a fan of %d triangles became %d triangles of area %g", n, len(o.Faces), area)
	}
	c.Obs("long_fan")
	c.Sig("large %v %d %d %d", g, kind, n, depth)
}

// longTextCase: P04.
func longTextCase(c *C) {
	d := genPMX(c.R, pmxGen{verts: 3, faces: 1, mats: 2})
	d.Comment = strings.Repeat("コメントab\r\n", 400+c.R.Intn(9000))
	d.Materials[0].Memo = strings.Repeat("memo", 1100+c.R.Intn(9000))
	o := pmxOpts{utf16: c.R.Intn(2) == 0, sz: randSizes(c.R, d)}
	got, err := mmd.Parse(hostileReader(c, encPMX(d, o, c.R)))
	if err != nil {
		c.Fatalf("valid PMX rejected: %v", err)
	}
	if df := cmpPMX(d, got); len(df) > 0 {
		c.Fatalf("long texts: %.300s", fmt.Sprint(df))
	}
	c.Obs("long_text")
	c.Sig("text %d %d", len(d.Comment), len(d.Materials[0].Memo))
}

// vmdLargeCase: P17.
func vmdLargeCase(c *C) {
	r := c.R
	a := &mmd.Animation{Name: "large"}
	names := []string{"センター", "首", "b2"}
	nb, nm := 66000+r.Intn(3000), 10+r.Intn(10)
	if r.Intn(2) == 0 {
		nb, nm = nm, nb
	}
	for i := 0; i < nb; i++ {
		a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: names[i%3], Frame: i / 3 * 2, Position: geom.Vector3{X: float32(i)}, Rotation: geom.Vector4{W: 1}})
	}
	for i := 0; i < nm; i++ {
		a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: names[i%3], Frame: i / 3 * 3, Value: float32(i%1000) / 1000})
	}
	g, err := mmd.NewVMDParser(bytes.NewReader(encVMD(r, a, r.Intn(2) == 0))).Parse()
	if err != nil {
		c.Fatalf("a valid motion was rejected: %v", err)
	}
	if len(g.Bone) != nb || len(g.Morph) != nm {
		c.Fatalf("motion with %d+%d samples loaded with %d+%d", nb, nm, len(g.Bone), len(g.Morph))
	}
	bc, mc := g.GetBoneChannels(), g.GetMorphChannels()
	for t, n := range names {
		want := func(total int) int { return (total - t + 2) / 3 }
		if bc[n] == nil || mc[n] == nil || len(bc[n].Frames) != want(nb) || len(mc[n].Frames) != want(nm) {
			c.Fatalf("the channels of %q do not have %d+%d keys", n, want(nb), want(nm))
		}
		for i, f := range bc[n].Frames {
			if int(f) != i*2 || bc[n].Positions[i].X != float32(i*3+t) {
				c.Fatalf("channel %q: key %d at frame %d is %v", n, i, f, *bc[n].Positions[i])
			}
		}
		for i, f := range mc[n].Frames {
			if int(f) != i*3 || mc[n].Weights[i] != float32((i*3+t)%1000)/1000 {
				c.Fatalf("morph channel %q: key %d at frame %d is %v", n, i, f, mc[n].Weights[i])
			}
		}
	}
	c.Obs("many_keys")
	c.Sig("large %d %d", nb, nm)
}

// fbxLargeTop: long texts, names and arrays (P21 and P22).
func fbxLargeTop(c *C) []*fN {
	r := c.R
	top := []*fN{fnode("FBXHeaderExtension").add(fnode("FBXVersion", int32(7400)))}
	blob := make([]byte, 66000+r.Intn(5000))
	r.Read(blob)
	n := 66000 + r.Intn(5000)
	i32, f64 := make([]int32, n), make([]float64, n)
	for i := range i32 {
		i32[i], f64[i] = int32(i-40000), float64(i)+0.5
	}
	top = append(top, fnode("Text", strings.Repeat("long text ", 6600+r.Intn(500))), fnode("Blob", blob), fnode("Ints", i32), fnode("Floats", f64))
	name := strings.Repeat("N", 100+r.Intn(156))
	top = append(top, fnode(name, "x"))
	deep := fnode("Deep", int64(1))
	top = append(top, deep)
	for i := 0; i < 60+r.Intn(100); i++ {
		n := fnode("Deep", int64(i))
		deep.add(n)
		deep = n
	}
	many := fnode("Many")
	for i := 0; i < 1000+r.Intn(500); i++ {
		many.add(fnode("Child", int64(i)<<32, "c"))
		many.A = append(many.A, int64(i)<<33)
	}
	c.Obs("large_tree")
	return append(top, many, fnode("Last", "end"))
}

// bigTextures are copied bit for bit (P16).
func bigTextureCase(c *C) {
	r := c.R
	d, o := gridMQO(c, gridDim{3, 3})
	dir := c.Dir()
	var files [][]byte
	for k := 0; k < 2; k++ {
		t := writeTextureSize(c, dir, []string{"png", "jpg"}[k], fmt.Sprintf("big%d.%s", k, []string{"png", "jpg"}[k]), 150+r.Intn(450), 150+r.Intn(450))
		files = append(files, t)
		d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprint("big", k), Texture: fmt.Sprintf("big%d.%s", k, []string{"png", "jpg"}[k]), Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}})
	}
	for i, f := range o.Faces {
		f.Material = 1 + i%2
	}
	g := convertGltf(c, d, nil, dir)
	if len(g.Images) != 2 {
		c.Fatalf("%d images, want 2", len(g.Images))
	}
	for i := range g.Images {
		data, err := g.viewData(*g.Images[i].BufferView)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if !bytes.Equal(data, files[0]) && !bytes.Equal(data, files[1]) {
			c.Fatalf("image %d of %d bytes is none of the textures of %d and %d bytes", i, len(data), len(files[0]), len(files[1]))
		}
	}
	c.Obs("image_big")
	c.Sig("big %d %d", len(files[0]), len(files[1]))
}

func writeTextureSize(c *C, dir, kind, name string, w, h int) []byte {
	img := randImage(c.R, w, h, 0)
	var b bytes.Buffer
	if kind == "png" {
		must(png.Encode(&b, img))
	} else {
		must(jpeg.Encode(&b, img, nil))
	}
	data := b.Bytes()
	must(os.WriteFile(filepath.Join(dir, name), data, 0644))
	return data
}
