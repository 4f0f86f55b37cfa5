package main

// P21: FBX reading. P22: FBX writing. P23: FBX to MQO.

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:   "P21",
		Rule: "seeded node trees and scenes are written by an independent FBX encoder (binary 7.3 to 7.7 with 32 and 64 bit records, raw and deflated arrays, all attribute types, footer; ASCII with tabs, CRLF, comments, wrapped arrays and all number forms), loaded by the real code through files and hostile readers, and compared node by node, and object by object with its properties, template values and connections; every binary file is also cut off at random places",
		Assumptions: []string{
			"files before version 7 and single letter flags in ASCII files are not claimed",
		},
		Require: []string{"binary", "binary64", "text", "tree_ok", "object_ok", "template_value", "property_ok", "connection_ok", "array_accessor", "cut_rejected", "no_seek", "small_reads", "file", "empty_array", "large_tree"},
		Cases: func(r *Run) {
			r.Repeat("tree", r.N(1500, 20000), func(c *C) { fbxTreeCase(c, false) })
			r.Repeat("large", r.N(6, 60), func(c *C) { fbxTreeCase(c, true) })
			r.Repeat("scene", r.N(800, 10000), fbxSceneCase)
			r.Repeat("cut", r.N(400, 6000), fbxCutCase)
		},
	})
	register(&Prop{
		ID:   "P22",
		Rule: "seeded FBX documents (read from binary and ASCII files, or built with the library) are saved by the real code through the library and the command line tool; the result is parsed by an independent strict ASCII parser and compared with the source node by node, loaded again by the real code and compared, and saved again, which has to give the same bytes; saving to a full device and to writers that fail at every position has to report the error",
		Assumptions: []string{
			"binary values become base64 strings and object names their ASCII form; the FileId is left out",
		},
		Require: []string{"saved_ok", "reload_ok", "resave_identical", "cli", "from_binary", "from_text", "built", "fault_reported", "dev_full", "built_object_ok", "edited", "edit_after_read", "edit_saved", "world_matrix", "large_tree"},
		Cases: func(r *Run) {
			r.Repeat("save", r.N(1200, 15000), func(c *C) { fbxSaveCase(c, false) })
			r.Repeat("large", r.N(4, 40), func(c *C) { fbxSaveCase(c, true) })
			r.Repeat("built", r.N(500, 6000), fbxBuiltCase)
			r.Repeat("fault", r.N(100, 1000), fbxFaultCase)
			r.Repeat("edit", r.N(300, 4000), fbxEditCase)
		},
	})
	register(&Prop{
		ID:   "P23",
		Rule: "seeded FBX scenes (model trees with translation, pre-rotation, rotation and scaling, axis systems, polygons, all layer mappings, materials and textures, blend shapes, skins, meshes below bones) are encoded independently, converted by the real converter and command line tool, and every polygon, shape and bone is compared with an independent evaluation of the scene",
		Assumptions: []string{
			"pivots, post-rotation, other rotation orders and unit scale are not applied by the tool and not claimed",
			"transforms are inherited as plain matrix products; object and shape names are unique",
		},
		Require: []string{"polygon_ok", "normal_ok", "uv_ok", "material_ok", "texture_ok", "shape_ok", "bone_ok", "weight_ok", "mirrored", "mesh_below_bone", "cli", "api", "nested", "template_transform", "template_color", "diffuse_texture_second", "inner_shape", "empty_cluster", "material_AllSame", "material_ByPolygon", "ByVertex"},
		Cases: func(r *Run) {
			r.Repeat("convert", r.N(1500, 15000), fbxToMqoCase)
		},
	})
}

func fromFbx(n []*fbx.Node) (out []*fN) {
	for _, x := range n {
		o := &fN{Name: x.Name, C: fromFbx(x.Children)}
		for _, a := range x.Attributes {
			if a == nil {
				o.A = append(o.A, nil)
			} else {
				o.A = append(o.A, a.Value)
			}
		}
		out = append(out, o)
	}
	return
}

type noSeek struct{ io.Reader }

// loadFBX loads data through one of the ways a program can.
func loadFBX(c *C, data []byte) *fbx.Document {
	var d *fbx.Document
	var err error
	switch c.R.Intn(3) {
	case 0:
		p := filepath.Join(c.Dir(), "in.fbx")
		must(os.WriteFile(p, data, 0600))
		d, err = fbx.Load(p)
		c.Obs("file")
	case 1:
		d, err = fbx.Parse(noSeek{hostileReader(c, data)})
		c.Obs("no_seek")
	default:
		d, err = fbx.Parse(bytes.NewReader(data))
	}
	if err != nil {
		c.Fatalf("a well-formed file is rejected: %v", err)
	}
	return d
}

func encodeAny(c *C, top []*fN, version int) (data []byte, text bool) {
	if c.R.Intn(2) == 0 {
		c.Obs("text")
		return encFBXText(c.R, top, version), true
	}
	if version >= 7500 {
		c.Obs("binary64")
	} else {
		c.Obs("binary")
	}
	return encFBX(c.R, top, version), false
}

func fbxRandTop(c *C) []*fN {
	r := c.R
	top := []*fN{fnode("FBXHeaderExtension").add(fnode("FBXVersion", int32(7400)))}
	for i := 1 + r.Intn(5); i > 0; i-- {
		top = append(top, fbxRandTree(r, 4))
	}
	return top
}

func fbxTreeCase(c *C, large bool) {
	top := fbxRandTop(c)
	if large {
		top = fbxLargeTop(c)
	}
	data, text := encodeAny(c, top, []int{7300, 7400, 7500, 7700}[c.R.Intn(4)])
	d := loadFBX(c, data)
	if s := fbxTreeDiff("", top, fromFbx(d.RawNode.Children), text); s != "" {
		c.Fatalf("%s", s)
	}
	c.Obs("tree_ok")
	// typed accessors
	var walk func(w []*fN, g []*fbx.Node)
	walk = func(w []*fN, g []*fbx.Node) {
		for i := range w {
			for k, v := range w[i].A {
				a := g[i].Attr(k)
				rv := reflectValue(v)
				if rv.Kind().String() == "slice" {
					if _, ok := v.([]byte); ok {
						continue
					}
					if rv.Len() == 0 {
						c.Obs("empty_array")
						if k == 0 && (len(g[i].GetInt32Array()) != 0 || len(g[i].GetFloat32Array()) != 0) {
							c.Failf("an empty array of %s reads as %v %v", g[i].Name, g[i].GetInt32Array(), g[i].GetFloat32Array())
						}
						continue
					}
					switch v := v.(type) {
					case []int32:
						got := a.ToInt32Array()
						if len(got) != len(v) {
							c.Failf("%d integers read as %d", len(v), len(got))
							continue
						}
						for j := range v {
							if got[j] != v[j] {
								c.Failf("integer %d read as %d", v[j], got[j])
							}
						}
					case []float64:
						got := a.ToFloat32Array()
						if len(got) != len(v) {
							c.Failf("%d floats read as %d", len(v), len(got))
							continue
						}
						for j := range v {
							if got[j] != float32(v[j]) {
								c.Failf("float %v read as %v", v[j], got[j])
							}
						}
					}
					c.Obs("array_accessor")
					continue
				}
				if _, ok := v.(string); ok {
					continue
				}
				if ch, ok := v.(fChar); ok {
					v = int64(ch)
				}
				iv, fv, isInt := numOf(v)
				if isInt {
					if got := a.ToInt64(-7); got != iv {
						c.Failf("%s: %d read as %d", g[i].Name, iv, got)
					}
					if got := a.ToInt(-7); int64(got) != iv {
						c.Failf("%s: %d read as the int %d", g[i].Name, iv, got)
					}
				}
				if got := a.ToFloat32(-7); got != float32(fv) {
					c.Failf("%s: %v read as %v", g[i].Name, fv, got)
				}
			}
			walk(w[i].C, g[i].Children)
		}
	}
	walk(top, d.RawNode.Children)
	c.Sig("%d %v %d", len(top), text, len(data)/256)
}

func fbxSceneCase(c *C) {
	s := genFBX(c, c.R.Intn(2) == 0, c.R.Intn(2) == 0)
	data, text := encodeAny(c, s.top, s.version)
	d := loadFBX(c, data)
	if t := fbxTreeDiff("", s.top, fromFbx(d.RawNode.Children), text); t != "" {
		c.Fatalf("%s", t)
	}
	c.Obs("tree_ok")
	checkFbxObjects(c, s, d)
	checkFbxProperties(c, s.top, text, d)
	c.Sig("m%d g%d t%d %v", len(s.models), len(s.geos), len(s.mats), text)
}

// fbxPlain removes the class of an object name in either form.
func fbxPlain(n, class string) string {
	return strings.TrimSuffix(strings.TrimPrefix(n, class+"::"), "::"+class)
}

func checkFbxObjects(c *C, s *fbxScene, d *fbx.Document) {
	near3 := func(what string, want V3, got *geom.Vector3) {
		if v3(got).dist(want) > 1e-5*(1+want.maxAbs()) {
			c.Failf("%s is %v, want %v", what, *got, want)
		}
	}
	for _, m := range s.models {
		o, ok := d.ObjectByID[m.id].(*fbx.Model)
		if !ok {
			c.Fatalf("model %d is %T", m.id, d.ObjectByID[m.id])
		}
		if fbxPlain(o.Name(), "Model") != m.name || o.Kind() != m.kind {
			c.Failf("model %q %q is %q %q", m.name, m.kind, o.Name(), o.Kind())
		}
		near3("translation", m.t, o.GetTranslation())
		near3("rotation", m.r, o.GetRotation())
		near3("scaling", m.s, o.GetScaling())
		if (m.geo == nil) != (o.GetGeometry() == nil) {
			c.Failf("model %q: geometry lost", m.name)
		}
		var ids, want []int64
		for _, x := range o.GetChildModels() {
			ids = append(ids, x.ID())
		}
		for _, x := range m.children {
			want = append(want, x.id)
		}
		if fmt.Sprint(ids) != fmt.Sprint(want) {
			c.Failf("model %q has children %v, want %v", m.name, ids, want)
		}
		pid := int64(0)
		if m.parent != nil {
			pid = m.parent.id
		}
		if o.Parent == nil || o.Parent.ID() != pid {
			c.Failf("model %q has the wrong parent", m.name)
		}
		c.Obs("connection_ok")
		if m.geo != nil {
			g := o.GetGeometry()
			if g.ID() != m.geo.id || len(g.Vertices) != len(m.geo.verts) || fmt.Sprint(g.Polygons) != fmt.Sprint(m.geo.polys) {
				c.Fatalf("geometry of %q differs", m.name)
			}
			for i, v := range m.geo.verts {
				near3("vertex", v, g.Vertices[i])
			}
		}
		c.Obs("object_ok")
	}
	if len(d.Materials) != len(s.mats) {
		c.Fatalf("%d materials, want %d", len(d.Materials), len(s.mats))
	}
	for i, m := range s.mats {
		near3("diffuse", m.diffuse, d.Materials[i].GetColor("DiffuseColor", nil))
		if m.diffuse == s.tplCol {
			c.Obs("template_value")
		}
	}
}

// checkFbxProperties: every property of every object is found under its name
// with type, label, flags and values.
func checkFbxProperties(c *C, top []*fN, text bool, d *fbx.Document) {
	for _, sec := range top {
		if sec.Name != "Objects" {
			continue
		}
		for _, o := range sec.C {
			if len(o.A) == 0 {
				continue
			}
			id, ok := o.A[0].(int64)
			if !ok {
				continue
			}
			obj := d.ObjectByID[id]
			last := map[string]*fN{}
			for _, l := range o.C {
				if l.Name != "Properties70" {
					continue
				}
				for _, p := range l.C {
					if len(p.A) >= 4 {
						if n, ok := p.A[0].(string); ok {
							last[n] = p
						}
					}
				}
				break
			}
			for n, p := range last {
				if obj == nil {
					c.Fatalf("object %d is missing", id)
				}
				g := obj.GetProperty(n)
				if g == nil {
					c.Fatalf("property %q of object %d is missing", n, id)
				}
				got := &fN{Name: "P", A: []interface{}{n, g.Type, g.Label, g.Flag}}
				for _, a := range g.AttributeList {
					got.A = append(got.A, a.Value)
				}
				want := &fN{Name: "P", A: p.A}
				if t := fbxTreeDiff("", []*fN{want}, []*fN{got}, text); t != "" {
					c.Failf("property %q of object %d: %s", n, id, t)
				}
				c.Obs("property_ok")
			}
		}
	}
}

// fbxCutCase: a binary file that ends early is never taken for a complete one.
func fbxCutCase(c *C) {
	r := c.R
	var top []*fN
	if r.Intn(2) == 0 {
		top = fbxRandTop(c)
	} else {
		top = genFBX(c, true, true).top
	}
	version := []int{7400, 7500}[r.Intn(2)]
	data := encFBX(r, top, version)
	null, foot := 13, 16+4
	if version >= 7500 {
		null = 25
	}
	// end of the nodes: undo the footer (its length depends on the padding)
	end := bytes.LastIndex(data, append(make([]byte, 100), 0xf8, 0x5a, 0x8c, 0x6a)) + 100 - 120 - 4
	for end > 0 && data[end-1] == 0 { // padding and the four zeros, up to the random id
		end--
	}
	_ = foot
	end -= 16 + null + 16 // stay clear of the end
	for k := 0; k < 12; k++ {
		cut := 27 + r.Intn(max(1, end-27))
		// ends of top level nodes look like complete files
		boundary := false
		for _, b := range fbxBoundaries(data, version) {
			if b == cut {
				boundary = true
			}
		}
		if boundary || cut >= end {
			continue
		}
		if _, err := fbx.Parse(hostileReader(c, data[:cut])); err == nil {
			c.Fatalf("a file cut off at %d of %d is read without an error", cut, len(data))
		}
		c.Obs("cut_rejected")
	}
}

func fbxBoundaries(data []byte, version int) (out []int) {
	o := 27
	for o+25 < len(data) {
		u := &unbin{b: data[o:]}
		next := u.i32()
		out = append(out, o)
		if next <= o || next > len(data) {
			return
		}
		o = next
	}
	return
}

// ---- P22

func checkSaved(c *C, src []*fN, srcText bool, out []byte) {
	// what the source looks like in ASCII
	var want []*fN
	for _, n := range src {
		if n.Name != "FileId" {
			want = append(want, n)
		}
	}
	got, err := parseFBXText(out)
	if err != nil {
		c.Fatalf("the saved file is not well-formed: %v", err)
	}
	if s := fbxTreeDiff("", want, got, true); s != "" {
		c.Fatalf("saved: %s", s)
	}
	c.Obs("saved_ok")
	again, err := fbx.Parse(bytes.NewReader(out))
	if err != nil {
		c.Fatalf("the saved file cannot be loaded: %v", err)
	}
	if s := fbxTreeDiff("", want, fromFbx(again.RawNode.Children), true); s != "" {
		c.Fatalf("loaded again: %s", s)
	}
	c.Obs("reload_ok")
	var b bytes.Buffer
	if err := fbx.Write(&b, again); err != nil {
		c.Fatalf("%v", err)
	}
	if !bytes.Equal(b.Bytes(), out) {
		c.Fatalf("saving again differs: %s", firstDiff(map[string][]byte{"x": b.Bytes()}, map[string][]byte{"x": out}))
	}
	c.Obs("resave_identical")
}

func fbxSaveCase(c *C, large bool) {
	r := c.R
	var top []*fN
	if large {
		top = fbxLargeTop(c)
	} else if r.Intn(3) > 0 {
		top = fbxRandTop(c)
	} else {
		top = genFBX(c, true, true).top
	}
	data, text := encodeAny(c, top, []int{7400, 7500}[r.Intn(2)])
	if text {
		c.Obs("from_text")
	} else {
		c.Obs("from_binary")
	}
	dir := c.Dir()
	out := filepath.Join(dir, "out.fbx")
	if r.Intn(6) == 0 {
		in := filepath.Join(dir, "source.fbx")
		must(os.WriteFile(in, data, 0600))
		mustCLI(c, "/", in, out)
		c.Obs("cli")
	} else {
		d := loadFBX(c, data)
		if err := fbx.Save(d, out); err != nil {
			c.Fatalf("%v", err)
		}
	}
	res, err := os.ReadFile(out)
	must(err)
	checkSaved(c, top, text, res)
	c.Sig("%d %v %d", len(top), text, len(res)/256)
}

// fbxBuiltCase: documents built with the library are written, loaded and
// converted like loaded ones.
func fbxBuiltCase(c *C) {
	r := c.R
	d := fbx.NewDocument()
	type built struct {
		name  string
		m     *fbx.Model
		g     *fbx.Geometry
		verts []*geom.Vector3
		uvs   []*geom.Vector2
		ix    []int32
		norm  []*geom.Vector3
		mi    []int32
		poly  [][]int
		mats  []int
		par   int
		t, s  V3
	}
	used := map[string]bool{}
	var mats []*fbx.Material
	var mcol []V3
	for i := r.Intn(3); i > 0; i-- {
		m := fbx.NewMaterial(uniqueName(r, asciiAlphabet, used))
		col := V3{f32(r.Float64()), f32(r.Float64()), f32(r.Float64())}
		m.SetColor("DiffuseColor", col.g())
		d.AddObject(m)
		mats, mcol = append(mats, m), append(mcol, col)
	}
	var ms []*built
	for i := 1 + r.Intn(4); i > 0; i-- {
		b := &built{name: uniqueName(r, asciiAlphabet, used), par: -1, t: rv3(r, 5), s: V3{1 + r.Float64(), 1 + r.Float64(), 1}}
		b.m = fbx.NewModel(b.name, "Mesh")
		b.m.SetTranslation(b.t.g())
		b.m.SetScaling(b.s.g())
		nv := 3 + r.Intn(5)
		for k := 0; k < nv; k++ {
			b.verts = append(b.verts, rv3(r, 5).g())
		}
		cnt := 0
		for k := 1 + r.Intn(4); k > 0; k-- {
			p := append([]int(nil), r.Perm(nv)[:3]...)
			b.poly = append(b.poly, p)
			cnt += len(p)
		}
		b.g = fbx.NewGeometry(b.name+"g", b.verts, b.poly)
		for k := 0; k < 4; k++ {
			b.uvs = append(b.uvs, &geom.Vector2{X: float32(r.Intn(100)) / 100, Y: float32(r.Intn(100)) / 100})
		}
		for k := 0; k < cnt; k++ {
			b.ix = append(b.ix, int32(r.Intn(4)))
		}
		for range b.verts {
			b.norm = append(b.norm, rv3(r, 1).unit().g())
		}
		b.g.SetLayerElementUVIndexed(b.uvs, b.ix, fbx.ByPolygonVertex)
		b.g.SetLayerElementNormal(b.norm, []fbx.MappingType{fbx.ByVertice, fbx.ByControlPoint}[r.Intn(2)])
		if len(mats) > 0 {
			b.mats = r.Perm(len(mats))
			for range b.poly {
				b.mi = append(b.mi, int32(r.Intn(len(mats))))
			}
			b.g.SetLayerElementMaterialIndex(b.mi, fbx.ByPolygon)
		}
		d.AddObject(b.m)
		d.AddObject(b.g)
		if len(ms) > 0 && r.Intn(2) == 0 {
			b.par = r.Intn(len(ms))
			d.AddConnection(ms[b.par].m, b.m)
		} else {
			d.AddConnection(d.Scene, b.m)
		}
		d.AddConnection(b.m, b.g)
		for _, k := range b.mats {
			d.AddConnection(b.m, mats[k])
		}
		ms = append(ms, b)
	}
	ids := map[int64]bool{}
	for _, n := range d.RawNode.FindChild("Objects").Children {
		id := n.Attr(0).ToInt64(0)
		if id == 0 || ids[id] {
			c.Fatalf("object id %d is used twice or zero", id)
		}
		ids[id] = true
	}
	var buf bytes.Buffer
	if err := fbx.Write(&buf, d); err != nil {
		c.Fatalf("%v", err)
	}
	checkSaved(c, fromFbx(d.RawNode.Children), false, buf.Bytes())
	c.Obs("built")
	loaded, err := fbx.Parse(bytes.NewReader(buf.Bytes()))
	if err != nil {
		c.Fatalf("%v", err)
	}
	for which, doc := range map[string]*fbx.Document{"built": d, "loaded": loaded} {
		res, err := converter.NewFBXToMQOConverter(nil).Convert(doc)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if len(res.Materials) != len(mats) || len(res.Objects) != len(ms) {
			c.Fatalf("%s document: %d materials and %d objects, want %d and %d", which, len(res.Materials), len(res.Objects), len(mats), len(ms))
		}
		for i, m := range res.Materials {
			if (V3{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z)}).dist(mcol[i]) > 1e-6 {
				c.Failf("%s document: material %d has colour %v, want %v", which, i, m.Color, mcol[i])
			}
		}
		for _, b := range ms {
			var o *mqo.Object
			for _, x := range res.Objects {
				if x.Name == b.name {
					o = x
				}
			}
			if o == nil {
				c.Fatalf("%s document: no object %q", which, b.name)
			}
			w := mTranslate(b.t).mul(mScale(b.s))
			for p := b.par; p >= 0; p = ms[p].par {
				w = mTranslate(ms[p].t).mul(mScale(ms[p].s)).mul(w)
			}
			if len(o.Vertexes) != len(b.verts) || len(o.Faces) != len(b.poly) {
				c.Fatalf("%s document: %q has %d vertices and %d faces", which, b.name, len(o.Vertexes), len(o.Faces))
			}
			for i, v := range b.verts {
				if want := w.apply(v3(v)); v3(o.Vertexes[i]).dist(want) > 1e-4*(1+want.maxAbs()) {
					c.Failf("%s document: %q vertex %d at %v, want %v", which, b.name, i, *o.Vertexes[i], want)
				}
			}
			k := 0
			for i, p := range b.poly {
				f := o.Faces[i]
				if len(f.UVs) != 3 || len(f.Normals) != 3 {
					c.Fatalf("%s document: %q face %d lost UVs or normals", which, b.name, i)
				}
				for j := range p {
					uv := b.uvs[b.ix[k]]
					g := f.UVs[2-j]
					if f.Verts[2-j] != p[j] || math.Abs(float64(g.X-uv.X)) > 1e-6 || math.Abs(float64(g.Y-(1-uv.Y))) > 1e-6 {
						c.Failf("%s document: %q face %d corner %d differs", which, b.name, i, j)
					}
					n := v3(b.norm[p[j]])
					n = V3{n[0] / w[0], n[1] / w[5], n[2] / w[10]}.unit() // axis aligned scales only
					if got := f.Normals[2-j]; got == nil || v3(got).unit().dist(n) > 1e-4 {
						c.Failf("%s document: %q face %d corner %d has normal %v, want %v", which, b.name, i, j, got, n)
					}
					k++
				}
				if len(mats) > 0 && f.Material != b.mats[b.mi[i]] {
					c.Failf("%s document: %q face %d has material %d", which, b.name, i, f.Material)
				}
			}
			c.Obs("built_object_ok")
		}
	}
}

type failWriter struct {
	n int // bytes accepted before failing
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.n {
		w.n -= len(p)
		return len(p), nil
	}
	n := w.n
	w.n = 0
	return n, fmt.Errorf("no space left")
}

func fbxFaultCase(c *C) {
	r := c.R
	top := genFBX(c, true, true).top
	d, err := fbx.Parse(bytes.NewReader(encFBX(r, top, 7400)))
	if err != nil {
		c.Fatalf("%v", err)
	}
	var b bytes.Buffer
	if err := fbx.Write(&b, d); err != nil {
		c.Fatalf("%v", err)
	}
	for k := 0; k < 20; k++ {
		n := r.Intn(b.Len())
		if k == 0 {
			n = b.Len() - 1
		}
		if fbx.Write(&failWriter{n}, d) == nil {
			c.Fatalf("a write error after %d of %d bytes is not reported", n, b.Len())
		}
		c.Obs("fault_reported")
	}
	if err := fbx.Write(&failWriter{b.Len()}, d); err != nil {
		c.Fatalf("%v", err)
	}
	if fbx.Save(d, "/dev/full") == nil {
		c.Fatalf("saving to a full device reports no error")
	}
	if fbx.Save(d, filepath.Join(c.Dir(), "none", "x.fbx")) == nil {
		c.Fatalf("saving to a missing directory reports no error")
	}
	c.Obs("dev_full")
}

// ---- P23

func fbxToMqoCase(c *C) {
	r := c.R
	s := genFBX(c, r.Intn(2) == 0, r.Intn(2) == 0)
	data, _ := encodeAny(c, s.top, s.version)
	var d *mqo.Document
	opt := &converter.FBXToMQOOption{}
	file := r.Intn(6) == 0
	if file {
		in, out := filepath.Join(c.Dir(), "in.fbx"), filepath.Join(c.Dir(), "out.mqoz")
		must(os.WriteFile(in, data, 0600))
		mustCLI(c, "/", in, out)
		var err error
		if d, err = mqo.Load(out); err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("cli")
	} else {
		if r.Intn(4) == 0 {
			opt.ConvertWholeNode = r.Intn(2) == 0
			opt.DisableBone = r.Intn(2) == 0
			opt.DisableBlendShape = r.Intn(2) == 0
		}
		var err error
		d, err = converter.NewFBXToMQOConverter(opt).Convert(loadFBX(c, data))
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("api")
	}
	checkFbxMqo(c, s, d, opt, file)
	c.Sig("m%d g%d o%d b%d", len(s.models), len(s.geos), len(d.Objects), len(mqo.GetBonePlugin(d).Bones()))
}

func checkFbxMqo(c *C, s *fbxScene, d *mqo.Document, opt *converter.FBXToMQOOption, file bool) {
	byName := map[string]*mqo.Object{}
	parent := map[string]string{}
	var stack []*mqo.Object
	uids := map[int]bool{}
	for _, o := range d.Objects {
		if byName[o.Name] != nil {
			c.Fatalf("object %q twice", o.Name)
		}
		if o.UID == 0 || uids[o.UID] {
			c.Failf("object %q has the id %d", o.Name, o.UID)
		}
		uids[o.UID] = true
		byName[o.Name] = o
		for len(stack) > 0 && stack[len(stack)-1].Depth >= o.Depth {
			stack = stack[:len(stack)-1]
		}
		if len(stack) > 0 {
			parent[o.Name] = stack[len(stack)-1].Name
		}
		stack = append(stack, o)
	}
	expected := 0
	near := func(what string, want, got, tol float64) {
		if file {
			tol = math.Max(tol, 6e-4)
		}
		if !(math.Abs(want-got) <= tol) {
			c.Failf("%s is %v, want %v", what, got, want)
		}
	}
	morphs := map[string][]string{}
	for _, p := range mqo.GetMorphPlugin(d).Morphs() {
		for _, t := range p.Target {
			morphs[p.Base] = append(morphs[p.Base], t.Name)
		}
	}
	matIdx := map[*fbxMat]int{}
	if len(d.Materials) != len(s.mats) {
		c.Fatalf("%d materials became %d", len(s.mats), len(d.Materials))
	}
	for i, m := range s.mats {
		matIdx[m] = i
		g := d.Materials[i]
		if g.Name != m.name {
			c.Failf("material %q is named %q", m.name, g.Name)
		}
		near("red", m.diffuse[0], float64(g.Color.X), 1e-5)
		near("green", m.diffuse[1], float64(g.Color.Y), 1e-5)
		near("blue", m.diffuse[2], float64(g.Color.Z), 1e-5)
		near("opacity", m.opacity, float64(g.Color.W), 1e-5)
		near("diffuse", m.dfac, float64(g.Diffuse), 1e-5)
		near("specular", m.spec*m.sfac, float64(g.Specular), 1e-5)
		near("ambient", m.amb*m.afc, float64(g.Ambient), 1e-5)
		near("power", m.power, float64(g.Power), 1e-3)
		if slash := strings.NewReplacer("\\", "/"); slash.Replace(g.Texture) != slash.Replace(m.texture) {
			c.Failf("material %q has texture %q, want %q", m.name, g.Texture, m.texture)
		} else if m.texture != "" {
			c.Obs("texture_ok")
		}
		c.Obs("material_ok")
	}
	wantWeights := map[string]map[string]map[int]float64{} // bone, object, vertex
	for _, m := range s.models {
		o := byName[m.name]
		if o == nil {
			if opt.ConvertWholeNode || m.hasGeo() {
				c.Fatalf("model %q has no object", m.name)
			}
			continue
		}
		expected++
		p := ""
		if m.parent != nil {
			p = m.parent.name
			c.Obs("nested")
		}
		if parent[m.name] != p {
			c.Failf("object %q is below %q, want %q", m.name, parent[m.name], p)
		}
		if !o.Visible {
			c.Failf("object %q is hidden", m.name)
		}
		g := m.geo
		if g == nil {
			if len(o.Faces) != 0 || len(o.Vertexes) != 0 {
				c.Failf("object %q has faces", m.name)
			}
			continue
		}
		w := s.coord.mul(m.world())
		aw := s.coord.absmul(m.absWorld())
		checkVerts := func(o *mqo.Object, verts []V3) {
			if len(o.Vertexes) != len(verts) {
				c.Fatalf("object %q has %d vertices, want %d", o.Name, len(o.Vertexes), len(verts))
			}
			for i, v := range verts {
				tol := 1e-5 * (1 + aw.apply(V3{math.Abs(v[0]), math.Abs(v[1]), math.Abs(v[2])}).maxAbs())
				if want := w.apply(v); !(v3(o.Vertexes[i]).dist(want) <= tol) {
					c.Failf("object %q vertex %d is at %v, want %v", o.Name, i, *o.Vertexes[i], want)
				}
			}
		}
		inv, det := w.inverse()
		nm := inv.transpose()
		if det < 0 {
			c.Obs("mirrored")
		}
		checkFaces := func(o *mqo.Object, base bool) {
			if len(o.Faces) != len(g.polys) {
				c.Fatalf("object %q has %d faces, want %d", o.Name, len(o.Faces), len(g.polys))
			}
			for fi, f := range o.Faces {
				p := g.polys[fi]
				n := len(p)
				if len(f.Verts) != n {
					c.Fatalf("object %q face %d has %d corners, want %d", o.Name, fi, len(f.Verts), n)
				}
				if (g.uvs != nil) != (len(f.UVs) == n) {
					c.Fatalf("object %q face %d has %d UVs", o.Name, fi, len(f.UVs))
				}
				if base && (g.normals != nil) != (len(f.Normals) == n) {
					c.Fatalf("object %q face %d has %d normals", o.Name, fi, len(f.Normals))
				}
				// MQO faces are clockwise; any corner may come first
				ok := false
				for rot := 0; rot < n && !ok; rot++ {
					ok = true
					for k := 0; k < n; k++ {
						src := (rot + k) % n
						if det > 0 {
							src = (rot + n - k) % n
						}
						if f.Verts[k] != p[src] {
							ok = false
							break
						}
						if g.uvs != nil {
							uv := g.uvs[fi][src]
							if math.Abs(float64(f.UVs[k].X)-uv[0]) > 2e-5 || math.Abs(float64(f.UVs[k].Y)-(1-uv[1])) > 2e-5 {
								ok = false
								break
							}
						}
						if base && g.normals != nil && f.Normals[k] != nil {
							nn := nm.applyDir(g.normals[fi][src]).unit()
							if v3(f.Normals[k]).dist(nn) > 2e-3 {
								ok = false
								break
							}
						}
					}
				}
				if !ok {
					c.Fatalf("object %q face %d is %v %v, polygon %v (determinant %g)", o.Name, fi, f.Verts, f.UVs, p, det)
				}
				if g.uvs != nil {
					c.Obs("uv_ok")
				}
				if base && g.normals != nil {
					c.Obs("normal_ok")
				}
				if g.mat != nil && f.Material != matIdx[m.mats[g.mat[fi]]] {
					c.Failf("object %q face %d has material %d, want %d", o.Name, fi, f.Material, matIdx[m.mats[g.mat[fi]]])
				} else if g.mat == nil && len(m.mats) > 0 && f.Material != matIdx[m.mats[0]] {
					c.Failf("object %q face %d has material %d, want the first one", o.Name, fi, f.Material)
				}
				c.Obs("polygon_ok")
			}
		}
		checkVerts(o, g.verts)
		checkFaces(o, true)
		var names []string
		for _, sh := range g.shapes {
			if opt.DisableBlendShape {
				if byName[sh.name] != nil {
					c.Failf("shape %q although shapes are disabled", sh.name)
				}
				continue
			}
			so := byName[sh.name]
			if so == nil {
				c.Fatalf("shape %q has no object", sh.name)
			}
			expected++
			names = append(names, sh.name)
			if so.Visible {
				c.Failf("shape %q is visible", sh.name)
			}
			vs := append([]V3(nil), g.verts...)
			for i, k := range sh.idx {
				vs[k] = vs[k].add(sh.delta[i])
			}
			checkVerts(so, vs)
			checkFaces(so, false)
			found := false
			for _, t := range morphs[m.name] {
				found = found || t == sh.name
			}
			if !found {
				c.Failf("shape %q is no morph target of %q", sh.name, m.name)
			}
			c.Obs("shape_ok")
		}
		if len(morphs[m.name]) != len(names) {
			c.Failf("%q has morphs %v, want %v", m.name, morphs[m.name], names)
		}
		for _, cl := range g.clusters {
			bw := wantWeights[cl.bone.name]
			if bw == nil {
				bw = map[string]map[int]float64{}
				wantWeights[cl.bone.name] = bw
			}
			if len(cl.idx) > 0 && bw[m.name] == nil {
				bw[m.name] = map[int]float64{}
			}
			for i, v := range cl.idx {
				bw[m.name][int(v)] = cl.w[i]
			}
		}
	}
	if expected != len(d.Objects) {
		c.Failf("%d objects, want %d", len(d.Objects), expected)
	}
	// bones
	bones := mqo.GetBonePlugin(d).Bones()
	if opt.DisableBone {
		if len(bones) != 0 {
			c.Failf("%d bones although bones are disabled", len(bones))
		}
		return
	}
	want := map[string]*fbxModel{}
	for _, g := range s.geos {
		for _, cl := range g.clusters {
			for b := cl.bone; b != nil; b = b.parent {
				want[b.name] = b
			}
		}
	}
	if len(bones) != len(want) {
		c.Fatalf("%d bones, want %d", len(bones), len(want))
	}
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		if b.ID <= 0 || byID[b.ID] != nil {
			c.Failf("bone id %d", b.ID)
		}
		byID[b.ID] = b
	}
	objByID := map[int]string{}
	for _, o := range d.Objects {
		objByID[o.UID] = o.Name
	}
	for _, b := range bones {
		m := want[b.Name]
		if m == nil {
			c.Fatalf("bone %q is no model", b.Name)
		}
		p, wp := "", ""
		if byID[b.Parent] != nil {
			p = byID[b.Parent].Name
		}
		if m.parent != nil {
			wp = m.parent.name
		}
		if p != wp {
			c.Failf("bone %q has parent %q, want %q", b.Name, p, wp)
		}
		at := s.coord.mul(m.world()).apply(V3{})
		tol := 1e-4 * (1 + m.absWorld().apply(V3{}).maxAbs())
		if m.bind != nil {
			at = s.coord.mul(*m.bind).apply(V3{})
			tol = 1e-3
		}
		if v3(&b.Pos.Vector3).dist(at) > tol {
			c.Failf("bone %q is at %v, want %v", b.Name, b.Pos.Vector3, at)
		}
		got := map[string]map[int]float64{}
		for _, bw := range b.Weights {
			on := objByID[bw.ObjectID]
			for _, v := range bw.Vertexes {
				if got[on] == nil {
					got[on] = map[int]float64{}
				}
				got[on][v.VertexID-1] = float64(v.Weight) / 100
			}
		}
		ww := wantWeights[b.Name]
		if len(got) != len(ww) {
			c.Failf("bone %q moves objects %v, want %v", b.Name, got, ww)
		}
		for on, x := range ww {
			if len(got[on]) != len(x) {
				c.Failf("bone %q has %d weights in %q, want %d", b.Name, len(got[on]), on, len(x))
			}
			for v, w := range x {
				if math.Abs(got[on][v]-w) > 1e-5 {
					c.Failf("bone %q moves vertex %d of %q by %v, want %v", b.Name, v, on, got[on][v], w)
				}
				c.Obs("weight_ok")
			}
		}
		c.Obs("bone_ok")
	}
}

// fbxEditCase: values set on loaded models are what the getters return, at
// once and after saving and loading, and everything else stays.
func fbxEditCase(c *C) {
	r := c.R
	s := genFBX(c, r.Intn(2) == 0, r.Intn(2) == 0)
	data, _ := encodeAny(c, s.top, s.version)
	d := loadFBX(c, data)
	for k := r.Intn(6) + 1; k > 0; k-- {
		m := s.models[r.Intn(len(s.models))]
		o, ok := d.ObjectByID[m.id].(*fbx.Model)
		if !ok {
			c.Fatalf("model %d is %T", m.id, d.ObjectByID[m.id])
		}
		if r.Intn(2) == 0 { // read before
			o.GetTranslation()
			o.GetMatrix()
			c.Obs("edit_after_read")
		}
		v := V3{f32(r.NormFloat64() * 50), f32(r.NormFloat64() * 50), f32(r.NormFloat64() * 50)}
		switch r.Intn(3) {
		case 0:
			o.SetTranslation(v.g())
			m.t = v
		case 1:
			o.SetRotation(v.g())
			m.r = v
		case 2:
			v = V3{1 + math.Abs(v[0]), 1, 0.5}
			o.SetScaling(v.g())
			m.s = v
		}
		o.UpdateMatrix()
		c.Obs("edited")
		if r.Intn(2) == 0 {
			checkFbxObjects(c, s, d)
		}
	}
	matrices := func(d *fbx.Document) {
		for _, m := range s.models {
			o := d.ObjectByID[m.id].(*fbx.Model)
			w, a := m.world(), m.absWorld()
			g := o.GetWorldMatrix()
			for i := range w {
				if !(math.Abs(float64(g[i])-w[i]) <= 2e-5*(1e-3+a.norm())) {
					c.Fatalf("world matrix of model %q is %v, want %v", m.name, *g, w)
				}
			}
			c.Obs("world_matrix")
		}
	}
	checkFbxObjects(c, s, d)
	matrices(d)
	var b bytes.Buffer
	if err := fbx.Write(&b, d); err != nil {
		c.Fatalf("%v", err)
	}
	again, err := fbx.Parse(bytes.NewReader(b.Bytes()))
	if err != nil {
		c.Fatalf("the saved file cannot be loaded: %v", err)
	}
	checkFbxObjects(c, s, again)
	matrices(again)
	c.Obs("edit_saved")
	c.Sig("edit %d", len(s.models))
}
