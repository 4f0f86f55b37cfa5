package main

// MQO -> glTF: validity (P13), geometry (P14), skins and morphs (P15),
// materials and textures (P16).

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
)

func init() {
	register(&Prop{
		ID:   "P14",
		Rule: "seeded MQO scenes (concave and convex polygons, shared/unique/no UVs, explicit and computed normals, hidden objects, morph targets, ignored materials, nested objects with skipped depths, shared geometry instances) converted by the real converter; the GLB is parsed by an independent reader and every source face, corner, UV, normal and parent accounted for",
		Assumptions: []string{
			"objects and materials have unique names in the generated scenes, so that output elements can be identified by name",
			"corners of one vertex whose UVs and normals differ by less than 0.01 may share a glTF vertex (the converter's documented epsilon)",
		},
		Require: []string{"face_ok", "polygon", "concave", "normal_ok", "hidden", "ignored_material", "parent_ok", "instance_ok", "no_uv", "merged_uv", "skipped_depth", "shared_normal", "large_grid"},
		Cases:   gltfGeomCases,
	})
	register(&Prop{
		ID:          "P15",
		Rule:        "seeded MQO scenes with bones (children before parents, missing parents, non-contiguous ids, more than four influences, vertex ids) and morph lists converted; joints, weights, inverse bind matrices, morph deltas and names are read back by an independent reader and compared with the source",
		Assumptions: []string{"weights of up to four influences are kept as they are; beyond four the four largest are kept and normalised"},
		Require:     []string{"weight_ok", "limited", "ibm_ok", "bone_ok", "delta_ok", "orphan_bone", "seam_copy", "vertex_ids", "many_bones"},
		Cases:       gltfSkinCases,
	})
	register(&Prop{
		ID:      "P16",
		Rule:    "seeded materials (all shader kinds, alpha modes, emission, extension parameters) with real PNG/JPEG/BMP/TGA/GIF files, missing, corrupt and absolute paths, converted under option combinations; output materials, images and image bytes are compared with an independent model of the documented mapping",
		Require: []string{"material_ok", "image_identical", "image_reencoded", "image_limited", "image_missing", "image_shared", "alpha_mask", "alpha_blend", "alpha_detected", "alpha_png16", "alpha_palette", "alpha_gif", "alpha_tga", "unlit", "emission", "extension", "image_patches", "image_big"},
		Cases:   gltfMaterialCases,
	})
	register(&Prop{
		ID:   "P13",
		Rule: "every glTF document produced by the conversions (MQO scenes under option combinations, motions, glTF rescaling, VRM) is written as .glb or .gltf+.bin and checked against the structural rules of glTF 2.0 by an independent reader",
		Assumptions: []string{
			"source data is finite and within glTF ranges (colors, metallic factors in [0,1])",
		},
		Require: []string{"glb", "gltf_bin", "gltf_accessor", "gltf_triangle", "gltf_joint", "gltf_target", "gltf_texture_ref", "animation", "large_grid", "many_bones"},
		Cases:   gltfValidCases,
	})
}

type sceneInfo struct {
	d       *mqo.Document
	opt     *converter.MQOToGLTFOption
	targets map[string]bool
	base    map[string]string
}

// gltfScene decorates a polygon scene with what matters to the glTF exporter.
func gltfScene(c *C, mode int) *sceneInfo {
	r := c.R
	s := &sceneInfo{opt: &converter.MQOToGLTFOption{}, targets: map[string]bool{}, base: map[string]string{}}
	d := genScene(c, mode)
	s.d = d
	for _, p := range d.Plugins {
		if mp, ok := p.(*mqo.MorphPlugin); ok {
			for _, l := range mp.Morphs() {
				for _, t := range l.Target {
					s.targets[t.Name] = true
					s.base[t.Name] = l.Base
				}
			}
		}
	}
	// materials
	for i, m := range d.Materials {
		m.Color.X, m.Color.Y, m.Color.Z, m.Color.W = r.Float32(), r.Float32(), r.Float32(), r.Float32()
		m.Specular = r.Float32()
		m.Texture, m.BumpTexture = "", ""
		switch r.Intn(8) {
		case 0:
			m.Name = fmt.Sprintf("skip%d$IGNORE", i)
		case 1:
			m.Name = fmt.Sprintf("$MORPH:skip%d", i)
		case 2:
			m.Name = fmt.Sprintf([]string{"$IGNORE%d", "$MORPH%d", "x$MORPH:%d"}[r.Intn(3)], i) // neither suffix nor prefix: kept
		}
		if r.Intn(4) == 0 {
			m.Shader = r.Intn(5)
		}
	}
	// hierarchy: depths may skip levels, morph targets have no children
	depth := 0
	for i, o := range d.Objects {
		switch r.Intn(5) {
		case 0:
			depth = 0
		case 1, 2:
			if i > 0 && !s.targets[d.Objects[i-1].Name] {
				depth++
			}
		case 3:
			if i > 0 && !s.targets[d.Objects[i-1].Name] {
				depth += 1 + r.Intn(2)
				c.Obs("skipped_depth")
			}
		case 4:
			depth -= r.Intn(2)
		}
		if i == 0 {
			depth = r.Intn(2)
		}
		if depth < 0 {
			depth = 0
		}
		o.Depth = depth
		if r.Intn(4) == 0 {
			o.Shading = 0
		}
		if len(o.Faces) == 0 && r.Intn(2) == 0 {
			o.Vertexes = nil
		}
	}
	if mode == 1 { // near-equal UVs, and faces without UVs among others
		for _, o := range d.Objects {
			for _, f := range o.Faces {
				if r.Intn(8) == 0 {
					f.UVs = nil
				}
				for k := range f.UVs {
					switch r.Intn(6) {
					case 0:
						f.UVs[k].X += 0.003
					case 1:
						f.UVs[k].Y += 0.03
					}
				}
			}
		}
	}
	s.opt.IgnoreObjectHierarchy = r.Intn(4) == 0
	s.opt.ForceUnlit = r.Intn(5) == 0
	if r.Intn(3) == 0 {
		s.opt.Scale = []float32{1, 0.01, 2.5, 0.001}[r.Intn(4)]
	}
	return s
}

// convertGltf runs the converter and re-reads its output independently.
func convertGltf(c *C, d *mqo.Document, opt *converter.MQOToGLTFOption, texDir string) *gDoc {
	doc, err := converter.NewMQOToGLTFConverter(opt).Convert(d, texDir)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	return rereadGltf(c, doc)
}

func rereadGltf(c *C, doc *gltf.Document) *gDoc {
	var p string
	if c.R.Intn(3) > 0 {
		p = filepath.Join(c.Dir(), "out.glb")
		if err := gltf.SaveBinary(doc, p); err != nil {
			c.Fatalf("saving glb: %v", err)
		}
		c.Obs("glb")
	} else {
		p = filepath.Join(c.Dir(), "out.gltf")
		for i, b := range doc.Buffers {
			if b.URI == "" {
				b.URI = fmt.Sprintf("out%d.bin", i)
			}
		}
		if err := gltf.Save(doc, p); err != nil {
			c.Fatalf("saving gltf: %v", err)
		}
		c.Obs("gltf_bin")
	}
	if c.Name != "" && len(doc.Buffers) == 0 {
		c.Obs("no_buffer")
	}
	g, err := loadGltfFile(p)
	if err != nil {
		c.Fatalf("the written file cannot be read: %v", err)
	}
	return g
}

// nodesByName indexes nodes; several nodes of one name are an error.
func (d *gDoc) nodesByName(c *C) map[string]int {
	m := map[string]int{}
	for i, n := range d.Nodes {
		if _, dup := m[n.Name]; dup {
			c.Fatalf("two nodes are called %q", n.Name)
		}
		m[n.Name] = i
	}
	return m
}

func ignoredMaterial(n string) bool {
	return strings.HasSuffix(n, "$IGNORE") || strings.HasPrefix(n, "$MORPH:")
}

type gCorner struct {
	pos    V3
	uv     [2]float64
	normal V3
	hasN   bool
	hasUV  bool
	prim   int
	vert   int
}

// triangles returns the corners of every triangle of a mesh, in world space, per material name.
func (d *gDoc) triangles(c *C, node int, world M4) map[string][][3]gCorner {
	out := map[string][][3]gCorner{}
	m := d.Meshes[*d.Nodes[node].Mesh]
	nm, _ := world.inverse()
	nm = nm.transpose()
	for pi, p := range m.Primitives {
		pos := d.mustRead(c, p.Attributes["POSITION"])
		var uv, nr [][]float64
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
			uv = d.mustRead(c, a)
		}
		if a, ok := p.Attributes["NORMAL"]; ok {
			nr = d.mustRead(c, a)
		}
		name := ""
		if p.Material != nil {
			name = d.Materials[*p.Material].Name
		}
		if p.Mode != nil && *p.Mode != 4 || p.Indices == nil {
			c.Fatalf("mesh %q: primitive %d is not an indexed triangle list", m.Name, pi)
		}
		idx := d.mustRead(c, *p.Indices)
		for k := 0; k+2 < len(idx); k += 3 {
			var t [3]gCorner
			for j := 0; j < 3; j++ {
				v := int(idx[k+j][0])
				t[j] = gCorner{pos: world.apply(V3{pos[v][0], pos[v][1], pos[v][2]}), prim: pi, vert: v}
				if uv != nil {
					t[j].uv, t[j].hasUV = [2]float64{uv[v][0], uv[v][1]}, true
				}
				if nr != nil {
					t[j].normal, t[j].hasN = nm.applyDir(V3{nr[v][0], nr[v][1], nr[v][2]}).unit(), true
				}
			}
			out[name] = append(out[name], t)
		}
	}
	return out
}

func effScale(o *converter.MQOToGLTFOption) float64 {
	if o.Scale == 0 {
		return float64(float32(0.001))
	}
	return float64(o.Scale)
}

// refParents: nearest preceding kept object of smaller depth.
func refParents(objs []*mqo.Object) []int {
	out := make([]int, len(objs))
	for i, o := range objs {
		out[i] = -1
		limit := o.Depth
		for k := i - 1; k >= 0; k-- {
			if objs[k].Depth < limit {
				out[i] = k
				break
			}
		}
	}
	return out
}

func gltfGeomCases(r *Run) {
	r.Repeat("polygons", r.N(1200, 15000), func(c *C) { gltfGeomCase(c, 0) })
	r.Repeat("shared-uv", r.N(700, 8000), func(c *C) { gltfGeomCase(c, 1) })
	r.Repeat("no-uv", r.N(300, 4000), func(c *C) { gltfGeomCase(c, 2) })
	r.Repeat("instances", r.N(600, 6000), gltfInstanceCase)
	r.Repeat("large", r.N(4, 40), gltfLargeCase)
}

func gltfGeomCase(c *C, mode int) {
	s := gltfScene(c, mode)
	src := cloneMQO(s.d)
	opt := *s.opt
	g := convertGltf(c, s.d, s.opt, c.Dir())
	c.Sig("%d %v %s", mode, opt, structSig(src))
	compareGeometry(c, s, src, &opt, g, mode)
}

func compareGeometry(c *C, s *sceneInfo, src *mqo.Document, opt *converter.MQOToGLTFOption, g *gDoc, mode int) {
	scale := effScale(opt)
	nodes := g.nodesByName(c)
	worlds, parents := g.worlds()
	var kept []*mqo.Object
	for _, o := range src.Objects {
		if s.targets[o.Name] {
			if _, ok := nodes[o.Name]; ok {
				c.Fatalf("morph target %q became a node of its own", o.Name)
			}
			continue
		}
		if opt.IgnoreObjectHierarchy && (!o.Visible || len(o.Faces) == 0) {
			if ni, ok := nodes[o.Name]; ok && g.Nodes[ni].Mesh != nil {
				c.Fatalf("hidden object %q has a mesh", o.Name)
			}
			continue
		}
		kept = append(kept, o)
	}
	par := refParents(kept)
	inScene := map[int]bool{}
	if len(g.Scenes) != 1 {
		c.Fatalf("%d scenes", len(g.Scenes))
	}
	for _, n := range g.Scenes[0].Nodes {
		inScene[n] = true
	}
	for i := range g.Nodes {
		if parents[i] < 0 && !inScene[i] {
			c.Fatalf("node %q is not part of the scene", g.Nodes[i].Name)
		}
	}
	for i, o := range kept {
		ni, ok := nodes[o.Name]
		if !ok {
			c.Fatalf("object %q has no node", o.Name)
		}
		want := -1
		if par[i] >= 0 && !opt.IgnoreObjectHierarchy {
			want = nodes[kept[par[i]].Name]
		}
		if parents[ni] != want {
			c.Fatalf("node %q has parent %d, want %d (depths %v)", o.Name, parents[ni], want, depths(kept))
		}
		if want >= 0 {
			c.Obs("parent_ok")
		}
	}
	for _, o := range kept {
		ni := nodes[o.Name]
		n := g.Nodes[ni]
		wantFaces := map[string][]*mqo.Face{}
		for _, f := range o.Faces {
			if !o.Visible {
				c.Obs("hidden")
				continue
			}
			if len(f.Verts) < 3 || f.Material < 0 || f.Material >= len(src.Materials) {
				continue
			}
			if mn := src.Materials[f.Material].Name; ignoredMaterial(mn) {
				c.Obs("ignored_material")
			} else {
				wantFaces[mn] = append(wantFaces[mn], f)
			}
		}
		if n.Mesh == nil {
			if len(wantFaces) > 0 {
				c.Fatalf("object %q has faces but its node has no mesh", o.Name)
			}
			continue
		}
		if g.Meshes[*n.Mesh].Name != o.Name {
			c.Fatalf("the mesh of %q is called %q", o.Name, g.Meshes[*n.Mesh].Name)
		}
		tris := g.triangles(c, ni, worlds[ni])
		for mn := range tris {
			if wantFaces[mn] == nil && mn != "" {
				c.Fatalf("object %q: triangles with material %q which no face has", o.Name, mn)
			}
		}
		smooth := refSmooth(o)
		cornerNormal := func(f *mqo.Face, k int) (V3, bool) {
			if k < len(f.Normals) && len(f.Normals) == len(f.Verts) && f.Normals[k] != nil {
				return v3(f.Normals[k]).unit(), true
			}
			x := smooth[f.Verts[k]]
			return x.unit(), x.len() > 1e-2
		}
		hasUV := false
		for _, fs := range wantFaces {
			for _, f := range fs {
				hasUV = hasUV || len(f.UVs) > 0
			}
		}
		if !hasUV {
			c.Obs("no_uv")
		}
		ptol := func(p V3) float64 { return 1e-5*scale + 2e-6*p.maxAbs() }
		for mn, fs := range wantFaces {
			got := tris[mn]
			if mode == 0 {
				type acc struct {
					n    int
					area V3
					abs  float64
				}
				byID := map[int][2]int{}
				for fi, f := range fs {
					for k := range f.UVs {
						byID[int(f.UVs[k].X)] = [2]int{fi, k}
					}
				}
				accs := make([]acc, len(fs))
				for _, t := range got {
					face := -1
					var ks [3]int
					for j, co := range t {
						x, ok := byID[int(math.Round(co.uv[0]))]
						if !ok || !co.hasUV {
							c.Fatalf("object %q material %q: corner with UV %v which no face has", o.Name, mn, co.uv)
						}
						if face >= 0 && face != x[0] {
							c.Fatalf("object %q: a triangle mixes two faces", o.Name)
						}
						face = x[0]
						f := fs[face]
						ks[j] = x[1]
						p := v3(o.Vertexes[f.Verts[x[1]]]).mul(scale)
						if !(p.dist(co.pos) <= ptol(p)) || co.uv != [2]float64{float64(f.UVs[x[1]].X), float64(f.UVs[x[1]].Y)} {
							c.Fatalf("object %q: corner at %v UV %v, want %v UV %v", o.Name, co.pos, co.uv, p, f.UVs[x[1]])
						}
						if co.hasN != (o.Shading > 0 && !opt.ForceUnlit) {
							c.Fatalf("object %q (shading %d, unlit %v) has normals: %v", o.Name, o.Shading, opt.ForceUnlit, co.hasN)
						}
						if nw, ok := cornerNormal(f, x[1]); ok && co.hasN {
							if !(nw.dist(co.normal) <= 3e-3) {
								c.Fatalf("object %q: normal %v, want %v", o.Name, co.normal, nw)
							}
							c.Obs("normal_ok")
						}
					}
					a := &accs[face]
					a.n++
					cr := t[1].pos.sub(t[0].pos).cross(t[2].pos.sub(t[0].pos))
					a.area = a.area.add(cr)
					a.abs += cr.len()
				}
				for fi, f := range fs {
					a := accs[fi]
					// MQO faces are clockwise, glTF counter clockwise
					want := faceArea(o, f).mul(-scale * scale)
					if a.n != len(f.Verts)-2 || !(a.area.dist(want) <= 2e-3*want.len()) || !near(a.abs, want.len(), 2e-3*want.len()) {
						c.Fatalf("object %q: face with %d corners became %d triangles of area %v (sum of sizes %g), want %v", o.Name, len(f.Verts), a.n, a.area, a.abs, want)
					}
					c.Obs("face_ok")
					if len(f.Verts) > 3 {
						c.Obs("polygon")
						if isConcave(o, f) {
							c.Obs("concave")
						}
					}
				}
				continue
			}
			// triangles with shared UVs
			used := make([]bool, len(got))
			for _, f := range fs {
				if len(f.Verts) != 3 {
					continue
				}
				found := false
				for gi, t := range got {
					if used[gi] {
						continue
					}
					for rot := 0; rot < 3 && !found; rot++ {
						ok := true
						for j := 0; j < 3 && ok; j++ {
							k := (rot + 3 - j) % 3 // reversed order
							p := v3(o.Vertexes[f.Verts[k]]).mul(scale)
							ok = p.dist(t[j].pos) <= ptol(p)
							if ok && len(f.UVs) > 0 {
								du, dv := t[j].uv[0]-float64(f.UVs[k].X), t[j].uv[1]-float64(f.UVs[k].Y)
								ok = t[j].hasUV && du*du+dv*dv < 1.0001e-4
								if ok && (du != 0 || dv != 0) {
									c.Obs("merged_uv")
								}
							}
							if nw, has := cornerNormal(f, k); ok && has && t[j].hasN {
								ok = nw.dist(t[j].normal) <= 0.0102
								if ok {
									c.Obs("shared_normal")
								}
							}
						}
						found = ok
					}
					if found {
						used[gi] = true
						break
					}
				}
				if !found {
					c.Fatalf("object %q material %q: face %v was lost (%d triangles for %d faces)", o.Name, mn, f.Verts, len(got), len(fs))
				}
				c.Obs("face_ok")
			}
			for gi := range used {
				if !used[gi] {
					c.Fatalf("object %q material %q: a triangle without a source face", o.Name, mn)
				}
			}
			// each normal is the one of a corner at that place
			for _, t := range got {
				for _, co := range t {
					if co.hasN != (o.Shading > 0 && !opt.ForceUnlit) {
						c.Fatalf("object %q (shading %d, unlit %v) has normals: %v", o.Name, o.Shading, opt.ForceUnlit, co.hasN)
					}
					if !co.hasN {
						continue
					}
					ok, sure := false, true
					for _, fs2 := range wantFaces {
						for _, f := range fs2 {
							for k, v := range f.Verts {
								p := v3(o.Vertexes[v]).mul(scale)
								if p.dist(co.pos) > ptol(p) {
									continue
								}
								nw, s := cornerNormal(f, k)
								sure = sure && s
								ok = ok || nw.dist(co.normal) <= 3e-3
							}
						}
					}
					if sure && !ok {
						c.Fatalf("object %q: normal %v at %v belongs to no corner there", o.Name, co.normal, co.pos)
					}
					c.Obs("normal_ok")
				}
			}
		}
	}
	// nothing else has a mesh
	keptNames := map[string]bool{}
	for _, o := range kept {
		keptNames[o.Name] = true
	}
	bones := map[string]bool{}
	for _, b := range mqo.GetBonePlugin(src).Bones() {
		bones[b.Name] = true
	}
	for _, n := range g.Nodes {
		if !keptNames[n.Name] && !bones[n.Name] {
			c.Fatalf("unexpected node %q", n.Name)
		}
		if bones[n.Name] && n.Mesh != nil {
			c.Fatalf("bone %q has a mesh", n.Name)
		}
	}
}

func depths(objs []*mqo.Object) (out []int) {
	for _, o := range objs {
		out = append(out, o.Depth)
	}
	return
}

// gltfInstanceCase: several objects share one geometry under different transforms.
func gltfInstanceCase(c *C) {
	r := c.R
	d := mqo.NewDocument()
	nm := 2 + r.Intn(3)
	for i := 0; i < nm; i++ {
		d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprintf("m%d", i), Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}})
	}
	if r.Intn(3) == 0 {
		d.Materials[nm-1].Name += "$IGNORE"
	}
	id := 0
	ngeo := 1 + r.Intn(2)
	type base struct {
		o *mqo.Object
	}
	var bases []base
	for k := 0; k < ngeo; k++ {
		o := mqo.NewObject("base")
		for j := 1 + r.Intn(4); j > 0; j-- {
			f, _ := addPolygon(c, o, r.Intn(5))
			f.Material = j % nm
		}
		bases = append(bases, base{o})
	}
	uvs := r.Intn(4) > 0
	uvid := map[int]map[int]int{}
	for bi, b := range bases {
		uvid[bi] = map[int]int{}
		for fi, f := range b.o.Faces {
			for range f.Verts {
				id++
				if uvs {
					f.UVs = append(f.UVs, geom.Vector2{X: float32(id), Y: r.Float32()})
				}
			}
			uvid[bi][fi] = id
		}
	}
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		bi := r.Intn(ngeo)
		o := mqo.NewObject(fmt.Sprintf("inst%d", i))
		kind := r.Intn(2)
		M := mTRS(rv3(r, 200), rquat(r), V3{1, 1, 1})
		if kind == 1 {
			M = mTRS(rv3(r, 200), rquat(r), V3{0.5 + r.Float64(), 0.5 + r.Float64(), 0.5 + r.Float64()})
		}
		M = m4(M.g())
		o.InternalTransform = M.g()
		o.Visible = r.Intn(5) > 0
		o.Depth = r.Intn(2)
		for _, v := range bases[bi].o.Vertexes {
			o.Vertexes = append(o.Vertexes, M.apply(v3(v)).g())
		}
		shift := 0
		if r.Intn(2) == 0 {
			shift = r.Intn(nm)
		}
		same := r.Intn(4) == 0
		for _, f := range bases[bi].o.Faces {
			nf := &mqo.Face{Verts: append([]int{}, f.Verts...), UVs: append([]geom.Vector2{}, f.UVs...), Material: (f.Material + shift) % nm}
			if same {
				nf.Material = shift
			}
			o.Faces = append(o.Faces, nf)
		}
		if r.Intn(6) == 0 {
			o.Shading = 0
		}
		switch r.Intn(6) {
		case 0: // not shared
		case 1:
			o.Extra["sharedGeometryKey"] = fmt.Sprintf("key%d", bi)
			o.InternalTransform = nil
		default:
			o.Extra["sharedGeometryKey"] = fmt.Sprintf("key%d", bi)
		}
		d.Objects = append(d.Objects, o)
	}
	src := cloneMQO(d)
	opt := &converter.MQOToGLTFOption{ReuseGeometry: r.Intn(4) > 0}
	g := convertGltf(c, d, opt, c.Dir())
	checkGltf(c, g)
	nodes := g.nodesByName(c)
	worlds, _ := g.worlds()
	scale := effScale(opt)
	pos := map[int]int{}
	for _, o := range src.Objects {
		n := g.Nodes[nodes[o.Name]]
		var want [][]float64
		for _, f := range o.Faces {
			if o.Visible && !ignoredMaterial(src.Materials[f.Material].Name) {
				a := faceArea(o, f).mul(-scale * scale)
				var p V3
				for _, v := range f.Verts {
					p = p.add(v3(o.Vertexes[v]).mul(scale / float64(len(f.Verts))))
				}
				_ = p
				want = append(want, []float64{float64(f.Material), a[0], a[1], a[2]})
			}
		}
		if n.Mesh == nil {
			if len(want) > 0 {
				c.Fatalf("object %q has no mesh", o.Name)
			}
			continue
		}
		for _, p := range g.Meshes[*n.Mesh].Primitives {
			pos[p.Attributes["POSITION"]]++
		}
		tris := g.triangles(c, nodes[o.Name], worlds[nodes[o.Name]])
		// corners: every world position of a visible face appears, with its material
		for mi, m := range src.Materials {
			var wp, gp [][]float64
			var wa, ga V3
			wn := 0
			for _, f := range o.Faces {
				if f.Material != mi || ignoredMaterial(m.Name) {
					continue
				}
				wa = wa.add(faceArea(o, f).mul(-scale * scale))
				wn += len(f.Verts) - 2
				for k, v := range f.Verts {
					x := v3(o.Vertexes[v]).mul(scale)
					e := []float64{x[0], x[1], x[2]}
					if uvs {
						e = append(e, float64(f.UVs[k].X), float64(f.UVs[k].Y))
					}
					wp = append(wp, e)
				}
			}
			seen := map[int]bool{}
			for _, t := range tris[m.Name] {
				ga = ga.add(t[1].pos.sub(t[0].pos).cross(t[2].pos.sub(t[0].pos)))
				for _, co := range t {
					if !seen[co.vert] {
						seen[co.vert] = true
						e := []float64{co.pos[0], co.pos[1], co.pos[2]}
						if uvs {
							e = append(e, co.uv[0], co.uv[1])
						}
						gp = append(gp, e)
					}
					if co.hasN != (o.Shading > 0) {
						c.Fatalf("object %q has normals: %v", o.Name, co.hasN)
					}
				}
			}
			if wn != len(tris[m.Name]) {
				c.Fatalf("object %q material %q: %d triangles, want %d", o.Name, m.Name, len(tris[m.Name]), wn)
			}
			if e := matchSets(wp, gp, 2e-5); e != "" {
				c.Fatalf("object %q material %q (reuse %v): corners differ: %s", o.Name, m.Name, opt.ReuseGeometry, e)
			}
			if !(wa.dist(ga) <= 2e-2*wa.len()+1e-9) {
				c.Fatalf("object %q material %q: area vector %v, want %v", o.Name, m.Name, ga, wa)
			}
			c.ObsN("instance_ok", len(gp))
		}
	}
	shared := 0
	for _, n := range pos {
		if n > 1 {
			shared++
		}
	}
	c.ObsN("positions_shared", shared)
	c.Sig("inst %v %s", *opt, structSig(src))
}

// ---------------------------------------------------------------- P15

func gltfSkinCases(r *Run) {
	r.Repeat("skins", r.N(1500, 15000), func(c *C) { gltfSkinCase(c, false) })
	r.Repeat("many", r.N(6, 60), func(c *C) { gltfSkinCase(c, true) })
}

func gltfSkinCase(c *C, many bool) {
	r := c.R
	mode := r.Intn(2)
	s := gltfScene(c, mode)
	d := s.d
	if many {
		largeBones(c, d)
	}
	bp := mqo.GetBonePlugin(d)
	if len(bp.Bones()) > 0 && r.Intn(4) == 0 {
		bp.Bones()[r.Intn(len(bp.Bones()))].Parent = 999
		c.Obs("orphan_bone")
	}
	for _, o := range d.Objects {
		if len(o.VertexByUID) > 0 {
			c.Obs("vertex_ids")
		}
		if r.Intn(3) > 0 {
			o.Visible = true
		}
	}
	mp := mqo.GetMorphPlugin(d)
	if len(mp.Morphs()) > 0 && r.Intn(4) == 0 { // a target that does not exist, or does not match
		l := mp.Morphs()[0]
		l.Target = append([]*mqo.MorphTarget{{Name: "nowhere"}}, l.Target...)
	}
	src := cloneMQO(d)
	opt := *s.opt
	g := convertGltf(c, d, s.opt, c.Dir())
	checkGltf(c, g)
	compareSkins(c, s, src, &opt, g, mode)
	c.Sig("%d %v %s", mode, opt, structSig(src))
}

func compareSkins(c *C, s *sceneInfo, src *mqo.Document, opt *converter.MQOToGLTFOption, g *gDoc, mode int) {
	scale := effScale(opt)
	nodes := g.nodesByName(c)
	worlds, parents := g.worlds()
	bones := mqo.GetBonePlugin(src).Bones()
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		byID[b.ID] = b
	}
	for _, b := range bones {
		ni, ok := nodes[b.Name]
		if !ok {
			c.Fatalf("bone %q has no node", b.Name)
		}
		want := -1
		if p := byID[b.Parent]; b.Parent > 0 && p != nil {
			want = nodes[p.Name]
		}
		if parents[ni] != want {
			c.Fatalf("bone %q has parent node %d, want %d", b.Name, parents[ni], want)
		}
		// the rest pose puts the joint at the bone's position without rotation
		W := mTranslate(v3(&b.Pos.Vector3).mul(scale))
		if !(W.diff(worlds[ni]) <= 1e-5*(scale*600+1)) {
			c.Fatalf("bone %q rests at %v, want %v", b.Name, worlds[ni], W)
		}
		c.Obs("bone_ok")
	}
	weights := weightsOf(src)
	byName := map[string]*mqo.Object{}
	for _, o := range src.Objects {
		byName[o.Name] = o
	}
	for _, o := range src.Objects {
		if s.targets[o.Name] {
			continue
		}
		ni, ok := nodes[o.Name]
		if !ok || g.Nodes[ni].Mesh == nil {
			continue
		}
		n := g.Nodes[ni]
		anyW := false
		for _, b := range bones {
			for _, w := range b.Weights {
				anyW = anyW || w.ObjectID == o.UID
			}
		}
		if anyW != (n.Skin != nil) {
			c.Fatalf("object %q has weights: %v, a skin: %v", o.Name, anyW, n.Skin != nil)
		}
		var joints []int
		if n.Skin != nil {
			sk := g.Skins[*n.Skin]
			joints = sk.Joints
			if sk.InverseBindMatrices == nil {
				c.Fatalf("skin without inverse bind matrices")
			}
			ibm := g.mustRead(c, *sk.InverseBindMatrices)
			for k, j := range joints {
				var m M4
				copy(m[:], ibm[k])
				if e := worlds[j].mul(m).diff(ident); !(e <= 1e-5*(1+600*scale)) {
					c.Fatalf("object %q: joint %q times its inverse bind matrix is off by %g in the rest pose", o.Name, g.Nodes[j].Name, e)
				}
				c.Obs("ibm_ok")
			}
		}
		// morph targets
		var wantT []string
		for _, l := range mqo.GetMorphPlugin(src).Morphs() {
			if l.Base == o.Name {
				for _, t := range l.Target {
					if to := byName[t.Name]; to != nil && len(to.Vertexes) == len(o.Vertexes) {
						wantT = append(wantT, t.Name)
					}
				}
			}
		}
		m := g.Meshes[*n.Mesh]
		if fmt.Sprint(wantT) != fmt.Sprint(m.Extras.TargetNames) && len(wantT)+len(m.Extras.TargetNames) > 0 {
			c.Fatalf("object %q has the morph targets %q, want %q", o.Name, m.Extras.TargetNames, wantT)
		}
		// glTF vertex -> source vertex, by unique corner ids or by position
		srcOf := func(p V3, uv []float64) []int {
			var out []int
			if mode == 0 && uv != nil {
				for _, f := range o.Faces {
					for k, u := range f.UVs {
						if float64(u.X) == uv[0] && uv[0] != 0 {
							out = append(out, f.Verts[k])
						}
					}
				}
				if len(out) > 0 {
					return out
				}
				return nil
			}
			for vi, v := range o.Vertexes {
				if q := v3(v).mul(scale); q.dist(p) <= 1e-5*scale+2e-6*q.maxAbs() {
					out = append(out, vi)
				}
			}
			return out
		}
		for pi, p := range m.Primitives {
			pos := g.mustRead(c, p.Attributes["POSITION"])
			var uv, ja, wa [][]float64
			if a, ok := p.Attributes["TEXCOORD_0"]; ok {
				uv = g.mustRead(c, a)
			}
			if a, ok := p.Attributes["JOINTS_0"]; ok {
				ja, wa = g.mustRead(c, a), g.mustRead(c, p.Attributes["WEIGHTS_0"])
			}
			if (ja != nil) != (n.Skin != nil) {
				c.Fatalf("object %q primitive %d has joints: %v", o.Name, pi, ja != nil)
			}
			if len(p.Targets) != len(wantT) {
				c.Fatalf("object %q primitive %d has %d targets, want %d", o.Name, pi, len(p.Targets), len(wantT))
			}
			var deltas [][][]float64
			for _, t := range p.Targets {
				deltas = append(deltas, g.mustRead(c, t["POSITION"]))
			}
			used := map[int]bool{}
			for _, e := range g.mustRead(c, *p.Indices) {
				used[int(e[0])] = true
			}
			for v := range pos {
				if !used[v] {
					continue
				}
				var u []float64
				if uv != nil {
					u = uv[v]
				}
				cand := srcOf(V3{pos[v][0], pos[v][1], pos[v][2]}, u)
				if len(cand) == 0 {
					c.Fatalf("object %q: vertex %d at %v has no source", o.Name, v, pos[v])
				}
				if v >= len(o.Vertexes) {
					c.Obs("seam_copy")
				}
				why := ""
				ok := false
				for _, sv := range cand {
					why = ""
					if ja != nil {
						why = cmpWeights(c, g, joints, ja[v], wa[v], weights[o.UID][sv], byID)
					}
					for ti := range deltas {
						to := byName[wantT[ti]]
						want := v3(to.Vertexes[sv]).sub(v3(o.Vertexes[sv])).mul(scale)
						got := V3{deltas[ti][v][0], deltas[ti][v][1], deltas[ti][v][2]}
						if !(want.dist(got) <= 2e-6*scale*(v3(to.Vertexes[sv]).len()+v3(o.Vertexes[sv]).len()+1)) {
							why = fmt.Sprintf("target %s moves it by %v, want %v", wantT[ti], got, want)
						}
					}
					if why == "" {
						ok = true
						break
					}
				}
				if !ok {
					c.Fatalf("object %q vertex %d: %s", o.Name, v, why)
				}
				if ja != nil && len(weights[o.UID][cand[0]]) > 0 {
					c.Obs("weight_ok")
					if len(weights[o.UID][cand[0]]) > 4 {
						c.Obs("limited")
					}
				}
				c.ObsN("delta_ok", len(deltas))
			}
		}
	}
}

// cmpWeights compares the influences of one vertex (percent per bone id).
func cmpWeights(c *C, g *gDoc, joints []int, ja, wa []float64, want map[int]float64, byID map[int]*mqo.Bone) string {
	got := map[string]float64{}
	for k := range ja {
		if wa[k] != 0 {
			got[g.Nodes[joints[int(ja[k])]].Name] += wa[k]
		}
	}
	type bw struct {
		n string
		w float64
	}
	var l []bw
	for id, w := range want {
		if w != 0 {
			l = append(l, bw{byID[id].Name, w / 100})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].w > l[j].w || l[i].w == l[j].w && l[i].n < l[j].n })
	if len(l) > 4 {
		sum := 0.0
		for _, x := range l[:4] {
			sum += x.w
		}
		gs := 0.0
		var gl []float64
		for n, w := range got {
			gs += w
			gl = append(gl, w)
			found := false
			for _, x := range l {
				found = found || x.n == n && near(x.w/sum, w, 1e-5)
			}
			if !found {
				return fmt.Sprintf("influence of %s is %v; all influences are %v", n, w, l)
			}
		}
		if len(gl) != 4 || !near(gs, 1, 1e-5) {
			return fmt.Sprintf("influences %v, want the four largest of %v, normalised", got, l)
		}
		return ""
	}
	if len(got) != len(l) {
		return fmt.Sprintf("influences %v, want %v", got, l)
	}
	for _, x := range l {
		if !near(got[x.n], x.w, 1e-6) {
			return fmt.Sprintf("influences %v, want %v", got, l)
		}
	}
	return ""
}

// ---------------------------------------------------------------- P13

func gltfValidCases(r *Run) {
	r.Repeat("large", r.N(2, 20), gltfLargeCase)
	r.Repeat("many", r.N(4, 40), func(c *C) { gltfSkinCase(c, true) })
	r.Repeat("mqo", r.N(800, 8000), func(c *C) {
		s := gltfScene(c, c.R.Intn(3))
		texDir := c.Dir()
		decorateMaterials(c, s.d, texDir)
		for _, o := range s.d.Objects {
			if c.R.Intn(3) == 0 {
				o.Extra["light"] = map[string]interface{}{"type": "point", "intensity": 2.0}
				o.InternalTransform = mTRS(rv3(c.R, 10), rquat(c.R), V3{1, 1, 1}).g()
			}
		}
		s.opt.ExportLights = c.R.Intn(2) == 0
		s.opt.ConvertPhysics = c.R.Intn(2) == 0
		s.opt.DetectAlphaTexture = c.R.Intn(2) == 0
		s.opt.TextureReCompress = c.R.Intn(3) == 0
		sig := structSig(s.d)
		checkGltf(c, convertGltf(c, s.d, s.opt, texDir))
		c.Sig("%v %s", *s.opt, sig)
	})
	r.Repeat("motion", r.N(300, 3000), func(c *C) {
		d, bones, morphs := genRig(c)
		a := genMotion(c.R, bones, morphs)
		conv := converter.NewMQOToGLTFConverter(nil)
		doc, err := conv.Convert(d, c.Dir())
		if err != nil {
			c.Fatalf("%v", err)
		}
		converter.AddAnimationTpGlb(doc, a, conv.JointNodeToBone, true)
		g := rereadGltf(c, doc)
		checkGltf(c, g)
		c.ObsN("animation", len(g.Animations))
		c.Sig("motion %d %d", len(a.Bone), len(a.Morph))
	})
	r.Repeat("free", r.N(500, 5000), func(c *C) {
		// documents with every kind of field content
		d := genMQO(c.R, true)
		tameMQO(c.R, d)
		for _, m := range d.Materials {
			m.Color = geom.Vector4{X: c.R.Float32(), Y: c.R.Float32(), Z: c.R.Float32(), W: c.R.Float32()}
			m.Specular = c.R.Float32()
			if m.EmissionColor != nil {
				m.EmissionColor = &geom.Vector3{X: c.R.Float32() * 2, Y: c.R.Float32(), Z: c.R.Float32()}
			}
			if m.Ex2 != nil && m.Ex2.ShaderName == "glTF" {
				m.Ex2.ShaderParams = map[string]interface{}{}
			}
		}
		for _, b := range mqo.GetBonePlugin(d).Bones() {
			for _, w := range b.Weights {
				for _, v := range w.Vertexes {
					v.Weight = float32(c.R.Intn(101))
				}
			}
		}
		sig := structSig(d)
		checkGltf(c, convertGltf(c, d, &converter.MQOToGLTFOption{ConvertPhysics: c.R.Intn(2) == 0, IgnoreObjectHierarchy: c.R.Intn(2) == 0}, c.Dir()))
		c.Sig("free %s", sig)
	})
}

// ---------------------------------------------------------------- P16

type texFile struct {
	name    string // as written in the material
	path    string
	kind    string // png jpg bmp tga gif missing corrupt
	bytes   []byte
	w, h    int
	alpha   bool // has transparent pixels
	pixels  image.Image
	patches *[4][3]int // colours of the quarters of the image
}

func randImage(r *rand.Rand, w, h int, alpha int) *image.NRGBA {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			a := uint8(255)
			if alpha == 1 {
				a = uint8(r.Intn(255))
			}
			m.SetNRGBA(x, y, color.NRGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), a})
		}
	}
	return m
}

func writeTexture(c *C, dir, kind, name string) *texFile {
	r := c.R
	t := &texFile{name: name, kind: kind, path: filepath.Join(dir, name)}
	t.w, t.h = 1+r.Intn(24), 1+r.Intn(24)
	if r.Intn(6) == 0 {
		t.w, t.h = 60+r.Intn(40), 1+r.Intn(4)
		if r.Intn(2) == 0 {
			t.w, t.h = t.h, t.w
		}
	}
	t.alpha = (kind == "png" || kind == "tga") && r.Intn(2) == 0
	al := 0
	if t.alpha {
		al = 1
	}
	img := randImage(r, t.w, t.h, al)
	if t.w >= 8 && t.h >= 8 && !t.alpha && r.Intn(2) == 0 { // four patches of colour
		var q [4][3]int
		for i := range q {
			q[i] = [3]int{24 + r.Intn(208), 24 + r.Intn(208), 24 + r.Intn(208)}
		}
		for y := 0; y < t.h; y++ {
			for x := 0; x < t.w; x++ {
				p := q[x*2/t.w+y*2/t.h*2]
				img.SetNRGBA(x, y, color.NRGBA{uint8(p[0] + r.Intn(9) - 4), uint8(p[1] + r.Intn(9) - 4), uint8(p[2] + r.Intn(9) - 4), 255})
			}
		}
		t.patches = &q
	}
	t.pixels = img
	var b bytes.Buffer
	switch kind {
	case "png":
		must(png.Encode(&b, img))
	case "jpg":
		must(jpeg.Encode(&b, img, nil))
	case "bmp":
		b.Write(encBMP(img))
	case "tga":
		b.Write(encTGA(img))
	case "corrupt":
		b.WriteString("this is no image")
	case "missing":
		return t
	}
	t.bytes = b.Bytes()
	must(os.MkdirAll(filepath.Dir(t.path), 0755))
	must(os.WriteFile(t.path, t.bytes, 0644))
	return t
}

// encBMP: 24 bit bottom-up.
func encBMP(m *image.NRGBA) []byte {
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	row := (w*3 + 3) &^ 3
	b := &bin{}
	b.WriteString("BM")
	b.u32(54 + row*h)
	b.u32(0)
	b.u32(54)
	b.u32(40)
	b.u32(w)
	b.u32(h)
	b.u16(1)
	b.u16(24)
	for i := 0; i < 6; i++ {
		b.u32(0)
	}
	for y := h - 1; y >= 0; y-- {
		for x := 0; x < w; x++ {
			p := m.NRGBAAt(x, y)
			b.Write([]byte{p.B, p.G, p.R})
		}
		b.Write(make([]byte, row-w*3))
	}
	return b.Bytes()
}

// encTGA: uncompressed 32 bit, top-down.
func encTGA(m *image.NRGBA) []byte {
	w, h := m.Bounds().Dx(), m.Bounds().Dy()
	b := &bin{}
	b.Write([]byte{0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	b.u16(w)
	b.u16(h)
	b.Write([]byte{32, 0x28})
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := m.NRGBAAt(x, y)
			b.Write([]byte{p.B, p.G, p.R, p.A})
		}
	}
	b.u32(0)
	b.u32(0)
	b.WriteString("TRUEVISION-XFILE.\x00")
	return b.Bytes()
}

var extKeys = []struct{ flag, ext string }{
	{"SpecularExt", "KHR_materials_specular"}, {"Clearcoat", "KHR_materials_clearcoat"}, {"Sheen", "KHR_materials_sheen"},
	{"IorExt", "KHR_materials_ior"}, {"Volume", "KHR_materials_volume"}, {"Transmission", "KHR_materials_transmission"},
}

var extFloats = map[string][][2]string{
	"KHR_materials_specular":     {{"SpecularFactor", "specularFactor"}},
	"KHR_materials_clearcoat":    {{"ClearcoatFactor", "clearcoatFactor"}, {"ClearcoatRoughnessFactor", "clearcoatRoughnessFactor"}},
	"KHR_materials_sheen":        {{"SheenRoughnessFactor", "sheenRoughnessFactor"}},
	"KHR_materials_ior":          {{"Ior", "ior"}},
	"KHR_materials_volume":       {{"ThicknessFactor", "thicknessFactor"}, {"AttenuationDistance", "attenuationDistance"}},
	"KHR_materials_transmission": {{"TransmissionFactor", "transmissionFactor"}},
}
var extColors = map[string][][2]string{
	"KHR_materials_specular": {{"SpecularColorFactor", "specularColorFactor"}},
	"KHR_materials_sheen":    {{"SheenColorFactor", "sheenColorFactor"}},
	"KHR_materials_volume":   {{"AttenuationColor", "attenuationColor"}},
}
var extTextures = map[string][][2]string{
	"KHR_materials_specular":     {{"Specular", "specularTexture"}, {"SpecularColor", "specularColorTexture"}},
	"KHR_materials_clearcoat":    {{"Clearcoat", "clearcoatTexture"}, {"ClearcoatRoughness", "clearcoatRoughnessTexture"}, {"ClearcoatNormal", "clearcoatNormalTexture"}},
	"KHR_materials_sheen":        {{"SheenColor", "sheenColorTexture"}, {"SheenRoughness", "sheenRoughnessTexture"}},
	"KHR_materials_volume":       {{"Thickness", "thicknessTexture"}},
	"KHR_materials_transmission": {{"Transmission", "transmissionTexture"}},
}

// decorateMaterials assigns shaders and textures; returns the files by name.
func decorateMaterials(c *C, d *mqo.Document, dir string) map[string]*texFile {
	r := c.R
	files := map[string]*texFile{}
	var names []string
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		kind := []string{"png", "png", "jpg", "bmp", "tga", "missing", "corrupt"}[r.Intn(7)]
		ext := map[string]string{"png": ".png", "jpg": ".jpg", "bmp": ".bmp", "tga": ".tga", "missing": ".png", "corrupt": ".bmp"}[kind]
		if kind == "jpg" && r.Intn(2) == 0 {
			ext = ".jpeg"
		}
		if r.Intn(4) == 0 {
			ext = strings.ToUpper(ext)
		}
		name := fmt.Sprintf("t%d%s", i, ext)
		if r.Intn(3) == 0 {
			name = "sub/" + name
		}
		if r.Intn(6) == 0 {
			name = "テ" + name
			name = strings.ReplaceAll(name, "/", "_")
		}
		if len(names) > 0 && r.Intn(4) == 0 { // other files called nearly the same
			base := filepath.Base(names[r.Intn(len(names))])
			if strings.EqualFold(filepath.Ext(base), ext) {
				switch r.Intn(3) {
				case 0:
					name = "other/" + base
				case 1:
					name = strings.ToUpper(base)
				default:
					name = "sub/" + strings.ToLower(base)
				}
			}
			taken := false
			for _, f := range files {
				taken = taken || f.path == filepath.Join(dir, name)
			}
			if taken {
				continue
			}
		}
		t := writeTexture(c, dir, kind, name)
		if r.Intn(5) == 0 && !c.relative {
			t.name = t.path // absolute
		}
		files[t.name] = t
		names = append(names, t.name)
	}
	pick := func() string {
		if r.Intn(3) == 0 {
			return ""
		}
		return names[r.Intn(len(names))]
	}
	for _, m := range d.Materials {
		m.Texture, m.BumpTexture = pick(), ""
		if r.Intn(3) == 0 {
			m.BumpTexture = pick()
		}
		switch r.Intn(4) {
		case 0:
			m.Color.W = 1
		case 1:
			m.Color.W = []float32{0.99, 0.98, 0.995, 0.9899}[r.Intn(4)]
		}
		switch r.Intn(6) {
		case 0:
			m.Emission = []float32{0, 0.5, 1, 2, 0.001}[r.Intn(5)]
		case 1:
			m.EmissionColor = &geom.Vector3{X: r.Float32() * 2, Y: r.Float32(), Z: r.Float32() * 3}
			m.Emission = r.Float32()
		case 2:
			m.EmissionColor = &geom.Vector3{X: r.Float32(), Y: r.Float32(), Z: r.Float32()}
		default:
			m.Emission = 0
		}
		m.Shader = r.Intn(5)
		if r.Intn(2) == 0 {
			m.Ex2 = mqo.NewMaterialEx2([]string{"glTF", "glTF", "glTF", "other"}[r.Intn(4)])
			p := m.Ex2.ShaderParams
			num := func(k string, v float32) {
				if r.Intn(2) == 0 {
					p[k] = v
				} else {
					p[k] = float64(v)
				}
			}
			if r.Intn(4) > 0 {
				num("Metallic", rweight(r))
			}
			if r.Intn(4) > 0 {
				num("Roughness", rweight(r))
			}
			if r.Intn(4) > 0 {
				p["AlphaMode"] = r.Intn(4)
			}
			if r.Intn(2) == 0 {
				num("AlphaCutOff", rweight(r))
			}
			if r.Intn(4) == 0 {
				p["Extensions.Unlit"] = r.Intn(2) == 0
			}
			for _, k := range extKeys {
				if r.Intn(3) > 0 {
					continue
				}
				p["Extensions."+k.flag] = r.Intn(5) > 0
				for _, f := range extFloats[k.ext] {
					if r.Intn(2) == 0 {
						num("Extensions."+f[0], 0.1+r.Float32())
					}
				}
				for _, f := range extColors[k.ext] {
					if r.Intn(2) == 0 {
						p["Extensions."+f[0]] = []float32{r.Float32(), r.Float32(), r.Float32(), 1}
					}
				}
				for _, f := range extTextures[k.ext] {
					if r.Intn(2) == 0 {
						m.Ex2.ShaderMapping[f[0]] = pick()
					}
				}
			}
		}
	}
	return files
}

func gltfMaterialCases(r *Run) {
	r.Repeat("materials", r.N(1500, 12000), gltfMaterialCase)
	r.Repeat("alpha", r.N(400, 4000), gltfAlphaCase)
	r.Repeat("big", r.N(8, 80), bigTextureCase)
}
