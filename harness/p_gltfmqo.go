package main

// P20: glTF to MQO.

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:   "P20",
		Rule: "seeded glTF files as other programs write them are converted to MQO through the converter and through the command line tool; every source triangle (lists, strips, fans, indexed or not, in several primitives) is placed by an independent evaluation of the node tree and accounted for in the result with its corners, UVs, winding and material; materials and bones are compared with the source",
		Assumptions: []string{
			"normals, vertex colours, weights and morph targets are not converted by the tool and not claimed",
			"primitives without a material may use any material",
		},
		Require: []string{"triangle_ok", "uv_ok", "multi_primitive", "no_indices", "mode_5", "mode_6", "mode_1", "mirrored", "material_ok", "texture_file", "bone_ok", "skinned_mesh", "cli", "api", "normalized_uv", "large_grid", "long_fan"},
		Cases: func(r *Run) {
			r.Repeat("convert", r.N(1200, 12000), gltfToMqoCase)
			r.Repeat("large", r.N(6, 60), gltf2mqoLargeCase)
		},
	})
}

type triCorner struct {
	p  V3
	uv []float64
}

func gltfToMqoCase(c *C) {
	r := c.R
	g := newGGen(c)
	g.Skins, g.Lines, g.ExtImages = r.Intn(2) == 0, true, true
	g.Mirror = r.Intn(2) == 0
	dir := c.Dir()
	g.build(1+r.Intn(7), 1+r.Intn(3), 1+r.Intn(4))
	in := g.write(dir, "in", r.Intn(2) == 0)
	src, err := loadGltfFile(in)
	must(err)
	if v := src.validate(); len(v.errs) > 0 {
		panic(infra{fmt.Errorf("generated glTF is invalid: %v", v.errs)})
	}
	var d *mqo.Document
	file := r.Intn(4) == 0
	if file {
		out := filepath.Join(dir, "out.mqoz")
		mustCLI(c, "/", in, out)
		d, err = mqo.Load(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("cli")
	} else {
		gd, err := gltfutil.Load(in)
		if err != nil {
			c.Fatalf("%v", err)
		}
		d, err = converter.NewGLTFToMQOConverter(nil).Convert(gd)
		if err != nil {
			c.Fatalf("%v", err)
		}
		c.Obs("api")
	}
	checkGltfMqo(c, src, d, file)
	c.Sig("n%d m%d s%d o%d", len(src.Nodes), len(src.Meshes), len(src.Skins), len(d.Objects))
}

// checkGltfMqo: file is set when d went through an MQO file, whose colours have
// three decimals and whose object names are unique.
func checkGltfMqo(c *C, src *gDoc, d *mqo.Document, file bool) {
	w, _ := src.worlds()
	oi := 0
	for ni, n := range src.Nodes {
		if n.Mesh == nil {
			continue
		}
		if oi >= len(d.Objects) {
			c.Fatalf("the mesh of node %d has no object", ni)
		}
		obj := d.Objects[oi]
		oi++
		mesh := src.Meshes[*n.Mesh]
		if obj.Name != mesh.Name && !(file && strings.HasPrefix(obj.Name, mesh.Name+"_")) {
			c.Failf("object %d is %q, the mesh %q", oi-1, obj.Name, mesh.Name)
		}
		if !obj.Visible {
			c.Failf("object %q is hidden", obj.Name)
		}
		m := w[ni]
		if n.Skin != nil {
			m = mScale(V3{1, 1, 1})
			c.Obs("skinned_mesh")
		}
		mag := 0.0
		type wantTri struct {
			c   [3]triCorner
			mat int
		}
		var want []wantTri
		if len(mesh.Primitives) > 1 {
			c.Obs("multi_primitive")
		}
		det := V3{m[0], m[1], m[2]}.cross(V3{m[4], m[5], m[6]}).dot(V3{m[8], m[9], m[10]})
		if det < 0 {
			c.Obs("mirrored")
		}
		for _, p := range mesh.Primitives {
			pos := src.mustRead(c, p.Attributes["POSITION"])
			var uv [][]float64
			if a, ok := p.Attributes["TEXCOORD_0"]; ok {
				uv = src.mustRead(c, a)
				if src.Accessors[a].Normalized {
					c.Obs("normalized_uv")
				}
			}
			var ix []int
			if p.Indices != nil {
				for _, v := range src.mustRead(c, *p.Indices) {
					ix = append(ix, int(v[0]))
				}
			} else {
				for k := range pos {
					ix = append(ix, k)
				}
			}
			mode := 4
			if p.Mode != nil {
				mode = *p.Mode
			}
			mat := -1
			if p.Material != nil {
				mat = *p.Material
			}
			tri := func(a, b, e int) {
				var t wantTri
				for k, i := range []int{a, b, e} {
					v := m.apply(V3{pos[i][0], pos[i][1], pos[i][2]})
					mag = math.Max(mag, v.maxAbs())
					t.c[k].p = v
					if uv != nil {
						t.c[k].uv = uv[i]
					}
				}
				if det > 0 { // MQO faces are clockwise
					t.c[1], t.c[2] = t.c[2], t.c[1]
				}
				t.mat = mat
				want = append(want, t)
			}
			switch mode {
			case 4:
				for k := 0; k+2 < len(ix); k += 3 {
					tri(ix[k], ix[k+1], ix[k+2])
				}
			case 5:
				for k := 0; k+2 < len(ix); k++ {
					if k%2 == 0 {
						tri(ix[k], ix[k+1], ix[k+2])
					} else {
						tri(ix[k+1], ix[k], ix[k+2])
					}
				}
			case 6:
				for k := 1; k+1 < len(ix); k++ {
					tri(ix[0], ix[k], ix[k+1])
				}
			}
		}
		if len(want) != len(obj.Faces) {
			c.Fatalf("object %q: %d triangles became %d faces", obj.Name, len(want), len(obj.Faces))
		}
		tol := 2e-5 * (1 + mag)
		usedF := make([]bool, len(obj.Faces))
		for wi, t := range want {
			found := false
			for fi, f := range obj.Faces {
				if usedF[fi] || len(f.Verts) != 3 {
					continue
				}
				if t.mat >= 0 && f.Material != t.mat {
					continue
				}
				for rot := 0; rot < 3 && !found; rot++ {
					ok := true
					for k := 0; k < 3 && ok; k++ {
						i := (k + rot) % 3
						if f.Verts[i] < 0 || f.Verts[i] >= len(obj.Vertexes) {
							c.Fatalf("object %q face %d uses vertex %d of %d", obj.Name, fi, f.Verts[i], len(obj.Vertexes))
						}
						if v3(obj.Vertexes[f.Verts[i]]).dist(t.c[k].p) > tol {
							ok = false
						} else if (t.c[k].uv != nil) != (len(f.UVs) == 3) {
							ok = false
						} else if t.c[k].uv != nil && (math.Abs(float64(f.UVs[i].X)-t.c[k].uv[0]) > 2e-5 || math.Abs(float64(f.UVs[i].Y)-t.c[k].uv[1]) > 2e-5) {
							ok = false
						}
					}
					if ok {
						found = true
						usedF[fi] = true
						c.Obs("triangle_ok")
						if t.c[0].uv != nil {
							c.Obs("uv_ok")
						}
					}
				}
				if found {
					break
				}
			}
			if !found {
				c.Fatalf("object %q: triangle %d (material %d, corners %v) has no face", obj.Name, wi, t.mat, t.c)
			}
		}
	}
	if oi != len(d.Objects) {
		c.Failf("%d objects for %d mesh nodes", len(d.Objects), oi)
	}
	// materials
	if len(d.Materials) != len(src.Materials) {
		c.Fatalf("%d materials became %d", len(src.Materials), len(d.Materials))
	}
	near := func(what string, a, b float64) {
		if tol := map[bool]float64{false: 1e-5, true: 6e-4}[file]; !(math.Abs(a-b) <= tol) {
			c.Failf("%s is %v, want %v", what, b, a)
		}
	}
	for i, m := range src.Materials {
		g := d.Materials[i]
		at := fmt.Sprintf("material %d %q ", i, m.Name)
		if g.Name != m.Name {
			c.Failf("%s is named %q", at, g.Name)
		}
		if g.DoubleSided != m.DoubleSided {
			c.Failf("%s double sided %v", at, g.DoubleSided)
		}
		col := []float64{1, 1, 1, 1}
		metal, rough := 1.0, 1.0
		tex := ""
		if m.PBR != nil {
			if len(m.PBR.BaseColorFactor) == 4 {
				col = m.PBR.BaseColorFactor
			}
			if m.PBR.MetallicFactor != nil {
				metal = *m.PBR.MetallicFactor
			}
			if m.PBR.RoughnessFactor != nil {
				rough = *m.PBR.RoughnessFactor
			}
			if t := m.PBR.BaseColorTexture; t != nil {
				if s := src.Textures[*t.Index].Source; s != nil && !strings.HasPrefix(src.Images[*s].URI, "data:") && src.Images[*s].URI != "" {
					tex = unescape(src.Images[*s].URI)
					c.Obs("texture_file")
				}
			}
		}
		near(at+"red", col[0], float64(g.Color.X))
		near(at+"green", col[1], float64(g.Color.Y))
		near(at+"blue", col[2], float64(g.Color.Z))
		near(at+"alpha", col[3], float64(g.Color.W))
		if g.Texture != tex {
			c.Failf("%s texture is %q, want %q", at, g.Texture, tex)
		}
		em := []float64{0, 0, 0}
		if len(m.EmissiveFactor) == 3 {
			em = m.EmissiveFactor
		}
		if g.EmissionColor != nil {
			near(at+"emission red", em[0], float64(g.EmissionColor.X))
			near(at+"emission green", em[1], float64(g.EmissionColor.Y))
			near(at+"emission blue", em[2], float64(g.EmissionColor.Z))
		} else if em[0]+em[1]+em[2] != 0 {
			c.Failf("%s lost its emission", at)
		}
		if g.Ex2 == nil || g.Ex2.ShaderName != "glTF" {
			c.Failf("%s has no glTF shader", at)
			continue
		}
		want := map[string]int{"": 1, "OPAQUE": 1, "MASK": 2, "BLEND": 3}[m.AlphaMode]
		if am := g.Ex2.IntParam("AlphaMode"); am != want {
			c.Failf("%s alpha mode %q became %d", at, m.AlphaMode, am)
		}
		if want == 2 {
			cut := 0.5
			if m.AlphaCutoff != nil {
				cut = *m.AlphaCutoff
			}
			near(at+"alpha cutoff", cut, g.Ex2.FloatParam("AlphaCutOff"))
		}
		if m.PBR != nil {
			near(at+"metallic", metal, g.Ex2.FloatParam("Metallic"))
			near(at+"roughness", rough, g.Ex2.FloatParam("Roughness"))
		}
		c.Obs("material_ok")
	}
	// bones
	wantB := map[string]int{}
	seen := map[int]bool{}
	parentOf := map[string]string{}
	var walk func(n int, parent string)
	walk = func(n int, parent string) {
		wantB[src.Nodes[n].Name] = n
		parentOf[src.Nodes[n].Name] = parent
		for _, k := range src.Nodes[n].Children {
			walk(k, src.Nodes[n].Name)
		}
	}
	for _, s := range src.Skins {
		if s.Skeleton != nil && !seen[*s.Skeleton] {
			seen[*s.Skeleton] = true
			walk(*s.Skeleton, "")
		}
	}
	bones := mqo.GetBonePlugin(d).Bones()
	if len(bones) != len(wantB) {
		c.Fatalf("%d bones for %d nodes", len(bones), len(wantB))
	}
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		if byID[b.ID] != nil || b.ID <= 0 {
			c.Failf("bone id %d is repeated or not positive", b.ID)
		}
		byID[b.ID] = b
	}
	for _, b := range bones {
		n, ok := wantB[b.Name]
		if !ok {
			c.Failf("bone %q is no node", b.Name)
			continue
		}
		p := ""
		if b.Parent > 0 && byID[b.Parent] != nil {
			p = byID[b.Parent].Name
		}
		if p != parentOf[b.Name] {
			c.Failf("bone %q has parent %q, want %q", b.Name, p, parentOf[b.Name])
		}
		at := V3{w[n][12], w[n][13], w[n][14]}
		if v3(&b.Pos.Vector3).dist(at) > 1e-4*(1+at.maxAbs()) {
			c.Failf("bone %q is at %v, want %v", b.Name, v3(&b.Pos.Vector3), at)
		}
		c.Obs("bone_ok")
	}
}
