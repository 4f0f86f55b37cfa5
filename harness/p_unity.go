package main

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
)

func init() {
	register(&Prop{
		ID:   "P24",
		Rule: "generated Unity projects and packages (scenes, nested prefabs with overrides, objects below prefab instances, built-in and FBX meshes, materials, textures, lights, colliders) are converted by the real library and command line tool; every object of the result is compared with an independently expanded object tree (name, parent, visibility, local and world placement, polygons, UVs, winding, materials, saved texture bytes, lights, physics bodies)",
		Require: []string{"object_ok", "builtin_mesh", "fbx_mesh", "mod_m_LocalPosition", "mod_m_Name", "mod_m_IsActive", "mod_m_Materials", "mod_m_Enabled", "instance_listed", "instance_not_listed", "object_below_instance",
			"nested_instance", "mirrored", "texture_saved", "texture_missing", "texture_not_saved", "uv_scaled", "light_ok", "collider_BOX", "collider_SPHERE", "collider_CAPSULE", "collider_mesh", "collider_direction", "package", "project", "cli", "documents_shuffled", "numeric_name", "hidden", "world_matrix", "other_scale", "material_empty", "material_missing", "unused_material", "prefab_missing", "mod_of_nothing", "mod_m_Type", "builtin_shape", "no_scene_rejected", "big_asset", "many_assets", "other_tags"},
		Cases: func(r *Run) {
			r.Case("builtin", unityBuiltinCase)
			r.Repeat("scene", r.N(2500, 60000), unityCase)
			r.Repeat("select", r.N(60, 1000), unitySelectCase)
		},
	})
	register(&Prop{
		ID:      "P25",
		Rule:    "packages with hostile entry names, links, truncations and bit flips, and damaged or cyclic scenes, prefabs, materials and meta files are opened by the real library and tool with their temporary directory inside a scratch tree; the tree outside it is hashed before and after and the temporary directory must be empty at the end",
		Require: []string{"hostile_entry", "truncated", "cut_rejected", "temp_checked", "outside_checked", "cyclic_prefab", "cyclic_transform", "damaged_yaml", "still_converted", "hostile_guid", "cli_run"},
		Cases: func(r *Run) {
			r.Repeat("archive", r.N(220, 4000), unityArchiveCase)
			r.Repeat("cycle", r.N(120, 2000), unityCycleCase)
			r.Repeat("damage", r.N(1500, 40000), unityDamageCase)
			r.Repeat("guid", r.N(40, 400), unityGuidCase)
		},
	})
}

// ---- P24

// unityBuiltinCase checks the shapes of the built-in meshes.
func unityBuiltinCase(c *C) {
	type shape struct {
		id     int64
		name   string
		closed bool
		vol    float64
		ext    V3
		on     func(v V3) bool
	}
	near := func(a, b float64) bool { return math.Abs(a-b) < 1e-5 }
	uvSign := float32(0)
	for _, s := range []shape{
		{10202, "Cube", true, 1, V3{0.5, 0.5, 0.5}, func(v V3) bool { return near(v.maxAbs(), 0.5) }},
		{10207, "Sphere", true, math.Pi / 6, V3{0.5, 0.5, 0.5}, func(v V3) bool { return near(v.len(), 0.5) }},
		{10206, "Cylinder", true, math.Pi / 2, V3{0.5, 1, 0.5}, func(v V3) bool { return near(math.Hypot(v[0], v[2]), 0.5) && near(math.Abs(v[1]), 1) }},
		{10208, "Capsule", true, math.Pi/6 + math.Pi/4, V3{0.5, 1, 0.5}, func(v V3) bool {
			v[1] = math.Max(0, math.Abs(v[1])-0.5)
			return near(v.len(), 0.5)
		}},
		{10209, "Plane", false, 0, V3{5, 0, 5}, func(v V3) bool { return near(v[1], 0) }},
		{10210, "Quad", false, 0, V3{0.5, 0.5, 0}, func(v V3) bool { return near(v[2], 0) }},
	} {
		vs, faces, uvs, name := unity.GetBuiltinMesh(&unity.Ref{FileID: s.id, GUID: uBuiltinMesh})
		if name != s.name {
			c.Fatalf("mesh %d is %q, want %q", s.id, name, s.name)
		}
		ext := V3{}
		for _, v := range vs {
			x := v3(v)
			if !s.on(x) {
				c.Failf("%s: vertex %v is not on the surface", s.name, x)
			}
			for k := range ext {
				ext[k] = math.Max(ext[k], math.Abs(x[k]))
			}
		}
		if ext.dist(s.ext) > 1e-5 {
			c.Failf("%s: extents %v, want %v", s.name, ext, s.ext)
		}
		if len(uvs) != len(faces) {
			c.Fatalf("%s: %d faces, %d UV lists", s.name, len(faces), len(uvs))
		}
		edges := map[[2]int]int{}
		vol, area := 0.0, V3{}
		for i, f := range faces {
			if len(uvs[i]) != len(f) {
				c.Fatalf("%s: face %d has %d corners and %d UVs", s.name, i, len(f), len(uvs[i]))
			}
			for k, v := range f {
				if v < 0 || v >= len(vs) {
					c.Fatalf("%s: vertex index %d", s.name, v)
				}
				edges[[2]int{v, f[(k+1)%len(f)]}]++
				if uv := uvs[i][k]; !(uv.X >= 0 && uv.X <= 1 && uv.Y >= 0 && uv.Y <= 1) {
					c.Failf("%s: UV %v", s.name, uv)
				}
				if k >= 2 {
					a, b, d := v3(vs[f[0]]), v3(vs[f[k-1]]), v3(vs[f[k]])
					vol += a.dot(b.cross(d)) / 6
					area = area.add(b.sub(a).cross(d.sub(a)))
				}
			}
		}
		if s.name == "Cube" || s.name == "Plane" || s.name == "Quad" {
			for i := range faces { // every face shows the whole texture, none is mirrored
				corners, uvArea := map[geom.Vector2]bool{}, float32(0)
				for k, a := range uvs[i] {
					b := uvs[i][(k+1)%len(uvs[i])]
					corners[a] = true
					uvArea += a.X*b.Y - a.Y*b.X
				}
				if len(corners) != 4 || uvArea != -2 && uvArea != 2 {
					c.Failf("%s: the UVs %v of face %d do not cover the texture", s.name, uvs[i], i)
				}
				if uvArea != uvSign && uvSign != 0 {
					c.Failf("%s: the texture of face %d is mirrored", s.name, i)
				}
				uvSign = uvArea
			}
		}
		if s.name == "Sphere" { // the texture has no seams but the one where it closes
			at := map[int]geom.Vector2{}
			for i, f := range faces {
				for k, v := range f {
					uv := uvs[i][k]
					w, ok := at[v]
					if !ok {
						at[v] = uv
						continue
					}
					du := math.Abs(float64(uv.X - w.X))
					pole := near(math.Abs(float64(vs[v].Y)), 0.5)
					if !near(float64(uv.Y), float64(w.Y)) || !pole && !near(du, 0) && !near(du, 1) {
						c.Failf("Sphere: vertex %d has the UVs %v and %v", v, uv, w)
					}
				}
			}
		}
		if s.closed {
			for e, n := range edges {
				if n != 1 || edges[[2]int{e[1], e[0]}] != 1 {
					c.Failf("%s: edge %v is used %d times, its reverse %d times", s.name, e, n, edges[[2]int{e[1], e[0]}])
					break
				}
			}
			// faces are clockwise seen from outside, so the signed volume is negative
			if !(-vol > s.vol*0.97 && -vol < s.vol*1.001) {
				c.Failf("%s: signed volume %v, want about %v", s.name, vol, -s.vol)
			}
		} else {
			want := V3{0, -200, 0}
			if s.name == "Quad" {
				want = V3{0, 0, -2}
			}
			if area.dist(want) > 1e-3 {
				c.Failf("%s: area vector %v, want %v", s.name, area, want)
			}
		}
		c.Obs("builtin_shape")
	}
}

type uExp struct {
	name    string
	depth   int
	visible bool
	o       *uObj // nil: an FBX model
	owner   *uObj
	w, aw   M4
}

func uFlat(roots []*uObj, scale float64) (out []*uExp) {
	f := mScale(V3{1, 1, -1})
	var walk func(o *uObj, d int, active bool, w, aw M4)
	walk = func(o *uObj, d int, active bool, w, aw M4) {
		active = active && o.active != 0
		l := f.mul(mTRS(o.t, o.q, o.s)).mul(f)
		w, aw = w.mul(l), aw.absmul(l)
		e := &uExp{name: o.name, depth: d, visible: active, o: o, owner: o, w: w, aw: aw}
		out = append(out, e)
		if o.mesh != nil && o.renderer {
			if o.mesh.fbx != nil {
				e.name += "(FBX)"
				out = append(out, &uExp{name: o.mesh.model.name, depth: d + 1, visible: active && o.enabled != 0, owner: o, w: w, aw: aw})
			} else {
				e.name += "(" + map[int64]string{10202: "Cube", 10206: "Cylinder", 10207: "Sphere", 10208: "Capsule", 10209: "Plane", 10210: "Quad"}[o.mesh.builtin] + ")"
				e.visible = active && o.enabled != 0
			}
		}
		for _, k := range o.children {
			walk(k, d+1, active, w, aw)
		}
	}
	s := mScale(V3{scale, scale, scale})
	for _, o := range roots {
		walk(o, 0, true, s, s)
	}
	return
}

type uPoly struct {
	pos []V3
	uv  [][2]float64
	mat *uMat
}

func (e *uExp) polys(c *C) (out []uPoly) {
	o := e.owner
	if o.mesh == nil || !o.renderer || (o.mesh.fbx != nil) != (e.o == nil) {
		return nil
	}
	_, det := e.w.inverse()
	uvScale := func(m *uMat) [2]float64 {
		if m == nil || m.tex == nil {
			return [2]float64{1, 1}
		}
		if m.uv != [2]float64{1, 1} {
			c.Obs("uv_scaled")
		}
		return m.uv
	}
	if o.mesh.fbx == nil {
		c.Obs("builtin_mesh")
		vs, faces, uvs, _ := unity.GetBuiltinMesh(&unity.Ref{FileID: o.mesh.builtin, GUID: uBuiltinMesh})
		for i, f := range faces {
			s := uvScale(o.mats[0])
			p := uPoly{mat: o.mats[0]}
			for k, v := range f {
				p.pos = append(p.pos, e.w.apply(v3(vs[v])))
				p.uv = append(p.uv, [2]float64{float64(uvs[i][k].X) * s[0], float64(uvs[i][k].Y) * s[1]})
			}
			if det < 0 {
				p.reverse()
			}
			out = append(out, p)
		}
		if det < 0 {
			c.Obs("mirrored")
		}
		return
	}
	c.Obs("fbx_mesh")
	g := o.mesh.model.geo
	s := f32(o.mesh.fbx.unit) * 0.01
	w := e.w.mul(mScale(V3{-s, s, -s}))
	for i, f := range g.polys {
		m := o.mats[g.mat[i]]
		sc := uvScale(m)
		p := uPoly{mat: m}
		for k, v := range f {
			p.pos = append(p.pos, w.apply(g.verts[v]))
			if g.uvs != nil {
				p.uv = append(p.uv, [2]float64{g.uvs[i][k][0] * sc[0], (1 - g.uvs[i][k][1]) * sc[1]})
			}
		}
		if det > 0 { // FBX polygons are counter-clockwise
			p.reverse()
		}
		out = append(out, p)
	}
	return
}

func (p *uPoly) reverse() {
	for i, j := 0, len(p.pos)-1; i < j; i, j = i+1, j-1 {
		p.pos[i], p.pos[j] = p.pos[j], p.pos[i]
	}
	for i, j := 0, len(p.uv)-1; i < j; i, j = i+1, j-1 {
		p.uv[i], p.uv[j] = p.uv[j], p.uv[i]
	}
}

func uName(s string, file bool) string {
	if file {
		return strings.TrimSpace(s)
	}
	return s
}

func checkUnity(c *C, p *uProject, d *mqo.Document, texDir string, file, physics bool) {
	scale := p.scale
	if scale == 0 {
		scale = 1000 // millimetres
	}
	exp := uFlat(p.scene.expand(), scale)
	if len(d.Objects) != len(exp) {
		var g, w []string
		for _, o := range d.Objects {
			g = append(g, fmt.Sprintf("%d:%s", o.Depth, o.Name))
		}
		for _, e := range exp {
			w = append(w, fmt.Sprintf("%d:%s", e.depth, e.name))
		}
		c.Fatalf("%d objects, want %d\ngot  %q\nwant %q", len(d.Objects), len(exp), g, w)
	}
	abs := 1e-4
	if file {
		abs = 1e-2
	}
	used := map[*uMat]bool{}
	usedMat := map[*uMat]int{}
	bodies := map[int]*mqo.PhysicsBody{}
	for _, b := range mqo.GetPhysicsPlugin(d).Bodies {
		if bodies[b.TargetObjID] != nil {
			c.Failf("two physics bodies for object %d", b.TargetObjID)
		}
		bodies[b.TargetObjID] = b
	}
	uids := map[int]bool{}
	wantBodies := 0
	for i, e := range exp {
		o := d.Objects[i]
		// object names in MQO files are unique
		if g, w := uName(o.Name, file), uName(e.name, file); g != w && !(file && strings.HasPrefix(g, w+"_")) {
			c.Fatalf("object %d is named %q, want %q", i, o.Name, e.name)
		}
		if o.Depth != e.depth {
			c.Fatalf("object %q has depth %d, want %d", o.Name, o.Depth, e.depth)
		}
		if o.Visible != e.visible {
			c.Failf("object %q visible: %v, want %v", o.Name, o.Visible, e.visible)
		}
		if !e.visible {
			c.Obs("hidden")
		}
		if o.UID == 0 || uids[o.UID] {
			c.Failf("object %q has the id %d", o.Name, o.UID)
		}
		uids[o.UID] = true
		if e.o != nil {
			f := mScale(V3{1, 1, -1})
			want := f.mul(mTRS(e.o.t.mul(scale), e.o.q, e.o.s)).mul(f)
			got := m4(o.GetLocalTransform())
			for k := range want {
				tol := 2e-3 * e.o.s.maxAbs() // Euler angles near the pole
				if k >= 12 {
					tol = abs + 1e-6*math.Abs(want[k])
				}
				if !(math.Abs(want[k]-got[k]) <= tol) {
					c.Failf("object %q local transform\ngot  %v\nwant %v", o.Name, got, want)
					break
				}
			}
		}
		// polygons
		ps := e.polys(c)
		if len(o.Faces) != len(ps) {
			c.Fatalf("object %q has %d faces, want %d", o.Name, len(o.Faces), len(ps))
		}
		for fi, q := range ps {
			checkUnityFace(c, d, o, fi, q, e, abs, used, usedMat)
		}
		if e.o == nil {
			continue
		}
		if !file {
			checkUnityLight(c, o, e)
		}
		if e.o.mesh != nil && e.o.renderer {
			for _, m := range e.o.mats {
				used[m] = true
			}
		}
		if physics && len(e.o.colliders) > 0 {
			wantBodies++
			b := bodies[o.UID]
			if b == nil {
				c.Failf("object %q has no physics body", o.Name)
				continue
			}
			checkUnityBody(c, b, e, file)
		}
		c.Obs("object_ok")
	}
	if !physics {
		wantBodies = 0
	}
	if len(bodies) != wantBodies {
		c.Failf("%d physics bodies, want %d", len(bodies), wantBodies)
	}
	if want := len(used); len(d.Materials) != want && !(want == 0 && len(d.Materials) == 1) {
		c.Failf("%d materials, want %d", len(d.Materials), want)
	}
	for m, i := range usedMat {
		g := d.Materials[i]
		name, col := "UnityDefaultMaterial", [4]float64{1, 1, 1, 1}
		tex, bump := "", ""
		var em *V3
		if m != nil {
			name, col, em = m.name, m.color, m.emission
			if m.tex != nil {
				tex = checkSavedTexture(c, m.tex, texDir)
			}
			if m.bump != nil {
				bump = checkSavedTexture(c, m.bump, texDir)
			}
		}
		if uName(g.Name, file) != uName(name, file) {
			c.Failf("material is named %q, want %q", g.Name, name)
		}
		got := [4]float64{float64(g.Color.X), float64(g.Color.Y), float64(g.Color.Z), float64(g.Color.W)}
		for k := range col {
			if math.Abs(col[k]-got[k]) > 1e-3 {
				c.Failf("material %q has colour %v, want %v", name, got, col)
				break
			}
		}
		if !file {
			if (em == nil) != (g.EmissionColor == nil) {
				c.Failf("material %q has emission %v, want %v", name, g.EmissionColor, em)
			} else if em != nil && v3(g.EmissionColor).dist(*em) > 1e-5 {
				c.Failf("material %q has emission %v, want %v", name, *g.EmissionColor, *em)
			}
		}
		if g.Texture != tex || g.BumpTexture != bump {
			c.Failf("material %q has textures %q %q, want %q %q", name, g.Texture, g.BumpTexture, tex, bump)
		}
		c.Obs("material_ok")
	}
	for _, o := range d.Objects {
		for _, f := range o.Faces {
			if f.Material < 0 || f.Material >= len(d.Materials) {
				c.Fatalf("object %q uses material %d of %d", o.Name, f.Material, len(d.Materials))
			}
		}
	}
}

func checkSavedTexture(c *C, t *uTex, texDir string) string {
	if t.missing {
		c.Obs("texture_missing")
		return ""
	}
	if texDir == "" {
		c.Obs("texture_not_saved")
		return ""
	}
	name := "saved_textures/" + t.guid + "_" + filepath.Base(t.path)
	b, err := os.ReadFile(filepath.Join(texDir, name))
	if err != nil {
		c.Failf("texture %s is not saved: %v", t.path, err)
	} else if !bytes.Equal(b, t.data) {
		c.Failf("saved texture of %s has %d bytes, want %d (or other content)", t.path, len(b), len(t.data))
	}
	c.Obs("texture_saved")
	return name
}

func checkUnityFace(c *C, d *mqo.Document, o *mqo.Object, fi int, q uPoly, e *uExp, abs float64, used map[*uMat]bool, usedMat map[*uMat]int) {
	f := o.Faces[fi]
	n := len(q.pos)
	if len(f.Verts) != n || (q.uv != nil) != (len(f.UVs) == n) {
		c.Fatalf("object %q face %d has %d corners and %d UVs, want %d", o.Name, fi, len(f.Verts), len(f.UVs), n)
	}
	pos := make([]V3, n)
	for k, v := range f.Verts {
		if v < 0 || v >= len(o.Vertexes) {
			c.Fatalf("object %q face %d vertex index %d", o.Name, fi, v)
		}
		pos[k] = v3(o.Vertexes[v])
	}
	ok := false
	for s := 0; s < n && !ok; s++ {
		ok = true
		for k := 0; k < n; k++ {
			w := q.pos[(k+s)%n]
			tol := abs + 2e-6*(w.maxAbs()+V3{e.aw[12], e.aw[13], e.aw[14]}.maxAbs()) + 2e-6*e.aw.norm()
			if !(pos[k].dist(w) <= tol) {
				ok = false
				break
			}
			if q.uv != nil {
				u := q.uv[(k+s)%n]
				if !(math.Abs(float64(f.UVs[k].X)-u[0]) <= 2e-5 && math.Abs(float64(f.UVs[k].Y)-u[1]) <= 2e-5) {
					ok = false
					break
				}
			}
		}
	}
	if !ok {
		c.Fatalf("object %q face %d\ngot  %v %v\nwant %v %v", o.Name, fi, pos, f.UVs, q.pos, q.uv)
	}
	if m, seen := usedMat[q.mat]; seen {
		if m != f.Material {
			c.Failf("object %q face %d has material %d, want %d", o.Name, fi, f.Material, m)
		}
	} else {
		for _, x := range usedMat {
			if x == f.Material {
				c.Failf("object %q face %d has the material of another one", o.Name, fi)
			}
		}
		usedMat[q.mat] = f.Material
	}
}

func checkUnityLight(c *C, o *mqo.Object, e *uExp) {
	l := e.o.light
	x, _ := o.Extra["light"].(map[string]interface{})
	if (l == nil) != (x == nil) {
		c.Failf("object %q has light %v, want %v", o.Name, x, l)
		return
	}
	if l == nil {
		return
	}
	if want := []string{"spot", "directional", "point"}[l.typ]; x["type"] != want {
		c.Failf("light %q is %v, want %v", o.Name, x["type"], want)
	}
	for k, v := range map[string]float64{"intensity": l.intensity, "range": l.rng, "outerConeAngle": l.spot, "innerConeAngle": l.innerSp} {
		if g, ok := x[k].(float32); !ok || float64(g) != f32(v) {
			c.Failf("light %q has %s %v, want %v", o.Name, k, x[k], v)
		}
	}
	col, _ := x["color"].([]float32)
	if len(col) != 3 {
		c.Fatalf("light %q has colour %v", o.Name, x["color"])
	}
	for k := 0; k < 3; k++ {
		if float64(col[k]) != f32(l.color[k]) {
			c.Failf("light %q has colour %v, want %v", o.Name, col, l.color)
		}
	}
	if o.InternalTransform == nil || m4(o.InternalTransform).diff(e.w) > 1e-4*(1+e.aw.norm()) {
		c.Failf("light %q is at %v, want %v", o.Name, o.InternalTransform, e.w)
	}
	c.Obs("light_ok")
}

// sameAxis tells whether column i of a and column j of b lie on one line.
func sameAxis(a M4, i int, b M4, j int) bool {
	dot := a[i*4]*b[j*4] + a[i*4+1]*b[j*4+1] + a[i*4+2]*b[j*4+2]
	return math.Abs(dot) > 1-1e-5
}

func checkUnityBody(c *C, b *mqo.PhysicsBody, e *uExp, file bool) {
	o := e.o
	body := uBody{mass: 1, kinematic: 1}
	if o.body != nil {
		body = *o.body
	}
	near := func(what string, want, got float64) {
		if !(math.Abs(want-got) <= 1e-3+1e-5*math.Abs(want)) {
			c.Failf("physics body %q: %s is %v, want %v", b.Name, what, got, want)
		}
	}
	near("mass", body.mass, float64(b.Mass))
	near("linear damping", body.drag, float64(b.LinearDamping))
	near("angular damping", body.adrag, float64(b.AngularDamping))
	if b.Kinematic != (body.kinematic != 0) {
		c.Failf("physics body %q kinematic: %v", b.Name, b.Kinematic)
	}
	if len(b.Shapes) != len(o.colliders) {
		c.Fatalf("physics body %q has %d shapes, want %d", b.Name, len(b.Shapes), len(o.colliders))
	}
	var sc V3
	var rot M4
	rot[15] = 1
	for k := 0; k < 3; k++ {
		col := V3{e.w[k*4], e.w[k*4+1], e.w[k*4+2]}
		sc[k] = col.len()
		for j := 0; j < 3; j++ {
			rot[k*4+j] = col[j] / sc[k]
		}
	}
	taken := map[*mqo.PhysicsShape]bool{}
	for _, co := range o.colliders {
		pos := e.w.apply(V3{co.center[0], co.center[1], -co.center[2]})
		size := V3{}
		switch co.kind {
		case "BOX":
			size = V3{co.size[0] * sc[0] / 2, co.size[1] * sc[1] / 2, co.size[2] * sc[2] / 2}
		case "SPHERE":
			size = V3{co.radius * sc[0], co.radius * sc[1], co.radius * sc[2]}
		case "CAPSULE":
			size = V3{co.radius * sc[0], (co.height - co.radius*2) * sc[1], co.radius * sc[2]}
		}
		turned := func(r M4) bool {
			switch {
			case co.kind == "CAPSULE" && co.axis != 1:
				return sameAxis(r, 1, rot, co.axis)
			case co.mesh == 10207: // a sphere
				return true
			}
			return r.diff(rot) < 2e-3
		}
		ok := false
		for _, s := range b.Shapes {
			if taken[s] || s.Type != co.kind {
				continue
			}
			gp, gs := v3((*geom.Vector3)(&s.Position)), v3((*geom.Vector3)(&s.Size))
			r := mEuler("ZXY", float64(s.Rotation.X), float64(s.Rotation.Y), float64(s.Rotation.Z))
			if gp.dist(pos) <= 0.02+1e-5*(pos.maxAbs()+e.aw.norm()) && gs.dist(size) <= 0.02+1e-4*size.maxAbs() && turned(r) {
				taken[s] = true
				ok = true
				break
			}
		}
		if !ok {
			var g []mqo.PhysicsShape
			for _, s := range b.Shapes {
				g = append(g, *s)
			}
			c.Failf("physics body %q has no %s at %v with size %v and rotation %v: %v", b.Name, co.kind, pos, size, rot, g)
		}
		c.Obs("collider_" + co.kind)
		if co.kind == "CAPSULE" && co.axis != 1 {
			c.Obs("collider_direction")
		}
		if co.mesh != 0 {
			c.Obs("collider_mesh")
		}
	}
}

// projectDir returns a project directory whose path may itself look like one.
func projectDir(c *C) string {
	d := filepath.Join(c.Dir(), []string{"proj", "MyAssets/p", "my proj", "プロジェクト"}[c.R.Intn(4)])
	if strings.Contains(d, "MyAssets") {
		c.Obs("assets_in_name")
	}
	must(os.MkdirAll(d, 0755))
	return d
}

func unityCase(c *C) {
	r := c.R
	cli := r.Intn(12) == 0
	p := genUnity(c, cli)
	for _, f := range append([]*uFile{p.scene}, p.prefab...) {
		if f != p.scene && len(f.insts) > 0 {
			for _, in := range p.scene.insts {
				if in.file == f {
					c.Obs("nested_instance")
				}
			}
		}
	}
	physics := p.phys && r.Intn(3) > 0
	pkg := r.Intn(3) == 0
	var d *mqo.Document
	var texDir string
	extracted := pkg && r.Intn(3) == 0
	var input string
	var dir string
	if pkg {
		c.Obs("package")
		texDir = filepath.Join(c.Dir(), "pk g")
		must(os.MkdirAll(texDir, 0755))
		dir = filepath.Join(texDir, "x.unitypackage")
		entries := p.packageEntries()
		if extracted {
			for _, e := range entries {
				if e.typ == tar.TypeDir {
					continue
				}
				f := filepath.Join(dir, e.name)
				must(os.MkdirAll(filepath.Dir(f), 0755))
				must(os.WriteFile(f, e.data, 0644))
			}
		} else {
			must(os.WriteFile(dir, gz(makeTar(entries)), 0644))
		}
		input = dir + "#" + p.scene.path
	} else {
		c.Obs("project")
		texDir = projectDir(c)
		input = p.writeProject(texDir)
	}
	c.Sig("o%d i%d f%d m%d pkg%v", len(p.scene.all), len(p.scene.insts), len(p.fbxs), len(p.mats), pkg)
	if cli {
		out := filepath.Join(c.Dir(), "out.mqo")
		args := []string{}
		if physics {
			args = append(args, "-physics")
		}
		mustCLI(c, "/", append(args, input, out)...)
		var err error
		if d, err = mqo.Load(out); err != nil {
			c.Fatalf("%v", err)
		}
		checkUnity(c, p, d, texDir, true, physics)
		c.Obs("cli")
		return
	}
	var as unity.Assets
	var err error
	switch {
	case pkg:
		as, err = unity.OpenPackage(dir)
	case r.Intn(2) == 0:
		as, err = unity.OpenProject(texDir)
	default:
		as, err = unity.OpenAssets(filepath.Join(texDir, "Assets"))
	}
	if err != nil {
		c.Fatalf("open: %v", err)
	}
	defer as.Close()
	for _, a := range p.assets {
		g := as.GetAsset(a.guid)
		if g == nil || filepath.ToSlash(g.Path) != a.path || as.GetAssetByPath(a.path) != g {
			c.Failf("asset %s %q is found as %v", a.guid, a.path, g)
		}
	}
	sc, err := unity.LoadScene(as, p.scene.path)
	if err != nil {
		c.Fatalf("load: %v", err)
	}
	for _, o := range sc.Objects {
		checkWorldMatrix(c, p, sc, o)
	}
	if r.Intn(3) == 0 {
		p.scale = []float64{1, 100, 64, 2500}[r.Intn(4)]
		c.Obs("other_scale")
	}
	if r.Intn(4) == 0 {
		d, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: physics, ConvertScale: float32(p.scale)}).Convert(sc)
		if err != nil {
			c.Fatalf("convert: %v", err)
		}
		checkUnity(c, p, d, "", false, physics)
		if _, err := os.Stat(filepath.Join(texDir, "saved_textures")); err == nil {
			c.Failf("textures are saved without being asked for")
		}
	}
	d, err = converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: true, ConvertPhysics: physics, ConvertScale: float32(p.scale)}).Convert(sc)
	if err != nil {
		c.Fatalf("convert: %v", err)
	}
	checkUnity(c, p, d, texDir, false, physics)
	if r.Intn(4) == 0 {
		// the same assets can be converted again
		sc, err := unity.LoadScene(as, p.scene.path)
		if err != nil {
			c.Fatalf("load: %v", err)
		}
		d, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: true, ConvertPhysics: physics, ConvertScale: float32(p.scale)}).Convert(sc)
		if err != nil {
			c.Fatalf("convert: %v", err)
		}
		checkUnity(c, p, d, texDir, false, physics)
		c.Obs("converted_twice")
	}
}

// checkWorldMatrix follows the objects of the scene file itself.
func checkWorldMatrix(c *C, p *uProject, sc *unity.Scene, root *unity.GameObject) {
	f := mScale(V3{1, 1, -1})
	for _, o := range p.scene.all {
		chain := []*uObj{o}
		for q := o.parent; q != nil; q = q.parent {
			chain = append(chain, q)
		}
		if last := chain[len(chain)-1]; last.name != root.Name || last.order == 0 {
			continue
		}
		below := false
		for _, a := range p.scene.onInst {
			below = below || a.obj == chain[len(chain)-1]
		}
		if below {
			continue
		}
		w, aw := mScale(V3{1, 1, 1}), mScale(V3{1, 1, 1})
		for i := len(chain) - 1; i >= 0; i-- {
			l := f.mul(mTRS(chain[i].t, chain[i].q, chain[i].s)).mul(f)
			w, aw = w.mul(l), aw.absmul(l)
		}
		tr, _ := sc.Elements[o.trID].(*unity.Transform)
		if tr == nil {
			c.Fatalf("object %q has no transform", o.name)
		}
		if got := m4(tr.GetWorldMatrix()); got.diff(w) > 1e-5*(1+aw.norm()) {
			c.Failf("object %q world matrix\ngot  %v\nwant %v", o.name, got, w)
		}
		if g := tr.GetGameObject(); g == nil || g.Name != o.name {
			c.Failf("transform of %q belongs to %v", o.name, g)
		}
		c.Obs("world_matrix")
	}
}

// unitySelectCase checks which scene of a package is converted.
func unitySelectCase(c *C) {
	r := c.R
	p := genUnity(c, true)
	for strings.HasSuffix(p.scene.path, ".prefab") {
		p = genUnity(c, true)
	}
	more := r.Intn(2)
	for i := 0; i < more; i++ {
		f := p.file(".unity")
		p.genFile(f, false, 1)
	}
	pk := filepath.Join(c.Dir(), "x.unitypackage")
	must(os.WriteFile(pk, gz(makeTar(p.packageEntries())), 0644))
	out := filepath.Join(c.Dir(), "out.mqo")
	res := runCLI(c, "/", pk, out)
	if more == 0 {
		if res.code != 0 {
			c.Fatalf("package with one scene: %s", tail(res.stderr, 5))
		}
		d, err := mqo.Load(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		checkUnity(c, p, d, c.Dir(), true, false)
		c.Obs("single_scene")
		return
	}
	if _, err := os.Stat(out); res.code == 0 || err == nil {
		c.Failf("package with %d scenes and no scene given: exit code %d", more+1, res.code)
	}
	res = runCLI(c, "/", pk+"#Assets/none.unity", out)
	if _, err := os.Stat(out); res.code == 0 || err == nil {
		c.Failf("missing scene: exit code %d", res.code)
	}
	c.Obs("no_scene_rejected")
}

// ---- P25

// scratchTree prepares scratch/a/b/c/tmp, with canaries, as the place where
// packages are unpacked: entries that climb up stay inside the scratch tree.
func scratchTree(c *C) (root, tmp string) {
	root = filepath.Join(c.Dir(), "tree")
	tmp = filepath.Join(root, "a", "b", "c", "tmp")
	must(os.MkdirAll(tmp, 0755))
	for _, f := range []string{"canary", "a/canary", "a/b/canary", "a/b/c/canary", "a/b/c/Assets/x"} {
		must(os.MkdirAll(filepath.Dir(filepath.Join(root, f)), 0755))
		must(os.WriteFile(filepath.Join(root, f), []byte("canary "+f), 0644))
	}
	return
}

func treeList(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = fi.Mode().String()
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[rel] += fmt.Sprintf(" %d %x", len(b), hash64(b))
		}
		return nil
	})
	return out
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func diffTrees(a, b map[string]string) (out []string) {
	for k, v := range b {
		if a[k] != v {
			out = append(out, fmt.Sprintf("%s: %q -> %q", k, a[k], v))
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			out = append(out, k+" removed")
		}
	}
	sort.Strings(out)
	return
}

// withTemp runs f with TMPDIR=tmp and checks what is left afterwards.
func withTemp(c *C, root, tmp string, f func()) {
	old, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	before := treeList(root)
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	f()
	ent, err := os.ReadDir(tmp)
	must(err)
	if len(ent) > 0 {
		c.Failf("%d entries are left in the temporary directory: %s", len(ent), ent[0].Name())
		for _, e := range ent {
			os.RemoveAll(filepath.Join(tmp, e.Name()))
		}
	}
	c.Obs("temp_checked")
	after := treeList(root)
	delete(before, "a/b/c/tmp")
	delete(after, "a/b/c/tmp")
	if d := diffTrees(before, after); len(d) > 0 {
		c.Failf("files outside the temporary directory changed: %v", head(d, 5))
	}
	c.Obs("outside_checked")
}

// convertPackage opens and converts a package, reporting what happened.
func convertPackage(c *C, pk, scene string) (*mqo.Document, error) {
	as, err := unity.OpenPackage(pk)
	if err != nil {
		return nil, err
	}
	defer as.Close()
	sc, err := unity.LoadScene(as, scene)
	if err != nil {
		return nil, err
	}
	return converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: false}).Convert(sc)
}

func unityArchiveCase(c *C) {
	r := c.R
	root, tmp := scratchTree(c)
	p := genUnity(c, true)
	entries := p.packageEntries()
	hostile := r.Intn(3) > 0
	if hostile {
		for i := 1 + r.Intn(3); i > 0; i-- {
			e := tarEntry{data: []byte("evil")}
			up := strings.Repeat("../", 1+r.Intn(4))
			switch r.Intn(9) {
			case 0:
				e.name = up + "evil"
			case 1:
				e.name = "x/" + up + "../canary"
			case 2:
				e.name = filepath.Join(root, "a", "evil")
			case 3:
				e.name = up + "canary"
			case 4:
				e.name, e.typ, e.data = up+"evildir/", tar.TypeDir, nil
			case 5:
				e.name, e.typ, e.link, e.data = "lnk", tar.TypeSymlink, root, nil
				entries = append(entries, e)
				e = tarEntry{name: "lnk/evil", data: []byte("evil")}
			case 6:
				e.name, e.typ, e.link, e.data = "lnk2", tar.TypeSymlink, filepath.Join(root, "canary"), nil
				entries = append(entries, e)
				e = tarEntry{name: "lnk2", data: []byte("evil")}
			case 7:
				e.name, e.typ, e.link, e.data = "hard", tar.TypeLink, filepath.Join(root, "canary"), nil
				entries = append(entries, e)
				e = tarEntry{name: "hard", data: []byte("evil")}
			case 8:
				e.name = p.assets[0].guid + "/" + up + "../canary"
			}
			k := r.Intn(len(entries) + 1)
			if e.name == "lnk/evil" || e.name == "lnk2" || e.name == "hard" {
				k = len(entries)
			}
			entries = append(entries[:k:k], append([]tarEntry{e}, entries[k:]...)...)
			c.Obs("hostile_entry")
		}
	}
	data := gz(makeTar(entries))
	damaged, mustReject := false, false
	switch r.Intn(4) {
	case 0:
		whole := data
		data = data[:r.Intn(len(data))]
		damaged = true
		c.Obs("truncated")
		// the tar reader needs everything before the two empty blocks at the end
		full, _ := io.ReadAll(mustGz(whole))
		part := []byte{}
		if g, err := gzip.NewReader(bytes.NewReader(data)); err == nil {
			part, _ = io.ReadAll(g)
		}
		mustReject = len(part) < len(bytes.TrimRight(full, "\x00"))
	case 1:
		if r.Intn(2) == 0 {
			t := makeTar(entries)
			data = gz(t[:r.Intn(len(t))])
			c.Obs("truncated")
		} else {
			data = append([]byte(nil), data...)
			data[r.Intn(len(data))] ^= 1 << uint(r.Intn(8))
			c.Obs("bit_flip")
		}
		damaged = true
	}
	pk := filepath.Join(c.Dir(), "in.unitypackage")
	must(os.WriteFile(pk, data, 0644))
	useCLI := r.Intn(3) == 0
	withTemp(c, root, tmp, func() {
		var err error
		if useCLI {
			out := filepath.Join(c.Dir(), "out.mqo")
			res := runCLI(c, "/", pk+"#"+p.scene.path, out)
			if res.code != 0 {
				err = fmt.Errorf("exit code %d: %s", res.code, tail(res.stderr, 3))
				if _, e := os.Stat(out); e == nil {
					c.Failf("a failed conversion left an output file")
				}
			} else if !hostile && !damaged {
				d, e := mqo.Load(out)
				if e != nil {
					c.Fatalf("%v", e)
				}
				checkUnity(c, p, d, c.Dir(), true, false)
			}
		} else {
			_, err = convertPackage(c, pk, p.scene.path)
		}
		if err == nil {
			c.Obs("still_converted")
			if mustReject {
				c.Failf("a package that was cut off is converted without an error")
			}
		} else {
			c.Obs("rejected")
			if mustReject {
				c.Obs("cut_rejected")
			}
			if !hostile && !damaged {
				c.Failf("intact package: %v", err)
			}
		}
	})
	c.Sig("h%v d%v n%d", hostile, damaged, len(entries))
}

// unityCycleCase converts projects whose prefabs or transforms contain themselves.
func unityCycleCase(c *C) {
	r := c.R
	p := genUnity(c, true)
	for len(p.prefab) == 0 {
		p = genUnity(c, true)
	}
	dir := filepath.Join(c.Dir(), "proj")
	if r.Intn(2) == 0 {
		// prefab k contains prefab k-1 ... contains prefab k
		n := 1 + r.Intn(len(p.prefab))
		for i := 0; i < n; i++ {
			f, g := p.prefab[i], p.prefab[(i+1)%n]
			par := f.roots[0].trID
			if r.Intn(3) == 0 {
				par = 0
			}
			f.data = append(append(f.data, '\n'), p.finish(fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n    m_Modifications: []\n    m_RemovedComponents: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", f.id(r), par, g.guid))...)
		}
		p.scene.data = append(append(p.scene.data, '\n'), p.finish(fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_Modification:\n    m_TransformParent: {fileID: 0}\n    m_Modifications: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", p.scene.id(r), p.prefab[0].guid))...)
		c.Obs("cyclic_prefab")
		c.Sig("prefab cycle %d", n)
	} else {
		// transforms listing an ancestor or themselves as child, or being their own father
		f := p.scene
		a, b, g := f.id(r), f.id(r), f.id(r)
		h := f.id(r)
		k := []int64{a, b}[r.Intn(2)]
		fa, fb := int64(0), a
		if r.Intn(3) == 0 {
			fa = []int64{a, b}[r.Intn(2)]
		}
		f.data = append(append(f.data, '\n'), p.finish(fmt.Sprintf("--- !u!1 &%d\nGameObject:\n  m_Component:\n  - component: {fileID: %d}\n  m_Name: ca\n  m_IsActive: 1\n--- !u!4 &%d\nTransform:\n  m_GameObject: {fileID: %d}\n  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}\n  m_LocalPosition: {x: 0, y: 0, z: 0}\n  m_LocalScale: {x: 1, y: 1, z: 1}\n  m_Children:\n  - {fileID: %d}\n  m_Father: {fileID: %d}\n--- !u!1 &%d\nGameObject:\n  m_Component:\n  - component: {fileID: %d}\n  m_Name: cb\n  m_IsActive: 1\n--- !u!4 &%d\nTransform:\n  m_GameObject: {fileID: %d}\n  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}\n  m_LocalPosition: {x: 0, y: 0, z: 0}\n  m_LocalScale: {x: 1, y: 1, z: 1}\n  m_Children:\n  - {fileID: %d}\n  m_Father: {fileID: %d}\n", g, a, a, g, b, fa, h, b, b, h, k, fb))...)
		c.Obs("cyclic_transform")
		c.Sig("transform cycle %v %v", k == a, fa)
	}
	in := p.writeProject(dir)
	// any outcome but a crash or a run that does not end is fine
	res := runCLI(c, "/", in, filepath.Join(c.Dir(), "out.mqo"))
	c.Sig("exit %d", res.code)
}

// unityDamageCase converts projects with damaged files.
func unityDamageCase(c *C) {
	r := c.R
	p := genUnity(c, true)
	for i := 1 + r.Intn(3); i > 0; i-- {
		a := p.assets[r.Intn(len(p.assets))]
		if r.Intn(2) == 0 {
			a = p.scene.uAsset
		}
		if strings.HasSuffix(strings.ToLower(a.path), ".fbx") {
			continue
		}
		if r.Intn(6) == 0 {
			a.meta = string(damageText(c, []byte(a.meta)))
			c.Obs("damaged_meta")
		} else {
			a.data = damageText(c, a.data)
		}
		c.Obs("damaged_yaml")
	}
	dir := filepath.Join(c.Dir(), "proj")
	p.writeProject(dir)
	as, err := unity.OpenProject(dir)
	if err != nil {
		return
	}
	defer as.Close()
	sc, err := unity.LoadScene(as, p.scene.path)
	if err != nil {
		c.Obs("rejected")
		return
	}
	d, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{SaveTexrure: false, ConvertPhysics: r.Intn(2) == 0}).Convert(sc)
	if err != nil {
		return
	}
	for _, o := range d.Objects {
		for _, f := range o.Faces {
			for _, v := range f.Verts {
				if v < 0 || v >= len(o.Vertexes) {
					c.Failf("object %q: vertex index %d of %d", o.Name, v, len(o.Vertexes))
				}
			}
			if f.Material < 0 || f.Material >= len(d.Materials) {
				c.Failf("object %q: material %d of %d", o.Name, f.Material, len(d.Materials))
			}
		}
	}
	c.Obs("still_converted")
	c.Sig("o%d m%d", len(d.Objects), len(d.Materials))
}

// damageText removes, repeats or alters parts of a text file.
func damageText(c *C, data []byte) []byte {
	r := c.R
	lines := strings.Split(string(data), "\n")
	pick := func() int { return r.Intn(len(lines)) }
	switch r.Intn(11) {
	case 10: // modifications of other and impossible properties
		for k := 0; k < 60; k++ {
			i := pick()
			if j := strings.Index(lines[i], "propertyPath: "); j > 0 {
				lines[i] = lines[i][:j+14] + []string{"m_Materials.Array.data[-1]", "m_Materials.Array.data[", "m_Materials.Array.data[]", "m_Materials.Array.data[0", "m_Materials.Array.data[99]", "m_Materials.Array.size", "m_Materials", "m_Children.Array.data[0]", "m_Component.Array.data[0].component", "m_LocalPosition.Array.data[0]", "m_Name.Array.data[0]", "m_LocalPosition", "m_LocalPosition.q", "m_Father", "m_GameObject", "m_Mesh", "\"\"", "...", "m_Color.Array.data[0]", "m_IsActive.Array.data[0]"}[r.Intn(20)]
				c.Obs("odd_property_path")
				break
			}
		}
	case 0:
		return data[:r.Intn(len(data)+1)]
	case 1:
		i := pick()
		lines = append(lines[:i], lines[i+1:]...)
	case 2:
		i := pick()
		j := i + r.Intn(len(lines)-i)
		lines = append(lines[:i], lines[j:]...)
	case 3: // a mapping loses its value
		for k := 0; k < 20; k++ {
			i := pick()
			if j := strings.Index(lines[i], ": "); j > 0 {
				lines[i] = lines[i][:j+1]
				break
			}
		}
	case 4: // a value of another kind
		for k := 0; k < 20; k++ {
			i := pick()
			if j := strings.Index(lines[i], ": "); j > 0 {
				lines[i] = lines[i][:j+2] + []string{"null", "[]", "{}", "abc", "-1", "1e999", "99999999999999999999", "[1, 2]", "{fileID: 0}", "{fileID: x}", "\"", "*a", "&b 1", "!!int x"}[r.Intn(14)]
				break
			}
		}
	case 5: // documents without a body, odd tags and ids
		i := pick()
		l := []string{"---", "--- !u!1", "--- !u!4 &7", "--- !u!1 &8\nGameObject:", "--- !u!1001 &9\nPrefabInstance:", "--- !u!4 &5\nTransform:\n", "--- !x!1 &3", "--- !u! &3", "--- !u", "--- !", "%TAG", "%TAG !u!", "%TAG ! tag:x", "--- !u!33 &4\nMeshFilter: 3", "--- !u!1 &6\nGameObject: [1]", "--- !u!1001 &9\nPrefabInstance:\n  m_SourcePrefab: {fileID: 1, guid: " + c.firstPrefab() + "}"}
		lines = append(lines[:i:i], append([]string{l[r.Intn(len(l))]}, lines[i:]...)...)
	case 6:
		b := append([]byte(nil), data...)
		for k := 1 + r.Intn(4); k > 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
		return b
	case 7: // references to other file ids
		for k := 0; k < 40; k++ {
			i := pick()
			if j := strings.Index(lines[i], "fileID: "); j > 0 {
				m := lines[pick()]
				if q := strings.Index(m, "fileID: "); q > 0 {
					lines[i] = lines[i][:j] + m[q:]
					break
				}
			}
		}
	case 8:
		i := pick()
		lines = append(lines[:i:i], append([]string{lines[pick()]}, lines[i:]...)...)
	case 9:
		for k := 0; k < 40; k++ {
			i := pick()
			if strings.Contains(lines[i], "- {fileID") || strings.Contains(lines[i], "- component") {
				lines[i] = strings.Repeat(" ", strings.Index(lines[i], "-")) + "- " + []string{"", "null", "component:", "{}"}[r.Intn(4)]
				break
			}
		}
	}
	return []byte(strings.Join(lines, "\n"))
}

func (c *C) firstPrefab() string { return "00000000000000000000000000000000" }

// unityGuidCase: a .meta file whose guid is a path must not move the saved
// textures out of their directory.
func unityGuidCase(c *C) {
	r := c.R
	root, _ := scratchTree(c)
	dir := filepath.Join(root, "a", "b", "c", "proj")
	p := &uProject{c: c, r: r, simple: true, names: map[string]bool{}, guids: map[string]bool{}, paths: map[string]bool{}}
	m := p.material()
	for m.tex == nil {
		m = p.material()
	}
	evil := strings.Repeat("../", 1+r.Intn(4)) + "evil"
	if r.Intn(3) == 0 {
		evil = filepath.Join(root, "evil")
	}
	old := m.tex.guid
	for _, a := range p.assets {
		a.data = bytes.ReplaceAll(a.data, []byte(old), []byte(evil))
		a.meta = strings.ReplaceAll(a.meta, old, evil)
	}
	p.scene = p.file(".unity")
	p.scene.ids = map[int64]bool{}
	o := p.object(p.scene)
	o.mesh, o.renderer, o.mats = &uMesh{builtin: 10202}, true, []*uMat{m}
	o.goID, o.trID, o.rendID, o.mfID, o.lightID = 1, 2, 3, 4, 5
	p.scene.roots = []*uObj{o}
	p.writeFile(p.scene)
	in := p.writeProject(dir)
	before := treeList(root)
	runCLI(c, "/", in, filepath.Join(c.Dir(), "out.mqo"))
	after := treeList(root)
	for k := range after {
		if strings.HasPrefix(k, "a/b/c/proj/saved_textures") {
			delete(after, k)
		}
	}
	delete(before, "a/b/c/proj")
	delete(after, "a/b/c/proj")
	if d := diffTrees(before, after); len(d) > 0 {
		c.Failf("files outside saved_textures changed: %v", head(d, 5))
	}
	c.Obs("hostile_guid")
}

func mustGz(data []byte) io.Reader {
	g, err := gzip.NewReader(bytes.NewReader(data))
	must(err)
	return g
}
