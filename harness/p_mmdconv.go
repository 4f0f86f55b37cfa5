package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

func init() {
	register(&Prop{
		ID:          "P10",
		Rule:        "distinct MMD models (by section sizes and option set) converted by the real code and accounted for face by face, vertex by vertex, bone by bone",
		Assumptions: []string{"material and morph names of a model are unique and do not collide with generated object names", "all references of the model are in range or -1"},
		Require:     []string{"face", "corner_weight", "dup_bone_weight", "morph_target", "uv_morph", "orphan_morph", "material_morph", "body", "joint", "inherit_parent", "ik", "repeat", "multi_group", "large_grid"},
		Cases:       mmd2mqoCases,
	})
	register(&Prop{
		ID:          "P11",
		Rule:        "distinct Metasequoia documents (by structure) converted to MMD by the real code and accounted for face by face, vertex by vertex, bone by bone",
		Assumptions: []string{"faces are simple planar polygons", "object and morph names are unique", "documents use one target list per morph base"},
		Require:     []string{"triangle", "polygon", "concave", "invisible", "morph_offset", "weight", "many_weights", "body", "bodyless_bone", "bone_parent", "normal", "shared_uv", "large_grid"},
		Cases:       mqo2mmdCases,
	})
	register(&Prop{
		ID:          "P12",
		Rule:        "distinct MMD models (by section sizes) sent through MMD -> MQO -> MMD by the real code and compared face by face",
		Assumptions: []string{"normals are unit vectors", "material and morph names are unique", "bone parents form a forest"},
		Require:     []string{"face", "weight", "morph_offset", "small_morph", "bone", "body"},
		Cases:       mmdChainCases,
	})
}

// genModel draws a small MMD model; uv makes every vertex identifiable.
func genModel(r *rand.Rand, identify bool) *mmd.Document {
	g := pmxGen{verts: 1 + r.Intn(30), faces: r.Intn(40), texs: r.Intn(4), mats: 1 + r.Intn(5), bones: r.Intn(6), morphs: r.Intn(6), bodies: r.Intn(4), joints: r.Intn(3), extUV: r.Intn(2)}
	if r.Intn(12) == 0 {
		g.verts, g.faces = 300+r.Intn(300), 200+r.Intn(500)
	}
	d := genPMX(r, g)
	for i, m := range d.Materials {
		m.Name = fmt.Sprintf("%s_%d", m.Name, i)
	}
	for i, m := range d.Morphs {
		m.Name = fmt.Sprintf("morph%s_%d", m.Name, i)
	}
	for i, b := range d.Bones {
		if r.Intn(8) > 0 {
			b.Name = fmt.Sprintf("b%d%s", i, b.Name)
		}
	}
	for i, v := range d.Vertexes {
		v.Pos = *rv3(r, 20).g()
		v.Normal = *rv3(r, 1).unit().g()
		if i > 0 && r.Intn(6) == 0 {
			v.Pos = d.Vertexes[r.Intn(i)].Pos
		}
		if identify {
			v.UV = geom.Vector2{X: float32(i), Y: float32(r.Intn(4)) / 4}
		}
		if len(v.Bones) == 4 && r.Intn(2) == 0 {
			v.Bones[1] = v.Bones[0]
		}
	}
	// locality: without it nearly all faces end up in one connected group
	if len(d.Vertexes) > 6 && r.Intn(3) > 0 {
		for _, f := range d.Faces {
			base := r.Intn(len(d.Vertexes)-2) / 3 * 3
			f.Verts = [3]int{base, base + 1, base + 2}
			if r.Intn(4) == 0 && base+3 < len(d.Vertexes) {
				f.Verts[2] = base + 3
			}
		}
	}
	for _, m := range d.Morphs {
		for _, v := range m.Vertex {
			v.Offset = *rv3(r, 2).g()
		}
		for _, v := range m.UV {
			v.Value = geom.Vector4{X: r.Float32() - 0.5, Y: r.Float32() - 0.5}
		}
	}
	return d
}

func negz(v geom.Vector3) geom.Vector3 { v.Z = -v.Z; return v }

type corner struct {
	pos, nor geom.Vector3
	uv       geom.Vector2
}

func canon(v geom.Vector3) geom.Vector3 { // -0 == 0
	return geom.Vector3{X: v.X + 0, Y: v.Y + 0, Z: v.Z + 0}
}

func faceKey(mat int, cs []corner) string { return fmt.Sprint(mat, cs) }

// weightsOf indexes the bone weights of a document: object uid -> vertex index -> bone id -> weight.
func weightsOf(d *mqo.Document) map[int]map[int]map[int]float64 {
	out := map[int]map[int]map[int]float64{}
	for _, b := range mqo.GetBonePlugin(d).Bones() {
		for _, w := range b.Weights {
			if out[w.ObjectID] == nil {
				out[w.ObjectID] = map[int]map[int]float64{}
			}
			for _, v := range w.Vertexes {
				vi := v.VertexID - 1
				if o := d.GetObjectByID(w.ObjectID); o != nil {
					if x, ok := o.VertexByUID[v.VertexID]; ok {
						vi = x
					}
				}
				if out[w.ObjectID][vi] == nil {
					out[w.ObjectID][vi] = map[int]float64{}
				}
				out[w.ObjectID][vi][b.ID] += float64(v.Weight)
			}
		}
	}
	return out
}

func sameWeights(a, b map[int]float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !near(v, w, tol) {
			return false
		}
	}
	return true
}

func mmd2mqoCases(r *Run) {
	r.Repeat("large", r.N(4, 40), mmd2mqoLargeCase)
	r.Repeat("convert", r.N(3000, 30000), func(c *C) {
		identify := c.R.Intn(4) > 0
		m := genModel(c.R, identify)
		var opt *converter.MMDToMQOOption
		if c.R.Intn(3) > 0 {
			opt = &converter.MMDToMQOOption{InheritParentThreshold: []float32{0, 0.4, 1}[c.R.Intn(3)]}
			for _, b := range m.Bones {
				if c.R.Intn(2) == 0 {
					opt.KnownBoneNames = append(opt.KnownBoneNames, b.Name)
				}
			}
		}
		before := deepCopy(reflect.ValueOf(m)).Interface().(*mmd.Document)
		d := converter.NewMMDToMQOConverter(opt).Convert(m)
		if dd := deepDiff(before, m, 0); len(dd) > 0 {
			c.Fatalf("converting changed the source: %v", dd)
		}
		d2 := converter.NewMMDToMQOConverter(opt).Convert(m)
		if dd := diffExact(d, d2); len(dd) > 0 {
			c.Fatalf("converting twice gives different documents: %v", dd)
		}
		c.Obs("repeat")
		checkMMD2MQO(c, m, d, opt, identify)
		c.Sig("%d %d %d %d %d %d", len(m.Vertexes), len(m.Faces), len(m.Materials), len(m.Bones), len(m.Morphs), len(m.Bodies))
	})
}

func diffExact(a, b interface{}) []string {
	d := &differ{}
	d.walk("", reflect.ValueOf(a), reflect.ValueOf(b))
	return d.out
}

func checkMMD2MQO(c *C, m *mmd.Document, d *mqo.Document, opt *converter.MMDToMQOOption, identify bool) {
	if opt == nil {
		opt = &converter.MMDToMQOOption{}
	}
	byName := map[string]*mqo.Object{}
	uids := map[int]bool{}
	for _, o := range d.Objects {
		byName[o.Name] = o
		if o.UID == 0 || uids[o.UID] {
			c.Fatalf("object %s has no unique id (%d)", o.Name, o.UID)
		}
		uids[o.UID] = true
	}
	lists := mqo.GetMorphPlugin(d).Morphs()
	isTarget := map[string]*mqo.MorphTargetList{}
	for _, l := range lists {
		if byName[l.Base] == nil {
			c.Fatalf("morph base %s does not exist", l.Base)
		}
		for _, t := range l.Target {
			if isTarget[t.Name] != nil {
				c.Fatalf("morph %s listed twice", t.Name)
			}
			isTarget[t.Name] = l
		}
	}
	if len(lists) > 1 {
		c.Obs("multi_group")
	}
	// ---- faces: each exactly once
	want := map[string]int{}
	mat := make([]int, len(m.Faces))
	fi := 0
	for mi, mm := range m.Materials {
		for k := 0; k < mm.Count/3; k++ {
			mat[fi] = mi
			fi++
		}
	}
	inFace := map[int]bool{}
	for i, f := range m.Faces {
		var cs []corner
		for _, v := range f.Verts {
			inFace[v] = true
			x := m.Vertexes[v]
			cs = append(cs, corner{canon(negz(x.Pos)), canon(negz(x.Normal)), x.UV})
		}
		want[faceKey(mat[i], cs)]++
	}
	weights := weightsOf(d)
	for _, o := range d.Objects {
		if isTarget[o.Name] != nil {
			continue
		}
		if !o.Visible {
			c.Fatalf("object %s is hidden", o.Name)
		}
		used := map[int]bool{}
		pmv := map[int]int{}
		for _, f := range o.Faces {
			if len(f.Verts) != 3 || len(f.UVs) != 3 || len(f.Normals) != 3 {
				c.Fatalf("object %s: malformed face %v", o.Name, f)
			}
			var cs []corner
			for k, v := range f.Verts {
				if v < 0 || v >= len(o.Vertexes) || f.Normals[k] == nil {
					c.Fatalf("object %s: bad corner %d of face %v", o.Name, k, f)
				}
				used[v] = true
				cs = append(cs, corner{canon(*o.Vertexes[v]), canon(*f.Normals[k]), f.UVs[k]})
				if identify {
					id := int(f.UVs[k].X)
					if old, ok := pmv[v]; ok && old != id {
						c.Fatalf("object %s: vertexes %d and %d were merged", o.Name, old, id)
					}
					pmv[v] = id
				}
			}
			k := faceKey(f.Material, cs)
			if want[k] == 0 {
				c.Fatalf("object %s has a face the model does not have (or too often): %s", o.Name, k)
			}
			want[k]--
			if want[k] == 0 {
				delete(want, k)
			}
			c.Obs("face")
		}
		if len(used) != len(o.Vertexes) {
			c.Fatalf("object %s: %d vertexes but %d used", o.Name, len(o.Vertexes), len(used))
		}
		if identify {
			seen := map[int]bool{}
			for v, id := range pmv {
				if seen[id] {
					c.Fatalf("object %s: vertex %d was duplicated", o.Name, id)
				}
				seen[id] = true
				x := m.Vertexes[id]
				exp := map[int]float64{}
				pairs := 0
				for k, b := range x.Bones {
					if b >= 0 && x.BoneWeights[k] > 0 {
						exp[b+1] += 100 * float64(x.BoneWeights[k])
						pairs++
					}
				}
				if pairs > len(exp) {
					c.Obs("dup_bone_weight")
				}
				if got := weights[o.UID][v]; !sameWeights(exp, got, 1e-3) {
					c.Fatalf("object %s vertex %d (model vertex %d): weights %v, want %v", o.Name, v, id, got, exp)
				}
				if len(exp) > 0 {
					c.Obs("corner_weight")
				}
			}
			for v := range weights[o.UID] {
				if _, ok := pmv[v]; !ok {
					c.Fatalf("object %s: weight for a vertex %d that does not exist", o.Name, v)
				}
			}
			// ---- morph targets of this base
			for _, l := range lists {
				if l.Base != o.Name {
					continue
				}
				for _, t := range l.Target {
					checkMorphTarget(c, m, o, byName[t.Name], t.Name, pmv)
				}
			}
		}
	}
	for k := range want {
		c.Fatalf("face lost: %s", k)
	}
	for uid := range weights {
		if o := d.GetObjectByID(uid); o == nil {
			c.Fatalf("weights for object id %d which does not exist", uid)
		}
	}
	for _, mo := range m.Morphs {
		moved := false
		for _, v := range mo.Vertex {
			moved = moved || inFace[v.Target]
			if !inFace[v.Target] {
				c.Obs("orphan_morph")
			}
		}
		for _, v := range mo.UV {
			moved = moved || inFace[v.Target]
		}
		if moved != (isTarget[mo.Name] != nil) {
			c.Fatalf("morph %s (moves something: %v) is a morph target: %v", mo.Name, moved, isTarget[mo.Name] != nil)
		}
	}
	// ---- bones
	bones := mqo.GetBonePlugin(d).Bones()
	if len(bones) != len(m.Bones) {
		c.Fatalf("%d bones became %d", len(m.Bones), len(bones))
	}
	known := map[string]bool{}
	for _, n := range opt.KnownBoneNames {
		known[n] = true
	}
	wantIK := map[int]*mmd.Bone{}
	for i, b := range m.Bones {
		g := bones[i]
		parent := b.ParentID + 1
		if b.Flags&0x100 != 0 && b.InheritParentInfluence > opt.InheritParentThreshold && b.InheritParentID >= 0 && known[m.Bones[b.InheritParentID].Name] {
			parent = b.InheritParentID + 1
			c.Obs("inherit_parent")
		}
		mov := 0
		if b.Flags&4 != 0 {
			mov = 1
		}
		if g.ID != i+1 || g.Name != b.Name || g.Parent != parent || g.Pos.Vector3 != negz(b.Pos) || g.Movable != mov || g.Group != b.Layer {
			c.Fatalf("bone %d %+v became %+v (parent should be %d)", i, b, g, parent)
		}
		if len(b.IK.Links) > 0 && b.IK.TargetID >= 0 {
			wantIK[b.IK.TargetID] = b
		}
	}
	for i, g := range bones {
		w := wantIK[i]
		if (g.IK != nil) != (w != nil) {
			c.Fatalf("bone %d: IK %v, want %v", i, g.IK, w)
		}
		if w != nil {
			if g.IK.ChainCount != len(w.IK.Links)+1 || g.IK.Name != w.Name {
				c.Fatalf("bone %d: IK %v, want chain of %d named %s", i, g.IK, len(w.IK.Links)+1, w.Name)
			}
			if w.TailID > 0 && g.IK.TipName != m.Bones[w.TailID].Name || w.TailID < 0 && g.IK.TipName != "" {
				c.Fatalf("bone %d: IK tip %q, the IK bone's tail is %d", i, g.IK.TipName, w.TailID)
			}
			c.Obs("ik")
		}
	}
	// ---- materials and material morphs
	if len(d.Materials) < len(m.Materials) {
		c.Fatalf("%d materials became %d", len(m.Materials), len(d.Materials))
	}
	for i, a := range m.Materials {
		g := d.Materials[i]
		tex := ""
		if a.TextureID >= 0 {
			tex = m.Textures[a.TextureID]
		}
		if g.Name != a.Name || g.Color != a.Color || g.Texture != tex || g.DoubleSided != (a.Flags&1 != 0) || g.Power != a.Specularity {
			c.Fatalf("material %d %+v became %+v", i, a, g)
		}
		if g.Ex2 == nil || g.Ex2.BoolParam("Edge") != (a.EdgeScale > 0) {
			c.Fatalf("material %d: edge %v became %+v", i, a.EdgeScale, g.Ex2)
		}
	}
	k := len(m.Materials)
	for _, mo := range m.Morphs {
		for _, mm := range mo.Material {
			if mm.Target < 0 {
				continue
			}
			if k >= len(d.Materials) {
				c.Fatalf("material morph %s lost", mo.Name)
			}
			b, g := m.Materials[mm.Target], d.Materials[k]
			k++
			if want := "$MORPH:" + mo.Name + ":" + b.Name; g.Name != want {
				c.Fatalf("material morph is named %q, want %q", g.Name, want)
			}
			f := func(x, y float32) float64 {
				if mm.Flags&1 != 0 {
					return float64(x) + float64(y)
				}
				return float64(x) * float64(y)
			}
			exp := [4]float64{f(b.Color.X, mm.Diffuse.X), f(b.Color.Y, mm.Diffuse.Y), f(b.Color.Z, mm.Diffuse.Z), f(b.Color.W, mm.Diffuse.W)}
			got := [4]float64{float64(g.Color.X), float64(g.Color.Y), float64(g.Color.Z), float64(g.Color.W)}
			for i := range exp {
				if !near(got[i], exp[i], 1e-6*(1+math.Abs(exp[i]))) {
					c.Fatalf("material morph %s: colour %v, want %v", g.Name, got, exp)
				}
			}
			c.Obs("material_morph")
		}
	}
	if k != len(d.Materials) {
		c.Fatalf("%d materials, want %d", len(d.Materials), k)
	}
	// ---- physics
	ph := mqo.FindPhysicsPlugin(d)
	if len(m.Bodies) == 0 {
		if ph != nil && len(ph.Bodies) > 0 {
			c.Fatalf("bodies appeared")
		}
		return
	}
	if ph == nil || len(ph.Bodies) != len(m.Bodies) || len(ph.Constraints) != len(m.Joints) {
		c.Fatalf("physics lost")
	}
	for i, b := range m.Bodies {
		g := ph.Bodies[i]
		if len(g.Shapes) != 1 {
			c.Fatalf("body %d has %d shapes", i, len(g.Shapes))
		}
		s := g.Shapes[0]
		wantB := mqo.PhysicsBody{Shapes: g.Shapes, Mass: b.Mass, Kinematic: b.Mode == 0, CollisionGroup: b.Group, CollisionMask: b.GroupTarget, Restitution: b.Restitution, Friction: b.Friction,
			LinearDamping: b.LinearDamping, AngularDamping: b.AngularDamping, Name: b.Name, TargetBoneID: b.Bone + 1}
		if dd := diffExact(&wantB, g); len(dd) > 0 {
			c.Fatalf("body %d: %v", i, dd)
		}
		if s.Type != []string{"SPHERE", "BOX", "CAPSULE"}[b.Shape] || *s.Size.Vec3() != b.Size || *s.Position.Vec3() != negz(b.Position) || *s.Rotation.Vec3() != b.Rotation {
			c.Fatalf("body %d %+v: shape became %+v", i, b, s)
		}
		c.Obs("body")
	}
	for i, j := range m.Joints {
		g := ph.Constraints[i]
		if g.Name != j.Name || g.Body1 != j.Body1+1 || g.Body2 != j.Body2+1 || *g.Position.Vec3() != negz(j.Position) || *g.Rotation.Vec3() != j.Rotation ||
			*g.LinerSpring.Vec3() != j.LinerSpring || *g.AngulerSpring.Vec3() != j.AngulerSpring {
			c.Fatalf("joint %d %+v became %+v", i, j, g)
		}
		c.Obs("joint")
	}
}

func checkMorphTarget(c *C, m *mmd.Document, base, t *mqo.Object, name string, pmv map[int]int) {
	if t == nil {
		c.Fatalf("morph target object %s does not exist", name)
	}
	if t.Visible {
		c.Fatalf("morph target %s is visible", name)
	}
	if len(t.Vertexes) != len(base.Vertexes) || len(t.Faces) != len(base.Faces) {
		c.Fatalf("morph target %s has %d/%d vertexes/faces, base has %d/%d", name, len(t.Vertexes), len(t.Faces), len(base.Vertexes), len(base.Faces))
	}
	var mo *mmd.Morph
	for _, x := range m.Morphs {
		if x.Name == name {
			mo = x
		}
	}
	if mo == nil {
		c.Fatalf("morph target %s is not a morph of the model", name)
	}
	off := map[int]V3{}
	uvo := map[int][2]float64{}
	present := map[int]bool{}
	for _, id := range pmv {
		present[id] = true
	}
	used := map[int]bool{}
	for _, f := range m.Faces {
		for _, v := range f.Verts {
			used[v] = true
		}
	}
	for _, v := range mo.Vertex {
		off[v.Target] = off[v.Target].add(v3(pv(negz(v.Offset))))
		if used[v.Target] && !present[v.Target] {
			c.Fatalf("morph %s moves vertex %d, which its base %s does not contain", name, v.Target, base.Name)
		}
	}
	for _, v := range mo.UV {
		o := uvo[v.Target]
		uvo[v.Target] = [2]float64{o[0] + float64(v.Value.X), o[1] + float64(v.Value.Y)}
		if used[v.Target] && !present[v.Target] {
			c.Fatalf("morph %s shifts the UV of vertex %d, which its base %s does not contain", name, v.Target, base.Name)
		}
	}
	for i, v := range t.Vertexes {
		want := v3(base.Vertexes[i]).add(off[pmv[i]])
		if !(want.dist(v3(v)) <= 1e-4) {
			c.Fatalf("morph %s: vertex %d (model vertex %d) is at %v, want %v", name, i, pmv[i], v, want)
		}
	}
	for i, f := range t.Faces {
		bf := base.Faces[i]
		if !reflect.DeepEqual(f.Verts, bf.Verts) || f.Material != bf.Material || len(f.UVs) != len(bf.UVs) {
			c.Fatalf("morph %s: face %d differs from its base", name, i)
		}
		for k := range f.UVs {
			o := uvo[pmv[f.Verts[k]]]
			if !near(float64(f.UVs[k].X), float64(bf.UVs[k].X)+o[0], 1e-3) || !near(float64(f.UVs[k].Y), float64(bf.UVs[k].Y)+o[1], 1e-4) {
				c.Fatalf("morph %s: face %d corner %d has UV %v, base %v, offset %v", name, i, k, f.UVs[k], bf.UVs[k], o)
			}
			if o != [2]float64{} {
				c.Obs("uv_morph")
			}
		}
	}
	c.Obs("morph_target")
}

// ---------------------------------------------------------------- P11

// planarFaces adds a polygon lying in a random plane to the object and
// returns whether it is concave.
func addPolygon(c *C, o *mqo.Object, kind int) (f *mqo.Face, concave bool) {
	r := c.R
	var p poly2
	switch kind {
	case 0: // triangle
		p = poly2{{0, 0}, {1 + r.Float64(), r.Float64() * 0.5}, {r.Float64(), 1 + r.Float64()}}
	case 1: // convex quad
		p = poly2{{0, 0}, {2, r.Float64() * 0.5}, {2 + r.Float64(), 2}, {r.Float64() * 0.5, 1.5}}
	case 2: // regular n-gon
		n := 5 + r.Intn(4)
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			p = append(p, [2]float64{math.Cos(a), math.Sin(a)})
		}
	case 3: // dart
		p = poly2{{0, 0}, {2, 1}, {0, 2}, {0.7, 1}}
		concave = true
	case 4: // L / T shapes
		p = poly2{{0, 0}, {3, 0}, {3, 1}, {1, 1}, {1, 3}, {0, 3}}
		concave = true
	}
	if r.Intn(2) == 0 {
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	}
	rot := r.Intn(len(p))
	p = append(append(poly2{}, p[rot:]...), p[:rot]...)
	s := []float64{1, 10, 100}[r.Intn(3)]
	T := mTRS(rv3(r, 100), rquat(r), V3{s, s, s})
	f = &mqo.Face{}
	for _, q := range p {
		f.Verts = append(f.Verts, len(o.Vertexes))
		o.Vertexes = append(o.Vertexes, T.apply(V3{q[0], q[1], 0}).g())
	}
	o.Faces = append(o.Faces, f)
	return
}

type polyInfo struct {
	obj     *mqo.Object
	face    *mqo.Face
	concave bool
}

// genScene builds a document with planar polygons.
// uvMode 0: every face corner has a unique id in UV.X; 1: shared UVs, triangles only; 2: no UVs, triangles only
func genScene(c *C, uvMode int) *mqo.Document {
	r := c.R
	d := mqo.NewDocument()
	nm := 1 + r.Intn(3)
	for i := 0; i < nm; i++ {
		d.Materials = append(d.Materials, &mqo.Material{Name: fmt.Sprintf("mat%d%s", i, rname(r, nameAlphabet, 2)), Color: col(r), Power: rf(r), Texture: texName(r), DoubleSided: r.Intn(2) == 0, Diffuse: 1, Ambient: 1})
	}
	uid := 0
	id := 0
	mkObj := func(name string) *mqo.Object {
		o := mqo.NewObject(name)
		uid += 1 + r.Intn(3)
		o.UID = uid
		d.Objects = append(d.Objects, o)
		return o
	}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		o := mkObj(fmt.Sprintf("o%d%s", i, rname(r, nameAlphabet, 2)))
		o.Visible = r.Intn(4) > 0
		o.Locked = r.Intn(6) == 0
		o.Folding = r.Intn(6) == 0
		for k := r.Intn(6); k > 0; k-- {
			kind := 0
			if uvMode == 0 {
				kind = r.Intn(5)
			}
			f, _ := addPolygon(c, o, kind)
			f.Material = r.Intn(nm)
			if r.Intn(12) == 0 {
				f.Material = []int{-1, nm, nm + 3}[r.Intn(3)]
			}
		}
		// faces sharing vertices
		if len(o.Vertexes) >= 6 {
			for k := r.Intn(4); k > 0; k-- {
				p := r.Perm(len(o.Vertexes))
				o.Faces = append(o.Faces, &mqo.Face{Verts: []int{p[0], p[1], p[2]}, Material: r.Intn(nm)})
			}
		}
		// lines and points
		if len(o.Vertexes) > 2 && r.Intn(3) == 0 {
			o.Faces = append(o.Faces, &mqo.Face{Verts: []int{0, 1}, Material: 0})
		}
		vuv := make([]geom.Vector2, len(o.Vertexes))
		for k := range vuv {
			vuv[k] = geom.Vector2{X: float32(r.Intn(4)) / 4, Y: float32(r.Intn(4)) / 4}
		}
		for _, f := range o.Faces {
			switch uvMode {
			case 0:
				for range f.Verts {
					id++
					f.UVs = append(f.UVs, geom.Vector2{X: float32(id), Y: r.Float32()})
				}
			case 1:
				for _, v := range f.Verts {
					u := vuv[v]
					if r.Intn(4) == 0 {
						u = geom.Vector2{X: r.Float32(), Y: r.Float32()}
					} else if r.Intn(4) == 0 { // another seam: only one coordinate differs
						u.Y += float32(1+r.Intn(3)) / 4
					} else if r.Intn(4) == 0 {
						u.X += float32(1+r.Intn(3)) / 4
					}
					f.UVs = append(f.UVs, u)
				}
			}
			if r.Intn(3) == 0 {
				for range f.Verts {
					f.Normals = append(f.Normals, rv3(r, 1).unit().g())
				}
			}
		}
		if r.Intn(3) == 0 && len(o.Vertexes) > 0 { // vertex ids
			for k, p := range r.Perm(len(o.Vertexes)) {
				o.VertexByUID[500+k*2] = p
			}
		}
	}
	// morphs
	if r.Intn(2) == 0 {
		mp := mqo.GetMorphPlugin(d)
		for _, base := range append([]*mqo.Object{}, d.Objects...) {
			if r.Intn(2) == 0 {
				continue
			}
			l := &mqo.MorphTargetList{Base: base.Name}
			for k := 1 + r.Intn(2); k > 0; k-- {
				t := mkObj(fmt.Sprintf("morph-%s-%d", base.Name, k))
				t.Visible = r.Intn(2) == 0
				small := r.Intn(4) == 0
				for _, v := range base.Vertexes {
					p := *v
					if small {
						p = *v3(v).add(rv3(r, 1).unit().mul(0.005 + 0.02*r.Float64())).g()
					} else if r.Intn(2) == 0 {
						p = *v3(v).add(rv3(r, 50)).g()
					} else if r.Intn(3) == 0 {
						p.Z += 7
					}
					t.Vertexes = append(t.Vertexes, &p)
				}
				for _, f := range base.Faces {
					t.Faces = append(t.Faces, &mqo.Face{Verts: append([]int{}, f.Verts...), Material: f.Material, UVs: append([]geom.Vector2{}, f.UVs...)})
				}
				l.Target = append(l.Target, &mqo.MorphTarget{Name: t.Name})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		}
	}
	// bones with ids in no particular order
	if r.Intn(4) > 0 {
		bp := mqo.GetBonePlugin(d)
		n := r.Intn(8)
		ids := r.Perm(30)
		for i := 0; i < n; i++ {
			b := &mqo.Bone{ID: ids[i] + 1, Name: fmt.Sprintf("bone%d", i), Pos: mqo.Vector3Attr{Vector3: *rv3(r, 300).g()}}
			if i > 0 && r.Intn(4) > 0 {
				b.Parent = ids[r.Intn(i)] + 1
			}
			bp.AddBone(b)
		}
		if n > 1 && r.Intn(2) == 0 { // children before parents
			bs := bp.Bones()
			r.Shuffle(n, func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
		}
		for _, o := range d.Objects {
			for vi := range o.Vertexes {
				id := vi + 1
				for u, x := range o.VertexByUID {
					if x == vi {
						id = u
					}
				}
				k := r.Intn(4)
				if r.Intn(10) == 0 {
					k = 6
				}
				for _, bi := range r.Perm(n) {
					if k == 0 {
						break
					}
					k--
					bp.Bones()[bi].SetVertexWeight(o.UID, id, float32(1+r.Intn(100)))
				}
			}
		}
	}
	if r.Intn(2) == 0 {
		pp := mqo.GetPhysicsPlugin(d)
		for k := r.Intn(3); k > 0; k-- {
			b := &mqo.PhysicsBody{Name: fmt.Sprintf("body%d", k), Mass: r.Float32(), Kinematic: r.Intn(2) == 0, CollisionGroup: r.Intn(16), CollisionMask: r.Intn(65536), Restitution: r.Float32(), Friction: r.Float32(), LinearDamping: r.Float32(), AngularDamping: r.Float32()}
			if bs := mqo.GetBonePlugin(d).Bones(); len(bs) > 0 && r.Intn(3) > 0 {
				b.TargetBoneID = bs[r.Intn(len(bs))].ID
			}
			for j := 1 + r.Intn(2); j > 0; j-- {
				b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: []string{"BOX", "SPHERE", "CAPSULE"}[r.Intn(3)], Size: mqo.Vector3XmlAttr{X: r.Float32() * 10, Y: r.Float32() * 10, Z: r.Float32() * 10}, Position: mqo.Vector3XmlAttr(*rv3(r, 100).g()), Rotation: mqo.Vector3XmlAttr(*rv3(r, 3).g())})
			}
			pp.Bodies = append(pp.Bodies, b)
		}
	}
	return d
}

const mmdScale = 1.0 / 80

func toMMD(v *geom.Vector3) V3 {
	return V3{float64(v.X) * mmdScale, float64(v.Y) * mmdScale, -float64(v.Z) * mmdScale}
}

func refSmooth(o *mqo.Object) []V3 {
	n := make([]V3, len(o.Vertexes))
	for _, f := range o.Faces {
		k := len(f.Verts)
		for i, v := range f.Verts {
			if i < len(f.Normals) && f.Normals[i] != nil {
				n[v] = n[v].add(v3(f.Normals[i]))
				continue
			}
			p, q := v3(o.Vertexes[f.Verts[(i+k-1)%k]]), v3(o.Vertexes[f.Verts[(i+1)%k]])
			x := p.sub(v3(o.Vertexes[v])).cross(q.sub(v3(o.Vertexes[v]))).unit()
			if x.dot(faceArea(o, f)) > 0 { // a reflex corner: the face still looks to the same side
				x = x.mul(-1)
			}
			n[v] = n[v].add(x)
		}
	}
	return n
}

// faceArea is the area vector in corner order (opposite to the side MQO faces look to).
func faceArea(o *mqo.Object, f *mqo.Face) (a V3) {
	for i := range f.Verts {
		a = a.add(v3(o.Vertexes[f.Verts[i]]).sub(v3(o.Vertexes[f.Verts[0]])).cross(v3(o.Vertexes[f.Verts[(i+1)%len(f.Verts)]]).sub(v3(o.Vertexes[f.Verts[0]]))))
	}
	return
}

func isConcave(o *mqo.Object, f *mqo.Face) bool {
	n := len(f.Verts)
	var a V3
	for i := 1; i+1 < n; i++ {
		a = a.add(v3(o.Vertexes[f.Verts[i]]).sub(v3(o.Vertexes[f.Verts[0]])).cross(v3(o.Vertexes[f.Verts[i+1]]).sub(v3(o.Vertexes[f.Verts[0]]))))
	}
	for i := 0; i < n; i++ {
		p, q, s := v3(o.Vertexes[f.Verts[i]]), v3(o.Vertexes[f.Verts[(i+1)%n]]), v3(o.Vertexes[f.Verts[(i+2)%n]])
		if q.sub(p).cross(s.sub(q)).dot(a) < -1e-6*a.dot(a) {
			return true
		}
	}
	return false
}

func mqo2mmdCases(r *Run) {
	r.Repeat("polygons", r.N(1500, 15000), func(c *C) { mqo2mmdCase(c, 0) })
	r.Repeat("shared-uv", r.N(800, 8000), func(c *C) { mqo2mmdCase(c, 1) })
	r.Repeat("no-uv", r.N(400, 4000), func(c *C) { mqo2mmdCase(c, 2) })
	r.Repeat("large", r.N(6, 60), mqo2mmdLargeCase)
}

func mqo2mmdCase(c *C, mode int) {
	d := genScene(c, mode)
	src := cloneMQO(d)
	m, err := converter.NewMQOToMMDConverter(nil).Convert(d)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	c.Sig("%d %s", mode, structSig(src))
	// ---- materials and face ranges
	if len(m.Materials) != len(src.Materials) {
		c.Fatalf("%d materials became %d", len(src.Materials), len(m.Materials))
	}
	total := 0
	matOf := []int{}
	for i, a := range src.Materials {
		g := m.Materials[i]
		tex := ""
		if g.TextureID >= 0 {
			if g.TextureID >= len(m.Textures) {
				c.Fatalf("material %d refers to texture %d of %d", i, g.TextureID, len(m.Textures))
			}
			tex = m.Textures[g.TextureID]
		}
		if g.Name != a.Name || g.Color != a.Color || g.Specularity != a.Power || tex != a.Texture || (g.Flags&1 != 0) != a.DoubleSided {
			c.Fatalf("material %d %+v became %+v (texture %q)", i, a, g, tex)
		}
		if g.Count%3 != 0 || g.Count < 0 {
			c.Fatalf("material %d covers %d indices", i, g.Count)
		}
		for k := 0; k < g.Count/3; k++ {
			matOf = append(matOf, i)
		}
		total += g.Count / 3
	}
	if total != len(m.Faces) {
		c.Fatalf("materials cover %d faces, the model has %d", total, len(m.Faces))
	}
	targets := map[string]bool{}
	baseOf := map[string]string{}
	for _, p := range src.Plugins {
		if mp, ok := p.(*mqo.MorphPlugin); ok {
			for _, l := range mp.Morphs() {
				for _, t := range l.Target {
					targets[t.Name] = true
					baseOf[t.Name] = l.Base
				}
			}
		}
	}
	byName := map[string]*mqo.Object{}
	for _, o := range src.Objects {
		byName[o.Name] = o
	}
	vref := make([]*vsrc, len(m.Vertexes))
	if mode == 0 {
		// ---- unique corner ids: account for every face
		type cr struct {
			o *mqo.Object
			f *mqo.Face
			k int
		}
		byID := map[int]cr{}
		wantFaces := map[*mqo.Face]*mqo.Object{}
		for _, o := range src.Objects {
			if targets[o.Name] {
				continue
			}
			for _, f := range o.Faces {
				if !o.Visible {
					c.Obs("invisible")
					continue
				}
				for k := range f.Verts {
					byID[int(f.UVs[k].X)] = cr{o, f, k}
				}
				if len(f.Verts) >= 3 && f.Material >= 0 && f.Material < len(src.Materials) {
					wantFaces[f] = o
				}
			}
		}
		type acc struct {
			n    int
			area V3
			abs  float64
		}
		got := map[*mqo.Face]*acc{}
		for fi, f := range m.Faces {
			var face *mqo.Face
			var ps [3]V3
			for k, vi := range f.Verts {
				if vi < 0 || vi >= len(m.Vertexes) {
					c.Fatalf("face %d refers to vertex %d of %d", fi, vi, len(m.Vertexes))
				}
				v := m.Vertexes[vi]
				x, ok := byID[int(v.UV.X)]
				if !ok {
					c.Fatalf("face %d: vertex %d has UV %v which no visible face has", fi, vi, v.UV)
				}
				if face == nil {
					face = x.f
				}
				if face != x.f {
					c.Fatalf("face %d mixes two source faces", fi)
				}
				if x.f.Material != matOf[fi] {
					c.Fatalf("face %d is in the range of material %d, its source has %d", fi, matOf[fi], x.f.Material)
				}
				src := x.o.Vertexes[x.f.Verts[x.k]]
				if want := toMMD(src); !(want.dist(v3(&v.Pos)) <= 1e-5*(1+want.len())) || v.UV != x.f.UVs[x.k] {
					c.Fatalf("face %d corner %d: vertex %+v, want position %v UV %v", fi, k, v, want, x.f.UVs[x.k])
				}
				vref[vi] = &vsrc{x.o, x.f.Verts[x.k]}
				ps[k] = v3(src)
			}
			if got[face] == nil {
				got[face] = &acc{}
			}
			a := got[face]
			a.n++
			cr := ps[1].sub(ps[0]).cross(ps[2].sub(ps[0]))
			a.area = a.area.add(cr)
			a.abs += cr.len()
		}
		for f, o := range wantFaces {
			a := got[f]
			if a == nil {
				c.Fatalf("face %v of %s was lost", f.Verts, o.Name)
			}
			var area V3
			p0 := v3(o.Vertexes[f.Verts[0]])
			for i := 1; i+1 < len(f.Verts); i++ {
				area = area.add(v3(o.Vertexes[f.Verts[i]]).sub(p0).cross(v3(o.Vertexes[f.Verts[i+1]]).sub(p0)))
			}
			if a.n != len(f.Verts)-2 || !(a.area.dist(area) <= 1e-3*(area.len()+1e-3)) || !near(a.abs, area.len(), 1e-3*(area.len()+1e-3)) {
				c.Fatalf("face %v of %s became %d triangles with area vector %v (sum of sizes %g), want area vector %v", f.Verts, o.Name, a.n, a.area, a.abs, area)
			}
			if len(f.Verts) == 3 {
				c.Obs("triangle")
			} else {
				c.Obs("polygon")
				if isConcave(o, f) {
					c.Obs("concave")
				}
			}
		}
		if len(got) != len(wantFaces) {
			c.Fatalf("%d source faces appear, want %d", len(got), len(wantFaces))
		}
	} else {
		// ---- triangles with shared UVs: multiset of corners
		var want, got [][]float64
		for _, o := range src.Objects {
			if targets[o.Name] || !o.Visible {
				continue
			}
			for _, f := range o.Faces {
				if len(f.Verts) != 3 || f.Material < 0 || f.Material >= len(src.Materials) {
					continue
				}
				k := []float64{float64(f.Material)}
				for i, v := range f.Verts {
					var uv geom.Vector2
					if i < len(f.UVs) {
						uv = f.UVs[i]
					}
					p := toMMD(o.Vertexes[v])
					k = append(k, p[0], p[1], p[2], float64(uv.X), float64(uv.Y))
				}
				want = append(want, k)
			}
		}
		for fi, f := range m.Faces {
			k := []float64{float64(matOf[fi])}
			for _, vi := range f.Verts {
				v := m.Vertexes[vi]
				k = append(k, float64(v.Pos.X), float64(v.Pos.Y), float64(v.Pos.Z), float64(v.UV.X), float64(v.UV.Y))
			}
			got = append(got, k)
		}
		if s := matchSets(want, got, 1e-5); s != "" {
			c.Fatalf("faces are not preserved: %s", s)
		}
		if mode == 1 {
			c.Obs("shared_uv")
		}
		c.ObsN("triangle", len(m.Faces))
	}
	// ---- per vertex: weights, normals
	weights := weightsOf(src)
	bones := mqo.GetBonePlugin(src).Bones()
	idxOf := map[int]int{}
	for i, b := range bones {
		idxOf[b.ID] = i
	}
	smooth := map[*mqo.Object][]V3{}
	for vi, v := range m.Vertexes {
		if len(v.Bones) > 4 || len(v.Bones) > len(v.BoneWeights) {
			c.Fatalf("vertex %d has %d bones and %d weights", vi, len(v.Bones), len(v.BoneWeights))
		}
		for _, b := range v.Bones {
			if b < 0 || b >= len(m.Bones) {
				c.Fatalf("vertex %d refers to bone %d of %d", vi, b, len(m.Bones))
			}
		}
		s := vref[vi]
		if s == nil {
			continue
		}
		w := weights[s.o.UID][s.v]
		got := map[int]float64{}
		var gl, wl []float64
		for k, b := range v.Bones {
			got[b] += float64(v.BoneWeights[k])
			gl = append(gl, float64(v.BoneWeights[k]))
		}
		for id, x := range w {
			wl = append(wl, x/100)
			if len(w) <= 4 && !near(got[idxOf[id]], x/100, 1e-5) {
				c.Fatalf("vertex %d: weight of bone %d is %v, want %v", vi, idxOf[id], got[idxOf[id]], x/100)
			}
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(gl)))
		sort.Sort(sort.Reverse(sort.Float64Slice(wl)))
		if len(wl) > 4 {
			wl = wl[:4]
			c.Obs("many_weights")
		}
		if len(gl) != len(wl) {
			c.Fatalf("vertex %d has weights %v, want %v", vi, gl, wl)
		}
		for k := range wl {
			if !near(gl[k], wl[k], 1e-5) {
				c.Fatalf("vertex %d has weights %v, want %v", vi, gl, wl)
			}
		}
		for b, x := range got {
			if !near(w[bones[b].ID]/100, x, 1e-5) {
				c.Fatalf("vertex %d: weight of bone %d is %v, want %v", vi, b, x, w[bones[b].ID]/100)
			}
		}
		c.ObsN("weight", len(gl))
		if smooth[s.o] == nil {
			smooth[s.o] = refSmooth(s.o)
		}
		if n := smooth[s.o][s.v]; n.len() > 1e-2 {
			n = n.unit()
			n[2] = -n[2]
			if !(n.dist(v3(&v.Normal)) <= 2e-3) {
				c.Fatalf("vertex %d: normal %v, want %v", vi, v.Normal, n)
			}
			c.Obs("normal")
		}
	}
	// ---- bones
	if len(m.Bones) != len(bones) {
		c.Fatalf("%d bones became %d", len(bones), len(m.Bones))
	}
	for i, b := range bones {
		g := m.Bones[i]
		parent := -1
		if b.Parent > 0 {
			parent = idxOf[b.Parent]
			c.Obs("bone_parent")
		}
		want := toMMD(&b.Pos.Vector3)
		if g.Name != b.Name || g.ParentID != parent || !(want.dist(v3(&g.Pos)) <= 1e-5*(1+want.len())) {
			c.Fatalf("bone %d %+v became %+v (parent should be %d, position %v)", i, b, g, parent, want)
		}
		if g.Flags&mmd.BoneFlagTailIndex != 0 {
			if g.TailID < 0 || g.TailID >= len(m.Bones) || m.Bones[g.TailID].ParentID != i {
				c.Fatalf("bone %d points at bone %d, which is not its child", i, g.TailID)
			}
		} else {
			for k := range m.Bones {
				if m.Bones[k].ParentID == i {
					c.Fatalf("bone %d has the child %d but no tail bone", i, k)
				}
			}
		}
	}
	// ---- morphs
	var names []string
	for _, l := range mqo.GetMorphPlugin(src).Morphs() {
		for _, t := range l.Target {
			names = append(names, t.Name)
		}
	}
	if len(names) != len(m.Morphs) {
		c.Fatalf("%d morphs became %d", len(names), len(m.Morphs))
	}
	for i, n := range names {
		g := m.Morphs[i]
		if g.Name != n || g.MorphType != 1 {
			c.Fatalf("morph %d is %s (type %d), want %s", i, g.Name, g.MorphType, n)
		}
		seen := map[int]V3{}
		for _, v := range g.Vertex {
			if v.Target < 0 || v.Target >= len(m.Vertexes) {
				c.Fatalf("morph %s refers to vertex %d", n, v.Target)
			}
			if _, dup := seen[v.Target]; dup {
				c.Fatalf("morph %s lists vertex %d twice", n, v.Target)
			}
			seen[v.Target] = v3(&v.Offset)
		}
		if mode != 0 {
			continue
		}
		base, t := byName[baseOf[n]], byName[n]
		for vi := range m.Vertexes {
			off, has := seen[vi]
			s := vref[vi]
			if s == nil {
				continue
			}
			if s.o != base {
				if has {
					c.Fatalf("morph %s moves a vertex of %s", n, s.o.Name)
				}
				continue
			}
			want := toMMD(t.Vertexes[s.v]).sub(toMMD(base.Vertexes[s.v]))
			if tol := 1e-6 + 1e-6*toMMD(base.Vertexes[s.v]).len() + 1e-5*want.len(); !(want.dist(off) <= tol) {
				c.Fatalf("morph %s moves vertex %d by %v, want %v", n, vi, off, want)
			}
			if has {
				c.Obs("morph_offset")
			}
		}
	}
	// ---- bodies
	k := 0
	if ph := mqo.FindPhysicsPlugin(src); ph != nil {
		for _, b := range ph.Bodies {
			for _, s := range b.Shapes {
				if k >= len(m.Bodies) {
					c.Fatalf("body %s lost", b.Name)
				}
				g := m.Bodies[k]
				k++
				bone := -1
				if b.TargetBoneID > 0 {
					bone = idxOf[b.TargetBoneID]
				} else {
					c.Obs("bodyless_bone")
				}
				mode0 := g.Mode == 0
				for _, x := range m.Bodies[:k-1] {
					if x.Name == g.Name {
						c.Fatalf("two rigid bodies are called %s", g.Name)
					}
				}
				if !strings.HasPrefix(g.Name, b.Name) || g.Bone != bone || g.Mass != b.Mass || g.Group != b.CollisionGroup || g.GroupTarget != b.CollisionMask || g.LinearDamping != b.LinearDamping ||
					g.AngularDamping != b.AngularDamping || g.Restitution != b.Restitution || g.Friction != b.Friction || mode0 != b.Kinematic || []string{"SPHERE", "BOX", "CAPSULE"}[g.Shape] != s.Type {
					c.Fatalf("body %+v (%s) became %+v, bone should be %d", b, s.Type, g, bone)
				}
				sz, p := v3(s.Size.Vec3()).mul(mmdScale), toMMD(s.Position.Vec3())
				if !(sz.dist(v3(&g.Size)) <= 1e-5) || !(p.dist(v3(&g.Position)) <= 1e-5*(1+p.len())) || *s.Rotation.Vec3() != g.Rotation {
					c.Fatalf("body shape %+v became %+v", s, g)
				}
				c.Obs("body")
			}
		}
	}
	if k != len(m.Bodies) {
		c.Fatalf("%d bodies, want %d", len(m.Bodies), k)
	}
}

type vsrc struct {
	o *mqo.Object
	v int
}

// ---------------------------------------------------------------- P12

func mmdChainCases(r *Run) {
	r.Repeat("chain", r.N(1500, 15000), func(c *C) {
		m := genModel(c.R, true)
		for i, b := range m.Bones {
			b.ParentID = c.R.Intn(i+1) - 1
			if c.R.Intn(6) == 0 {
				b.ParentID = -1
			}
		}
		// distinct bones per vertex so that weights are comparable
		for _, v := range m.Vertexes {
			v.Bones, v.BoneWeights = nil, nil
			k := 1 + c.R.Intn(4)
			for _, b := range c.R.Perm(len(m.Bones)) {
				if k == 0 {
					break
				}
				k--
				v.Bones = append(v.Bones, b)
				v.BoneWeights = append(v.BoneWeights, 0.01+c.R.Float32()*0.9)
			}
		}
		for _, mo := range m.Morphs {
			mo.UV = nil // PMX output has vertex morphs only
			if c.R.Intn(4) == 0 {
				f := float32(math.Pow(10, -1-3*c.R.Float64()))
				for _, v := range mo.Vertex {
					v.Offset.X, v.Offset.Y, v.Offset.Z = v.Offset.X*f, v.Offset.Y*f, v.Offset.Z*f
				}
				c.Obs("small_morph")
			}
		}
		d := converter.NewMMDToMQOConverter(nil).Convert(m)
		if c.R.Intn(2) == 0 { // as the command line does
			d.ApplyTransform(geom.NewScaleMatrix4(80, 80, 80))
		} else {
			d.ApplyTransform(geom.NewScaleMatrix4(80, 80, 80))
			d.ApplyTransform(geom.NewScaleMatrix4(1, 1, 1))
		}
		g, err := converter.NewMQOToMMDConverter(nil).Convert(d)
		if err != nil {
			c.Fatalf("conversion failed: %v", err)
		}
		chainCompare(c, m, g)
		c.Sig("%d %d %d %d %d %d", len(m.Vertexes), len(m.Faces), len(m.Materials), len(m.Bones), len(m.Morphs), len(m.Bodies))
	})
}

// chainCompare asserts that g has the same faces (with corner attributes),
// materials, skeleton, vertex morphs and bodies as m. Vertices are identified
// by their UV.X.
func chainCompare(c *C, m, g *mmd.Document) {
	faces := func(d *mmd.Document) map[string]int {
		out := map[string]int{}
		fi := 0
		for _, mt := range d.Materials {
			for k := 0; k < mt.Count/3; k++ {
				f := d.Faces[fi]
				fi++
				s := mt.Name
				for _, v := range f.Verts {
					s += fmt.Sprintf("|%v", d.Vertexes[v].UV)
				}
				out[s]++
			}
		}
		if fi != len(d.Faces) {
			c.Fatalf("materials cover %d of %d faces", fi, len(d.Faces))
		}
		return out
	}
	a, b := faces(m), faces(g)
	for k, n := range a {
		if b[k] != n {
			c.Fatalf("face %s occurs %d times, want %d", k, b[k], n)
		}
		c.ObsN("face", n)
	}
	for k, n := range b {
		if a[k] != n {
			c.Fatalf("face %s occurs %d times, want %d", k, n, a[k])
		}
	}
	for vi, v := range g.Vertexes {
		o := m.Vertexes[int(v.UV.X)]
		if !(v3(&v.Pos).dist(v3(&o.Pos)) <= 1e-4) {
			c.Fatalf("vertex %d is at %v, was %v", vi, v.Pos, o.Pos)
		}
		if !(v3(&v.Normal).dist(v3(&o.Normal)) <= 1e-3) {
			c.Fatalf("vertex %d has normal %v, was %v", vi, v.Normal, o.Normal)
		}
		x, y := map[int]float64{}, map[int]float64{}
		for k, b := range v.Bones {
			x[b] += float64(v.BoneWeights[k])
		}
		for k, b := range o.Bones {
			y[b] += float64(o.BoneWeights[k])
		}
		if !sameWeights(x, y, 1e-5) {
			c.Fatalf("vertex %d has weights %v, had %v", vi, x, y)
		}
		c.ObsN("weight", len(x))
	}
	for i, mt := range m.Materials {
		q := g.Materials[i]
		t1, t2 := "", ""
		if mt.TextureID >= 0 {
			t1 = m.Textures[mt.TextureID]
		}
		if q.TextureID >= 0 {
			t2 = g.Textures[q.TextureID]
		}
		if q.Name != mt.Name || q.Color != mt.Color || t1 != t2 || q.Specularity != mt.Specularity || (q.Flags^mt.Flags)&1 != 0 {
			c.Fatalf("material %+v became %+v (%q -> %q)", mt, q, t1, t2)
		}
	}
	if len(m.Bones) != len(g.Bones) {
		c.Fatalf("%d bones became %d", len(m.Bones), len(g.Bones))
	}
	for i, x := range m.Bones {
		q := g.Bones[i]
		if q.Name != x.Name || q.ParentID != x.ParentID || !(v3(&q.Pos).dist(v3(&x.Pos)) <= 1e-4*(1+v3(&x.Pos).len())) {
			c.Fatalf("bone %d %+v became %+v", i, x, q)
		}
		c.Obs("bone")
	}
	gm := map[string]*mmd.Morph{}
	for _, x := range g.Morphs {
		gm[x.Name] = x
	}
	used := map[int]bool{}
	for _, f := range m.Faces {
		for _, v := range f.Verts {
			used[v] = true
		}
	}
	tol := func(k int) float64 { // vertices are moved and scaled as float32
		return 1e-7 + 2e-6*v3(&m.Vertexes[k].Pos).len()
	}
	for _, x := range m.Morphs {
		want := map[int]V3{}
		for _, v := range x.Vertex {
			if used[v.Target] {
				want[v.Target] = want[v.Target].add(v3(&v.Offset))
			}
		}
		if len(want) == 0 {
			continue
		}
		q := gm[x.Name]
		if q == nil {
			c.Fatalf("morph %s was lost", x.Name)
		}
		got := map[int]V3{}
		for _, v := range q.Vertex {
			got[int(g.Vertexes[v.Target].UV.X)] = v3(&v.Offset)
		}
		for k, w := range want {
			if !(w.dist(got[k]) <= tol(k)+1e-5*w.len()) {
				c.Fatalf("morph %s moves vertex %d by %v, want %v", x.Name, k, got[k], w)
			}
			c.Obs("morph_offset")
		}
		for k, w := range got {
			if _, ok := want[k]; !ok && w.len() > tol(k) {
				c.Fatalf("morph %s moves vertex %d by %v, it did not", x.Name, k, w)
			}
		}
	}
	if len(m.Bodies) != len(g.Bodies) {
		c.Fatalf("%d bodies became %d", len(m.Bodies), len(g.Bodies))
	}
	for i, x := range m.Bodies {
		q := g.Bodies[i]
		sx := v3(&x.Size)
		for k := range sx {
			sx[k] = math.Abs(sx[k])
		}
		if q.Name != x.Name || q.Bone != x.Bone || q.Shape != x.Shape || q.Group != x.Group || q.GroupTarget != x.GroupTarget || q.Mass != x.Mass || (q.Mode == 0) != (x.Mode == 0) || q.Rotation != x.Rotation ||
			!(v3(&q.Position).dist(v3(&x.Position)) <= 1e-4*(1+v3(&x.Position).len())) || !(v3(&q.Size).dist(sx) <= 1e-4*(1+sx.len())) {
			c.Fatalf("body %d %+v became %+v", i, x, q)
		}
		c.Obs("body")
	}
}
